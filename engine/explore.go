package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Harness struct {
	name    string
	fn      *Func
	stack   []*Item
	steps   int64 // executed instructions
	busy    int
	paths   int64
	forks   int64
	aborts  map[string]int64
	msgs    map[string]int64 // unsupported / limit messages
	asserts map[string]int64
	covers  map[string]int64
	maxDecs int
	done    bool
	rng     uint64
	samples []Sample
	fallbk  []map[string]uint64
	wall    time.Duration
}

type Sample struct {
	H     string            `json:"harness"`
	Model map[string]uint64 `json:"model"`
	Obs   []string          `json:"obs"`
}

type Violation struct {
	Harness string            `json:"harness"`
	Label   string            `json:"label"`
	Kind    string            `json:"kind"`
	Model   map[string]uint64 `json:"model"`
	Stack   string            `json:"stack"`
	Native  string            `json:"native,omitempty"`
}

type Explorer struct {
	p             *Prog
	unconstrained bool
	maxSteps      int64
	gc            sync.Mutex
	known         map[string]bool // harness|label of known findings
	foundNew      bool            // a counterexample that is not one of them
	mu            sync.Mutex
	cond          *sync.Cond
	hs            []*Harness
	byName        map[string]*Harness
	deadline      time.Time
	stopped       bool
	active        int
	viol          []*Violation
	violCount     map[string]int
	unknowns      int64
	discharged    int64
	discTriv      int64
	workers       []*Worker
	stats         []*SolverStats
	tier          int
	sampleN       int
	hits          []uint64
	maxViol       int
}

func newExplorer(p *Prog) *Explorer {
	e := &Explorer{p: p, maxSteps: 400_000_000, byName: map[string]*Harness{}, known: map[string]bool{}, violCount: map[string]int{}, sampleN: 6, maxViol: 4}
	e.cond = sync.NewCond(&e.mu)
	return e
}

func (e *Explorer) push(it *Item) {
	e.mu.Lock()
	it.h.stack = append(it.h.stack, it)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Explorer) noteFork(w *Worker) {
	atomic.AddInt64(&w.h.forks, 1)
	if forkProfile {
		w.forkSite[w.stackString()]++
	}
}

var forkProfile = os.Getenv("VERIF_FORKS") != ""

func (e *Explorer) noteUnknown() { atomic.AddInt64(&e.unknowns, 1) }

func (e *Explorer) countAssert(h *Harness, label string) {
	e.mu.Lock()
	h.asserts[label]++
	e.mu.Unlock()
}

func (e *Explorer) noteDischarged(bySolver bool) {
	if bySolver {
		atomic.AddInt64(&e.discharged, 1)
	} else {
		atomic.AddInt64(&e.discTriv, 1)
	}
}

func (e *Explorer) violation(w *Worker, label string, model map[string]uint64, kind string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	k := w.h.name + "|" + label
	if !e.known[k] && !e.foundNew {
		// The verdict is decided; look a little further for others.
		e.foundNew = true
		if d := time.Now().Add(20 * time.Second); d.Before(e.deadline) {
			e.deadline = d
		}
		atomic.StoreInt64(&e.maxSteps, 20_000_000)
	}
	e.violCount[k]++
	if e.violCount[k] > e.maxViol {
		return
	}
	e.viol = append(e.viol, &Violation{Harness: w.h.name, Label: label, Kind: kind, Model: model, Stack: w.stackString()})
}

// next picks an item from the harness that has consumed least.
func (e *Explorer) next() *Item {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stopped || time.Now().After(e.deadline) {
			e.stopped = true
			e.cond.Broadcast()
			return nil
		}
		var best *Harness
		for _, h := range e.hs {
			if len(h.stack) > 0 && (best == nil || h.steps < best.steps) {
				best = h
			}
		}
		if best != nil {
			n := len(best.stack) - 1
			it := best.stack[n]
			best.stack[n] = nil
			best.stack = best.stack[:n]
			e.active++
			best.busy++
			return it
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *Explorer) finish(it *Item) {
	e.mu.Lock()
	e.active--
	it.h.busy--
	if e.active == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (e *Explorer) run(nworkers int) error {
	for _, h := range e.hs {
		h.stack = append(h.stack, &Item{h: h, model: map[string]uint64{}})
	}
	// wake sleepers at the deadline
	go func() {
		time.Sleep(time.Until(e.deadline) + 50*time.Millisecond)
		e.cond.Broadcast()
	}()
	var wg sync.WaitGroup
	errs := make(chan error, nworkers)
	for i := 0; i < nworkers; i++ {
		st := &SolverStats{}
		e.stats = append(e.stats, st)
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			w, err := newWorker(id, e.p, e, st)
			if err != nil {
				errs <- err
				e.mu.Lock()
				e.stopped = true
				e.mu.Unlock()
				e.cond.Broadcast()
				return
			}
			e.mu.Lock()
			e.workers = append(e.workers, w)
			e.mu.Unlock()
			for {
				it := e.next()
				if it == nil {
					break
				}
				w.runPath(it)
				e.finish(it)
			}
			w.solver.stop()
		}(i)
	}
	wg.Wait()
	for _, w := range e.workers {
		for i, c := range w.hits {
			for len(e.hits) <= i {
				e.hits = append(e.hits, 0)
			}
			e.hits[i] += uint64(c)
		}
	}
	select {
	case err := <-errs:
		return err
	default:
	}
	return nil
}

func newWorker(id int, p *Prog, e *Explorer, st *SolverStats) (w *Worker, err error) {
	w = &Worker{id: id, p: p, e: e, forkSite: map[string]int{}, shaMemo: map[string]string{}, covers: map[string]bool{}}
	w.globals = make([]any, len(p.glist))
	for i, g := range p.glist {
		t := p.types.get(g.Type()).elem
		w.globals[i] = t.newCell().O
	}
	w.solver = newSolver(st)
	w.h = &Harness{name: "init", asserts: map[string]int64{}}
	w.beginPath(&Item{})
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case abort:
				err = fmt.Errorf("package initialisation: %s: %s", x.kind, x.msg)
			case *goPanic:
				err = fmt.Errorf("package initialisation panics: %s (%#v) at %s", w.panicText(x), x.v.O, x.stack)
			default:
				err = fmt.Errorf("package initialisation: %v in %s\n%s", r, w.stackString(), debug.Stack())
			}
		}
	}()
	for _, pk := range p.pkgs {
		sp := p.ssa.Package(pk.Types)
		if sp == nil {
			continue
		}
		w.call(p.fn(sp.Func("init")), nil, nil, nil)
	}
	// every map alive now must be snapshotted before a path mutates it
	seen := map[any]bool{}
	for _, g := range w.globals {
		markBase(g, seen)
	}
	w.jmaps, w.jcells = nil, nil
	w.journal = true
	return w, nil
}

// markBase marks all maps reachable from v as belonging to the initial state.
func markBase(o any, seen map[any]bool) {
	var walk func(o any)
	var stack []any
	push := func(o any) {
		switch o.(type) {
		case *Value, *Struct, *Array, *Map, *Iface, *Closure:
			if !seen[o] {
				seen[o] = true
				stack = append(stack, o)
			}
		case Tuple:
			for _, v := range o.(Tuple) {
				if v.O != nil {
					walk(v.O)
				}
			}
		}
	}
	walk = push
	push(o)
	for len(stack) > 0 {
		o := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		switch x := o.(type) {
		case *Value:
			if x.O != nil {
				push(x.O)
			}
		case *Struct:
			for i := range x.F {
				if x.F[i].O != nil {
					push(x.F[i].O)
				}
			}
		case *Array:
			for i := range x.E {
				if x.E[i].O != nil {
					push(x.E[i].O)
				}
			}
		case *Map:
			x.base = true
			for i := range x.ents {
				if x.ents[i].k.O != nil {
					push(x.ents[i].k.O)
				}
				if x.ents[i].v.O != nil {
					push(x.ents[i].v.O)
				}
			}
		case *Iface:
			if x.V.O != nil {
				push(x.V.O)
			}
		case *Closure:
			for i := range x.Env {
				if x.Env[i].O != nil {
					push(x.Env[i].O)
				}
			}
		}
	}
}

func (w *Worker) panicText(gp *goPanic) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "(unprintable panic value)"
		}
	}()
	if gp.v.O == nil {
		return "nil"
	}
	d, stk, fsp, arena := w.depth, len(w.callstk), w.fsp, w.frames
	defer func() { w.depth, w.callstk, w.fsp, w.frames = d, w.callstk[:stk], fsp, arena }()
	return w.concreteStr(w.sprint([]Value{gp.v}, false))
}

func (w *Worker) runPath(it *Item) {
	h := it.h
	w.h = h
	t0 := time.Now()
	w.beginPath(it)
	kind, msg := "done", ""
	var pmodel map[string]uint64
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case abort:
				kind, msg = x.kind, x.msg
			case *goPanic:
				kind = "panic"
				stk := x.stack
				msg = w.panicText(x)
				_ = stk
				w.e.violation(w, "uncaught panic: "+trunc(msg, 160)+" ["+firstFn(stk)+"]", w.modelByName(), "panic")
			default:
				kind = "internal"
				msg = fmt.Sprintf("%v in %s", r, w.stackString())
				if os.Getenv("VERIF_DEBUG") != "" {
					os.Stderr.Write(debug.Stack())
				}
			}
		}()
		w.call(h.fn, nil, nil, nil)
	}()
	_ = pmodel
	var smp *Sample
	if kind == "done" {
		w.e.mu.Lock()
		n := h.aborts["done"]
		want := len(h.samples) < w.e.sampleN || n < 4096 && n&(n-1) == 0
		w.e.mu.Unlock()
		if want {
			func() {
				defer func() {
					if r := recover(); r != nil {
						smp = nil
					}
				}()
				s := &Sample{H: h.name, Model: w.modelByName()}
				for _, o := range w.obs {
					s.Obs = append(s.Obs, o.label+"="+w.evalObs(o.val))
				}
				smp = s
			}()
		}
	}
	w.e.mu.Lock()
	h.paths++
	h.steps += w.steps + 1000
	h.aborts[kind]++
	h.wall += time.Since(t0)
	if len(w.decs) > h.maxDecs {
		h.maxDecs = len(w.decs)
	}
	if kind == "unsupported" || kind == "limit" || kind == "internal" || kind == "solver" || kind == "exit" {
		h.msgs[kind+": "+trunc(msg, 400)]++
		if len(h.fallbk) < 40 {
			h.fallbk = append(h.fallbk, w.modelByName())
		}
	}
	if smp != nil {
		h.samples = append(h.samples, *smp)
	}
	for c := range w.covers {
		h.covers[c]++
		delete(w.covers, c)
	}
	w.e.mu.Unlock()
	w.rollback()
}

func firstFn(stk string) string {
	for _, s := range strings.Split(stk, " < ") {
		if s != "" {
			return s
		}
	}
	return ""
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// evalObs renders an observed value under the current model.
func (w *Worker) evalObs(v Value) string {
	if v.O == nil {
		return "<nil>"
	}
	i := v.O.(*Iface)
	switch i.T.k {
	case kBool:
		if t := i.V.term(); t != nil {
			return fmt.Sprint(w.model.eval(t) != 0)
		}
		return fmt.Sprint(i.V.N != 0)
	case kInt:
		if t := i.V.term(); t != nil {
			return fmt.Sprint(sext(w.model.eval(t), t.w))
		}
		return fmt.Sprint(int64(i.V.N))
	case kUint:
		if t := i.V.term(); t != nil {
			return fmt.Sprint(w.model.eval(t))
		}
		return fmt.Sprint(i.V.N)
	case kString:
		return w.evalStr(i.V)
	}
	return "?"
}

func (w *Worker) evalStr(v Value) string {
	var sb strings.Builder
	for _, g := range strSegs(v) {
		switch g.k {
		case segLit:
			sb.WriteString(g.lit)
		case segDec:
			n := w.model.eval(g.t)
			if g.sg {
				fmt.Fprint(&sb, sext(n, g.t.w))
			} else {
				fmt.Fprint(&sb, n)
			}
		case segHashHex:
			fmt.Fprintf(&sb, "%x", w.sha(w.evalStr(Value{O: g.sub})))
		case segHashRaw:
			sb.WriteString(w.sha(w.evalStr(Value{O: g.sub})))
		}
	}
	return sb.String()
}

func (e *Explorer) repoFuncs(prefixes ...string) []string {
	var out []string
	for i, c := range e.hits {
		if c == 0 || i >= len(e.p.flist) {
			continue
		}
		n := e.p.flist[i].name
		for _, p := range prefixes {
			if strings.Contains(n, p) {
				out = append(out, n)
				break
			}
		}
	}
	sort.Strings(out)
	return out
}
