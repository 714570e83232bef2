package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"sort"
	"strings"
)

type abort struct{ kind, msg string }

type goPanic struct {
	v     Value // interface value
	stack string
}

type Decision struct {
	val   uint64
	conc  bool
	taken bool
}

type Item struct {
	h      *Harness
	prefix []Decision
	model  map[string]uint64
}

type cellSnap struct {
	p   *Value
	old Value
}
type mapSnap struct{ m, saved *Map }

type Worker struct {
	id      int
	p       *Prog
	e       *Explorer
	pool    *TermPool
	solver  *Solver
	globals []any
	journal bool
	jcells  []cellSnap
	jmaps   []mapSnap
	onceMap map[any]bool
	pathAux map[any]any

	// path state
	prefix    []Decision
	pos       int
	decs      []Decision
	model     *Model
	mver      int32
	vars      []*Term
	varNames  map[string]int
	byName    map[string]*Term
	initVals  map[string]uint64
	sent      int // path conditions already sent to the solver
	known     map[*Term]bool
	pc        []*Term
	steps     int64
	nextCheck int64
	hashPre   map[string]string
	shaMemo   map[string]string
	obs       []Obs
	outText   strings.Builder
	h         *Harness
	asserts   int
	covers    map[string]bool
	depth     int
	hits      []uint32
	callstk   []*Func
	frames    []Value // register arena
	fsp       int
	frPool    []*Frame
	forkSite  map[string]int
	randSeq   int
	mapRev    bool
}

type Obs struct {
	label string
	val   Value
}

func (w *Worker) set(p *Value, v Value) {
	if w.journal {
		w.jcells = append(w.jcells, cellSnap{p, *p})
	}
	*p = v
}

func (w *Worker) rollback() {
	for i := len(w.jcells) - 1; i >= 0; i-- {
		*w.jcells[i].p = w.jcells[i].old
	}
	for i := range w.jcells {
		w.jcells[i] = cellSnap{}
	}
	w.jcells = w.jcells[:0]
	for i := len(w.jmaps) - 1; i >= 0; i-- {
		s := w.jmaps[i]
		*s.m = *s.saved
		s.m.base = true
	}
	w.jmaps = w.jmaps[:0]
}

func (w *Worker) beginPath(it *Item) {
	w.pool = newTermPool()
	w.prefix = it.prefix
	w.pos = 0
	w.decs = w.decs[:0]
	w.mver++
	w.model = &Model{ver: w.mver, vals: map[*Term]uint64{}}
	w.vars = nil
	w.varNames = map[string]int{}
	w.byName = map[string]*Term{}
	w.initVals = it.model
	w.known = map[*Term]bool{}
	w.pc = nil
	w.sent = 0
	w.steps, w.nextCheck = 0, checkEvery
	w.obs = nil
	w.outText.Reset()
	w.asserts = 0
	w.depth = 0
	w.callstk = w.callstk[:0]
	w.fsp = 0
	w.randSeq = 0
	w.mapRev = false
	w.pathAux = map[any]any{}
	w.hashPre = map[string]string{}
	w.solver.reset()
}

func (w *Worker) newModel(vals map[*Term]uint64) {
	w.mver++
	old := w.model
	w.model = &Model{ver: w.mver, vals: vals}
	for _, v := range w.vars {
		if _, ok := vals[v]; !ok {
			vals[v] = old.vals[v]
		}
	}
}

func (w *Worker) sha(s string) string {
	if r, ok := w.shaMemo[s]; ok {
		w.hashPre[r] = s
		w.hashPre[fmt.Sprintf("%x", r)] = s
		return r
	}
	h := sha256.Sum256([]byte(s))
	r := string(h[:])
	if len(w.shaMemo) > 20000 {
		w.shaMemo = map[string]string{}
	}
	w.shaMemo[s] = r
	w.hashPre[r] = s
	w.hashPre[fmt.Sprintf("%x", r)] = s
	return r
}

// fresh creates a symbolic input.
func (w *Worker) fresh(name string, width uint8) *Term {
	k := w.varNames[name]
	w.varNames[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	t := w.pool.variable(name, width)
	w.vars = append(w.vars, t)
	w.byName[name] = t
	w.model.vals[t] = w.initVals[name]
	w.mver++
	w.model.ver = w.mver
	return t
}

func (w *Worker) addPC(c *Term) {
	if c.isConst() {
		return
	}
	w.known[c] = true
	w.pc = append(w.pc, c)
	// decompose conjunctions for the known-facts table
	if c.op == TAnd {
		w.known[c.a[0]] = true
		w.known[c.a[1]] = true
	}
}

func (w *Worker) lookupKnown(c *Term) (bool, bool) {
	if w.known[c] {
		return true, true
	}
	if w.known[w.pool.not(c)] {
		return false, true
	}
	return false, false
}

func (w *Worker) modelByName() map[string]uint64 {
	m := make(map[string]uint64, len(w.vars))
	for _, v := range w.vars {
		m[v.name] = w.model.vals[v]
	}
	return m
}

func (w *Worker) truth(v Value) bool {
	if v.O == nil {
		return v.N != 0
	}
	return w.branch(v.O.(*Term))
}

func (w *Worker) branch(c *Term) bool {
	if c.isConst() {
		return c.n != 0
	}
	if v, ok := w.lookupKnown(c); ok {
		return v
	}
	return w.decide(c, false, 0)
}

// decide takes one side of a condition, queueing the other side if it is feasible.
func (w *Worker) decide(c *Term, conc bool, val uint64) bool {
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.decs = append(w.decs, d)
		if d.taken {
			w.addPC(c)
		} else {
			w.addPC(w.pool.not(c))
		}
		return d.taken
	}
	mv := w.model.eval(c) != 0
	if w.e.unconstrained {
		// concrete replay inside the engine: no forking
		w.decs = append(w.decs, Decision{val, conc, mv})
		w.prefix = append(w.prefix, Decision{val, conc, mv})
		w.pos++
		return mv
	}
	other := c
	if mv {
		other = w.pool.not(c)
	}
	r, vals := w.sat(other)
	if r == "sat" {
		w.e.noteFork(w)
		m := make(map[string]uint64, len(vals))
		for t, v := range vals {
			m[t.name] = v
		}
		pf := make([]Decision, len(w.decs)+1)
		copy(pf, w.decs)
		pf[len(w.decs)] = Decision{val, conc, !mv}
		w.e.push(&Item{w.h, pf, m})
	} else if r == "unknown" {
		w.e.noteUnknown()
	}
	d := Decision{val, conc, mv}
	w.decs = append(w.decs, d)
	w.prefix = w.decs
	w.pos = len(w.decs)
	if mv {
		w.addPC(c)
	} else {
		w.addPC(w.pool.not(c))
	}
	return mv
}

// concretize forks until the term has one value on this path.
func (w *Worker) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.n
	}
	if v, ok := w.pathAux[t]; ok {
		return v.(uint64)
	}
	for i := 0; ; i++ {
		var v uint64
		if w.pos < len(w.prefix) {
			v = w.prefix[w.pos].val
			if !w.prefix[w.pos].conc && t.w != 0 {
				panic(abort{kind: "internal", msg: "replay divergence"})
			}
		} else {
			v = w.model.eval(t)
		}
		c := w.pool.eq(t, w.pool.konst(v, t.w))
		var b bool
		if kv, ok := w.lookupKnown(c); ok {
			b = kv
			if !b {
				panic(abort{kind: "internal", msg: "model contradicts path condition"})
			}
		} else if c.isConst() {
			b = c.n != 0
		} else {
			b = w.decide(c, true, v)
		}
		if b {
			w.pathAux[t] = v
			return v
		}
		if i > 4096 {
			panic(abort{kind: "limit", msg: "too many values for a concretised term"})
		}
	}
}

func (w *Worker) assume(v Value) {
	if v.O == nil {
		if v.N == 0 {
			panic(abort{kind: "assume"})
		}
		return
	}
	c := v.O.(*Term)
	if kv, ok := w.lookupKnown(c); ok {
		if !kv {
			panic(abort{kind: "assume"})
		}
		return
	}
	if w.e.unconstrained {
		if w.model.eval(c) == 0 {
			panic(abort{kind: "assume"})
		}
		return
	}
	if w.pos < len(w.prefix) {
		w.addPC(c)
		return
	}
	if w.model.eval(c) == 0 {
		r, vals := w.sat(c)
		if r != "sat" {
			if r == "unknown" {
				w.e.noteUnknown()
			}
			panic(abort{kind: "assume"})
		}
		w.newModel(vals)
	}
	w.addPC(c)
}

func (w *Worker) assertCond(v Value, label string) {
	w.asserts++
	w.e.countAssert(w.h, label)
	if v.O == nil {
		if v.N == 0 {
			if w.pos < len(w.prefix) {
				// already reported by the path that reached this point first
				panic(abort{kind: "assume"})
			}
			w.e.violation(w, label, w.modelByName(), "assert")
			panic(abort{kind: "assert-failed", msg: label})
		}
		w.e.noteDischarged(false)
		return
	}
	c := v.O.(*Term)
	if kv, ok := w.lookupKnown(c); ok {
		if kv {
			w.e.noteDischarged(false)
			return
		}
		w.e.violation(w, label, w.modelByName(), "assert")
		panic(abort{kind: "assert-failed", msg: label})
	}
	if w.e.unconstrained {
		if w.model.eval(c) == 0 {
			w.e.violation(w, label, w.modelByName(), "assert")
			panic(abort{kind: "assert-failed", msg: label})
		}
		return
	}
	if w.pos < len(w.prefix) {
		w.addPC(c)
		return
	}
	r, vals := w.sat(w.pool.not(c))
	switch r {
	case "sat":
		m := map[string]uint64{}
		for t, x := range vals {
			m[t.name] = x
		}
		w.e.violation(w, label, m, "assert")
		w.assume(v)
		return
	case "unknown":
		w.e.noteUnknown()
	default:
		w.e.noteDischarged(true)
	}
	w.addPC(c)
}

func (w *Worker) goPanic(msg string) {
	panic(&goPanic{v: w.p.runtimeError(strings.TrimPrefix(msg, "runtime error: ")), stack: w.stackString()})
}

func (w *Worker) unsupported(msg string) {
	panic(abort{kind: "unsupported", msg: msg + " in " + w.stackString()})
}

func (w *Worker) stackString() string {
	var names []string
	n := len(w.callstk)
	for i := n - 1; i >= 0 && i > n-9; i-- {
		names = append(names, w.callstk[i].name)
	}
	return strings.Join(names, " < ")
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// sat decides whether the path condition and c hold together.  A satisfying assignment next to the current
// model is looked for first; everything else, and every "no", is the solver's verdict.
func (w *Worker) sat(c *Term) (string, map[*Term]uint64) {
	if m := w.nearby(c); m != nil {
		w.solver.stats.Nearby++
		return "sat", m
	}
	for ; w.sent < len(w.pc); w.sent++ {
		w.solver.assert(w.pc[w.sent])
	}
	r, m := w.solver.check(c, w.vars)
	if r == "sat" {
		w.mver++
		tm := &Model{ver: w.mver, vals: m}
		if tm.eval(c) == 0 {
			w.solver.stats.Errors++
			fmt.Fprintln(os.Stderr, "engine: solver model does not satisfy the query")
			return "unknown", nil
		}
	}
	return r, m
}

func (w *Worker) nearby(c *Term) map[*Term]uint64 {
	sup := c.support()
	var vs []*Term
	for i, word := range sup {
		for b := 0; b < 64; b++ {
			if word>>uint(b)&1 == 1 {
				vs = append(vs, w.vars[i*64+b])
			}
		}
	}
	tries := 0
	cur := w.model.vals
	for k := len(vs) - 1; k >= 0 && tries < 64; k-- {
		v := vs[k]
		var cand []uint64
		switch {
		case v.w == 0:
			cand = []uint64{1 - cur[v]}
		case v.hi-v.lo >= 0 && v.hi-v.lo <= 16:
			for x := v.lo; x <= v.hi; x++ {
				if n := uint64(x) & mask(v.w); n != cur[v] {
					cand = append(cand, n)
				}
			}
		default:
			for _, d := range []int64{1, -1} {
				x := sext(cur[v], v.w) + d
				if x >= v.lo && x <= v.hi {
					cand = append(cand, uint64(x)&mask(v.w))
				}
			}
		}
		for _, n := range cand {
			tries++
			old := cur[v]
			cur[v] = n
			w.mver++
			tm := Model{ver: w.mver, vals: cur}
			ok := tm.eval(c) != 0
			if ok {
				for _, p := range w.pc {
					s := p.support()
					if int(v.vidx/64) < len(s) && s[v.vidx/64]>>uint(v.vidx%64)&1 == 1 && tm.eval(p) == 0 {
						ok = false
						break
					}
				}
			}
			if ok {
				m := make(map[*Term]uint64, len(cur))
				for t, x := range cur {
					m[t] = x
				}
				cur[v] = old
				return m
			}
			cur[v] = old
		}
	}
	return nil
}
