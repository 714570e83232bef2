// Package flow is a reference interpreter for statement flows. A program is
// built once; it yields the tree the checker executes and, independently, the
// states the language reference says can be observed at yield points.
//
// Rules (LANGUAGE_REFERENCE: Flow Modifiers, Yield Points, Action Enabling
// Semantics): a statement that finishes in a serial context yields if something
// executable ran since the last yield; atomic contexts never yield; oneof runs
// one alternative; parallel runs the alternatives in every order with a yield
// between them; control flow neither enables nor yields; a false require
// undoes the whole step.
package flow

import (
	ast "fizz/proto"
	"fmt"
	"sort"
	"strings"

	"verifh/spec"
	"verifh/sym"

	"go.starlark.net/starlark"
)

type Kind int

const (
	Log    Kind = iota // log = log + [N] (log.append(N) for every other one)
	LogVar             // log = log + [N + V]
	Pass
	If        // if c(N): Body else: Else
	For       // for V in [0, 1, ... N-1] (N = 0: [0, 1]): Body
	While     // while c(N): Body
	Block     // Flow: Body
	AnyBlock  // any V in some(N): Body
	Pick      // V = any avail(N)
	Require   // require c(N)
	Return    // return
	ReturnVal // return N
	Break
	Continue
	Call    // F()
	CallVar // V = F()
	Set     // V = f(N, Args...): V is the state s or a local variable (data mode)
)

type S struct {
	K    Kind
	N    int
	V    string
	Flow ast.Flow
	Body []*S
	Else []*S
	F    *Fn
	Args []string // variables (Set, and data mode calls)
	id   int
}

// values are the values a for statement goes through.
func (s *S) values() (l []int) {
	for i := 0; i < s.N || s.N == 0 && i < 2; i++ {
		l = append(l, i)
	}
	return
}

type Fn struct {
	Name   string
	Flow   ast.Flow
	Body   []*S
	Params []string
}

// Prog is a program: an action A (in a role or global), functions, and
// conditions given by symbolic tables.
type Prog struct {
	Flow  ast.Flow
	Body  []*S
	Role  bool
	Other bool // a second, atomic action that logs 90
	Self  int  // executions of A (default 1)
	Fns   []*Fn
	Crash bool
	Cap   int // conditions distinguish log lengths up to Cap; while loops end there
	// Data is the number of values of the state s, which then replaces the
	// log, so that executions can meet again; actions run without limits on
	// their number, Conc at a time.
	Data  int
	Conc  int
	cond  map[string]bool
	val   map[string]int
	avail map[int][]int
	ids   int
}

// C is the symbolic condition q at a log of length n.
func (p *Prog) C(q, n int) bool {
	if n > p.Cap {
		n = p.Cap
	}
	k := fmt.Sprintf("c%d@%d", q, n)
	v, ok := p.cond[k]
	if !ok {
		v = sym.Flip(k)
		p.cond[k] = v
	}
	return v
}

// W is a while condition: false once the log is long.
func (p *Prog) W(q, n int) bool { return n < p.Cap && p.C(q, n) }

// Avail is the symbolic collection q.
func (p *Prog) Avail(q int) []int {
	v, ok := p.avail[q]
	if !ok {
		v = [][]int{{}, {0}, {0, 1}}[sym.Choose(fmt.Sprintf("avail%d", q), 3)]
		p.avail[q] = v
	}
	return v
}

// Some is the symbolic non-empty collection q.
func (p *Prog) Some(q int) []int {
	v, ok := p.avail[q]
	if !ok {
		v = [][]int{{0}, {0, 1}}[sym.Choose(fmt.Sprintf("some%d", q), 2)]
		p.avail[q] = v
	}
	return v
}

// F is the symbolic function q in data mode.
func (p *Prog) F(q int, args []int) int {
	k := fmt.Sprint("f", q, args)
	v, ok := p.val[k]
	if !ok {
		v = sym.Choose(k, p.Data)
		p.val[k] = v
	}
	return v
}

// at is what conditions depend on.
func (p *Prog) at(log []int) int {
	if p.Data > 0 {
		return log[0]
	}
	return len(log)
}

func New() *Prog {
	return &Prog{Cap: 3, Self: 1, Conc: 1, val: map[string]int{}, cond: map[string]bool{}, avail: map[int][]int{}}
}

// ---- program tree

func (p *Prog) stmts(b []*S) []*ast.Statement {
	var out []*ast.Statement
	for _, s := range b {
		p.ids++
		s.id = p.ids
		out = append(out, p.stmt(s))
	}
	return out
}

func (p *Prog) stmt(s *S) *ast.Statement {
	inherit := ast.Flow_FLOW_UNKNOWN
	switch s.K {
	case Log:
		if s.N%4 == 0 {
			return spec.Call(nil, "log", "append", fmt.Sprint(s.N))
		}
		return spec.Py(fmt.Sprintf("log = log + [%d]", s.N))
	case LogVar:
		return spec.Py(fmt.Sprintf("log = log + [%d + %s]", s.N, s.V))
	case Pass:
		return spec.Py("pass")
	case If:
		var els *ast.Block
		if s.Else != nil {
			els = spec.Block(inherit, p.stmts(s.Else)...)
		}
		return spec.If(fmt.Sprintf("c(%d, %s)", s.N, p.state()), spec.Block(inherit, p.stmts(s.Body)...), els)
	case For:
		return spec.For(s.Flow, s.V, strings.ReplaceAll(fmt.Sprint(s.values()), " ", ", "), spec.Block(inherit, p.stmts(s.Body)...))
	case While:
		return spec.While(s.Flow, fmt.Sprintf("w(%d, %s)", s.N, p.state()), spec.Block(inherit, p.stmts(s.Body)...))
	case Block:
		return spec.Nest(spec.Block(s.Flow, p.stmts(s.Body)...))
	case AnyBlock:
		return spec.Any(s.V, fmt.Sprintf("some(%d)", s.N), "", spec.Block(inherit, p.stmts(s.Body)...))
	case Pick:
		return spec.Pick(s.V, fmt.Sprintf("avail(%d)", s.N), "")
	case Require:
		return spec.Require(fmt.Sprintf("c(%d, %s)", s.N, p.state()))
	case Set:
		return spec.Py(fmt.Sprintf("%s = f(%d, %s)", s.V, s.N, strings.Join(s.Args, ", ")))
	case Return:
		return spec.Return("")
	case ReturnVal:
		if s.V != "" {
			return spec.Return(s.V)
		}
		return spec.Return(fmt.Sprint(s.N))
	case Break:
		return spec.Break()
	case Continue:
		return spec.Continue()
	case Call, CallVar:
		var vars []string
		if s.K == CallVar {
			vars = []string{s.V}
		}
		recv := ""
		if p.Role {
			recv = "self"
		}
		return spec.Call(vars, recv, s.F.Name, s.Args...)
	}
	panic("kind")
}

func (p *Prog) state() string {
	if p.Data > 0 {
		return "s"
	}
	return "log"
}

func at(v starlark.Value) int {
	if l, ok := v.(*starlark.List); ok {
		return l.Len()
	}
	x, _ := starlark.AsInt32(v)
	return x
}

// Table makes the symbolic functions callable as f(q, args...).
func (p *Prog) Table() {
	spec.Builtin("f", func(a []starlark.Value) starlark.Value {
		q, _ := starlark.AsInt32(a[0])
		var xs []int
		for _, v := range a[1:] {
			x, _ := starlark.AsInt32(v)
			xs = append(xs, x)
		}
		return starlark.MakeInt(p.F(q, xs))
	})
}

// File is the program as the parser would build it; it also defines the
// builtins the program calls.
func (p *Prog) File() *ast.File {
	spec.Builtin("c", func(a []starlark.Value) starlark.Value {
		q, _ := starlark.AsInt32(a[0])
		return starlark.Bool(p.C(q, at(a[1])))
	})
	p.Table()
	spec.Builtin("w", func(a []starlark.Value) starlark.Value {
		q, _ := starlark.AsInt32(a[0])
		return starlark.Bool(p.W(q, at(a[1])))
	})
	list := func(vs []int) starlark.Value {
		var xs []starlark.Value
		for _, v := range vs {
			xs = append(xs, starlark.MakeInt(v))
		}
		return starlark.NewList(xs)
	}
	spec.Builtin("some", func(a []starlark.Value) starlark.Value {
		q, _ := starlark.AsInt32(a[0])
		return list(p.Some(q))
	})
	spec.Builtin("avail", func(a []starlark.Value) starlark.Value {
		q, _ := starlark.AsInt32(a[0])
		return list(p.Avail(q))
	})
	a := spec.Action("A", spec.Block(p.Flow, p.stmts(p.Body)...))
	var funcs []*ast.Function
	for _, f := range p.Fns {
		funcs = append(funcs, spec.Func(f.Name, f.Flow, f.Params, p.stmts(f.Body)...))
	}
	ini := []*ast.Statement{spec.Py("log = []")}
	other := spec.Py("log = log + [90]")
	if p.Data > 0 {
		ini[0], other = spec.Py("s = 0"), spec.Py("s = f(90, s)")
	}
	if p.Role {
		ini = append(ini, spec.Py("r = R()"))
	}
	acts := []*ast.Action{spec.Action("Init", spec.Block(spec.Atomic, ini...))}
	if !p.Role {
		acts = append(acts, a)
	}
	if p.Other {
		acts = append(acts, spec.Action("B", spec.Block(spec.Atomic, other)))
	}
	f := spec.File(acts...)
	if p.Role {
		f.Roles = append(f.Roles, spec.Role("R", []*ast.Action{a}, funcs...))
	} else {
		f.Functions = funcs
	}
	return f
}

func (p *Prog) Options() *ast.StateSpaceOptions {
	if p.Data > 0 {
		return spec.Options(1000, int64(p.Conc), p.Crash, false)
	}
	n := int64(p.Self)
	if p.Other {
		n++
	}
	o := spec.Options(n, n, p.Crash, false)
	name := "A"
	if p.Role {
		name = "R#0.A"
	}
	o.ActionOptions = map[string]*ast.Options{name: {MaxActions: int64(p.Self)}}
	if p.Other {
		o.ActionOptions["B"] = &ast.Options{MaxActions: 1}
	}
	return o
}

// ---- reference interpreter

type frame int

const (
	seq frame = iota
	loop
	while
	par
	call
)

type cont struct {
	kind frame
	body []*S
	i    int
	s    *S
	rem  []int
	flow ast.Flow
	env  map[string]int // of the caller (call frames)
	next *cont
}

type thread struct {
	k   *cont
	env map[string]int
}

type outcome struct {
	t       *thread // nil: finished
	log     []int
	enabled bool
}

type machine struct {
	p   *Prog
	out []outcome
}

type step struct {
	log     []int
	env     map[string]int
	enabled bool
}

func (s step) with(v string, x int) step {
	e := map[string]int{}
	for k, y := range s.env {
		e[k] = y
	}
	e[v] = x
	s.env = e
	return s
}

func (s step) get(vars []string) (xs []int) {
	for _, v := range vars {
		if v == "s" {
			xs = append(xs, s.log[0])
		} else {
			xs = append(xs, s.env[v])
		}
	}
	return
}

func (s step) add(x int) step {
	s.log = append(append([]int{}, s.log...), x)
	s.enabled = true
	return s
}

func inherit(f, outer ast.Flow) ast.Flow {
	if f == ast.Flow_FLOW_UNKNOWN {
		return outer
	}
	return f
}

// done: a statement of the context k has finished.
func (m *machine) done(k *cont, s step) {
	if k != nil && s.enabled {
		last := k.kind == par && k.s == nil && len(k.rem) == 0
		if k.flow == spec.Serial || k.flow == spec.Parallel && !last {
			m.out = append(m.out, outcome{rest(k, s.env), s.log, true})
			return
		}
	}
	m.run(k, s)
}

// rest is what is left to do: blocks and calls with nothing left are done.
func rest(k *cont, env map[string]int) *thread {
	for k != nil {
		switch {
		case k.kind == seq && k.i == len(k.body):
		case k.kind == call && k.s.K == Call:
			env = k.env
		default:
			return &thread{k, env}
		}
		k = k.next
	}
	return nil
}

func (m *machine) run(k *cont, s step) {
	if k == nil {
		m.out = append(m.out, outcome{nil, s.log, s.enabled})
		return
	}
	switch k.kind {
	case seq:
		if k.i == len(k.body) {
			m.done(k.next, s)
			return
		}
		n := *k
		n.i++
		m.exec(k.body[k.i], &n, s)
	case call:
		s.env = k.env
		if k.s.K == CallVar {
			s.enabled = true
			s = s.with(k.s.V, -1) // None: programs never log it
		}
		m.done(k.next, s)
	case loop:
		if len(k.rem) == 0 {
			m.done(k.next, s)
			return
		}
		pick := []int{0}
		if k.flow == spec.Parallel {
			pick = nil
			for i := range k.rem {
				pick = append(pick, i)
			}
		}
		for _, i := range pick {
			n := *k
			n.rem = without(k.rem, i)
			m.run(&cont{kind: seq, body: k.s.Body, flow: inner(k.flow), next: &n}, s.with(k.s.V, k.rem[i]))
		}
	case while:
		if !m.p.W(k.s.N, m.p.at(s.log)) {
			m.done(k.next, s)
			return
		}
		n := *k
		m.run(&cont{kind: seq, body: k.s.Body, flow: k.flow, next: &n}, s)
	case par:
		if len(k.rem) == 0 {
			m.done(k.next, s)
			return
		}
		for i := range k.rem {
			n := *k
			n.rem = without(k.rem, i)
			m.exec(k.body[k.rem[i]], &n, s)
		}
	}
}

// inner is the flow of a block that inherits: alternatives of oneof and
// parallel blocks are single statements, for which there is nothing to yield.
func inner(f ast.Flow) ast.Flow {
	if f == spec.Parallel || f == spec.Oneof {
		return spec.Atomic
	}
	return f
}

func without(xs []int, i int) []int {
	var out []int
	for j, x := range xs {
		if j != i {
			out = append(out, x)
		}
	}
	return out
}

func (m *machine) exec(s *S, k *cont, st step) {
	switch s.K {
	case Log:
		m.done(k, st.add(s.N))
	case LogVar:
		m.done(k, st.add(s.N+st.env[s.V]))
	case Set:
		x := m.p.F(s.N, st.get(s.Args))
		if s.V == "s" {
			st.log = []int{x}
		} else {
			st = st.with(s.V, x)
		}
		st.enabled = true
		m.done(k, st)
	case Pass:
		st.enabled = true
		m.done(k, st)
	case If:
		b := s.Body
		if !m.p.C(s.N, m.p.at(st.log)) {
			b = s.Else
		}
		if b == nil {
			m.done(k, st)
			return
		}
		m.run(&cont{kind: seq, body: b, flow: inner(k.flow), next: k}, st)
	case For:
		m.run(&cont{kind: loop, s: s, rem: s.values(), flow: inherit(s.Flow, k.flow), next: k}, st)
	case While:
		m.run(&cont{kind: while, s: s, flow: inherit(s.Flow, k.flow), next: k}, st)
	case Block:
		switch s.Flow {
		case spec.Oneof:
			for _, b := range s.Body {
				m.run(&cont{kind: seq, body: []*S{b}, flow: spec.Oneof, next: k}, st)
			}
		case spec.Parallel:
			var rem []int
			for i := range s.Body {
				rem = append(rem, i)
			}
			m.run(&cont{kind: par, body: s.Body, rem: rem, flow: spec.Parallel, next: k}, st)
		default:
			m.run(&cont{kind: seq, body: s.Body, flow: s.Flow, next: k}, st)
		}
	case AnyBlock:
		for _, x := range m.p.Some(s.N) {
			m.run(&cont{kind: seq, body: s.Body, flow: inner(k.flow), next: k}, st.with(s.V, x))
		}
	case Pick:
		for _, x := range m.p.Avail(s.N) {
			n := st.with(s.V, x)
			n.enabled = true
			m.run(k, n) // a choice is not a yield point
		}
	case Require:
		if m.p.C(s.N, m.p.at(st.log)) {
			m.done(k, st)
		}
	case Return, ReturnVal:
		for k != nil && k.kind != call {
			k = k.next
		}
		if k == nil {
			if s.K == ReturnVal {
				st.enabled = true
			}
			if st.enabled {
				m.out = append(m.out, outcome{nil, st.log, true})
			} else {
				m.run(nil, st)
			}
			return
		}
		x := -1
		if s.K == ReturnVal {
			x = s.N
			if s.V != "" {
				x = st.get([]string{s.V})[0]
			}
		}
		st.env = k.env
		if k.s.K == CallVar {
			st.enabled = true
			st = st.with(k.s.V, x)
		}
		m.done(k.next, st)
	case Break:
		for k.kind != loop && k.kind != while {
			k = k.next
		}
		m.done(k.next, st)
	case Continue:
		for k.kind != loop && k.kind != while {
			k = k.next
		}
		m.done(k, st)
	case Call, CallVar:
		f := &cont{kind: call, s: s, env: st.env, flow: spec.Atomic, next: k}
		args := st.get(s.Args)
		st.env = map[string]int{}
		for i, v := range s.F.Params {
			st.env[v] = args[i]
		}
		m.run(&cont{kind: seq, body: s.F.Body, flow: s.F.Flow, next: f}, st)
	}
}

// Pair is an observable step.
type Pair struct{ From, To string }

// Ref is what may be observed: logs at yield points, logs with no execution
// under way, and steps that change the log.
type Ref struct {
	Logs, Idle map[string]bool
	Steps      map[Pair]bool
	// Count is the number of situations per log and number of threads.
	Count map[Pair]int
	// Stay are the states in which a whole execution of A can change nothing.
	Stay map[string]bool
	// Moved counts them apart by which of the different executions moved last.
	Moved map[Pair]int
}

func Key(log []int) string { return fmt.Sprint(log) }

func envKey(e map[string]int) string {
	var ks []string
	for v, x := range e {
		ks = append(ks, fmt.Sprint(v, x))
	}
	sort.Strings(ks)
	return fmt.Sprint(ks)
}

func (k *cont) key() string {
	if k == nil {
		return "."
	}
	id := 0
	if k.s != nil {
		id = k.s.id
	} else {
		id = k.body[0].id
	}
	return fmt.Sprintf("%d/%d/%d/%v/%s/%s", k.kind, id, k.i, k.rem, envKey(k.env), k.next.key())
}

func (p *Prog) Reference() Ref {
	r := Ref{map[string]bool{}, map[string]bool{}, map[Pair]bool{}, map[Pair]int{}, map[string]bool{}, map[Pair]int{}}
	type global struct {
		log  []int
		ts   []*thread
		a, b int
	}
	key := func(g global) string {
		var ks []string
		for _, t := range g.ts {
			ks = append(ks, t.k.key()+envKey(t.env))
		}
		sort.Strings(ks)
		return fmt.Sprint(g.log, ks, g.a, g.b)
	}
	seen := map[string]bool{}
	todo := []global{{}}
	if p.Data > 0 {
		todo[0].log = []int{0}
	}
	seen[key(todo[0])] = true
	push := func(g global) {
		if k := key(g); !seen[k] {
			seen[k] = true
			todo = append(todo, g)
		}
	}
	for len(todo) > 0 {
		g := todo[0]
		todo = todo[1:]
		from := Key(g.log)
		r.Logs[from] = true
		situation := Pair{from, fmt.Sprint(len(g.ts))}
		r.Count[situation]++
		different := map[string]bool{}
		for _, t := range g.ts {
			different[t.k.key()+envKey(t.env)] = true
		}
		if len(g.ts) == 0 {
			different["none"] = true
		}
		r.Moved[situation] += len(different)
		if len(g.ts) == 0 {
			r.Idle[from] = true
		}
		to := func(n global) {
			if k := Key(n.log); k != from {
				r.Steps[Pair{from, k}] = true
			}
			push(n)
		}
		for i, t := range g.ts {
			var rest []*thread
			rest = append(append(rest, g.ts[:i]...), g.ts[i+1:]...)
			if p.Crash {
				push(global{g.log, rest, g.a, g.b})
			}
			m := &machine{p: p}
			m.run(t.k, step{log: g.log, env: t.env})
			for _, o := range m.out {
				n := append([]*thread{}, rest...)
				if o.t != nil {
					n = append(n, o.t)
				}
				to(global{o.log, n, g.a, g.b})
			}
		}
		if p.Data > 0 {
			g.a, g.b = 0, 0
		}
		if g.a < p.Self && (p.Data == 0 || len(g.ts) < p.Conc) {
			m := &machine{p: p}
			m.run(&cont{kind: seq, body: p.Body, flow: p.Flow}, step{log: g.log, env: map[string]int{}})
			for _, o := range m.out {
				n := append([]*thread{}, g.ts...)
				if o.t != nil {
					n = append(n, o.t)
				}
				// finishing without a trace is not distinguishable from not running
				if o.t == nil && o.enabled && Key(o.log) == from && len(g.ts) == 0 {
					r.Stay[from] = true
				}
				a := g.a + 1
				if p.Data > 0 {
					a = 0
				}
				to(global{o.log, n, a, g.b})
			}
		}
		if p.Other && g.b == 0 && (p.Data == 0 || len(g.ts) < p.Conc) {
			if p.Data > 0 {
				to(global{[]int{p.F(90, g.log)}, g.ts, 0, 0})
			} else {
				to(global{append(append([]int{}, g.log...), 90), g.ts, g.a, 1})
			}
		}
	}
	return r
}

// String is the program's source text.
func (p *Prog) String() string {
	out := fmt.Sprintf("action A %v role=%v\n%s", p.Flow, p.Role, text(p.Body, 1))
	for _, f := range p.Fns {
		out += fmt.Sprintf("func %s %v\n%s", f.Name, f.Flow, text(f.Body, 1))
	}
	return out
}

func text(b []*S, d int) string {
	pad := fmt.Sprintf("%*s", 2*d, "")
	out := ""
	for _, s := range b {
		switch s.K {
		case If:
			out += fmt.Sprintf("%sif c%d:\n%s", pad, s.N, text(s.Body, d+1))
			if s.Else != nil {
				out += pad + "else:\n" + text(s.Else, d+1)
			}
		case For:
			out += fmt.Sprintf("%s%v for %s:\n%s", pad, s.Flow, s.V, text(s.Body, d+1))
		case While:
			out += fmt.Sprintf("%s%v while w%d:\n%s", pad, s.Flow, s.N, text(s.Body, d+1))
		case Block:
			out += fmt.Sprintf("%s%v:\n%s", pad, s.Flow, text(s.Body, d+1))
		case AnyBlock:
			out += fmt.Sprintf("%sany %s in some%d:\n%s", pad, s.V, s.N, text(s.Body, d+1))
		case Set:
			out += fmt.Sprintf("%s%s = f%d(%v)\n", pad, s.V, s.N, s.Args)
		case Call, CallVar:
			out += fmt.Sprintf("%s%s call %s\n", pad, s.V, s.F.Name)
		default:
			out += fmt.Sprintf("%s%s %d %s\n", pad, [...]string{"log", "log+", "pass", "", "", "", "", "", "pick", "require", "return", "return", "break", "continue"}[s.K], s.N, s.V)
		}
	}
	return out
}
