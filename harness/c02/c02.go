// Package c02: statement flows produce exactly the permitted interleavings.
package c02

import (
	"fmt"
	"strings"

	"verifh/flow"
	"verifh/spec"
	"verifh/star"
	"verifh/sym"
	"verifh/ts"

	ast "fizz/proto"

	"github.com/fizzbee-io/fizzbee/modelchecker"
	"go.starlark.net/starlark"
)

func logOf(n *modelchecker.Node) string {
	l, ok := n.Heap.GetValue("log").(*starlark.List)
	sym.Assert(ok, "a global variable is lost")
	var xs []int
	for i := 0; i < l.Len(); i++ {
		xs = append(xs, star.IntOf(l.Index(i)))
	}
	return flow.Key(xs)
}

func check(p *flow.Prog, strategy string) {
	f := p.File()
	if !sym.InEngine() {
		sym.Show(fmt.Sprint(p))
	}
	c := spec.New(f, p.Options(), strategy)
	root, failed, err := c.Start()
	sym.Assert(err == nil && failed == nil, "exploring a valid program fails")
	sym.Cover("run")
	want := p.Reference()
	g := ts.Contract(root)
	got := flow.Ref{Logs: map[string]bool{}, Idle: map[string]bool{}, Steps: map[flow.Pair]bool{}}
	for _, n := range g.Nodes {
		l := logOf(n)
		got.Logs[l] = true
		if n.GetThreadsCount() == 0 {
			got.Idle[l] = true
		}
	}
	for _, e := range g.Edges {
		a, b := logOf(e.From), logOf(e.To)
		if a != b {
			got.Steps[flow.Pair{a, b}] = true
		}
	}
	if !sym.InEngine() {
		dump(want, got)
	}
	for l := range got.Logs {
		sym.Assert(want.Logs[l], "a state is reached that the statements do not permit")
	}
	for s := range got.Steps {
		sym.Assert(want.Steps[s], "a step is made that the statements do not permit")
	}
	for l := range got.Idle {
		sym.Assert(want.Idle[l], "an execution ends before its statements are done")
	}
	for l := range want.Logs {
		sym.Assert(got.Logs[l], "a state the statements permit is not reached")
	}
	for s := range want.Steps {
		sym.Assert(got.Steps[s], "a step the statements permit is not made")
	}
	for l := range want.Idle {
		sym.Assert(got.Idle[l], "an execution never ends although its statements are done")
	}
	sym.Cover(fmt.Sprint("logs", len(want.Logs)))
}

func dump(want, got flow.Ref) {
	for s := range want.Steps {
		if !got.Steps[s] {
			sym.Show(fmt.Sprint("missing step", s))
		}
	}
	for s := range got.Steps {
		if !want.Steps[s] {
			sym.Show(fmt.Sprint("extra step", s))
		}
	}
	for s := range want.Idle {
		if !got.Idle[s] {
			sym.Show(fmt.Sprint("missing idle", s))
		}
	}
	for s := range got.Idle {
		if !want.Idle[s] {
			sym.Show(fmt.Sprint("extra idle", s))
		}
	}
}

type gen struct {
	p     *flow.Prog
	n     int // log values
	q     int // conditions
	picks int
	v     int
	kinds []kind
	leafs []kind
}

type ctx struct {
	serial bool
	loop   bool
	fn     bool
	value  bool // in a function that returns a value
	alt    bool // an alternative of oneof or parallel: one statement
	depth  int
}

type kind int

const (
	kLog kind = iota
	kPass
	kIf
	kIfElse
	kFor
	kForAtomic
	kForPar
	kWhile
	kAtomic
	kSerial
	kOneof
	kPar
	kAny
	kPick
	kRequire
	kBreak
	kContinue
	kReturn
	kReturnVal
	kCall
	kCallSerial
	kCallVar
)

func (k kind) leaf() bool {
	switch k {
	case kLog, kPass, kPick, kRequire, kBreak, kContinue, kReturn, kReturnVal:
		return true
	}
	return false
}

func (k kind) allowed(g *gen, c ctx) bool {
	switch k {
	case kForPar, kPar:
		return c.serial && !c.alt
	case kForAtomic, kAtomic:
		return c.serial
	case kSerial:
		return c.serial && c.alt
	case kBreak, kContinue:
		return c.loop && !c.alt
	case kReturn:
		return !c.alt && !c.value
	case kReturnVal:
		return !c.alt
	case kPick, kRequire, kFor, kWhile:
		return !c.alt
	case kCall, kCallVar:
		return !(c.alt && k == kCallVar) && !c.fn && (!c.serial || g.p.Role)
	case kCallSerial:
		return !c.fn && c.serial && g.p.Role
	}
	return true
}

func (g *gen) log() *flow.S { g.n++; return &flow.S{K: flow.Log, N: g.n * 2} }
func (g *gen) cond() int    { g.q++; return g.q - 1 }
func (g *gen) name() string { g.v++; return fmt.Sprintf("v%d", g.v) }

// one is a short list of statements chosen by the solver.
func (g *gen) one(c ctx, d int) []*flow.S {
	ks := g.kinds
	if d == 0 {
		ks = g.leafs
	}
	var may []kind
	for _, k := range ks {
		if k.allowed(g, c) {
			may = append(may, k)
		}
	}
	g.picks++
	k := may[sym.Choose(fmt.Sprintf("k%d", g.picks), len(may))]
	return g.build(k, c, d)
}

// body is the inside of a compound statement: something and a log entry.
func (g *gen) body(c ctx, d int) []*flow.S {
	if c.alt {
		return g.one(c, d-1)
	}
	if d == 1 {
		return append(g.one(c, 0), g.log())
	}
	return append(g.one(c, d-1), g.log())
}

func (g *gen) build(k kind, c ctx, d int) []*flow.S {
	in := c
	in.alt = false
	one := func(s *flow.S) []*flow.S { return []*flow.S{s} }
	switch k {
	case kLog:
		return one(g.log())
	case kPass:
		return one(&flow.S{K: flow.Pass})
	case kIf, kIfElse:
		in.alt = c.alt
		s := &flow.S{K: flow.If, N: g.cond(), Body: g.body(in, d)}
		if k == kIfElse {
			s.Else = one(g.log())
		}
		return one(s)
	case kFor, kForAtomic:
		in.loop = true
		s := &flow.S{K: flow.For, V: g.name()}
		if k == kForAtomic {
			s.Flow, in.serial = spec.Atomic, false
		}
		s.Body = append(one(&flow.S{K: flow.LogVar, N: 2 * g.next(), V: s.V}), g.body(in, d)...)
		return one(s)
	case kForPar:
		in.loop, in.alt = false, true
		s := &flow.S{K: flow.For, V: g.name(), Flow: spec.Parallel}
		b := &flow.S{K: flow.Block, Flow: spec.Atomic}
		if sym.Flip(fmt.Sprintf("ser%d", g.picks)) {
			b.Flow = spec.Serial
		} else {
			in.serial = false
		}
		in.alt = false
		b.Body = append(one(&flow.S{K: flow.LogVar, N: 2 * g.next(), V: s.V}), g.body(in, d)...)
		s.Body = one(b)
		return one(s)
	case kWhile:
		in.loop = true
		return one(&flow.S{K: flow.While, N: g.cond(), Body: append(one(g.log()), g.one(in, d-1)...)})
	case kAtomic:
		in.serial = false
		return one(&flow.S{K: flow.Block, Flow: spec.Atomic, Body: g.body(in, d)})
	case kSerial:
		return one(&flow.S{K: flow.Block, Flow: spec.Serial, Body: g.body(in, d)})
	case kOneof, kPar:
		in.alt, in.loop = true, false
		s := &flow.S{K: flow.Block, Flow: spec.Oneof}
		if k == kPar {
			s.Flow = spec.Parallel
		}
		s.Body = append(g.one(in, d-1), g.log())
		return one(s)
	case kAny:
		in.alt = c.alt
		v := g.name()
		s := &flow.S{K: flow.AnyBlock, N: g.cond(), V: v}
		s.Body = one(&flow.S{K: flow.LogVar, N: 2 * g.next(), V: v})
		if !c.alt {
			s.Body = append(s.Body, g.one(in, d-1)...)
		}
		return one(s)
	case kPick:
		v := g.name()
		return []*flow.S{{K: flow.Pick, N: g.cond(), V: v}, {K: flow.LogVar, N: 2 * g.next(), V: v}}
	case kRequire:
		return []*flow.S{{K: flow.Require, N: g.cond()}, g.log()}
	case kBreak, kContinue, kReturn, kReturnVal:
		s := &flow.S{K: map[kind]flow.Kind{kBreak: flow.Break, kContinue: flow.Continue, kReturn: flow.Return, kReturnVal: flow.ReturnVal}[k], N: 2 * g.next()}
		return one(&flow.S{K: flow.If, N: g.cond(), Body: one(s)})
	case kCall, kCallSerial, kCallVar:
		in = ctx{fn: true, value: k == kCallVar}
		f := &flow.Fn{Name: fmt.Sprintf("F%d", len(g.p.Fns)), Flow: spec.Atomic}
		if k == kCallSerial {
			f.Flow, in.serial = spec.Serial, true
		}
		f.Body = append(one(g.log()), g.one(in, d-1)...)
		g.p.Fns = append(g.p.Fns, f)
		if k == kCallVar {
			f.Body = append(f.Body, &flow.S{K: flow.ReturnVal, N: 2 * g.next()})
			v := g.name()
			return []*flow.S{{K: flow.CallVar, F: f, V: v}, {K: flow.LogVar, N: 2 * g.next(), V: v}}
		}
		return one(&flow.S{K: flow.Call, F: f})
	}
	panic("kind")
}

func (g *gen) next() int { g.n++; return g.n }

var leafs = []kind{kLog, kPass, kPick, kRequire, kBreak, kContinue, kReturn, kReturnVal}
var compounds = []kind{kIf, kIfElse, kFor, kForAtomic, kForPar, kWhile, kAtomic, kSerial, kOneof, kPar, kAny, kCall, kCallSerial, kCallVar}

func program(fl ast.Flow, role bool, depth int, kinds, leafs []kind) *flow.Prog {
	p := flow.New()
	p.Flow, p.Role = fl, role
	g := &gen{p: p, kinds: kinds, leafs: leafs}
	p.Body = g.one(ctx{serial: fl == spec.Serial}, depth)
	if sym.Flip("after") {
		p.Body = append(p.Body, g.log())
	} else {
		p.Body = append([]*flow.S{g.log()}, p.Body...)
	}
	return p
}

func pick(xs ...ast.Flow) ast.Flow { return xs[sym.Choose("flow", len(xs))] }

func H_shallow() {
	check(program(pick(spec.Atomic, spec.Serial), false, 1, compounds, leafs), "bfs")
}

// another action runs at the yield points
func H_other() {
	p := program(pick(spec.Atomic, spec.Serial), false, 1, compounds, leafs)
	p.Other = true
	check(p, "bfs")
}

func H_role() {
	check(program(pick(spec.Serial, spec.Atomic), true, 1, compounds, leafs), "bfs")
}

// two levels of nesting
func H_deep() {
	check(program(pick(spec.Serial, spec.Atomic), false, 2, compounds, leafs), "bfs")
}

func H_deepOther() {
	p := program(pick(spec.Serial, spec.Atomic), false, 2, compounds, []kind{kLog})
	p.Other = true
	check(p, "bfs")
}

func H_deepRole() {
	p := program(spec.Serial, true, 2, append([]kind{kCall, kCallSerial, kCallVar}, kIf, kFor, kOneof, kPar, kAtomic), []kind{kLog, kReturn, kReturnVal})
	p.Other = true
	check(p, "bfs")
}

func more(quick, thorough int) int {
	if sym.Tier() > 0 {
		return thorough
	}
	return quick
}

func H_dfs() {
	p := program(spec.Serial, false, more(1, 2), compounds, []kind{kLog, kBreak})
	p.Other = true
	check(p, "dfs")
}

// random exploration order: every order
func H_random() {
	p := program(spec.Serial, false, 1, []kind{kOneof, kPar, kAtomic, kIf}, []kind{kLog})
	p.Other = sym.Tier() > 0
	check(p, "random")
}

// two executions of the same action overlap
func H_twice() {
	kinds := []kind{kIf, kIfElse, kForAtomic, kAtomic, kOneof, kAny}
	if sym.Tier() > 0 {
		kinds = append(kinds, kFor, kCall, kPar)
	}
	p := program(pick(spec.Serial, spec.Atomic), false, 1, kinds, []kind{kLog, kReturn, kRequire})
	p.Self = 2
	check(p, "bfs")
}

// executions may be lost at every yield point
func H_crash() {
	p := program(pick(spec.Serial, spec.Atomic), false, more(1, 2), compounds, []kind{kLog, kReturn})
	p.Other, p.Crash = true, true
	check(p, "bfs")
}

// Many statements in one block, many iterations of one loop: every order of a
// parallel block of five, with one of them of any kind.
func H_wide() {
	p := flow.New()
	n := 5
	log := func(i int) *flow.S { return &flow.S{K: flow.Log, N: 10 + i} }
	var b *flow.S
	what := sym.Choose("what", 4)
	switch what {
	case 0, 1: // parallel block, oneof block
		b = &flow.S{K: flow.Block, Flow: []ast.Flow{spec.Parallel, spec.Oneof}[what]}
		kind := sym.Choose("kind", 4)
		if what == 0 && kind != 0 {
			n = more(4, 5) // the largest state spaces
		}
		odd := sym.Choose("odd", n)
		for i := 0; i < n; i++ {
			s := log(i)
			if i == odd {
				switch kind {
				case 1:
					s = &flow.S{K: flow.Block, Flow: spec.Atomic, Body: []*flow.S{s, log(n)}}
				case 2:
					s = &flow.S{K: flow.Block, Flow: spec.Serial, Body: []*flow.S{s, log(n)}}
				case 3:
					s = &flow.S{K: flow.If, N: 1, Body: []*flow.S{s}}
				}
			}
			b.Body = append(b.Body, s)
		}
	default: // parallel and serial loop
		b = &flow.S{K: flow.For, N: n, V: "v", Flow: []ast.Flow{spec.Parallel, spec.Serial}[what-2], Body: []*flow.S{{K: flow.LogVar, N: 10, V: "v"}}}
	}
	p.Flow = spec.Serial
	p.Body = []*flow.S{b, log(9)}
	check(p, []string{"bfs", "dfs"}[sym.Choose("strategy", more(1, 2))])
}

// Sample is a program of one compound statement for other properties.
func Sample(fl ast.Flow, role bool, thorough bool) *flow.Prog {
	kinds := []kind{kIf, kForAtomic, kOneof, kPar, kAny, kCallSerial}
	if thorough {
		kinds = compounds
	}
	return program(fl, role, 1, kinds, []kind{kLog, kReturn, kRequire})
}

// The value an action returns is recorded on the step that ends it.
func H_returns() {
	role, fl := sym.Flip("role"), pick(spec.Serial, spec.Atomic)
	form := sym.Choose("form", 4)
	sym.Assume(form != 2 || role || fl == spec.Atomic)
	vals := map[int]starlark.Value{}
	val := func(n int) starlark.Value {
		if _, ok := vals[n]; !ok {
			vals[n] = []starlark.Value{starlark.None, starlark.MakeInt(0), starlark.String("x"), starlark.NewList([]starlark.Value{starlark.MakeInt(7)})}[sym.Choose(fmt.Sprint("val", n), 4)]
		}
		return vals[n]
	}
	cond := map[int]bool{}
	taken := func(n int) bool {
		if _, ok := cond[n]; !ok {
			cond[n] = sym.Flip(fmt.Sprint("c", n))
		}
		return cond[n]
	}
	twos := func(l starlark.Value) (n int) {
		for _, v := range star.Elems(l) {
			if star.IntOf(v) == 2 {
				n++
			}
		}
		return
	}
	spec.Builtin("val", func(a []starlark.Value) starlark.Value { return val(twos(a[0])) })
	spec.Builtin("c", func(a []starlark.Value) starlark.Value { return starlark.Bool(taken(twos(a[0]))) })
	inherit := ast.Flow_FLOW_UNKNOWN
	body := []*ast.Statement{spec.Py("log = log + [2]")}
	recv, name := "", "A"
	if role {
		recv, name = "self", "R#0.A"
	}
	switch form {
	case 0:
		body = append(body, spec.Return("val(log)"))
	case 1:
		body = append(body, spec.If("c(log)", spec.Block(inherit, spec.Return("val(log)")), nil))
	case 2:
		body = append(body, spec.Call([]string{"x"}, recv, "F"), spec.Return("x"))
	case 3:
		body = append(body, spec.Any("v", "[3, 4]", "", spec.Block(inherit, spec.Return("v"))))
	}
	a := spec.Action("A", spec.Block(fl, body...))
	other := []*ast.Statement{spec.Py("log = log + [90]")}
	says := sym.Flip("says")
	if says {
		other = append(other, spec.Return("5"))
	}
	ini := []*ast.Statement{spec.Py("log = []")}
	if role {
		ini = append(ini, spec.Py("r = R()"))
	}
	acts := []*ast.Action{spec.Action("Init", spec.Block(spec.Atomic, ini...))}
	if !role {
		acts = append(acts, a)
	}
	f := spec.File(append(acts, spec.Action("B", spec.Block(spec.Atomic, other...)))...)
	fn := spec.Func("F", spec.Atomic, nil, spec.Return("val(log)"))
	if role {
		f.Roles = append(f.Roles, spec.Role("R", []*ast.Action{a}, fn))
	} else {
		f.Functions = append(f.Functions, fn)
	}
	o := spec.Options(3, 2, false, false)
	o.ActionOptions = map[string]*ast.Options{name: {MaxActions: 2, MaxConcurrentActions: 1}, "B": {MaxActions: 1}}
	c := spec.New(f, o, "bfs")
	apart := sym.Flip("apart") // returned values are not part of the state
	c.SetExperimentalNoStateReturns(apart)
	root, failed, err := c.Start()
	c.SetExperimentalNoStateReturns(false)
	sym.Assert(err == nil && failed == nil, "exploring a valid program fails")
	sym.Cover("run")
	for _, e := range ts.Contract(root).Edges {
		got := map[string]starlark.Value{}
		choice := ""
		for _, l := range e.Links {
			for k, v := range l.Returns {
				got[k] = v
			}
			if strings.HasPrefix(l.Name, "Any:") {
				choice = l.Name
			}
		}
		key, want := "", starlark.Value(starlark.None)
		switch {
		case e.Name == "B":
			key = "B"
			if says {
				want = starlark.MakeInt(5)
			}
		case e.To.GetThreadsCount() == 0 || e.To.GetThreadsCount() < e.From.GetThreadsCount():
			key = name
			n := twos(e.To.Heap.GetValue("log"))
			if form == 3 {
				want = starlark.MakeInt(3)
				if strings.HasSuffix(choice, "4") {
					want = starlark.MakeInt(4)
				}
			} else if form != 1 || taken(n) {
				want = val(n)
			}
		}
		if want == starlark.None {
			sym.Assert(len(got) == 0, "a step that returns nothing has a returned value")
			continue
		}
		sym.Assert(len(got) == 1 && got[key] != nil && got[key].String() == want.String(), "a step does not have the value its action returned")
	}
}
