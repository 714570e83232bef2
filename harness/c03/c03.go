// Package c03: states are merged exactly when they are the same.
package c03

import (
	"fmt"

	"verifh/flow"
	"verifh/spec"
	"verifh/star"
	"verifh/sym"
	"verifh/ts"

	ast "fizz/proto"

	"github.com/fizzbee-io/fizzbee/lib"
	"github.com/fizzbee-io/fizzbee/modelchecker"
	"go.starlark.net/starlark"
)

func key(n *modelchecker.Node) string { return flow.Key([]int{star.IntOf(n.Heap.GetValue("s"))}) }

// check compares the number of nodes and the steps between them with the
// situations of the reference interpreter.
func check(p *flow.Prog, strategy string) {
	f := p.File()
	sym.Show(fmt.Sprint(p))
	root, failed, err := spec.New(f, p.Options(), strategy).Start()
	sym.Assert(err == nil && failed == nil, "exploring a valid program fails")
	sym.Cover("run")
	want := p.Reference()
	g := ts.Contract(root)
	count := map[flow.Pair]int{}
	for _, n := range g.Nodes {
		count[flow.Pair{key(n), fmt.Sprint(n.GetThreadsCount())}]++
	}
	for k, n := range want.Count {
		sym.Show(fmt.Sprint("situations ", k, " want ", n, " got ", count[k]))
		sym.Assert(count[k] >= n, "different situations are merged")
		sym.Assert(count[k] <= want.Moved[k], "the same situation is two states")
	}
	for k := range count {
		sym.Assert(want.Count[k] > 0, "a situation is reached that the statements do not permit")
	}
	steps, stay := map[flow.Pair]bool{}, map[string]bool{}
	for _, e := range g.Edges {
		a, b := key(e.From), key(e.To)
		if e.From == e.To && e.Name == "A" && e.From.GetThreadsCount() == 0 {
			stay[a] = true
			sym.Assert(want.Stay[a], "an action that does nothing is a step")
		}
		if a != b {
			steps[flow.Pair{a, b}] = true
			sym.Assert(want.Steps[flow.Pair{a, b}], "a step is made that the statements do not permit")
		}
	}
	for k := range want.Steps {
		sym.Assert(steps[k], "a step the statements permit is not made")
	}
	for k := range want.Stay {
		sym.Assert(stay[k], "a step that leaves the state as it was is not made")
	}
	sym.Cover(fmt.Sprint("situations", len(g.Nodes)))
}

func data(fl ast.Flow, body ...*flow.S) *flow.Prog {
	p := flow.New()
	p.Data, p.Flow, p.Body, p.Other = 2, fl, body, true
	p.Conc = 2
	return p
}

var fn = 0

// set is v = f(args) with a fresh function.
func set(v string, args ...string) *flow.S {
	fn++
	return &flow.S{K: flow.Set, N: fn, V: v, Args: args}
}

func more(quick, thorough int) int {
	if sym.Tier() > 0 {
		return thorough
	}
	return quick
}

var strategies = []string{"bfs", "dfs"}

func strategy() string { return strategies[sym.Choose("strategy", more(1, 2))] }

// a local variable carries a value over a yield point
func H_local() {
	p := data(spec.Serial, set("x", "s"), set("s", "x", "s"))
	p.Role = sym.Flip("role")
	check(p, strategy())
}

// two local variables
func H_locals() {
	p := data(spec.Serial, set("x", "s"), set("y", "s"), set("s", "x", "y"))
	p.Other = false
	check(p, "bfs")
}

// the same statement reached with and without an earlier one
func H_branch() {
	p := data(spec.Serial, set("x", "s"), &flow.S{K: flow.If, N: 1, Body: []*flow.S{set("x", "x"), set("s", "s")}}, set("s", "x"))
	p.Other = false
	p.Conc = more(1, 2)
	check(p, "bfs")
}

func call(params []string, args []string, body ...*flow.S) *flow.S {
	fn++
	f := &flow.Fn{Name: fmt.Sprintf("F%d", fn), Flow: spec.Serial, Params: params, Body: body}
	return &flow.S{K: flow.Call, F: f, Args: args}
}

func calling(ss ...*flow.S) *flow.Prog {
	p := data(spec.Serial, ss...)
	p.Role = true
	var add func(b []*flow.S)
	add = func(b []*flow.S) {
		for _, s := range b {
			if s.F != nil {
				p.Fns = append(p.Fns, s.F)
				add(s.F.Body)
			}
		}
	}
	add(ss)
	return p
}

// a call argument carries a value over a yield point in the function
func H_args() {
	check(calling(call([]string{"p"}, []string{"s"}, set("s", "s"), set("s", "p", "s"))), "bfs")
}

func H_args2() {
	p := calling(call([]string{"p", "q"}, []string{"s", "x"}, set("s", "s"), set("s", "p", "q")))
	p.Body = append([]*flow.S{set("x", "s")}, p.Body...)
	p.Conc, p.Other = 1, true
	check(p, "bfs")
}

// the caller's local variable and the callee's have the same name
func H_callerLocal() {
	p := calling(set("x", "s"), call([]string{"p"}, []string{"s"}, set("x", "p"), set("s", "x", "p")), set("s", "x", "s"))
	p.Other, p.Conc = false, more(1, 2)
	check(p, "bfs")
}

// a result on its way to the caller
func H_result() {
	c := call(nil, nil, set("y", "s"), set("s", "s"), &flow.S{K: flow.ReturnVal, V: "y"})
	c.K, c.V = flow.CallVar, "x"
	p := calling(c, set("s", "x", "s"))
	p.Other, p.Conc = false, more(1, 2)
	check(p, "bfs")
}

// two call sites of one function
func H_sites() {
	c := call([]string{"p"}, []string{"s"}, set("s", "s"), set("s", "p"))
	d := *c
	p := data(spec.Serial, c, &d)
	p.Role, p.Fns = true, []*flow.Fn{c.F}
	p.Other, p.Conc = false, more(1, 2)
	check(p, "bfs")
}

// an execution two calls deep differs in the function in the middle: in where
// it has got to, or in the value of its variable
func H_middle() {
	k := call(nil, nil, set("s", "s"), set("s"))
	p := calling(call(nil, nil, k, k))
	if sym.Flip("variable") {
		p = calling(call([]string{"p"}, []string{"s"}, k, set("s", "p", "s")))
	} else {
		p = data(spec.Serial, p.Body...)
		p.Role, p.Fns = true, []*flow.Fn{p.Body[0].F, k.F}
	}
	p.Other, p.Conc = true, 1
	check(p, "bfs")
}

// the remaining iterations of a loop, and its variable
func H_loop() {
	p := data(spec.Serial, &flow.S{K: flow.For, V: "v", Body: []*flow.S{set("s", "v", "s")}}, set("s", "s"))
	p.Other = sym.Flip("other")
	check(p, "bfs")
}

// the iterations of a parallel loop that remain
func H_parLoop() {
	p := data(spec.Serial, &flow.S{K: flow.For, V: "v", Flow: spec.Parallel, Body: []*flow.S{set("s", "v", "s")}}, set("s", "s"))
	p.Other, p.Conc = false, more(1, 2)
	check(p, strategy())
}

// the statements of a parallel block that remain
func H_par() {
	p := data(spec.Serial, set("x", "s"), &flow.S{K: flow.Block, Flow: spec.Parallel, Body: []*flow.S{set("s", "s"), set("s", "x"), set("s", "x", "s")}}, set("s", "s"))
	if sym.Tier() == 0 {
		p.Body[1].Body = p.Body[1].Body[1:]
	}
	p.Other, p.Conc = false, more(1, 2)
	check(p, "bfs")
}

func H_while() {
	p := data(spec.Serial, set("x", "s"), &flow.S{K: flow.While, N: 1, Body: []*flow.S{set("x", "x", "s"), set("s", "x")}})
	p.Other, p.Conc = false, 1
	p.Cap = 100
	check(p, "bfs")
}

// a bound variable
func H_any() {
	p := data(spec.Serial, &flow.S{K: flow.AnyBlock, V: "v", N: 1, Body: []*flow.S{set("s", "s"), set("s", "v", "s")}})
	p.Other = false
	check(p, strategy())
}

func H_pick() {
	p := data(spec.Serial, &flow.S{K: flow.Pick, V: "v", N: 1}, set("s", "s"), set("s", "v", "s"))
	p.Other = false
	check(p, "bfs")
}

// executions lost at yield points
func H_crash() {
	p := data(spec.Serial, set("x", "s"), set("s", "x", "s"), set("s", "s"))
	p.Crash = true
	p.Other = false
	check(p, strategy())
}

// three values of the state
func H_wide() {
	p := data(spec.Serial, set("x", "s"), set("s", "x"))
	p.Data, p.Other = 3, false
	check(p, "bfs")
}

// alternatives of one step that meet in the same state, having done something
// or nothing so far
func H_progress() {
	p := data(spec.Atomic, &flow.S{K: flow.Block, Flow: spec.Oneof, Body: []*flow.S{
		set("s", "s"),
		{K: flow.If, N: 1, Body: []*flow.S{set("s", "s")}},
	}}, &flow.S{K: flow.AnyBlock, V: "v", N: 1, Body: []*flow.S{{K: flow.If, N: 2, Body: []*flow.S{set("s", "s", "v")}}}})
	if sym.Flip("swap") {
		b := p.Body[0].Body
		b[0], b[1] = b[1], b[0]
	}
	p.Conc, p.Other = 1, false
	check(p, strategy())
}

// values: each class holds expressions for one value; a state holding a value
// of one class is another state than one holding a value of another class.
var classes = [][]string{
	{"None"},
	{"True", "not False"},
	{"1", "3 - 2"},
	{"-1", "1 - 2"},
	{"1.0", "2.0 / 2"},
	{`"1"`, `"" + "1"`},
	{`"true"`},
	{`b"1"`},
	{`b"\xff"`},
	{`b"\xfe"`},
	{`"a\"b"`, `'a"b'`},
	{`"a\\\"b"`},
	{"[]", "[1][1:]"},
	{"()"},
	{"{}", "dict()"},
	{"set([])"},
	{"[1, 2]", "[1] + [2]"},
	{"(1, 2)"},
	{"[2, 1]"},
	{"set([1, 2])", "set([2, 1])"},
	{"range(1, 3)"},
	{"[[1], 2]"},
	{"[(1,), 2]"},
	{`["1", "2"]`},
	{`["1,2"]`, `["1" + ",2"]`},
	{`["1\",\"2"]`},
	{`{"a": 1, "b": 2}`, `{"b": 2, "a": 1}`, `dict([("b", 2), ("a", 1)])`},
	{`record(a=1, b=2)`, `record(b=2, a=1)`},
	{`struct(a=1, b=2)`},
	{`genericmap({"a": 1, "b": 2})`, `genericmap({"b": 2, "a": 1})`},
	{`{"a": 2, "b": 1}`},
	{`{1: 2}`},
	{`{"1": 2}`},
	{`{(1, 2): 3}`},
	{`{"(1, 2)": 3}`},
	{`{None: 3}`},
	{`{"None": 3}`},
	{`genericset([[1], [2]])`, `genericset([[2], [1]])`, `genericset([[1], [2], [1]])`},
	{`bag([[1], [2]])`, `bag([[2], [1]])`},
	{`bag([[1], [2], [1]])`, `bag([[1], [1], [2]])`},
	{`[[1], [2]]`},
	{`genericmap({(1, 2): 2})`},
	{`genericmap({"(1, 2)": 2})`},
	{`r`},
	{`"role R#0"`},
	{`[r]`},
	{`["role R#0"]`},
	{nested(24, "1")},
	{nested(24, "2")},
	{nested(24, "1", "")},
}

func nested(n int, x ...string) string {
	v := x[0]
	for i := 0; i < n; i++ {
		v = "[" + v + "]"
	}
	if len(x) > 1 {
		v = "[" + v + "]"
	}
	return v
}

// hold is a program in which each value of a class is held in one place of the
// state; it returns the number of situations per class.
func hold(where int) (*ast.File, int) {
	f := spec.File()
	role := spec.Role("R", []*ast.Action{spec.Action("Init", spec.Block(spec.Atomic, spec.Py("self.x = 'init'")))})
	f.Roles = append(f.Roles, role)
	ini := spec.Block(spec.Atomic, spec.Py("s = 'init'"), spec.Py("r = R()"))
	form := []string{"s = %s", "r.x = %s", "s = [%s]", "s = {'k': (%s,)}", "s = record(k=%s)", "s = genericmap()\ns[%s] = 1", "s = genericset([%s])", "s = %s", "s = %s", "s = %s", "%s"}[where]
	var all []*ast.Statement
	for _, c := range classes {
		for _, e := range c {
			st := spec.Py(fmt.Sprintf(form, e))
			if form == "%s" {
				st = spec.Return(e)
			}
			all = append(all, st)
		}
	}
	f.Actions = []*ast.Action{spec.Action("Init", ini), spec.Action("B", spec.Block(spec.Oneof, all...))}
	reset := spec.Py("s = 'init'")
	var a *ast.Block
	per := 1
	switch where {
	case 7: // local variable
		a, per = spec.Block(spec.Serial, spec.Py("x = s"), reset, spec.Py("pass")), 3
	case 8: // remaining values and variable of a loop
		a, per = spec.Block(spec.Serial, spec.For(ast.Flow_FLOW_UNKNOWN, "v", "['0', s]", spec.Block(ast.Flow_FLOW_UNKNOWN, reset)), spec.Py("pass")), 3
	case 9: // argument
		role.Functions = []*ast.Function{spec.Func("F", spec.Serial, []string{"p"}, reset, spec.Py("pass"))}
		a, per = spec.Block(spec.Serial, spec.Call(nil, "self", "F", "s")), 2
	default:
		return f, 1
	}
	role.Actions = append(role.Actions, spec.Action("A", a))
	return f, per
}

// H_values: values of every type in every place of the state
func H_values() {
	places := 11
	where := sym.Choose("where", places)
	f, per := hold(where)
	o := spec.Options(1000, 1, false, false)
	o.ActionOptions = map[string]*ast.Options{"B": {MaxActions: 1}}
	root, failed, err := spec.New(f, o, "bfs").Start()
	sym.Assert(err == nil && failed == nil, "exploring a valid program fails")
	sym.Cover("run")
	n := len(ts.Contract(root).Nodes)
	want := per * (len(classes) + 1)
	if where == 10 {
		want-- // a result None is no result
	}
	sym.Show(fmt.Sprint("place ", where, " want ", want, " got ", n))
	sym.Assert(n >= want, "states with different values are merged")
	sym.Assert(n <= want, "states with equal values are different states")
}

// H_instances: executions and fields of two role instances
func H_instances() {
	f := spec.File()
	body := spec.Block(spec.Serial, spec.Py("x = f(1, self.v)"), spec.Py("self.v = f(2, x, self.v)"))
	f.Roles = append(f.Roles, spec.Role("R", []*ast.Action{
		spec.Action("Init", spec.Block(spec.Atomic, spec.Py("self.v = 0"))),
		spec.Action("A", body),
	}))
	f.Actions = []*ast.Action{spec.Action("Init", spec.Block(spec.Atomic, spec.Py("p = R()"), spec.Py("q = R()")))}
	m := flow.New()
	m.Data = 2
	m.Table()
	conc := more(1, 2)
	root, failed, err := spec.New(f, spec.Options(1000, int64(conc), false, false), "bfs").Start()
	sym.Assert(err == nil && failed == nil, "exploring a valid program fails")
	sym.Cover("run")

	type thread struct{ role, x int }
	type state struct {
		v  [2]int
		ts [2]thread // sorted; role -1: none
	}
	none := thread{-1, 0}
	norm := func(s state) state {
		a, b := s.ts[0], s.ts[1]
		if a.role < b.role || a.role == b.role && a.x < b.x {
			s.ts[0], s.ts[1] = b, a
		}
		return s
	}
	count := map[[3]int]int{}
	moved := map[[3]int]int{}
	seen := map[state]bool{}
	var visit func(s state)
	visit = func(s state) {
		s = norm(s)
		if seen[s] {
			return
		}
		seen[s] = true
		n := 0
		for _, t := range s.ts {
			if t != none {
				n++
			}
		}
		k := [3]int{s.v[0], s.v[1], n}
		count[k]++
		moved[k]++
		if n == 2 && s.ts[0] != s.ts[1] {
			moved[k]++
		}
		for i, t := range s.ts {
			if t != none {
				o := s
				o.ts[i] = none
				o.v[t.role] = m.F(2, []int{t.x, s.v[t.role]})
				visit(o)
			}
		}
		if n < conc {
			for r := 0; r < 2; r++ {
				o := s
				o.ts[1] = thread{r, m.F(1, []int{s.v[r]})}
				visit(o)
			}
		}
	}
	visit(state{ts: [2]thread{none, none}})
	got := map[[3]int]int{}
	for _, n := range ts.Contract(root).Nodes {
		field := func(v string) int {
			x, err := n.Heap.GetValue(v).(*lib.Role).Attr("v")
			sym.Assert(err == nil, "a role field is lost")
			return star.IntOf(x)
		}
		got[[3]int{field("p"), field("q"), n.GetThreadsCount()}]++
	}
	for k, n := range count {
		sym.Assert(got[k] >= n, "different situations are merged")
		sym.Assert(got[k] <= moved[k], "the same situation is two states")
	}
	for k := range got {
		sym.Assert(count[k] > 0, "a situation is reached that the statements do not permit")
	}
	sym.Cover(fmt.Sprint("situations", len(got)))
}

// H_alias: variables that hold the same object and variables that hold equal
// objects are told apart by a later change of the object
func H_alias() {
	how := sym.Choose("how", 2)
	first := []string{"b = a", "b = [0]"}[how]
	second := []string{"b = [0]", "b = a"}[how]
	f := spec.File(
		spec.Action("Init", spec.Block(spec.Atomic, spec.Py("a = [0]"), spec.Py("b = None"), spec.Py("k = 0"))),
		spec.Action("A", spec.Block(spec.Oneof, spec.Py(first), spec.Py(second))),
		spec.Action("B", spec.Block(spec.Atomic, spec.Require("k == 0 and b != None"), spec.Py("k = 1"), spec.Py("a.append(1)"))),
	)
	root, failed, err := spec.New(f, spec.Options(2, 1, false, false), "bfs").Start()
	sym.Assert(err == nil && failed == nil, "exploring a valid program fails")
	sym.Cover("run")
	alias, equal := false, false
	for _, n := range ts.Contract(root).Nodes {
		if star.IntOf(n.Heap.GetValue("k")) == 1 {
			if l := starlark.Len(n.Heap.GetValue("b")); l == 2 {
				alias = true
			} else {
				equal = true
			}
		}
	}
	sym.Assert(alias && equal, "states with shared and with equal objects are merged")
}
