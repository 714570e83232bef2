// Package c04: exploring one branch never changes the state of another.
package c04

import (
	ast "fizz/proto"
	"fmt"
	"sort"
	"strings"
	"verifh/spec"
	"verifh/sym"
	"verifh/ts"

	"github.com/fizzbee-io/fizzbee/lib"
	"github.com/fizzbee-io/fizzbee/modelchecker"
	"go.starlark.net/starlark"
)

func more(quick, thorough int) int {
	if sym.Tier() > 0 {
		return thorough
	}
	return quick
}

// kind is a kind of mutable object: how to make one, add an element to it.
type kind struct {
	name, make, add string // OBJ: the object, EL: the element
	ordered               bool
}

var kinds = []kind{
	{"list", "[]", "OBJ.append(EL)", true},
	{"dict", "{}", "OBJ.update([(EL, 0)])", false},
	{"set", "set()", "OBJ.add(EL)", false},
	{"genericset", "genericset()", "OBJ.add(EL)", false},
	{"genericmap", "genericmap()", "OBJ.setdefault(EL, 0)", false},
	{"bag", "bag()", "OBJ.add(EL)", false},
	{"record", "record(f=[])", "OBJ.f.append(EL)", true},
	{"assigned record", "record(f=())", "o = OBJ\no.f = o.f + (EL,)", true},
	{"struct", "struct(f=[])", "OBJ.f.append(EL)", true},
	{"list in list", "[[]]", "OBJ[0].append(EL)", true},
	{"dict entry", "{'k': []}", "OBJ['k'].append(EL)", true},
	{"list in tuple", "([],)", "OBJ[0].append(EL)", true},
}

func anyKind() kind { return kinds[sym.Choose("object", len(kinds))] }

// contents are the elements added to an object.
func contents(v starlark.Value) []string {
	switch v := v.(type) {
	case *lib.Struct:
		f, _ := v.Attr("f")
		return contents(f)
	case *lib.GenericMap:
		var out []string
		for _, it := range v.Items() {
			out = append(out, it[0].String())
		}
		return out
	case starlark.HasAttrs:
		if f, err := v.Attr("f"); err == nil && f != nil {
			return contents(f)
		}
	}
	var out []string
	if d, ok := v.(*starlark.Dict); ok {
		if in, found, _ := d.Get(starlark.String("k")); found {
			return contents(in)
		}
	}
	it := starlark.Iterate(v)
	sym.Assert(it != nil, "an object changes its kind")
	defer it.Done()
	var x starlark.Value
	for it.Next(&x) {
		if l, ok := x.(*starlark.List); ok {
			return contents(l)
		}
		out = append(out, x.String())
	}
	return out
}

func (k kind) text(elems []string) string {
	if !k.ordered {
		elems = append([]string{}, elems...)
		sort.Strings(elems)
	}
	return strings.Join(elems, " ")
}

func (k kind) of(v starlark.Value) string { return k.text(contents(v)) }

// plus is what adding e does to the contents.
func (k kind) plus(c string, e string) string {
	l := strings.Fields(c)
	if !k.ordered && k.name != "bag" {
		for _, x := range l {
			if x == e {
				return c
			}
		}
	}
	return k.text(append(l, e))
}

func (k kind) grow(obj string, e string) string { return strings.ReplaceAll(strings.ReplaceAll(k.add, "OBJ", obj), "EL", e) }

// place is a place that holds an object: how to put it there, how to get it.
type place struct{ put, get string }

var places = []place{
	{"y = %s", "y"},
	{"y = [%s]", "y[0]"},
	{"y = [1, [%s]]", "y[1][0]"},
	{"y = {'k': %s}", "y['k']"},
	{"y = (%s,)", "y[0]"},
	{"y = record(a=%s)", "y.a"},
	{"y = struct(a=%s)", "y.a"},
	{"y = genericmap({'k': %s})", "y['k']"},
	{"y = genericset([%s])", "[e for e in y][0]"},
	{"y = bag([%s])", "[e for e in y][0]"},
	{"y = R(P=%s)", "y.P"},
	{"y = R(P=%s)", "y.f"},
}

// pair is the contents of the two objects.
type pair struct{ x, y string }

// The object is in a state variable and in a second place; or an equal object is there.
func H_places() {
	k := anyKind()
	pl := sym.Choose("place", len(places))
	shared := sym.Flip("shared")
	branch := sym.Choose("branch", 4)
	form(k, places[pl], shared, branch, 2)
}

func form(k kind, p place, shared bool, branch, max int) {
	second := "x"
	if !shared {
		second = k.make
	}
	get := p.get
	add := func(what string) func(e string) *ast.Statement {
		return func(e string) *ast.Statement { return spec.Py(k.grow(what, e)) }
	}
	ax, ay := add("x"), add(get)
	init := []*ast.Statement{spec.Py("x = " + k.make), spec.Py(fmt.Sprintf(p.put, second))}
	acts := []*ast.Action{spec.Action("Init", spec.Block(spec.Atomic, init...))}
	// ops: what one step may add to x and to y, in order
	var ops [][]string
	switch branch {
	case 0:
		acts = append(acts, spec.Action("A", spec.Block(spec.Atomic, ax("1"))), spec.Action("B", spec.Block(spec.Atomic, ay("2"))))
		ops = [][]string{{"x1"}, {"y2"}}
	case 1:
		acts = append(acts, spec.Action("A", spec.Block(spec.Atomic, spec.Any("n", "[1, 2]", "", spec.Block(0, ax("n"), ay("3"))))))
		ops = [][]string{{"x1", "y3"}, {"x2", "y3"}}
	case 2:
		acts = append(acts, spec.Action("A", spec.Block(spec.Oneof, ax("1"), ay("2"))))
		ops = [][]string{{"x1"}, {"y2"}}
	case 3:
		acts = append(acts, spec.Action("A", spec.Block(spec.Atomic, ay("3"), spec.Pick("n", "[1, 2]", ""), ax("n"))))
		ops = [][]string{{"y3", "x1"}, {"y3", "x2"}}
	}
	f := spec.File(acts...)
	f.Roles = []*ast.Role{spec.Role("R", []*ast.Action{spec.Action("Init", spec.Block(spec.Atomic, spec.Py("self.f = self.P")))})}
	proc := spec.New(f, spec.Options(int64(max), 1, false, false), []string{"", "dfs"}[sym.Choose("strategy", 2)])
	root, failed, err := proc.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	want := map[pair]bool{{"", ""}: true}
	last := []pair{{"", ""}}
	for i := 0; i < max; i++ {
		var next []pair
		for _, s := range last {
			for _, op := range ops {
				n := s
				for _, o := range op {
					if o[0] == 'x' || shared {
						n.x = k.plus(n.x, o[1:])
					}
					if o[0] == 'y' || shared {
						n.y = k.plus(n.y, o[1:])
					}
				}
				want[n] = true
				next = append(next, n)
			}
		}
		last = next
	}
	got := map[pair]bool{}
	for _, n := range ts.Contract(root).Nodes {
		s := pair{k.of(n.Heap.GetValue("x")), k.of(read(n, get))}
		if !want[s] {
			sym.Debug(fmt.Sprint("unexpected ", s, k, p))
		}
		sym.Assert(want[s], "a state shows a change made on another branch, or misses one of its own")
		got[s] = true
	}
	sym.Assert(len(got) == len(want), "a state is missing")
	sym.Cover("explored")
}

// read evaluates the get expression of a place at a node.
func read(n *modelchecker.Node, get string) starlark.Value {
	y := n.Heap.GetValue("y")
	role := func(v starlark.Value, name string) starlark.Value {
		r, err := v.(*lib.Role).Attr(name)
		sym.Assert(err == nil, "a role loses a field")
		return r
	}
	idx := func(v starlark.Value, i int) starlark.Value { return v.(starlark.Indexable).Index(i) }
	first := func(v starlark.Value) starlark.Value {
		it := starlark.Iterate(v)
		defer it.Done()
		var x starlark.Value
		sym.Assert(it.Next(&x), "a container loses its element")
		return x
	}
	attr := func(v starlark.Value, name string) starlark.Value {
		r, err := v.(starlark.HasAttrs).Attr(name)
		sym.Assert(err == nil && r != nil, "a record loses a field")
		return r
	}
	switch get {
	case "y":
		return y
	case "y[0]":
		return idx(y, 0)
	case "y[1][0]":
		return idx(idx(y, 1), 0)
	case "y['k']":
		v, found, err := y.(starlark.Mapping).Get(starlark.String("k"))
		sym.Assert(err == nil && found, "a dict loses an entry")
		return v
	case "y.a":
		return attr(y, "a")
	case "y.P":
		return role(n.Roles[0], "P")
	case "y.f":
		return role(n.Roles[0], "f")
	}
	return first(y)
}

// seq is what an execution does between two yields, step by step.
type seq [][]string

// held is a way an execution holds an object while it waits; OBJ: the object held.
type held struct {
	name, get string
	body      func(obj string, step func(code string) *ast.Statement, after func(get string) []*ast.Statement) []*ast.Statement
}

var helds = []held{
	{"local variable", "v", bound("v = OBJ")},
	{"list", "v[0]", bound("v = [OBJ]")},
	{"dict", "v['k']", bound("v = {'k': OBJ}")},
	{"tuple", "v[1]", bound("v = (0, OBJ)")},
	{"record", "v.a", bound("v = record(a=OBJ)")},
	{"struct", "v.a", bound("v = struct(a=OBJ)")},
	{"genericmap", "v['k']", bound("v = genericmap({'k': OBJ})")},
	{"bag", "[e for e in v][0]", bound("v = bag([OBJ])")},
	{"any", "v", func(obj string, step func(string) *ast.Statement, after func(string) []*ast.Statement) []*ast.Statement {
		return []*ast.Statement{spec.Any("v", "["+obj+"]", "", spec.Block(0, append([]*ast.Statement{step("self.pc += 1")}, after("v")...)...))}
	}},
	{"loop variable", "v", func(obj string, step func(string) *ast.Statement, after func(string) []*ast.Statement) []*ast.Statement {
		return []*ast.Statement{spec.For(ast.Flow_FLOW_UNKNOWN, "v", "["+obj+"]", spec.Block(0, append([]*ast.Statement{step("self.pc += 1")}, after("v")...)...))}
	}},
	{"outer variable", "v", func(obj string, step func(string) *ast.Statement, after func(string) []*ast.Statement) []*ast.Statement {
		return []*ast.Statement{step("v = " + obj + "\nself.pc += 1"), spec.Nest(spec.Block(0, after("v")...))}
	}},
	{"variable of an if block", "v", func(obj string, step func(string) *ast.Statement, after func(string) []*ast.Statement) []*ast.Statement {
		return []*ast.Statement{spec.If("True", spec.Block(0, append([]*ast.Statement{step("v = " + obj + "\nself.pc += 1")}, after("v")...)...), nil)}
	}},
	{"argument", "v", nil},
	{"result", "v", nil},
}

func bound(bind string) func(string, func(string) *ast.Statement, func(string) []*ast.Statement) []*ast.Statement {
	return func(obj string, step func(string) *ast.Statement, after func(string) []*ast.Statement) []*ast.Statement {
		return []*ast.Statement{step(strings.ReplaceAll(bind, "OBJ", obj) + "\nself.pc += 1")}
	}
}

// An execution that waits holds the object of a state variable, or a copy.
func H_inflight() {
	k := anyKind()
	h := helds[sym.Choose("held", len(helds))]
	shared := sym.Flip("shared")
	parallel := sym.Flip("parallel")
	obj := "self.P"
	if !shared {
		obj = "deepcopy(self.P)"
	}
	step := func(code string) *ast.Statement { return spec.Py(code) }
	after := func(get string) []*ast.Statement {
		a := spec.Py(k.grow(get, "1") + "\nself.pc += 1")
		b := spec.Py(k.grow("self.P", "2") + "\nself.pc += 2")
		c := spec.Py("self.z = deepcopy(" + get + ")\nself.pc += 1")
		if parallel {
			return []*ast.Statement{spec.Nest(spec.Block(spec.Parallel, a, b)), c}
		}
		return []*ast.Statement{a, b, c}
	}
	role := spec.Role("R", []*ast.Action{spec.Action("Init", spec.Block(spec.Atomic, spec.Py("self.pc = 0\nself.z = None")))})
	body := []*ast.Statement{spec.Require("self.pc == 0")}
	switch h.name {
	case "argument":
		role.Functions = []*ast.Function{spec.Func("F", spec.Serial, []string{"v"}, append([]*ast.Statement{spec.Py("self.pc += 1")}, after("v")...)...)}
		body = append(body, spec.Call(nil, "self", "F", obj))
	case "result":
		role.Functions = []*ast.Function{spec.Func("F", spec.Atomic, nil, spec.Py("self.pc += 1"), spec.Return(obj))}
		body = append(append(body, spec.Call([]string{"v"}, "self", "F")), after("v")...)
	default:
		body = append(body, h.body(obj, step, after)...)
		if h.name != "any" && h.name != "loop variable" && h.name != "outer variable" && h.name != "variable of an if block" {
			body = append(body, after(h.get)...)
		}
	}
	role.Actions = append(role.Actions, spec.Action("S", spec.Block(spec.Serial, body...)))
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic, spec.Py("x = "+k.make), spec.Py("r = R(P=x)"))),
		spec.Action("A", spec.Block(spec.Atomic, spec.Py(k.grow("x", "3")))))
	f.Roles = []*ast.Role{role}
	max := more(3, 4)
	proc := spec.New(f, spec.Options(int64(max), 2, false, false), []string{"", "dfs"}[sym.Choose("strategy", more(1, 2))])
	root, failed, err := proc.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	seqs := []seq{{{"bind", "1"}, {"v", "1"}, {"x", "2"}, {"z", "1"}}}
	if parallel {
		seqs = append(seqs, seq{{"bind", "1"}, {"x", "2"}, {"v", "1"}, {"z", "1"}})
	}
	want := map[string]bool{}
	for _, q := range seqs {
		k.runs(q, shared, 0, max-1, max, 0, "", "", "None", want)
		k.runs(q, shared, 0, max, max, 0, "", "", "None", want)
	}
	got := map[string]bool{}
	for _, n := range ts.Contract(root).Nodes {
		r := n.Roles[0]
		z := "None"
		if v := field(r, "z"); v != starlark.None {
			z = k.of(v)
		}
		x := k.of(n.Heap.GetValue("x"))
		sym.Assert(k.of(field(r, "P")) == x, "a role and a variable lose their common object")
		s := fmt.Sprint(field(r, "pc"), "|", x, "|", z)
		if !want[s] {
			sym.Debug(fmt.Sprint("unexpected ", s, k, h.name))
		}
		sym.Assert(want[s], "a state shows a change made on another branch, or misses one of its own")
		got[s] = true
	}
	sym.Assert(len(got) == len(want), "a state is missing")
	sym.Cover("explored")
}

func field(r *lib.Role, name string) starlark.Value {
	v, err := r.Attr(name)
	sym.Assert(err == nil && v != nil, "a role loses a field")
	return v
}

// runs adds the states of all interleavings of q with at most n more steps of A,
// when max actions can be started.
func (k kind) runs(q seq, shared bool, at, n, max, pc int, x, v, z string, out map[string]bool) {
	out[fmt.Sprint(pc, "|", x, "|", z)] = true
	if n > 0 {
		nv := v
		if shared && at > 0 {
			nv = k.plus(v, "3")
		}
		k.runs(q, shared, at, n-1, max-1, pc, k.plus(x, "3"), nv, z, out)
	}
	if at == len(q) || at == 0 && max == 0 {
		return
	}
	switch q[at][0] {
	case "bind":
		v, max = x, max-1
		if n > max {
			n = max
		}
		pc++
	case "v":
		v = k.plus(v, "1")
		if shared {
			x = v
		}
		pc++
	case "x":
		x = k.plus(x, "2")
		if shared {
			v = x
		}
		pc += 2
	case "z":
		z = v
		pc++
	}
	k.runs(q, shared, at+1, n, max, pc, x, v, z, out)
}

// A loop over two objects, or twice over one, while another action changes the first.
func H_loops() {
	k := anyKind()
	shared := sym.Flip("shared")
	fl := sym.Choose("flow", 3)
	flowOf := []ast.Flow{spec.Atomic, spec.Serial, spec.Parallel}[fl]
	coll := []string{"[x, y]", "(x, y)", "c", "{0: x, 1: y}.values()", "genericmap({0: x, 1: y}).values()", "[e for e in c]"}[sym.Choose("collection", 6)]
	// Objects with different contents: equal ones are not told apart (see C03 H_alias).
	second := "y = " + k.make + "\n" + k.grow("y", "8")
	x0, y0 := k.plus("", "7"), k.plus("", "8")
	if shared {
		second, y0 = "y = x", x0
	}
	body := spec.Block(0, spec.Py(k.grow("v", "pc")+"\npc += 1"))
	outer := spec.Serial
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic, spec.Py("x = "+k.make+"\n"+k.grow("x", "7")), spec.Py(second), spec.Py("c = [x, y]"), spec.Py("pc = 0"))),
		spec.Action("S", spec.Block(outer, spec.Require("pc == 0"), spec.For(flowOf, "v", coll, body))),
		spec.Action("A", spec.Block(spec.Atomic, spec.Py(k.grow("x", "3")))))
	root, failed, err := spec.New(f, spec.Options(2, 2, false, false), []string{"", "dfs"}[sym.Choose("strategy", 2)]).Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	want := map[string]bool{}
	var run func(pc int, done [2]bool, x, y string, a, left int)
	iterate := func(i, pc int, x, y string) (string, string) {
		e := fmt.Sprint(pc)
		if i == 0 || shared {
			x = k.plus(x, e)
		}
		if i == 1 || shared {
			y = k.plus(y, e)
		}
		return x, y
	}
	run = func(pc int, done [2]bool, x, y string, a, left int) {
		want[fmt.Sprint(pc, "|", x, "|", y)] = true
		if left > 0 {
			ny := y
			if shared {
				ny = k.plus(y, "3")
			}
			run(pc, done, k.plus(x, "3"), ny, a, left-1)
		}
		if pc == 0 {
			if left == 0 {
				return
			}
			left--
		}
		for i := range done {
			if done[i] || fl < 2 && i == 1 && !done[0] {
				continue
			}
			nd := done
			nd[i] = true
			nx, ny := iterate(i, pc, x, y)
			if fl == 0 {
				nx, ny = iterate(1, 1, nx, ny)
				run(2, [2]bool{true, true}, nx, ny, a, left)
				continue
			}
			run(pc+1, nd, nx, ny, a, left)
		}
	}
	run(0, [2]bool{}, x0, y0, 0, 2)
	got := map[string]bool{}
	for _, n := range ts.Contract(root).Nodes {
		s := fmt.Sprint(n.Heap.GetValue("pc"), "|", k.of(n.Heap.GetValue("x")), "|", k.of(n.Heap.GetValue("y")))
		if !want[s] {
			sym.Debug(fmt.Sprint("unexpected ", s, k))
		}
		sym.Assert(want[s], "a state shows a change made on another branch, or misses one of its own")
		got[s] = true
	}
	sym.Assert(len(got) == len(want), "a state is missing")
	sym.Cover("explored")
}

// An assertion that changes what it reads leaves the explored states as they are.
func H_assertions() {
	k := anyKind()
	how := sym.Choose("assertion", 8)
	expr := func(obj string) string {
		// an expression with the effect of the statement, true before and after
		return "poke(" + obj + ") == None"
	}
	lib := spec.Py("def poke(OBJ):\n  " + strings.ReplaceAll(k.grow("OBJ", "9"), "\n", "\n  "))
	var inv *ast.Invariant
	switch how {
	case 0:
		inv = spec.Assertion("I", []string{"always"}, expr("x"))
	case 1:
		inv = spec.Assertion("I", []string{"exists"}, expr("x"))
	case 2:
		inv = spec.Assertion("I", []string{"always"}, expr("r.P"))
	case 3:
		inv = spec.Assertion("I", []string{"always"}, "")
		inv.Block = spec.Block(spec.Atomic, spec.Py(k.grow("x", "9")), spec.Return("True"))
	case 4:
		inv = spec.Assertion("I", []string{"always", "eventually"}, expr("x"))
	case 5, 6:
		inv = spec.Assertion("I", []string{"transition"}, "")
		inv.Block = spec.Block(spec.Atomic, spec.Py(k.grow([]string{"before.x", "after.x"}[how-5], "9")), spec.Return("True"))
	case 7:
		inv = spec.Assertion("I", []string{"always"}, "")
		inv.Block = spec.Block(spec.Atomic, spec.Py("for n in next_states():\n  "+strings.ReplaceAll(k.grow("n.state.x", "9"), "\n", "\n  ")), spec.Return("True"))
	}
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic, spec.Py("x = "+k.make), spec.Py("r = R(P=x)"))),
		spec.Action("A", spec.Block(spec.Atomic, spec.Py(k.grow("x", "1")))),
		spec.Action("B", spec.Block(spec.Atomic, spec.Py(k.grow("r.P", "2")))))
	f.Roles = []*ast.Role{spec.Role("R", []*ast.Action{spec.Action("Init", spec.Block(spec.Atomic, spec.Py("self.f = self.P")))})}
	f.Stmts = append(f.Stmts, lib)
	f.Invariants = []*ast.Invariant{inv}
	max := more(2, 3)
	root, failed, err := spec.New(f, spec.Options(int64(max), 1, false, false), []string{"", "dfs"}[sym.Choose("strategy", 2)]).Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	want := map[string]bool{"": true}
	last := []string{""}
	for i := 0; i < max; i++ {
		var next []string
		for _, s := range last {
			for _, e := range []string{"1", "2"} {
				n := k.plus(s, e)
				want[n] = true
				next = append(next, n)
			}
		}
		last = next
	}
	got := map[string]bool{}
	for _, n := range ts.Contract(root).Nodes {
		s := k.of(n.Heap.GetValue("x"))
		if !want[s] {
			sym.Debug(fmt.Sprint("unexpected ", s, k, how))
		}
		sym.Assert(want[s] && k.of(field(n.Roles[0], "f")) == s, "an assertion changes an explored state")
		got[s] = true
	}
	sym.Assert(len(got) == len(want), "a state is missing")
	sym.Cover("explored")
}

// Roles that refer to each other.
func H_cycles() {
	k := anyKind()
	how := sym.Choose("reference", 6)
	hold := []string{"%s", "[%s]", "{'k': %s}", "(%s,)", "record(a=%s)", "genericmap({'k': %s})"}[how]
	get := []string{"", "[0]", "['k']", "[0]", ".a", "['k']"}[how]
	own := sym.Flip("to itself")
	// taken: the step takes the role from a collection
	taken := sym.Choose("taken", 3)
	act := spec.Action("A", spec.Block(spec.Atomic, spec.Py("pass")))
	step := spec.Py("w.n += 1\n"+k.grow("w.P", "1"))
	all := "[p, q]"
	if own {
		all = "[p]"
	}
	switch taken {
	case 1:
		act = spec.Action("A", spec.Block(spec.Serial, spec.Any("w", all, "", spec.Block(0, spec.Py("z = w.peer"+get), step))))
	case 2:
		act = spec.Action("A", spec.Block(spec.Serial, spec.Nest(spec.Block(spec.Atomic, spec.Pick("w", all, ""), step))))
	}
	second := "R(P=p.P)"
	if own {
		second = "p"
	}
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic, spec.Py("x = "+k.make), spec.Py("p = R(P=x)"), spec.Py("q = "+second),
		spec.Py("p.peer = "+strings.ReplaceAll(hold, "%s", "q")+"\nq.peer = "+strings.ReplaceAll(hold, "%s", "p")))))
	r := spec.Role("R", []*ast.Action{spec.Action("Init", spec.Block(spec.Atomic, spec.Py("self.n = 0\nself.peer = None")))})
	if taken == 0 {
		r.Actions = append(r.Actions, spec.Action("A", spec.Block(spec.Serial, spec.Py("w = self.peer"+get), step)))
	} else {
		f.Actions = append(f.Actions, act)
	}
	f.Roles = []*ast.Role{r}
	f.Invariants = []*ast.Invariant{spec.Assertion("I", []string{"always"}, "p.peer"+get+" == q and q.peer"+get+" == p and p.peer"+get+" in [q]")}
	max := more(2, 3)
	root, failed, err := spec.New(f, spec.Options(int64(max), 1, false, false), "").Start()
	sym.Assert(err == nil && failed == nil, "roles that refer to each other are no longer the same roles")
	got := map[string]bool{}
	num := func(r *lib.Role) int { return int(field(r, "n").(starlark.Int).BigInt().Int64()) }
	for _, n := range ts.Contract(root).Nodes {
		x := k.of(n.Heap.GetValue("x"))
		p, q := n.Heap.GetValue("p").(*lib.Role), n.Heap.GetValue("q").(*lib.Role)
		all := num(p)
		if !own {
			all += num(q)
		}
		w := ""
		for i := 0; i < all; i++ {
			w = k.plus(w, "1")
		}
		sym.Assert(k.of(field(p, "P")) == x && k.of(field(q, "P")) == x && w == x, "roles that refer to each other lose a common object")
		for _, r := range n.Roles {
			sym.Assert(r == p || r == q, "a role is not the one the state refers to")
		}
		got[fmt.Sprint(num(p), " ", num(q))] = true
	}
	want := max + 1
	if !own {
		want = (max + 1) * (max + 2) / 2
	}
	sym.Assert(len(got) == want, "a state is missing")
	sym.Cover("explored")
}

// A constant that an action tries to change: the attempt is an error, or changes
// a copy of that branch.
func H_constants() {
	k := anyKind()
	target := []string{"G", "H[0]", "r.P", "w"}[sym.Choose("via", 4)]
	pre := ""
	if target == "w" {
		pre = "w = deepcopy(G)\n"
	}
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic, spec.Py("z = 0"), spec.Py("w = G"), spec.Py("r = R(P=G)"))),
		spec.Action("A", spec.Block(spec.Atomic, spec.Py(pre+k.grow(target, "1")+"\nz = 1"))),
		spec.Action("B", spec.Block(spec.Atomic, spec.Py("z = deepcopy("+target+")"))),
		spec.Action("C", spec.Block(spec.Atomic, spec.Py("z = deepcopy(G)"))))
	f.Stmts = append(f.Stmts, spec.Py("G = "+k.make), spec.Py("H = ["+k.make+"]"))
	f.Roles = []*ast.Role{spec.Role("R", []*ast.Action{spec.Action("Init", spec.Block(spec.Atomic, spec.Py("pass")))})}
	p := spec.New(f, spec.Options(2, 1, false, false), "")
	refused := false
	var root *modelchecker.Node
	func() {
		defer func() { refused = recover() != nil }()
		var failed *modelchecker.Node
		var err error
		root, failed, err = p.Start()
		sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	}()
	if refused {
		sym.Assert(target == "G" || target == "H[0]", "a copy of a constant cannot be changed")
		sym.Cover("refused")
		return
	}
	got := map[string]bool{}
	for _, n := range ts.Contract(root).Nodes {
		if v := n.Heap.GetValue("z"); v.Type() != "int" {
			got[k.of(v)] = true
		}
	}
	sym.Assert(got[""] && len(got) == 2 && got["1"], "a change of a constant is seen on other branches")
	sym.Cover("explored")
}
