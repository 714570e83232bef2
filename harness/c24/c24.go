// Package c24: next_states() sees exactly the successors and disturbs nothing.
package c24

import (
	"fmt"

	ast "fizz/proto"
	"verifh/spec"
	"verifh/star"
	"verifh/sym"
	"verifh/ts"

	"github.com/fizzbee-io/fizzbee/modelchecker"
	"go.starlark.net/starlark"
)

func more(quick, thorough int) int {
	if sym.Tier() > 0 {
		return thorough
	}
	return quick
}

// look checks one answer of next_states() against the table: exactly the
// successors, each named after its action, none twice.
func look(m *ts.Model, s int, l []starlark.Value, name func(a int) string) {
	i := m.Rep(s)
	type e struct {
		a string
		j int
	}
	got := map[e]bool{}
	for _, v := range l {
		t := v.(starlark.Tuple)
		k := e{string(t[0].(starlark.String)), m.Rep(star.IntOf(t[1]))}
		sym.Assert(!got[k], "next_states() lists one successor twice")
		got[k] = true
	}
	n := 0
	for a := range m.Acts {
		for _, j := range m.Next(a, i) {
			sym.Assert(got[e{name(a), j}], "next_states() misses a successor")
			n++
		}
	}
	sym.Assert(n == len(got), "next_states() lists a state no enabled action leads to")
	sym.Cover("looked")
}

func watch(m *ts.Model, f *ast.File, cur, succ string, name func(a int) string) {
	spec.Builtin("look", func(a []starlark.Value) starlark.Value {
		look(m, star.IntOf(a[0]), star.Elems(a[1]), name)
		return starlark.True
	})
	f.Invariants = append(f.Invariants, spec.Assertion("L", []string{"always"}, "look("+cur+", [(n.name, "+succ+") for n in next_states()])"))
}

func short(m *ts.Model) func(a int) string { return func(a int) string { return m.Acts[a].Name } }

func H_single() {
	form := sym.Choose("form", ts.Forms)
	n := 2
	if form == ts.Req || form == ts.Forced {
		n = more(3, 4)
	}
	m := ts.New(n, ts.Act{"A", form})
	f := m.File()
	watch(m, f, "s", "n.state.s", short(m))
	p := ts.AnyConfig().Make(f)
	root, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	m.CheckGraph(root, ts.S)
}

func H_pair() {
	forms := [][2]int{{ts.Req, ts.Forced}, {ts.Pick, ts.If}, {ts.If, ts.OneOf}, {ts.Req, ts.PrefixAny}, {ts.Midway, ts.Req}}[sym.Choose("forms", 5)]
	m := ts.New(2, ts.Act{"A", forms[0]}, ts.Act{"B", forms[1]})
	f := m.File()
	watch(m, f, "s", "n.state.s", short(m))
	p := ts.Config{}.Make(f)
	root, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	m.CheckGraph(root, ts.S)
}

// limits do not hide successors from the probe, and the probe does not consume them
func H_limit() {
	m := ts.New(3, ts.Act{"A", ts.Forced})
	f := m.File()
	watch(m, f, "s", "n.state.s", short(m))
	max := 1 + sym.Choose("max", 2)
	p := ts.Config{Max: int64(max), Processed: sym.Flip("processed")}.Make(f)
	root, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	order, depth := m.Reach()
	at := map[int]bool{}
	for _, n := range ts.Contract(root).Nodes {
		at[m.Rep(ts.S(n))] = true
	}
	for _, i := range order {
		sym.Assert(at[i] == (depth[i] <= max), "the probe changes which states are explored within a limit")
	}
}

// state in a container, a record or a role field
func H_storage() {
	m := ts.New(2, ts.Act{"A", ts.Req}, ts.Act{"B", ts.If})
	how := 1 + sym.Choose("how", ts.Storages-1)
	f := m.FileStored(how)
	cur := []string{"", "s[0]", "s['k']", "s.x", "s['k'][0][0]", "r.s"}[how]
	name := short(m)
	if how == ts.InRole {
		for i := range m.Acts {
			m.Acts[i].Name = "R#0." + m.Acts[i].Name
		}
	}
	watch(m, f, cur, "n.state."+cur, name)
	p := ts.Config{Processed: sym.Flip("processed")}.Make(f)
	root, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	m.CheckGraph(root, func(n *modelchecker.Node) int { return ts.StoredOf(n, how) })
}

// verdicts of assertions about the successors, and of other assertions beside them
func H_verdict() {
	m := ts.New(more(2, 3), ts.Act{"A", ts.Req}, ts.Act{"B", ts.Req})
	f := m.File()
	f.Invariants = append(f.Invariants,
		spec.Assertion("E", []string{"always"}, "any([truth(0, n.state.s) for n in next_states() if n.action_name == 'A'])"),
		spec.Assertion("Q", []string{"always"}, "truth(1, s)"))
	p := ts.Config{Processed: sym.Flip("processed")}.Make(f)
	_, failed, err := p.Start()
	sym.Assert(err == nil, "exploration of a valid model fails")
	enabled := func(i int) bool {
		for _, j := range m.Next(0, i) {
			if m.TruthOf(0, j) {
				return true
			}
		}
		return false
	}
	order, _ := m.Reach()
	want := false
	for _, i := range order {
		want = want || !enabled(i) || !m.TruthOf(1, i)
	}
	sym.Assert((failed != nil) == want, "an assertion about successors is violated iff some reachable state's successors make it false")
	if failed != nil {
		listed := map[int]bool{}
		for _, k := range failed.FailedInvariants[0] {
			listed[k] = true
		}
		i := m.Rep(ts.S(failed))
		sym.Assert(listed[0] == !enabled(i) && listed[1] == !m.TruthOf(1, i), "the failing node does not list exactly the violated assertions")
	}
}

// models that allocate identities: the explored graph is the same with and without the probe
func H_alloc() {
	kind := sym.Choose("kind", 4)
	k := sym.Choose("crash", 2) == 1
	proc := sym.Flip("processed")
	x := sym.Choose("value", 2)
	run := func(probe bool) []string {
		f := allocating(kind, x)
		if probe {
			f.Invariants = append(f.Invariants, spec.Assertion("L", []string{"always"}, "len(next_states()) >= 0"))
		} else {
			f.Invariants = append(f.Invariants, spec.Assertion("L", []string{"always"}, "True"))
		}
		p := spec.New(f, spec.Options(3, 2, k, false), "")
		p.SetExperimentalProcessedQueue(proc)
		root, failed, err := p.Start()
		sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
		nodes, _, _, _ := modelchecker.GetAllNodes(root, 3)
		idx := map[*modelchecker.Node]int{}
		for i, n := range nodes {
			idx[n] = i
		}
		var out []string
		for _, n := range nodes {
			out = append(out, n.Name+n.Heap.String()+n.HashCode()+fmt.Sprint(n.Roles)+fmt.Sprint(n.GetThreadsCount()))
			for _, l := range n.Outbound {
				out = append(out, l.Name+">"+string(rune('0'+idx[l.Node])))
			}
		}
		return out
	}
	a, b := run(false), run(true)
	sym.Assert(len(a) == len(b), "using next_states() changes the explored graph")
	for i := range a {
		if a[i] != b[i] {
			sym.Debug("diff " + a[i] + " ||| " + b[i])
		}
		sym.Assert(sym.StrEq(a[i], b[i]), "using next_states() changes an explored state or step")
	}
	sym.Cover("compared")
}

func allocating(kind, x int) *ast.File {
	spec.Builtin("val", func(a []starlark.Value) starlark.Value { return star.Int(x) })
	init := func(code string) *ast.Action { return spec.Action("Init", spec.Block(spec.Atomic, spec.Py(code))) }
	switch kind {
	case 0: // roles created by an action
		f := spec.File(init("rs = []"), spec.Action("New", spec.Block(spec.Atomic, spec.Py("rs.append(R())"))))
		f.Roles = []*ast.Role{spec.Role("R", []*ast.Action{init("self.v = val()"), spec.Action("Step", spec.Block(spec.Atomic, spec.Py("self.v = 1 - self.v")))})}
		return f
	case 1: // two kinds of roles, one of them created inside a choice
		f := spec.File(init("rs = []"), spec.Action("New", spec.Block(spec.Atomic,
			spec.Any("i", "[0, 1]", "", spec.Block(0, spec.If("i == val()", spec.Block(0, spec.Py("rs.append(R())")), spec.Block(0, spec.Py("rs.append(Q())"))))))))
		f.Roles = []*ast.Role{
			spec.Role("R", []*ast.Action{init("self.v = 0")}),
			spec.Role("Q", []*ast.Action{init("self.v = 1"), spec.Action("Step", spec.Block(spec.Atomic, spec.Py("self.v = 1 - self.v")))})}
		return f
	case 2: // a non-atomic action that creates a role before its yield
		f := spec.File(init("rs = []"), spec.Action("New", spec.Block(spec.Serial, spec.Py("rs.append(R())"), spec.Py("rs[0].v = val()"))))
		f.Roles = []*ast.Role{spec.Role("R", []*ast.Action{init("self.v = 2")})}
		return f
	default: // state-dependent enabling beside a non-atomic action
		return spec.File(init("s = 0"),
			spec.Action("A", spec.Block(spec.Serial, spec.Py("s = s + 1"), spec.Require("s > val()"), spec.Py("s = 0"))),
			spec.Action("B", spec.Block(spec.Atomic, spec.Require("s < 2"), spec.Py("s = s + 1"))))
	}
}
