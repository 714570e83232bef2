// Package c06: transition and exists assertions get exact verdicts.
package c06

import (
	ast "fizz/proto"
	"verifh/spec"
	"verifh/sym"
	"verifh/ts"

	"github.com/fizzbee-io/fizzbee/modelchecker"
)

func more(quick, thorough int) int {
	if sym.Tier() > 0 {
		return thorough
	}
	return quick
}

// transition assertion: trans(before, after); steps that change nothing always pass
func transition(m *ts.Model, f *ast.File, expr string) {
	inv := spec.Assertion("T", []string{"transition"}, expr)
	inv.Params = []*ast.Parameter{{Name: "before"}, {Name: "after"}}
	f.Invariants = append(f.Invariants, inv)
	table := map[[2]int]bool{}
	m.TransF = func(i, j int) bool {
		if i == j {
			return true
		}
		k := [2]int{i, j}
		b, ok := table[k]
		if !ok {
			b = sym.Flip("trans")
			table[k] = b
		}
		return b
	}
}

func check(m *ts.Model, f *ast.File, c ts.Config, name func(a int) string, state func(n *modelchecker.Node) int) {
	p := c.Make(f)
	root, failed, err := p.Start()
	sym.Assert(err == nil, "exploration of a valid model fails")
	order, _ := m.Reach()
	want := false
	for _, i := range order {
		for a := range m.Acts {
			for _, j := range m.Next(a, i) {
				want = want || !m.TransOf(i, j)
			}
		}
	}
	sym.Assert((failed != nil) == want, "a transition assertion is violated iff some step from one state to the next makes it false")
	sym.Cover("verdict")
	if failed == nil {
		if !c.NoGraph {
			m.CheckGraph(root, state)
		}
		return
	}
	sym.Cover("failed")
	if c.NoGraph {
		return
	}
	// the reported step is a step of the model that makes the assertion false
	links := modelchecker.ExtractFailurePath(failed, root)
	sym.Assert(len(links) > 1 && links[0].Node == root, "the failure path does not start at the initial state")
	at, act, bad := m.Rep(0), "", false
	for _, l := range links[1:] {
		if !ts.IsChoice(l.Name) {
			act = l.Name
		}
		if l.Node.IsYieldNode() || l.Node == failed {
			to := m.Rep(state(l.Node))
			ok := false
			for a := range m.Acts {
				if name(a) != act {
					continue
				}
				for _, j := range m.Next(a, at) {
					ok = ok || j == to
				}
			}
			sym.Assert(ok, "the failure path contains a step no action makes")
			bad = !m.TransOf(at, to)
			at = to
		}
	}
	sym.Assert(bad, "the last step of the failure path does not violate the transition assertion")
}

func acts(m *ts.Model) func(a int) string { return func(a int) string { return m.Acts[a].Name } }

func H_single() {
	form := sym.Choose("form", ts.Forms)
	n := 2
	if form == ts.Req || form == ts.If || form == ts.Forced {
		n = more(3, 4)
	}
	m := ts.New(n, ts.Act{"A", form})
	f := m.File()
	transition(m, f, "trans(before.s, after.s)")
	check(m, f, ts.AnyConfig(), acts(m), ts.S)
}

func H_pair() {
	forms := [][2]int{{ts.Req, ts.Forced}, {ts.Pick, ts.If}, {ts.If, ts.OneOf}, {ts.Forced, ts.PrefixAny}}[sym.Choose("forms", 4)]
	m := ts.New(2, ts.Act{"A", forms[0]}, ts.Act{"B", forms[1]})
	f := m.File()
	transition(m, f, "trans(before.s, after.s)")
	check(m, f, ts.Config{}, acts(m), ts.S)
}

// the state inside a container, a record or a role's field
func H_storage() {
	m := ts.New(more(2, 3), ts.Act{"A", ts.Req}, ts.Act{"B", ts.If})
	how := 1 + sym.Choose("how", ts.Storages-1)
	f := m.FileStored(how)
	transition(m, f, []string{"", "trans(before.s[0], after.s[0])", "trans(before.s['k'], after.s['k'])",
		"trans(before.s.x, after.s.x)", "trans(before.s['k'][0][0], after.s['k'][0][0])", "trans(before.r.s, after.r.s)"}[how])
	if how == ts.InRole {
		for i := range m.Acts {
			m.Acts[i].Name = "R#0." + m.Acts[i].Name
		}
	}
	p := ts.Config{Processed: sym.Flip("processed")}
	check(m, f, p, acts(m), func(n *modelchecker.Node) int { return ts.StoredOf(n, how) })
}

func H_nograph() {
	m := ts.New(2, ts.Act{"A", ts.Pick}, ts.Act{"B", ts.Forced})
	f := m.File()
	transition(m, f, "trans(before.s, after.s)")
	check(m, f, ts.Config{NoGraph: true}, acts(m), ts.S)
}

// an action that changes the state before choosing: the step is the whole action
func H_midway() {
	m := ts.New(more(2, 3), ts.Act{"A", ts.Midway})
	f := m.File()
	transition(m, f, "trans(before.s, after.s)")
	c := ts.Config{Processed: sym.Flip("processed")}
	p := c.Make(f)
	root, failed, err := p.Start()
	sym.Assert(err == nil, "exploration of a valid model fails")
	order, _ := m.Reach()
	starts := map[int]int{} // number of steps that pass through an intermediate state
	mid := func(i int) int { return m.Rep(m.Succ(0, 0, i)[0]) }
	for _, i := range order {
		starts[mid(i)]++
	}
	bad, alone := false, false
	for _, i := range order {
		for _, j := range m.Next(0, i) {
			if !m.TransOf(i, j) {
				bad = true
				alone = alone || starts[mid(i)] == 1
			}
		}
	}
	if failed != nil {
		sym.Assert(bad, "a transition assertion is reported violated although every step satisfies it")
		sym.Cover("failed")
		return
	}
	sym.Assert(!alone, "a transition assertion that a step makes false is not reported")
	sym.Assert(!bad, "a violating step is missed because its intermediate state was already met in another step")
	m.CheckGraph(root, ts.S)
}

// exists assertions: violated iff no reachable state satisfies them
func H_exists() {
	forms := [][2]int{{ts.Req, ts.Forced}, {ts.Pick, ts.If}, {ts.If, ts.OneOf}}[sym.Choose("forms", 3)]
	m := ts.New(2, ts.Act{"A", forms[0]}, ts.Act{"B", forms[1]})
	exists(m, 1)
}

func H_exists2() {
	m := ts.New(more(3, 4), ts.Act{"A", ts.Forced})
	exists(m, 2)
}

func H_existsForms() {
	m := ts.New(more(2, 3), ts.Act{"A", sym.Choose("form", ts.Forms)})
	exists(m, 1)
}

// several exists assertions, satisfied by the same or by different states
func H_existsMany() {
	exists(ts.New(2, ts.Act{"A", ts.Forced}), more(3, 4))
}

func exists(m *ts.Model, q int) {
	f := m.File()
	for i := 0; i < q; i++ {
		n := string(rune('0' + i))
		f.Invariants = append(f.Invariants, spec.Assertion("E"+n, []string{"exists"}, "truth("+n+", s)"))
	}
	c := ts.Config{}
	if sym.Flip("processed dfs") {
		c = ts.Config{Strategy: "dfs", Processed: true}
	}
	p := c.Make(f)
	root, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "an exists assertion stops the exploration")
	nodes, _, _, _ := modelchecker.GetAllNodes(root, 100)
	un := modelchecker.CheckSimpleExistsWitness(nodes)
	got := map[int]bool{}
	for _, u := range un {
		sym.Assert(u.FileIndex == 0 && !got[u.InvariantIndex], "an exists assertion is reported twice")
		got[u.InvariantIndex] = true
	}
	order, _ := m.Reach()
	for k := 0; k < q; k++ {
		sat := false
		for _, i := range order {
			sat = sat || m.TruthOf(k, i)
		}
		sym.Assert(got[k] == !sat, "an exists assertion is violated iff no reachable state satisfies it")
	}
	sym.Assert(len(got) <= q, "an unknown exists assertion is reported")
	sym.Cover("exists")
}
