// Package c05: safety violations are reported exactly when a reachable state violates.
package c05

import (
	ast "fizz/proto"
	"verifh/spec"
	"verifh/sym"
	"verifh/ts"

	"github.com/fizzbee-io/fizzbee/modelchecker"
)

func more(quick, thorough int) int {
	if sym.Tier() > 0 {
		return thorough
	}
	return quick
}

// assertion q: always truth(q, s)
func always(f *ast.File, q string) {
	f.Invariants = append(f.Invariants, spec.Assertion("Q"+q, []string{"always"}, "truth("+q+", s)"))
}

// badReachable lists the assertions 0..q-1 that some reachable state violates.
func badReachable(m *ts.Model, q int) bool {
	order, _ := m.Reach()
	for _, i := range order {
		for k := 0; k < q; k++ {
			if !m.TruthOf(k, i) {
				return true
			}
		}
	}
	return false
}

// failing checks the failed node: it violates exactly the assertions it lists.
func failing(m *ts.Model, q int, n *modelchecker.Node) {
	i := m.Rep(ts.S(n))
	_, depth := m.Reach()
	_, ok := depth[i]
	sym.Assert(ok, "the reported failing state is not reachable")
	listed := map[int]bool{}
	for _, k := range n.Process.FailedInvariants[0] {
		listed[k] = true
	}
	for k := 0; k < q; k++ {
		sym.Assert(listed[k] == !m.TruthOf(k, i), "the failing node does not list exactly the assertions that are false there")
	}
	sym.Assert(len(listed) > 0, "the reported failing state violates no assertion")
}

// path checks that the reported failure path is an execution from the initial state to the failing node.
func path(m *ts.Model, root, failed *modelchecker.Node) {
	links := modelchecker.ExtractFailurePath(failed, root)
	sym.Assert(len(links) > 0 && links[0].Node == root, "the failure path does not start at the initial state")
	sym.Assert(links[len(links)-1].Node == failed, "the failure path does not end at the failing state")
	at := m.Rep(0)
	act := ""
	for _, l := range links[1:] {
		if !ts.IsChoice(l.Name) {
			act = l.Name
		}
		if l.Node.IsYieldNode() || l.Node == failed {
			to := m.Rep(ts.S(l.Node))
			ok := false
			for a := range m.Acts {
				if m.Acts[a].Name != act {
					continue
				}
				for _, j := range m.Next(a, at) {
					ok = ok || j == to
				}
			}
			sym.Assert(ok, "the failure path contains a step no action makes")
			at = to
		}
	}
}

func verdict(m *ts.Model, q int, f *ast.File, c ts.Config) {
	p := c.Make(f)
	root, failed, err := p.Start()
	sym.Assert(err == nil, "exploration of a valid model fails")
	want := badReachable(m, q)
	sym.Assert((failed != nil) == want, "a violation is reported iff a reachable state violates an assertion")
	sym.Cover("verdict")
	if failed == nil {
		return
	}
	sym.Cover("failed")
	failing(m, q, failed)
	if !c.NoGraph {
		path(m, root, failed)
		return
	}
	// without a graph only the names on the path are kept
	cur := map[int]bool{m.Rep(0): true}
	for _, name := range failed.PathNames() {
		for a := range m.Acts {
			if m.Acts[a].Name != name {
				continue
			}
			next := map[int]bool{}
			order, _ := m.Reach()
			for _, i := range order {
				if cur[i] {
					for _, j := range m.Next(a, i) {
						next[j] = true
					}
				}
			}
			cur = next
		}
	}
	sym.Assert(cur[m.Rep(ts.S(failed))], "the reported trace does not lead to the failing state")
}

// one action of any form, one assertion, every strategy
func H_single() {
	form := sym.Choose("form", ts.Forms)
	n := 2
	if form == ts.Req || form == ts.If || form == ts.Forced {
		n = more(3, 4)
	}
	m := ts.New(n, ts.Act{"A", form})
	f := m.File()
	always(f, "0")
	verdict(m, 1, f, ts.AnyConfig())
}

// two actions, one assertion
func H_pair() {
	forms := [][2]int{{ts.Req, ts.Forced}, {ts.Pick, ts.If}, {ts.If, ts.OneOf}, {ts.Forced, ts.PrefixAny}}[sym.Choose("forms", 4)]
	m := ts.New(more(2, 3), ts.Act{"A", forms[0]}, ts.Act{"B", forms[1]})
	f := m.File()
	always(f, "0")
	c := ts.Config{}
	if sym.Flip("dfs") {
		c.Strategy = "dfs"
	}
	verdict(m, 1, f, c)
}

// several assertions of both kinds
func H_several() {
	m := ts.New(3, ts.Act{"A", ts.Forced})
	f := m.File()
	always(f, "0")
	always(f, "1")
	c := ts.Config{Processed: sym.Flip("processed")}
	verdict(m, 2, f, c)
}

// the mode without a graph
func H_nograph() {
	m := ts.New(more(2, 3), ts.Act{"A", ts.Pick}, ts.Act{"B", ts.Forced})
	f := m.File()
	always(f, "0")
	c := ts.Config{NoGraph: true}
	if sym.Flip("dfs") {
		c.Strategy = "dfs"
	}
	verdict(m, 1, f, c)
}

// an action limit: states beyond it neither count nor hide others
func H_limit() {
	m := ts.New(3, ts.Act{"A", ts.Forced})
	f := m.File()
	always(f, "0")
	max := 1 + sym.Choose("max", more(2, 3))
	c := ts.Config{Max: int64(max), Processed: sym.Flip("processed")}
	p := c.Make(f)
	_, failed, err := p.Start()
	sym.Assert(err == nil, "exploration of a valid model fails")
	order, depth := m.Reach()
	want := false
	for _, i := range order {
		if depth[i] <= max && !m.TruthOf(0, i) {
			want = true
		}
	}
	sym.Assert((failed != nil) == want, "within an action limit a violation is reported iff a state within the limit violates")
	if failed != nil {
		failing(m, 1, failed)
	}
}

// an assertion that modifies its copies of the state changes nothing
func H_mutating() {
	m := ts.New(more(2, 3), ts.Act{"A", ts.Req}, ts.Act{"B", ts.Forced})
	f := m.FileStored(ts.InList)
	inv := spec.Assertion("Q", []string{"always"}, "")
	inv.Block = spec.Block(spec.Atomic,
		spec.Py("s[1].append(7)"), spec.Py("ok = truth(0, s[0])"), spec.Py("s[0] = 5"), spec.Py("s = 7"), spec.Return("ok"))
	f.Invariants = append(f.Invariants, inv)
	p := ts.Config{Processed: sym.Flip("processed")}.Make(f)
	root, failed, err := p.Start()
	sym.Assert(err == nil, "exploration of a valid model fails")
	want := badReachable(m, 1)
	sym.Assert((failed != nil) == want, "a violation is reported iff a reachable state violates an assertion")
	if failed == nil {
		m.CheckGraph(root, func(n *modelchecker.Node) int { return ts.StoredOf(n, ts.InList) })
	}
}

// an expression invariant over symbolic state values
func H_expr() {
	m := ts.New(more(2, 3), ts.Act{"A", ts.Forced}, ts.Act{"B", ts.If})
	f := m.File()
	f.Invariants = append(f.Invariants, &ast.Invariant{Name: "E", Always: true, PyExpr: "s < 100 or s == 250"})
	m.TruthF = func(q, i int) bool {
		v := m.Val(i)
		return v < 100 || v == 250
	}
	verdict(m, 1, f, ts.Config{Processed: sym.Flip("processed")})
}
