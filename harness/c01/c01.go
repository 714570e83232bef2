// Package c01: exhaustive exploration visits exactly the reachable states.
package c01

import (
	"verifh/sym"
	"verifh/ts"

	"github.com/fizzbee-io/fizzbee/modelchecker"
)

func run(m *ts.Model, c ts.Config) {
	p := c.Make(m.File())
	root, failed, err := p.Start()
	sym.Assert(err == nil, "exploration of a valid model fails")
	sym.Assert(failed == nil, "a run without assertions reports a violation")
	m.CheckGraph(root, ts.S)
	sym.Observe("visited", p.GetVisitedNodesCount())
	sym.Cover("explored")
}

func more(quick, thorough int) int {
	if sym.Tier() > 0 {
		return thorough
	}
	return quick
}

// one action of every form, every strategy
func H_single() {
	f := sym.Choose("form", ts.Forms)
	n := more(2, 3)
	if f == ts.Req || f == ts.If || f == ts.Forced {
		n += 2
	}
	run(ts.New(n, ts.Act{"A", f}), ts.AnyConfig())
}

// two actions of different forms, breadth first
func H_pair() {
	f := [][2]int{{ts.Req, ts.If}, {ts.Any, ts.If}, {ts.If, ts.OneOf}, {ts.Any, ts.AnyIf}, {ts.Forced, ts.PrefixAny}, {ts.OneOf, ts.PrefixAny}}[sym.Choose("forms", 6)]
	run(ts.New(more(2, 3), ts.Act{"A", f[0]}, ts.Act{"B", f[1]}), ts.Config{})
}

// two actions over three states, every strategy
func H_strategies() {
	run(ts.New(more(2, 3), ts.Act{"A", ts.Req}, ts.Act{"B", ts.Forced}), ts.AnyConfig())
}

// two actions over three states
func H_two() {
	run(ts.New(3, ts.Act{"A", ts.Req}, ts.Act{"B", ts.Forced}), ts.Config{})
}

// the state inside a container, a record or a role's field
func H_storage() {
	m := ts.New(more(2, 3), ts.Act{"A", ts.Req}, ts.Act{"B", ts.If})
	how := 1 + sym.Choose("how", ts.Storages-1)
	c := ts.Config{Processed: sym.Flip("processed")}
	p := c.Make(m.FileStored(how))
	root, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	if how == ts.InRole {
		for i := range m.Acts {
			m.Acts[i].Name = root.Roles[0].RefStringShort() + "." + m.Acts[i].Name
		}
	}
	m.CheckGraph(root, func(n *modelchecker.Node) int { return ts.StoredOf(n, how) })
	sym.Cover("explored")
}

// three actions
func H_three() {
	run(ts.New(more(2, 3), ts.Act{"A", ts.Req}, ts.Act{"B", ts.Forced}, ts.Act{"C", ts.If}), ts.Config{})
}

// the memory-saving mode without a graph reports the number of different states
func H_nograph() {
	m := ts.New(more(2, 3), ts.Act{"A", ts.Pick}, ts.Act{"B", ts.Forced})
	c := ts.Config{NoGraph: true}
	if sym.Flip("dfs") {
		c.Strategy = "dfs"
	}
	p := c.Make(m.File())
	_, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	order, _ := m.Reach()
	sym.Assert(p.GetUniqueYieldCount() == len(order), "the number of states reported without a graph is wrong")
}

// the analysis after the run keeps every state and step, and counts the states
func H_after() {
	m := ts.New(more(2, 3), ts.Act{"A", ts.OneOf}, ts.Act{"B", ts.Pick})
	p := ts.Config{}.Make(m.File())
	root, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	nodes, _, _, yields := modelchecker.GetAllNodes(root, 100)
	order, _ := m.Reach()
	sym.Assert(yields == len(order), "the number of unique states reported is wrong")
	g, _ := m.CheckGraph(root, ts.S)
	in := map[*modelchecker.Node]int{}
	for _, n := range nodes {
		in[n]++
		sym.Assert(in[n] == 1, "a node is listed twice")
	}
	for _, n := range g.Nodes {
		sym.Assert(in[n] == 1, "a reachable state is missing from the node list")
	}
}
