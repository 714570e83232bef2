// Package c22: simulation runs are executions of the exhaustive state space.
package c22

import (
	"fmt"
	"strings"

	ast "fizz/proto"
	"verifh/c02"
	"verifh/c07"
	"verifh/flow"
	"verifh/spec"
	"verifh/sym"
	"verifh/ts"

	"github.com/fizzbee-io/fizzbee/modelchecker"
)

func more(quick, thorough int) int {
	if sym.Tier() > 0 {
		return thorough
	}
	return quick
}

type run struct {
	max      int
	deadlock bool
	safety   bool // an always assertion with a symbolic truth table
	trans    bool // a transition assertion
	how      int
}

func (r run) do(m *ts.Model) {
	f := m.FileStored(r.how)
	cur := []string{"s", "s[0]", "s['k']", "s.x", "s['k'][0][0]", "r.s"}[r.how]
	if r.safety {
		f.Invariants = append(f.Invariants, spec.Assertion("P", []string{"always"}, "truth(0, "+cur+")"))
	}
	if r.trans {
		t := spec.Assertion("T", []string{"transition"}, "trans(before."+cur+", after."+cur+")")
		t.Params = []*ast.Parameter{{Name: "before"}, {Name: "after"}}
		f.Invariants = append(f.Invariants, t)
	}
	if r.how == ts.InRole {
		for i := range m.Acts {
			m.Acts[i].Name = "R#0." + m.Acts[i].Name
		}
	}
	o := spec.Options(int64(r.max), 2, false, r.deadlock)
	o.Liveness = "false"
	p := spec.NewSim(f, o)
	root, failed, err := p.Start()
	sym.Assert(err == nil, "a simulation of a valid model fails")
	sym.Cover("run")
	st := func(n *modelchecker.Node) int { return m.Rep(ts.StoredOf(n, r.how)) }
	g := ts.Contract(root)
	sym.Assert(st(root) == m.Rep(0), "a simulation does not start at the initial state")
	for _, e := range g.Edges {
		ok := false
		for a, act := range m.Acts {
			if act.Name == e.Name {
				for _, j := range m.Next(a, st(e.From)) {
					ok = ok || j == st(e.To)
				}
			}
		}
		sym.Assert(ok, "a simulation makes a step that no action makes")
	}
	// the run is one path
	depth := map[*modelchecker.Node]int{root: 0}
	last, loop := root, false
	for {
		var next *modelchecker.Node
		for _, e := range g.Edges {
			if e.From != last {
				continue
			}
			if _, seen := depth[e.To]; seen {
				loop = true
				continue
			}
			sym.Assert(next == nil, "a simulation run follows two branches")
			next = e.To
		}
		if next == nil {
			break
		}
		depth[next] = depth[last] + 1
		last = next
	}
	sym.Assert(len(depth) == len(g.Nodes), "a simulation run is not connected")
	sym.Assert(depth[last] <= r.max, "a simulation run exceeds max_actions")
	// violations
	bad := func(n *modelchecker.Node) bool { return r.safety && !m.TruthOf(0, st(n)) }
	badStep := func(e ts.Edge) bool { return r.trans && !m.TransOf(st(e.From), st(e.To)) }
	dead := true
	for a := range m.Acts {
		dead = dead && len(m.Next(a, st(last))) == 0
	}
	want := bad(last)
	for _, n := range g.Nodes {
		sym.Assert(n == last || !bad(n), "a simulation run continues after a violation")
	}
	for _, e := range g.Edges {
		if badStep(e) {
			want = true
			sym.Assert(e.To == last || loop, "a simulation run continues after a violating step")
		}
	}
	if failed != nil {
		sym.Cover("failed")
		sym.Assert(failed == last || len(failed.Inbound) > 0 && failed.Inbound[0].Node == last, "the failing node of a simulation is not the end of the run")
		sym.Assert(want || dead && r.deadlock, "a simulation reports a violation that is none")
		return
	}
	sym.Assert(!want, "a simulation run passes over a violation")
	if dead {
		sym.Assert(!r.deadlock || depth[last] >= r.max, "a simulation run passes over a deadlock")
		return
	}
	sym.Assert(loop || depth[last] >= r.max, "a simulation run stops although it could continue")
}

func H_single() {
	form := sym.Choose("form", ts.Forms)
	r := run{max: 1 + sym.Choose("max", 2), safety: true, deadlock: true}
	r.do(ts.New(2, ts.Act{"A", form}))
}

func H_pair() {
	r := run{max: 1 + sym.Choose("max", 2), safety: sym.Flip("safety"), deadlock: sym.Flip("deadlock")}
	r.do(ts.New(more(2, 3), ts.Act{"A", ts.Req}, ts.Act{"B", ts.Req}))
}

func H_forms() {
	forms := [][2]int{{ts.Pick, ts.If}, {ts.If, ts.OneOf}, {ts.Any, ts.PrefixAny}, {ts.AnyIf, ts.Req}}[sym.Choose("forms", 4)]
	r := run{max: more(1, 2), safety: sym.Tier() > 0, deadlock: true}
	r.do(ts.New(2, ts.Act{"A", forms[0]}, ts.Act{"B", forms[1]}))
}

func H_transition() {
	r := run{max: 2, trans: true, deadlock: true}
	r.do(ts.New(more(2, 3), ts.Act{"A", ts.Req}, ts.Act{"B", ts.Req}))
}

func H_storage() {
	r := run{max: 2, safety: true, deadlock: true, how: 1 + sym.Choose("how", ts.Storages-1)}
	r.do(ts.New(2, ts.Act{"A", ts.Req}, ts.Act{"B", ts.If}))
}

// programs with yield points, overlapping executions and crashes
func H_serial() {
	p := c02.Sample(spec.Serial, false, sym.Tier() > 0)
	p.Other = true
	against(p)
}

func H_atomic() {
	p := c02.Sample(spec.Atomic, false, sym.Tier() > 0)
	p.Self = more(1, 2)
	p.Other = true
	against(p)
}

func H_role() {
	p := c02.Sample(spec.Serial, true, sym.Tier() > 0)
	against(p)
}

func H_crash() {
	p := c02.Sample(spec.Serial, false, sym.Tier() > 0)
	p.Crash, p.Other = true, true
	against(p)
}

type step struct{ from, name, to string }

// against compares a simulation with the exhaustive exploration.
func against(p *flow.Prog) {
	if !sym.InEngine() {
		sym.Show(fmt.Sprint(p))
	}
	root, failed, err := spec.New(p.File(), p.Options(), "bfs").Start()
	sym.Assert(err == nil && failed == nil, "exploring a valid program fails")
	all := ts.Contract(root)
	id := func(n *modelchecker.Node) string { return n.HashCode() }
	nodes, steps, out := map[string]bool{}, map[step]bool{}, map[string][]step{}
	for _, n := range all.Nodes {
		nodes[id(n)] = true
	}
	for _, e := range all.Edges {
		s := step{id(e.From), e.Name, id(e.To)}
		steps[s] = true
		out[s.from] = append(out[s.from], s)
	}
	o := p.Options()
	o.Liveness = "false"
	start, failed, err := spec.NewSim(p.File(), o).Start()
	sym.Assert(err == nil && failed == nil, "a simulation of a valid program fails")
	g := ts.Contract(start)
	sym.Assert(id(start) == id(root), "a simulation does not start at the initial state")
	for _, n := range g.Nodes {
		sym.Assert(nodes[id(n)], "a simulation reaches a state that the exploration does not")
	}
	branch, reached := map[*modelchecker.Node]int{}, map[*modelchecker.Node]bool{start: true}
	for _, e := range g.Edges {
		sym.Assert(steps[step{id(e.From), e.Name, id(e.To)}], "a simulation makes a step that the exploration does not")
		if reached[e.To] {
			continue // a loop: the run goes on with another step
		}
		reached[e.To] = true
		if !strings.HasPrefix(e.Name, "crash") {
			branch[e.From]++
			sym.Assert(branch[e.From] == 1, "a simulation run follows two branches")
		}
	}
	last := g.Nodes[len(g.Nodes)-1]
	if len(g.Edges) > 0 {
		last = g.Edges[len(g.Edges)-1].To
	}
	if branch[last] == 0 && last.GetThreadsCount() > 0 {
		for _, s := range out[id(last)] {
			sym.Assert(!strings.HasPrefix(s.name, "thread-"), "a simulation run stops although an execution could continue")
		}
	}
	if len(g.Nodes) == 1 {
		for _, s := range out[id(root)] {
			sym.Assert(s.to == s.from, "a simulation run stops at its start")
		}
	}
	sym.Cover(fmt.Sprint("length", len(g.Nodes)))
}

// simulated counterexamples of liveness assertions
func H_liveness() {
	form := []int{ts.Req, ts.Any}[sym.Choose("form", 2)]
	if sym.Tier() > 0 {
		form = sym.Choose("form", ts.Forms)
	}
	liveness([]ast.FairnessLevel{0, 2, 3}[sym.Choose("fairness", more(2, 3))], ts.Act{"A", form})
}

// one action runs while another fair one could
func H_livenessTwo() {
	liveness(ast.FairnessLevel_FAIRNESS_LEVEL_WEAK, ts.Act{"A", ts.Req}, ts.Act{"B", ts.Req})
}

func liveness(fair ast.FairnessLevel, acts ...ts.Act) {
	op := [][]string{{"always", "eventually"}, {"eventually", "always"}}
	kind := 0
	if len(acts) == 1 || sym.Tier() > 0 {
		kind = sym.Choose("op", 2)
	}
	m := ts.New(2, acts...)
	for range acts {
		m.Fair = append(m.Fair, fair)
	}
	f := m.File()
	f.Invariants = append(f.Invariants, spec.Assertion("L", op[kind], "truth(0, s)"))
	o := spec.Options(int64(more(2, 3)), 1, false, false)
	_, failed, err := spec.NewSim(f, o).Start()
	sym.Assert(err == nil, "a simulation of a valid model fails")
	if failed == nil {
		sym.Cover("fine")
		return
	}
	sym.Cover("failed")
	sym.Assert(c07.Violated(m, 0, op[kind]), "a simulation reports a liveness violation although every fair execution satisfies the assertion")
}
