// Package c07: liveness verdicts are exact under the declared fairness.
package c07

import (
	ast "fizz/proto"
	"verifh/spec"
	"verifh/sym"
	"verifh/ts"

	"github.com/fizzbee-io/fizzbee/modelchecker"
)

func more(quick, thorough int) int {
	if sym.Tier() > 0 {
		return thorough
	}
	return quick
}

var (
	ae = []string{"always", "eventually"}
	ea = []string{"eventually", "always"}
)

const (
	weak   = ast.FairnessLevel_FAIRNESS_LEVEL_WEAK
	strong = ast.FairnessLevel_FAIRNESS_LEVEL_STRONG
)

// level is any declared fairness.
func level() ast.FairnessLevel {
	return ast.FairnessLevel(sym.Int("fairness", 0, 3))
}

type edge struct{ a, from, to int }

// graph is the table's reachable part.
type graph struct {
	m     *ts.Model
	n     int
	edges []edge
	on    map[int]int // state -> bit set of enabled actions
}

func table(m *ts.Model) *graph {
	g := &graph{m: m, on: map[int]int{}}
	order, _ := m.Reach()
	for _, i := range order {
		for a := range m.Acts {
			for _, j := range m.Next(a, i) {
				g.edges = append(g.edges, edge{a, i, j})
				g.on[i] |= 1 << a
			}
		}
	}
	g.n = m.States()
	return g
}

// fairIn says whether an infinite execution exists that visits exactly the
// states of set infinitely often and respects fairness.
func (g *graph) fairIn(set int) bool {
	if len(g.m.Choice) == 0 {
		return g.uses(set, -1)
	}
	// with fair choices, an execution may do better to avoid an action in some states
	for use := 0; use < 1<<(g.n*len(g.m.Acts)); use++ {
		if g.uses(set, use) {
			return true
		}
	}
	return false
}

// uses is the same for executions that infinitely often take exactly the
// actions of use (bit state*actions+action) where they are possible, and every choice among set's states.
func (g *graph) uses(set, use int) bool {
	within := 0 // actions taken inside the set
	adj := make([]int, g.n)
	chosen := map[[2]int]bool{}
	offered := map[[2]int]bool{}
	taken := map[[2]int]bool{}
	for _, e := range g.edges {
		if set>>e.from&1 == 1 && set>>e.to&1 == 1 && use>>(e.from*len(g.m.Acts)+e.a)&1 == 1 {
			adj[e.from] |= 1 << e.to
			within |= 1 << e.a
			chosen[[2]int{e.a, e.to}] = true
			taken[[2]int{e.a, e.from}] = true
		}
	}
	for _, e := range g.edges {
		if taken[[2]int{e.a, e.from}] {
			offered[[2]int{e.a, e.to}] = true
		}
	}
	if set&(set-1) != 0 {
		for i := 0; i < g.n; i++ {
			if set>>i&1 == 1 && g.reach(adj, i)&set != set {
				return false
			}
		}
	}
	for o := range offered {
		if l, ok := g.m.Choice[o[0]]; ok && l >= weak && !chosen[o] {
			return false
		}
	}
	return g.fair(set, within)
}

func (g *graph) reach(adj []int, i int) int {
	seen := 0
	for {
		next := seen | adj[i]
		for j := 0; j < g.n; j++ {
			if seen>>j&1 == 1 {
				next |= adj[j]
			}
		}
		if next == seen {
			return seen
		}
		seen = next
	}
}

// violated says whether some fair execution breaks the assertion with predicate q.
func (g *graph) violated(q int, op []string) bool {
	order, _ := g.m.Reach()
	all := 0
	for _, i := range order {
		all |= 1 << i
	}
	for set := 1; set <= all; set++ {
		if set&all != set {
			continue
		}
		bad, good := false, false
		if !g.fairIn(set) {
			continue
		}
		for _, i := range order {
			if set>>i&1 == 1 {
				if g.m.TruthOf(q, i) {
					good = true
				} else {
					bad = true
				}
			}
		}
		if op[0] == "always" && !good || op[0] == "eventually" && bad {
			return true
		}
	}
	return false
}

func mask(order []int) (all int) {
	for _, i := range order {
		all |= 1 << i
	}
	return
}

// joined says whether two different ways without repeated states lead to one state.
func (g *graph) joined() bool {
	count := make([]int, g.n)
	var walk func(i, seen int)
	walk = func(i, seen int) {
		count[i]++
		for _, e := range g.edges {
			if e.from == i && seen>>e.to&1 == 0 {
				walk(e.to, seen|1<<e.to)
			}
		}
	}
	walk(0, 1)
	for _, c := range count {
		if c > 1 {
			return true
		}
	}
	return false
}

// simple says whether an execution that ends up repeating one cycle without
// repeated states (or stuttering) breaks the assertion.
func (g *graph) simple(q int, op []string) bool {
	found := false
	bad := func(set int) bool {
		bad, good := false, false
		for i := 0; i < g.n; i++ {
			if set>>i&1 == 1 {
				if g.m.TruthOf(q, i) {
					good = true
				} else {
					bad = true
				}
			}
		}
		return op[0] == "always" && !good || op[0] == "eventually" && bad
	}
	var walk func(first int, path []edge, set int)
	walk = func(first int, path []edge, set int) {
		i := first
		if len(path) > 0 {
			i = path[len(path)-1].to
		}
		for _, e := range g.edges {
			if found || e.from != i {
				continue
			}
			p := append(append([]edge{}, path...), e)
			if e.to == first {
				if bad(set) && g.fairPath(set, p) {
					found = true
				}
			} else if set>>e.to&1 == 0 && e.to > first {
				walk(first, p, set|1<<e.to)
			}
		}
	}
	order, _ := g.m.Reach()
	for _, i := range order {
		if bad(1<<i) && g.fair(1<<i, 0) {
			return true
		}
		walk(i, nil, 1<<i)
	}
	return found
}

// fairPath says whether repeating the steps of path through set forever is fair.
func (g *graph) fairPath(set int, path []edge) bool {
	taken := 0
	chosen, offered := map[[2]int]bool{}, map[[2]int]bool{}
	for _, s := range path {
		taken |= 1 << s.a
		chosen[[2]int{s.a, s.to}] = true
		for _, e := range g.edges {
			if e.a == s.a && e.from == s.from {
				offered[[2]int{e.a, e.to}] = true
			}
		}
	}
	for o := range offered {
		if l, ok := g.m.Choice[o[0]]; ok && l >= weak && !chosen[o] {
			return false
		}
	}
	return g.fair(set, taken)
}

// counterexample checks that the reported path is a fair execution violating the assertion.
func (g *graph) counterexample(path []*modelchecker.Link, q int, op []string) {
	m := g.m
	sym.Assert(len(path) >= 2, "a liveness counterexample has no cycle")
	st := func(k int) int { return m.Rep(ts.S(path[k].Node)) }
	sym.Assert(st(0) == 0, "a liveness counterexample does not start at the initial state")
	last := len(path) - 1
	stutter := path[last].Name == "stutter"
	if stutter {
		sym.Assert(path[last-1].Node == path[last].Node, "a liveness counterexample stutters in another state")
		last--
	}
	var at []int    // the yield points on the path
	var step []edge // the step leading to each of them
	name := ""      // of the action under way
	for k := 0; k <= last; k++ {
		if k > 0 && !ts.IsChoice(path[k].Name) {
			name = path[k].Name
		}
		if !path[k].Node.IsYieldNode() {
			continue
		}
		x := edge{-1, 0, st(k)}
		if len(at) > 0 {
			x.from = st(at[len(at)-1])
			for _, e := range g.edges {
				if e.from == x.from && e.to == x.to && m.Acts[e.a].Name == name {
					x.a = e.a
				}
			}
			sym.Assert(x.a >= 0, "a liveness counterexample contains a step the model does not have")
		}
		at = append(at, k)
		step = append(step, x)
	}
	sym.Assert(at[len(at)-1] == last, "a liveness counterexample ends inside a step")
	start := -1
	for k := range at {
		if path[at[k]].Node == path[last].Node {
			start = k
			break
		}
	}
	set := 0
	bad, good := false, false
	if stutter {
		start = len(at) - 1
	} else {
		sym.Assert(start < len(at)-1, "a liveness counterexample does not end in a cycle")
	}
	for k := start; k < len(at); k++ {
		set |= 1 << st(at[k])
		if m.TruthOf(q, st(at[k])) {
			good = true
		} else {
			bad = true
		}
	}
	sym.Assert(op[0] == "always" && !good || op[0] == "eventually" && bad, "a liveness counterexample satisfies the assertion")
	sym.Assert(g.fairPath(set, step[start+1:]), "a liveness counterexample is not fair")
}

// fair says whether an execution that visits the states of set and takes the
// actions of taken infinitely often, and no others, respects fairness.
func (g *graph) fair(set, taken int) bool {
	for a := range g.m.Acts {
		l := g.m.Fair[a]
		if taken>>a&1 == 1 {
			continue
		}
		all, some := true, false
		for i := 0; i < g.n; i++ {
			if set>>i&1 == 1 {
				if g.on[i]>>a&1 == 1 {
					some = true
				} else {
					all = false
				}
			}
		}
		if all && l >= weak || some && l == strong {
			return false
		}
	}
	return true
}

// The search visits a state again only on the path it is on, so it can miss
// cycles through states it already left.
const missed = "a fair execution that violates the assertion only on a cycle through states the search has already left is not reported"

func run(m *ts.Model, op []string, exact bool) {
	check(m, exact, spec.Assertion("L", op, "truth(0, s)"))
}

func opOf(x *ast.Invariant) []string {
	if x.Block != nil {
		return x.TemporalOperators
	}
	if x.Always {
		return ae
	}
	return ea
}

func check(m *ts.Model, exact bool, ls ...*ast.Invariant) {
	for len(m.Fair) < len(m.Acts) {
		m.Fair = append(m.Fair, level())
	}
	f := m.File()
	f.Invariants = append(f.Invariants, ls...)
	p := ts.Config{}.Make(f)
	root, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	nodes, _, _, _ := modelchecker.GetAllNodes(root, 100)
	path, inv := modelchecker.CheckStrictLiveness(root, nodes)
	g := table(m)
	for q, l := range ls {
		op := opOf(l)
		if inv != nil && inv.InvariantIndex == q {
			sym.Cover("violated")
			sym.Assert(g.violated(q, op), "an assertion that holds on every fair execution is reported violated")
			g.counterexample(path, q, op)
			return
		}
		// all assertions before the reported one must hold
		want := g.violated(q, op)
		if want && !exact && (g.joined() || !g.simple(q, op)) {
			sym.Assert(false, missed)
		}
		sym.Assert(!want, "a fair execution that violates the assertion is not reported")
	}
	sym.Assert(inv == nil, "the violation of an assertion that does not exist is reported")
	sym.Cover("passes")
}

func op() []string {
	if sym.Flip("eventuallyAlways") {
		return ea
	}
	return ae
}

func H_single() {
	form := []int{ts.Req, ts.Forced, ts.If}[sym.Choose("form", 3)]
	run(ts.New(more(3, 4), ts.Act{"A", form}), op(), false)
}

func H_pair2() {
	run(ts.New(2, ts.Act{"A", ts.Req}, ts.Act{"B", ts.Req}), op(), true)
}

func H_pair3() {
	if sym.Tier() > 0 {
		run(ts.New(3, ts.Act{"A", ts.Req}, ts.Act{"B", ts.Req}), op(), false)
		return
	}
	m := ts.New(3, ts.Act{"A", ts.Forced}, ts.Act{"B", ts.Req})
	m.Fair = []ast.FairnessLevel{[]ast.FairnessLevel{weak, strong}[sym.Choose("fairA", 2)]}
	m.Fair = append(m.Fair, []ast.FairnessLevel{0, strong}[sym.Choose("fairB", 2)])
	run(m, ae, false)
}

func H_missed() {
	m := ts.New(3, ts.Act{"X", ts.Req}, ts.Act{"Y", ts.Req})
	m.SuccF = func(a, k, i int) []int {
		switch {
		case a == 0 && i == 0:
			return []int{1}
		case a == 0 && i == 1:
			return []int{0}
		case a == 0 && i == 2:
			return []int{1}
		case a == 1 && i == 0:
			return []int{2}
		}
		return nil
	}
	for i := 0; i < 3; i++ {
		m.Rep(i)
	}
	m.TruthF = func(q, i int) bool { return i != 2 }
	run(m, ea, false)
}

func H_choice() {
	if sym.Tier() > 0 {
		m := ts.New(2, ts.Act{"A", []int{ts.Pick, ts.Any}[sym.Choose("form", 2)]}, ts.Act{"B", ts.Req})
		m.Choice[0] = level()
		run(m, op(), false)
		return
	}
	m := ts.New(2, ts.Act{"A", ts.Pick}, ts.Act{"B", ts.Forced})
	m.Choice[0] = level()
	m.Fair = []ast.FairnessLevel{weak}
	run(m, op(), false)
}

// a choice among up to three states, made by one action
func H_choice3() {
	m := ts.New(3, ts.Act{"A", ts.Pick})
	m.Choice[0] = level()
	if sym.Tier() == 0 {
		sym.Assume(m.Choice[0] >= weak)
		m.Fair = []ast.FairnessLevel{weak}
	}
	run(m, op(), false)
}

// two assertions: the first violated one is reported
func H_two() {
	m := ts.New(2, ts.Act{"A", ts.Req})
	check(m, true, spec.Assertion("L", op(), "truth(0, s)"), spec.Assertion("M", op(), "truth(1, s)"))
}

// a safety assertion beside the liveness one, and the expression form
func H_expr() {
	m := ts.New(3, ts.Act{"A", ts.Req})
	m.TruthF = func(q, i int) bool { return m.Val(i) == 0 }
	l := &ast.Invariant{Always: true, Eventually: true, PyExpr: "s == 0"}
	if sym.Flip("eventuallyAlways") {
		l = &ast.Invariant{Eventually: true, Nested: &ast.Invariant{Always: true, PyExpr: "s == 0"}}
	}
	check(m, true, l)
}

// Violated says, for other properties, whether some fair execution of m breaks
// the assertion with predicate q.
func Violated(m *ts.Model, q int, op []string) bool { return table(m).violated(q, op) }
