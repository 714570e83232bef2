// Package c09: action and concurrency limits bound exactly what they name.
package c09

import (
	ast "fizz/proto"
	"verifh/spec"
	"verifh/star"
	"verifh/sym"
	"verifh/ts"

	"github.com/fizzbee-io/fizzbee/modelchecker"
)

func more(quick, thorough int) int {
	if sym.Tier() > 0 {
		return thorough
	}
	return quick
}

// limit is an absent limit (0) or a positive one.
func limit(name string, max int) int { return sym.Int(name, 0, max) }

func under(n, limit int) bool { return limit == 0 || n < limit }

func file(serial bool, guard bool) *ast.File {
	mk := func(name, v, g string) *ast.Action {
		if serial {
			return spec.Action(name, spec.Block(spec.Serial, spec.Py(v+" = "+v+" + 1"), spec.Py(v+" = "+v+" - 1")))
		}
		if g != "" {
			return spec.Action(name, spec.Block(spec.Atomic, spec.Require(g), spec.Py(v+" = "+v+" + 1")))
		}
		return spec.Action(name, spec.Block(spec.Atomic, spec.Py(v+" = "+v+" + 1")))
	}
	g := ""
	if guard {
		g = "truth(0, a)"
	}
	return spec.File(
		spec.Action("Init", spec.Block(spec.Atomic, spec.Py("a = 0\nb = 0"))),
		mk("A", "a", ""), mk("B", "b", g))
}

func options(f *ast.File, max, conc int, per map[string]*ast.Options, c ts.Config) *modelchecker.Processor {
	o := spec.Options(int64(max), int64(conc), false, false)
	o.ActionOptions = per
	p := spec.New(f, o, c.Strategy)
	p.SetExperimentalProcessedQueue(c.Processed)
	return p
}

type pair struct{ a, b int }

// discovered is the set of steps between the yield points of the explored
// graph; the step {p, p} stands for the state p.
func discovered(root *modelchecker.Node, of func(n *modelchecker.Node) pair) map[[2]pair]bool {
	got := map[[2]pair]bool{}
	g := ts.Contract(root)
	for _, n := range g.Nodes {
		got[[2]pair{of(n), of(n)}] = true
	}
	for _, e := range g.Edges {
		got[[2]pair{of(e.From), of(e.To)}] = true
	}
	return got
}

func vars(n *modelchecker.Node) pair {
	return pair{ts.StateOf(n, "a"), ts.StateOf(n, "b")}
}

func fields(n *modelchecker.Node) pair {
	get := func(i int) int {
		v, err := n.Roles[i].Fields.Attr("k")
		sym.Assert(err == nil, "a role loses its field")
		return star.IntOf(v)
	}
	return pair{get(0), get(1)}
}

// reach closes the initial state under step; it returns the steps, and {p, p}
// for each state p.
func reach(step func(p pair) []pair) map[[2]pair]bool {
	seen := map[[2]pair]bool{{}: true}
	q := []pair{{0, 0}}
	for i := 0; i < len(q); i++ {
		for _, n := range step(q[i]) {
			seen[[2]pair{q[i], n}] = true
			if !seen[[2]pair{n, n}] {
				seen[[2]pair{n, n}] = true
				q = append(q, n)
			}
		}
	}
	return seen
}

func same(got, want map[[2]pair]bool) {
	for s := range got {
		sym.Assert(want[s], "a step beyond a limit is explored")
	}
	for s := range want {
		sym.Assert(got[s], "a step within all limits is not explored")
	}
	sym.Cover("checked")
}

func config() ts.Config {
	if sym.Tier() > 0 {
		return ts.AnyConfig()
	}
	return ts.Config{Processed: sym.Flip("processed")}
}

// limits on the number of steps, overall and per action; the state is the number of steps made
func H_count() {
	m := ts.New(1)
	m.Builtins()
	la, lb := limit("limitA", 2), limit("limitB", 2)
	max := 1 + sym.Choose("max", 3)
	f := file(false, true)
	per := map[string]*ast.Options{"A": {MaxActions: int64(la)}, "B": {MaxActions: int64(lb)}}
	p := options(f, max, 2, per, config())
	root, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	want := reach(func(p pair) (out []pair) {
		if p.a+p.b >= max {
			return
		}
		if under(p.a, la) {
			out = append(out, pair{p.a + 1, p.b})
		}
		if under(p.b, lb) && m.TruthOf(0, m.Rep(p.a)) {
			out = append(out, pair{p.a, p.b + 1})
		}
		return
	})
	same(discovered(root, vars), want)
}

// limits on overlapping executions; the state is the number of executions under way
func H_concurrent() {
	la, lb := limit("limitA", 2), limit("limitB", 2)
	conc := 1 + sym.Choose("concurrent", 3)
	f := file(true, false)
	per := map[string]*ast.Options{"A": {MaxConcurrentActions: int64(la)}, "B": {MaxConcurrentActions: int64(lb)}}
	p := options(f, 50, conc, per, config())
	root, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	want := reach(func(p pair) (out []pair) {
		if p.a+p.b < conc {
			if under(p.a, la) {
				out = append(out, pair{p.a + 1, p.b})
			}
			if under(p.b, lb) {
				out = append(out, pair{p.a, p.b + 1})
			}
		}
		if p.a > 0 {
			out = append(out, pair{p.a - 1, p.b})
		}
		if p.b > 0 {
			out = append(out, pair{p.a, p.b - 1})
		}
		return
	})
	same(discovered(root, vars), want)
}

func roles(serial bool) *ast.File {
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic, spec.Py("x = R()"), spec.Py("y = R()"))))
	b := spec.Block(spec.Atomic, spec.Py("self.k = self.k + 1"))
	if serial {
		b = spec.Block(spec.Serial, spec.Py("self.k = self.k + 1"), spec.Py("self.k = self.k - 1"))
	}
	f.Roles = []*ast.Role{spec.Role("R", []*ast.Action{
		spec.Action("Init", spec.Block(spec.Atomic, spec.Py("self.k = 0"))),
		spec.Action("A", b)})}
	return f
}

// limits on a role's action: for all instances together, for each instance, for one instance
func H_roleCount() {
	all, each, one := limit("all", 3), limit("each", 2), limit("one", 2)
	max := 2 + sym.Choose("max", 2)
	per := map[string]*ast.Options{"R.A": {MaxActions: int64(all)}, "R#.A": {MaxActions: int64(each)}, "R#1.A": {MaxActions: int64(one)}}
	p := options(roles(false), max, 2, per, config())
	root, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	want := reach(func(p pair) (out []pair) {
		if p.a+p.b >= max || !under(p.a+p.b, all) {
			return
		}
		if under(p.a, each) {
			out = append(out, pair{p.a + 1, p.b})
		}
		if under(p.b, each) && under(p.b, one) {
			out = append(out, pair{p.a, p.b + 1})
		}
		return
	})
	same(discovered(root, fields), want)
}

// limits on one action count only that action: one end of a name is not a name
func H_names() {
	n := [][2]string{{"Put", "OutPut"}, {"Put", "PutOut"}, {"Put", "Put2"}}[sym.Choose("names", 3)]
	if sym.Flip("swap") {
		n[0], n[1] = n[1], n[0]
	}
	la, lb, scope := limit("limitA", 2), limit("limitB", 2), sym.Choose("scope", 4)
	overlap := sym.Flip("overlap")
	do := func(v string) *ast.Block {
		if overlap {
			return spec.Block(spec.Serial, spec.Py(v+" = "+v+" + 1"), spec.Py(v+" = "+v+" - 1"))
		}
		return spec.Block(spec.Atomic, spec.Py(v+" = "+v+" + 1"))
	}
	f := spec.File()
	of, prefix := fieldsAB, []string{"", "R.", "R#.", "R#0."}[scope]
	if scope == 0 {
		of = vars
		f.Actions = []*ast.Action{spec.Action("Init", spec.Block(spec.Atomic, spec.Py("a = 0\nb = 0"))),
			spec.Action(n[0], do("a")), spec.Action(n[1], do("b"))}
	} else {
		f.Actions = []*ast.Action{spec.Action("Init", spec.Block(spec.Atomic, spec.Py("x = R()")))}
		f.Roles = []*ast.Role{spec.Role("R", []*ast.Action{
			spec.Action("Init", spec.Block(spec.Atomic, spec.Py("self.a = 0\nself.b = 0"))),
			spec.Action(n[0], do("self.a")), spec.Action(n[1], do("self.b"))})}
	}
	mk := func(l int) *ast.Options {
		if overlap {
			return &ast.Options{MaxConcurrentActions: int64(l)}
		}
		return &ast.Options{MaxActions: int64(l)}
	}
	max, conc := 3, 1
	if overlap {
		max, conc = 50, 3
	}
	p := options(f, max, conc, map[string]*ast.Options{prefix + n[0]: mk(la), prefix + n[1]: mk(lb)}, config())
	root, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	want := reach(func(p pair) (out []pair) {
		if p.a+p.b < 3 {
			if under(p.a, la) {
				out = append(out, pair{p.a + 1, p.b})
			}
			if under(p.b, lb) {
				out = append(out, pair{p.a, p.b + 1})
			}
		}
		if overlap && p.a > 0 {
			out = append(out, pair{p.a - 1, p.b})
		}
		if overlap && p.b > 0 {
			out = append(out, pair{p.a, p.b - 1})
		}
		return
	})
	same(discovered(root, of), want)
}

func fieldsAB(n *modelchecker.Node) pair {
	get := func(f string) int {
		v, err := n.Roles[0].Fields.Attr(f)
		sym.Assert(err == nil, "a role loses its field")
		return star.IntOf(v)
	}
	return pair{get("a"), get("b")}
}

func H_roleConcurrent() {
	all, each, one := limit("all", 3), limit("each", 2), limit("one", 2)
	conc := 2 + sym.Choose("concurrent", 2)
	per := map[string]*ast.Options{"R.A": {MaxConcurrentActions: int64(all)}, "R#.A": {MaxConcurrentActions: int64(each)}, "R#1.A": {MaxConcurrentActions: int64(one)}}
	p := options(roles(true), 50, conc, per, config())
	root, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	want := reach(func(p pair) (out []pair) {
		if p.a+p.b < conc && under(p.a+p.b, all) {
			if under(p.a, each) {
				out = append(out, pair{p.a + 1, p.b})
			}
			if under(p.b, each) && under(p.b, one) {
				out = append(out, pair{p.a, p.b + 1})
			}
		}
		if p.a > 0 {
			out = append(out, pair{p.a - 1, p.b})
		}
		if p.b > 0 {
			out = append(out, pair{p.a, p.b - 1})
		}
		return
	})
	same(discovered(root, fields), want)
}

// arbitrary tables: every edge, and the way each state was first reached, stay within the limits
func H_table() {
	table(ts.New(3, ts.Act{"A", ts.Req}, ts.Act{"B", ts.Req}), ts.Config{Processed: sym.Flip("processed")})
}

func H_tableDfs() {
	c := ts.Config{Strategy: []string{"dfs", "random"}[sym.Choose("strategy", 2)]}
	table(ts.New(more(2, 3), ts.Act{"A", ts.Req}, ts.Act{"B", ts.Req}), c)
}

func table(m *ts.Model, c ts.Config) {
	la := limit("limitA", 2)
	max := 1 + sym.Choose("max", 3)
	p := options(m.File(), max, 2, map[string]*ast.Options{"A": {MaxActions: int64(la)}}, c)
	root, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	g := ts.Contract(root)
	type at struct{ steps, a int }
	first := map[*modelchecker.Node]at{root: {}}
	for _, n := range g.Nodes {
		x := at{}
		for c := n; c != root; c = c.Inbound[0].Node {
			l := c.Inbound[0]
			if l.Type == "action" {
				x.steps++
				if l.Name == "A" {
					x.a++
				}
			}
		}
		first[n] = x
	}
	for _, e := range g.Edges {
		x := first[e.From]
		sym.Assert(x.steps+1 <= max, "a step beyond max_actions is explored")
		if e.Name == "A" {
			sym.Assert(under(x.a, la), "a step beyond a per-action limit is explored")
		}
	}
	// without a per-action limit every state within max_actions steps is found
	order, depth := m.Reach()
	sym.Cover("checked")
	got := map[int]bool{}
	for _, n := range g.Nodes {
		got[m.Rep(ts.S(n))] = true
	}
	if la == 0 {
		for _, i := range order {
			if c.Strategy != "" && !got[i] && depth[i] <= max {
				sym.Assert(false, "depth-first or random exploration misses a state within max_actions because it first reached a state before it on a longer path")
			}
			sym.Assert(got[i] == (depth[i] <= max), "exactly the states within max_actions steps are explored")
		}
		return
	}
	// with one: exactly the states reached by an execution within both limits
	type key struct{ i, steps, a int }
	seen := map[key]bool{{m.Rep(0), 0, 0}: true}
	q := []key{{m.Rep(0), 0, 0}}
	ways := map[int]int{m.Rep(0): 0}
	merged := false
	for k := 0; k < len(q); k++ {
		x := q[k]
		if x.steps >= max {
			continue
		}
		for a := range m.Acts {
			if a == 0 && !under(x.a, la) {
				continue
			}
			for _, j := range m.Next(a, x.i) {
				y := key{j, x.steps + 1, x.a}
				if a == 0 {
					y.a++
				}
				if w, ok := ways[j]; ok && w != y.a {
					merged = true
				} else if !ok {
					ways[j] = y.a
				}
				if !seen[y] {
					seen[y] = true
					q = append(q, y)
				}
			}
		}
	}
	want := map[int]bool{}
	for k := range seen {
		want[k.i] = true
	}
	for i := range got {
		sym.Assert(want[i], "a state no execution within the limits reaches is explored")
	}
	for i := range want {
		if !got[i] && (merged || c.Strategy != "") {
			sym.Assert(false, "a state within the limits is missed because an earlier arrival had used up more of a per-action limit")
		}
		sym.Assert(got[i], "a state within all limits is not explored")
	}
}

// the known miss of depth-first exploration: 0 -> {1, 2}, 1 -> 2, 2 -> 3 with at most two steps
func H_dfsMissed() {
	m := ts.New(4, ts.Act{"A", ts.Req}, ts.Act{"B", ts.Req})
	m.SuccF = func(a, k, i int) []int {
		switch {
		case a == 1 && i < 3:
			return []int{i + 1}
		case a == 0 && i == 0:
			return []int{2}
		}
		return nil
	}
	for i := 0; i < 4; i++ {
		m.Rep(i)
	}
	table(m, ts.Config{Strategy: "dfs"})
}
