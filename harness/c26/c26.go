// Package c26: composition and refinement of specs check exactly the joint
// steps, and the steps of the implementation.
package c26

import (
	"fmt"
	"os"

	ast "fizz/proto"
	"verifh/c26main"
	"verifh/spec"
	"verifh/star"
	"verifh/sym"

	"github.com/fizzbee-io/fizzbee/modelchecker"
	"go.starlark.net/starlark"
)

func more(quick, thorough int) int {
	if sym.Tier() > 0 {
		return thorough
	}
	return quick
}

// comp is a spec with a state s in 0..n-1, one action that moves to any of the
// successors of s, and a view of s.
type comp struct {
	name   string
	n      int
	form   int
	first  map[int]int   // midway: the value before the choice
	succ   map[int][]int // the choice
	view   map[int]int
	views  int
	filled bool
}

const (
	pick   = iota
	midway // s changes before the choice
	twoSteps
	forms
)

func newComp(id int, name string, n, views, form int) *comp {
	return &comp{name: name, n: n, form: form, views: views, first: map[int]int{}, succ: map[int][]int{}, view: map[int]int{}}
}

func (c *comp) set(i int) []int {
	l, ok := c.succ[i]
	if !ok {
		for j := 0; j < c.n; j++ {
			if sym.Flip(fmt.Sprintf("%s.%d-%d", c.name, i, j)) {
				l = append(l, j)
			}
		}
		c.succ[i] = l
	}
	return l
}

func (c *comp) mid(i int) int {
	v, ok := c.first[i]
	if !ok {
		v = sym.Choose(fmt.Sprintf("%s.mid%d", c.name, i), c.n)
		c.first[i] = v
	}
	return v
}

func (c *comp) viewOf(i int) int {
	v, ok := c.view[i]
	if !ok && i == 0 && c.name == "a" {
		ok = true // the names of the views are arbitrary
	}
	if !ok {
		v = sym.Choose(fmt.Sprintf("%s.view%d", c.name, i), c.views)
		c.view[i] = v
	}
	return v
}

// next is where one step leads.
func (c *comp) next(i int) []int {
	switch c.form {
	case midway:
		return c.set(c.mid(i))
	case twoSteps:
		return []int{c.mid(i)}
	}
	return c.set(i)
}

// steps are the steps of the reachable states, and each state's stuttering.
func (c *comp) steps() [][2]int {
	var out [][2]int
	order, seen := []int{0}, map[int]bool{0: true}
	for k := 0; k < len(order); k++ {
		i := order[k]
		out = append(out, [2]int{i, i})
		for _, j := range c.next(i) {
			if j != i {
				out = append(out, [2]int{i, j})
			}
			if !seen[j] {
				seen[j] = true
				order = append(order, j)
			}
		}
	}
	return out
}

func (c *comp) file() *ast.File {
	num := func(f func(int) int) func(a []starlark.Value) starlark.Value {
		return func(a []starlark.Value) starlark.Value { return star.Int(f(star.IntOf(a[0]))) }
	}
	spec.Builtin("succ_"+c.name, func(a []starlark.Value) starlark.Value { return star.List(c.set(star.IntOf(a[0]))...) })
	spec.Builtin("mid_"+c.name, num(c.mid))
	spec.Builtin("view_"+c.name, num(c.viewOf))
	choose := spec.Any("v", "succ_"+c.name+"(s)", "", spec.Block(spec.Atomic, spec.Py("s = v")))
	var b *ast.Block
	switch c.form {
	case pick:
		b = spec.Block(spec.Atomic, choose)
	case midway:
		b = spec.Block(spec.Atomic, spec.Py("s = mid_"+c.name+"(s)"), spec.Pick("s", "succ_"+c.name+"(s)", ""))
	case twoSteps:
		b = spec.Block(spec.Atomic, spec.Py("s = mid_"+c.name+"(s)"))
	}
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic, spec.Py("s = 0"))), spec.Action("A", b))
	f.Functions = append(f.Functions, spec.Func("view", spec.Atomic, nil, spec.Return("view_"+c.name+"(s)")))
	return f
}

func (c *comp) explore() *modelchecker.Node {
	root, failed, err := spec.New(c.file(), spec.Options(10, 1, false, false), "bfs").Start()
	sym.Assert(err == nil && failed == nil, "exploration of a composed spec fails")
	return root
}

func entry(name, expr string) *ast.SpecEntry {
	return &ast.SpecEntry{Name: name, Expr: spec.Expr(expr)}
}

func scratch() string {
	if sym.InEngine() {
		return "/out"
	}
	d, _ := os.MkdirTemp("", "c26")
	return d
}

func compose(comps []*comp, transition bool) {
	hashes := modelchecker.JoinHashes{}
	f := spec.File()
	f.Composition = &ast.Composition{}
	var roots []*modelchecker.Node
	for i, c := range comps {
		r := c.explore()
		roots = append(roots, r)
		c26main.PopulateJoinHashes(hashes, i, r, c.name, "view")
		f.Composition.Specs = append(f.Composition.Specs, entry(c.name, c.name+".view"))
	}
	bad, badStep := map[string]bool{}, map[string]bool{}
	flip := func(m map[string]bool, name string) bool {
		v, ok := m[name]
		if !ok {
			v = sym.Flip(name)
			m[name] = v
		}
		return v
	}
	digits := func(a []starlark.Value) string {
		out := ""
		for _, v := range a {
			out += fmt.Sprint(star.IntOf(v))
		}
		return out
	}
	var states, before, after string
	for _, c := range comps {
		states += c.name + ".s, "
		before += "before." + c.name + ".s, "
		after += "after." + c.name + ".s, "
	}
	steps := func(name, expr string) *ast.Invariant {
		inv := spec.Assertion(name, []string{"transition"}, expr)
		inv.Params = []*ast.Parameter{{Name: "before"}, {Name: "after"}}
		return inv
	}
	// next to an assertion of the other kind that always holds
	if transition {
		spec.Builtin("fine", func(a []starlark.Value) starlark.Value {
			return starlark.Bool(!flip(badStep, "badstep"+digits(a)))
		})
		f.Invariants = append(f.Invariants, spec.Assertion("S", []string{"always"}, "True"), steps("T", "fine("+before+after+")"))
	} else {
		spec.Builtin("fine", func(a []starlark.Value) starlark.Value { return starlark.Bool(!flip(bad, "bad"+digits(a))) })
		f.Invariants = append(f.Invariants, spec.Assertion("S", []string{"always"}, "fine("+states+")"), steps("T", "True"))
	}
	dir := scratch()
	err := c26main.ComposeTransitions(f, hashes, roots, dir)
	if !sym.InEngine() {
		os.RemoveAll(dir)
	}
	// the joint steps: steps of all with the same views, unless nothing changes
	want := false
	var joint func(k int, from, to string, v, w int, moves bool) bool
	joint = func(k int, from, to string, v, w int, moves bool) bool {
		if k == len(comps) {
			if !moves {
				return true
			}
			if transition {
				want = want || flip(badStep, "badstep"+from+to)
			} else {
				want = want || flip(bad, "bad"+to)
			}
			return true
		}
		met := false
		for _, x := range comps[k].steps() {
			if comps[k].viewOf(x[0]) == v && comps[k].viewOf(x[1]) == w &&
				joint(k+1, from+fmt.Sprint(x[0]), to+fmt.Sprint(x[1]), v, w, moves || x[0] != x[1]) {
				met = true
			}
		}
		return met
	}
	alone := false
	for _, x := range comps[0].steps() {
		v, w := comps[0].viewOf(x[0]), comps[0].viewOf(x[1])
		if !joint(1, fmt.Sprint(x[0]), fmt.Sprint(x[1]), v, w, x[0] != x[1]) {
			alone = true
		}
	}
	if !transition { // the joint initial state
		same, zero := true, ""
		for _, c := range comps {
			same = same && c.viewOf(0) == comps[0].viewOf(0)
			zero += "0"
		}
		want = want || same && flip(bad, "bad"+zero)
	}
	if want {
		sym.Cover("violated")
		sym.Assert(err != nil, "a violation in a joint step is not reported")
	} else if alone {
		sym.Cover("alone") // a step that no step of the others matches may be refused
	} else {
		sym.Cover("fine")
		sym.Assert(err == nil, "a composition is refused although no joint step violates an assertion")
	}
}

func two(form, n int) []*comp {
	return []*comp{newComp(0, "a", n, 2, form), newComp(1, "b", 2, 2, pick)}
}

func H_composeStates() {
	compose(two(sym.Choose("form", more(2, forms)), more(2, 3)), false)
}

func H_composeSteps() {
	form := midway
	if sym.Tier() > 0 {
		form = sym.Choose("form", forms)
	}
	compose(two(form, 2), true)
}

// three composed specs
func H_composeThree() {
	third := newComp(2, "c", 2, 2, twoSteps)
	compose(append([]*comp{newComp(0, "a", 2, 2, twoSteps)}, newComp(1, "b", 2, 2, twoSteps), third), sym.Flip("transition"))
}

func H_refine() { refine([]int{pick, twoSteps}[sym.Choose("form", 2)]) }

// the implementation's state changes before the choice of a step
func H_refineMidway() { refine(midway) }

func refine(form int) {
	abs := newComp(0, "a", 2, more(2, 3), pick)
	impl := newComp(1, "b", more(2, 3), more(2, 3), form)
	hashes := modelchecker.JoinHashes{}
	c26main.PopulateJoinHashes(hashes, 0, abs.explore(), "a", "view")
	f := impl.file()
	f.Refinements = append(f.Refinements, &ast.Refinement{Specs: []*ast.SpecEntry{entry("a", "a.view"), entry("_", "view")}})
	root, failed, err := spec.NewRefining(f, spec.Options(10, 1, false, false), hashes).Start()
	sym.Assert(err == nil && root != nil, "exploration of an implementation fails")
	want := false
	for _, x := range impl.steps() {
		if x[0] == x[1] {
			continue
		}
		met := false
		for _, y := range abs.steps() {
			met = met || abs.viewOf(y[0]) == impl.viewOf(x[0]) && abs.viewOf(y[1]) == impl.viewOf(x[1])
		}
		want = want || !met
	}
	sym.Assert(!want || failed != nil, "a step of the implementation that the abstract spec does not have is accepted")
	sym.Assert(want || failed == nil, "an implementation is refused although each of its steps is one of the abstract spec")
	if want {
		sym.Cover("refused")
	} else {
		sym.Cover("accepted")
	}
}
