// Package c11: symmetry reduction merges only symmetric states and hides no violation.
package c11

import (
	"fmt"
	"math/bits"
	"slices"
	"sort"
	"strings"

	ast "fizz/proto"
	"verifh/spec"
	"verifh/star"
	"verifh/sym"
	"verifh/ts"

	"github.com/fizzbee-io/fizzbee/lib"
	"github.com/fizzbee-io/fizzbee/modelchecker"
	"go.starlark.net/starlark"
)

func more(quick, thorough int) int {
	if sym.Tier() > 0 {
		return thorough
	}
	return quick
}

// ---- the reference: canonical forms of states under the group of each domain

const (
	nominal = iota
	ordinal
	interval
	rotational
	role // instances of a symmetric role
)

type domain struct {
	name        string
	kind        int
	limit       int
	reflection  bool
	materialize bool
}

func (d domain) decl() string {
	kind := []string{"nominal", "ordinal", "interval", "rotational"}[d.kind]
	s := fmt.Sprintf("symmetry.%s(name='%s', limit=%d", kind, d.name, d.limit)
	if d.reflection {
		s += ", reflection=True"
	}
	if d.materialize {
		s += ", materialize=True"
	}
	return s + ")"
}

// term is a state as text; names[i] says which identity is meant where.
type term struct {
	used  map[string]map[int64]bool
	roles []*lib.Role
}

func (t *term) collect(v starlark.Value) {
	switch x := v.(type) {
	case *lib.SymmetricValue:
		t.use(x.GetPrefix(), x.GetId())
	case *lib.Role:
		if x.IsSymmetric() {
			t.use(x.Name, x.GetRef())
		}
	case *starlark.Dict:
		for _, i := range x.Items() {
			t.collect(i[0])
			t.collect(i[1])
		}
	case *lib.GenericMap:
		for _, i := range x.Items() {
			t.collect(i[0])
			t.collect(i[1])
		}
	case *lib.Struct:
		for _, n := range x.AttrNames() {
			a, _ := x.Attr(n)
			t.collect(a)
		}
	case starlark.String:
	case starlark.Iterable:
		for _, e := range star.Elems(x) {
			t.collect(e)
		}
	}
}

func (t *term) use(prefix string, id int64) {
	if t.used[prefix] == nil {
		t.used[prefix] = map[int64]bool{}
	}
	t.used[prefix][id] = true
}

type renaming map[string]map[int64]int64

func (r renaming) of(prefix string, id int64) int64 {
	if m, ok := r[prefix]; ok {
		return m[id]
	}
	return id
}

func text(v starlark.Value, r renaming) string {
	switch x := v.(type) {
	case *lib.SymmetricValue:
		return fmt.Sprintf("%s~%d", x.GetPrefix(), r.of(x.GetPrefix(), x.GetId()))
	case *lib.Role:
		return fmt.Sprintf("%s#%d", x.Name, r.of(x.Name, x.GetRef()))
	case *starlark.Dict:
		return pairs("dict", x.Items(), r)
	case *lib.GenericMap:
		return pairs("genericmap", x.Items(), r)
	case *lib.Struct:
		s := "record{"
		for _, n := range x.AttrNames() {
			a, _ := x.Attr(n)
			s += n + "=" + text(a, r) + ","
		}
		return s + "}"
	case *starlark.List:
		return "[" + strings.Join(texts(star.Elems(x), r), ",") + "]"
	case starlark.Tuple:
		return "(" + strings.Join(texts(star.Elems(x), r), ",") + ")"
	case *starlark.Set, *lib.GenericSet, *lib.Bag:
		l := texts(star.Elems(v), r)
		sort.Strings(l)
		return v.Type() + "{" + strings.Join(l, ",") + "}"
	case starlark.Int:
		return fmt.Sprint(star.IntOf(x))
	}
	return v.String()
}

func texts(vs []starlark.Value, r renaming) (l []string) {
	for _, v := range vs {
		l = append(l, text(v, r))
	}
	return
}

func pairs(kind string, items []starlark.Tuple, r renaming) string {
	var l []string
	for _, i := range items {
		l = append(l, text(i[0], r)+":"+text(i[1], r))
	}
	sort.Strings(l)
	return kind + "{" + strings.Join(l, ",") + "}"
}

func permutations(n int) [][]int64 {
	if n == 0 {
		return [][]int64{nil}
	}
	var out [][]int64
	for _, p := range permutations(n - 1) {
		for i := 0; i < n; i++ {
			q := slices.Clone(p[:i])
			q = append(q, int64(n-1))
			out = append(out, append(q, p[i:]...))
		}
	}
	return out
}

// images are the identities the used ones may stand for.
func (d domain) images(ids []int64) (out [][]int64) {
	n := len(ids)
	add := func(f func(i int) int64) {
		var l []int64
		for i := range ids {
			l = append(l, f(i))
		}
		out = append(out, l)
	}
	if d.materialize && (d.kind == ordinal || d.kind == interval) {
		// every value has its place in the whole domain
		add(func(i int) int64 { return ids[i] })
		if d.reflection {
			add(func(i int) int64 { return int64(d.limit) - 1 - ids[i] })
		}
		return
	}
	switch d.kind {
	case nominal, role:
		return permutations(n)
	case ordinal:
		add(func(i int) int64 { return int64(i) })
		if d.reflection {
			add(func(i int) int64 { return int64(n - 1 - i) })
		}
	case interval:
		add(func(i int) int64 { return ids[i] - ids[0] })
		if d.reflection {
			add(func(i int) int64 { return ids[n-1] - ids[i] })
		}
	case rotational:
		l := int64(d.limit)
		for s := int64(0); s < l; s++ {
			add(func(i int) int64 { return (ids[i] + s) % l })
			if d.reflection {
				add(func(i int) int64 { return (l + s - ids[i]) % l })
			}
		}
	}
	return
}

// canonical is the same text for two states iff a renaming of identities turns one into the other.
func (m *model) canonical(n *modelchecker.Node) string {
	var vals []starlark.Value
	for _, v := range m.vars {
		vals = append(vals, n.Heap.GetValue(v))
	}
	threads := n.GetThreadsCount()
	if m.project {
		threads = 0
	}
	return canonical(vals, n.Roles, threads, m.doms)
}

func canonical(vals []starlark.Value, roles []*lib.Role, threads int, doms []domain) string {
	t := &term{used: map[string]map[int64]bool{}}
	for _, v := range vals {
		t.collect(v)
	}
	for _, r := range roles {
		t.collect(r)
		t.collect(r.Fields)
	}
	whole := func(r renaming) string {
		s := ""
		for _, v := range vals {
			s += text(v, r) + ";"
		}
		var rs []string
		for _, x := range roles {
			rs = append(rs, text(x, r)+text(x.Fields, r))
		}
		sort.Strings(rs)
		return s + strings.Join(rs, ";") + fmt.Sprint(threads)
	}
	best := ""
	r := renaming{}
	var try func(k int)
	try = func(k int) {
		if k == len(doms) {
			if s := whole(r); best == "" || s < best {
				best = s
			}
			return
		}
		var ids []int64
		for id := range t.used[doms[k].name] {
			ids = append(ids, id)
		}
		slices.Sort(ids)
		for _, im := range doms[k].images(ids) {
			m := map[int64]int64{}
			for i := range ids {
				m[ids[i]] = im[i]
			}
			r[doms[k].name] = m
			try(k + 1)
		}
	}
	try(0)
	return best
}

// ---- comparison of a run with and a run without reduction

type model struct {
	file *ast.File
	vars []string
	doms []domain
	max  int64
	conc int64

	project bool // compare what the variables hold, not what the threads are about to do
}

type seen struct {
	states map[string]*modelchecker.Node
	edges  map[string]bool
	count  int
}

// plain erases the identity of the acting instance from the name of a step.
func plain(name string) string {
	if i := strings.Index(name, "#"); i >= 0 {
		if j := strings.Index(name[i:], "."); j >= 0 {
			return name[:i] + name[i+j:]
		}
		return name[:i]
	}
	return name
}

func (m *model) explore(reduce bool, strategy string) seen {
	p := spec.New(m.file, spec.Options(m.max, m.conc, false, false), strategy)
	p.SetDisableSymmetryReduction(!reduce)
	root, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	g := ts.Contract(root)
	s := seen{map[string]*modelchecker.Node{}, map[string]bool{}, len(g.Nodes)}
	key := map[*modelchecker.Node]string{}
	for _, n := range g.Nodes {
		key[n] = m.canonical(n)
		sym.Show(fmt.Sprint(reduce, key[n], " FOR ", n.Heap.String()))
		if s.states[key[n]] != nil && reduce && !m.project {
			sym.Assert(false, "two symmetric states are kept apart")
		}
		s.states[key[n]] = n
	}
	for _, e := range g.Edges {
		s.edges[key[e.From]+" "+plain(e.Name)+" "+key[e.To]] = true
	}
	return s
}

// check explores the model with and without reduction.
func (m *model) check() {
	if m.max == 0 {
		m.max = 1000
	}
	if m.conc == 0 {
		m.conc = 1
	}
	strategy := ""
	if m.max == 1000 {
		strategy = []string{"", "dfs"}[sym.Choose("strategy", more(1, 2))]
	}
	whole := m.explore(false, "")
	small := m.explore(true, strategy)
	for k := range whole.states {
		sym.Show(fmt.Sprint("state ", small.states[k] != nil, k))
		sym.Assert(small.states[k] != nil, "reduction hides a state no symmetric state of which is explored")
	}
	for k := range small.states {
		sym.Assert(whole.states[k] != nil, "reduction reaches a state that is not symmetric to a reachable state")
	}
	if m.max == 1000 && !m.project {
		for k := range whole.edges {
			sym.Show(fmt.Sprint("step ", small.edges[k], k))
			sym.Assert(small.edges[k], "reduction hides a step")
		}
		for k := range small.edges {
			sym.Assert(whole.edges[k], "reduction explores a step that is not symmetric to a possible step")
		}
	}
	if whole.count > small.count {
		sym.Cover("reduced")
	}
	sym.Cover("compared")
}

// ---- programs: slots that hold values of one domain

const places = 6

// place is the state's initial value and the expressions for its slots.
func place(how, n int) (init string, slots []string) {
	none := strings.Repeat("None, ", n)
	switch how {
	case 0:
		init = "s = [" + none + "]"
		for i := 0; i < n; i++ {
			slots = append(slots, fmt.Sprintf("s[%d]", i))
		}
	case 1:
		init = "s = {"
		for i := 0; i < n; i++ {
			init += fmt.Sprintf("'k%d': None, ", i)
			slots = append(slots, fmt.Sprintf("s['k%d']", i))
		}
		init += "}"
	case 2:
		init = "s = record("
		for i := 0; i < n; i++ {
			init += fmt.Sprintf("f%d=None, ", i)
			slots = append(slots, fmt.Sprintf("s.f%d", i))
		}
		init += ")"
	case 3:
		init = "s = {1: [" + none + "]}"
		for i := 0; i < n; i++ {
			slots = append(slots, fmt.Sprintf("s[1][%d]", i))
		}
	case 4:
		init = "s = [genericmap({}), [" + none + "]]"
		for i := 0; i < n; i++ {
			slots = append(slots, fmt.Sprintf("s[1][%d]", i))
		}
	case 5: // fields of a role
		init = "s = R()"
		for i := 0; i < n; i++ {
			slots = append(slots, fmt.Sprintf("s.f%d", i))
		}
	}
	return
}

// ops are the ways to come by a value of a domain.
func (d domain) ops() []string {
	var l []string
	switch d.kind {
	case nominal:
		l = []string{"choices", "fresh"}
	case ordinal:
		l = []string{"fresh", "segments", "min", "max"}
	case interval:
		l = []string{"fresh", "min", "max", "plus", "minus"}
	case rotational:
		l = []string{"plus", "plus2"}
	}
	if d.materialize {
		l = slices.DeleteFunc(l, func(s string) bool { return s == "fresh" || s == "segments" || s == "choices" })
	}
	return append(l, "values", "copy", "none")
}

// assign makes slot dst hold a value that op yields.
func assign(dom, op, dst, other string) []*ast.Statement {
	one := func(e string) []*ast.Statement { return []*ast.Statement{spec.Py(dst + " = " + e)} }
	any := func(coll, e string) []*ast.Statement {
		return []*ast.Statement{spec.Any("x", coll, "", spec.Block(0, spec.Py(dst+" = "+e)))}
	}
	switch op {
	case "choices", "values":
		return any(dom+"."+op+"()", "x")
	case "segments":
		return any(dom+".segments()", "x.fresh()")
	case "plus":
		return append([]*ast.Statement{spec.Require(other + " != None")}, one(other+" + 1")...)
	case "plus2":
		return append([]*ast.Statement{spec.Require(other + " != None")}, one(other+" + 2")...)
	case "minus":
		return append([]*ast.Statement{spec.Require(other + " != None")}, one(other+" - 1")...)
	case "copy":
		return append([]*ast.Statement{spec.Require(other + " != None")}, one(other)...)
	case "none":
		return one("None")
	}
	return one(dom + "." + op + "()")
}

// program has n slots and the given number of actions, each of which assigns one slot.
func program(d domain, how, n, acts int) *model {
	return programs(d, how, n, acts, sym.Flip("once"))
}

// programs: once says that each slot is assigned once.
func programs(d domain, how, n, acts int, once bool) *model {
	init, slots := place(how, n)
	start := []*ast.Statement{spec.Py(init)}
	if d.kind == rotational && !d.materialize {
		start = append(start, spec.Py(slots[0]+" = D.fresh()"))
	}
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic, start...)))
	f.Stmts = append(f.Stmts, spec.Py("D = "+d.decl()))
	if how == 5 {
		ini := ""
		for i := 0; i < n; i++ {
			ini += fmt.Sprintf("self.f%d = None\n", i)
		}
		f.Roles = []*ast.Role{spec.Role("R", []*ast.Action{spec.Action("Init", spec.Block(spec.Atomic, spec.Py(ini)))})}
	}
	ops := d.ops()
	for a := 0; a < acts; a++ {
		op := ops[sym.Choose("op", len(ops))]
		dst, other := 0, 0
		if a == 0 {
			other = sym.Choose("other", n)
		} else {
			dst = sym.Choose("dst", n)
			other = sym.Choose("other", n)
		}
		switch op {
		case "plus", "plus2", "minus":
		case "copy":
			sym.Assume(dst != other)
		default:
			sym.Assume(other == 0) // not used
		}
		body := assign("D", op, slots[dst], slots[other])
		if once {
			body = slices.Insert(body, 0, spec.Require(slots[dst]+" == None"))
		}
		f.Actions = append(f.Actions, spec.Action(fmt.Sprintf("A%d", a), spec.Block(spec.Atomic, body...)))
	}
	m := &model{file: f, vars: []string{"s"}, doms: []domain{d}}
	if !once && (d.kind == interval || d.kind == ordinal && !d.materialize) { // values without end
		m.max = int64(more(3, 4))
	}
	return m
}

func H_nominal() {
	d := domain{name: "k", kind: nominal, limit: 3, materialize: sym.Flip("materialize")}
	program(d, sym.Choose("place", places), 2, 2).check()
}

func H_ordinal() {
	d := domain{name: "k", kind: ordinal, limit: 3, materialize: sym.Flip("materialize")}
	program(d, sym.Choose("place", 2), 2, 2).check()
}

func H_interval() {
	d := domain{name: "k", kind: interval, limit: 3, materialize: sym.Flip("materialize")}
	program(d, sym.Choose("place", 2), 2, 2).check()
}

func H_rotational() {
	d := domain{name: "k", kind: rotational, limit: 4, materialize: sym.Flip("materialize")}
	program(d, sym.Choose("place", 2), 2, 2).check()
}

// ---- values held by collections

// collection is a collection c of values, the statement that adds x and the one that removes x.
func collection(how int) (init, add, remove string) {
	switch how {
	case 0:
		return "c = set()", "c.add(x)", "c.remove(x)"
	case 1:
		return "c = genericset()", "c.add(x)", "c.discard(x)"
	case 2:
		return "c = {}", "c[x] = 1", "c.pop(x)"
	case 3:
		return "c = bag()", "c = bag(list(c) + [x]) if len(c) < 2 else c", "c.remove(x)"
	case 4:
		return "c = genericmap()", "c[x] = 1", "c.pop(x)"
	case 5: // dict from and to values of the domain
		return "c = {}", "c[x] = x", "c.pop(x)"
	}
	return "c = {'k': set()}", "c['k'].add(x)", "c['k'].remove(x)"
}

// H_collection: values in a set, a bag or as keys, chosen, added, moved and removed.
func H_collection() {
	d := domain{name: "k", kind: sym.Choose("kind", 4), limit: 3, materialize: sym.Flip("materialize")}
	init, add, remove := collection(sym.Choose("collection", 7))
	anyOf := func(coll, v string, body ...string) *ast.Statement {
		var l []*ast.Statement
		for _, b := range body {
			l = append(l, spec.Py(b))
		}
		return spec.Any(v, coll, "", spec.Block(0, l...))
	}
	var body []*ast.Statement
	switch op := sym.Choose("grow", 2); {
	case d.materialize && op == 0:
		body = append(body, anyOf("D.values()", "x", add))
	case d.materialize:
		body = append(body, spec.Require("len(c) < 2"), anyOf("D.values()", "x", add))
	case d.kind == nominal && op == 0:
		body = append(body, anyOf("D.choices()", "x", add))
	case d.kind == ordinal && op == 0:
		body = append(body, spec.Any("g", "D.segments()", "", spec.Block(0, spec.Py("x = g.fresh()"), spec.Py(add))))
	case d.kind == rotational: // fresh() may yield any value
		sym.Assume(op == 0)
		body = append(body, spec.Require("len(c) == 0"), spec.Py("x = D.fresh()"), spec.Py(add))
	default:
		body = append(body, spec.Py("x = D.fresh()"), spec.Py(add))
	}
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic, spec.Py(init))),
		spec.Action("Grow", spec.Block(spec.Atomic, body...)))
	f.Stmts = append(f.Stmts, spec.Py("D = "+d.decl()))
	coll := "c"
	if strings.HasPrefix(init, "c = {'k'") {
		coll = "c['k']"
	}
	switch sym.Choose("also", 3) {
	case 1:
		f.Actions = append(f.Actions, spec.Action("Shrink", spec.Block(spec.Atomic, anyOf("list("+coll+")", "x", remove))))
	case 2:
		sym.Assume(d.kind == interval || d.kind == rotational)
		f.Actions = append(f.Actions, spec.Action("Step", spec.Block(spec.Atomic, anyOf("list("+coll+")", "y", strings.ReplaceAll(remove, "x", "y"), "x = y + 1", add))))
	}
	m := &model{file: f, vars: []string{"c"}, doms: []domain{d}}
	if d.kind == interval || d.kind == ordinal && !d.materialize {
		m.max = int64(more(3, 4))
	}
	if d.kind == interval && d.materialize {
		sym.Assume(d.limit > 0)
	}
	m.check()
}

// H_two: values of two domains in one state.
func H_two() {
	kinds := []domain{{kind: nominal, limit: 2}, {kind: ordinal, limit: 2}, {kind: rotational, limit: 3, materialize: true}, {kind: nominal, limit: 2, materialize: true}, {kind: interval, limit: 2}}
	d := kinds[sym.Choose("first", len(kinds))]
	e := kinds[sym.Choose("second", len(kinds))]
	d.name, e.name = "k", "l"
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic, spec.Py("s = [None, None]"), spec.Py("q = [None, None]"))))
	f.Stmts = append(f.Stmts, spec.Py("D = "+d.decl()), spec.Py("E = "+e.decl()))
	op := func(d domain, label string) string {
		ops := d.ops()
		return ops[sym.Choose(label, more(min(2, len(ops)), len(ops)))]
	}
	o1, o2 := op(d, "op"), op(e, "op2")
	guard := spec.Require([]string{"s[0] == None", "True"}[sym.Choose("guard", 2)])
	a1 := append([]*ast.Statement{guard}, assign("D", o1, "s[0]", "s[1]")...)
	a2 := append([]*ast.Statement{spec.Require("q[1] == None")}, assign("E", o2, "q[1]", "q[0]")...)
	f.Actions = append(f.Actions,
		spec.Action("A", spec.Block(spec.Atomic, a1...)),
		spec.Action("B", spec.Block(spec.Atomic, a2...)),
		spec.Action("C", spec.Block(spec.Atomic, spec.Py("s = [s[1], s[0]]"), spec.Py("q = [q[1], q[0]]"))))
	m := &model{file: f, vars: []string{"s", "q"}, doms: []domain{d, e}}
	m.max = int64(more(4, 5))
	m.check()
}

// H_reflection: domains with mirror images, in programs that treat both directions alike.
func H_reflection() {
	d := domain{name: "k", kind: []int{ordinal, interval, rotational}[sym.Choose("kind", 3)], limit: 3, reflection: true}
	d.materialize = d.kind == rotational || sym.Flip("materialize")
	if d.kind == rotational {
		d.limit = 3 + sym.Choose("limit", 3)
	}
	n := 3
	if d.kind != ordinal || d.materialize {
		n = 2 + sym.Choose("slots", more(1, 2))
	}
	init, slots := place(sym.Choose("place", more(1, 3)), n)
	start := []*ast.Statement{spec.Py(init)}
	if !d.materialize {
		for _, s := range slots {
			start = append(start, spec.Py(s+" = D.min()"))
		}
	}
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic, start...)))
	f.Stmts = append(f.Stmts, spec.Py("D = "+d.decl()))
	once := sym.Flip("once")
	for a := 0; a < 2; a++ {
		dst := sym.Choose("dst", n)
		other := (dst + 1 + sym.Choose("other", n-1)) % n
		var body []*ast.Statement
		if once && d.materialize {
			body = append(body, spec.Require(slots[dst]+" == None"))
		}
		switch op := sym.Choose("op", 4); {
		case op == 0:
			body = append(body, assign("D", "copy", slots[dst], slots[other])...)
		case op == 1:
			sym.Assume(d.materialize || d.kind == ordinal)
			how := "values"
			if !d.materialize {
				how = "segments"
			}
			body = append(body, assign("D", how, slots[dst], slots[other])...)
		case op == 2:
			sym.Assume(d.kind != ordinal)
			body = append(body, spec.Require(slots[other]+" != None"), spec.Any("x", "[1, -1]", "", spec.Block(0, spec.Py(slots[dst]+" = "+slots[other]+" + x"))))
		case op == 3:
			body = append(body, assign("D", "none", slots[dst], "")...)
		}
		f.Actions = append(f.Actions, spec.Action(fmt.Sprintf("A%d", a), spec.Block(spec.Atomic, body...)))
	}
	m := &model{file: f, vars: []string{"s"}, doms: []domain{d}}
	if d.kind == interval || !d.materialize {
		m.max = int64(more(3, 4))
	}
	m.check()
}

// H_roles: instances of a symmetric role, whose fields refer to instances, to identities and to symmetric values.
func H_roles() {
	n := 2 + sym.Choose("instances", 2)
	ops := 2
	if n == 3 {
		ops = more(1, 2)
	}
	var acts []*ast.Action
	field := func(label string) *ast.Statement {
		switch sym.Choose(label, 6) {
		case 0:
			return spec.Py("self.x = 1 - self.x")
		case 1:
			return spec.Any("r", "rs", "", spec.Block(0, spec.Py("self.y = r")))
		case 2:
			return spec.Any("r", "rs", "", spec.Block(0, spec.Py("self.y = r.__id__")))
		case 3:
			return spec.Any("k", "D.choices()", "", spec.Block(0, spec.Py("self.y = k")))
		case 4:
			return spec.Py("done.add(self.__id__)")
		}
		return spec.Py("self.y = self")
	}
	for i := 0; i < ops; i++ {
		acts = append(acts, spec.Action(fmt.Sprintf("A%d", i), spec.Block(spec.Atomic, spec.Require([]string{"self.y == None", "True"}[sym.Choose("guard", more(1, 2))]), field("op"))))
	}
	r := spec.Role("R", append([]*ast.Action{spec.Action("Init", spec.Block(spec.Atomic, spec.Py("self.x = 0\nself.y = None\n")))}, acts...))
	r.Modifiers = []string{"symmetric"}
	start := []*ast.Statement{spec.Py([]string{"rs = bag()", "rs = genericset()"}[sym.Choose("group", 2)]), spec.Py("done = genericset()")}
	for i := 0; i < n; i++ {
		start = append(start, spec.Py("rs.add(R())"))
	}
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic, start...)))
	d := domain{name: "k", kind: nominal, limit: 2}
	f.Stmts = append(f.Stmts, spec.Py("D = "+d.decl()))
	f.Roles = []*ast.Role{r}
	m := &model{file: f, vars: []string{"rs", "done"}, doms: []domain{d, {name: "R", kind: role}}}
	m.check()
}

// H_legacy: symmetric_values, which lists interchangeable values.
func H_legacy() {
	n := 2 + sym.Choose("values", 2)
	d := domain{name: "k", kind: nominal, limit: n}
	var body []*ast.Statement
	init := "c = {}"
	switch sym.Choose("how", 4) {
	case 0:
		init = "c = {k: 0 for k in KEYS}"
		body = []*ast.Statement{spec.Py("c[k] = 1 - c[k]")}
	case 1:
		init = "c = [None, None]"
		body = []*ast.Statement{spec.Py("c = [k, c[0]]")}
	case 2:
		init = "c = set()"
		body = []*ast.Statement{spec.Py("c = (c | set([k])) if k not in c else (c - set([k]))")}
	case 3:
		body = []*ast.Statement{spec.Any("l", "KEYS", "", spec.Block(0, spec.Py("c[k] = l")))}
	}
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic, spec.Py(init))),
		spec.Action("A", spec.Block(spec.Atomic, spec.Any("k", "KEYS", "", spec.Block(0, body...)))))
	f.Stmts = append(f.Stmts, spec.Py(fmt.Sprintf("KEYS = symmetric_values('k', %d)", n)))
	m := &model{file: f, vars: []string{"c"}, doms: []domain{d}}
	m.check()
}

// H_verdict: an assertion that fails in the states of one orbit, and assertions about steps and executions.
func H_verdict() {
	d := domain{name: "k", kind: sym.Choose("kind", 4), limit: 2 + sym.Choose("limit", more(1, 2))}
	d.materialize = d.kind == rotational || sym.Flip("materialize")
	m := program(d, 0, 2, 2)
	if m.max == 0 {
		m.max = 1000
	}
	m.conc = 1
	whole := m.explore(false, "")
	var orbits []string
	for k := range whole.states {
		orbits = append(orbits, k)
	}
	sort.Strings(orbits)
	bad := orbits[sym.Choose("orbit", len(orbits))]
	spec.Builtin("bad", func(a []starlark.Value) starlark.Value {
		return starlark.Bool(canonical(a, nil, 0, m.doms) == bad)
	})
	m.file.Invariants = []*ast.Invariant{spec.Assertion("I", []string{"always"}, "not bad(s)")}
	p := spec.New(m.file, spec.Options(m.max, 1, false, false), "")
	_, failed, err := p.Start()
	sym.Assert(err == nil, "exploration of a valid model fails")
	sym.Assert(failed != nil, "reduction hides a violation of an assertion")
	sym.Assert(m.canonical(failed) == bad, "a state is reported as a violation that is none")
	sym.Cover("found")
}

// H_steps: an assertion that fails for steps of one kind.
func H_steps() {
	d := domain{name: "k", kind: sym.Choose("kind", 4), limit: 2 + sym.Choose("limit", more(1, 2))}
	d.materialize = d.kind == rotational || sym.Flip("materialize")
	m := program(d, 0, 2, 2)
	if m.max == 0 {
		m.max = 1000
	}
	p := spec.New(m.file, spec.Options(m.max, 1, false, false), "")
	p.SetDisableSymmetryReduction(true)
	root, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	kinds := map[string]bool{}
	for _, e := range ts.Contract(root).Edges {
		a, b := e.From.Heap.GetValue("s"), e.To.Heap.GetValue("s")
		if text(a, nil) != text(b, nil) {
			kinds[canonical([]starlark.Value{a, b}, nil, 0, m.doms)] = true
		}
	}
	var list []string
	for k := range kinds {
		list = append(list, k)
	}
	sym.Assume(len(list) > 0)
	sort.Strings(list)
	bad := list[sym.Choose("step", len(list))]
	spec.Builtin("bad", func(a []starlark.Value) starlark.Value {
		return starlark.Bool(canonical(a, nil, 0, m.doms) == bad)
	})
	inv := spec.Assertion("T", []string{"transition"}, "not bad(before.s, after.s)")
	inv.Params = []*ast.Parameter{{Name: "before"}, {Name: "after"}}
	m.file.Invariants = []*ast.Invariant{inv}
	_, failed, err = spec.New(m.file, spec.Options(m.max, 1, false, false), "").Start()
	sym.Assert(err == nil, "exploration of a valid model fails")
	sym.Assert(failed != nil, "reduction hides a violation of a transition assertion")
	sym.Cover("found")
}

// live tells whether the liveness assertion holds in the explored graph.
func live(m *model, reduce bool) bool {
	p := spec.New(m.file, spec.Options(m.max, 1, false, false), "")
	p.SetDisableSymmetryReduction(!reduce)
	root, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	nodes, _, _, _ := modelchecker.GetAllNodes(root, 1000)
	path, _ := modelchecker.CheckStrictLiveness(root, nodes)
	return path == nil
}

// H_live: a liveness assertion about the states of one orbit.
func H_live() {
	d := domain{name: "k", kind: sym.Choose("kind", 4), limit: 2}
	d.materialize = true
	m := programs(d, 0, 2, 2, sym.Choose("once", more(1, 2)) > 0)
	sym.Assume(m.max == 0)
	m.max = 1000
	m.conc = 1
	var orbits []string
	for k := range m.explore(false, "").states {
		orbits = append(orbits, k)
	}
	sort.Strings(orbits)
	chosen, bad := orbits[sym.Choose("orbit", len(orbits))], sym.Choose("bad", more(1, 2)) > 0
	spec.Builtin("good", func(a []starlark.Value) starlark.Value {
		return starlark.Bool((canonical(a, nil, 0, m.doms) == chosen) != bad)
	})
	level := 3
	for i, a := range m.file.Actions[1:] {
		if i == 0 || sym.Tier() > 0 {
			level -= sym.Choose("fair", level)
		}
		spec.Fair(a, ast.FairnessLevel(level))
	}
	m.file.Invariants = []*ast.Invariant{spec.Assertion("L", [][]string{{"always", "eventually"}, {"eventually", "always"}}[sym.Choose("operator", 2)], "good(s)")}
	sym.Assert(live(m, true) == live(m, false), "the verdict about a liveness assertion differs with and without reduction")
	sym.Cover("compared")
}

// H_liveRoles: a liveness assertion about how many instances of a symmetric role are done, without fair actions.
func H_liveRoles() { liveRoles(1) }

// H_liveRolesFair: the same with fair actions.
func H_liveRolesFair() { liveRoles(1+sym.Choose("fair", more(1, 3)), 2+sym.Choose("fair", 2)) }

func liveRoles(levels ...int) {
	ops := []string{"self.x = 1", "self.x = 0", "self.x = 1 - self.x", "done.add(self.__id__)", "done.discard(self.__id__)"}
	var acts []*ast.Action
	for i := 0; i < 2; i++ {
		a := spec.Action(fmt.Sprintf("A%d", i), spec.Block(spec.Atomic,
			spec.Require([]string{"True", "self.x == 0", "self.x == 1", "len(done) == 1"}[sym.Choose("guard", more(1+i, 4))]), spec.Py(ops[sym.Choose("op", len(ops))])))
		acts = append(acts, spec.Fair(a, ast.FairnessLevel(levels[i%len(levels)])))
	}
	r := spec.Role("R", append([]*ast.Action{spec.Action("Init", spec.Block(spec.Atomic, spec.Py("self.x = 0")))}, acts...))
	r.Modifiers = []string{"symmetric"}
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic, spec.Py("rs = bag()"), spec.Py("done = genericset()"), spec.Py("rs.add(R())"), spec.Py("rs.add(R())"))))
	f.Roles = []*ast.Role{r}
	f.Invariants = []*ast.Invariant{spec.Assertion("L", [][]string{{"always", "eventually"}, {"eventually", "always"}}[sym.Choose("operator", 2)],
		[]string{"all([r.x == 1 for r in rs])", "any([r.x == 1 for r in rs])", "len(done) == 2", "len(done) == 1"}[sym.Choose("what", more(3, 4))])}
	op := f.Invariants[0].TemporalOperators[0]
	holds := func(n *modelchecker.Node) bool { return n.Process.Witness[0][0] }
	level := map[string]ast.FairnessLevel{}
	for _, a := range acts {
		level[a.Name] = a.Fairness.Level
	}
	whole := fairGraph(f, false).violated(op, level, holds)
	small := fairGraph(f, true).violated(op, level, holds)
	tool := !live(&model{file: f, max: 1000}, true)
	sym.Show(fmt.Sprint("violated with reduction ", small, " without ", whole, " reported ", tool))
	sym.Assert(!tool || whole, "with reduction, a liveness violation is reported that is none")
	sym.Assert(small || !tool, "a liveness violation is reported that the explored graph does not have")
	sym.Assert(small || !whole, "reduction makes a liveness assertion hold that fails")
	sym.Cover("compared")
}

// ---- fair executions of an explored graph

type fairness struct{ g *ts.Graph }

func fairGraph(f *ast.File, reduce bool) fairness {
	p := spec.New(f, spec.Options(1000, 1, false, false), "")
	p.SetDisableSymmetryReduction(!reduce)
	root, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	return fairness{ts.Contract(root)}
}

type nodes map[*modelchecker.Node]bool

// violated tells whether some fair execution breaks the assertion about what holds.
func (x fairness) violated(op string, level map[string]ast.FairnessLevel, holds func(*modelchecker.Node) bool) bool {
	all := nodes{}
	for _, n := range x.g.Nodes {
		if op == "eventually" || !holds(n) {
			all[n] = true
		}
	}
	return x.fair(all, level, func(c nodes) bool {
		for n := range c {
			if !holds(n) {
				return true
			}
		}
		return false
	})
}

// fair tells whether an execution that ends up in these nodes is fair and visits wanted ones forever.
func (x fairness) fair(within nodes, level map[string]ast.FairnessLevel, wanted func(nodes) bool) bool {
	reach := map[*modelchecker.Node]nodes{}
	for n := range within {
		r := nodes{n: true}
		for again := true; again; {
			again = false
			for _, e := range x.g.Edges {
				if r[e.From] && within[e.To] && !r[e.To] {
					r[e.To], again = true, true
				}
			}
		}
		reach[n] = r
	}
	done := nodes{}
	for n := range within {
		if done[n] {
			continue
		}
		c := nodes{}
		for o := range reach[n] {
			if reach[o][n] {
				c[o], done[o] = true, true
			}
		}
		if !wanted(c) {
			continue
		}
		taken := map[string]bool{}
		enabled := map[string]nodes{}
		for _, e := range x.g.Edges {
			if c[e.From] {
				if c[e.To] {
					taken[e.Name] = true
				}
				if enabled[e.Name] == nil {
					enabled[e.Name] = nodes{}
				}
				enabled[e.Name][e.From] = true
			}
		}
		ok, less := true, nodes{}
		for o := range c {
			less[o] = true
		}
		for name, on := range enabled {
			l := level[name[strings.Index(name, ".")+1:]]
			if l < ast.FairnessLevel_FAIRNESS_LEVEL_WEAK || taken[name] {
				continue
			}
			if len(on) == len(c) {
				ok, less = false, nodes{}
			} else if l == ast.FairnessLevel_FAIRNESS_LEVEL_STRONG {
				ok = false
				for o := range on {
					delete(less, o)
				}
			}
		}
		if ok || len(less) > 0 && len(less) < len(c) && x.fair(less, level, wanted) {
			return true
		}
	}
	return false
}

// H_locals: values that only a thread in the middle of an action holds.
func H_locals() {
	d := domain{name: "k", kind: sym.Choose("kind", 4), limit: 2}
	d.materialize = d.kind == rotational || sym.Flip("materialize")
	if d.kind == rotational {
		d.limit = 3
	}
	ops := d.ops()
	op := ops[sym.Choose("op", len(ops)-2)]
	var body []*ast.Statement
	later := []string{"s[0] = x", "s = [x, y]", "s[0] = x if s[1] == x else None", "s = [x, s[0]]"}[sym.Choose("later", more(2, 4))]
	block := func(st ...*ast.Statement) *ast.Block { return spec.Block(spec.Serial, st...) }
	from := map[string]string{"plus": "s[1] + 1", "plus2": "s[1] + 2", "minus": "s[1] - 1"}[op]
	y := "y = s[0]"
	switch op {
	case "choices", "values":
		body = []*ast.Statement{spec.Any("x", "D."+op+"()", "", block(spec.Py(y), spec.Py("n = 1 - n"), spec.Py(later)))}
	case "segments":
		body = []*ast.Statement{spec.Any("g", "D.segments()", "", block(spec.Py("x = g.fresh()"), spec.Py(y), spec.Py("n = 1 - n"), spec.Py(later)))}
	case "fresh", "min", "max":
		body = []*ast.Statement{spec.Py("x = D." + op + "()"), spec.Py(y), spec.Py("n = 1 - n"), spec.Py(later)}
	default:
		body = []*ast.Statement{spec.Require("s[1] != None"), spec.Py("x = " + from), spec.Py(y), spec.Py("n = 1 - n"), spec.Py(later)}
	}
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic, spec.Py("s = [None, None]"), spec.Py("n = 0"))),
		spec.Action("A", block(body...)))
	f.Stmts = append(f.Stmts, spec.Py("D = "+d.decl()))
	other := [][]*ast.Statement{nil, {spec.Py("s = [None, s[0]]")}, assign("D", ops[0], "s[1]", "s[0]")}[sym.Choose("B", 3)]
	if other != nil {
		f.Actions = append(f.Actions, spec.Action("B", spec.Block(spec.Atomic, other...)))
	}
	m := &model{file: f, vars: []string{"s", "n"}, doms: []domain{d}, project: true, conc: 1, max: 3}
	if sym.Flip("threads") {
		m.conc, m.max = 2, int64(more(2, 3))
	}
	m.check()
}

// H_calls: values passed to, held by and returned from functions.
func H_calls() {
	d := domain{name: "k", kind: sym.Choose("kind", 4), limit: 2}
	d.materialize = d.kind != nominal
	if d.kind == rotational {
		d.limit = 3
	}
	get := "D.values()"
	if !d.materialize {
		get = "D.choices()"
	}
	flow := []ast.Flow{spec.Serial, spec.Atomic}[sym.Choose("flow", 2)]
	var fn *ast.Function
	switch sym.Choose("function", 3) {
	case 0: // returns what it is given
		fn = spec.Func("F", flow, []string{"p"}, spec.Py("self.n = 1 - self.n"), spec.Return("p"))
	case 1: // returns a value of its own choice
		fn = spec.Func("F", flow, []string{"p"}, spec.Py("self.n = 1 - self.n"), spec.Any("z", get, "", spec.Block(flow, spec.Return("z"))))
	case 2: // returns a collection
		fn = spec.Func("F", flow, []string{"p"}, spec.Py("self.n = 1 - self.n"), spec.Return("[p, self.v]"))
	}
	call := spec.Call([]string{"y"}, "self", "F", "x")
	act := spec.Action("A", spec.Block(spec.Serial, spec.Any("x", get, "", spec.Block(spec.Serial, call, spec.Py([]string{"self.v = y", "self.v = y == x"}[sym.Choose("use", 2)])))))
	r := spec.Role("R", []*ast.Action{spec.Action("Init", spec.Block(spec.Atomic, spec.Py("self.v = None\nself.n = 0\n"))), act}, fn)
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic, spec.Py("r = R()"))))
	f.Roles = []*ast.Role{r}
	f.Stmts = append(f.Stmts, spec.Py("D = "+d.decl()))
	m := &model{file: f, vars: []string{"r"}, doms: []domain{d}, project: true, conc: int64(1 + sym.Choose("threads", more(1, 2))), max: 3}
	m.check()
}

// H_fresh: rotational values that fresh() hands out, which depend on the value it handed out last.
func H_fresh() {
	d := domain{name: "k", kind: rotational, limit: 3 + sym.Choose("limit", 3)}
	step := sym.Flip("step")
	most := d.limit
	if sym.Flip("few") {
		most = 2
	}
	other := spec.Any("x", "list(c)", "", spec.Block(0, spec.Py("c.remove(x)")))
	if step {
		other = spec.Any("y", "list(c)", "", spec.Block(0, spec.Py("x = y + 1"), spec.Require("x not in c"), spec.Py("c.remove(y)"), spec.Py("c.add(x)")))
	}
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic, spec.Py("c = set()"))),
		spec.Action("Grow", spec.Block(spec.Atomic, spec.Require(fmt.Sprintf("len(c) < %d", most)), spec.Py("z = D.fresh()"), spec.Py("c.add(z)"))),
		spec.Action("Other", spec.Block(spec.Atomic, other)))
	f.Stmts = append(f.Stmts, spec.Py("D = "+d.decl()))
	m := &model{file: f, vars: []string{"c"}, doms: []domain{d}}
	root, failed, err := spec.New(f, spec.Options(1000, 1, false, false), "").Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	small := map[string]bool{}
	for _, n := range ts.Contract(root).Nodes {
		small[m.canonical(n)] = true
	}
	// the states by definition: positions and the position handed out last
	type state struct{ set, last int }
	seen := map[state]bool{}
	whole := map[string]bool{}
	l := d.limit
	var visit func(s state)
	visit = func(s state) {
		if seen[s] {
			return
		}
		seen[s] = true
		vals := starlark.NewSet(0)
		for i := 0; i < l; i++ {
			if s.set>>i&1 == 1 {
				vals.Insert(lib.NewRotationalSymmetricValue("k", int64(i), l))
			}
		}
		whole[canonical([]starlark.Value{vals}, nil, 0, m.doms)] = true
		for i := 1; i <= l && bits.OnesCount(uint(s.set)) < most; i++ {
			if v := (s.last + i) % l; s.set>>v&1 == 0 {
				visit(state{s.set | 1<<v, v})
				break
			}
		}
		for i := 0; i < l; i++ {
			if s.set>>i&1 == 1 {
				if !step {
					visit(state{s.set &^ (1 << i), s.last})
				} else if j := (i + 1) % l; s.set>>j&1 == 0 {
					visit(state{s.set&^(1<<i) | 1<<j, s.last})
				}
			}
		}
	}
	visit(state{0, l - 1})
	for k := range small {
		sym.Assert(whole[k], "a state is reached that the values handed out by fresh() do not lead to")
	}
	for k := range whole {
		sym.Assert(small[k], "a state is missing that is reached with another value handed out last")
	}
	sym.Cover("compared")
}
