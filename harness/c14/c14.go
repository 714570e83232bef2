// Package c14: genericset, genericmap and bag behave as set, map and multiset.
package c14

import (
	"verifh/star"
	"verifh/sym"

	"github.com/fizzbee-io/fizzbee/lib"
	"go.starlark.net/starlark"
	"go.starlark.net/syntax"
)

const dom = 4 // element values 0..dom

func maxN() int {
	if sym.Tier() > 0 {
		return 4
	}
	return 3
}

func maxOps() int {
	if sym.Tier() > 0 {
		return 3
	}
	return 2
}

// elem makes an element for value v: an int, or a (mutable, unhashable) list holding it.
func elem(shape int, v int) starlark.Value {
	if shape == 0 {
		return star.Int(v)
	}
	return starlark.NewList([]starlark.Value{star.Int(v)})
}

func valOf(e starlark.Value) int {
	if l, ok := e.(*starlark.List); ok {
		return star.IntOf(l.Index(0))
	}
	return star.IntOf(e)
}

var names = []string{"e0", "e1", "e2", "e3", "e4", "e5", "e6", "e7"}

// distinct chooses n pairwise distinct element values.
func distinct(prefix string, n int) []int {
	var xs []int
	for i := 0; i < n; i++ {
		x := sym.Int(prefix+names[i], 0, dom)
		for _, y := range xs {
			sym.Assume(x != y)
		}
		xs = append(xs, x)
	}
	return xs
}

func anyVals(prefix string, n int) []int {
	var xs []int
	for i := 0; i < n; i++ {
		xs = append(xs, sym.Int(prefix+names[i], 0, dom))
	}
	return xs
}

// memb is membership without forking.
func memb(xs []int, z int) bool {
	r := false
	for _, x := range xs {
		r = sym.Or(r, x == z)
	}
	return r
}

func count(xs []int, z int) int {
	n := 0
	for _, x := range xs {
		n += sym.Ite(x == z, 1, 0)
	}
	return n
}

func index(xs []int, z int) int {
	for i, x := range xs {
		if x == z {
			return i
		}
	}
	return -1
}

func without(xs []int, z int) []int {
	var out []int
	for _, x := range xs {
		if x != z {
			out = append(out, x)
		}
	}
	return out
}

func listOf(shape int, xs []int) *starlark.List {
	var vs []starlark.Value
	for _, x := range xs {
		vs = append(vs, elem(shape, x))
	}
	return starlark.NewList(vs)
}

func mkSet(shape int, xs []int) starlark.Value {
	s, err := star.Fn(lib.Builtins["genericset"], listOf(shape, xs))
	sym.Assert(err == nil, "genericset(list) fails")
	return s
}

// checkSet: the container holds exactly the values of model (as a set).
func checkSet(shape int, s starlark.Value, model []int, what string) {
	z := sym.Int("probe", 0, dom)
	sym.Assert(star.In(elem(shape, z), s) == memb(model, z), what+": membership is wrong")
	checkElems(s, model, what)
}

func checkElems(s starlark.Value, model []int, what string) {
	var got []int
	for _, e := range star.Elems(s) {
		got = append(got, valOf(e))
	}
	sym.Assert(star.Len(s) == len(got), what+": len differs from the number of iterated elements")
	z := sym.Int("probe2", 0, dom)
	sym.Assert((count(got, z) > 0) == memb(model, z), what+": iteration yields the wrong elements")
	sym.Assert(count(got, z) <= 1, what+": iteration yields an element twice")
	sym.Assert(bool(s.Truth()) == (len(got) > 0), what+": truth differs from non-emptiness")
}

// H_set_ops runs every short operation sequence on any genericset.
func H_set_ops() {
	shape := sym.Choose("shape", 2)
	n := sym.Choose("n", maxN()+1)
	model := distinct("x", n)
	s := mkSet(shape, model)
	cp, err := star.Fn(lib.Builtins["genericset"], s)
	sym.Assert(err == nil, "genericset(genericset) fails")
	before := append([]int(nil), model...)
	for k := 0; k < maxOps(); k++ {
		op := sym.Choose("op"+names[k], 5)
		y := sym.Int("y"+names[k], 0, dom)
		e := elem(shape, y)
		switch op {
		case 0:
			_, err := star.Call(s, "add", e)
			sym.Assert(err == nil, "add fails")
			if index(model, y) < 0 {
				model = append(model, y)
			}
		case 1:
			_, err := star.Call(s, "discard", e)
			sym.Assert(err == nil, "discard fails")
			model = without(model, y)
		case 2:
			_, err := star.Call(s, "remove", e)
			sym.Assert((err == nil) == memb(model, y), "remove fails on a member or accepts a non-member")
			model = without(model, y)
		case 3:
			v, err := star.Call(s, "pop")
			sym.Assert((err == nil) == (len(model) > 0), "pop fails on a non-empty set or accepts an empty one")
			if err == nil {
				p := valOf(v)
				sym.Assert(memb(model, p), "pop returns a non-member")
				model = without(model, p)
			}
		case 4:
			_, err := star.Call(s, "clear")
			sym.Assert(err == nil, "clear fails")
			model = nil
		}
	}
	checkSet(shape, s, model, "genericset")
	checkSet(shape, cp, before, "copy of a genericset")
	sym.Cover("set ops")
}

// H_set_algebra: binary set operations and their independence from the operands.
func H_set_algebra() {
	shape := sym.Choose("shape", 2)
	a := distinct("a", sym.Choose("na", maxN()+1))
	nb := sym.Choose("nb", maxN()+1)
	form := sym.Choose("form", 2) // genericset, or a list that may repeat elements
	var b []int
	var other starlark.Value
	if form == 0 {
		b = distinct("b", nb)
		other = mkSet(shape, b)
	} else {
		b = anyVals("b", nb)
		other = listOf(shape, b)
	}
	s := mkSet(shape, a)
	z := sym.Int("z", 0, dom)
	za, zb := memb(a, z), memb(b, z)
	ops := []string{"union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset"}
	op := ops[sym.Choose("op", len(ops))]
	if op == "symmetric_difference" && form == 1 {
		// Starlark's own set.symmetric_difference on an iterable with repeats is unspecified
		for i := range b {
			for j := 0; j < i; j++ {
				sym.Assume(b[i] != b[j])
			}
		}
	}
	r, err := star.Call(s, op, other)
	sym.Assert(err == nil, op+" fails")
	switch op {
	case "issubset":
		want := true
		for _, x := range a {
			want = sym.And(want, memb(b, x))
		}
		sym.Assert(bool(r.Truth()) == want, "issubset is wrong")
		return
	case "issuperset":
		want := true
		for _, x := range b {
			want = sym.And(want, memb(a, x))
		}
		sym.Assert(bool(r.Truth()) == want, "issuperset is wrong")
		return
	}
	in := star.In(elem(shape, z), r)
	switch op {
	case "union":
		sym.Assert(in == sym.Or(za, zb), "union is wrong")
	case "intersection":
		sym.Assert(in == sym.And(za, zb), "intersection is wrong")
	case "difference":
		sym.Assert(in == sym.And(za, sym.Not(zb)), "difference is wrong")
	case "symmetric_difference":
		sym.Assert(in == (za != zb), "symmetric_difference is wrong")
	}
	var got []int
	for _, e := range star.Elems(r) {
		got = append(got, valOf(e))
	}
	sym.Assert(count(got, z) <= 1, op+" yields an element twice")
	// the result is independent of the operand
	star.Call(r, "clear")
	star.Call(r, "add", elem(shape, 0))
	star.Call(r, "add", elem(shape, 1))
	sym.Assert(star.In(elem(shape, z), s) == za, op+": changing the result changes the operand")
	if form == 0 {
		sym.Assert(star.In(elem(shape, z), other) == zb, op+": changing the result changes the argument")
	}
	sym.Assert(star.Len(s) == len(a), op+": the operand changed size")
	sym.Cover("set algebra")
}

// H_set_noarg: set methods called without an argument neither crash nor give a wrong set.
func H_set_noarg() {
	a := distinct("a", sym.Choose("na", 3))
	s := mkSet(0, a)
	ops := []string{"union", "intersection", "difference", "symmetric_difference", "issuperset", "issubset"}
	op := ops[sym.Choose("op", len(ops))]
	r, err := star.Call(s, op)
	sym.Cover("set noarg")
	if err != nil {
		return
	}
	switch op {
	case "issuperset":
		sym.Assert(bool(r.Truth()), "issuperset() of nothing is false")
	case "issubset":
		sym.Assert(bool(r.Truth()) == (len(a) == 0), "issubset() of nothing is wrong")
	case "intersection":
	default:
		checkSet(0, r, a, op+"() without arguments")
	}
}

// H_set_compare: ==, !=, <, <=, >, >= agree with set equality and inclusion.
func H_set_compare() {
	shape := sym.Choose("shape", 2)
	a := distinct("a", sym.Choose("na", maxN()+1))
	b := distinct("b", sym.Choose("nb", maxN()+1))
	x, y := mkSet(shape, a), mkSet(shape, b)
	sub, sup := true, true
	for _, e := range a {
		sub = sym.And(sub, memb(b, e))
	}
	for _, e := range b {
		sup = sym.And(sup, memb(a, e))
	}
	type cmp struct {
		op   syntax.Token
		want bool
		name string
	}
	cs := []cmp{
		{syntax.EQL, sym.And(sub, sup), "=="}, {syntax.NEQ, sym.Not(sym.And(sub, sup)), "!="},
		{syntax.LE, sub, "<="}, {syntax.GE, sup, ">="},
		{syntax.LT, sym.And(sub, sym.Not(sup)), "<"}, {syntax.GT, sym.And(sup, sym.Not(sub)), ">"},
	}
	c := cs[sym.Choose("cmp", len(cs))]
	r, err := starlark.Compare(c.op, x, y)
	sym.Assert(err == nil, "set comparison "+c.name+" fails")
	sym.Assert(r == c.want, "set comparison "+c.name+" is wrong")
	sym.Cover("set compare")
}

type entry struct{ k, v int }

func find(m []entry, k int) int {
	for i, e := range m {
		if e.k == k {
			return i
		}
	}
	return -1
}

func mset(m []entry, k, v int) []entry {
	out := append([]entry(nil), m...)
	if i := find(out, k); i >= 0 {
		out[i].v = v
		return out
	}
	return append(out, entry{k, v})
}

func mdel(m []entry, k int) []entry {
	var out []entry
	for _, e := range m {
		if e.k != k {
			out = append(out, e)
		}
	}
	return out
}

// lookup without forking: present, value.
func lookup(m []entry, k int) (bool, int) {
	p, v := false, -1
	for _, e := range m {
		p = sym.Or(p, e.k == k)
		v = sym.Ite(e.k == k, e.v, v)
	}
	return p, v
}

func mkMap(shape int, m []entry) starlark.Value {
	g, err := star.Fn(lib.Builtins["genericmap"])
	sym.Assert(err == nil, "genericmap() fails")
	for _, e := range m {
		err := g.(starlark.HasSetKey).SetKey(elem(shape, e.k), star.Int(e.v))
		sym.Assert(err == nil, "map assignment fails")
	}
	return g
}

func checkMap(shape int, g starlark.Value, m []entry, what string) {
	z := sym.Int("probe", 0, dom)
	p, v := lookup(m, z)
	r, err := star.Call(g, "get", elem(shape, z), star.Int(-1))
	sym.Assert(err == nil, "get fails")
	sym.Assert(star.IntOf(r) == v, what+": get returns the wrong value")
	sym.Assert(star.In(elem(shape, z), g) == p, what+": membership is wrong")
	keys, err := star.Call(g, "keys")
	sym.Assert(err == nil, "keys fails")
	vals, err := star.Call(g, "values")
	sym.Assert(err == nil, "values fails")
	items, err := star.Call(g, "items")
	sym.Assert(err == nil, "items fails")
	ks, vs, its := star.Elems(keys), star.Elems(vals), star.Elems(items)
	sym.Assert(len(ks) == star.Len(g) && len(vs) == len(ks) && len(its) == len(ks), what+": len, keys, values and items disagree")
	sym.Assert(len(ks) == len(m), what+": wrong number of entries")
	for i := range ks {
		t := its[i].(starlark.Tuple)
		sym.Assert(sym.And(valOf(t[0]) == valOf(ks[i]), star.IntOf(t[1]) == star.IntOf(vs[i])), what+": items disagree with keys and values")
		_, ev := lookup(m, valOf(ks[i]))
		sym.Assert(ev == star.IntOf(vs[i]), what+": an entry has the wrong value")
	}
	it := star.Elems(g)
	sym.Assert(len(it) == len(ks), what+": iteration does not yield every key")
}

func newEntries(prefix string, n int) []entry {
	var m []entry
	for i, k := range distinct(prefix, n) {
		m = append(m, entry{k, sym.Int(prefix+"v"+names[i], 0, 2)})
	}
	return m
}

// H_map_ops runs every short operation sequence on any genericmap, with snapshots taken before.
func H_map_ops() {
	shape := sym.Choose("shape", 2)
	m := newEntries("x", sym.Choose("n", maxN()+1))
	g := mkMap(shape, m)
	cp, err := star.Fn(lib.Builtins["genericmap"], g)
	sym.Assert(err == nil, "genericmap(genericmap) fails")
	items, _ := star.Call(g, "items")
	keys, _ := star.Call(g, "keys")
	vals, _ := star.Call(g, "values")
	before := append([]entry(nil), m...)
	for k := 0; k < maxOps(); k++ {
		op := sym.Choose("op"+names[k], 7)
		y := sym.Int("y"+names[k], 0, dom)
		nv := sym.Int("nv"+names[k], 0, 2)
		e := elem(shape, y)
		p, old := lookup(m, y)
		switch op {
		case 0:
			err := g.(starlark.HasSetKey).SetKey(e, star.Int(nv))
			sym.Assert(err == nil, "map assignment fails")
			m = mset(m, y, nv)
		case 1:
			v, err := star.Call(g, "pop", e)
			sym.Assert((err == nil) == p, "pop fails on a key or accepts a missing one")
			if err == nil {
				sym.Assert(star.IntOf(v) == old, "pop returns the wrong value")
			}
			m = mdel(m, y)
		case 2:
			v, err := star.Call(g, "pop", e, star.Int(-1))
			sym.Assert(err == nil, "pop with default fails")
			sym.Assert(star.IntOf(v) == old, "pop with default returns the wrong value")
			m = mdel(m, y)
		case 3:
			v, err := star.Call(g, "popitem")
			sym.Assert((err == nil) == (len(m) > 0), "popitem fails on a non-empty map or accepts an empty one")
			if err == nil {
				t := v.(starlark.Tuple)
				_, ov := lookup(m, valOf(t[0]))
				sym.Assert(star.IntOf(t[1]) == ov, "popitem returns a pair that is not in the map")
				m = mdel(m, valOf(t[0]))
			}
		case 4:
			v, err := star.Call(g, "setdefault", e, star.Int(nv))
			sym.Assert(err == nil, "setdefault fails")
			sym.Assert(star.IntOf(v) == sym.Ite(p, old, nv), "setdefault returns the wrong value")
			if find(m, y) < 0 {
				m = mset(m, y, nv)
			}
		case 5:
			_, err := star.Call(g, "clear")
			sym.Assert(err == nil, "clear fails")
			m = nil
		case 6:
			v, found, err := g.(starlark.Mapping).Get(e)
			sym.Assert(err == nil && found == p, "indexing finds the wrong keys")
			if found {
				sym.Assert(star.IntOf(v) == old, "indexing returns the wrong value")
			}
		}
	}
	checkMap(shape, g, m, "genericmap")
	checkMap(shape, cp, before, "copy of a genericmap")
	its, ks, vs := star.Elems(items), star.Elems(keys), star.Elems(vals)
	sym.Assert(len(its) == len(before) && len(ks) == len(before) && len(vs) == len(before), "a snapshot of items, keys or values changed size")
	for i, b := range before {
		t := its[i].(starlark.Tuple)
		sym.Assert(sym.And(valOf(t[0]) == b.k, star.IntOf(t[1]) == b.v), "a snapshot of items changed")
		sym.Assert(sym.And(valOf(ks[i]) == b.k, star.IntOf(vs[i]) == b.v), "a snapshot of keys or values changed")
	}
	sym.Cover("map ops")
}

// H_map_compare: == and != are equality of finite maps.
func H_map_compare() {
	shape := sym.Choose("shape", 2)
	a := newEntries("a", sym.Choose("na", maxN()+1))
	b := newEntries("b", sym.Choose("nb", maxN()+1))
	want := len(a) == len(b)
	for _, e := range a {
		p, v := lookup(b, e.k)
		want = sym.And(want, sym.And(p, v == e.v))
	}
	x, y := mkMap(shape, a), mkMap(shape, b)
	eq, err := starlark.Compare(syntax.EQL, x, y)
	sym.Assert(err == nil && eq == want, "== on genericmap is wrong")
	ne, err := starlark.Compare(syntax.NEQ, x, y)
	sym.Assert(err == nil && ne == sym.Not(want), "!= on genericmap is wrong")
	sym.Cover("map compare")
}

// H_map_update: construction and update from mappings and keyword arguments keep one entry per key.
func H_map_update() {
	ks := []string{"p", "q"}
	pre := sym.Choose("pre", 2) == 1
	kw1, kw2 := sym.Choose("kw1", 2), sym.Choose("kw2", 3)
	v0, v1, v2 := sym.Int("v0", 0, 3), sym.Int("v1", 0, 3), sym.Int("v2", 0, 3)
	want := map[string]int{}
	var args []starlark.Value
	src := starlark.NewDict(1)
	if pre {
		src.SetKey(starlark.String("p"), star.Int(v0))
		args = append(args, src)
		want["p"] = v0
	}
	kw := []starlark.Tuple{{starlark.String(ks[kw1]), star.Int(v1)}}
	want[ks[kw1]] = v1
	g, err := star.FnKw(lib.Builtins["genericmap"], kw, args...)
	sym.Assert(err == nil, "genericmap(mapping, key=value) fails")
	if kw2 < 2 {
		_, err := star.CallKw(g, "update", []starlark.Tuple{{starlark.String(ks[kw2]), star.Int(v2)}})
		sym.Assert(err == nil, "update(key=value) fails")
		want[ks[kw2]] = v2
	}
	sym.Assert(star.Len(g) == len(want), "construction or update keeps two entries for one key")
	for _, k := range ks {
		r, err := star.Call(g, "get", starlark.String(k), star.Int(-1))
		sym.Assert(err == nil, "get fails")
		w, ok := want[k]
		if !ok {
			w = -1
		}
		sym.Assert(star.IntOf(r) == w, "construction or update leaves the wrong value for a key")
	}
	if pre {
		n, _, _ := src.Get(starlark.String("p"))
		sym.Assert(star.IntOf(n) == v0 && src.Len() == 1, "construction changes the source mapping")
	}
	// update from a mapping: refused or applied
	m2 := mkMap(0, newEntries("u", 1))
	if _, err := star.Call(g, "update", m2); err == nil {
		sym.Assert(star.Len(g) == len(want)+1, "update(mapping) keeps two entries for one key or drops one")
	}
	sym.Cover("map update")
}

// choices picks n element values, concretely (bags order elements by their text).
func choices(prefix string, n, d int) []int {
	var xs []int
	for i := 0; i < n; i++ {
		xs = append(xs, sym.Choose(prefix+names[i], d))
	}
	return xs
}

func mkBag(shape int, xs []int) starlark.Value {
	b, err := star.Fn(lib.Builtins["bag"], listOf(shape, xs))
	sym.Assert(err == nil, "bag(list) fails")
	return b
}

func checkBag(b starlark.Value, model []int, what string) {
	var got []int
	for _, e := range star.Elems(b) {
		got = append(got, valOf(e))
	}
	sym.Assert(star.Len(b) == len(got) && len(got) == len(model), what+": wrong number of elements")
	for z := 0; z <= 12; z++ {
		sym.Assert(count(got, z) == count(model, z), what+": wrong multiplicity")
	}
}

// bagVals are element values whose text order differs from their numeric order.
var bagVals = []int{2, 10, 1}

func pick(prefix string, n int) []int {
	var out []int
	for _, i := range choices(prefix, n, len(bagVals)) {
		out = append(out, bagVals[i])
	}
	return out
}

func H_bag_ops() {
	shape := sym.Choose("shape", 2)
	model := pick("x", sym.Choose("n", 4))
	b := mkBag(shape, model)
	cp, err := star.Fn(lib.Builtins["bag"], b)
	sym.Assert(err == nil, "bag(bag) fails")
	before := append([]int(nil), model...)
	del := func(y int) bool {
		i := index(model, y)
		if i < 0 {
			return false
		}
		model = append(append([]int(nil), model[:i]...), model[i+1:]...)
		return true
	}
	for k := 0; k < maxOps(); k++ {
		op := sym.Choose("op"+names[k], 8)
		y := 0
		if op < 4 {
			y = bagVals[sym.Choose("y"+names[k], len(bagVals))]
		}
		e := elem(shape, y)
		switch op {
		case 0:
			_, err := star.Call(b, "add", e)
			sym.Assert(err == nil, "bag.add fails")
			model = append(model, y)
		case 1:
			_, err := star.Call(b, "discard", e)
			sym.Assert(err == nil, "bag.discard fails")
			del(y)
		case 2:
			_, err := star.Call(b, "remove", e)
			sym.Assert((err == nil) == del(y), "bag.remove fails on a member or accepts a non-member")
		case 3:
			sym.Assert(star.In(e, b) == (index(model, y) >= 0), "bag membership is wrong")
		case 4:
			v, err := star.Call(b, "pop")
			sym.Assert((err == nil) == (len(model) > 0), "bag.pop fails on a non-empty bag or accepts an empty one")
			if err == nil {
				sym.Assert(del(valOf(v)), "bag.pop returns a non-member")
			}
		case 5:
			_, err := star.Call(b, "clear")
			sym.Assert(err == nil, "bag.clear fails")
			model = nil
		case 6:
			_, err := star.Call(b, "add_all", listOf(shape, []int{10, 2}))
			sym.Assert(err == nil, "bag.add_all fails")
			model = append(model, 10, 2)
		case 7:
			_, err := star.Call(b, "add_all", b)
			sym.Assert(err == nil, "bag.add_all(self) fails")
			model = append(model, model...)
		}
	}
	checkBag(b, model, "bag")
	checkBag(cp, before, "copy of a bag")
	sym.Cover("bag ops")
}

// H_bag_compare: equality of bags is equality of multisets, also after elements changed in place.
func H_bag_compare() {
	shape := sym.Choose("shape", 2)
	na, nb := sym.Choose("na", 4), sym.Choose("nb", 4)
	a, b := pick("a", na), pick("b", nb)
	x, y := mkBag(shape, a), mkBag(shape, b)
	if shape == 1 && na > 0 && sym.Choose("mutate", 2) == 1 {
		// an element of x (a list) is changed in place
		l := star.Elems(x)[sym.Choose("which", na)].(*starlark.List)
		i := index(a, valOf(l))
		nv := bagVals[sym.Choose("newval", len(bagVals))]
		a[i] = nv
		sym.Assert(l.SetIndex(0, star.Int(nv)) == nil, "list assignment fails")
	}
	want := na == nb
	for _, v := range bagVals {
		want = want && count(a, v) == count(b, v)
	}
	eq, err := starlark.Compare(syntax.EQL, x, y)
	sym.Assert(err == nil && eq == want, "== on bags is not multiset equality")
	ne, err := starlark.Compare(syntax.NEQ, x, y)
	sym.Assert(err == nil && ne != want, "!= on bags is not multiset inequality")
	sym.Cover("bag compare")
}

// H_cross: constructing one kind of container from another.
func H_cross() {
	shape := sym.Choose("shape", 2)
	xs := pick("x", sym.Choose("n", 4))
	bag := mkBag(shape, xs)
	s, err := star.Fn(lib.Builtins["genericset"], bag)
	sym.Assert(err == nil, "genericset(bag) fails")
	var ded []int
	for _, x := range xs {
		if index(ded, x) < 0 {
			ded = append(ded, x)
		}
	}
	b2, err := star.Fn(lib.Builtins["bag"], s)
	sym.Assert(err == nil, "bag(genericset) fails")
	star.Call(s, "clear")
	star.Call(s, "add", elem(shape, 7))
	star.Call(bag, "add", elem(shape, 8))
	checkBag(b2, ded, "bag(genericset(bag))")
	checkBag(bag, append(append([]int(nil), xs...), 8), "source bag")
	sym.Cover("cross")
}
