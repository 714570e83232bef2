// Package c13: symmetric value arithmetic and comparison obey their kind.
package c13

import (
	"verifh/sym"

	"github.com/fizzbee-io/fizzbee/lib"
	"go.starlark.net/starlark"
	"go.starlark.net/syntax"
)

func asVal(v starlark.Value) *lib.SymmetricValue {
	s, ok := v.(*lib.SymmetricValue)
	sym.Assert(ok, "arithmetic result is not a symmetric value")
	return s
}

func ring(prefix string, id int, limit int) *lib.SymmetricValue {
	return lib.NewRotationalSymmetricValue(prefix, int64(id), limit)
}

func maxLimit() int {
	if sym.Tier() > 0 {
		return 16
	}
	return 7
}

// farOffset tells offsets outside the 32-bit range: those may be refused, but never answered wrongly.
func farOffset(k int) bool { return k > 1<<31-1 || k < -1<<31 }

// offset is every integer of a window around zero, or one of the extreme values.
func offset() int {
	w := 100
	if sym.Tier() > 0 {
		w = 5000
	}
	switch sym.Choose("window", 2) {
	case 0:
		return sym.Int("k", -w, w)
	default:
		ext := []int{1<<31 - 1, 1 << 31, -1 << 31, -1<<31 - 1, 1<<53 + 1, 1<<62 - 1, -1 << 62, 1<<62 + 12345}
		return ext[sym.Choose("extreme", len(ext))]
	}
}

// Ring addition: v+k stays in the ring, is the k-th successor, and is undone by -k.
func H_ring_add() {
	L := 1 + sym.Choose("limit", maxLimit())
	id := sym.Int("id", 0, L-1)
	k := offset()
	v := ring("r", id, L)
	r, err := starlark.Binary(syntax.PLUS, v, starlark.MakeInt(k))
	if err != nil && farOffset(k) {
		sym.Cover("far offset refused")
		return
	}
	sym.Assert(err == nil, "rotational + int fails")
	a := asVal(r)
	n := int(a.GetId())
	sym.Assert(sym.And(n >= 0, n < L), "rotational + int leaves the ring")
	q := (n - id - k)
	sym.Assert(q%L == 0, "rotational + int is not congruent to id + k")
	sym.Assert(a.Kind == lib.SymmetryKindRotational && a.Limit == L && a.GetPrefix() == "r", "rotational + int loses kind, limit or domain")
	// int + value is the same
	r2, err := starlark.Binary(syntax.PLUS, starlark.MakeInt(k), v)
	sym.Assert(err == nil && asVal(r2).GetId() == a.GetId(), "int + rotational differs from rotational + int")
	back, err := starlark.Binary(syntax.MINUS, r, starlark.MakeInt(k))
	sym.Assert(err == nil, "rotational - int fails")
	b := asVal(back)
	sym.Assert(int(b.GetId()) == id, "(v + k) - k is not v on a ring")
	sym.Assert(b.Kind == lib.SymmetryKindRotational && b.Limit == L && b.GetPrefix() == "r", "rotational - int loses kind, limit or domain")
	eq, err := starlark.Equal(back, v)
	sym.Assert(err == nil && eq, "(v + k) - k does not compare equal to v")
	sym.Observe("add", n)
	sym.Cover("ring add")
}

// Ring subtraction of an int.
func H_ring_sub() {
	L := 1 + sym.Choose("limit", maxLimit())
	id := sym.Int("id", 0, L-1)
	k := offset()
	r, err := starlark.Binary(syntax.MINUS, ring("r", id, L), starlark.MakeInt(k))
	if err != nil && farOffset(k) {
		sym.Cover("far offset refused")
		return
	}
	sym.Assert(err == nil, "rotational - int fails")
	a := asVal(r)
	n := int(a.GetId())
	sym.Assert(sym.And(n >= 0, n < L), "rotational - int leaves the ring")
	sym.Assert((n-id+k)%L == 0, "rotational - int is not congruent to id - k")
	sym.Assert(a.Kind == lib.SymmetryKindRotational && a.Limit == L && a.GetPrefix() == "r", "rotational - int loses kind, limit or domain")
	sym.Observe("sub", n)
}

// Ring distance: v-w is the number of steps from w to v.
func H_ring_diff() {
	L := 1 + sym.Choose("limit", maxLimit())
	x := sym.Int("x", 0, L-1)
	y := sym.Int("y", 0, L-1)
	v, w := ring("r", x, L), ring("r", y, L)
	d, err := starlark.Binary(syntax.MINUS, v, w)
	sym.Assert(err == nil, "rotational - rotational fails")
	di, ok := d.(starlark.Int)
	sym.Assert(ok, "rotational - rotational is not a plain int")
	n, ok := di.Int64()
	sym.Assert(ok, "ring distance out of range")
	want := sym.Ite(x >= y, x-y, x-y+L)
	sym.Assert(int(n) == want, "ring distance is not (x - y) mod limit")
	r, err := starlark.Binary(syntax.PLUS, w, d)
	sym.Assert(err == nil && asVal(r).GetId() == v.GetId(), "w + (v - w) is not v")
	sym.Observe("dist", int(n))
}

func kindOf(i int) lib.SymmetryKind {
	return []lib.SymmetryKind{lib.SymmetryKindNominal, lib.SymmetryKindOrdinal, lib.SymmetryKindInterval, lib.SymmetryKindRotational}[i]
}

func mk(kind lib.SymmetryKind, prefix string, id int, limit int) *lib.SymmetricValue {
	if kind == lib.SymmetryKindRotational {
		return lib.NewRotationalSymmetricValue(prefix, int64(id), limit)
	}
	return lib.NewSymmetricValueWithKind(prefix, int64(id), kind)
}

// Interval arithmetic is exact integer arithmetic on positions.
func H_interval() {
	const big = 1 << 62
	id := sym.Int("id", -big, big)
	k := int(sym.Int32("k"))
	v := mk(lib.SymmetryKindInterval, "t", id, 0)
	r, err := starlark.Binary(syntax.PLUS, v, starlark.MakeInt(k))
	sym.Assert(err == nil, "interval + int fails")
	a := asVal(r)
	sym.Assert(int(a.GetId()) == id+k, "interval + int is not id + k")
	sym.Assert(a.Kind == lib.SymmetryKindInterval && a.GetPrefix() == "t", "interval + int loses kind or domain")
	r2, err := starlark.Binary(syntax.PLUS, starlark.MakeInt(k), v)
	sym.Assert(err == nil && asVal(r2).GetId() == a.GetId(), "int + interval differs from interval + int")
	s, err := starlark.Binary(syntax.MINUS, v, starlark.MakeInt(k))
	sym.Assert(err == nil && int(asVal(s).GetId()) == id-k, "interval - int is not id - k")
	sym.Assert(asVal(s).Kind == lib.SymmetryKindInterval && asVal(s).GetPrefix() == "t", "interval - int loses kind or domain")
	d, err := starlark.Binary(syntax.MINUS, r, v)
	sym.Assert(err == nil, "interval - interval fails")
	di, ok := d.(starlark.Int)
	sym.Assert(ok, "interval - interval is not an int")
	n, _ := di.Int64()
	sym.Assert(int(n) == k, "(v + k) - v is not k")
	d2, err := starlark.Binary(syntax.MINUS, v, r)
	sym.Assert(err == nil, "interval - interval fails")
	n2, _ := d2.(starlark.Int).Int64()
	sym.Assert(int(n2) == -k, "v - (v + k) is not -k")
	sym.Observe("sum", int(a.GetId()))
}

// Forbidden operations are refused, for every kind and operand.
func H_refused() {
	ki := sym.Choose("kind", 4)
	kind := kindOf(ki)
	x := sym.Int("x", 0, 4)
	y := sym.Int("y", 0, 4)
	v, w := mk(kind, "d", x, 5), mk(kind, "d", y, 5)
	other := mk(kind, "e", y, 5)
	k := starlark.MakeInt(sym.Int("k", -10, 10))
	refused := func(op syntax.Token, a, b starlark.Value, label string) {
		r, err := starlark.Binary(op, a, b)
		sym.Assert(err != nil && r == nil, label)
	}
	refused(syntax.PLUS, v, w, "value + value is accepted")
	refused(syntax.MINUS, k, v, "int - value is accepted")
	refused(syntax.STAR, v, k, "value * int is accepted")
	refused(syntax.PERCENT, v, k, "value % int is accepted")
	refused(syntax.SLASHSLASH, v, k, "value // int is accepted")
	refused(syntax.PLUS, v, starlark.String("1"), "value + string is accepted")
	refused(syntax.MINUS, v, other, "subtraction across domains is accepted")
	switch kind {
	case lib.SymmetryKindNominal:
		refused(syntax.PLUS, v, k, "nominal + int is accepted")
		refused(syntax.MINUS, v, k, "nominal - int is accepted")
		refused(syntax.MINUS, v, w, "nominal - nominal is accepted")
	case lib.SymmetryKindOrdinal:
		refused(syntax.PLUS, v, k, "ordinal + int is accepted")
		refused(syntax.PLUS, k, v, "int + ordinal is accepted")
		refused(syntax.MINUS, v, k, "ordinal - int is accepted")
		refused(syntax.MINUS, v, w, "ordinal - ordinal is accepted")
	}
	sym.Cover("refused")
	sym.Observe("kind", ki)
}

// Comparisons: equality is identity of (domain, position); ordering exists exactly for ordinal and interval
// values of one domain and is the order of positions.
func H_compare() {
	ki := sym.Choose("kind", 4)
	kind := kindOf(ki)
	lo, hi := -1<<62, 1<<62
	if kind == lib.SymmetryKindRotational {
		lo, hi = 0, 6
	}
	x := sym.Int("x", lo, hi)
	y := sym.Int("y", lo, hi)
	v, w := mk(kind, "d", x, 7), mk(kind, "d", y, 7)
	eq, err := starlark.Compare(syntax.EQL, v, w)
	sym.Assert(err == nil, "== fails inside one domain")
	sym.Assert(eq == (x == y), "== is not equality of positions")
	ne, err := starlark.Compare(syntax.NEQ, v, w)
	sym.Assert(err == nil && ne == (x != y), "!= is not inequality of positions")
	ordered := kind == lib.SymmetryKindOrdinal || kind == lib.SymmetryKindInterval
	type cmp struct {
		op   syntax.Token
		want bool
		name string
	}
	for _, c := range []cmp{{syntax.LT, x < y, "<"}, {syntax.LE, x <= y, "<="}, {syntax.GT, x > y, ">"}, {syntax.GE, x >= y, ">="}} {
		r, err := starlark.Compare(c.op, v, w)
		if ordered {
			sym.Assert(err == nil, c.name+" fails for an ordered kind")
			sym.Assert(r == c.want, c.name+" is not the order of positions")
		} else {
			sym.Assert(err != nil, c.name+" is accepted for an unordered kind")
		}
	}
	// across domains: never equal, never ordered
	u := mk(kind, "e", y, 7)
	eq2, err2 := starlark.Compare(syntax.EQL, v, u)
	sym.Assert(err2 != nil || !eq2, "values of different domains compare equal")
	_, err3 := starlark.Compare(syntax.LT, v, u)
	sym.Assert(err3 != nil, "values of different domains are ordered")
	sym.Observe("eq", eq)
	sym.Cover("compare")
}

// Equal values hash equally and print equally; different positions print differently.
func H_hash() {
	kind := kindOf(sym.Choose("kind", 4))
	x := sym.Choose("x", 4)
	y := sym.Choose("y", 4)
	v, w := mk(kind, "d", x, 5), mk(kind, "d", y, 5)
	hv, e1 := v.Hash()
	hw, e2 := w.Hash()
	sym.Assert(e1 == nil && e2 == nil, "symmetric value is not hashable")
	sym.Assert(x != y || hv == hw, "equal values hash differently")
	sym.Assert((v.String() == w.String()) == (x == y), "printed form does not identify the value")
	d := starlark.NewDict(2)
	sym.Assert(d.SetKey(v, starlark.MakeInt(1)) == nil, "value cannot be a dict key")
	_, found, err := d.Get(w)
	sym.Assert(err == nil && found == (x == y), "dict lookup disagrees with equality")
	sym.Observe("s", v.String())
}
