// Package c17: serialized state is deterministic and distinguishes different values.
package c17

import (
	"verifh/sym"

	"github.com/fizzbee-io/fizzbee/lib"
	"go.starlark.net/starlark"
	"go.starlark.net/starlarkstruct"
)

func more(quick, thorough int) int {
	if sym.Tier() > 0 {
		return thorough
	}
	return quick
}

const (
	kInt = iota
	kString
	kBool
	kNone
	kBytes
	kFloat
	kList
	kTuple
	kSet
	kDict
	kGenSet
	kGenMap
	kBag
	kRecord
	kStruct
)

// desc describes a value.
type desc struct {
	kind int
	n    int    // number of an int, bool or float
	s    string // string, bytes
	kids []*desc
	vals []*desc // values of a mapping, parallel to kids (its keys)
}

// eq tells whether two descriptions are of the same value.
func eq(a, b *desc) bool {
	if a.kind != b.kind {
		return false
	}
	switch a.kind {
	case kNone:
		return true
	case kInt, kBool, kFloat:
		return a.n == b.n
	case kString, kBytes:
		return a.s == b.s
	case kList, kTuple, kRecord, kStruct:
		if len(a.kids) != len(b.kids) {
			return false
		}
		r := true
		for i := range a.kids {
			r = sym.And(r, eq(a.kids[i], b.kids[i]))
		}
		return r
	case kSet, kGenSet:
		return sym.And(within(a, b), within(b, a))
	case kBag:
		return len(a.kids) == len(b.kids) && sym.And(counted(a, b), counted(b, a))
	case kDict, kGenMap:
		return sym.And(mapped(a, b), mapped(b, a))
	}
	panic("kind")
}

func within(a, b *desc) bool {
	r := true
	for _, x := range a.kids {
		in := false
		for _, y := range b.kids {
			in = sym.Or(in, eq(x, y))
		}
		r = sym.And(r, in)
	}
	return r
}

func counted(a, b *desc) bool {
	r := true
	for _, x := range a.kids {
		n, m := 0, 0
		for _, y := range a.kids {
			n += sym.Ite(eq(x, y), 1, 0)
		}
		for _, y := range b.kids {
			m += sym.Ite(eq(x, y), 1, 0)
		}
		r = sym.And(r, n == m)
	}
	return r
}

func mapped(a, b *desc) bool {
	r := true
	for i, x := range a.kids {
		in := false
		for j, y := range b.kids {
			in = sym.Or(in, sym.And(eq(x, y), eq(a.vals[i], b.vals[j])))
		}
		r = sym.And(r, in)
	}
	return r
}

var attrs = []string{"p", "q", "r"}

// build makes the value; rev inserts the elements of unordered containers in the other order.
func build(d *desc, rev bool) starlark.Value {
	kid := func(i int) starlark.Value { return build(d.kids[i], rev) }
	n := len(d.kids)
	order := make([]int, n)
	for i := range order {
		order[i] = i
		if rev {
			order[i] = n - 1 - i
		}
	}
	switch d.kind {
	case kInt:
		return starlark.MakeInt(d.n)
	case kString:
		return starlark.String(d.s)
	case kBytes:
		return starlark.Bytes(d.s)
	case kBool:
		return starlark.Bool(d.n != 0)
	case kNone:
		return starlark.None
	case kFloat:
		return starlark.Float(float64(d.n) + 0.5)
	case kList:
		l := starlark.NewList(nil)
		for i := range d.kids {
			ok(l.Append(kid(i)))
		}
		return l
	case kTuple:
		t := make(starlark.Tuple, n)
		for i := range t {
			t[i] = kid(i)
		}
		return t
	case kSet:
		s := starlark.NewSet(0)
		for _, i := range order {
			ok(s.Insert(kid(i)))
		}
		return s
	case kDict:
		m := starlark.NewDict(0)
		for _, i := range order {
			ok(m.SetKey(kid(i), build(d.vals[i], rev)))
		}
		return m
	case kGenSet:
		s := lib.NewGenericSet()
		for _, i := range order {
			ok(s.Insert(kid(i)))
		}
		return s
	case kGenMap:
		m := lib.NewGenericMap()
		for _, i := range order {
			ok(m.SetKey(kid(i), build(d.vals[i], rev)))
		}
		return m
	case kBag:
		b := lib.NewBag(nil)
		for _, i := range order {
			ok(b.Insert(kid(i)))
		}
		return b
	case kRecord, kStruct:
		m := starlark.StringDict{}
		for i := range d.kids {
			m[attrs[i]] = kid(i)
		}
		if d.kind == kRecord {
			return lib.FromStringDict(starlark.String("record"), m)
		}
		return starlarkstruct.FromStringDict(starlarkstruct.Default, m)
	}
	panic("kind")
}

func ok(err error) { sym.Assert(err == nil, "building a value fails") }

func print(v starlark.Value) string {
	b, err := lib.Fingerprint(v)
	sym.Assert(err == nil, "a value has no identity text")
	return string(b)
}

func text(v starlark.Value) string {
	b, err := lib.MarshalJSONStarlarkValue(v, 0)
	sym.Assert(err == nil, "a value has no JSON text")
	return string(b)
}

var chars = []byte{'1', '"', '\\', ',', ':', '}', 0xff, 0xfe, '\n'}

// leaf chooses a value without parts; ints are symbolic.
func leaf(name string, kinds int) *desc {
	k := sym.Choose(name+"Leaf", kinds)
	switch k {
	case kInt:
		return &desc{kind: kInt, n: sym.Int(name+"Int", -100, 1000)}
	case kString, kBytes:
		n := sym.Choose(name+"Len", 3)
		s := ""
		for i := 0; i < n; i++ {
			s += string([]byte{chars[sym.Choose(name+"Char"+attrs[i], len(chars))]})
		}
		return &desc{kind: k, s: s}
	}
	return &desc{kind: k, n: sym.Int(name+"N", 0, 1)}
}

// values without parts of every type
func H_leaves() {
	a := leaf("a", kFloat)
	b := leaf("b", kFloat)
	if a.kind == kString && b.kind == kBytes && a.s == b.s || a.kind == b.kind || sym.Tier() > 0 || len(a.s)+len(b.s) < 3 {
		same := eq(a, b)
		u, v := build(a, false), build(b, false)
		sym.Assert(sym.StrEq(print(u), print(v)) == same, "the identity texts of two values agree although the values differ, or differ although they agree")
		if a.kind != kBytes && b.kind != kBytes && len(a.s) < 3 && !invalid(a.s) && !invalid(b.s) {
			sym.Assert(sym.StrEq(text(u), text(v)) == same, "the JSON texts of two values agree although the values differ, or differ although they agree")
		}
		sym.Cover("leaves")
	}
}

func invalid(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return true
		}
	}
	return false
}

// small leaf: an int, the string "1", or None
func small(name string) *desc {
	switch sym.Choose(name+"Small", 3) {
	case 0:
		return number(name)
	case 1:
		return &desc{kind: kString, s: "1"}
	}
	return &desc{kind: kNone}
}

// far: numbers of any size; otherwise few (unordered containers are sorted and hashed number by number)
var far = true

func number(name string) *desc {
	if far {
		return &desc{kind: kInt, n: sym.Int(name+"Int", -1000, 1000)}
	}
	return &desc{kind: kInt, n: sym.Int(name+"Int", -1, 1)}
}

// container chooses a container of up to max parts.
func container(name string, max int, part func(name string) *desc) *desc {
	return filled(name, kList+sym.Choose(name+"Kind", kStruct-kList+1), sym.Choose(name+"Size", max+1), part)
}

func filled(name string, kind, n int, part func(name string) *desc) *desc {
	d := &desc{kind: kind}
	before := far
	far = far && (kind == kList || kind == kTuple || kind == kRecord || kind == kStruct)
	defer func() { far = before }()
	for i := 0; i < n; i++ {
		p := part(name + attrs[i])
		if d.kind == kSet || d.kind == kDict || d.kind == kGenSet || d.kind == kGenMap {
			for _, q := range d.kids {
				sym.Assume(sym.Not(eq(p, q)))
			}
		}
		d.kids = append(d.kids, p)
		if d.kind == kDict || d.kind == kGenMap {
			d.vals = append(d.vals, &desc{kind: kInt, n: sym.Int(name+attrs[i]+"Val", 0, 1)})
		}
	}
	return d
}

func hashable(d *desc) bool {
	for _, k := range d.kids {
		if !hashable(k) {
			return false
		}
	}
	return d.kind < kList || d.kind == kTuple || d.kind == kStruct
}

func valid(d *desc) bool {
	for _, k := range d.kids {
		if !valid(k) || (d.kind == kSet || d.kind == kDict) && !hashable(k) {
			return false
		}
	}
	for _, k := range d.vals {
		if !valid(k) {
			return false
		}
	}
	return true
}

func compare(a, b *desc) {
	sym.Assume(valid(a) && valid(b))
	u, v := build(a, false), build(b, false)
	sym.Assert(sym.StrEq(print(u), print(v)) == eq(a, b), "the identity texts of two values agree although the values differ, or differ although they agree")
	sym.Cover("compared")
}

// two containers of any kinds with parts that are ints, strings or None
func H_containers() {
	kinds := kStruct - kList + 1
	i, j := sym.Choose("aKind", kinds), sym.Choose("bKind", kinds)
	n, m := sym.Choose("aSize", 3), sym.Choose("bSize", 3)
	if sym.Tier() == 0 { // different kinds: up to two parts together
		sym.Assume(i == j || n+m < 3)
	}
	compare(filled("a", kList+i, n, small), filled("b", kList+j, m, small))
}

// two containers that hold containers
func H_nested() {
	in := func(name string) *desc { return container(name, 1, number) }
	a := container("a", 1, in)
	b := container("b", more(1, 2), in)
	compare(a, b)
}

// containers as values of mappings and fields, next to another one
func H_deep() {
	wrap := []int{kList, kTuple, kDict, kGenMap, kRecord, kStruct}
	one := func(name string) *desc {
		k := wrap[sym.Choose(name+"Wrap", len(wrap))]
		inner := container(name+"in", 1, number)
		if sym.Flip(name + "twice") {
			inner = &desc{kind: kTuple, kids: []*desc{inner}}
		}
		if k == kDict || k == kGenMap {
			return &desc{kind: k, kids: []*desc{{kind: kNone}}, vals: []*desc{inner}}
		}
		return &desc{kind: k, kids: []*desc{{kind: kNone}, inner}}
	}
	compare(one("a"), one("b"))
}

// the texts do not depend on the order of insertion or iteration
func H_order() {
	var a *desc
	if sym.Flip("flat") {
		a = container("a", more(2, 3), small)
	} else {
		a = container("a", more(1, 2), func(name string) *desc { return container(name, 2, number) })
	}
	sym.Assume(valid(a))
	u := build(a, false)
	sym.MapOrder(true)
	v := build(a, true)
	p, q := print(u), print(v)
	t, w := text(u), text(v)
	sym.MapOrder(false)
	sym.Assert(sym.StrEq(p, q), "the identity text of a value depends on the order of insertion or iteration")
	sym.Assert(sym.StrEq(t, w), "the JSON text of a value depends on the order of insertion or iteration")
	sym.Cover("orders")
}

// lists and dictionaries with string keys are told apart in JSON
func H_json() {
	jleaf := func(name string) *desc {
		switch sym.Choose(name+"J", 4) {
		case 0:
			return number(name)
		case 1:
			return &desc{kind: kString, s: []string{"1", "\"", "1,1"}[sym.Choose(name+"S", 3)]}
		case 2:
			return &desc{kind: kBool, n: sym.Int(name+"B", 0, 1)}
		}
		return &desc{kind: kNone}
	}
	var tree func(name string, depth int) *desc
	tree = func(name string, depth int) *desc {
		k := 0
		if depth > 0 {
			k = sym.Choose(name+"T", 3)
		}
		if k == 0 {
			return jleaf(name)
		}
		d := &desc{kind: kList}
		n := sym.Choose(name+"N", 3-2+depth)
		for i := 0; i < n; i++ {
			d.kids = append(d.kids, tree(name+attrs[i], depth-1))
		}
		if k == 2 {
			d.kind, d.vals, d.kids = kDict, d.kids, nil
			for i := range d.vals {
				d.kids = append(d.kids, &desc{kind: kString, s: []string{"a", "\"b"}[i]})
			}
		}
		return d
	}
	a, b := tree("a", 2), tree("b", more(1, 2))
	sym.Assert(sym.StrEq(text(build(a, false)), text(build(b, false))) == eq(a, b), "the JSON texts of two values agree although the values differ, or differ although they agree")
	sym.Cover("json")
}
