package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is the universal representation of a Go value in the interpreter.
//
//	bool, integers : N (canonically extended); O == nil, or *Term when symbolic
//	floats         : N = math.Float64bits
//	string         : O = string, *SymStr, or nil for ""
//	pointer        : O = *Value | *Struct | *Array (by element type) | nil
//	slice          : O = *Array (nil slice: nil), N = off<<42 | len<<21 | cap
//	interface      : O = *Iface | nil
//	struct, array  : O = *Struct, *Array (r-values are never mutated)
//	map, chan      : O = *Map, *Chan | nil
//	func           : O = *Func | *Closure | nil
//	tuple          : O = Tuple
type Value struct {
	N uint64
	O any
}

type Struct struct{ F []Value }
type Array struct {
	E   []Value
	Sym *SymBytes // when non-nil, the content is an unmaterialised symbolic byte string
}
type SymBytes struct{ S *SymStr }
type Iface struct {
	T *RType
	V Value
}
type Closure struct {
	Fn  *Func
	Env []Value
	Nat func(w *Worker, args []Value) Value // native closure
}
type Tuple []Value
type Complex struct{ c complex128 }

const lim21 = 1 << 21

func mkSlice(a *Array, off, ln, cp int) Value {
	if off+cp >= lim21 {
		panic(abort{kind: "unsupported", msg: "slice too large"})
	}
	return Value{uint64(off)<<42 | uint64(ln)<<21 | uint64(cp), a}
}
func (v Value) sOff() int { return int(v.N >> 42) }
func (v Value) sLen() int { return int(v.N>>21) & (lim21 - 1) }
func (v Value) sCap() int { return int(v.N) & (lim21 - 1) }
func (v Value) elems() []Value {
	if v.O == nil {
		return nil
	}
	a := v.O.(*Array)
	o := v.sOff()
	return a.E[o : o+v.sLen()]
}

func vInt(i int) Value       { return Value{N: uint64(int64(i))} }
func vBool(b bool) Value     { return Value{N: b2u(b)} }
func vFloat(f float64) Value { return Value{N: math.Float64bits(f)} }
func vStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{O: s}
}
func (v Value) term() *Term {
	if v.O == nil {
		return nil
	}
	t, _ := v.O.(*Term)
	return t
}
func (v Value) f() float64 { return math.Float64frombits(v.N) }

// ---- symbolic strings (ropes) ----

type segKind uint8

const (
	segLit     segKind = iota
	segDec             // decimal text of a signed term
	segHashHex         // hex sha256 of a symbolic rope
	segHashRaw         // raw sha256 bytes of a symbolic rope
)

type Seg struct {
	k   segKind
	lit string
	t   *Term
	sg  bool // signed
	sub *SymStr
}
type SymStr struct{ segs []Seg }

func strSegs(v Value) []Seg {
	switch s := v.O.(type) {
	case nil:
		return nil
	case string:
		return []Seg{{k: segLit, lit: s}}
	case *SymStr:
		return s.segs
	}
	panic(fmt.Sprintf("strSegs: %T", v.O))
}

func segsToValue(segs []Seg) Value {
	out := segs[:0:0]
	for _, s := range segs {
		if s.k == segLit {
			if s.lit == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].k == segLit {
				out[n-1].lit += s.lit
				continue
			}
		}
		out = append(out, s)
	}
	if len(out) == 0 {
		return Value{}
	}
	if len(out) == 1 && out[0].k == segLit {
		return vStr(out[0].lit)
	}
	return Value{O: &SymStr{out}}
}

func concatStr(a, b Value) Value {
	as, aok := a.O.(string)
	bs, bok := b.O.(string)
	if aok && bok {
		return Value{O: as + bs}
	}
	if a.O == nil {
		return b
	}
	if b.O == nil {
		return a
	}
	x := strSegs(a)
	y := strSegs(b)
	segs := make([]Seg, 0, len(x)+len(y))
	segs = append(append(segs, x...), y...)
	return segsToValue(segs)
}

// ropeBuilder accumulates text.
type ropeBuilder struct {
	segs []Seg
	lit  []byte
}

func (b *ropeBuilder) addLit(s string) { b.lit = append(b.lit, s...) }
func (b *ropeBuilder) flush() {
	if len(b.lit) > 0 {
		b.segs = append(b.segs, Seg{k: segLit, lit: string(b.lit)})
		b.lit = b.lit[:0]
	}
}
func (b *ropeBuilder) add(v Value) {
	switch s := v.O.(type) {
	case nil:
	case string:
		b.lit = append(b.lit, s...)
	case *SymStr:
		for _, sg := range s.segs {
			if sg.k == segLit {
				b.lit = append(b.lit, sg.lit...)
			} else {
				b.flush()
				b.segs = append(b.segs, sg)
			}
		}
	default:
		panic(fmt.Sprintf("ropeBuilder.add %T", v.O))
	}
}
func (b *ropeBuilder) value() Value {
	if len(b.segs) == 0 {
		return vStr(string(b.lit))
	}
	segs := append([]Seg{}, b.segs...)
	if len(b.lit) > 0 {
		segs = append(segs, Seg{k: segLit, lit: string(b.lit)})
	}
	return Value{O: &SymStr{segs}}
}

// ---- runtime types ----

type kind uint8

const (
	kBool kind = iota
	kInt       // signed
	kUint
	kFloat
	kComplex
	kString
	kPtr
	kSlice
	kIface
	kStruct
	kArray
	kMap
	kChan
	kFunc
	kTuple
	kUnsafe
	kOther
)

type RType struct {
	T       types.Type
	id      int
	k       kind
	w       uint8 // integer width
	size    int64
	elem    *RType // ptr, slice, array, chan, map value
	key     *RType
	n       int // array length
	fields  []*RType
	names   []string
	embeds  []bool
	mu      sync.Mutex
	mcache  sync.Map // method name/id -> *Func
	ismemo  sync.Map // iface *RType -> bool
	strmemo string
	hasEq   bool // comparable
}

type TypeTab struct {
	mu   sync.Mutex
	m    typeutil.Map
	list []*RType
}

var sizes = types.SizesFor("gc", "amd64")

func (tt *TypeTab) get(t types.Type) *RType {
	tt.mu.Lock()
	defer tt.mu.Unlock()
	return tt.get0(t)
}

func (tt *TypeTab) get0(t types.Type) *RType {
	t = types.Unalias(t)
	if r := tt.m.At(t); r != nil {
		return r.(*RType)
	}
	r := &RType{T: t, id: len(tt.list)}
	tt.list = append(tt.list, r)
	tt.m.Set(t, r)
	func() {
		defer func() { recover() }()
		r.size = sizes.Sizeof(t)
	}()
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			r.k, r.w = kBool, 0
		case types.Int, types.Int64, types.UntypedInt:
			r.k, r.w = kInt, 64
		case types.Int8:
			r.k, r.w = kInt, 8
		case types.Int16:
			r.k, r.w = kInt, 16
		case types.Int32, types.UntypedRune:
			r.k, r.w = kInt, 32
		case types.Uint, types.Uint64, types.Uintptr:
			r.k, r.w = kUint, 64
		case types.Uint8:
			r.k, r.w = kUint, 8
		case types.Uint16:
			r.k, r.w = kUint, 16
		case types.Uint32:
			r.k, r.w = kUint, 32
		case types.Float32:
			r.k, r.w = kFloat, 32
		case types.Float64, types.UntypedFloat:
			r.k, r.w = kFloat, 64
		case types.Complex64, types.Complex128, types.UntypedComplex:
			r.k = kComplex
		case types.String, types.UntypedString:
			r.k = kString
		case types.UnsafePointer:
			r.k = kUnsafe
		case types.UntypedNil:
			r.k = kUnsafe
		default:
			r.k = kOther
		}
	case *types.Pointer:
		r.k = kPtr
		r.elem = tt.get0(u.Elem())
	case *types.Slice:
		r.k = kSlice
		r.elem = tt.get0(u.Elem())
	case *types.Array:
		r.k = kArray
		r.elem = tt.get0(u.Elem())
		r.n = int(u.Len())
	case *types.Map:
		r.k = kMap
		r.key = tt.get0(u.Key())
		r.elem = tt.get0(u.Elem())
	case *types.Chan:
		r.k = kChan
		r.elem = tt.get0(u.Elem())
	case *types.Struct:
		r.k = kStruct
		for i := 0; i < u.NumFields(); i++ {
			r.fields = append(r.fields, tt.get0(u.Field(i).Type()))
			r.names = append(r.names, u.Field(i).Name())
			r.embeds = append(r.embeds, u.Field(i).Embedded())
		}
	case *types.Interface:
		r.k = kIface
	case *types.Signature:
		r.k = kFunc
	case *types.Tuple:
		r.k = kTuple
		for i := 0; i < u.Len(); i++ {
			r.fields = append(r.fields, tt.get0(u.At(i).Type()))
		}
	default:
		r.k = kOther
	}
	r.hasEq = types.Comparable(t)
	return r
}

func (r *RType) String() string {
	return types.TypeString(r.T, func(p *types.Package) string { return p.Name() })
}

func (r *RType) zero() Value {
	switch r.k {
	case kStruct:
		return Value{O: r.newStruct()}
	case kArray:
		return Value{O: r.newArray()}
	case kTuple:
		t := make(Tuple, len(r.fields))
		for i, f := range r.fields {
			t[i] = f.zero()
		}
		return Value{O: t}
	}
	return Value{}
}

func (r *RType) newStruct() *Struct {
	s := &Struct{F: make([]Value, len(r.fields))}
	for i, f := range r.fields {
		if f.k == kStruct || f.k == kArray {
			s.F[i] = f.zero()
		}
	}
	return s
}

func (r *RType) newArray() *Array {
	a := &Array{E: make([]Value, r.n)}
	if r.elem.k == kStruct || r.elem.k == kArray {
		for i := range a.E {
			a.E[i] = r.elem.zero()
		}
	}
	return a
}

// newCell allocates a variable of this type and returns the pointer to it.
func (r *RType) newCell() Value {
	switch r.k {
	case kStruct:
		return Value{O: r.newStruct()}
	case kArray:
		return Value{O: r.newArray()}
	}
	return Value{O: new(Value)}
}

func copyVal(v Value) Value {
	switch x := v.O.(type) {
	case *Struct:
		return Value{O: copyStruct(x)}
	case *Array:
		return Value{O: copyArray(x)}
	}
	return v
}

// copyTyped copies a struct/array r-value; pointers stay shared.
func (r *RType) copy(v Value) Value {
	switch r.k {
	case kStruct:
		s := v.O.(*Struct)
		n := &Struct{F: make([]Value, len(s.F))}
		for i, f := range r.fields {
			if f.k == kStruct || f.k == kArray {
				n.F[i] = f.copy(s.F[i])
			} else {
				n.F[i] = s.F[i]
			}
		}
		return Value{O: n}
	case kArray:
		a := v.O.(*Array)
		n := &Array{E: make([]Value, len(a.E))}
		if r.elem.k == kStruct || r.elem.k == kArray {
			for i := range a.E {
				n.E[i] = r.elem.copy(a.E[i])
			}
		} else {
			copy(n.E, a.E)
		}
		return Value{O: n}
	}
	return v
}

func copyStruct(s *Struct) *Struct { panic("untyped copy") }
func copyArray(a *Array) *Array    { panic("untyped copy") }

// ---- map ----

type mapEnt struct {
	k, v  Value
	alive bool
	sym   bool
}
type Map struct {
	t    *RType
	idx  map[any]int
	ents []mapEnt
	syms []int
	n    int
	base bool // created before the path started (must be snapshotted before mutation)
}

func newMap(t *RType) *Map { return &Map{t: t, idx: map[any]int{}} }

func (m *Map) clone() *Map {
	c := &Map{t: m.t, idx: make(map[any]int, len(m.idx)), n: m.n}
	for k, v := range m.idx {
		c.idx[k] = v
	}
	c.ents = append([]mapEnt{}, m.ents...)
	c.syms = append([]int{}, m.syms...)
	return c
}

type ifaceKey struct {
	t *RType
	k any
}
type consKey struct{ a, b any }
type nilKey struct{}
type nanKey struct{ p *int }

// mapKey converts a concrete value to a Go-comparable key; ok=false if it contains symbolic parts.
func (w *Worker) mapKey(t *RType, v Value) (any, bool) {
	switch t.k {
	case kBool, kInt, kUint:
		if v.O != nil {
			return nil, false
		}
		return v.N, true
	case kFloat:
		f := v.f()
		if f == 0 {
			return uint64(0), true
		}
		if f != f {
			return nanKey{new(int)}, true
		}
		return v.N, true
	case kString:
		switch s := v.O.(type) {
		case nil:
			return "", true
		case string:
			return s, true
		}
		return nil, false
	case kPtr, kChan, kUnsafe, kMap, kFunc:
		if v.O == nil {
			return nilKey{}, true
		}
		return v.O, true
	case kIface:
		if v.O == nil {
			return nilKey{}, true
		}
		i := v.O.(*Iface)
		if !i.T.hasEq {
			w.goPanic("runtime error: hash of unhashable type " + i.T.String())
		}
		k, ok := w.mapKey(i.T, i.V)
		if !ok {
			return nil, false
		}
		return ifaceKey{i.T, k}, true
	case kStruct:
		var acc any = nilKey{}
		s := v.O.(*Struct)
		for i, f := range t.fields {
			k, ok := w.mapKey(f, s.F[i])
			if !ok {
				return nil, false
			}
			acc = consKey{acc, k}
		}
		return acc, true
	case kArray:
		var acc any = nilKey{}
		for _, e := range v.O.(*Array).E {
			k, ok := w.mapKey(t.elem, e)
			if !ok {
				return nil, false
			}
			acc = consKey{acc, k}
		}
		return acc, true
	}
	panic(abort{kind: "unsupported", msg: "map key type " + t.String()})
}

// find returns the entry index or -1, forking on symbolic equality.
func (w *Worker) mapFind(m *Map, k Value) int {
	if m == nil {
		return -1
	}
	ck, ok := w.mapKey(m.t.key, k)
	if ok {
		if i, hit := m.idx[ck]; hit {
			return i
		}
		for _, i := range m.syms {
			if m.ents[i].alive && w.truth(w.eq(m.t.key, m.ents[i].k, k)) {
				return i
			}
		}
		return -1
	}
	for i := range m.ents {
		if m.ents[i].alive && w.truth(w.eq(m.t.key, m.ents[i].k, k)) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapTouch(m *Map) {
	if m.base {
		m.base = false
		w.jmaps = append(w.jmaps, mapSnap{m, m.clone()})
	}
}

func (w *Worker) mapSet(m *Map, k, v Value) {
	w.mapTouch(m)
	if i := w.mapFind(m, k); i >= 0 {
		m.ents[i].v = v
		return
	}
	ck, ok := w.mapKey(m.t.key, k)
	m.ents = append(m.ents, mapEnt{k: k, v: v, alive: true, sym: !ok})
	i := len(m.ents) - 1
	if ok {
		m.idx[ck] = i
	} else {
		m.syms = append(m.syms, i)
	}
	m.n++
}

func (w *Worker) mapDelete(m *Map, k Value) {
	if m == nil {
		return
	}
	i := w.mapFind(m, k)
	if i < 0 {
		return
	}
	w.mapTouch(m)
	if m.ents[i].sym {
		for j, x := range m.syms {
			if x == i {
				m.syms = append(append([]int{}, m.syms[:j]...), m.syms[j+1:]...)
				break
			}
		}
	} else {
		ck, _ := w.mapKey(m.t.key, m.ents[i].k)
		delete(m.idx, ck)
	}
	m.ents[i].alive = false
	m.n--
}

func (w *Worker) mapClear(m *Map) {
	w.mapTouch(m)
	m.idx = map[any]int{}
	for i := range m.ents {
		m.ents[i].alive = false
	}
	m.syms = nil
	m.n = 0
}

// ---- equality ----

func (w *Worker) boolVal(t *Term) Value {
	if t.isConst() {
		return Value{N: t.n}
	}
	return Value{O: t}
}

func (w *Worker) toTerm(t *RType, v Value) *Term {
	if tm := v.term(); tm != nil {
		return tm
	}
	return w.pool.konst(v.N, t.w)
}

func (w *Worker) andV(a, b Value) Value {
	if a.O == nil {
		if a.N == 0 {
			return a
		}
		return b
	}
	if b.O == nil {
		if b.N == 0 {
			return b
		}
		return a
	}
	return w.boolVal(w.pool.and(a.O.(*Term), b.O.(*Term)))
}

func (w *Worker) notV(a Value) Value {
	if a.O == nil {
		return Value{N: 1 - a.N}
	}
	return w.boolVal(w.pool.not(a.O.(*Term)))
}

func (w *Worker) eq(t *RType, a, b Value) Value {
	switch t.k {
	case kBool, kInt, kUint:
		if a.O == nil && b.O == nil {
			return vBool(a.N == b.N)
		}
		return w.boolVal(w.pool.eq(w.toTerm(t, a), w.toTerm(t, b)))
	case kFloat:
		return vBool(a.f() == b.f())
	case kComplex:
		return vBool(cplx(a) == cplx(b))
	case kString:
		as, aok := a.O.(string)
		bs, bok := b.O.(string)
		if (aok || a.O == nil) && (bok || b.O == nil) {
			return vBool(as == bs)
		}
		return w.symStrEq(strSegs(a), strSegs(b))
	case kPtr, kChan, kUnsafe, kFunc, kMap:
		return vBool(a.O == b.O)
	case kSlice:
		return vBool(a.O == nil && b.O == nil)
	case kIface:
		if a.O == nil || b.O == nil {
			return vBool(a.O == nil && b.O == nil)
		}
		x, y := a.O.(*Iface), b.O.(*Iface)
		if x.T != y.T {
			return vBool(false)
		}
		if !x.T.hasEq {
			w.goPanic("runtime error: comparing uncomparable type " + x.T.String())
		}
		return w.eq(x.T, x.V, y.V)
	case kStruct:
		r := vBool(true)
		x, y := a.O.(*Struct), b.O.(*Struct)
		for i, f := range t.fields {
			if t.names[i] == "_" {
				continue
			}
			r = w.andV(r, w.eq(f, x.F[i], y.F[i]))
			if r.O == nil && r.N == 0 {
				return r
			}
		}
		return r
	case kArray:
		r := vBool(true)
		x, y := a.O.(*Array), b.O.(*Array)
		for i := range x.E {
			r = w.andV(r, w.eq(t.elem, x.E[i], y.E[i]))
			if r.O == nil && r.N == 0 {
				return r
			}
		}
		return r
	}
	panic(abort{kind: "unsupported", msg: "compare " + t.String()})
}

func cplx(v Value) complex128 {
	if v.O == nil {
		return 0
	}
	return v.O.(Complex).c
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

// symStrEq compares two ropes, returning a (possibly symbolic) boolean.
func (w *Worker) symStrEq(a, b []Seg) Value {
	acc := vBool(true)
	x := append([]Seg{}, a...)
	y := append([]Seg{}, b...)
	for {
		for len(x) > 0 && x[0].k == segLit && x[0].lit == "" {
			x = x[1:]
		}
		for len(y) > 0 && y[0].k == segLit && y[0].lit == "" {
			y = y[1:]
		}
		if len(x) == 0 || len(y) == 0 {
			if len(x) == 0 && len(y) == 0 {
				return acc
			}
			return vBool(false) // every segment is non-empty
		}
		if x[0].k == segLit && y[0].k == segLit {
			n := min(len(x[0].lit), len(y[0].lit))
			if x[0].lit[:n] != y[0].lit[:n] {
				return vBool(false)
			}
			x[0].lit = x[0].lit[n:]
			y[0].lit = y[0].lit[n:]
			continue
		}
		if x[0].k == segLit {
			x, y = y, x
		}
		// x[0] is symbolic
		switch x[0].k {
		case segDec:
			if !delimited(x[1:]) {
				return w.strEqConcrete(a, b, acc)
			}
			switch y[0].k {
			case segDec:
				if !delimited(y[1:]) {
					return w.strEqConcrete(a, b, acc)
				}
				if x[0].t.w != y[0].t.w || x[0].sg != y[0].sg {
					return w.strEqConcrete(a, b, acc)
				}
				acc = w.andV(acc, w.boolVal(w.pool.eq(x[0].t, y[0].t)))
				x, y = x[1:], y[1:]
			case segLit:
				l := y[0].lit
				i := 0
				if i < len(l) && l[i] == '-' {
					i++
				}
				st := i
				for i < len(l) && isDigit(l[i]) {
					i++
				}
				if i == st {
					return vBool(false)
				}
				if i == len(l) && !delimited(y[1:]) {
					return w.strEqConcrete(a, b, acc)
				}
				txt := l[:i]
				var ok bool
				var n uint64
				if x[0].sg {
					m, err := strconv.ParseInt(txt, 10, 64)
					ok = err == nil && strconv.FormatInt(m, 10) == txt && sext(uint64(m)&mask(x[0].t.w), x[0].t.w) == m
					n = uint64(m)
				} else {
					m, err := strconv.ParseUint(txt, 10, 64)
					ok = err == nil && strconv.FormatUint(m, 10) == txt && m&^mask(x[0].t.w) == 0
					n = m
				}
				if !ok {
					return vBool(false)
				}
				acc = w.andV(acc, w.boolVal(w.pool.eq(x[0].t, w.pool.konst(n, x[0].t.w))))
				x = x[1:]
				y[0].lit = l[i:]
			default: // a hash begins with arbitrary characters; a delimited decimal of <20 digits cannot cover 64 hex digits
				return vBool(false)
			}
		case segHashHex, segHashRaw:
			hl := 64
			if x[0].k == segHashRaw {
				hl = 32
			}
			switch {
			case y[0].k == x[0].k:
				acc = w.andV(acc, w.symStrEq(x[0].sub.segs, y[0].sub.segs))
				x, y = x[1:], y[1:]
			case y[0].k == segLit:
				if len(y[0].lit) < hl {
					// a literal shorter than a digest: only equal if other segments complete it; digests are opaque
					return vBool(false)
				}
				pre, ok := w.hashPre[y[0].lit[:hl]]
				if !ok {
					return vBool(false)
				}
				acc = w.andV(acc, w.symStrEq(x[0].sub.segs, strSegs(vStr(pre))))
				y[0].lit = y[0].lit[hl:]
				x = x[1:]
			default:
				return vBool(false)
			}
		}
		if acc.O == nil && acc.N == 0 {
			return acc
		}
	}
}

func delimited(rest []Seg) bool {
	for len(rest) > 0 && rest[0].k == segLit && rest[0].lit == "" {
		rest = rest[1:]
	}
	if len(rest) == 0 {
		return true
	}
	return rest[0].k == segLit && !isDigit(rest[0].lit[0])
}

func (w *Worker) strEqConcrete(a, b []Seg, _ Value) Value {
	return vBool(w.concreteStr(Value{O: &SymStr{a}}) == w.concreteStr(Value{O: &SymStr{b}}))
}

// concreteStr forces a string to concrete text, forking over the symbolic integers in it.
func (w *Worker) concreteStr(v Value) string {
	switch s := v.O.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SymStr:
		var sb strings.Builder
		for _, g := range s.segs {
			switch g.k {
			case segLit:
				sb.WriteString(g.lit)
			case segDec:
				n := w.concretize(g.t)
				if g.sg {
					sb.WriteString(strconv.FormatInt(sext(n, g.t.w), 10))
				} else {
					sb.WriteString(strconv.FormatUint(n, 10))
				}
			case segHashHex:
				raw := w.sha(w.concreteStr(Value{O: g.sub}))
				sb.WriteString(fmt.Sprintf("%x", raw))
			case segHashRaw:
				sb.WriteString(w.sha(w.concreteStr(Value{O: g.sub})))
			}
		}
		return sb.String()
	}
	panic(abort{kind: "internal", msg: fmt.Sprintf("concreteStr %T", v.O)})
}

var _ = ssa.NaiveForm
