package main

import (
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

// RVal is the content of a reflect.Value.
type RVal struct {
	T   *RType
	V   Value
	ptr Value // location when addressable
	ok  bool  // addressable
}

func rvOf(v Value) *RVal {
	s := v.O.(*Struct)
	r, _ := s.F[0].O.(*RVal)
	return r
}

func (w *Worker) mkRV(r *RVal) Value {
	s := &Struct{F: make([]Value, 3)}
	if r != nil {
		s.F[0] = Value{O: r}
	}
	return Value{O: s}
}

func (w *Worker) rtypeIface(t *RType) Value {
	return Value{O: &Iface{w.p.reflectRtype(), Value{O: t}}}
}

func (p *Prog) reflectRtype() *RType {
	return p.types.get(types.NewPointer(p.ssa.ImportedPackage("reflect").Type("rtype").Type()))
}

func (r *RVal) val(w *Worker) Value {
	if r.ok {
		return w.load(r.T, r.ptr)
	}
	return r.V
}

func goKind(t *RType) reflect.Kind {
	switch t.k {
	case kBool:
		return reflect.Bool
	case kInt, kUint, kFloat, kComplex, kString, kUnsafe:
		switch t.T.Underlying().(*types.Basic).Kind() {
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		}
		return reflect.UnsafePointer
	case kPtr:
		return reflect.Ptr
	case kSlice:
		return reflect.Slice
	case kIface:
		return reflect.Interface
	case kStruct:
		return reflect.Struct
	case kArray:
		return reflect.Array
	case kMap:
		return reflect.Map
	case kChan:
		return reflect.Chan
	case kFunc:
		return reflect.Func
	}
	return reflect.Invalid
}

func init() {
	rt := func(name string, f func(w *Worker, t *RType, a []Value) Value) {
		reg("(*reflect.rtype)."+name, func(w *Worker, fn *Func, a []Value) Value { return f(w, a[0].O.(*RType), a[1:]) })
	}
	rt("Kind", func(w *Worker, t *RType, a []Value) Value { return Value{N: uint64(goKind(t))} })
	rt("Elem", func(w *Worker, t *RType, a []Value) Value {
		if t.elem == nil {
			w.panicMsg("reflect: Elem of invalid type " + t.String())
		}
		return w.rtypeIface(t.elem)
	})
	rt("String", func(w *Worker, t *RType, a []Value) Value {
		return vStr(strings.ReplaceAll(t.String(), "interface{}", "interface {}"))
	})
	rt("Name", func(w *Worker, t *RType, a []Value) Value {
		if n, ok := t.T.(*types.Named); ok {
			return vStr(n.Obj().Name())
		}
		if b, ok := t.T.(*types.Basic); ok {
			return vStr(b.Name())
		}
		return Value{}
	})
	rt("PkgPath", func(w *Worker, t *RType, a []Value) Value {
		if n, ok := t.T.(*types.Named); ok && n.Obj().Pkg() != nil {
			return vStr(n.Obj().Pkg().Path())
		}
		return Value{}
	})
	rt("Size", func(w *Worker, t *RType, a []Value) Value { return Value{N: uint64(t.size)} })
	rt("NumField", func(w *Worker, t *RType, a []Value) Value { return vInt(len(t.fields)) })
	rt("Len", func(w *Worker, t *RType, a []Value) Value { return vInt(t.n) })
	rt("Comparable", func(w *Worker, t *RType, a []Value) Value { return vBool(t.hasEq) })
	assignable := func(w *Worker, t, u *RType) bool { return types.AssignableTo(t.T, u.T) }
	rt("AssignableTo", func(w *Worker, t *RType, a []Value) Value {
		u := a[0].O.(*Iface).V.O.(*RType)
		return vBool(assignable(w, t, u))
	})
	rt("Implements", func(w *Worker, t *RType, a []Value) Value {
		u := a[0].O.(*Iface).V.O.(*RType)
		return vBool(w.p.implements(t, u))
	})
	rt("ConvertibleTo", func(w *Worker, t *RType, a []Value) Value {
		return vBool(types.ConvertibleTo(t.T, a[0].O.(*Iface).V.O.(*RType).T))
	})
	reg("reflect.TypeOf", func(w *Worker, fn *Func, a []Value) Value {
		if a[0].O == nil {
			return Value{}
		}
		return w.rtypeIface(a[0].O.(*Iface).T)
	})
	reg("reflect.ValueOf", func(w *Worker, fn *Func, a []Value) Value {
		if a[0].O == nil {
			return w.mkRV(nil)
		}
		i := a[0].O.(*Iface)
		return w.mkRV(&RVal{T: i.T, V: i.V})
	})
	reg("reflect.New", func(w *Worker, fn *Func, a []Value) Value {
		t := a[0].O.(*Iface).V.O.(*RType)
		return w.mkRV(&RVal{T: w.p.ptrTo(t), V: t.newCell()})
	})
	reg("reflect.Zero", func(w *Worker, fn *Func, a []Value) Value {
		t := a[0].O.(*Iface).V.O.(*RType)
		return w.mkRV(&RVal{T: t, V: t.zero()})
	})
	reg("reflect.Indirect", func(w *Worker, fn *Func, a []Value) Value {
		r := rvOf(a[0])
		if r == nil || r.T.k != kPtr {
			return a[0]
		}
		return rvElem(w, r)
	})
	reg("reflect.DeepEqual", func(w *Worker, fn *Func, a []Value) Value {
		w.unsupported("reflect.DeepEqual")
		return Value{}
	})
	rv := func(name string, f func(w *Worker, r *RVal, a []Value) Value) {
		reg("(reflect.Value)."+name, func(w *Worker, fn *Func, a []Value) Value {
			r := rvOf(a[0])
			if r == nil {
				w.panicMsg("reflect: call of reflect.Value." + name + " on zero Value")
			}
			return f(w, r, a[1:])
		})
	}
	reg("(reflect.Value).IsValid", func(w *Worker, fn *Func, a []Value) Value { return vBool(rvOf(a[0]) != nil) })
	reg("(reflect.Value).Kind", func(w *Worker, fn *Func, a []Value) Value {
		r := rvOf(a[0])
		if r == nil {
			return Value{}
		}
		return Value{N: uint64(goKind(r.T))}
	})
	reg("(reflect.Value).String", func(w *Worker, fn *Func, a []Value) Value {
		r := rvOf(a[0])
		if r == nil {
			return vStr("<invalid Value>")
		}
		if r.T.k == kString {
			return r.val(w)
		}
		return vStr("<" + r.T.String() + " Value>")
	})
	rv("Type", func(w *Worker, r *RVal, a []Value) Value { return w.rtypeIface(r.T) })
	rv("Elem", func(w *Worker, r *RVal, a []Value) Value { return rvElem(w, r) })
	rv("Interface", func(w *Worker, r *RVal, a []Value) Value {
		v := r.val(w)
		if r.T.k == kIface {
			return v
		}
		return Value{O: &Iface{r.T, v}}
	})
	rv("CanInterface", func(w *Worker, r *RVal, a []Value) Value { return vBool(true) })
	rv("CanAddr", func(w *Worker, r *RVal, a []Value) Value { return vBool(r.ok) })
	rv("CanSet", func(w *Worker, r *RVal, a []Value) Value { return vBool(r.ok) })
	rv("Addr", func(w *Worker, r *RVal, a []Value) Value { return w.mkRV(&RVal{T: w.p.ptrTo(r.T), V: r.ptr}) })
	rv("IsNil", func(w *Worker, r *RVal, a []Value) Value { return vBool(r.val(w).O == nil) })
	rv("IsZero", func(w *Worker, r *RVal, a []Value) Value {
		v := r.val(w)
		switch r.T.k {
		case kStruct, kArray:
			return w.eq(r.T, v, r.T.zero())
		}
		return vBool(v.O == nil && v.N == 0)
	})
	rv("Len", func(w *Worker, r *RVal, a []Value) Value { return w.lenOf(r.T, r.val(w)) })
	rv("NumField", func(w *Worker, r *RVal, a []Value) Value { return vInt(len(r.T.fields)) })
	rv("Int", func(w *Worker, r *RVal, a []Value) Value {
		if r.T.k != kInt {
			w.panicMsg("reflect: call of reflect.Value.Int on " + goKind(r.T).String() + " Value")
		}
		return w.convert(r.T, w.p.basic("int64"), r.val(w))
	})
	rv("Uint", func(w *Worker, r *RVal, a []Value) Value {
		if r.T.k != kUint {
			w.panicMsg("reflect: call of reflect.Value.Uint on " + goKind(r.T).String() + " Value")
		}
		return w.convert(r.T, w.p.basic("uint64"), r.val(w))
	})
	rv("Float", func(w *Worker, r *RVal, a []Value) Value {
		if r.T.k != kFloat {
			w.panicMsg("reflect: call of reflect.Value.Float on " + goKind(r.T).String() + " Value")
		}
		return r.val(w)
	})
	rv("Bool", func(w *Worker, r *RVal, a []Value) Value {
		if r.T.k != kBool {
			w.panicMsg("reflect: call of reflect.Value.Bool on " + goKind(r.T).String() + " Value")
		}
		return r.val(w)
	})
	rv("Set", func(w *Worker, r *RVal, a []Value) Value {
		x := rvOf(a[0])
		if !r.ok {
			w.panicMsg("reflect: reflect.Value.Set using unaddressable value")
		}
		v := x.val(w)
		if r.T.k == kIface && x.T.k != kIface {
			v = Value{O: &Iface{x.T, v}}
		}
		w.store(r.T, r.ptr, v)
		return Value{}
	})
	rv("Index", func(w *Worker, r *RVal, a []Value) Value {
		i := w.concInt(a[0])
		v := r.val(w)
		switch r.T.k {
		case kSlice:
			es := w.elems(v)
			if i < 0 || i >= len(es) {
				w.panicMsg("reflect: slice index out of range")
			}
			return w.mkRV(&RVal{T: r.T.elem, ptr: slotPtr(r.T.elem, &es[i]), ok: true})
		case kArray:
			es := v.O.(*Array).E
			return w.mkRV(&RVal{T: r.T.elem, V: es[i]})
		case kString:
			return w.mkRV(&RVal{T: w.p.tByte, V: Value{N: uint64(w.concreteStr(v)[i])}})
		}
		w.panicMsg("reflect: call of reflect.Value.Index on " + goKind(r.T).String() + " Value")
		return Value{}
	})
	field := func(w *Worker, r *RVal, i int) Value {
		ft := r.T.fields[i]
		if r.ok {
			s := r.ptr.O.(*Struct)
			return w.mkRV(&RVal{T: ft, ptr: slotPtr(ft, &s.F[i]), ok: true})
		}
		return w.mkRV(&RVal{T: ft, V: r.V.O.(*Struct).F[i]})
	}
	rv("Field", func(w *Worker, r *RVal, a []Value) Value { return field(w, r, w.concInt(a[0])) })
	rv("FieldByName", func(w *Worker, r *RVal, a []Value) Value {
		if r.T.k != kStruct {
			w.panicMsg("reflect: call of reflect.Value.FieldByName on " + goKind(r.T).String() + " Value")
		}
		n := w.concreteStr(a[0])
		for i, x := range r.T.names {
			if x == n {
				return field(w, r, i)
			}
		}
		return w.mkRV(nil)
	})
	rv("MapKeys", func(w *Worker, r *RVal, a []Value) Value {
		v := r.val(w)
		arr := &Array{}
		if v.O != nil {
			for _, e := range v.O.(*Map).ents {
				if e.alive {
					arr.E = append(arr.E, w.mkRV(&RVal{T: r.T.key, V: e.k}))
				}
			}
		}
		return mkSlice(arr, 0, len(arr.E), len(arr.E))
	})
	rv("MapIndex", func(w *Worker, r *RVal, a []Value) Value {
		m, _ := r.val(w).O.(*Map)
		i := w.mapFind(m, rvOf(a[0]).val(w))
		if i < 0 {
			return w.mkRV(nil)
		}
		return w.mkRV(&RVal{T: r.T.elem, V: m.ents[i].v})
	})
	// sort.Slice support
	reg("internal/reflectlite.ValueOf", func(w *Worker, fn *Func, a []Value) Value {
		i := a[0].O.(*Iface)
		return w.mkRV(&RVal{T: i.T, V: i.V})
	})
	reg("(internal/reflectlite.Value).Len", func(w *Worker, fn *Func, a []Value) Value {
		r := rvOf(a[0])
		return w.lenOf(r.T, r.V)
	})
	reg("internal/reflectlite.Swapper", func(w *Worker, fn *Func, a []Value) Value {
		i := a[0].O.(*Iface)
		es := w.elems(i.V)
		et := i.T.elem
		return Value{O: &Closure{Nat: func(w *Worker, args []Value) Value {
			x, y := w.concInt(args[0]), w.concInt(args[1])
			vx, vy := loadSlot(et, &es[x]), loadSlot(et, &es[y])
			w.storeElem(et, &es[x], vy)
			w.storeElem(et, &es[y], vx)
			return Value{}
		}}}
	})
	reg("internal/reflectlite.TypeOf", func(w *Worker, fn *Func, a []Value) Value {
		return Value{}
	})
}

func rvElem(w *Worker, r *RVal) Value {
	v := r.val(w)
	switch r.T.k {
	case kPtr:
		if v.O == nil {
			return w.mkRV(nil)
		}
		return w.mkRV(&RVal{T: r.T.elem, ptr: v, ok: true})
	case kIface:
		if v.O == nil {
			return w.mkRV(nil)
		}
		i := v.O.(*Iface)
		return w.mkRV(&RVal{T: i.T, V: i.V})
	}
	w.panicMsg("reflect: call of reflect.Value.Elem on " + goKind(r.T).String() + " Value")
	return Value{}
}

// protoText is a text for a message; as the real one, it is the same for equal messages only.
func (w *Worker) protoText(t *RType, v Value) string {
	switch t.k {
	case kPtr:
		if v.O == nil {
			return ""
		}
		return w.protoText(t.elem, w.load(t.elem, v))
	case kIface:
		if v.O == nil {
			return ""
		}
		i := v.O.(*Iface)
		return w.protoText(i.T, i.V)
	case kStruct:
		s := ""
		for i, n := range t.names {
			if isExported(n) {
				if x := w.protoText(t.fields[i], v.O.(*Struct).F[i]); x != "" {
					s += n + ":" + x + " "
				}
			}
		}
		return s
	case kSlice:
		s := "["
		for _, x := range w.elems(v) {
			s += w.protoText(t.elem, loadSlot(t.elem, &x)) + ","
		}
		return s + "]"
	case kString:
		return strconv.Quote(w.concreteStr(v))
	case kBool:
		return strconv.FormatBool(w.truth(v))
	case kInt, kUint:
		return strconv.FormatInt(int64(w.concInt(v)), 10)
	}
	w.unsupported("text of a message with a field of type " + t.String())
	return ""
}

func init() {
	reg("(google.golang.org/protobuf/internal/impl.Export).MessageStringOf", func(w *Worker, fn *Func, a []Value) Value {
		if a[1].O == nil {
			return vStr("<nil>")
		}
		i := a[1].O.(*Iface)
		return vStr(w.protoText(i.T, i.V))
	})
}
