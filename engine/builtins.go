package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func hasPointers(t *RType) bool {
	switch t.k {
	case kBool, kInt, kUint, kFloat, kComplex:
		return false
	case kStruct:
		for _, f := range t.fields {
			if hasPointers(f) {
				return true
			}
		}
		return false
	case kArray:
		return t.n > 0 && hasPointers(t.elem)
	}
	return true
}

func roundupsize(size int64, noscan bool) int64 {
	req := size
	if !noscan && req > 512 {
		req += 8
	}
	if req <= 32768-8 || (noscan && req <= 32768) {
		i := sort.Search(len(sizeClasses), func(i int) bool { return sizeClasses[i] >= req })
		return sizeClasses[i] - (req - size)
	}
	return (size + 8191) / 8192 * 8192
}

// growCap mirrors runtime.growslice.
func growCap(et *RType, oldCap, newLen int) int {
	newcap := oldCap
	double := newcap + newcap
	if newLen > double {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = double
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	es := et.size
	if es == 0 {
		return newcap
	}
	return int(roundupsize(int64(newcap)*es, !hasPointers(et)) / es)
}

func (w *Worker) appendVals(t *RType, s Value, add []Value) Value {
	s = w.fix(s)
	et := t.elem
	agg := et.k == kStruct || et.k == kArray
	ln, cp := s.sLen(), s.sCap()
	n := ln + len(add)
	if len(add) == 0 {
		return s
	}
	if n <= cp {
		a := s.O.(*Array)
		off := s.sOff()
		if agg {
			// the source may alias the destination
			tmp := make([]Value, len(add))
			for i := range add {
				tmp[i] = et.copy(add[i])
			}
			for i := range tmp {
				w.storeElem(et, &a.E[off+ln+i], tmp[i])
			}
		} else {
			if w.journal {
				for i := range add {
					c := &a.E[off+ln+i]
					w.jcells = append(w.jcells, cellSnap{c, *c})
				}
			}
			copy(a.E[off+ln:off+n], add)
		}
		return mkSlice(a, off, n, cp)
	}
	nc := growCap(et, cp, n)
	na := &Array{E: make([]Value, nc)}
	old := s.elems()
	if agg {
		for i := range old {
			na.E[i] = et.copy(old[i])
		}
		for i := range add {
			na.E[ln+i] = et.copy(add[i])
		}
		for i := n; i < nc; i++ {
			na.E[i] = et.zero()
		}
	} else {
		copy(na.E, old)
		copy(na.E[ln:], add)
	}
	return mkSlice(na, 0, n, nc)
}

func (w *Worker) copyVals(t *RType, dst, src Value) Value {
	dst = w.fix(dst)
	d := dst.elems()
	var s []Value
	if _, ok := src.O.(string); ok || src.O == nil {
		if str, ok := src.O.(string); ok {
			s = w.strToBytes(vStr(str)).elems()
		}
	} else if _, ok := src.O.(*SymStr); ok {
		s = w.strToBytes(vStr(w.concreteStr(src))).elems()
	} else {
		s = w.elems(src)
	}
	n := min(len(d), len(s))
	if n == 0 {
		return vInt(0)
	}
	tmp := make([]Value, n)
	et := t.elem
	agg := et.k == kStruct || et.k == kArray
	for i := 0; i < n; i++ {
		if agg {
			tmp[i] = et.copy(s[i])
		} else {
			tmp[i] = s[i]
		}
	}
	for i := 0; i < n; i++ {
		w.storeElem(et, &d[i], tmp[i])
	}
	return vInt(n)
}

func (w *Worker) lenOf(t *RType, v Value) Value {
	switch t.k {
	case kString:
		switch s := v.O.(type) {
		case nil:
			return vInt(0)
		case string:
			return vInt(len(s))
		default:
			return vInt(len(w.concreteStr(v)))
		}
	case kSlice:
		return vInt(w.fix(v).sLen())
	case kMap:
		if v.O == nil {
			return vInt(0)
		}
		return vInt(v.O.(*Map).n)
	case kArray:
		return vInt(t.n)
	case kPtr:
		return vInt(t.elem.n)
	case kChan:
		if v.O == nil {
			return vInt(0)
		}
		return vInt(len(v.O.(*Chan).q))
	}
	panic("len of " + t.String())
}

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon, d int, rt types.Type) Op {
	args := make([]opnd, len(cc.Args))
	ts := make([]*RType, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.op(a)
		ts[i] = c.p.types.get(a.Type())
	}
	res := c.p.types.get(rt)
	name := b.Name()
	switch name {
	case "len":
		t := ts[0]
		a := args[0]
		if t.k == kSlice {
			return func(fr *Frame) {
				v := a.get(fr)
				if v.N == symFull {
					v = fr.w.fix(v)
				}
				fr.regs[d] = Value{N: uint64(v.sLen())}
			}
		}
		return func(fr *Frame) { fr.regs[d] = fr.w.lenOf(t, a.get(fr)) }
	}
	return func(fr *Frame) {
		as := make([]Value, len(args))
		for k := range args {
			as[k] = args[k].get(fr)
		}
		fr.regs[d] = fr.w.builtinCall(fr, name, ts, as, res, fr)
	}
}

func (w *Worker) builtinCall(fr *Frame, name string, ts []*RType, as []Value, res *RType, self *Frame) Value {
	switch name {
	case "append":
		if len(as) == 1 {
			return as[0]
		}
		if ts[1].k == kString || as[1].N == symFull || as[0].N == symFull {
			_, s1 := as[1].O.(*SymStr)
			if s1 || as[1].N == symFull && as[1].O != nil || as[0].N == symFull {
				var tail Value
				if ts[1].k == kString {
					tail = as[1]
				} else {
					tail = w.bytesToStr(as[1])
				}
				return w.strToBytes(concatStr(w.bytesToStr(as[0]), tail))
			}
			return w.appendVals(ts[0], as[0], w.strToBytes(as[1]).elems())
		}
		return w.appendVals(ts[0], as[0], w.elems(as[1]))
	case "cap":
		switch ts[0].k {
		case kSlice:
			return vInt(w.fix(as[0]).sCap())
		case kChan:
			return vInt(as[0].O.(*Chan).cap)
		}
		return w.lenOf(ts[0], as[0])
	case "len":
		return w.lenOf(ts[0], as[0])
	case "copy":
		return w.copyVals(ts[0], as[0], as[1])
	case "delete":
		m, _ := as[0].O.(*Map)
		w.mapDelete(m, as[1])
		return Value{}
	case "clear":
		if ts[0].k == kMap {
			if m, ok := as[0].O.(*Map); ok {
				w.mapClear(m)
			}
			return Value{}
		}
		es := w.elems(as[0])
		for i := range es {
			w.storeElem(ts[0].elem, &es[i], ts[0].elem.zero())
		}
		return Value{}
	case "close":
		as[0].O.(*Chan).closed = true
		return Value{}
	case "print", "println":
		return Value{}
	case "recover":
		if self.deferOf != nil && self.deferOf.panicking {
			pv := self.deferOf.pval.v
			self.deferOf.panicking = false
			return pv
		}
		return Value{}
	case "min", "max":
		acc := as[0]
		for _, x := range as[1:] {
			acc = w.minmax(name == "min", ts[0], acc, x)
		}
		return acc
	case "ssa:wrapnilchk":
		if as[0].O == nil {
			w.nilDeref()
		}
		return as[0]
	case "real":
		return vFloat(real(cplx(as[0])))
	case "imag":
		return vFloat(imag(cplx(as[0])))
	case "complex":
		return Value{O: Complex{complex(as[0].f(), as[1].f())}}
	case "String": // unsafe.String(ptr, len)
		w.unsupported("unsafe.String")
	}
	w.unsupported("builtin " + name)
	return Value{}
}

func (w *Worker) minmax(isMin bool, t *RType, a, b Value) Value {
	switch t.k {
	case kInt, kUint:
		if a.O == nil && b.O == nil {
			lt := a.N < b.N
			if t.k == kInt {
				lt = int64(a.N) < int64(b.N)
			}
			if lt == isMin {
				return a
			}
			return b
		}
		op := TUlt
		if t.k == kInt {
			op = TSlt
		}
		x, y := w.toTerm(t, a), w.toTerm(t, b)
		c := w.pool.bin(op, x, y)
		if !isMin {
			c = w.pool.bin(op, y, x)
		}
		return w.scalar(t, w.pool.ite(c, x, y))
	case kFloat:
		if isMin {
			return vFloat(min(a.f(), b.f()))
		}
		return vFloat(max(a.f(), b.f()))
	case kString:
		x, y := w.concreteStr(a), w.concreteStr(b)
		if isMin {
			return vStr(min(x, y))
		}
		return vStr(max(x, y))
	}
	w.unsupported("min/max")
	return Value{}
}
