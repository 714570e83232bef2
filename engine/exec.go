package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"runtime"
	"runtime/metrics"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

func nilHasher() typeutil.Hasher { return typeutil.MakeHasher() }

const maxDepth = 20000

type opnd struct {
	kind uint8 // 0 reg, 1 const, 2 global
	i    int
	v    Value
}

func (o *opnd) get(fr *Frame) Value {
	switch o.kind {
	case 0:
		return fr.regs[o.i]
	case 1:
		return o.v
	}
	return Value{O: fr.w.globals[o.i]}
}

type compiler struct {
	p    *Prog
	fn   *Func
	regs map[ssa.Value]int
	bmap map[*ssa.BasicBlock]*Block
}

func (c *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{kind: 1, v: c.p.constValue(x)}
	case *ssa.Global:
		i, ok := c.p.globals[x]
		if !ok {
			panic("unknown global " + x.String())
		}
		return opnd{kind: 2, i: i}
	case *ssa.Function:
		return opnd{kind: 1, v: Value{O: c.p.fn(x)}}
	case *ssa.Builtin:
		return opnd{kind: 1}
	}
	i, ok := c.regs[v]
	if !ok {
		i = len(c.regs)
		c.regs[v] = i
	}
	return opnd{kind: 0, i: i}
}

func (c *compiler) dst(v ssa.Value) int { o := c.op(v); return o.i }

func (fn *Func) compile() {
	f := fn.f
	c := &compiler{p: fn.p, fn: fn, regs: map[ssa.Value]int{}, bmap: map[*ssa.BasicBlock]*Block{}}
	if f.Blocks == nil {
		fn.external = true
		return
	}
	for _, p := range f.Params {
		c.regs[p] = len(c.regs)
	}
	for _, p := range f.FreeVars {
		c.regs[p] = len(c.regs)
	}
	fn.nparams = len(f.Params)
	for i, b := range f.Blocks {
		nb := &Block{idx: i}
		c.bmap[b] = nb
		fn.blocks = append(fn.blocks, nb)
	}
	for _, b := range f.Blocks {
		nb := c.bmap[b]
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				if ph, ok := in.(*ssa.Phi); ok {
					c.dst(ph)
				}
				continue
			case *ssa.Jump:
				t := c.edge(b, b.Succs[0])
				nb.term = t
			case *ssa.If:
				cond := c.op(x.Cond)
				t1, t2 := c.edge(b, b.Succs[0]), c.edge(b, b.Succs[1])
				nb.term = func(fr *Frame) *Block {
					v := cond.get(fr)
					var r bool
					if v.O == nil {
						r = v.N != 0
					} else {
						r = fr.w.branch(v.O.(*Term))
					}
					if r {
						return t1(fr)
					}
					return t2(fr)
				}
			case *ssa.Return:
				nb.term = c.ret(x)
			case *ssa.Panic:
				v := c.op(x.X)
				nb.term = func(fr *Frame) *Block {
					pv := v.get(fr)
					panic(&goPanic{v: pv, stack: fr.w.stackString()})
				}
			default:
				nb.ops = append(nb.ops, c.instr(in))
			}
		}
		nb.n = int64(len(nb.ops)) + 1
		fn.ninstr += len(b.Instrs)
		if nb.term == nil {
			nb.term = func(fr *Frame) *Block { panic("block without terminator " + fn.name) }
		}
	}
	fn.entry = fn.blocks[0]
	if f.Recover != nil {
		fn.recover = c.bmap[f.Recover]
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Defer, *ssa.RunDefers:
				fn.hasDefer = true
			}
		}
	}
	fn.nregs = len(c.regs)
	fn.regOf = c.regs
}

func (c *compiler) ret(x *ssa.Return) TermOp {
	switch len(x.Results) {
	case 0:
		return func(fr *Frame) *Block { return nil }
	case 1:
		o := c.op(x.Results[0])
		return func(fr *Frame) *Block { fr.result = o.get(fr); return nil }
	}
	ops := make([]opnd, len(x.Results))
	for i, r := range x.Results {
		ops[i] = c.op(r)
	}
	return func(fr *Frame) *Block {
		t := make(Tuple, len(ops))
		for i := range ops {
			t[i] = ops[i].get(fr)
		}
		fr.result = Value{O: t}
		return nil
	}
}

func (c *compiler) edge(from, to *ssa.BasicBlock) TermOp {
	tb := c.bmap[to]
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	type mv struct {
		d int
		s opnd
	}
	var mvs []mv
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		mvs = append(mvs, mv{c.dst(ph), c.op(ph.Edges[pi])})
	}
	switch len(mvs) {
	case 0:
		return func(fr *Frame) *Block { return tb }
	case 1:
		m := mvs[0]
		return func(fr *Frame) *Block { fr.regs[m.d] = m.s.get(fr); return tb }
	}
	return func(fr *Frame) *Block {
		var buf [8]Value
		tmp := buf[:0]
		for i := range mvs {
			tmp = append(tmp, mvs[i].s.get(fr))
		}
		for i := range mvs {
			fr.regs[mvs[i].d] = tmp[i]
		}
		return tb
	}
}

// ---- calling ----

func (w *Worker) call(fn *Func, args []Value, env []Value, caller *Frame) Value {
	return w.callD(fn, args, env, caller, nil)
}

func (w *Worker) callD(fn *Func, args []Value, env []Value, caller *Frame, deferOf *Frame) Value {
	if fn.intr != nil {
		w.hit(fn)
		return fn.intr(w, fn, args)
	}
	if fn.skip {
		return fn.results.zeroRes(fn.nres)
	}
	fn.once.Do(fn.compile)
	if fn.external {
		w.unsupported("external function " + fn.name)
	}
	fr := w.enter(fn, caller)
	fr.deferOf = deferOf
	copy(fr.regs, args)
	if len(env) > 0 {
		copy(fr.regs[fn.nparams:], env)
	}
	return w.run(fr)
}

// callOps is the fast path for static calls: arguments go straight into the callee's registers.
func (w *Worker) callOps(fn *Func, args []opnd, caller *Frame) Value {
	fn.once.Do(fn.compile)
	if fn.external {
		w.unsupported("external function " + fn.name)
	}
	fr := w.enter(fn, caller)
	for i := range args {
		fr.regs[i] = args[i].get(caller)
	}
	return w.run(fr)
}

func (w *Worker) enter(fn *Func, caller *Frame) *Frame {
	if w.depth > maxDepth {
		panic(abort{kind: "limit", msg: "call depth"})
	}
	w.hit(fn)
	if w.fsp+fn.nregs > len(w.frames) {
		w.frames = make([]Value, max(1<<16, fn.nregs*2))
		w.fsp = 0
	}
	var fr *Frame
	if fn.hasDefer {
		fr = &Frame{}
	} else {
		for w.depth >= len(w.frPool) {
			w.frPool = append(w.frPool, &Frame{})
		}
		fr = w.frPool[w.depth]
	}
	base := w.fsp
	*fr = Frame{w: w, fn: fn, caller: caller, base: base, arena: w.frames, regs: w.frames[base : base+fn.nregs : base+fn.nregs]}
	w.fsp = base + fn.nregs
	w.depth++
	w.callstk = append(w.callstk, fn)
	return fr
}

func (w *Worker) run(fr *Frame) Value {
	fn := fr.fn
	if fn.hasDefer || fn.recover != nil {
		w.runDeferFrame(fr)
	} else {
		w.runBlocks(fr, fn.entry)
	}
	w.frames = fr.arena
	w.fsp = fr.base
	w.depth--
	w.callstk = w.callstk[:len(w.callstk)-1]
	return fr.result
}

func (t *RType) zeroRes(n int) Value {
	if n == 0 {
		return Value{}
	}
	return t.zero()
}

func (w *Worker) hit(fn *Func) {
	if fn.idx >= len(w.hits) {
		n := make([]uint32, fn.idx+1024)
		copy(n, w.hits)
		w.hits = n
	}
	w.hits[fn.idx]++
}

func (w *Worker) runBlocks(fr *Frame, b *Block) {
	for b != nil {
		for _, op := range b.ops {
			op(fr)
		}
		w.steps += b.n
		if w.steps > w.nextCheck {
			w.checkLimits()
		}
		b = b.term(fr)
	}
}

const checkEvery = 1 << 20

// memLimit is the heap size above which long paths are given up.
const memLimit = 14 << 30

func (w *Worker) checkLimits() {
	w.nextCheck = w.steps + checkEvery
	if w.steps > atomic.LoadInt64(&w.e.maxSteps) {
		panic(abort{kind: "limit", msg: "step bound: " + w.stackString()})
	}
	if w.steps > 8*checkEvery {
		sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		metrics.Read(sample)
		if sample[0].Value.Uint64() > memLimit {
			// Part of it may be garbage of other paths.
			w.e.gc.Lock()
			defer w.e.gc.Unlock()
			runtime.GC()
			metrics.Read(sample)
			if sample[0].Value.Uint64() > memLimit/2 {
				panic(abort{kind: "limit", msg: "memory bound: " + w.stackString()})
			}
		}
	}
}

func (w *Worker) runDeferFrame(fr *Frame) {
	depth, stk, fsp, arena := w.depth, len(w.callstk), w.fsp, w.frames
	func() {
		defer func() {
			if r := recover(); r != nil {
				gp, ok := r.(*goPanic)
				if !ok {
					panic(r)
				}
				w.depth, w.callstk, w.fsp, w.frames = depth, w.callstk[:stk], fsp, arena
				fr.panicking = true
				fr.pval = gp
			}
		}()
		w.runBlocks(fr, fr.fn.entry)
	}()
	if fr.panicking {
		w.runDefers(fr)
		if fr.panicking {
			panic(fr.pval)
		}
		if fr.fn.recover != nil {
			w.runBlocks(fr, fr.fn.recover)
		} else {
			fr.result = fr.fn.results.zeroRes(fr.fn.nres)
		}
	}
}

func (w *Worker) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth, stk, fsp, arena := w.depth, len(w.callstk), w.fsp, w.frames
		func() {
			defer func() {
				if r := recover(); r != nil {
					gp, ok := r.(*goPanic)
					if !ok {
						panic(r)
					}
					w.depth, w.callstk, w.fsp, w.frames = depth, w.callstk[:stk], fsp, arena
					fr.panicking = true
					fr.pval = gp
				}
			}()
			d()
		}()
	}
	if fr.panicking {
		return
	}
}

// callValue calls a func value.
func (w *Worker) callValue(fv Value, args []Value, caller *Frame) Value {
	switch f := fv.O.(type) {
	case *Func:
		return w.call(f, args, nil, caller)
	case *Closure:
		if f.Nat != nil {
			return f.Nat(w, args)
		}
		return w.call(f.Fn, args, f.Env, caller)
	case nil:
		w.goPanic("invalid memory address or nil pointer dereference")
	}
	panic(abort{kind: "internal", msg: fmt.Sprintf("call of %T", fv.O)})
}

func (w *Worker) callValueD(fv Value, args []Value, caller *Frame, deferOf *Frame) Value {
	switch f := fv.O.(type) {
	case *Func:
		return w.callD(f, args, nil, caller, deferOf)
	case *Closure:
		if f.Nat != nil {
			return f.Nat(w, args)
		}
		return w.callD(f.Fn, args, f.Env, caller, deferOf)
	}
	return w.callValue(fv, args, caller)
}

// method finds the implementation of an interface method for a dynamic type.
func (p *Prog) method(t *RType, m *types.Func) *Func {
	key := m.Id()
	if x, ok := t.mcache.Load(key); ok {
		return x.(*Func)
	}
	f := p.ssa.LookupMethod(t.T, m.Pkg(), m.Name())
	if f == nil {
		panic(abort{kind: "internal", msg: "no method " + m.Name() + " on " + t.String()})
	}
	fn := p.fn(f)
	t.mcache.Store(key, fn)
	return fn
}

// methodByName finds an exported method; nil if absent.
func (p *Prog) methodByName(t *RType, name string) *Func {
	key := "#" + name
	if x, ok := t.mcache.Load(key); ok {
		f, _ := x.(*Func)
		return f
	}
	sel := p.ssa.MethodSets.MethodSet(t.T).Lookup(nil, name)
	if sel == nil {
		t.mcache.Store(key, (*Func)(nil))
		return nil
	}
	f := p.ssa.MethodValue(sel)
	if f == nil {
		t.mcache.Store(key, (*Func)(nil))
		return nil
	}
	fn := p.fn(f)
	t.mcache.Store(key, fn)
	return fn
}

func (w *Worker) nilDeref() { w.goPanic("invalid memory address or nil pointer dereference") }

// load reads *p for a pointer to elem type t.
func (w *Worker) load(t *RType, p Value) Value {
	switch x := p.O.(type) {
	case *Value:
		return *x
	case *Struct:
		return t.copy(p)
	case *Array:
		if x.Sym != nil {
			w.materialise(x)
		}
		return t.copy(p)
	case nil:
		w.nilDeref()
	}
	panic(abort{kind: "unsupported", msg: fmt.Sprintf("load from %T in %s", p.O, w.stackString())})
}

// store writes *p = v.
func (w *Worker) store(t *RType, p, v Value) {
	switch x := p.O.(type) {
	case *Value:
		if w.journal {
			w.jcells = append(w.jcells, cellSnap{x, *x})
		}
		*x = v
		return
	case *Struct:
		s, ok := v.O.(*Struct)
		if !ok {
			panic(abort{kind: "unsupported", msg: fmt.Sprintf("store %T to struct in %s", v.O, w.stackString())})
		}
		w.storeStruct(t, x, s)
		return
	case *Array:
		a := v.O.(*Array)
		for i := range x.E {
			w.storeElem(t.elem, &x.E[i], a.E[i])
		}
		return
	case nil:
		w.nilDeref()
	}
	panic(abort{kind: "unsupported", msg: fmt.Sprintf("store to %T", p.O)})
}

func (w *Worker) storeStruct(t *RType, dst, src *Struct) {
	if dst == src {
		return
	}
	if len(t.fields) != len(dst.F) || len(src.F) != len(dst.F) {
		panic(abort{kind: "unsupported", msg: "struct layout mismatch storing " + t.String() + " in " + w.stackString()})
	}
	for i, f := range t.fields {
		w.storeElem(f, &dst.F[i], src.F[i])
	}
}

// storeElem assigns to a field/element slot that may hold a nested aggregate.
func (w *Worker) storeElem(t *RType, slot *Value, v Value) {
	switch t.k {
	case kStruct:
		w.storeStruct(t, slot.O.(*Struct), v.O.(*Struct))
	case kArray:
		d, s := slot.O.(*Array), v.O.(*Array)
		for i := range d.E {
			w.storeElem(t.elem, &d.E[i], s.E[i])
		}
	default:
		w.set(slot, v)
	}
}

// slotPtr returns the pointer to a slot holding type t.
func slotPtr(t *RType, slot *Value) Value {
	if t.k == kStruct || t.k == kArray {
		return Value{O: slot.O}
	}
	return Value{O: slot}
}

// loadSlot reads a slot of an aggregate in memory as an r-value.
func loadSlot(t *RType, slot *Value) Value {
	if t.k == kStruct || t.k == kArray {
		return t.copy(*slot)
	}
	return *slot
}

const symFull = uint64(1)<<63 - 1

func (w *Worker) materialise(a *Array) {
	s := w.concreteStr(Value{O: a.Sym.S})
	a.Sym = nil
	a.E = make([]Value, len(s))
	for i := 0; i < len(s); i++ {
		a.E[i] = Value{N: uint64(s[i])}
	}
}

// fix normalises slices whose length was symbolic.
func (w *Worker) fix(v Value) Value {
	if v.N == symFull && v.O != nil {
		a := v.O.(*Array)
		if a.Sym != nil {
			w.materialise(a)
		}
		return mkSlice(a, 0, len(a.E), len(a.E))
	}
	return v
}

func (w *Worker) elems(v Value) []Value { return w.fix(v).elems() }

// bytesValue returns the text of a []byte as a string value.
func (w *Worker) bytesToStr(v Value) Value {
	if v.O == nil {
		return Value{}
	}
	if v.N == symFull {
		a := v.O.(*Array)
		if a.Sym != nil {
			return Value{O: a.Sym.S}
		}
		v = w.fix(v)
	}
	es := v.elems()
	b := make([]byte, len(es))
	for i, e := range es {
		b[i] = byte(w.conc(w.p.tByte, e))
	}
	return vStr(string(b))
}

func (w *Worker) strToBytes(v Value) Value {
	switch s := v.O.(type) {
	case nil:
		return mkSlice(&Array{}, 0, 0, 0)
	case string:
		a := &Array{E: make([]Value, len(s))}
		for i := 0; i < len(s); i++ {
			a.E[i] = Value{N: uint64(s[i])}
		}
		return mkSlice(a, 0, len(s), len(s))
	case *SymStr:
		return Value{symFull, &Array{Sym: &SymBytes{s}}}
	}
	panic("strToBytes")
}

// conc returns the concrete integer of a value (forking if symbolic).
func (w *Worker) conc(t *RType, v Value) uint64 {
	if v.O == nil {
		return v.N
	}
	if tm, ok := v.O.(*Term); ok {
		n := w.concretize(tm)
		if t.k == kInt {
			return uint64(sext(n, t.w))
		}
		return n
	}
	panic(abort{kind: "internal", msg: fmt.Sprintf("conc of %T", v.O)})
}

func (w *Worker) concInt(v Value) int { return int(w.conc(w.p.tInt, v)) }

func (c *compiler) instr(in ssa.Instruction) Op {
	p := c.p
	switch x := in.(type) {
	case *ssa.Alloc:
		t := p.types.get(x.Type().Underlying().(*types.Pointer).Elem())
		d := c.dst(x)
		switch t.k {
		case kStruct:
			return func(fr *Frame) { fr.regs[d] = Value{O: t.newStruct()} }
		case kArray:
			return func(fr *Frame) { fr.regs[d] = Value{O: t.newArray()} }
		}
		return func(fr *Frame) { fr.regs[d] = Value{O: new(Value)} }
	case *ssa.BinOp:
		return c.binop(x)
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.Call:
		return c.call(x)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var s opnd
		if ci, ok := in.(*ssa.ChangeInterface); ok {
			s = c.op(ci.X)
		} else {
			s = c.op(in.(*ssa.ChangeType).X)
		}
		d := c.dst(in.(ssa.Value))
		return func(fr *Frame) { fr.regs[d] = s.get(fr) }
	case *ssa.Convert:
		s := c.op(x.X)
		d := c.dst(x)
		ft, tt := p.types.get(x.X.Type()), p.types.get(x.Type())
		return func(fr *Frame) { fr.regs[d] = fr.w.convert(ft, tt, s.get(fr)) }
	case *ssa.MultiConvert:
		s := c.op(x.X)
		d := c.dst(x)
		ft, tt := p.types.get(x.X.Type()), p.types.get(x.Type())
		return func(fr *Frame) { fr.regs[d] = fr.w.convert(ft, tt, s.get(fr)) }
	case *ssa.Extract:
		s := c.op(x.Tuple)
		d := c.dst(x)
		i := x.Index
		return func(fr *Frame) { fr.regs[d] = s.get(fr).O.(Tuple)[i] }
	case *ssa.Field:
		s := c.op(x.X)
		d := c.dst(x)
		i := x.Field
		return func(fr *Frame) { fr.regs[d] = s.get(fr).O.(*Struct).F[i] }
	case *ssa.FieldAddr:
		s := c.op(x.X)
		d := c.dst(x)
		i := x.Field
		st := p.types.get(x.X.Type().Underlying().(*types.Pointer).Elem())
		ft := st.fields[i]
		if ft.k == kStruct || ft.k == kArray {
			return func(fr *Frame) {
				o, ok := s.get(fr).O.(*Struct)
				if !ok {
					fr.w.nilDeref()
				}
				fr.regs[d] = Value{O: o.F[i].O}
			}
		}
		return func(fr *Frame) {
			v := s.get(fr)
			o, ok := v.O.(*Struct)
			if !ok {
				if v.O != nil {
					fr.w.unsupported(fmt.Sprintf("field address of %T", v.O))
				}
				fr.w.nilDeref()
			}
			fr.regs[d] = Value{O: &o.F[i]}
		}
	case *ssa.Index:
		s := c.op(x.X)
		ix := c.op(x.Index)
		d := c.dst(x)
		it := p.types.get(x.Index.Type())
		xt := p.types.get(x.X.Type())
		if xt.k == kString {
			return func(fr *Frame) {
				w := fr.w
				str := w.concreteStr(s.get(fr))
				i := w.index(it, ix.get(fr), len(str))
				fr.regs[d] = Value{N: uint64(str[i])}
			}
		}
		return func(fr *Frame) {
			a := s.get(fr).O.(*Array)
			fr.regs[d] = fr.w.readElem(xt.elem, a.E, it, ix.get(fr))
		}
	case *ssa.IndexAddr:
		s := c.op(x.X)
		ix := c.op(x.Index)
		d := c.dst(x)
		it := p.types.get(x.Index.Type())
		xt := p.types.get(x.X.Type())
		if xt.k == kSlice {
			et := xt.elem
			return func(fr *Frame) {
				w := fr.w
				sv := s.get(fr)
				if sv.N == symFull {
					sv = w.fix(sv)
				}
				iv := ix.get(fr)
				var i int
				if iv.O == nil {
					i = int(iv.N)
					if uint(i) >= uint(sv.sLen()) {
						w.goPanic(fmt.Sprintf("index out of range [%d] with length %d", i, sv.sLen()))
					}
				} else {
					i = w.index(it, iv, sv.sLen())
				}
				fr.regs[d] = slotPtr(et, &sv.O.(*Array).E[sv.sOff()+i])
			}
		}
		et := xt.elem.elem
		return func(fr *Frame) {
			a, ok := s.get(fr).O.(*Array)
			if !ok {
				fr.w.nilDeref()
			}
			i := fr.w.index(it, ix.get(fr), len(a.E))
			fr.regs[d] = slotPtr(et, &a.E[i])
		}
	case *ssa.Lookup:
		s := c.op(x.X)
		k := c.op(x.Index)
		d := c.dst(x)
		xt := p.types.get(x.X.Type())
		if xt.k == kString {
			it := p.types.get(x.Index.Type())
			return func(fr *Frame) {
				w := fr.w
				str := w.concreteStr(s.get(fr))
				i := w.index(it, k.get(fr), len(str))
				fr.regs[d] = Value{N: uint64(str[i])}
			}
		}
		et := xt.elem
		ok := x.CommaOk
		return func(fr *Frame) {
			m, _ := s.get(fr).O.(*Map)
			i := fr.w.mapFind(m, k.get(fr))
			var v Value
			if i >= 0 {
				v = m.ents[i].v
			} else {
				v = et.zero()
			}
			if ok {
				fr.regs[d] = Value{O: Tuple{v, vBool(i >= 0)}}
			} else {
				fr.regs[d] = v
			}
		}
	case *ssa.MakeChan:
		d := c.dst(x)
		n := c.op(x.Size)
		return func(fr *Frame) { fr.regs[d] = Value{O: &Chan{cap: fr.w.concInt(n.get(fr))}} }
	case *ssa.MakeClosure:
		d := c.dst(x)
		fn := p.fn(x.Fn.(*ssa.Function))
		bs := make([]opnd, len(x.Bindings))
		for i, b := range x.Bindings {
			bs[i] = c.op(b)
		}
		return func(fr *Frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.regs[d] = Value{O: &Closure{Fn: fn, Env: env}}
		}
	case *ssa.MakeInterface:
		s := c.op(x.X)
		d := c.dst(x)
		t := p.types.get(x.X.Type())
		return func(fr *Frame) { fr.regs[d] = Value{O: &Iface{t, s.get(fr)}} }
	case *ssa.MakeMap:
		d := c.dst(x)
		t := p.types.get(x.Type())
		return func(fr *Frame) {
			m := newMap(t)
			m.base = false
			fr.regs[d] = Value{O: m}
		}
	case *ssa.MakeSlice:
		d := c.dst(x)
		t := p.types.get(x.Type())
		l, cp := c.op(x.Len), c.op(x.Cap)
		return func(fr *Frame) {
			w := fr.w
			n, k := w.concInt(l.get(fr)), w.concInt(cp.get(fr))
			if n < 0 || n > 1<<40 {
				w.goPanic("makeslice: len out of range")
			}
			if k < n || k > 1<<40 {
				w.goPanic("makeslice: cap out of range")
			}
			fr.regs[d] = makeSlice(t.elem, n, k)
		}
	case *ssa.MapUpdate:
		m, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		return func(fr *Frame) {
			mm, ok := m.get(fr).O.(*Map)
			if !ok {
				fr.w.panicMsg("assignment to entry in nil map")
			}
			fr.w.mapSet(mm, k.get(fr), v.get(fr))
		}
	case *ssa.Next:
		return c.next(x)
	case *ssa.Range:
		s := c.op(x.X)
		d := c.dst(x)
		isStr := p.types.get(x.X.Type()).k == kString
		return func(fr *Frame) {
			v := s.get(fr)
			if isStr {
				fr.regs[d] = Value{O: &strIter{s: fr.w.concreteStr(v)}}
			} else {
				m, _ := v.O.(*Map)
				fr.regs[d] = Value{O: fr.w.mapIter(m)}
			}
		}
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.SliceToArrayPointer:
		s := c.op(x.X)
		d := c.dst(x)
		at := p.types.get(x.Type()).elem
		return func(fr *Frame) {
			v := fr.w.fix(s.get(fr))
			if v.sLen() < at.n {
				fr.w.goPanic("cannot convert slice to array pointer: length mismatch")
			}
			if v.O == nil {
				fr.regs[d] = Value{}
				return
			}
			a := v.O.(*Array)
			o := v.sOff()
			fr.regs[d] = Value{O: &Array{E: a.E[o : o+at.n : o+at.n]}}
		}
	case *ssa.Store:
		a, v := c.op(x.Addr), c.op(x.Val)
		t := p.types.get(x.Val.Type())
		return func(fr *Frame) {
			pv := a.get(fr)
			if cell, ok := pv.O.(*Value); ok {
				w := fr.w
				if w.journal {
					w.jcells = append(w.jcells, cellSnap{cell, *cell})
				}
				*cell = v.get(fr)
				return
			}
			fr.w.store(t, pv, v.get(fr))
		}
	case *ssa.TypeAssert:
		return c.typeAssert(x)
	case *ssa.Defer:
		return c.deferInstr(x)
	case *ssa.RunDefers:
		return func(fr *Frame) {
			fr.w.runDefers(fr)
			if fr.panicking {
				pv := fr.pval
				fr.panicking = false
				panic(pv)
			}
		}
	case *ssa.Go:
		return c.goInstr(x)
	case *ssa.Send:
		ch, v := c.op(x.Chan), c.op(x.X)
		return func(fr *Frame) { fr.w.chanSend(ch.get(fr), v.get(fr)) }
	case *ssa.Select:
		return c.selectInstr(x)
	}
	panic(fmt.Sprintf("instr %T in %s", in, c.fn.name))
}

func makeSlice(et *RType, n, k int) Value {
	if k >= lim21 {
		panic(abort{kind: "unsupported", msg: "slice too large"})
	}
	a := &Array{E: make([]Value, k)}
	if et.k == kStruct || et.k == kArray {
		for i := range a.E {
			a.E[i] = et.zero()
		}
	}
	return mkSlice(a, 0, n, k)
}

func (w *Worker) panicMsg(msg string) {
	// plain runtime error (not prefixed)
	w.goPanic(msg)
}

// index bounds-checks and concretises an index.
func (w *Worker) index(t *RType, v Value, n int) int {
	if v.O == nil {
		i := int(v.N)
		if t.k == kUint && t.w == 64 && v.N > math.MaxInt64 || i < 0 || i >= n {
			w.goPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return i
	}
	w.inRange(t, v, n)
	return int(w.concretize(v.O.(*Term)))
}

// inRange forks on an index being out of range (and panics there).
func (w *Worker) inRange(t *RType, v Value, n int) {
	tm := v.O.(*Term)
	var ok *Term
	if tm.w < 63 && uint64(n) > mask(tm.w) && t.k == kUint {
		return
	}
	nn := uint64(n)
	if nn > mask(tm.w)>>1 {
		nn = mask(tm.w) >> 1
	}
	ok = w.pool.bin(TUlt, tm, w.pool.konst(nn, tm.w))
	if !w.branch(ok) {
		w.goPanic(fmt.Sprintf("index out of range with length %d", n))
	}
}

// readElem reads an element of a constant-size region; symbolic indices of scalar data become ite chains.
func (w *Worker) readElem(et *RType, es []Value, it *RType, iv Value) Value {
	if iv.O == nil {
		i := w.index(it, iv, len(es))
		return es[i]
	}
	w.inRange(it, iv, len(es))
	if (et.k == kInt || et.k == kUint || et.k == kBool) && len(es) <= 64 && len(es) > 0 {
		tm := iv.O.(*Term)
		acc := w.toTerm(et, es[len(es)-1])
		for i := len(es) - 2; i >= 0; i-- {
			acc = w.pool.ite(w.pool.eq(tm, w.pool.konst(uint64(i), tm.w)), w.toTerm(et, es[i]), acc)
		}
		return w.scalar(et, acc)
	}
	return es[int(w.concretize(iv.O.(*Term)))]
}

// scalar turns a term into a Value of scalar type t.
func (w *Worker) scalar(t *RType, tm *Term) Value {
	if tm.isConst() {
		if t.k == kInt {
			return Value{N: uint64(sext(tm.n, tm.w))}
		}
		return Value{N: tm.n}
	}
	return Value{O: tm}
}

// ---- iterators ----

type strIter struct {
	s string
	i int
}
type mapIterT struct {
	m   *Map
	i   int
	rev bool
}

func (w *Worker) mapIter(m *Map) *mapIterT {
	if w.mapRev && m != nil {
		return &mapIterT{m: m, i: len(m.ents) - 1, rev: true}
	}
	return &mapIterT{m: m}
}

func (c *compiler) next(x *ssa.Next) Op {
	s := c.op(x.Iter)
	d := c.dst(x)
	tup := c.p.types.get(x.Type())
	if x.IsString {
		return func(fr *Frame) {
			it := s.get(fr).O.(*strIter)
			if it.i >= len(it.s) {
				fr.regs[d] = Value{O: Tuple{vBool(false), {}, {}}}
				return
			}
			for i, r := range it.s[it.i:] {
				n := len(string(r))
				if r == 0xFFFD {
					// either a real U+FFFD (3 bytes) or an invalid byte
					if len(it.s)-it.i < 3 || it.s[it.i:it.i+3] != "\uFFFD" {
						n = 1
					}
				}
				fr.regs[d] = Value{O: Tuple{vBool(true), vInt(it.i + i), Value{N: uint64(int64(r))}}}
				it.i += n
				break
			}
		}
	}
	return func(fr *Frame) {
		it := s.get(fr).O.(*mapIterT)
		if it.rev {
			for it.i >= 0 {
				if it.i >= len(it.m.ents) {
					it.i = len(it.m.ents) - 1
					continue
				}
				e := &it.m.ents[it.i]
				it.i--
				if e.alive {
					fr.regs[d] = Value{O: Tuple{vBool(true), e.k, e.v}}
					return
				}
			}
		} else if it.m != nil {
			for it.i < len(it.m.ents) {
				e := &it.m.ents[it.i]
				it.i++
				if e.alive {
					fr.regs[d] = Value{O: Tuple{vBool(true), e.k, e.v}}
					return
				}
			}
		}
		var k, v Value
		if len(tup.fields) > 2 {
			k, v = tup.fields[1].zeroSafe(), tup.fields[2].zeroSafe()
		}
		fr.regs[d] = Value{O: Tuple{vBool(false), k, v}}
	}
}

func (t *RType) zeroSafe() Value {
	if t.k == kOther {
		return Value{}
	}
	return t.zero()
}

func (c *compiler) slice(x *ssa.Slice) Op {
	s := c.op(x.X)
	d := c.dst(x)
	xt := c.p.types.get(x.X.Type())
	var lo, hi, mx *opnd
	if x.Low != nil {
		o := c.op(x.Low)
		lo = &o
	}
	if x.High != nil {
		o := c.op(x.High)
		hi = &o
	}
	if x.Max != nil {
		o := c.op(x.Max)
		mx = &o
	}
	return func(fr *Frame) {
		w := fr.w
		v := s.get(fr)
		if xt.k == kString {
			l := 0
			if lo != nil {
				l = w.concInt(lo.get(fr))
			}
			if l == 0 && hi == nil {
				fr.regs[d] = v
				return
			}
			str := w.concreteStr(v)
			h := len(str)
			if hi != nil {
				h = w.concInt(hi.get(fr))
			}
			if l < 0 || h < l || h > len(str) {
				w.goPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, len(str)))
			}
			fr.regs[d] = vStr(str[l:h])
			return
		}
		var a *Array
		off, ln, cp := 0, 0, 0
		if xt.k == kSlice {
			v = w.fix(v)
			if v.O != nil {
				a = v.O.(*Array)
				off, ln, cp = v.sOff(), v.sLen(), v.sCap()
			}
		} else { // pointer to array
			aa, ok := v.O.(*Array)
			if !ok {
				w.nilDeref()
			}
			a = aa
			ln, cp = len(a.E), len(a.E)
		}
		l, h, m := 0, ln, cp
		if lo != nil {
			l = w.concInt(lo.get(fr))
		}
		if hi != nil {
			h = w.concInt(hi.get(fr))
		}
		if mx != nil {
			m = w.concInt(mx.get(fr))
		}
		if l < 0 || h < l || m < h || m > cp {
			w.goPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, cp))
		}
		if a == nil {
			fr.regs[d] = Value{}
			return
		}
		fr.regs[d] = mkSlice(a, off+l, h-l, m-l)
	}
}

func (p *Prog) implements(t *RType, it *RType) bool {
	if x, ok := t.ismemo.Load(it); ok {
		return x.(bool)
	}
	r := types.Implements(t.T, it.T.Underlying().(*types.Interface))
	t.ismemo.Store(it, r)
	return r
}

func (c *compiler) typeAssert(x *ssa.TypeAssert) Op {
	s := c.op(x.X)
	d := c.dst(x)
	at := c.p.types.get(x.AssertedType)
	isI := at.k == kIface
	if _, isTP := x.AssertedType.(*types.TypeParam); isTP {
		isI = false
	}
	return func(fr *Frame) {
		w := fr.w
		v := s.get(fr)
		ok := false
		var res Value
		if v.O != nil {
			i := v.O.(*Iface)
			if isI {
				if w.p.implements(i.T, at) {
					ok, res = true, v
				}
			} else if i.T == at {
				ok, res = true, i.V
			}
		}
		if x.CommaOk {
			if !ok {
				res = at.zero()
			}
			fr.regs[d] = Value{O: Tuple{res, vBool(ok)}}
			return
		}
		if !ok {
			dyn := "nil"
			if v.O != nil {
				dyn = v.O.(*Iface).T.String()
			}
			w.goPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", dyn, at))
		}
		fr.regs[d] = res
	}
}

// prepCall resolves callee and arguments.
func (c *compiler) prepCall(cc *ssa.CallCommon) func(fr *Frame) (Value, []Value) {
	args := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.op(a)
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		m := cc.Method
		return func(fr *Frame) (Value, []Value) {
			v := recv.get(fr)
			if v.O == nil {
				fr.w.nilDeref()
			}
			i := v.O.(*Iface)
			fn := fr.w.p.method(i.T, m)
			as := make([]Value, len(args)+1)
			as[0] = i.V
			for k := range args {
				as[k+1] = args[k].get(fr)
			}
			return Value{O: fn}, as
		}
	}
	f := c.op(cc.Value)
	return func(fr *Frame) (Value, []Value) {
		as := make([]Value, len(args))
		for k := range args {
			as[k] = args[k].get(fr)
		}
		return f.get(fr), as
	}
}

func (c *compiler) call(x *ssa.Call) Op {
	d := c.dst(x)
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		return c.builtin(b, &x.Call, d, x.Type())
	}
	if sf := x.Call.StaticCallee(); sf != nil {
		if _, isClosure := x.Call.Value.(*ssa.MakeClosure); !isClosure {
			fn := c.p.fn(sf)
			args := make([]opnd, len(x.Call.Args))
			for i, a := range x.Call.Args {
				args[i] = c.op(a)
			}
			n := len(args)
			return func(fr *Frame) {
				if fn.intr == nil && !fn.skip {
					fr.regs[d] = fr.w.callOps(fn, args, fr)
					return
				}
				as := make([]Value, n)
				for k := range args {
					as[k] = args[k].get(fr)
				}
				fr.regs[d] = fr.w.call(fn, as, nil, fr)
			}
		}
	}
	prep := c.prepCall(&x.Call)
	return func(fr *Frame) {
		f, as := prep(fr)
		fr.regs[d] = fr.w.callValue(f, as, fr)
	}
}

func (c *compiler) deferInstr(x *ssa.Defer) Op {
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		args := make([]opnd, len(x.Call.Args))
		for i, a := range x.Call.Args {
			args[i] = c.op(a)
		}
		ts := make([]*RType, len(x.Call.Args))
		for i, a := range x.Call.Args {
			ts[i] = c.p.types.get(a.Type())
		}
		return func(fr *Frame) {
			as := make([]Value, len(args))
			for k := range args {
				as[k] = args[k].get(fr)
			}
			fr.defers = append(fr.defers, func() { fr.w.builtinCall(fr, b.Name(), ts, as, nil, fr) })
		}
	}
	prep := c.prepCall(&x.Call)
	return func(fr *Frame) {
		f, as := prep(fr)
		if f.O == nil {
			fr.w.nilDeref()
		}
		fr.defers = append(fr.defers, func() { fr.w.callValueD(f, as, fr, fr) })
	}
}

func (c *compiler) goInstr(x *ssa.Go) Op {
	if _, ok := x.Call.Value.(*ssa.Builtin); ok {
		return func(fr *Frame) { fr.w.unsupported("go builtin") }
	}
	prep := c.prepCall(&x.Call)
	return func(fr *Frame) {
		f, as := prep(fr)
		fr.w.spawn(f, as)
	}
}

// spawn models goroutines: they are run when the spawning code blocks or ends; here, immediately,
// unless they would block.
func (w *Worker) spawn(f Value, as []Value) {
	w.callValue(f, as, nil)
}

func (c *compiler) unop(x *ssa.UnOp) Op {
	s := c.op(x.X)
	d := c.dst(x)
	t := c.p.types.get(x.X.Type())
	switch x.Op {
	case token.MUL:
		et := t.elem
		if et.k != kStruct && et.k != kArray {
			return func(fr *Frame) {
				cell, ok := s.get(fr).O.(*Value)
				if !ok {
					v := s.get(fr)
					if v.O == nil {
						fr.w.nilDeref()
					}
					fr.w.unsupported(fmt.Sprintf("load through %T", v.O))
				}
				fr.regs[d] = *cell
			}
		}
		return func(fr *Frame) { fr.regs[d] = fr.w.load(et, s.get(fr)) }
	case token.NOT:
		return func(fr *Frame) { fr.regs[d] = fr.w.notV(s.get(fr)) }
	case token.SUB:
		return func(fr *Frame) {
			v := s.get(fr)
			switch t.k {
			case kFloat:
				fr.regs[d] = vFloat(-v.f())
			case kComplex:
				fr.regs[d] = Value{O: Complex{-cplx(v)}}
			default:
				if tm := v.term(); tm != nil {
					fr.regs[d] = Value{O: fr.w.pool.un(TNeg, t.w, tm)}
				} else {
					fr.regs[d] = Value{N: canon(t, -v.N)}
				}
			}
		}
	case token.XOR:
		return func(fr *Frame) {
			v := s.get(fr)
			if tm := v.term(); tm != nil {
				fr.regs[d] = Value{O: fr.w.pool.un(TBNot, t.w, tm)}
			} else {
				fr.regs[d] = Value{N: canon(t, ^v.N)}
			}
		}
	case token.ARROW:
		ok := x.CommaOk
		et := t.elem
		return func(fr *Frame) {
			v, got := fr.w.chanRecv(s.get(fr), et)
			if ok {
				fr.regs[d] = Value{O: Tuple{v, vBool(got)}}
			} else {
				fr.regs[d] = v
			}
		}
	}
	panic("unop " + x.Op.String())
}

func (c *compiler) binop(x *ssa.BinOp) Op {
	a, b := c.op(x.X), c.op(x.Y)
	d := c.dst(x)
	t := c.p.types.get(x.X.Type())
	yt := c.p.types.get(x.Y.Type())
	op := x.Op
	isInt := t.k == kInt || t.k == kUint
	if isInt {
		if t.w == 64 {
			switch op {
			case token.ADD:
				return func(fr *Frame) {
					x, y := a.get(fr), b.get(fr)
					if x.O == nil && y.O == nil {
						fr.regs[d] = Value{N: x.N + y.N}
						return
					}
					fr.regs[d] = fr.w.binop(op, t, yt, x, y)
				}
			case token.SUB:
				return func(fr *Frame) {
					x, y := a.get(fr), b.get(fr)
					if x.O == nil && y.O == nil {
						fr.regs[d] = Value{N: x.N - y.N}
						return
					}
					fr.regs[d] = fr.w.binop(op, t, yt, x, y)
				}
			}
		}
		switch op {
		case token.EQL:
			return func(fr *Frame) {
				x, y := a.get(fr), b.get(fr)
				if x.O == nil && y.O == nil {
					fr.regs[d] = Value{N: b2u(x.N == y.N)}
					return
				}
				fr.regs[d] = fr.w.binop(op, t, yt, x, y)
			}
		case token.LSS:
			if t.k == kInt {
				return func(fr *Frame) {
					x, y := a.get(fr), b.get(fr)
					if x.O == nil && y.O == nil {
						fr.regs[d] = Value{N: b2u(int64(x.N) < int64(y.N))}
						return
					}
					fr.regs[d] = fr.w.binop(op, t, yt, x, y)
				}
			}
		}
	}
	if op == token.EQL || op == token.NEQ {
		// comparisons against nil of slices/maps/funcs are covered by eq
		ct := t
		if t.k == kIface && yt.k != kIface {
			// mixed comparison: SSA converts, so this does not occur
			ct = t
		}
		if t.k == kUnsafe && yt.k != kUnsafe {
			ct = yt
		}
		if op == token.EQL {
			return func(fr *Frame) { fr.regs[d] = fr.w.eq(ct, a.get(fr), b.get(fr)) }
		}
		return func(fr *Frame) { fr.regs[d] = fr.w.notV(fr.w.eq(ct, a.get(fr), b.get(fr))) }
	}
	return func(fr *Frame) { fr.regs[d] = fr.w.binop(op, t, yt, a.get(fr), b.get(fr)) }
}

func (w *Worker) binop(op token.Token, t, yt *RType, x, y Value) Value {
	switch t.k {
	case kInt, kUint:
		return w.intop(op, t, yt, x, y)
	case kFloat:
		a, b := x.f(), y.f()
		var r float64
		switch op {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		case token.LSS:
			return vBool(a < b)
		case token.LEQ:
			return vBool(a <= b)
		case token.GTR:
			return vBool(a > b)
		case token.GEQ:
			return vBool(a >= b)
		case token.EQL:
			return vBool(a == b)
		case token.NEQ:
			return vBool(a != b)
		}
		if t.w == 32 {
			r = float64(float32(r))
		}
		return vFloat(r)
	case kComplex:
		a, b := cplx(x), cplx(y)
		switch op {
		case token.ADD:
			a += b
		case token.SUB:
			a -= b
		case token.MUL:
			a *= b
		case token.QUO:
			a /= b
		}
		return Value{O: Complex{a}}
	case kString:
		if op == token.ADD {
			return concatStr(x, y)
		}
		a, b := w.concreteStr(x), w.concreteStr(y)
		switch op {
		case token.LSS:
			return vBool(a < b)
		case token.LEQ:
			return vBool(a <= b)
		case token.GTR:
			return vBool(a > b)
		case token.GEQ:
			return vBool(a >= b)
		}
	case kBool:
		xt, yt := w.toTerm(t, x), w.toTerm(t, y)
		switch op {
		case token.AND, token.LAND:
			return w.boolVal(w.pool.and(xt, yt))
		case token.OR, token.LOR:
			return w.boolVal(w.pool.or(xt, yt))
		}
	}
	panic(abort{kind: "unsupported", msg: fmt.Sprintf("binop %v on %v in %s", op, t, w.stackString())})
}

func (w *Worker) intop(op token.Token, t, yt *RType, x, y Value) Value {
	signed := t.k == kInt
	if x.O == nil && y.O == nil {
		a, b := x.N, y.N
		switch op {
		case token.ADD:
			return Value{N: canon(t, a+b)}
		case token.SUB:
			return Value{N: canon(t, a-b)}
		case token.MUL:
			return Value{N: canon(t, a*b)}
		case token.QUO:
			if b == 0 {
				w.goPanic("integer divide by zero")
			}
			if signed {
				if int64(b) == -1 {
					return Value{N: canon(t, -a)}
				}
				return Value{N: canon(t, uint64(int64(a)/int64(b)))}
			}
			return Value{N: a / b}
		case token.REM:
			if b == 0 {
				w.goPanic("integer divide by zero")
			}
			if signed {
				if int64(b) == -1 {
					return Value{}
				}
				return Value{N: canon(t, uint64(int64(a)%int64(b)))}
			}
			return Value{N: a % b}
		case token.AND:
			return Value{N: a & b}
		case token.OR:
			return Value{N: a | b}
		case token.XOR:
			return Value{N: canon(t, a^b)}
		case token.AND_NOT:
			return Value{N: canon(t, a&^b)}
		case token.SHL, token.SHR:
			if yt.k == kInt && int64(b) < 0 {
				w.goPanic("negative shift amount")
			}
			if op == token.SHL {
				if b >= 64 {
					return Value{}
				}
				return Value{N: canon(t, a<<b)}
			}
			if signed {
				if b >= 64 {
					b = 63
				}
				return Value{N: uint64(int64(a) >> b)}
			}
			if b >= 64 {
				return Value{}
			}
			return Value{N: a >> b}
		case token.EQL:
			return vBool(a == b)
		case token.NEQ:
			return vBool(a != b)
		case token.LSS:
			if signed {
				return vBool(int64(a) < int64(b))
			}
			return vBool(a < b)
		case token.LEQ:
			if signed {
				return vBool(int64(a) <= int64(b))
			}
			return vBool(a <= b)
		case token.GTR:
			if signed {
				return vBool(int64(a) > int64(b))
			}
			return vBool(a > b)
		case token.GEQ:
			if signed {
				return vBool(int64(a) >= int64(b))
			}
			return vBool(a >= b)
		}
		panic("intop " + op.String())
	}
	p := w.pool
	a := w.toTerm(t, x)
	if op == token.SHL || op == token.SHR {
		o := TShl
		if op == token.SHR {
			o = TLShr
			if signed {
				o = TAShr
			}
		}
		b := w.toTerm(yt, y)
		if yt.k == kInt {
			if !b.isConst() {
				if w.branch(p.bin(TSlt, b, p.konst(0, b.w))) {
					w.goPanic("negative shift amount")
				}
			} else if sext(b.n, b.w) < 0 {
				w.goPanic("negative shift amount")
			}
		}
		var cnt *Term
		if b.w == t.w {
			cnt = b
		} else if b.w < t.w {
			cnt = p.un(TZExt, t.w, b)
		} else {
			// saturate
			lim := p.konst(uint64(t.w), b.w)
			cnt = p.un(TTrunc, t.w, p.ite(p.bin(TUlt, b, lim), b, lim))
		}
		return w.scalar(t, p.bin(o, a, cnt))
	}
	b := w.toTerm(yt, y)
	pick := func(s, u TOp) TOp {
		if signed {
			return s
		}
		return u
	}
	switch op {
	case token.ADD:
		return w.scalar(t, p.bin(TAdd, a, b))
	case token.SUB:
		return w.scalar(t, p.bin(TSub, a, b))
	case token.MUL:
		return w.scalar(t, p.bin(TMul, a, b))
	case token.QUO, token.REM:
		if w.branch(p.eq(b, p.konst(0, b.w))) {
			w.goPanic("integer divide by zero")
		}
		if op == token.QUO {
			return w.scalar(t, p.bin(pick(TSDiv, TUDiv), a, b))
		}
		return w.scalar(t, p.bin(pick(TSRem, TURem), a, b))
	case token.AND:
		return w.scalar(t, p.bin(TBAnd, a, b))
	case token.OR:
		return w.scalar(t, p.bin(TBOr, a, b))
	case token.XOR:
		return w.scalar(t, p.bin(TBXor, a, b))
	case token.AND_NOT:
		return w.scalar(t, p.bin(TBAnd, a, p.un(TBNot, b.w, b)))
	case token.EQL:
		return w.boolVal(p.eq(a, b))
	case token.NEQ:
		return w.boolVal(p.not(p.eq(a, b)))
	case token.LSS:
		return w.boolVal(p.bin(pick(TSlt, TUlt), a, b))
	case token.LEQ:
		return w.boolVal(p.bin(pick(TSle, TUle), a, b))
	case token.GTR:
		return w.boolVal(p.bin(pick(TSlt, TUlt), b, a))
	case token.GEQ:
		return w.boolVal(p.bin(pick(TSle, TUle), b, a))
	}
	panic("intop " + op.String())
}

func (w *Worker) convert(ft, tt *RType, v Value) Value {
	switch {
	case (ft.k == kInt || ft.k == kUint) && (tt.k == kInt || tt.k == kUint):
		if tm := v.term(); tm != nil {
			if tt.w == ft.w {
				return v
			}
			if tt.w < ft.w {
				return w.scalar(tt, w.pool.un(TTrunc, tt.w, tm))
			}
			if ft.k == kInt {
				return w.scalar(tt, w.pool.un(TSExt, tt.w, tm))
			}
			return w.scalar(tt, w.pool.un(TZExt, tt.w, tm))
		}
		return Value{N: canon(tt, v.N)}
	case (ft.k == kInt || ft.k == kUint) && tt.k == kFloat:
		n := w.conc(ft, v)
		var f float64
		if ft.k == kInt {
			f = float64(int64(n))
		} else {
			f = float64(n)
		}
		if tt.w == 32 {
			f = float64(float32(f))
		}
		return vFloat(f)
	case ft.k == kFloat && tt.k == kFloat:
		if tt.w == 32 {
			return vFloat(float64(float32(v.f())))
		}
		return v
	case ft.k == kFloat && tt.k == kInt:
		return Value{N: canon(tt, uint64(int64(v.f())))}
	case ft.k == kFloat && tt.k == kUint:
		return Value{N: canon(tt, uint64(v.f()))}
	case ft.k == kComplex && tt.k == kComplex:
		return v
	case (ft.k == kInt || ft.k == kUint) && tt.k == kString:
		n := int64(w.conc(ft, v))
		if n < 0 || n > 0x10ffff {
			n = 0xfffd
		}
		return vStr(string(rune(n)))
	case ft.k == kString && tt.k == kString:
		return v
	case ft.k == kString && tt.k == kSlice:
		if tt.elem.w == 8 {
			return w.strToBytes(v)
		}
		rs := []rune(w.concreteStr(v))
		a := &Array{E: make([]Value, len(rs))}
		for i, r := range rs {
			a.E[i] = Value{N: uint64(int64(r))}
		}
		return mkSlice(a, 0, len(rs), len(rs))
	case ft.k == kSlice && tt.k == kString:
		if ft.elem.w == 8 {
			return w.bytesToStr(v)
		}
		es := w.elems(v)
		rs := make([]rune, len(es))
		for i, e := range es {
			rs[i] = rune(w.conc(ft.elem, e))
		}
		return vStr(string(rs))
	case ft.k == kUnsafe || tt.k == kUnsafe:
		if tt.k == kUint || ft.k == kUint {
			w.unsupported("unsafe pointer arithmetic")
		}
		return v
	}
	if ft.k == tt.k {
		return v
	}
	panic(abort{kind: "unsupported", msg: fmt.Sprintf("convert %v to %v in %s", ft, tt, w.stackString())})
}

// ---- channels (single-threaded model) ----

type Chan struct {
	cap    int
	q      []Value
	closed bool
}

func (w *Worker) chanSend(c, v Value) {
	ch, ok := c.O.(*Chan)
	if !ok {
		panic(abort{kind: "unsupported", msg: "blocking send on nil channel"})
	}
	if ch.closed {
		w.goPanic("send on closed channel")
	}
	// unbuffered channels are modelled with an unbounded queue
	ch.q = append(ch.q, v)
}

func (w *Worker) chanRecv(c Value, et *RType) (Value, bool) {
	ch, ok := c.O.(*Chan)
	if ok && len(ch.q) > 0 {
		v := ch.q[0]
		ch.q = ch.q[1:]
		return v, true
	}
	if ok && ch.closed {
		return et.zero(), false
	}
	panic(abort{kind: "unsupported", msg: "blocking receive in " + w.stackString()})
}

func (c *compiler) selectInstr(x *ssa.Select) Op {
	type st struct {
		dir  types.ChanDir
		ch   opnd
		send opnd
		et   *RType
	}
	var sts []st
	for _, s := range x.States {
		e := st{dir: s.Dir, ch: c.op(s.Chan), et: c.p.types.get(s.Chan.Type()).elem}
		if s.Send != nil {
			e.send = c.op(s.Send)
		}
		sts = append(sts, e)
	}
	d := c.dst(x)
	nrecv := 0
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	return func(fr *Frame) {
		w := fr.w
		res := make(Tuple, 2+nrecv)
		ri := 0
		for i := range sts {
			s := &sts[i]
			if s.dir == types.RecvOnly {
				res[2+ri] = s.et.zero()
				ri++
			}
		}
		ri = 0
		for i := range sts {
			s := &sts[i]
			ch, _ := s.ch.get(fr).O.(*Chan)
			if s.dir == types.RecvOnly {
				if ch != nil && (len(ch.q) > 0 || ch.closed) {
					v, ok := w.chanRecv(Value{O: ch}, s.et)
					res[0] = vInt(i)
					res[1] = vBool(ok)
					res[2+ri] = v
					fr.regs[d] = Value{O: res}
					return
				}
				ri++
			} else if ch != nil && !ch.closed && len(ch.q) < ch.cap {
				w.chanSend(Value{O: ch}, s.send.get(fr))
				res[0] = vInt(i)
				fr.regs[d] = Value{O: res}
				return
			}
		}
		if x.Blocking {
			w.unsupported("blocking select")
		}
		res[0] = vInt(-1)
		fr.regs[d] = Value{O: res}
	}
}
