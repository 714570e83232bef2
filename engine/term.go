package main

import (
	"fmt"
	"math/bits"
)

// ---- symbolic terms: booleans (w==0) and bit-vectors (w in 8,16,32,64) ----

type TOp uint8

const (
	TVar TOp = iota
	TConst
	TNot
	TAnd
	TOr
	TEq
	TIte
	TAdd
	TSub
	TMul
	TSDiv
	TUDiv
	TSRem
	TURem
	TBAnd
	TBOr
	TBXor
	TBNot
	TNeg
	TShl
	TLShr
	TAShr
	TSlt
	TSle
	TUlt
	TUle
	TZExt // c = source width
	TSExt
	TTrunc
)

type Term struct {
	op   TOp
	w    uint8
	id   int32
	n    uint64 // constant (canonical zero-extended to w bits)
	a    [3]*Term
	name string
	// cached model evaluation
	mver int32
	mval uint64
	def  int32 // solver definition epoch
	lo   int64 // signed value range (w > 0)
	hi   int64
	enc  uint8    // solver encoding width, 0 = not computed
	sup  []uint64 // bit set of the variables it depends on
	vidx int32    // variable index (TVar)
}

// support is the set of variables a term depends on, as a bit set over variable indices.
func (t *Term) support() []uint64 {
	if t.sup != nil || t.op == TConst {
		return t.sup
	}
	var s []uint64
	if t.op == TVar {
		s = make([]uint64, t.vidx/64+1)
		s[t.vidx/64] |= 1 << uint(t.vidx%64)
	} else {
		for _, a := range t.a {
			if a == nil {
				continue
			}
			x := a.support()
			if len(x) > len(s) {
				n := make([]uint64, len(x))
				copy(n, s)
				s = n
			} else if s != nil && len(x) > 0 {
				s = append([]uint64(nil), s...)
			}
			for i := range x {
				s[i] |= x[i]
			}
		}
		if s == nil {
			s = []uint64{}
		}
	}
	t.sup = s
	return s
}

type termKey struct {
	op      TOp
	w       uint8
	n       uint64
	a, b, c *Term
}

type TermPool struct {
	tab  map[termKey]*Term
	next int32
	vars []*Term
}

func newTermPool() *TermPool { return &TermPool{tab: map[termKey]*Term{}} }

func (p *TermPool) mk(op TOp, w uint8, n uint64, a, b, c *Term) *Term {
	k := termKey{op, w, n, a, b, c}
	if t, ok := p.tab[k]; ok {
		return t
	}
	p.next++
	t := &Term{op: op, w: w, n: n, id: p.next, a: [3]*Term{a, b, c}}
	t.setRange()
	p.tab[k] = t
	return t
}

func (p *TermPool) variable(name string, w uint8) *Term {
	p.next++
	t := &Term{op: TVar, w: w, id: p.next, name: name, vidx: int32(len(p.vars))}
	t.setRange()
	p.vars = append(p.vars, t)
	return t
}

func mask(w uint8) uint64 {
	if w == 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w == 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (p *TermPool) konst(v uint64, w uint8) *Term { return p.mk(TConst, w, v&mask(w), nil, nil, nil) }
func (p *TermPool) bool(b bool) *Term {
	if b {
		return p.konst(1, 0)
	}
	return p.konst(0, 0)
}

func (t *Term) isConst() bool { return t.op == TConst }
func (t *Term) isTrue() bool  { return t.op == TConst && t.w == 0 && t.n == 1 }
func (t *Term) isFalse() bool { return t.op == TConst && t.w == 0 && t.n == 0 }

func minS(w uint8) int64 { return -1 << (w - 1) }
func maxS(w uint8) int64 { return int64(mask(w) >> 1) }

// setRange derives a signed interval containing every value of the term.
func (t *Term) setRange() {
	w := t.w
	if w == 0 {
		return
	}
	t.lo, t.hi = minS(w), maxS(w)
	set := func(lo, hi int64) {
		if lo >= t.lo && hi <= t.hi && lo <= hi {
			t.lo, t.hi = lo, hi
		}
	}
	a, b := t.a[0], t.a[1]
	const lim = int64(1) << 61
	small := func(x *Term) bool { return x.lo > -lim && x.hi < lim }
	switch t.op {
	case TConst:
		v := sext(t.n, w)
		t.lo, t.hi = v, v
	case TAdd:
		if small(a) && small(b) {
			set(a.lo+b.lo, a.hi+b.hi)
		}
	case TSub:
		if small(a) && small(b) {
			set(a.lo-b.hi, a.hi-b.lo)
		}
	case TNeg:
		if small(a) {
			set(-a.hi, -a.lo)
		}
	case TMul:
		const l2 = int64(1) << 30
		if a.lo > -l2 && a.hi < l2 && b.lo > -l2 && b.hi < l2 {
			x := []int64{a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}
			lo, hi := x[0], x[0]
			for _, v := range x {
				lo, hi = min(lo, v), max(hi, v)
			}
			set(lo, hi)
		}
	case TSExt:
		set(a.lo, a.hi)
	case TZExt:
		if a.lo >= 0 {
			set(a.lo, a.hi)
		} else {
			set(0, int64(mask(a.w)))
		}
	case TTrunc:
		set(a.lo, a.hi)
	case TIte:
		set(min(b.lo, t.a[2].lo), max(b.hi, t.a[2].hi))
	case TSRem:
		if b.lo == b.hi && b.lo > 0 {
			c := b.lo
			if a.lo >= 0 {
				set(0, min(a.hi, c-1))
			} else {
				set(max(a.lo, -(c-1)), min(max(a.hi, 0), c-1))
			}
		}
	case TSDiv:
		if b.lo == b.hi && b.lo > 0 {
			set(a.lo/b.lo, a.hi/b.lo)
		}
	case TURem:
		if b.lo == b.hi && b.lo > 0 {
			set(0, b.lo-1)
		}
	case TUDiv:
		if b.lo == b.hi && b.lo > 0 && a.lo >= 0 {
			set(a.lo/b.lo, a.hi/b.lo)
		}
	case TBAnd:
		if b.lo == b.hi && b.lo >= 0 {
			set(0, b.lo)
		} else if a.lo >= 0 && b.lo >= 0 {
			set(0, min(a.hi, b.hi))
		}
	case TLShr:
		if b.isConst() && b.n > 0 && b.n < uint64(w) {
			set(0, int64(mask(w)>>b.n))
		}
	case TAShr:
		if b.isConst() && b.n < uint64(w) {
			set(a.lo>>b.n, a.hi>>b.n)
		}
	}
}

// bitsFor is the signed width that holds the term's whole range.
func (t *Term) bitsFor() uint8 {
	n := 1
	for ; n < int(t.w); n++ {
		if t.lo >= minS(uint8(n)) && t.hi <= maxS(uint8(n)) {
			break
		}
	}
	return uint8(n)
}

func (p *TermPool) not(a *Term) *Term {
	if a.isConst() {
		return p.bool(a.n == 0)
	}
	if a.op == TNot {
		return a.a[0]
	}
	return p.mk(TNot, 0, 0, a, nil, nil)
}

func (p *TermPool) and(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return p.bool(false)
	}
	if a.isTrue() || a == b {
		return b
	}
	if b.isTrue() {
		return a
	}
	if (a.op == TNot && a.a[0] == b) || (b.op == TNot && b.a[0] == a) {
		return p.bool(false)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return p.mk(TAnd, 0, 0, a, b, nil)
}

func (p *TermPool) or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return p.bool(true)
	}
	if a.isFalse() || a == b {
		return b
	}
	if b.isFalse() {
		return a
	}
	if (a.op == TNot && a.a[0] == b) || (b.op == TNot && b.a[0] == a) {
		return p.bool(true)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return p.mk(TOr, 0, 0, a, b, nil)
}

func (p *TermPool) eq(a, b *Term) *Term {
	if a == b {
		return p.bool(true)
	}
	if a.isConst() && b.isConst() {
		return p.bool(a.n == b.n)
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.w > 0 && (a.hi < b.lo || b.hi < a.lo) {
		return p.bool(false)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return p.not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		// push equality with constants through invertible operations
		switch a.op {
		case TAdd:
			if a.a[1].isConst() {
				return p.eq(a.a[0], p.konst(b.n-a.a[1].n, a.w))
			}
		case TZExt:
			sw := a.a[0].w
			if b.n&^mask(sw) != 0 {
				return p.bool(false)
			}
			return p.eq(a.a[0], p.konst(b.n, sw))
		case TSExt:
			sw := a.a[0].w
			if uint64(sext(b.n&mask(sw), sw))&mask(a.w) != b.n {
				return p.bool(false)
			}
			return p.eq(a.a[0], p.konst(b.n, sw))
		case TIte:
			if a.a[1].isConst() && a.a[2].isConst() {
				return p.ite(a.a[0], p.bool(a.a[1].n == b.n), p.bool(a.a[2].n == b.n))
			}
		}
		return p.mk(TEq, 0, 0, a, b, nil)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return p.mk(TEq, 0, 0, a, b, nil)
}

func (p *TermPool) ite(c, a, b *Term) *Term {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a.w == 0 {
		if a.isTrue() {
			return p.or(c, b)
		}
		if a.isFalse() {
			return p.and(p.not(c), b)
		}
		if b.isTrue() {
			return p.or(p.not(c), a)
		}
		if b.isFalse() {
			return p.and(c, a)
		}
	}
	return p.mk(TIte, a.w, 0, c, a, b)
}

func evalOp(op TOp, w uint8, x, y uint64, sw uint8) uint64 {
	m := mask(w)
	switch op {
	case TAdd:
		return (x + y) & m
	case TSub:
		return (x - y) & m
	case TMul:
		return (x * y) & m
	case TSDiv:
		if y == 0 {
			if sext(x, w) < 0 {
				return 1
			}
			return m
		}
		sx, sy := sext(x, w), sext(y, w)
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case TUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case TSRem:
		if y == 0 {
			return x
		}
		sx, sy := sext(x, w), sext(y, w)
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case TURem:
		if y == 0 {
			return x
		}
		return x % y
	case TBAnd:
		return x & y
	case TBOr:
		return x | y
	case TBXor:
		return x ^ y
	case TBNot:
		return ^x & m
	case TNeg:
		return (-x) & m
	case TShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case TLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case TAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	case TSlt:
		return b2u(sext(x, sw) < sext(y, sw))
	case TSle:
		return b2u(sext(x, sw) <= sext(y, sw))
	case TUlt:
		return b2u(x < y)
	case TUle:
		return b2u(x <= y)
	case TZExt:
		return x
	case TSExt:
		return uint64(sext(x, sw)) & m
	case TTrunc:
		return x & m
	}
	panic("evalOp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// bin builds a bit-vector binary operation; comparison operators yield bool.
func (p *TermPool) bin(op TOp, a, b *Term) *Term {
	w := a.w
	rw := w
	if op == TSlt || op == TSle || op == TUlt || op == TUle {
		rw = 0
	}
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch op %d: %d %d", op, a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return p.konst(evalOp(op, rwOr(rw, w), a.n, b.n, w), rw)
	}
	switch op {
	case TAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.n == 0 {
			return a
		}
		if b.isConst() && a.op == TAdd && a.a[1].isConst() {
			return p.bin(TAdd, a.a[0], p.konst(a.a[1].n+b.n, w))
		}
		if b.isConst() && a.op == TIte && a.a[1].isConst() && a.a[2].isConst() {
			return p.ite(a.a[0], p.bin(op, a.a[1], b), p.bin(op, a.a[2], b))
		}
	case TSub:
		if a == b {
			return p.konst(0, w)
		}
		if b.isConst() {
			return p.bin(TAdd, a, p.konst(-b.n, w))
		}
		// (x+c)-(x+d) = c-d
		ax, ac := a, uint64(0)
		if a.op == TAdd && a.a[1].isConst() {
			ax, ac = a.a[0], a.a[1].n
		}
		bx, bc := b, uint64(0)
		if b.op == TAdd && b.a[1].isConst() {
			bx, bc = b.a[0], b.a[1].n
		}
		if ax == bx {
			return p.konst(ac-bc, w)
		}
		// (x+y)-x = y
		if a.op == TAdd && !a.a[1].isConst() {
			if a.a[0] == b {
				return a.a[1]
			}
			if a.a[1] == b {
				return a.a[0]
			}
		}
	case TMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.n == 0 {
				return b
			}
			if b.n == 1 {
				return a
			}
		}
	case TBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.n == 0 {
				return b
			}
			if b.n == mask(w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case TBOr, TBXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.n == 0 {
			return a
		}
		if a == b {
			if op == TBOr {
				return a
			}
			return p.konst(0, w)
		}
	case TShl, TLShr, TAShr:
		if b.isConst() && b.n == 0 {
			return a
		}
	case TSlt, TUlt:
		if a == b {
			return p.bool(false)
		}
		if op == TSlt || a.lo >= 0 && b.lo >= 0 {
			if a.hi < b.lo {
				return p.bool(true)
			}
			if a.lo >= b.hi {
				return p.bool(false)
			}
		}
	case TSle, TUle:
		if a == b {
			return p.bool(true)
		}
		if op == TSle || a.lo >= 0 && b.lo >= 0 {
			if a.hi <= b.lo {
				return p.bool(true)
			}
			if a.lo > b.hi {
				return p.bool(false)
			}
		}
	case TSDiv, TUDiv, TSRem, TURem:
		div := op == TSDiv || op == TUDiv
		if b.isConst() && b.n == 1 {
			if div {
				return a
			}
			return p.konst(0, w)
		}
		if a.lo >= 0 && b.lo > 0 && a.hi < b.lo {
			if div {
				return p.konst(0, w)
			}
			return a
		}
		signedOK := op == TSDiv || op == TSRem || a.lo >= 0 && b.lo >= 0
		if nb := max(a.bitsFor(), b.bitsFor()) + 1; signedOK && nb < w {
			sop := TSDiv
			if !div {
				sop = TSRem
			}
			if b.lo > 0 || b.hi < 0 {
				return p.un(TSExt, w, p.mk(sop, nb, 0, p.narrow(a, nb), p.narrow(b, nb), nil))
			}
		}
	}
	return p.mk(op, rw, 0, a, b, nil)
}

// narrow re-expresses the low w bits of a term in a narrower circuit.
func (p *TermPool) narrow(t *Term, w uint8) *Term {
	if t.w <= w {
		if t.w == w {
			return t
		}
		return p.un(TSExt, w, t)
	}
	switch t.op {
	case TAdd, TSub, TMul, TBAnd, TBOr, TBXor:
		return p.bin(t.op, p.narrow(t.a[0], w), p.narrow(t.a[1], w))
	case TNeg, TBNot:
		return p.un(t.op, w, p.narrow(t.a[0], w))
	case TIte:
		return p.ite(t.a[0], p.narrow(t.a[1], w), p.narrow(t.a[2], w))
	case TSExt:
		if t.a[0].w <= w {
			return p.un(TSExt, w, t.a[0])
		}
		return p.narrow(t.a[0], w)
	case TZExt:
		if t.a[0].w <= w {
			return p.un(TZExt, w, t.a[0])
		}
		return p.narrow(t.a[0], w)
	}
	return p.un(TTrunc, w, t)
}

func rwOr(rw, w uint8) uint8 {
	if rw == 0 {
		return w
	}
	return rw
}

func (p *TermPool) un(op TOp, w uint8, a *Term) *Term {
	if a.isConst() {
		return p.konst(evalOp(op, w, a.n, 0, a.w), w)
	}
	if (op == TZExt || op == TSExt || op == TTrunc) && a.w == w {
		return a
	}
	if op == TTrunc && (a.op == TZExt || a.op == TSExt) {
		in := a.a[0]
		if in.w == w {
			return in
		}
		if in.w > w {
			return p.un(TTrunc, w, in)
		}
		return p.un(a.op, w, in)
	}
	return p.mk(op, w, 0, a, nil, nil)
}

// ---- model evaluation ----

type Model struct {
	ver  int32
	vals map[*Term]uint64
}

func (m *Model) eval(t *Term) uint64 {
	if t.op == TConst {
		return t.n
	}
	if t.mver == m.ver {
		return t.mval
	}
	var r uint64
	switch t.op {
	case TVar:
		r = m.vals[t] & mask(t.w)
	case TNot:
		r = 1 - m.eval(t.a[0])
	case TAnd:
		r = m.eval(t.a[0])
		if r != 0 {
			r = m.eval(t.a[1])
		}
	case TOr:
		r = m.eval(t.a[0])
		if r == 0 {
			r = m.eval(t.a[1])
		}
	case TEq:
		r = b2u(m.eval(t.a[0]) == m.eval(t.a[1]))
	case TIte:
		if m.eval(t.a[0]) != 0 {
			r = m.eval(t.a[1])
		} else {
			r = m.eval(t.a[2])
		}
	case TBNot, TNeg, TZExt, TSExt, TTrunc:
		r = evalOp(t.op, t.w, m.eval(t.a[0]), 0, t.a[0].w)
	default:
		r = evalOp(t.op, rwOr(t.w, t.a[0].w), m.eval(t.a[0]), m.eval(t.a[1]), t.a[0].w)
	}
	t.mver = m.ver
	t.mval = r
	return r
}

// ---- SMT-LIB printing ----

var smtOps = map[TOp]string{TNot: "not", TAnd: "and", TOr: "or", TEq: "=", TIte: "ite", TAdd: "bvadd", TSub: "bvsub",
	TMul: "bvmul", TSDiv: "bvsdiv", TUDiv: "bvudiv", TSRem: "bvsrem", TURem: "bvurem", TBAnd: "bvand", TBOr: "bvor",
	TBXor: "bvxor", TBNot: "bvnot", TNeg: "bvneg", TShl: "bvshl", TLShr: "bvlshr", TAShr: "bvashr", TSlt: "bvslt",
	TSle: "bvsle", TUlt: "bvult", TUle: "bvule"}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	switch t.op {
	case TConst:
		if t.w == 0 {
			if t.n == 1 {
				return "true"
			}
			return "false"
		}
		if t.w%4 != 0 {
			return fmt.Sprintf("(_ bv%d %d)", t.n, t.w)
		}
		return fmt.Sprintf("#x%0*x", int(t.w)/4, t.n)
	case TVar:
		return fmt.Sprintf("v%d", t.id)
	}
	return fmt.Sprintf("t%d", t.id)
}

// encWidth is the width of the solver symbol for t: the fewest bits that hold its signed range.
func (t *Term) encWidth() uint8 {
	if t.enc == 0 && t.w > 0 {
		t.enc = t.bitsFor()
	}
	return t.enc
}

// refAt is the solver expression for the low k bits of t's sign-extended value.
func (t *Term) refAt(k uint8) string {
	if t.op == TConst {
		v := uint64(sext(t.n, t.w)) & mask(k)
		if k%4 != 0 {
			return fmt.Sprintf("(_ bv%d %d)", v, k)
		}
		return fmt.Sprintf("#x%0*x", int(k)/4, v)
	}
	e := t.encWidth()
	switch {
	case e == k:
		return t.ref()
	case e < k:
		return fmt.Sprintf("((_ sign_extend %d) %s)", k-e, t.ref())
	}
	return fmt.Sprintf("((_ extract %d 0) %s)", k-1, t.ref())
}

// body is the solver definition of t at its encoding width.
func (t *Term) body() string {
	a, b := t.a[0], t.a[1]
	bin := func(k uint8) string { return "(" + smtOps[t.op] + " " + a.refAt(k) + " " + b.refAt(k) + ")" }
	e := t.encWidth()
	cut := func(x string, k uint8) string {
		if k == e {
			return x
		}
		return fmt.Sprintf("((_ extract %d 0) %s)", e-1, x)
	}
	switch t.op {
	case TNot:
		return "(not " + a.ref() + ")"
	case TAnd, TOr:
		return "(" + smtOps[t.op] + " " + a.ref() + " " + b.ref() + ")"
	case TEq:
		if a.w == 0 {
			return "(= " + a.ref() + " " + b.ref() + ")"
		}
		return bin(max(a.encWidth(), b.encWidth()))
	case TSlt, TSle:
		return bin(max(a.encWidth(), b.encWidth()))
	case TUlt, TUle:
		if a.lo >= 0 && b.lo >= 0 {
			return bin(max(a.encWidth(), b.encWidth()))
		}
		return bin(a.w)
	case TIte:
		if t.w == 0 {
			return "(ite " + a.ref() + " " + b.ref() + " " + t.a[2].ref() + ")"
		}
		return "(ite " + a.ref() + " " + b.refAt(e) + " " + t.a[2].refAt(e) + ")"
	case TAdd, TSub, TMul, TBAnd, TBOr, TBXor:
		return bin(e)
	case TNeg, TBNot:
		return "(" + smtOps[t.op] + " " + a.refAt(e) + ")"
	case TSExt, TTrunc:
		return a.refAt(e)
	case TZExt:
		if a.lo >= 0 {
			return a.refAt(e)
		}
		return cut(fmt.Sprintf("((_ zero_extend %d) %s)", t.w-a.w, a.refAt(a.w)), t.w)
	}
	return cut(bin(t.w), t.w)
}

var _ = bits.Len
