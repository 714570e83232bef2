package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// fmtState formats Go values the way package fmt does, producing ropes.
type fmtState struct {
	w *Worker
	b *ropeBuilder
}

type fmtFlags struct {
	plus, minus, sharp, space, zero bool
	wid, prec                       int
	hasWid, hasPrec                 bool
	raw                             string
}

func (w *Worker) sprintf(format string, args []Value) Value {
	b := &ropeBuilder{}
	p := &fmtState{w, b}
	argn := 0
	end := len(format)
	for i := 0; i < end; {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			b.addLit(format[i:])
			break
		}
		b.addLit(format[i : i+j])
		i += j
		st := i
		i++
		var f fmtFlags
	flags:
		for ; i < end; i++ {
			switch format[i] {
			case '+':
				f.plus = true
			case '-':
				f.minus = true
			case '#':
				f.sharp = true
			case ' ':
				f.space = true
			case '0':
				f.zero = true
			default:
				break flags
			}
		}
		num := func() (int, bool) {
			if i < end && format[i] == '*' {
				i++
				if argn < len(args) {
					n := w.concInt(args[argn].O.(*Iface).V)
					argn++
					return n, true
				}
			}
			s := i
			for i < end && isDigit(format[i]) {
				i++
			}
			if s == i {
				return 0, false
			}
			n, _ := strconv.Atoi(format[s:i])
			return n, true
		}
		f.wid, f.hasWid = num()
		if f.hasWid && f.wid < 0 {
			f.wid = -f.wid
			f.minus = true
		}
		if i < end && format[i] == '.' {
			i++
			f.prec, _ = num()
			f.hasPrec = true
		}
		if i < end && format[i] == '[' {
			w.unsupported("fmt argument index")
		}
		if i >= end {
			b.addLit("%!(NOVERB)")
			break
		}
		verb, sz := utf8.DecodeRuneInString(format[i:])
		i += sz
		f.raw = format[st:i]
		if verb == '%' {
			b.addLit("%")
			continue
		}
		if argn >= len(args) {
			b.addLit("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[argn]
		argn++
		p.arg(a, verb, &f)
	}
	if argn < len(args) {
		b.addLit("%!(EXTRA ")
		for k, a := range args[argn:] {
			if k > 0 {
				b.addLit(", ")
			}
			if a.O == nil {
				b.addLit("<nil>")
			} else {
				b.addLit(p.typeName(a.O.(*Iface).T))
				b.addLit("=")
				p.arg(a, 'v', &fmtFlags{})
			}
		}
		b.addLit(")")
	}
	return b.value()
}

func (p *fmtState) typeName(t *RType) string {
	s := types.TypeString(t.T, func(p *types.Package) string { return p.Name() })
	return strings.ReplaceAll(s, "interface{}", "interface {}")
}

// pad writes v with the width of f.
func (p *fmtState) pad(v Value, f *fmtFlags) {
	if !f.hasWid {
		p.b.add(v)
		return
	}
	s := p.w.concreteStr(v)
	n := f.wid - utf8.RuneCountInString(s)
	if n <= 0 {
		p.b.addLit(s)
	} else if f.minus {
		p.b.addLit(s + strings.Repeat(" ", n))
	} else {
		p.b.addLit(strings.Repeat(" ", n) + s)
	}
}

func (p *fmtState) arg(a Value, verb rune, f *fmtFlags) {
	if a.O == nil {
		if verb == 'T' || verb == 'v' {
			p.pad(vStr("<nil>"), f)
		} else {
			p.b.addLit("%!" + string(verb) + "(<nil>)")
		}
		return
	}
	i := a.O.(*Iface)
	switch verb {
	case 'T':
		p.pad(vStr(p.typeName(i.T)), f)
		return
	case 'p':
		p.b.addLit(p.w.pointerStr(i.V))
		return
	}
	p.value(i.T, i.V, verb, f, 0, true, Value{})
}

// value formats v; addr, when set, is the address of v.
func (p *fmtState) value(t *RType, v Value, verb rune, f *fmtFlags, depth int, exported bool, addr Value) {
	w := p.w
	if exported && !(verb == 'v' && f.sharp) {
		if p.methods(t, v, verb, f) {
			return
		}
	}
	switch t.k {
	case kBool:
		if verb != 't' && verb != 'v' {
			p.bad(t, v, verb)
			return
		}
		p.pad(vStr(strconv.FormatBool(w.truth(v))), f)
	case kInt, kUint:
		if (verb == 'd' || verb == 'v') && !f.plus && !f.space && !f.sharp {
			if !f.hasWid && !f.hasPrec {
				p.b.add(w.decStr(t, v))
				return
			}
		}
		n := w.conc(t, v)
		g := "%" + f.raw[1:]
		if f.raw == "" {
			g = "%" + string(verb)
		}
		if t.k == kInt {
			p.b.addLit(fmt.Sprintf(g, int64(n)))
		} else {
			p.b.addLit(fmt.Sprintf(g, n))
		}
	case kFloat:
		g := f.raw
		if g == "" {
			g = "%" + string(verb)
		}
		if t.w == 32 {
			p.b.addLit(fmt.Sprintf(g, float32(v.f())))
		} else {
			p.b.addLit(fmt.Sprintf(g, v.f()))
		}
	case kComplex:
		p.b.addLit(fmt.Sprintf("%"+string(verb), cplx(v)))
	case kString:
		switch verb {
		case 's', 'v':
			if verb == 'v' && f.sharp {
				p.b.addLit(strconv.Quote(w.concreteStr(v)))
				return
			}
			if f.hasPrec {
				p.b.addLit(fmt.Sprintf(f.raw, w.concreteStr(v)))
				return
			}
			p.pad(v, f)
		default:
			if verb == 'q' && !f.sharp && !f.hasWid {
				p.b.add(w.quoteRope(v))
				return
			}
			p.b.addLit(fmt.Sprintf(f.raw, w.concreteStr(v)))
		}
	case kIface:
		if v.O == nil {
			p.pad(vStr("<nil>"), f)
			return
		}
		i := v.O.(*Iface)
		p.value(i.T, i.V, verb, f, depth+1, exported, Value{})
	case kPtr:
		if v.O == nil {
			p.pad(vStr("<nil>"), f)
			return
		}
		if depth == 0 {
			switch t.elem.k {
			case kStruct, kArray, kSlice, kMap:
				p.b.addLit("&")
				p.value(t.elem, w.load(t.elem, v), verb, f, depth+1, exported, v)
				return
			}
		}
		p.b.addLit("0xc000000000")
	case kStruct:
		s := v.O.(*Struct)
		if verb == 'v' && f.sharp {
			p.b.addLit(p.typeName(t))
		}
		p.b.addLit("{")
		for k := range s.F {
			if k > 0 {
				if f.sharp {
					p.b.addLit(", ")
				} else {
					p.b.addLit(" ")
				}
			}
			if f.plus || f.sharp {
				p.b.addLit(t.names[k] + ":")
			}
			p.value(t.fields[k], s.F[k], verb, f, depth+1, exported && isExported(t.names[k]), Value{})
		}
		p.b.addLit("}")
	case kMap:
		p.b.addLit("map[")
		if v.O != nil {
			m := v.O.(*Map)
			for k, i := range w.sortedEnts(m) {
				if k > 0 {
					p.b.addLit(" ")
				}
				p.value(t.key, m.ents[i].k, verb, f, depth+1, exported, Value{})
				p.b.addLit(":")
				p.value(t.elem, m.ents[i].v, verb, f, depth+1, exported, Value{})
			}
		}
		p.b.addLit("]")
	case kSlice:
		if t.elem.k == kUint && t.elem.w == 8 && (verb == 's' || verb == 'x' || verb == 'X' || verb == 'q') {
			p.bytes(v, verb, f)
			return
		}
		p.b.addLit("[")
		for k, e := range w.elems(v) {
			if k > 0 {
				p.b.addLit(" ")
			}
			p.value(t.elem, e, verb, f, depth+1, exported, Value{})
		}
		p.b.addLit("]")
	case kArray:
		a := v.O.(*Array)
		if a.Sym != nil {
			p.bytes(Value{symFull, a}, verb, f)
			return
		}
		if t.elem.k == kUint && t.elem.w == 8 && (verb == 's' || verb == 'x' || verb == 'X' || verb == 'q') {
			p.bytes(mkSlice(a, 0, len(a.E), len(a.E)), verb, f)
			return
		}
		p.b.addLit("[")
		for k, e := range a.E {
			if k > 0 {
				p.b.addLit(" ")
			}
			p.value(t.elem, e, verb, f, depth+1, exported, Value{})
		}
		p.b.addLit("]")
	case kFunc, kChan, kUnsafe:
		if v.O == nil {
			p.b.addLit("<nil>")
		} else {
			p.b.addLit("0x123456")
		}
	default:
		w.unsupported("fmt of " + t.String())
	}
}

func (p *fmtState) bytes(v Value, verb rune, f *fmtFlags) {
	w := p.w
	s := w.bytesToStr(v)
	switch verb {
	case 's':
		p.pad(s, f)
		return
	case 'x':
		if ss, ok := s.O.(*SymStr); ok && len(ss.segs) == 1 && ss.segs[0].k == segHashRaw {
			p.b.add(Value{O: &SymStr{[]Seg{{k: segHashHex, sub: ss.segs[0].sub}}}})
			return
		}
	}
	p.b.addLit(fmt.Sprintf(f.raw, []byte(w.concreteStr(s))))
}

func (p *fmtState) bad(t *RType, v Value, verb rune) {
	p.b.addLit("%!" + string(verb) + "(" + p.typeName(t) + "=")
	p.value(t, v, 'v', &fmtFlags{}, 0, false, Value{})
	p.b.addLit(")")
}

func isExported(n string) bool {
	r, _ := utf8.DecodeRuneInString(n)
	return r >= 'A' && r <= 'Z'
}

// methods calls Error or String when the verb is valid for strings.
func (p *fmtState) methods(t *RType, v Value, verb rune, f *fmtFlags) bool {
	if t.k == kIface {
		return false
	}
	switch verb {
	case 'v', 's', 'x', 'X', 'q':
	default:
		return false
	}
	m := p.stringMethod(t)
	if m == nil {
		return false
	}
	if t.k == kPtr && v.O == nil {
		p.pad(vStr("<nil>"), f)
		return true
	}
	s := p.w.call(m, []Value{v}, nil, nil)
	p.value(p.w.p.tString, s, verb, f, 0, false, Value{})
	return true
}

func (p *fmtState) stringMethod(t *RType) *Func {
	if x, ok := t.mcache.Load("#fmt"); ok {
		f, _ := x.(*Func)
		return f
	}
	var r *Func
	for _, n := range []string{"Error", "String"} {
		m := p.w.p.methodByName(t, n)
		if m == nil {
			continue
		}
		sig := m.f.Signature
		if sig.Params().Len() == 0 && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), types.Typ[types.String]) {
			r = m
			break
		}
	}
	t.mcache.Store("#fmt", r)
	return r
}

// decStr renders an integer in base 10.
func (w *Worker) decStr(t *RType, v Value) Value {
	if tm := v.term(); tm != nil {
		return Value{O: &SymStr{[]Seg{{k: segDec, t: tm, sg: t.k == kInt}}}}
	}
	if t.k == kInt {
		return vStr(strconv.FormatInt(int64(v.N), 10))
	}
	return vStr(strconv.FormatUint(v.N, 10))
}

// quoteRope is strconv.Quote over a rope (digits and hex need no escapes).
func (w *Worker) quoteRope(v Value) Value {
	if ss, ok := v.O.(*SymStr); ok {
		for _, g := range ss.segs {
			if g.k == segHashRaw {
				return vStr(strconv.Quote(w.concreteStr(v)))
			}
		}
		b := &ropeBuilder{}
		b.addLit(`"`)
		for _, g := range ss.segs {
			if g.k == segLit {
				q := strconv.Quote(g.lit)
				b.addLit(q[1 : len(q)-1])
			} else {
				b.flush()
				b.segs = append(b.segs, g)
			}
		}
		b.addLit(`"`)
		return b.value()
	}
	return vStr(strconv.Quote(w.concreteStr(v)))
}

// sortedEnts orders map entries the way fmt and encoding/json do for basic keys.
func (w *Worker) sortedEnts(m *Map) []int {
	var idx []int
	for i := range m.ents {
		if m.ents[i].alive {
			idx = append(idx, i)
		}
	}
	kt := m.t.key
	switch kt.k {
	case kString:
		ks := map[int]string{}
		for _, i := range idx {
			ks[i] = w.concreteStr(m.ents[i].k)
		}
		sort.SliceStable(idx, func(a, b int) bool { return ks[idx[a]] < ks[idx[b]] })
	case kInt, kBool, kUint:
		ks := map[int]uint64{}
		for _, i := range idx {
			ks[i] = w.conc(kt, m.ents[i].k)
		}
		sort.SliceStable(idx, func(a, b int) bool {
			if kt.k == kInt {
				return int64(ks[idx[a]]) < int64(ks[idx[b]])
			}
			return ks[idx[a]] < ks[idx[b]]
		})
	}
	return idx
}

func (w *Worker) sprint(args []Value, ln bool) Value {
	b := &ropeBuilder{}
	p := &fmtState{w, b}
	prevStr := false
	for i, a := range args {
		isStr := a.O != nil && a.O.(*Iface).T == w.p.tString
		if i > 0 && (ln || !isStr && !prevStr) {
			b.addLit(" ")
		}
		p.arg(a, 'v', &fmtFlags{})
		prevStr = isStr
	}
	if ln {
		b.addLit("\n")
	}
	return b.value()
}
