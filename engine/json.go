package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type jsonErr struct{ err Value }

// jsonMarshal mirrors encoding/json.Marshal; the result is a rope.
func (w *Worker) jsonMarshal(a Value) (res Value, err Value) {
	defer func() {
		if r := recover(); r != nil {
			if je, ok := r.(jsonErr); ok {
				res, err = Value{}, je.err
				return
			}
			panic(r)
		}
	}()
	b := &ropeBuilder{}
	w.jsonEnc(b, w.p.tAny, a, Value{}, false)
	return b.value(), Value{}
}

func (w *Worker) jsonFail(format string, a ...any) {
	panic(jsonErr{w.p.newError(vStr(fmt.Sprintf(format, a...)))})
}

func (w *Worker) jsonStr(b *ropeBuilder, v Value) {
	b.addLit(`"`)
	for _, g := range strSegs(v) {
		switch g.k {
		case segLit:
			q, _ := json.Marshal(g.lit)
			b.addLit(string(q[1 : len(q)-1]))
		case segHashRaw:
			w.unsupported("json of raw digest")
		default:
			b.flush()
			b.segs = append(b.segs, g)
		}
	}
	b.addLit(`"`)
}

func (w *Worker) jsonMarshaler(b *ropeBuilder, t *RType, v Value) bool {
	m := w.p.methodByName(t, "MarshalJSON")
	if m != nil && m.f.Signature.Params().Len() == 0 && m.f.Signature.Results().Len() == 2 {
		if t.k == kPtr && v.O == nil {
			b.addLit("null")
			return true
		}
		r := w.call(m, []Value{v}, nil, nil).O.(Tuple)
		if r[1].O != nil {
			msg := w.errString(r[1])
			panic(jsonErr{w.p.newError(concatStr(vStr("json: error calling MarshalJSON for type "+t.String()+": "), msg))})
		}
		w.jsonCompact(b, t, w.bytesToStr(r[0]))
		return true
	}
	if m := w.p.methodByName(t, "MarshalText"); m != nil && m.f.Signature.Params().Len() == 0 {
		r := w.call(m, []Value{v}, nil, nil).O.(Tuple)
		if r[1].O != nil {
			panic(jsonErr{r[1]})
		}
		w.jsonStr(b, w.bytesToStr(r[0]))
		return true
	}
	return false
}

func (w *Worker) errString(e Value) Value {
	i := e.O.(*Iface)
	m := w.p.methodByName(i.T, "Error")
	return w.call(m, []Value{i.V}, nil, nil)
}

// jsonCompact validates and compacts the output of a MarshalJSON method, escaping HTML characters.
func (w *Worker) jsonCompact(b *ropeBuilder, t *RType, v Value) {
	segs := strSegs(v)
	var chk strings.Builder
	for _, g := range segs {
		switch g.k {
		case segLit:
			chk.WriteString(g.lit)
		case segDec:
			chk.WriteString("7")
		case segHashHex:
			chk.WriteString(strings.Repeat("7", 64))
		default:
			w.unsupported("json of raw digest")
		}
	}
	if !json.Valid([]byte(chk.String())) {
		var x any
		err := json.Unmarshal([]byte(chk.String()), &x)
		w.jsonFail("json: error calling MarshalJSON for type %s: %v", t.String(), err)
	}
	inStr, esc := false, false
	for _, g := range segs {
		if g.k != segLit {
			b.flush()
			b.segs = append(b.segs, g)
			esc = false
			continue
		}
		var o bytes.Buffer
		for i := 0; i < len(g.lit); i++ {
			c := g.lit[i]
			if c == '<' || c == '>' || c == '&' {
				fmt.Fprintf(&o, `\u00%02x`, c)
				continue
			}
			if c == 0xE2 && i+2 < len(g.lit) && g.lit[i+1] == 0x80 && g.lit[i+2]&^1 == 0xA8 {
				fmt.Fprintf(&o, `\u202%x`, g.lit[i+2]&0xF)
				i += 2
				continue
			}
			if inStr {
				o.WriteByte(c)
				if esc {
					esc = false
				} else if c == '\\' {
					esc = true
				} else if c == '"' {
					inStr = false
				}
				continue
			}
			switch c {
			case ' ', '\t', '\n', '\r':
				continue
			case '"':
				inStr = true
			}
			o.WriteByte(c)
		}
		b.addLit(o.String())
	}
}

type jfield struct {
	name      string
	path      []int
	omitEmpty bool
	str       bool
}

func jsonFields(t *RType) []jfield {
	if x, ok := t.mcache.Load("#jf"); ok {
		return x.([]jfield)
	}
	var out []jfield
	st := t.structTags()
	for i := range t.fields {
		tag := reflect.StructTag(st[i]).Get("json")
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		if t.embeds[i] && parts[0] == "" {
			ft := t.fields[i]
			if ft.k == kStruct {
				for _, f := range jsonFields(ft) {
					f.path = append([]int{i}, f.path...)
					out = append(out, f)
				}
				continue
			}
			if ft.k == kPtr && ft.elem.k == kStruct {
				for _, f := range jsonFields(ft.elem) {
					f.path = append([]int{i}, f.path...)
					out = append(out, f)
				}
				continue
			}
		}
		if !isExported(t.names[i]) {
			continue
		}
		f := jfield{name: t.names[i], path: []int{i}}
		if parts[0] != "" {
			f.name = parts[0]
		}
		for _, o := range parts[1:] {
			if o == "omitempty" {
				f.omitEmpty = true
			}
			if o == "string" {
				f.str = true
			}
		}
		out = append(out, f)
	}
	// the shallowest field of a name wins
	best := map[string]int{}
	for _, f := range out {
		if d, ok := best[f.name]; !ok || len(f.path) < d {
			best[f.name] = len(f.path)
		}
	}
	var res []jfield
	for _, f := range out {
		if len(f.path) == best[f.name] {
			res = append(res, f)
		}
	}
	t.mcache.Store("#jf", res)
	return res
}

func (w *Worker) jsonEmpty(t *RType, v Value) bool {
	switch t.k {
	case kBool, kInt, kUint:
		return w.conc(t, v) == 0
	case kFloat:
		return v.f() == 0
	case kString:
		return v.O == nil || v.O == ""
	case kSlice:
		return v.O == nil || w.fix(v).sLen() == 0
	case kMap:
		return v.O == nil || v.O.(*Map).n == 0
	case kPtr, kIface:
		return v.O == nil
	case kArray:
		return t.n == 0
	}
	return false
}

func (w *Worker) jsonEnc(b *ropeBuilder, t *RType, v Value, addr Value, addressable bool) {
	if t.k != kIface {
		if w.jsonMarshaler(b, t, v) {
			return
		}
		if addressable && t.k != kPtr {
			pt := w.p.ptrTo(t)
			if w.jsonMarshaler(b, pt, addr) {
				return
			}
		}
	}
	switch t.k {
	case kBool:
		b.addLit(strconv.FormatBool(w.truth(v)))
	case kInt, kUint:
		b.add(w.decStr(t, v))
	case kFloat:
		bs, err := json.Marshal(v.f())
		if t.w == 32 {
			bs, err = json.Marshal(float32(v.f()))
		}
		if err != nil {
			w.jsonFail("%v", err)
		}
		b.addLit(string(bs))
	case kString:
		w.jsonStr(b, v)
	case kIface:
		if v.O == nil {
			b.addLit("null")
			return
		}
		i := v.O.(*Iface)
		w.jsonEnc(b, i.T, i.V, Value{}, false)
	case kPtr:
		if v.O == nil {
			b.addLit("null")
			return
		}
		w.jsonEnc(b, t.elem, w.load(t.elem, v), v, true)
	case kStruct:
		b.addLit("{")
		first := true
	fields:
		for _, f := range jsonFields(t) {
			ft, fv, fa, ok := t, v, addr, addressable
			for _, i := range f.path {
				if ft.k == kPtr {
					if fv.O == nil {
						continue fields
					}
					fa, ok = fv, true
					fv = w.load(ft.elem, fv)
					ft = ft.elem
				}
				s := fv.O.(*Struct)
				if ok {
					fa = slotPtr(ft.fields[i], &fa.O.(*Struct).F[i])
				}
				fv = s.F[i]
				ft = ft.fields[i]
			}
			if f.omitEmpty && w.jsonEmpty(ft, fv) {
				continue
			}
			if !first {
				b.addLit(",")
			}
			first = false
			w.jsonStr(b, vStr(f.name))
			b.addLit(":")
			w.jsonEnc(b, ft, fv, fa, ok)
		}
		b.addLit("}")
	case kMap:
		if v.O == nil {
			b.addLit("null")
			return
		}
		m := v.O.(*Map)
		type kv struct {
			k string
			i int
		}
		var ks []kv
		for i := range m.ents {
			if !m.ents[i].alive {
				continue
			}
			k := m.ents[i].k
			var s string
			switch m.t.key.k {
			case kString:
				s = w.concreteStr(k)
			case kInt, kUint:
				s = w.concreteStr(w.decStr(m.t.key, k))
			default:
				w.unsupported("json map key " + m.t.String())
			}
			ks = append(ks, kv{s, i})
		}
		sort.SliceStable(ks, func(a, b int) bool { return ks[a].k < ks[b].k })
		b.addLit("{")
		for n, e := range ks {
			if n > 0 {
				b.addLit(",")
			}
			w.jsonStr(b, vStr(e.k))
			b.addLit(":")
			w.jsonEnc(b, m.t.elem, m.ents[e.i].v, Value{}, false)
		}
		b.addLit("}")
	case kSlice:
		if v.O == nil {
			b.addLit("null")
			return
		}
		if t.elem.k == kUint && t.elem.w == 8 {
			s := w.concreteStr(w.bytesToStr(v))
			b.addLit(`"` + base64.StdEncoding.EncodeToString([]byte(s)) + `"`)
			return
		}
		b.addLit("[")
		es := w.elems(v)
		for i := range es {
			if i > 0 {
				b.addLit(",")
			}
			w.jsonEnc(b, t.elem, es[i], slotPtr(t.elem, &es[i]), true)
		}
		b.addLit("]")
	case kArray:
		b.addLit("[")
		for i, e := range v.O.(*Array).E {
			if i > 0 {
				b.addLit(",")
			}
			w.jsonEnc(b, t.elem, e, Value{}, false)
		}
		b.addLit("]")
	default:
		w.jsonFail("json: unsupported type: %s", t.String())
	}
}

// jsonIndent re-indents concrete JSON text.
func (w *Worker) jsonIndent(v Value, prefix, indent string) Value {
	var o bytes.Buffer
	s := w.concreteStr(v)
	if err := json.Indent(&o, []byte(s), prefix, indent); err != nil {
		return v
	}
	return vStr(o.String())
}

// jsonUnmarshal supports targets built from any, map[string]any, []any, strings, numbers and structs.
func (w *Worker) jsonUnmarshal(data Value, target Value) Value {
	s := w.concreteStr(w.bytesToStr(data))
	var x any
	if err := json.Unmarshal([]byte(s), &x); err != nil {
		return w.p.newError(vStr(err.Error()))
	}
	i := target.O.(*Iface)
	if i.T.k != kPtr {
		w.unsupported("json.Unmarshal target")
	}
	v, ok := w.jsonInto(i.T.elem, x)
	if !ok {
		return w.p.newError(vStr("json: cannot unmarshal into Go value of type " + i.T.elem.String()))
	}
	w.store(i.T.elem, i.V, v)
	return Value{}
}

func (w *Worker) jsonInto(t *RType, x any) (Value, bool) {
	if x == nil {
		return t.zero(), true
	}
	p := w.p
	switch t.k {
	case kIface:
		switch y := x.(type) {
		case string:
			return Value{O: &Iface{p.tString, vStr(y)}}, true
		case bool:
			return Value{O: &Iface{p.basic("bool"), vBool(y)}}, true
		case float64:
			return Value{O: &Iface{p.basic("float64"), vFloat(y)}}, true
		case map[string]any:
			mt := p.mapOf(p.tString, p.tAny)
			v, ok := w.jsonInto(mt, x)
			return Value{O: &Iface{mt, v}}, ok
		case []any:
			st := p.sliceOf(p.tAny)
			v, ok := w.jsonInto(st, x)
			return Value{O: &Iface{st, v}}, ok
		}
	case kMap:
		y, ok := x.(map[string]any)
		if !ok {
			return Value{}, false
		}
		m := newMap(t)
		for _, k := range sortedKeys(y) {
			v, ok := w.jsonInto(t.elem, y[k])
			if !ok {
				return Value{}, false
			}
			w.mapSet(m, vStr(k), v)
		}
		return Value{O: m}, true
	case kSlice:
		y, ok := x.([]any)
		if !ok {
			return Value{}, false
		}
		a := &Array{}
		for _, e := range y {
			v, ok := w.jsonInto(t.elem, e)
			if !ok {
				return Value{}, false
			}
			a.E = append(a.E, v)
		}
		return mkSlice(a, 0, len(a.E), len(a.E)), true
	case kString:
		y, ok := x.(string)
		return vStr(y), ok
	case kBool:
		y, ok := x.(bool)
		return vBool(y), ok
	case kFloat:
		y, ok := x.(float64)
		return vFloat(y), ok
	case kInt, kUint:
		y, ok := x.(float64)
		return Value{N: canon(t, uint64(int64(y)))}, ok && y == float64(int64(y))
	case kPtr:
		v, ok := w.jsonInto(t.elem, x)
		c := t.elem.newCell()
		w.store(t.elem, c, v)
		return c, ok
	case kStruct:
		y, ok := x.(map[string]any)
		if !ok {
			return Value{}, false
		}
		s := t.newStruct()
		for _, f := range jsonFields(t) {
			if len(f.path) != 1 {
				continue
			}
			e, has := y[f.name]
			if !has {
				for k, v := range y {
					if strings.EqualFold(k, f.name) {
						e, has = v, true
					}
				}
			}
			if has {
				v, ok := w.jsonInto(t.fields[f.path[0]], e)
				if !ok {
					return Value{}, false
				}
				s.F[f.path[0]] = v
			}
		}
		return Value{O: s}, true
	}
	w.unsupported("json.Unmarshal into " + t.String())
	return Value{}, false
}
