package main

import "strings"

// Text operations on symbolic strings that can be decided from the literal
// parts alone; everything else falls back to the native function on one
// concrete string (the engine forks on the possible values).

// litOnly: an occurrence of needle can only lie within one maximal literal.
func litOnly(segs []Seg, needle string) bool {
	if needle == "" {
		return false
	}
	for _, g := range segs {
		switch g.k {
		case segDec:
			if strings.ContainsAny(needle, "-0123456789") {
				return false
			}
		case segHashHex:
			if strings.ContainsAny(needle, "0123456789abcdef") {
				return false
			}
		case segHashRaw:
			return false
		}
	}
	return true
}

// symOperands returns the segments of a and the text of b when a is symbolic
// and b is not.
func symOperands(a, b Value) ([]Seg, string, bool) {
	s, ok := a.O.(*SymStr)
	if !ok {
		return nil, "", false
	}
	if _, sym := b.O.(*SymStr); sym {
		return nil, "", false
	}
	n, _ := b.O.(string)
	return strSegs(segsToValue(s.segs)), n, true
}

// ropePrefix decides whether the text starts with p: 1 yes, 0 no, -1 unknown.
func ropePrefix(segs []Seg, p string) int {
	if p == "" {
		return 1
	}
	if len(segs) == 0 {
		return 0
	}
	g := segs[0]
	switch g.k {
	case segLit:
		n := min(len(g.lit), len(p))
		if g.lit[:n] != p[:n] {
			return 0
		}
		return ropePrefix(segs[1:], p[n:])
	case segDec:
		if c := p[0]; c != '-' && !isDigit(c) {
			return 0
		}
	case segHashHex:
		if c := p[0]; !isDigit(c) && (c < 'a' || c > 'f') {
			return 0
		}
	}
	return -1
}

func ropeSuffix(segs []Seg, p string) int {
	if p == "" {
		return 1
	}
	if len(segs) == 0 {
		return 0
	}
	g := segs[len(segs)-1]
	c := p[len(p)-1]
	switch g.k {
	case segLit:
		n := min(len(g.lit), len(p))
		if g.lit[len(g.lit)-n:] != p[len(p)-n:] {
			return 0
		}
		return ropeSuffix(segs[:len(segs)-1], p[:len(p)-n])
	case segDec:
		if !isDigit(c) {
			return 0
		}
	case segHashHex:
		if !isDigit(c) && (c < 'a' || c > 'f') {
			return 0
		}
	}
	return -1
}

func trimPrefixSegs(segs []Seg, n int) Value {
	out := append([]Seg{}, segs...)
	for n > 0 {
		k := min(n, len(out[0].lit))
		out[0].lit = out[0].lit[k:]
		n -= k
		if out[0].lit == "" {
			out = out[1:]
		}
	}
	return segsToValue(out)
}

func trimSuffixSegs(segs []Seg, n int) Value {
	out := append([]Seg{}, segs...)
	for n > 0 {
		e := len(out) - 1
		k := min(n, len(out[e].lit))
		out[e].lit = out[e].lit[:len(out[e].lit)-k]
		n -= k
		if out[e].lit == "" {
			out = out[:e]
		}
	}
	return segsToValue(out)
}

// splitSegs cuts the rope at the first max occurrences of sep (max < 0: all).
func splitSegs(segs []Seg, sep string, max int) []Value {
	var out []Value
	var cur []Seg
	for _, g := range segs {
		if g.k != segLit {
			cur = append(cur, g)
			continue
		}
		lit := g.lit
		for max != 0 {
			i := strings.Index(lit, sep)
			if i < 0 {
				break
			}
			cur = append(cur, Seg{k: segLit, lit: lit[:i]})
			out = append(out, segsToValue(cur))
			cur = nil
			lit = lit[i+len(sep):]
			max--
		}
		cur = append(cur, Seg{k: segLit, lit: lit})
	}
	return append(out, segsToValue(cur))
}

func strSlice(es []Value) Value {
	return mkSlice(&Array{E: es}, 0, len(es), len(es))
}

func init() {
	wrap := func(name string, f func(w *Worker, a []Value) (Value, bool)) {
		nat := intrTab[name]
		if nat == nil {
			panic("rope: no native " + name)
		}
		reg(name, func(w *Worker, fn *Func, a []Value) Value {
			if v, ok := f(w, a); ok {
				return v
			}
			return nat(w, fn, a)
		})
	}
	wrap("strings.HasPrefix", func(w *Worker, a []Value) (Value, bool) {
		if segs, n, ok := symOperands(a[0], a[1]); ok {
			if r := ropePrefix(segs, n); r >= 0 {
				return vBool(r == 1), true
			}
		}
		return Value{}, false
	})
	wrap("strings.HasSuffix", func(w *Worker, a []Value) (Value, bool) {
		if segs, n, ok := symOperands(a[0], a[1]); ok {
			if r := ropeSuffix(segs, n); r >= 0 {
				return vBool(r == 1), true
			}
		}
		return Value{}, false
	})
	wrap("strings.TrimPrefix", func(w *Worker, a []Value) (Value, bool) {
		if segs, n, ok := symOperands(a[0], a[1]); ok {
			switch ropePrefix(segs, n) {
			case 0:
				return a[0], true
			case 1:
				return trimPrefixSegs(segs, len(n)), true
			}
		}
		return Value{}, false
	})
	wrap("strings.TrimSuffix", func(w *Worker, a []Value) (Value, bool) {
		if segs, n, ok := symOperands(a[0], a[1]); ok {
			switch ropeSuffix(segs, n) {
			case 0:
				return a[0], true
			case 1:
				return trimSuffixSegs(segs, len(n)), true
			}
		}
		return Value{}, false
	})
	wrap("strings.Contains", func(w *Worker, a []Value) (Value, bool) {
		if segs, n, ok := symOperands(a[0], a[1]); ok {
			for _, g := range segs {
				if g.k == segLit && strings.Contains(g.lit, n) {
					return vBool(true), true
				}
			}
			if litOnly(segs, n) {
				return vBool(false), true
			}
		}
		return Value{}, false
	})
	wrap("strings.Count", func(w *Worker, a []Value) (Value, bool) {
		if segs, n, ok := symOperands(a[0], a[1]); ok && litOnly(segs, n) {
			return vInt(len(splitSegs(segs, n, -1)) - 1), true
		}
		return Value{}, false
	})
	wrap("strings.Split", func(w *Worker, a []Value) (Value, bool) {
		if segs, n, ok := symOperands(a[0], a[1]); ok && litOnly(segs, n) {
			return strSlice(splitSegs(segs, n, -1)), true
		}
		return Value{}, false
	})
	wrap("strings.SplitN", func(w *Worker, a []Value) (Value, bool) {
		if segs, n, ok := symOperands(a[0], a[1]); ok && litOnly(segs, n) {
			if k := w.concInt(a[2]); k > 0 {
				return strSlice(splitSegs(segs, n, k-1)), true
			} else if k < 0 {
				return strSlice(splitSegs(segs, n, -1)), true
			}
		}
		return Value{}, false
	})
	replace := func(segs []Seg, old string, by Value, max int) Value {
		b := &ropeBuilder{}
		for i, p := range splitSegs(segs, old, max) {
			if i > 0 {
				b.add(by)
			}
			b.add(p)
		}
		return b.value()
	}
	wrap("strings.ReplaceAll", func(w *Worker, a []Value) (Value, bool) {
		if segs, n, ok := symOperands(a[0], a[1]); ok && litOnly(segs, n) {
			return replace(segs, n, a[2], -1), true
		}
		return Value{}, false
	})
	wrap("strings.Replace", func(w *Worker, a []Value) (Value, bool) {
		if segs, n, ok := symOperands(a[0], a[1]); ok && litOnly(segs, n) {
			return replace(segs, n, a[2], w.concInt(a[3])), true
		}
		return Value{}, false
	})
}
