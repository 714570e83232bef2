package main

import (
	"encoding/base64"
	"fmt"
	"go/types"
	"html"
	"math"
	"math/bits"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var intrTab = map[string]Intrinsic{}

func reg(name string, f Intrinsic) { intrTab[name] = f }
func regs(f Intrinsic, names ...string) {
	for _, n := range names {
		intrTab[n] = f
	}
}

func zeroIntr(w *Worker, fn *Func, args []Value) Value { return fn.results.zeroRes(fn.nres) }

// zero-result packages: calls return zero values (clock, logging, process environment).
var zeroPkgs = map[string]bool{"time": true, "runtime": true, "runtime/debug": true, "log": true, "os": true, "os/signal": true, "syscall": true,
	"github.com/golang/glog": true, "runtime/pprof": true, "internal/godebug": true, "internal/race": true, "internal/cpu": true, "internal/poll": true}

var interpretAnyway = map[string]bool{"(runtime.errorString).Error": true, "(runtime.errorString).RuntimeError": true, "(time.Duration).String": true, "(time.Duration).Seconds": true, "(time.Duration).Milliseconds": true, "(time.Duration).format": true,
	"time.fmtFrac": true, "time.fmtInt": true}

func lookupIntrinsic(name string, f *ssa.Function) Intrinsic {
	if x, ok := intrTab[name]; ok {
		return x
	}
	pkg := f.Pkg
	if pkg == nil && f.Origin() != nil {
		pkg = f.Origin().Pkg
	}
	var path string
	if pkg != nil {
		path = pkg.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		path = o.Pkg().Path()
	}
	if f.Synthetic != "" && f.Name() == "init" {
		return nil
	}
	if f.Synthetic != "" && path != "" && zeroPkgs[path] && strings.Contains(f.Synthetic, "wrapper") {
		return nil
	}
	if zeroPkgs[path] && !interpretAnyway[name] && !strings.Contains(f.Name(), "$") && f.Synthetic == "" {
		if strings.HasPrefix(name, "log.Fatal") || strings.HasPrefix(name, "log.Panic") || strings.HasPrefix(name, "github.com/golang/glog.Fatal") {
			return func(w *Worker, fn *Func, args []Value) Value {
				panic(abort{kind: "exit", msg: name + " in " + w.stackString()})
			}
		}
		return zeroIntr
	}
	if path == "fizz/proto" && f.Signature.Recv() != nil && f.Synthetic == "" {
		rt := f.Signature.Recv().Type()
		if n, ok := rt.(*types.Named); ok && f.Name() == "String" {
			g := pkg.Var(n.Obj().Name() + "_name")
			if g != nil {
				return func(w *Worker, fn *Func, args []Value) Value {
					cell := w.globals[w.p.globals[g]]
					m := cell.(*Value).O.(*Map)
					k := Value{N: w.conc(w.p.types.get(rt), args[0])}
					if i := w.mapFind(m, k); i >= 0 {
						return m.ents[i].v
					}
					return vStr(strconv.FormatInt(int64(k.N), 10))
				}
			}
		}
		if f.Name() == "String" {
			nm := rt.String()
			return func(w *Worker, fn *Func, args []Value) Value { return vStr("<" + nm + ">") }
		}
	}
	return nil
}

func (p *Prog) basic(n string) *RType {
	for _, b := range types.Typ {
		if b.Name() == n {
			return p.types.get(b)
		}
	}
	panic(n)
}
func (p *Prog) ptrTo(t *RType) *RType {
	if x, ok := t.mcache.Load("#ptr"); ok {
		return x.(*RType)
	}
	r := p.types.get(types.NewPointer(t.T))
	t.mcache.Store("#ptr", r)
	return r
}
func (p *Prog) sliceOf(t *RType) *RType { return p.types.get(types.NewSlice(t.T)) }
func (p *Prog) mapOf(k, v *RType) *RType {
	return p.types.get(types.NewMap(k.T, v.T))
}
func (t *RType) structTags() []string {
	s := t.T.Underlying().(*types.Struct)
	out := make([]string, s.NumFields())
	for i := range out {
		out[i] = s.Tag(i)
	}
	return out
}

// ---- native functions with concrete arguments, marshalled by reflection ----

func natReg(name string, f any) {
	rv := reflect.ValueOf(f)
	rt := rv.Type()
	reg(name, func(w *Worker, fn *Func, args []Value) Value {
		in := make([]reflect.Value, rt.NumIn())
		variadic := rt.IsVariadic()
		for i := range in {
			t := rt.In(i)
			in[i] = w.toNative(args[i], t)
		}
		var out []reflect.Value
		if variadic {
			out = rv.CallSlice(in)
		} else {
			out = rv.Call(in)
		}
		switch len(out) {
		case 0:
			return Value{}
		case 1:
			return w.fromNative(out[0])
		}
		t := make(Tuple, len(out))
		for i := range out {
			t[i] = w.fromNative(out[i])
		}
		return Value{O: t}
	})
}

var rtypBytes = reflect.TypeOf([]byte(nil))

func (w *Worker) toNative(v Value, t reflect.Type) reflect.Value {
	r := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		r.SetBool(w.truth(v))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.O != nil {
			tm := v.O.(*Term)
			r.SetInt(sext(w.concretize(tm), tm.w))
		} else {
			r.SetInt(int64(v.N))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.O != nil {
			r.SetUint(w.concretize(v.O.(*Term)))
		} else {
			r.SetUint(v.N)
		}
	case reflect.Float64, reflect.Float32:
		r.SetFloat(v.f())
	case reflect.String:
		r.SetString(w.concreteStr(v))
	case reflect.Slice:
		if v.O == nil {
			return r
		}
		if t.Elem().Kind() == reflect.Uint8 {
			r.SetBytes([]byte(w.concreteStr(w.bytesToStr(v))))
			return r
		}
		es := w.elems(v)
		r.Set(reflect.MakeSlice(t, len(es), len(es)))
		for i := range es {
			r.Index(i).Set(w.toNative(es[i], t.Elem()))
		}
	case reflect.Ptr: // opaque native object
		if v.O == nil {
			w.nilDeref()
		}
		r.Set(reflect.ValueOf(v.O))
	default:
		panic("toNative " + t.String())
	}
	return r
}

func (w *Worker) fromNative(r reflect.Value) Value {
	switch r.Kind() {
	case reflect.Bool:
		return vBool(r.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return Value{N: uint64(r.Int())}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return Value{N: r.Uint()}
	case reflect.Float64, reflect.Float32:
		return vFloat(r.Float())
	case reflect.String:
		return vStr(r.String())
	case reflect.Slice:
		if r.IsNil() {
			return Value{}
		}
		a := &Array{E: make([]Value, r.Len())}
		for i := range a.E {
			a.E[i] = w.fromNative(r.Index(i))
		}
		return mkSlice(a, 0, len(a.E), len(a.E))
	case reflect.Ptr:
		if r.IsNil() {
			return Value{}
		}
		return Value{O: r.Interface()}
	case reflect.Interface:
		if r.IsNil() {
			return Value{}
		}
		if e, ok := r.Interface().(error); ok {
			return w.p.newError(vStr(e.Error()))
		}
	}
	panic("fromNative " + r.Type().String())
}

// anyArgs expands the variadic ...any parameter.
func (w *Worker) anyArgs(v Value) []Value { return w.elems(v) }

func (w *Worker) writeTo(wr Value, s Value) Value {
	res := Value{O: Tuple{Value{}, Value{}}}
	if wr.O == nil {
		w.nilDeref()
	}
	i := wr.O.(*Iface)
	switch i.T.String() {
	case "*os.File":
		return res
	case "*strings.Builder":
		w.builder(i.V, 1).add(s)
		return res
	case "*bytes.Buffer":
		w.builder(i.V, 0).add(s)
		return res
	}
	m := w.p.methodByName(i.T, "Write")
	return w.call(m, []Value{i.V, w.strToBytes(s)}, nil, nil)
}

func (w *Worker) builder(p Value, slot int) *ropeBuilder {
	if p.O == nil {
		w.nilDeref()
	}
	f := &p.O.(*Struct).F[slot]
	if rb, ok := f.O.(*ropeBuilder); ok {
		return rb
	}
	rb := &ropeBuilder{}
	if f.O != nil {
		rb.add(w.bytesToStr(*f))
	}
	w.set(f, Value{O: rb})
	return rb
}

func (b *ropeBuilder) length(w *Worker) Value {
	v := b.value()
	return w.lenOf(w.p.tString, v)
}

func tup(vs ...Value) Value { return Value{O: Tuple(vs)} }

func init() {
	// ---- fmt ----
	reg("fmt.Sprintf", func(w *Worker, fn *Func, a []Value) Value {
		return w.sprintf(w.concreteStr(a[0]), w.anyArgs(a[1]))
	})
	reg("fmt.Sprint", func(w *Worker, fn *Func, a []Value) Value { return w.sprint(w.anyArgs(a[0]), false) })
	reg("fmt.Sprintln", func(w *Worker, fn *Func, a []Value) Value { return w.sprint(w.anyArgs(a[0]), true) })
	reg("fmt.Errorf", func(w *Worker, fn *Func, a []Value) Value {
		f := w.concreteStr(a[0])
		args := w.anyArgs(a[1])
		msg := w.sprintf(strings.ReplaceAll(f, "%w", "%v"), args)
		if strings.Contains(f, "%w") {
			// find the wrapped operand
			n := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] == '%' {
					if f[i+1] == '%' {
						i++
						continue
					}
					j := i + 1
					for j < len(f) && !unicode.IsLetter(rune(f[j])) {
						j++
					}
					if j < len(f) && f[j] == 'w' && n < len(args) && w.p.wrapErr() != nil {
						return Value{O: &Iface{w.p.wrapErr(), Value{O: &Struct{F: []Value{msg, args[n]}}}}}
					}
					n++
					i = j
				}
			}
		}
		return w.p.newError(msg)
	})
	noPrint := func(w *Worker, fn *Func, a []Value) Value {
		if captureOut {
			var s Value
			switch fn.name {
			case "fmt.Println":
				s = w.sprint(w.anyArgs(a[0]), true)
			case "fmt.Print":
				s = w.sprint(w.anyArgs(a[0]), false)
			default:
				s = w.sprintf(w.concreteStr(a[0]), w.anyArgs(a[1]))
			}
			w.outText.WriteString(w.concreteStr(s))
		}
		return fn.results.zero()
	}
	regs(noPrint, "fmt.Println", "fmt.Printf", "fmt.Print")
	reg("fmt.Fprintf", func(w *Worker, fn *Func, a []Value) Value {
		if a[0].O != nil && a[0].O.(*Iface).T.String() == "*os.File" {
			return fn.results.zero()
		}
		return w.writeTo(a[0], w.sprintf(w.concreteStr(a[1]), w.anyArgs(a[2])))
	})
	reg("fmt.Fprint", func(w *Worker, fn *Func, a []Value) Value {
		if a[0].O != nil && a[0].O.(*Iface).T.String() == "*os.File" {
			return fn.results.zero()
		}
		return w.writeTo(a[0], w.sprint(w.anyArgs(a[1]), false))
	})
	reg("fmt.Fprintln", func(w *Worker, fn *Func, a []Value) Value {
		if a[0].O != nil && a[0].O.(*Iface).T.String() == "*os.File" {
			return fn.results.zero()
		}
		return w.writeTo(a[0], w.sprint(w.anyArgs(a[1]), true))
	})
	reg("io.WriteString", func(w *Worker, fn *Func, a []Value) Value { return w.writeTo(a[0], a[1]) })
	reg("fmt.Sscanf", func(w *Worker, fn *Func, a []Value) Value {
		w.unsupported("fmt.Sscanf")
		return Value{}
	})

	// ---- strings.Builder / bytes.Buffer ----
	for _, x := range []struct {
		recv string
		slot int
	}{{"(*strings.Builder)", 1}, {"(*bytes.Buffer)", 0}} {
		slot := x.slot
		reg(x.recv+".WriteString", func(w *Worker, fn *Func, a []Value) Value {
			w.builder(a[0], slot).add(a[1])
			return tup(Value{}, Value{})
		})
		reg(x.recv+".Write", func(w *Worker, fn *Func, a []Value) Value {
			w.builder(a[0], slot).add(w.bytesToStr(a[1]))
			n := Value{}
			if a[1].N != symFull {
				n = vInt(a[1].sLen())
			}
			return tup(n, Value{})
		})
		reg(x.recv+".WriteByte", func(w *Worker, fn *Func, a []Value) Value {
			w.builder(a[0], slot).addLit(string([]byte{byte(w.conc(w.p.tByte, a[1]))}))
			return Value{}
		})
		reg(x.recv+".WriteRune", func(w *Worker, fn *Func, a []Value) Value {
			w.builder(a[0], slot).addLit(string(rune(int32(w.conc(w.p.basic("int32"), a[1])))))
			return tup(vInt(1), Value{})
		})
		reg(x.recv+".String", func(w *Worker, fn *Func, a []Value) Value { return w.builder(a[0], slot).value() })
		reg(x.recv+".Bytes", func(w *Worker, fn *Func, a []Value) Value {
			return w.strToBytes(w.builder(a[0], slot).value())
		})
		reg(x.recv+".Len", func(w *Worker, fn *Func, a []Value) Value { return w.builder(a[0], slot).length(w) })
		reg(x.recv+".Cap", func(w *Worker, fn *Func, a []Value) Value { return w.builder(a[0], slot).length(w) })
		reg(x.recv+".Grow", func(w *Worker, fn *Func, a []Value) Value { return Value{} })
		reg(x.recv+".Reset", func(w *Worker, fn *Func, a []Value) Value {
			w.set(&a[0].O.(*Struct).F[slot], Value{})
			return Value{}
		})
	}
	reg("(*bytes.Buffer).Truncate", func(w *Worker, fn *Func, a []Value) Value {
		s := w.concreteStr(w.builder(a[0], 0).value())
		rb := &ropeBuilder{}
		rb.addLit(s[:w.concInt(a[1])])
		w.set(&a[0].O.(*Struct).F[0], Value{O: rb})
		return Value{}
	})

	// ---- strings: concrete fast paths ----
	natReg("strings.Split", strings.Split)
	natReg("strings.SplitN", strings.SplitN)
	natReg("strings.SplitAfter", strings.SplitAfter)
	natReg("strings.Fields", strings.Fields)
	natReg("strings.Contains", strings.Contains)
	natReg("strings.ContainsAny", strings.ContainsAny)
	natReg("strings.ContainsRune", strings.ContainsRune)
	natReg("strings.HasPrefix", strings.HasPrefix)
	natReg("strings.HasSuffix", strings.HasSuffix)
	natReg("strings.Index", strings.Index)
	natReg("strings.IndexByte", strings.IndexByte)
	natReg("strings.IndexRune", strings.IndexRune)
	natReg("strings.IndexAny", strings.IndexAny)
	natReg("strings.LastIndex", strings.LastIndex)
	natReg("strings.LastIndexByte", strings.LastIndexByte)
	natReg("strings.ReplaceAll", strings.ReplaceAll)
	natReg("strings.Replace", strings.Replace)
	natReg("strings.ToLower", strings.ToLower)
	natReg("strings.ToUpper", strings.ToUpper)
	natReg("strings.Trim", strings.Trim)
	natReg("strings.TrimLeft", strings.TrimLeft)
	natReg("strings.TrimRight", strings.TrimRight)
	natReg("strings.TrimSpace", strings.TrimSpace)
	natReg("strings.TrimPrefix", strings.TrimPrefix)
	natReg("strings.TrimSuffix", strings.TrimSuffix)
	natReg("strings.Count", strings.Count)
	natReg("strings.EqualFold", strings.EqualFold)
	natReg("strings.Compare", strings.Compare)
	natReg("strings.Title", strings.Title)
	natReg("bytes.IndexByte", func(a []byte, b byte) int { return strings.IndexByte(string(a), b) })
	reg("strings.Repeat", func(w *Worker, fn *Func, a []Value) Value {
		n := w.concInt(a[1])
		if n < 0 {
			w.panicMsg("strings: negative Repeat count")
		}
		if n > 1<<20 {
			w.unsupported("huge strings.Repeat")
		}
		b := &ropeBuilder{}
		for i := 0; i < n; i++ {
			b.add(a[0])
		}
		return b.value()
	})
	reg("strings.Join", func(w *Worker, fn *Func, a []Value) Value {
		b := &ropeBuilder{}
		for i, e := range w.elems(a[0]) {
			if i > 0 {
				b.add(a[1])
			}
			b.add(e)
		}
		return b.value()
	})
	reg("strings.Clone", func(w *Worker, fn *Func, a []Value) Value { return a[0] })
	reg("bytes.Equal", func(w *Worker, fn *Func, a []Value) Value {
		return w.eq(w.p.tString, w.bytesToStr(a[0]), w.bytesToStr(a[1]))
	})
	natReg("html.EscapeString", html.EscapeString)
	natReg("path/filepath.Base", filepath.Base)
	natReg("path/filepath.Ext", filepath.Ext)
	natReg("path/filepath.Dir", filepath.Dir)
	natReg("path/filepath.Join", filepath.Join)
	reg("path/filepath.Glob", zeroIntr)
	reg("(*encoding/base64.Encoding).EncodeToString", func(w *Worker, fn *Func, a []Value) Value {
		return vStr(base64.StdEncoding.EncodeToString([]byte(w.concreteStr(w.bytesToStr(a[1])))))
	})
	reg("(*encoding/base64.Encoding).EncodedLen", func(w *Worker, fn *Func, a []Value) Value {
		return vInt(base64.StdEncoding.EncodedLen(w.concInt(a[1])))
	})
	reg("(*encoding/base64.Encoding).Encode", func(w *Worker, fn *Func, a []Value) Value {
		s := base64.URLEncoding.EncodeToString([]byte(w.concreteStr(w.bytesToStr(a[2]))))
		d := w.elems(a[1])
		for i := range s {
			w.set(&d[i], Value{N: uint64(s[i])})
		}
		return Value{}
	})

	// ---- internal/bytealg ----
	natReg("internal/bytealg.IndexByteString", strings.IndexByte)
	natReg("internal/bytealg.IndexByte", func(a []byte, b byte) int { return strings.IndexByte(string(a), b) })
	natReg("internal/bytealg.CountString", func(s string, c byte) int { return strings.Count(s, string([]byte{c})) })
	natReg("internal/bytealg.Count", func(s []byte, c byte) int { return strings.Count(string(s), string([]byte{c})) })
	natReg("internal/bytealg.IndexString", strings.Index)
	natReg("internal/bytealg.CompareString", strings.Compare)
	natReg("internal/bytealg.Compare", func(a, b []byte) int { return strings.Compare(string(a), string(b)) })
	reg("internal/bytealg.MakeNoZero", func(w *Worker, fn *Func, a []Value) Value {
		return makeSlice(w.p.tByte, w.concInt(a[0]), w.concInt(a[0]))
	})
	reg("internal/stringslite.Clone", func(w *Worker, fn *Func, a []Value) Value { return a[0] })

	// ---- strconv ----
	reg("strconv.Itoa", func(w *Worker, fn *Func, a []Value) Value { return w.decStr(w.p.tInt, a[0]) })
	reg("strconv.FormatInt", func(w *Worker, fn *Func, a []Value) Value {
		base := w.concInt(a[1])
		if base == 10 {
			return w.decStr(w.p.tInt, a[0])
		}
		return vStr(strconv.FormatInt(int64(w.conc(w.p.tInt, a[0])), base))
	})
	reg("strconv.FormatUint", func(w *Worker, fn *Func, a []Value) Value {
		base := w.concInt(a[1])
		u := w.p.basic("uint64")
		if base == 10 {
			return w.decStr(u, a[0])
		}
		return vStr(strconv.FormatUint(w.conc(u, a[0]), base))
	})
	reg("strconv.Quote", func(w *Worker, fn *Func, a []Value) Value { return w.quoteRope(a[0]) })
	natReg("strconv.FormatBool", strconv.FormatBool)
	natReg("strconv.FormatFloat", strconv.FormatFloat)
	natReg("strconv.AppendQuote", strconv.AppendQuote)
	natReg("strconv.AppendFloat", strconv.AppendFloat)
	reg("strconv.AppendInt", func(w *Worker, fn *Func, a []Value) Value {
		s := strconv.FormatInt(int64(w.conc(w.p.tInt, a[1])), w.concInt(a[2]))
		return w.appendVals(w.p.types.get(types.NewSlice(types.Typ[types.Byte])), a[0], w.strToBytes(vStr(s)).elems())
	})
	natReg("strconv.IsPrint", strconv.IsPrint)
	natReg("strconv.QuoteRune", strconv.QuoteRune)

	// ---- utf8 / unicode ----
	natReg("unicode/utf8.RuneCountInString", utf8.RuneCountInString)
	natReg("unicode/utf8.DecodeRuneInString", utf8.DecodeRuneInString)
	natReg("unicode/utf8.DecodeLastRuneInString", utf8.DecodeLastRuneInString)
	natReg("unicode/utf8.ValidString", utf8.ValidString)
	natReg("unicode/utf8.DecodeRune", utf8.DecodeRune)
	natReg("unicode/utf8.RuneLen", utf8.RuneLen)
	natReg("unicode.IsLetter", unicode.IsLetter)
	natReg("unicode.IsDigit", unicode.IsDigit)
	natReg("unicode.IsSpace", unicode.IsSpace)
	natReg("unicode.IsUpper", unicode.IsUpper)
	natReg("unicode.IsLower", unicode.IsLower)
	natReg("unicode.IsPrint", unicode.IsPrint)
	natReg("unicode.ToLower", unicode.ToLower)
	natReg("unicode.ToUpper", unicode.ToUpper)
	natReg("unicode.ToTitle", unicode.ToTitle)

	// ---- math ----
	for n, f := range map[string]func(float64) float64{"Sqrt": math.Sqrt, "Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Abs": math.Abs, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Log1p": math.Log1p,
		"Exp": math.Exp, "Exp2": math.Exp2, "Expm1": math.Expm1, "Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Round": math.Round, "RoundToEven": math.RoundToEven, "Asin": math.Asin, "Acos": math.Acos, "Atan": math.Atan,
		"Sinh": math.Sinh, "Cosh": math.Cosh, "Tanh": math.Tanh, "Asinh": math.Asinh, "Acosh": math.Acosh, "Atanh": math.Atanh, "Gamma": math.Gamma, "Cbrt": math.Cbrt} {
		natReg("math."+n, f)
		natReg("math."+strings.ToLower(n), f)
	}
	for n, f := range map[string]func(a, b float64) float64{"Mod": math.Mod, "Pow": math.Pow, "Max": math.Max, "Min": math.Min, "Atan2": math.Atan2, "Hypot": math.Hypot, "Copysign": math.Copysign, "Remainder": math.Remainder} {
		natReg("math."+n, f)
	}
	natReg("math.Inf", math.Inf)
	natReg("math.IsInf", math.IsInf)
	natReg("math.IsNaN", math.IsNaN)
	natReg("math.NaN", math.NaN)
	natReg("math.Signbit", math.Signbit)
	natReg("math.Modf", math.Modf)
	natReg("math.Frexp", math.Frexp)
	natReg("math.Ldexp", math.Ldexp)
	natReg("math.Float64bits", math.Float64bits)
	natReg("math.Float64frombits", math.Float64frombits)
	natReg("math.Float32bits", math.Float32bits)
	natReg("math.Float32frombits", math.Float32frombits)
	natReg("math/bits.Mul64", bits.Mul64)
	natReg("math/bits.LeadingZeros64", bits.LeadingZeros64)
	natReg("math/bits.TrailingZeros64", bits.TrailingZeros64)
	natReg("math/bits.Len64", bits.Len64)
	natReg("math/bits.Len", bits.Len)
	natReg("math/bits.Len32", bits.Len32)

	// ---- regexp (opaque) ----
	natReg("regexp.MustCompile", regexp.MustCompile)
	reg("regexp.Compile", func(w *Worker, fn *Func, a []Value) Value {
		r, err := regexp.Compile(w.concreteStr(a[0]))
		if err != nil {
			return tup(Value{}, w.p.newError(vStr(err.Error())))
		}
		return tup(Value{O: r}, Value{})
	})
	natReg("(*regexp.Regexp).FindAllStringIndex", (*regexp.Regexp).FindAllStringIndex)
	natReg("(*regexp.Regexp).FindStringIndex", (*regexp.Regexp).FindStringIndex)
	natReg("(*regexp.Regexp).FindStringSubmatch", (*regexp.Regexp).FindStringSubmatch)
	natReg("(*regexp.Regexp).FindAllString", (*regexp.Regexp).FindAllString)
	natReg("(*regexp.Regexp).FindString", (*regexp.Regexp).FindString)
	natReg("(*regexp.Regexp).MatchString", (*regexp.Regexp).MatchString)
	natReg("(*regexp.Regexp).ReplaceAllString", (*regexp.Regexp).ReplaceAllString)
	natReg("(*regexp.Regexp).String", (*regexp.Regexp).String)
	reg("(*regexp.Regexp).ReplaceAllStringFunc", func(w *Worker, fn *Func, a []Value) Value {
		re := a[0].O.(*regexp.Regexp)
		return vStr(re.ReplaceAllStringFunc(w.concreteStr(a[1]), func(s string) string {
			return w.concreteStr(w.callValue(a[2], []Value{vStr(s)}, nil))
		}))
	})

	// ---- crypto/sha256 ----
	reg("crypto/sha256.New", func(w *Worker, fn *Func, a []Value) Value {
		return Value{O: &Iface{w.p.shaType(), Value{O: &shaState{}}}}
	})
	reg("crypto/sha256.Sum256", func(w *Worker, fn *Func, a []Value) Value {
		return w.shaSum(w.bytesToStr(a[0]), true)
	})

	// ---- json ----
	reg("encoding/json.Marshal", func(w *Worker, fn *Func, a []Value) Value {
		r, err := w.jsonMarshal(a[0])
		if err.O != nil {
			return tup(Value{}, err)
		}
		return tup(w.strToBytes(r), Value{})
	})
	reg("encoding/json.MarshalIndent", func(w *Worker, fn *Func, a []Value) Value {
		r, err := w.jsonMarshal(a[0])
		if err.O != nil {
			return tup(Value{}, err)
		}
		return tup(w.strToBytes(w.jsonIndent(r, w.concreteStr(a[1]), w.concreteStr(a[2]))), Value{})
	})
	reg("encoding/json.Unmarshal", func(w *Worker, fn *Func, a []Value) Value { return w.jsonUnmarshal(a[0], a[1]) })

	// ---- sync ----
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "(*sync.Pool).Put", "sync.runtime_registerPoolCleanup",
		"runtime.KeepAlive", "(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock"} {
		reg(n, zeroIntr)
	}
	regs(func(w *Worker, fn *Func, a []Value) Value { return vBool(true) }, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock")
	reg("(*sync.Pool).Get", func(w *Worker, fn *Func, a []Value) Value {
		s := a[0].O.(*Struct)
		f := s.F[len(s.F)-1]
		if f.O == nil {
			return Value{}
		}
		return w.callValue(f, nil, nil)
	})
	reg("(*sync.Once).Do", func(w *Worker, fn *Func, a []Value) Value {
		// the done flag lives in the struct so that it is journaled
		s := a[0].O.(*Struct)
		for i := range s.F {
			if st, ok := s.F[i].O.(*Struct); ok && len(st.F) >= 1 {
				slot := &st.F[len(st.F)-1]
				if slot.O == nil && slot.N == 0 {
					w.set(slot, Value{N: 1})
					w.callValue(a[1], nil, nil)
				}
				return Value{}
			}
		}
		w.unsupported("sync.Once layout")
		return Value{}
	})

	// ---- atomics ----
	for _, pk := range []string{"sync/atomic", "internal/runtime/atomic"} {
		for _, x := range []struct {
			n string
			t types.BasicKind
		}{{"Int32", types.Int32}, {"Int64", types.Int64}, {"Uint32", types.Uint32}, {"Uint64", types.Uint64}, {"Uintptr", types.Uintptr}, {"Pointer", types.UnsafePointer}} {
			bt := types.Typ[x.t]
			isPtr := x.n == "Pointer"
			reg(pk+".Load"+x.n, func(w *Worker, fn *Func, a []Value) Value { return w.load(w.p.types.get(bt), a[0]) })
			reg(pk+".Store"+x.n, func(w *Worker, fn *Func, a []Value) Value {
				w.store(w.p.types.get(bt), a[0], a[1])
				return Value{}
			})
			reg(pk+".Swap"+x.n, func(w *Worker, fn *Func, a []Value) Value {
				t := w.p.types.get(bt)
				o := w.load(t, a[0])
				w.store(t, a[0], a[1])
				return o
			})
			reg(pk+".Add"+x.n, func(w *Worker, fn *Func, a []Value) Value {
				t := w.p.types.get(bt)
				o := w.load(t, a[0])
				n := Value{N: canon(t, o.N+a[1].N)}
				w.store(t, a[0], n)
				return n
			})
			reg(pk+".CompareAndSwap"+x.n, func(w *Worker, fn *Func, a []Value) Value {
				t := w.p.types.get(bt)
				o := w.load(t, a[0])
				same := o.N == a[1].N
				if isPtr {
					same = o.O == a[1].O
				}
				if same {
					w.store(t, a[0], a[2])
				}
				return vBool(same)
			})
		}
	}
	reg("(*sync/atomic.Value).Load", func(w *Worker, fn *Func, a []Value) Value { return a[0].O.(*Struct).F[0] })
	reg("(*sync/atomic.Value).Store", func(w *Worker, fn *Func, a []Value) Value {
		w.set(&a[0].O.(*Struct).F[0], a[1])
		return Value{}
	})

	// ---- errors ----
	reg("errors.Is", func(w *Worker, fn *Func, a []Value) Value {
		e := a[0]
		for i := 0; e.O != nil && i < 50; i++ {
			if a[1].O != nil && e.O.(*Iface).T == a[1].O.(*Iface).T && w.truth(w.eq(w.p.tError, e, a[1])) {
				return vBool(true)
			}
			e = w.unwrap(e)
		}
		return vBool(e.O == nil && a[0].O == nil && a[1].O == nil)
	})
	reg("errors.As", func(w *Worker, fn *Func, a []Value) Value {
		tgt := a[1].O.(*Iface)
		et := tgt.T.elem
		e := a[0]
		for i := 0; e.O != nil && i < 50; i++ {
			it := e.O.(*Iface)
			if et.k == kIface {
				if w.p.implements(it.T, et) {
					w.store(et, tgt.V, e)
					return vBool(true)
				}
			} else if it.T == et {
				w.store(et, tgt.V, it.V)
				return vBool(true)
			}
			e = w.unwrap(e)
		}
		return vBool(false)
	})

	// ---- misc ----
	reg("go.starlark.net/starlark.nanotime", zeroIntr)
	reg("go.starlark.net/starlark.hashString", func(w *Worker, fn *Func, a []Value) Value {
		s := w.concreteStr(a[0])
		h := uint32(2166136261)
		for i := 0; i < len(s); i++ {
			h ^= uint32(s[i])
			h *= 16777619
		}
		return Value{N: uint64(h)}
	})
	reg("maps.clone", func(w *Worker, fn *Func, a []Value) Value {
		if a[0].O == nil {
			return a[0]
		}
		i := a[0].O.(*Iface)
		if i.V.O == nil {
			return a[0]
		}
		return Value{O: &Iface{i.T, Value{O: i.V.O.(*Map).clone()}}}
	})
	reg("slices.overlaps", func(w *Worker, fn *Func, a []Value) Value {
		x, y := w.fix(a[0]), w.fix(a[1])
		if x.sLen() == 0 || y.sLen() == 0 || x.O != y.O {
			return vBool(false)
		}
		return vBool(x.sOff() < y.sOff()+y.sLen() && y.sOff() < x.sOff()+x.sLen())
	})
	reg("os.Getenv", zeroIntr)
	regFiles()
	reg("os.Exit", func(w *Worker, fn *Func, a []Value) Value {
		panic(abort{kind: "exit", msg: "os.Exit in " + w.stackString()})
	})
	reg("google.golang.org/protobuf/proto.Clone", func(w *Worker, fn *Func, a []Value) Value {
		if a[0].O == nil {
			return a[0]
		}
		i := a[0].O.(*Iface)
		return Value{O: &Iface{i.T, w.deepCopy(i.T, i.V)}}
	})
	reg("math/rand.Read", func(w *Worker, fn *Func, a []Value) Value {
		return tup(vInt(a[0].sLen()), Value{})
	})
	for _, x := range []struct {
		n string
		w uint8
	}{{"Intn", 64}, {"Int31n", 32}, {"Int63n", 64}, {"int31n", 32}} {
		wd := x.w
		f := func(w *Worker, n Value) Value {
			if n.O != nil {
				w.unsupported("symbolic bound in rand")
			}
			k := int64(n.N)
			if k <= 0 {
				w.panicMsg("invalid argument to Intn")
			}
			return w.randN(k, wd)
		}
		reg("(*math/rand.Rand)."+x.n, func(w *Worker, fn *Func, a []Value) Value { return f(w, a[1]) })
		reg("math/rand."+x.n, func(w *Worker, fn *Func, a []Value) Value { return f(w, a[0]) })
	}
	regs(func(w *Worker, fn *Func, a []Value) Value {
		w.unsupported("rand float")
		return Value{}
	}, "(*math/rand.Rand).Float64", "math/rand.Float64", "(*math/rand.Rand).Int63", "(*math/rand.Rand).Uint64", "(*math/rand.Rand).Uint32")
	reg("math/rand.NewSource", func(w *Worker, fn *Func, a []Value) Value {
		return Value{O: &Iface{w.p.tInt, a[0]}}
	})
	reg("math/rand.New", func(w *Worker, fn *Func, a []Value) Value {
		return fn.results.elem.newCell()
	})
	reg("runtime.GOMAXPROCS", func(w *Worker, fn *Func, a []Value) Value { return vInt(1) })
	reg("runtime.NumCPU", func(w *Worker, fn *Func, a []Value) Value { return vInt(1) })
	reg("(reflect.Value).Pointer", zeroIntr)
	reg("errors.New", func(w *Worker, fn *Func, a []Value) Value { return w.p.newError(a[0]) })
}

// captureOut keeps printed text (debugging).
var captureOut = false

// randN draws a symbolic number in [0,n), concretised on the path.
func (w *Worker) randN(n int64, width uint8) Value {
	w.randSeq++
	t := w.fresh("rand", width)
	if n == 1 {
		return Value{}
	}
	rng(w, t, 0, n-1)
	return Value{N: w.concretize(t)}
}

func (w *Worker) unwrap(e Value) Value {
	i := e.O.(*Iface)
	m := w.p.methodByName(i.T, "Unwrap")
	if m == nil || m.f.Signature.Results().Len() != 1 || m.f.Signature.Params().Len() != 0 {
		return Value{}
	}
	if !types.Identical(m.f.Signature.Results().At(0).Type(), w.p.tError.T) {
		return Value{}
	}
	return w.call(m, []Value{i.V}, nil, nil)
}

func (p *Prog) wrapErr() *RType {
	f := p.ssa.ImportedPackage("fmt")
	if f == nil || f.Type("wrapError") == nil {
		return nil
	}
	return p.types.get(types.NewPointer(f.Type("wrapError").Type()))
}

// deepCopy clones a protobuf message tree.
func (w *Worker) deepCopy(t *RType, v Value) Value {
	switch t.k {
	case kPtr:
		if v.O == nil {
			return v
		}
		c := t.elem.newCell()
		w.store(t.elem, c, w.deepCopy(t.elem, w.load(t.elem, v)))
		return c
	case kStruct:
		s := v.O.(*Struct)
		n := &Struct{F: make([]Value, len(s.F))}
		for i, f := range t.fields {
			if !isExported(t.names[i]) {
				n.F[i] = f.zero()
				continue
			}
			n.F[i] = w.deepCopy(f, s.F[i])
		}
		return Value{O: n}
	case kSlice:
		if v.O == nil {
			return v
		}
		es := w.elems(v)
		if len(es) == 0 {
			return Value{}
		}
		a := &Array{E: make([]Value, len(es))}
		for i := range es {
			a.E[i] = w.deepCopy(t.elem, es[i])
		}
		return mkSlice(a, 0, len(es), len(es))
	case kMap:
		if v.O == nil {
			return v
		}
		m := v.O.(*Map)
		n := newMap(t)
		for _, e := range m.ents {
			if e.alive {
				w.mapSet(n, e.k, w.deepCopy(t.elem, e.v))
			}
		}
		return Value{O: n}
	case kIface:
		if v.O == nil {
			return v
		}
		i := v.O.(*Iface)
		return Value{O: &Iface{i.T, w.deepCopy(i.T, i.V)}}
	}
	return v
}

// ---- sha256 ----

type shaState struct{ b ropeBuilder }

var shaNative *RType

func (p *Prog) shaType() *RType {
	p.gmu.Lock()
	defer p.gmu.Unlock()
	if shaNative != nil {
		return shaNative
	}
	// a private named pointer type standing for the digest implementation
	pk := types.NewPackage("verif/native", "native")
	n := types.NewNamed(types.NewTypeName(0, pk, "sha256", nil), types.NewStruct(nil, nil), nil)
	t := p.types.get(types.NewPointer(n))
	nat := func(name string, f Intrinsic) {
		fn := &Func{p: p, name: "sha256." + name, intr: f, nres: 1, idx: len(p.flist)}
		p.flist = append(p.flist, fn)
		t.mcache.Store(name, fn)
		t.mcache.Store("#"+name, fn)
	}
	nat("Write", func(w *Worker, fn *Func, a []Value) Value {
		a[0].O.(*shaState).b.add(w.bytesToStr(a[1]))
		n := Value{}
		if a[1].N != symFull {
			n = vInt(a[1].sLen())
		}
		return tup(n, Value{})
	})
	nat("Sum", func(w *Worker, fn *Func, a []Value) Value {
		d := w.shaSum(a[0].O.(*shaState).b.value(), false)
		return w.strToBytes(concatStr(w.bytesToStr(a[1]), d))
	})
	nat("Reset", func(w *Worker, fn *Func, a []Value) Value {
		a[0].O.(*shaState).b = ropeBuilder{}
		return Value{}
	})
	shaNative = t
	return t
}

// shaSum returns the raw digest as a string value or [32]byte array.
func (w *Worker) shaSum(v Value, arr bool) Value {
	if ss, ok := v.O.(*SymStr); ok {
		r := &SymStr{[]Seg{{k: segHashRaw, sub: ss}}}
		if arr {
			return Value{O: &Array{Sym: &SymBytes{r}}}
		}
		return Value{O: r}
	}
	d := w.sha(w.concreteStr(v))
	if arr {
		a := &Array{E: make([]Value, 32)}
		for i := range a.E {
			a.E[i] = Value{N: uint64(d[i])}
		}
		return Value{O: a}
	}
	return vStr(d)
}

var _ = fmt.Sprint
