package main

import (
	"fmt"
	"strings"
)

// ---- files: an in-memory file system per path; protobuf messages are written
// as tokens that stand for a copy of the message ----

type fileKey string
type openFile struct{ cell any }

func (w *Worker) notExist(name string) Value {
	return w.p.newError(vStr("open " + name + ": no such file or directory"))
}

func regFiles() {
	reg("os.MkdirAll", zeroIntr)
	reg("os.Mkdir", zeroIntr)
	name := func(w *Worker, v Value) string { return w.concreteStr(v) }
	create := func(w *Worker, fn *Func, n string) Value {
		w.pathAux[fileKey(n)] = vStr("")
		c := fn.results.fields[0].elem.newCell()
		w.pathAux[openFile{c.O}] = n
		return tup(c, Value{})
	}
	reg("os.Create", func(w *Worker, fn *Func, a []Value) Value { return create(w, fn, name(w, a[0])) })
	write := func(w *Worker, f Value, data Value) {
		n, ok := w.pathAux[openFile{f.O}]
		if !ok {
			return
		}
		k := fileKey(n.(string))
		w.pathAux[k] = concatStr(w.pathAux[k].(Value), data)
	}
	reg("(*os.File).Write", func(w *Worker, fn *Func, a []Value) Value {
		write(w, a[0], w.bytesToStr(a[1]))
		return tup(vInt(a[1].sLen()), Value{})
	})
	reg("(*os.File).WriteString", func(w *Worker, fn *Func, a []Value) Value {
		write(w, a[0], a[1])
		return tup(vInt(len(w.concreteStr(a[1]))), Value{})
	})
	reg("os.WriteFile", func(w *Worker, fn *Func, a []Value) Value {
		w.pathAux[fileKey(name(w, a[0]))] = w.bytesToStr(a[1])
		return Value{}
	})
	reg("os.ReadFile", func(w *Worker, fn *Func, a []Value) Value {
		n := name(w, a[0])
		if v, ok := w.pathAux[fileKey(n)]; ok {
			return tup(w.strToBytes(v.(Value)), Value{})
		}
		return tup(Value{}, w.notExist(n))
	})
	marshal := func(w *Worker, m Value) Value {
		i := m.O.(*Iface)
		n := 0
		for {
			if _, ok := w.pathAux[fileKey(fmt.Sprint("#", n))]; !ok {
				break
			}
			n++
		}
		w.pathAux[fileKey(fmt.Sprint("#", n))] = &Iface{i.T, w.deepCopy(i.T, i.V)}
		return tup(w.strToBytes(vStr(fmt.Sprintf("<message %d>", n))), Value{})
	}
	reg("google.golang.org/protobuf/proto.Marshal", func(w *Worker, fn *Func, a []Value) Value { return marshal(w, a[0]) })
	reg("(google.golang.org/protobuf/proto.MarshalOptions).Marshal", func(w *Worker, fn *Func, a []Value) Value { return marshal(w, a[1]) })
	reg("google.golang.org/protobuf/proto.Unmarshal", func(w *Worker, fn *Func, a []Value) Value {
		s := w.concreteStr(w.bytesToStr(a[0]))
		i := a[1].O.(*Iface)
		var n int
		if _, err := fmt.Sscanf(s, "<message %d>", &n); err != nil || strings.Count(s, "<") != 1 {
			w.unsupported("unmarshalling " + trunc(s, 40))
		}
		m := w.pathAux[fileKey(fmt.Sprint("#", n))].(*Iface)
		if m.T != i.T {
			w.unsupported("unmarshalling another type")
		}
		w.store(i.T.elem, i.V, w.load(i.T.elem, w.deepCopy(m.T, m.V)))
		return Value{}
	})
}

type addrKey struct{ o any }
type addrCount struct{}

// pointerStr is a pointer's address as text: different for different objects.
func (w *Worker) pointerStr(v Value) string {
	if v.O == nil {
		return "0x0"
	}
	k := addrKey{v.O}
	if s, ok := w.pathAux[k]; ok {
		return s.(string)
	}
	n, _ := w.pathAux[addrCount{}].(int)
	w.pathAux[addrCount{}] = n + 1
	s := fmt.Sprintf("0xc%09x", 16*n)
	w.pathAux[k] = s
	return s
}
