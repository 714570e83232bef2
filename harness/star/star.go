// Package star has small helpers to drive Starlark values from harnesses.
package star

import (
	"verifh/sym"

	"go.starlark.net/starlark"
	"go.starlark.net/syntax"
)

var thread = &starlark.Thread{Name: "verif"}

// Call invokes a method of a value.
func Call(recv starlark.Value, name string, args ...starlark.Value) (starlark.Value, error) {
	return CallKw(recv, name, nil, args...)
}

// CallKw invokes a method with keyword arguments.
func CallKw(recv starlark.Value, name string, kw []starlark.Tuple, args ...starlark.Value) (starlark.Value, error) {
	a, ok := recv.(starlark.HasAttrs)
	sym.Assert(ok, "value has no methods")
	m, err := a.Attr(name)
	sym.Assert(err == nil && m != nil, "method "+name+" is missing")
	return m.(starlark.Callable).CallInternal(thread, starlark.Tuple(args), kw)
}

// Fn invokes a builtin function.
func Fn(f starlark.Value, args ...starlark.Value) (starlark.Value, error) {
	return f.(starlark.Callable).CallInternal(thread, starlark.Tuple(args), nil)
}

// FnKw invokes a builtin function with keyword arguments.
func FnKw(f starlark.Value, kw []starlark.Tuple, args ...starlark.Value) (starlark.Value, error) {
	return f.(starlark.Callable).CallInternal(thread, starlark.Tuple(args), kw)
}

func Int(i int) starlark.Value { return starlark.MakeInt(i) }

// IntOf reads an int value.
func IntOf(v starlark.Value) int {
	i, ok := v.(starlark.Int)
	sym.Assert(ok, "value is not an int")
	n, ok := i.Int64()
	sym.Assert(ok, "value is not a small int")
	return int(n)
}

// Elems iterates a value.
func Elems(v starlark.Value) []starlark.Value {
	it, ok := v.(starlark.Iterable)
	sym.Assert(ok, "value is not iterable")
	i := it.Iterate()
	defer i.Done()
	var out []starlark.Value
	var x starlark.Value
	for i.Next(&x) {
		out = append(out, x)
	}
	return out
}

// In is the Starlark expression x in y.
func In(x, y starlark.Value) bool {
	r, err := starlark.Binary(syntax.IN, x, y)
	sym.Assert(err == nil, "'in' fails")
	return bool(r.(starlark.Bool))
}

// Len is len(v).
func Len(v starlark.Value) int { return starlark.Len(v) }

// List makes a list of ints.
func List(xs ...int) *starlark.List {
	var l []starlark.Value
	for _, x := range xs {
		l = append(l, Int(x))
	}
	return starlark.NewList(l)
}
