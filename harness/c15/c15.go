// Package c15: itertools and sum match their Python definitions.
package c15

import (
	"verifh/star"
	"verifh/sym"

	"github.com/fizzbee-io/fizzbee/lib"
	"go.starlark.net/starlark"
)

var names = []string{"0", "1", "2", "3", "4", "5", "6", "7"}

func fn(name string) starlark.Value {
	v := lib.ItertoolsModule.Members[name]
	sym.Assert(v != nil, "itertools."+name+" is missing")
	return v
}

// pool makes n symbolic values and an iterable of them.
func pool(prefix string, n int) ([]int, starlark.Value) {
	var xs []int
	var vs []starlark.Value
	for i := 0; i < n; i++ {
		x := sym.Int(prefix+names[i], -1000, 1000)
		xs = append(xs, x)
		vs = append(vs, star.Int(x))
	}
	if sym.Choose(prefix+"kind", 2) == 0 {
		return xs, starlark.NewList(vs)
	}
	return xs, starlark.Tuple(vs)
}

// checkTuples: r is exactly the list of the wanted tuples, in order.
func checkTuples(r starlark.Value, want [][]int, what string) {
	got := star.Elems(r)
	sym.Assert(len(got) == len(want), what+" yields the wrong number of tuples")
	for i, g := range got {
		t, ok := g.(starlark.Tuple)
		sym.Assert(ok && len(t) == len(want[i]), what+" yields something that is not a tuple of the right length")
		for j := range t {
			sym.Assert(star.IntOf(t[j]) == want[i][j], what+" yields a wrong tuple")
		}
	}
	sym.Observe("n", len(got))
}

// tuples enumerates all index tuples over the given pool sizes in odometer order.
func tuples(sizes []int) [][]int {
	total := 1
	for _, s := range sizes {
		total *= s
	}
	var out [][]int
	for k := 0; k < total; k++ {
		t := make([]int, len(sizes))
		x := k
		for i := len(sizes) - 1; i >= 0; i-- {
			t[i] = x % sizes[i]
			x /= sizes[i]
		}
		out = append(out, t)
	}
	return out
}

func rep(n, r int) []int {
	var s []int
	for i := 0; i < r; i++ {
		s = append(s, n)
	}
	return s
}

func sel(xs []int, t []int) []int {
	out := []int{}
	for _, i := range t {
		out = append(out, xs[i])
	}
	return out
}

func maxPools() int {
	if sym.Tier() > 0 {
		return 6
	}
	return 5
}

func H_product() {
	k := sym.Choose("pools", maxPools()+1)
	var pools [][]int
	var args []starlark.Value
	var sizes []int
	for i := 0; i < k; i++ {
		m := 3
		if i >= 3 {
			m = 2
		}
		n := sym.Choose("size"+names[i], m+1)
		p, v := pool(names[i]+"x", n)
		pools, args, sizes = append(pools, p), append(args, v), append(sizes, n)
	}
	r, err := star.Fn(fn("product"), args...)
	sym.Assert(err == nil, "product fails")
	var want [][]int
	for _, t := range tuples(sizes) {
		w := []int{}
		for i, j := range t {
			w = append(w, pools[i][j])
		}
		want = append(want, w)
	}
	checkTuples(r, want, "product")
	sym.Cover("product")
}

func H_product_repeat() {
	k := sym.Choose("pools", 3)
	repeat := sym.Choose("repeat", 4)
	var pools [][]int
	var args []starlark.Value
	for i := 0; i < k; i++ {
		p, v := pool(names[i]+"x", sym.Choose("size"+names[i], 3))
		pools, args = append(pools, p), append(args, v)
	}
	r, err := star.FnKw(fn("product"), []starlark.Tuple{{starlark.String("repeat"), star.Int(repeat)}}, args...)
	sym.Assert(err == nil, "product with repeat fails")
	var all [][]int
	var sizes []int
	for c := 0; c < repeat; c++ {
		for _, p := range pools {
			all = append(all, p)
			sizes = append(sizes, len(p))
		}
	}
	var want [][]int
	for _, t := range tuples(sizes) {
		w := []int{}
		for i, j := range t {
			w = append(w, all[i][j])
		}
		want = append(want, w)
	}
	checkTuples(r, want, "product with repeat")
	_, err = star.FnKw(fn("product"), []starlark.Tuple{{starlark.String("repeet"), star.Int(repeat)}}, args...)
	sym.Assert(err != nil, "product accepts an unknown keyword")
	sym.Cover("product repeat")
}

func size() int {
	if sym.Tier() > 0 {
		return 6
	}
	return 5
}

// choosers: combinations, permutations, combinations_with_replacement for every n and r.
func choosers(name string, keep func(t []int) bool) {
	n := sym.Choose("n", size()+1)
	r := sym.Choose("r", size()+2)
	if name == "combinations_with_replacement" || name == "permutations" {
		sym.Assume(r <= 4)
	}
	xs, v := pool("x", n)
	kw := sym.Choose("kw", 2) == 1
	var res starlark.Value
	var err error
	if kw {
		res, err = star.FnKw(fn(name), []starlark.Tuple{{starlark.String("r"), star.Int(r)}}, v)
	} else {
		res, err = star.Fn(fn(name), v, star.Int(r))
	}
	sym.Assert(err == nil, name+" fails")
	var want [][]int
	if n > 0 || r == 0 {
		for _, t := range index(n, r) {
			if keep(t) {
				want = append(want, sel(xs, t))
			}
		}
	}
	checkTuples(res, want, name)
	sym.Cover(name)
}

// index is all index tuples of length r below n, except that tuples with an early conflict are cut to keep it small.
func index(n, r int) [][]int {
	out := [][]int{{}}
	for i := 0; i < r; i++ {
		var next [][]int
		for _, t := range out {
			for j := 0; j < n; j++ {
				next = append(next, append(append([]int(nil), t...), j))
			}
		}
		out = next
		if len(out) > 20000 {
			break
		}
	}
	var res [][]int
	for _, t := range out {
		if len(t) == r {
			res = append(res, t)
		}
	}
	return res
}

func H_combinations() {
	choosers("combinations", func(t []int) bool {
		for i := 1; i < len(t); i++ {
			if t[i-1] >= t[i] {
				return false
			}
		}
		return true
	})
}

func H_combinations_with_replacement() {
	choosers("combinations_with_replacement", func(t []int) bool {
		for i := 1; i < len(t); i++ {
			if t[i-1] > t[i] {
				return false
			}
		}
		return true
	})
}

func H_permutations() {
	choosers("permutations", distinct)
}

func distinct(t []int) bool {
	for i := range t {
		for j := 0; j < i; j++ {
			if t[i] == t[j] {
				return false
			}
		}
	}
	return true
}

// H_permutations_default: without r, permutations have full length.
func H_permutations_default() {
	n := sym.Choose("n", 5)
	xs, v := pool("x", n)
	var res starlark.Value
	var err error
	if sym.Choose("none", 2) == 1 {
		res, err = star.Fn(fn("permutations"), v, starlark.None)
	} else {
		res, err = star.Fn(fn("permutations"), v)
	}
	sym.Assert(err == nil, "permutations without r fails")
	var want [][]int
	for _, t := range index(n, n) {
		if distinct(t) {
			want = append(want, sel(xs, t))
		}
	}
	checkTuples(res, want, "permutations without r")
}

// H_negative: a negative length yields no tuple (an error, as in Python, or an empty list).
func H_negative() {
	fs := []string{"combinations", "permutations", "combinations_with_replacement"}
	f := fs[sym.Choose("fn", 3)]
	_, v := pool("x", sym.Choose("n", 3))
	r := sym.Int("r", -3, -1)
	res, err := star.Fn(fn(f), v, star.Int(r))
	sym.Assert(err != nil || len(star.Elems(res)) == 0, f+" yields tuples of negative length")
	_, err = star.Fn(fn(f), star.Int(1), star.Int(1))
	sym.Assert(err != nil, f+" accepts something that is not iterable")
}

func H_chain() {
	k := sym.Choose("pools", 5)
	var args []starlark.Value
	var want []int
	for i := 0; i < k; i++ {
		p, v := pool(names[i]+"x", sym.Choose("size"+names[i], 4))
		args, want = append(args, v), append(want, p...)
	}
	r, err := star.Fn(fn("chain"), args...)
	sym.Assert(err == nil, "chain fails")
	got := star.Elems(r)
	sym.Assert(len(got) == len(want), "chain yields the wrong number of elements")
	for i := range got {
		sym.Assert(star.IntOf(got[i]) == want[i], "chain yields a wrong element")
	}
	_, err = star.Fn(fn("chain"), append(args, star.Int(1))...)
	sym.Assert(err != nil, "chain accepts something that is not iterable")
	sym.Cover("chain")
}

// H_sum: integer sums.
func H_sum() {
	n := sym.Choose("n", 6)
	var vs []starlark.Value
	want := 0
	for i := 0; i < n; i++ {
		x := sym.Int("x"+names[i], -1<<27, 1<<27)
		want += x
		vs = append(vs, star.Int(x))
	}
	args := []starlark.Value{starlark.NewList(vs)}
	if sym.Choose("start", 2) == 1 {
		s := sym.Int("s", -1<<27, 1<<27)
		want += s
		args = append(args, star.Int(s))
	}
	r, err := star.Fn(lib.Builtins["sum"], args...)
	sym.Assert(err == nil, "sum fails")
	sym.Assert(star.IntOf(r) == want, "sum is wrong")
	sym.Observe("sum", star.IntOf(r))
	sym.Cover("sum")
}

// H_sum_big: sums across the boundary between small and big integers, and with floats.
func H_sum_big() {
	big := []int64{1<<31 - 1, 1 << 31, -1 << 31, -1<<31 - 1, 1<<53 + 1, -1, 1, 0}
	var vs []starlark.Value
	var want int64
	f := false
	fw := 0.0
	n := 1 + sym.Choose("n", 3)
	for i := 0; i < n; i++ {
		x := big[sym.Choose("x"+names[i], len(big))]
		if sym.Choose("float"+names[i], 2) == 1 && x < 1<<40 {
			f = true
			vs = append(vs, starlark.Float(float64(x)))
		} else {
			vs = append(vs, starlark.MakeInt64(x))
		}
		want += x
		fw += float64(x)
	}
	r, err := star.Fn(lib.Builtins["sum"], starlark.Tuple(vs))
	sym.Assert(err == nil, "sum fails")
	if f {
		g, ok := r.(starlark.Float)
		sym.Assert(ok, "a sum with a float is not a float")
		d := float64(g) - float64(want)
		sym.Assert(d <= 4 && d >= -4, "a sum with floats is wrong")
	} else {
		i, ok := r.(starlark.Int)
		sym.Assert(ok, "a sum of ints is not an int")
		x, ok := i.Int64()
		sym.Assert(ok && x == want, "a sum of big ints is wrong")
	}
	_, err = star.Fn(lib.Builtins["sum"], starlark.Tuple{starlark.String("a")})
	sym.Assert(err != nil, "sum accepts strings")
	sym.Cover("sum big")
}
