package main

import "fmt"

// rng gives a fresh input its range.
func rng(w *Worker, t *Term, lo, hi int64) {
	// the declaration carries the range; every query about the path sees it
	if lo > hi {
		panic(abort{kind: "assume"})
	}
	t.lo, t.hi = lo, hi
	v := sext(w.model.vals[t], t.w)
	if v < lo {
		w.model.vals[t] = uint64(lo) & mask(t.w)
	} else if v > hi {
		w.model.vals[t] = uint64(hi) & mask(t.w)
	}
}

// Intrinsics of the harness API verifh/sym.
func init() {
	s := func(n string, f Intrinsic) { reg("verifh/sym."+n, f) }
	s("Int", func(w *Worker, fn *Func, a []Value) Value {
		t := w.fresh(w.concreteStr(a[0]), 64)
		rng(w, t, int64(a[1].N), int64(a[2].N))
		return Value{O: t}
	})
	s("Choose", func(w *Worker, fn *Func, a []Value) Value {
		n := w.concInt(a[1])
		if n <= 1 {
			return Value{}
		}
		t := w.fresh(w.concreteStr(a[0]), 64)
		rng(w, t, 0, int64(n-1))
		return Value{N: w.concretize(t)}
	})
	s("Int64", func(w *Worker, fn *Func, a []Value) Value { return Value{O: w.fresh(w.concreteStr(a[0]), 64)} })
	s("Int32", func(w *Worker, fn *Func, a []Value) Value { return Value{O: w.fresh(w.concreteStr(a[0]), 32)} })
	s("Uint64", func(w *Worker, fn *Func, a []Value) Value { return Value{O: w.fresh(w.concreteStr(a[0]), 64)} })
	s("Byte", func(w *Worker, fn *Func, a []Value) Value { return Value{O: w.fresh(w.concreteStr(a[0]), 8)} })
	s("Bool", func(w *Worker, fn *Func, a []Value) Value { return Value{O: w.fresh(w.concreteStr(a[0]), 0)} })
	s("Flip", func(w *Worker, fn *Func, a []Value) Value {
		return vBool(w.branch(w.fresh(w.concreteStr(a[0]), 0)))
	})
	s("Concrete", func(w *Worker, fn *Func, a []Value) Value { return vInt(w.concInt(a[0])) })
	s("Assume", func(w *Worker, fn *Func, a []Value) Value { w.assume(a[0]); return Value{} })
	s("Assert", func(w *Worker, fn *Func, a []Value) Value {
		w.assertCond(a[0], w.concreteStr(a[1]))
		return Value{}
	})
	s("Cover", func(w *Worker, fn *Func, a []Value) Value {
		w.covers[w.concreteStr(a[0])] = true
		return Value{}
	})
	s("Observe", func(w *Worker, fn *Func, a []Value) Value {
		w.obs = append(w.obs, Obs{w.concreteStr(a[0]), a[1]})
		return Value{}
	})
	s("InEngine", func(w *Worker, fn *Func, a []Value) Value { return vBool(true) })
	s("Tier", func(w *Worker, fn *Func, a []Value) Value { return vInt(w.e.tier) })
	s("And", func(w *Worker, fn *Func, a []Value) Value { return w.andV(a[0], a[1]) })
	s("Or", func(w *Worker, fn *Func, a []Value) Value { return w.notV(w.andV(w.notV(a[0]), w.notV(a[1]))) })
	s("Not", func(w *Worker, fn *Func, a []Value) Value { return w.notV(a[0]) })
	s("Ite", func(w *Worker, fn *Func, a []Value) Value {
		if a[0].O == nil {
			if a[0].N != 0 {
				return a[1]
			}
			return a[2]
		}
		return w.scalar(w.p.tInt, w.pool.ite(a[0].O.(*Term), w.toTerm(w.p.tInt, a[1]), w.toTerm(w.p.tInt, a[2])))
	})
	s("StrEq", func(w *Worker, fn *Func, a []Value) Value { return w.eq(w.p.tString, a[0], a[1]) })
	s("MapOrder", func(w *Worker, fn *Func, a []Value) Value {
		w.mapRev = w.truth(a[0])
		return Value{}
	})
	s("Debug", func(w *Worker, fn *Func, a []Value) Value {
		fmt.Println("DEBUG", w.evalObs(a[0]))
		return Value{}
	})
}
