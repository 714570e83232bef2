// Package c16: work queues deliver every element once, in their declared order.
package c16

import (
	"verifh/sym"

	"github.com/fizzbee-io/fizzbee/lib"
)

// sizes around the FIFO queue's internal batch boundary (64 elements on this machine).
func boundary(name string) int {
	b := lib.CacheLineSize
	sizes := []int{0, 1, 2, b - 1, b, b + 1, 2*b - 1, 2 * b, 2*b + 1}
	return sizes[sym.Choose(name, len(sizes))]
}

// val is the i-th distinct element: a symbolic base plus its number, so that
// every element is a symbolic value and no two are equal.
type gen struct{ base, n int }

func (g *gen) next() int { g.n++; return g.base + g.n }

func steps() int {
	if sym.Tier() > 0 {
		return 6
	}
	return 4
}

func sizeOK(q lib.LinearCollection[int], n int, what string) {
	sym.Assert(q.Len() == n, what+" reports a wrong length")
	sym.Assert(q.Empty() == (n == 0), what+" reports emptiness wrongly")
}

// drive: prefill, drain, a short arbitrary sequence of adds and removes, then
// drain everything, against a model slice. pop gives the index removed next.
func drive(q lib.LinearCollection[int], what string, last bool) {
	g := &gen{base: sym.Int("base", -1000000, 1000000)}
	var m []int
	add := func() {
		v := g.next()
		q.Add(v)
		m = append(m, v)
	}
	remove := func() {
		v, ok := q.Remove()
		if len(m) == 0 {
			sym.Assert(!ok, what+" delivers an element although it is empty")
			return
		}
		i := 0
		if last {
			i = len(m) - 1
		}
		sym.Assert(ok, what+" loses an element")
		sym.Assert(v == m[i], what+" delivers the wrong element")
		if last {
			m = m[:i]
		} else {
			m = m[1:]
		}
	}
	p := boundary("prefill")
	for i := 0; i < p; i++ {
		add()
	}
	sizeOK(q, len(m), what)
	d := boundary("drain")
	sym.Assume(d <= p+1)
	for i := 0; i < d; i++ {
		remove()
	}
	sizeOK(q, len(m), what)
	for i := 0; i < steps(); i++ {
		switch sym.Choose("op", 4) {
		case 0:
			add()
		case 1:
			remove()
		case 2:
			for k := 0; k < lib.CacheLineSize; k++ {
				add()
			}
		case 3:
			for k := 0; k < lib.CacheLineSize; k++ {
				remove()
			}
		}
		sizeOK(q, len(m), what)
	}
	for len(m) > 0 {
		remove()
	}
	sizeOK(q, 0, what)
	remove()
	sym.Cover(what)
	sym.Observe("n", g.n)
}

func H_queue() { drive(lib.NewQueue[int](), "the FIFO queue", false) }
func H_stack() { drive(lib.NewStack[int](), "the stack", true) }

// H_queue_clear: ClearAll empties the queue and it works as new afterwards.
func H_queue_clear() {
	q := lib.NewQueue[int]()
	g := &gen{base: sym.Int("base", -1000000, 1000000)}
	p, d := boundary("prefill"), boundary("drain")
	sym.Assume(d <= p)
	for i := 0; i < p; i++ {
		q.Add(g.next())
	}
	for i := 0; i < d; i++ {
		q.Remove()
	}
	q.ClearAll()
	sizeOK(q, 0, "the cleared FIFO queue")
	_, ok := q.Remove()
	sym.Assert(!ok, "the cleared FIFO queue still delivers an element")
	n := boundary("refill")
	first := g.n
	for i := 0; i < n; i++ {
		q.Add(g.next())
	}
	for i := 0; i < n; i++ {
		v, ok := q.Remove()
		sym.Assert(ok && v == g.base+first+1+i, "the refilled FIFO queue delivers the wrong element")
	}
	sizeOK(q, 0, "the refilled FIFO queue")
	sym.Cover("refilled")
}

// H_stack_peek: Peek and Head show the next element to pop and the first one
// pushed; RawArray shows all in push order.
func H_stack_peek() {
	s := lib.NewStack[int]()
	g := &gen{base: sym.Int("base", -1000000, 1000000)}
	var m []int
	n := 7
	if sym.Tier() > 0 {
		n = 10
	}
	for i := 0; i < n; i++ {
		if sym.Flip("push") {
			v := g.next()
			s.Push(v)
			m = append(m, v)
		} else {
			v, ok := s.Pop()
			sym.Assert(ok == (len(m) > 0), "the stack pops when empty or not when full")
			if ok {
				sym.Assert(v == m[len(m)-1], "the stack pops the wrong element")
				m = m[:len(m)-1]
			}
		}
		top, ok1 := s.Peek()
		head, ok2 := s.Head()
		sym.Assert(ok1 == (len(m) > 0) && ok2 == ok1, "Peek or Head is wrong about emptiness")
		if ok1 {
			sym.Assert(top == m[len(m)-1], "Peek is not the next element to pop")
			sym.Assert(head == m[0], "Head is not the bottom element")
		}
		raw := s.RawArray()
		sym.Assert(len(raw) == len(m) && s.Len() == len(m), "the stack holds a wrong number of elements")
		for j := range m {
			sym.Assert(raw[j] == m[j], "the stack holds a wrong element")
		}
	}
	sym.Cover("peek")
}

func has(m []int, v int) int {
	for i, x := range m {
		if x == v {
			return i
		}
	}
	return -1
}

// H_random: every random choice; each added element comes out exactly once.
func H_random() {
	q := lib.NewRandomQueue[int](sym.Rand())
	g := &gen{base: sym.Int("base", -1000000, 1000000)}
	var m []int
	n := 6
	if sym.Tier() > 0 {
		n = 8
	}
	remove := func() {
		v, ok := q.Remove()
		sym.Assert(ok == (len(m) > 0), "the random queue delivers when empty or loses an element")
		if ok {
			i := has(m, v)
			sym.Assert(i >= 0, "the random queue delivers an element it does not hold")
			m = append(append([]int{}, m[:i]...), m[i+1:]...)
			sym.Observe("got", v-g.base)
		}
	}
	for i := 0; i < n; i++ {
		if sym.Flip("add") {
			v := g.next()
			q.Add(v)
			m = append(m, v)
		} else {
			remove()
		}
		sizeOK(q, len(m), "the random queue")
	}
	for len(m) > 0 {
		remove()
	}
	sizeOK(q, 0, "the drained random queue")
	sym.Cover("random")
}

// H_random_reach: every held element can come out next (no element starves).
func H_random_reach() {
	n := 1 + sym.Choose("n", 5)
	want := sym.Choose("want", n)
	q := lib.NewRandomQueue[int](sym.Rand())
	for i := 0; i < n; i++ {
		q.Add(i)
	}
	v, ok := q.Remove()
	sym.Assert(ok && v >= 0 && v < n, "the random queue delivers a wrong element")
	if v == want {
		sym.Cover("random-" + string(rune('0'+n)) + "-" + string(rune('0'+want)))
	}
}

// H_random_trim: Clear(k) and Retain(k) drop exactly the stated number.
func H_random_trim() {
	q := lib.NewRandomQueue[int](sym.Rand())
	g := &gen{base: sym.Int("base", -1000000, 1000000)}
	n := sym.Choose("n", 6)
	k := sym.Choose("k", 8)
	for i := 0; i < n; i++ {
		q.Add(g.next())
	}
	left := 0
	lo := 1
	switch sym.Choose("op", 3) {
	case 0:
		q.Clear(k)
		left = n - k
		if left < 0 {
			left = 0
		}
		lo = n - left + 1
	case 1:
		q.Retain(k)
		left = n
		if k < n {
			left = k
		}
	case 2:
		q.ClearAll()
	}
	sizeOK(q, left, "the trimmed random queue")
	seen := make([]bool, 16)
	for i := 0; i < left; i++ {
		v, ok := q.Remove()
		x := v - g.base
		sym.Assert(ok && x >= lo && x < lo+left && !seen[x], "the trimmed random queue delivers a wrong element")
		seen[x] = true
	}
	sizeOK(q, 0, "the trimmed random queue")
	v := g.next()
	q.Add(v)
	u, ok := q.Remove()
	sym.Assert(ok && u == v, "the trimmed random queue does not work afterwards")
	sym.Cover("trim")
}
