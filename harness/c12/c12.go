// Package c12: symmetry domains hand out values within their contract.
package c12

import (
	ast "fizz/proto"
	"verifh/spec"
	"verifh/star"
	"verifh/sym"
	"verifh/ts"

	"github.com/fizzbee-io/fizzbee/lib"
	"github.com/fizzbee-io/fizzbee/modelchecker"
	"go.starlark.net/starlark"
)

func more(quick, thorough int) int {
	if sym.Tier() > 0 {
		return thorough
	}
	return quick
}

// dom is a domain with a set of live positions.
type dom struct {
	d      starlark.Value
	thread *starlark.Thread
	live   []int64 // ascending
}

var names = []string{"a", "b", "c", "d", "e", "f"}

func setup(d starlark.Value, live []int64, last int) *dom {
	scan := func() map[string][]int64 {
		// also values of an unrelated domain
		return map[string][]int64{"x": append([]int64(nil), live...), "other": {0, 1, 2, 3}}
	}
	ctx := lib.NewSymmetryContext(scan)
	if last >= 0 {
		ctx = lib.NewSymmetryContextWithLastAllocated(scan, map[string]int64{"x": int64(last)})
	}
	th := &starlark.Thread{Name: "verif"}
	th.SetLocal(lib.SymmetryContextKey, ctx)
	return &dom{d: d, thread: th, live: live}
}

func (d *dom) call(recv starlark.Value, name string, kw []starlark.Tuple) (starlark.Value, error) {
	m, err := recv.(starlark.HasAttrs).Attr(name)
	sym.Assert(err == nil && m != nil, "a method of a domain is missing: "+name)
	return m.(starlark.Callable).CallInternal(d.thread, nil, kw)
}

func (d *dom) isLive(id int64) bool {
	r := false
	for _, x := range d.live {
		r = sym.Or(r, x == id)
	}
	return r
}

// add inserts id (not live) keeping the order.
func (d *dom) add(id int64) {
	var out []int64
	done := false
	for _, x := range d.live {
		if !done && id < x {
			out, done = append(out, id), true
		}
		out = append(out, x)
	}
	if !done {
		out = append(out, id)
	}
	d.live = out
}

func id(v starlark.Value, kind lib.SymmetryKind, limit int) int64 {
	s, ok := v.(*lib.SymmetricValue)
	sym.Assert(ok, "a domain hands out something else than a symmetric value")
	sym.Assert(s.GetPrefix() == "x" && s.GetKind() == kind, "a handed out value has another domain or kind")
	if kind == lib.SymmetryKindRotational {
		sym.Assert(s.Limit == limit, "a ring value has another ring size")
	}
	return s.GetId()
}

func (d *dom) sameList(v starlark.Value, kind lib.SymmetryKind, limit int, want []int64, label string) {
	es := star.Elems(v)
	sym.Assert(len(es) == len(want), label)
	for i, e := range es {
		sym.Assert(id(e, kind, limit) == want[i], label)
	}
}

// subset chooses a set of at most max positions of [lo,lo+n).
func subset(lo, n, max int) []int64 {
	var out []int64
	for i := 0; i < n; i++ {
		if len(out) < max && sym.Flip("live"+names[i]) {
			out = append(out, int64(lo+i))
		}
	}
	return out
}

func kw(pairs ...any) []starlark.Tuple {
	var out []starlark.Tuple
	for i := 0; i < len(pairs); i += 2 {
		var v starlark.Value
		switch x := pairs[i+1].(type) {
		case int:
			v = starlark.MakeInt(x)
		case bool:
			v = starlark.Bool(x)
		case string:
			v = starlark.String(x)
		case starlark.Value:
			v = x
		}
		out = append(out, starlark.Tuple{starlark.String(pairs[i].(string)), v})
	}
	return out
}

func make_(kind string, k []starlark.Tuple) (starlark.Value, error) {
	return star.FnKw(lib.SymmetryModule.Members[kind], k)
}

func mustMake(kind string, k []starlark.Tuple) starlark.Value {
	v, err := make_(kind, k)
	sym.Assert(err == nil, "a valid domain is refused")
	return v
}

// nominal and rotational domains: fresh, values, choices, choose
func H_finite() {
	limit := 2 + sym.Choose("limit", more(3, 4))
	kind, kname := lib.SymmetryKindNominal, "nominal"
	last := -1
	if sym.Flip("ring") {
		kind, kname = lib.SymmetryKindRotational, "rotational"
		last = sym.Choose("last", limit+1) - 1
	}
	d := setup(mustMake(kname, kw("name", "x", "limit", limit)), subset(0, limit, limit), last)
	for i := 0; i < 2; i++ {
		n := len(d.live)
		switch sym.Choose("op"+names[i], 4) {
		case 0:
			v, err := d.call(d.d, "fresh", nil)
			if n >= limit {
				sym.Assert(err != nil && lib.IsDisableTransitionError(err), "fresh() beyond the limit does not disable the transition")
				sym.Cover("full")
				return
			}
			sym.Assert(err == nil, "fresh() within the limit fails")
			p := id(v, kind, limit)
			sym.Assert(sym.Not(d.isLive(p)), "fresh() returns a live value")
			sym.Assert(sym.And(p >= 0, p < int64(limit)), "fresh() leaves the domain")
			if kind == lib.SymmetryKindNominal {
				for j := int64(0); j < p; j++ {
					sym.Assert(d.isLive(j), "fresh() of a nominal domain is not the smallest unused value")
				}
			}
			d.add(p)
			sym.Cover("fresh")
		case 1:
			v, err := d.call(d.d, "values", nil)
			sym.Assert(err == nil, "values() fails")
			d.sameList(v, kind, limit, d.live, "values() is not the list of live values in order")
			sym.Cover("values")
		case 2:
			v, err := d.call(d.d, "choices", nil)
			sym.Assert(err == nil, "choices() fails")
			es := star.Elems(v)
			want := n
			if n < limit {
				want++
			}
			sym.Assert(len(es) == want, "choices() is not the live values and one fresh value")
			extra := 0
			prev := int64(-1)
			for _, e := range es {
				p := id(e, kind, limit)
				sym.Assert(sym.And(p > prev, p < int64(limit)), "choices() is not in order or leaves the domain")
				prev = p
				if !d.isLive(p) {
					extra++
				}
			}
			sym.Assert(extra == want-n, "choices() misses a live value")
			sym.Cover("choices")
			return
		case 3:
			v, err := d.call(d.d, "choose", nil)
			sym.Assert(err == nil, "choose() fails")
			p := id(v, kind, limit)
			if n > 0 {
				sym.Assert(p == d.live[0], "choose() is not the first live value")
			} else {
				sym.Assert(sym.And(p >= 0, p < int64(limit)), "choose() leaves the domain")
				d.add(p)
			}
			sym.Cover("choose")
		}
	}
}

// interval domains: fresh, values, min, max with limit, divergence and start
func H_interval() {
	div := 1 + sym.Choose("divergence", more(3, 4))
	limit := 1 + sym.Choose("limit", div+1)
	start := sym.Int("start", -1000, 1000)
	var dv starlark.Value
	switch {
	case limit == div+1 && sym.Flip("only divergence"):
		dv = mustMake("interval", kw("name", "x", "divergence", div, "start", start))
	case limit == div+1 && sym.Flip("only limit"):
		dv = mustMake("interval", kw("name", "x", "limit", limit, "start", start))
	default:
		dv = mustMake("interval", kw("name", "x", "limit", limit, "divergence", div, "start", start))
	}
	// live values within the contract, anywhere
	base := sym.Int("base", -1<<40, 1<<40)
	rel := subset(0, div+1, limit)
	live := make([]int64, len(rel))
	for i, r := range rel {
		live[i] = int64(base) + r
	}
	d := setup(dv, live, -1)
	for i := 0; i < 2; i++ {
		n := len(d.live)
		switch sym.Choose("op"+names[i], 4) {
		case 0:
			v, err := d.call(d.d, "fresh", nil)
			if n >= limit || n > 0 && d.live[n-1]+1-d.live[0] > int64(div) {
				sym.Assert(err != nil && lib.IsDisableTransitionError(err), "fresh() beyond the limit or the divergence does not disable the transition")
				sym.Cover("full")
				return
			}
			sym.Assert(err == nil, "fresh() within the limit and the divergence fails")
			p := id(v, lib.SymmetryKindInterval, 0)
			if n == 0 {
				sym.Assert(p == int64(start), "the first value of an interval domain is not its start")
			} else {
				sym.Assert(p == d.live[n-1]+1, "fresh() of an interval domain is not the next value")
			}
			d.add(p)
			sym.Cover("fresh")
		case 1:
			v, err := d.call(d.d, "values", nil)
			sym.Assert(err == nil, "values() fails")
			d.sameList(v, lib.SymmetryKindInterval, 0, d.live, "values() is not the list of live values in order")
			sym.Cover("values")
		default:
			op, j := "min", 0
			if sym.Flip("max" + names[i]) {
				op, j = "max", n-1
			}
			v, err := d.call(d.d, op, nil)
			sym.Assert(err == nil, "min() or max() fails")
			p := id(v, lib.SymmetryKindInterval, 0)
			if n > 0 {
				sym.Assert(p == d.live[j], "min() or max() is not the extreme live value")
			} else {
				sym.Assert(p == int64(start), "min() or max() of an empty domain is not its start")
				d.add(p)
			}
			sym.Cover("extreme")
		}
	}
}

// ordinal positions far enough from each other and from the ends of the number space to insert between
const far = int64(1) << 50

func H_ordinal() {
	limit := 1 + sym.Choose("limit", more(3, 4))
	dv := mustMake("ordinal", kw("name", "x", "limit", limit))
	n := sym.Choose("live", limit+1)
	var live []int64
	prev := int64(0)
	for i := 0; i < n; i++ {
		x := sym.Int64("pos" + names[i])
		sym.Assume(sym.And(x >= prev+8, x <= prev+far))
		live = append(live, x)
		prev = x
	}
	d := setup(dv, live, -1)
	for i := 0; i < 2; i++ {
		n := len(d.live)
		op := 1
		if i == 0 {
			op = sym.Choose("op", 4)
		}
		switch op {
		case 0:
			v, err := d.call(d.d, "fresh", nil)
			if n >= limit {
				sym.Assert(err != nil && lib.IsDisableTransitionError(err), "fresh() beyond the limit does not disable the transition")
				sym.Cover("full")
				return
			}
			sym.Assert(err == nil, "fresh() within the limit fails")
			p := id(v, lib.SymmetryKindOrdinal, 0)
			if n > 0 {
				sym.Assert(p > d.live[n-1], "fresh() of an ordinal domain is not greater than every live value")
			}
			d.live = append(append([]int64(nil), d.live...), p)
			sym.Cover("fresh")
		case 1:
			v, err := d.call(d.d, "values", nil)
			sym.Assert(err == nil, "values() fails")
			d.sameList(v, lib.SymmetryKindOrdinal, 0, d.live, "values() is not the list of live values in order")
			sym.Cover("values")
		case 2:
			op, j := "min", 0
			if sym.Flip("max" + names[i]) {
				op, j = "max", n-1
			}
			v, err := d.call(d.d, op, nil)
			sym.Assert(err == nil, "min() or max() fails")
			p := id(v, lib.SymmetryKindOrdinal, 0)
			if n > 0 {
				sym.Assert(p == d.live[j], "min() or max() is not the extreme live value")
			} else {
				d.live = []int64{p}
			}
			sym.Cover("extreme")
		case 3:
			d.segments(limit, i)
			if len(d.live) == n {
				return
			}
		}
	}
}

// segments checks segments(after, before) and inserts into one of them.
func (d *dom) segments(limit, i int) {
	n := len(d.live)
	lo, hi := 0, n // gaps lo..hi: gap g lies before live value g
	var k []starlark.Tuple
	val := func(j int) starlark.Value {
		return lib.NewSymmetricValueWithKind("x", d.live[j], lib.SymmetryKindOrdinal)
	}
	if n > 0 && sym.Flip("after"+names[i]) {
		j := sym.Choose("afterPos"+names[i], n)
		lo = j + 1
		k = append(k, kw("after", val(j))...)
	}
	if n > 0 && sym.Flip("before"+names[i]) {
		j := sym.Choose("beforePos"+names[i], n)
		hi = j
		k = append(k, kw("before", val(j))...)
	}
	v, err := d.call(d.d, "segments", k)
	sym.Assert(err == nil, "segments() fails")
	gaps := star.Elems(v)
	want := hi - lo + 1
	if want < 0 {
		want = 0
	}
	sym.Assert(len(gaps) == want, "segments() does not list every gap in range exactly once")
	if want == 0 {
		sym.Cover("no gap")
		return
	}
	j := sym.Choose("gap"+names[i], want)
	w, err := d.call(gaps[j], "fresh", nil)
	if n >= limit {
		sym.Assert(err != nil && lib.IsDisableTransitionError(err), "fresh() of a segment beyond the limit does not disable the transition")
		sym.Cover("segment full")
		return
	}
	sym.Assert(err == nil, "fresh() of a segment within the limit fails")
	p := id(w, lib.SymmetryKindOrdinal, 0)
	g := lo + j
	if g > 0 {
		sym.Assert(p > d.live[g-1], "fresh() of a segment is not greater than the value before the gap")
	}
	if g < n {
		sym.Assert(p < d.live[g], "fresh() of a segment is not smaller than the value after the gap")
	}
	var out []int64
	out = append(out, d.live[:g]...)
	out = append(out, p)
	d.live = append(out, d.live[g:]...)
	sym.Cover("segment fresh")
}

// an ordinal domain with few live values never runs out of positions
func H_ordinal_window() {
	window := 1 + sym.Choose("window", 3)
	dv := mustMake("ordinal", kw("name", "x", "limit", window))
	how := sym.Choose("how", 3) // append, append by the last segment, insert by the first segment
	var live []int64
	for i := 0; i < 100; i++ {
		d := setup(dv, live, -1)
		var v starlark.Value
		var err error
		if how == 0 {
			v, err = d.call(dv, "fresh", nil)
		} else {
			w, err1 := d.call(dv, "segments", nil)
			sym.Assert(err1 == nil, "segments() fails")
			gaps := star.Elems(w)
			g := gaps[0]
			if how == 1 {
				g = gaps[len(gaps)-1]
			}
			v, err = d.call(g, "fresh", nil)
		}
		sym.Assert(err == nil, "fresh() of an ordinal domain fails below its limit")
		p := id(v, lib.SymmetryKindOrdinal, 0)
		n := len(live)
		if how < 2 {
			sym.Assert(n == 0 || p > live[n-1], "fresh() of an ordinal domain is not greater than every live value")
			live = append(append([]int64(nil), live...), p)
			if len(live) == window {
				live = live[1:]
			}
		} else {
			sym.Assert(n == 0 || p < live[0], "fresh() of the first segment is not smaller than every live value")
			live = append([]int64{p}, live...)
			if len(live) == window {
				live = live[:window-1]
			}
		}
	}
	sym.Cover("window")
}

// materialized domains have all their values from the start and no others
func H_materialized() {
	kinds := []string{"nominal", "ordinal", "interval", "rotational"}
	kn := kinds[sym.Choose("kind", 4)]
	kind := lib.SymmetryKind(kn)
	limit := 2 + sym.Choose("limit", 3)
	start := 0
	k := kw("name", "x", "limit", limit, "materialize", true)
	if kn == "interval" {
		start = sym.Int("start", -100, 100)
		k = append(k, kw("start", start)...)
	}
	var all []int64
	for i := 0; i < limit; i++ {
		all = append(all, int64(start+i))
	}
	var live []int64
	for i, x := range all {
		if sym.Flip("live" + names[i]) {
			live = append(live, x)
		}
	}
	d := setup(mustMake(kn, k), live, -1)
	switch sym.Choose("op", 5) {
	case 0:
		v, err := d.call(d.d, "values", nil)
		sym.Assert(err == nil, "values() fails")
		d.sameList(v, kind, limit, all, "values() of a materialized domain is not every value in order")
		sym.Cover("values")
	case 1:
		_, err := d.call(d.d, "fresh", nil)
		sym.Assert(err != nil, "fresh() of a materialized domain returns a value")
		sym.Cover("fresh")
	case 2:
		if kn == "nominal" || kn == "rotational" {
			v, err := d.call(d.d, "choices", nil)
			sym.Assert(err == nil, "choices() fails")
			d.sameList(v, kind, limit, all, "choices() of a materialized domain is not every value in order")
			w, err := d.call(d.d, "choose", nil)
			sym.Assert(err == nil && id(w, kind, limit) == all[0], "choose() of a materialized domain is not its first value")
			sym.Cover("choices")
		}
	case 3:
		if kn == "ordinal" || kn == "interval" {
			v, err := d.call(d.d, "min", nil)
			sym.Assert(err == nil && id(v, kind, limit) == all[0], "min() of a materialized domain is not its first value")
			v, err = d.call(d.d, "max", nil)
			sym.Assert(err == nil && id(v, kind, limit) == all[limit-1], "max() of a materialized domain is not its last value")
			sym.Cover("extremes")
		}
	case 4:
		if kn == "ordinal" {
			v, err := d.call(d.d, "segments", nil)
			sym.Assert(err == nil, "segments() fails")
			gaps := star.Elems(v)
			for _, g := range gaps {
				_, err := d.call(g, "fresh", nil)
				sym.Assert(err != nil, "a segment of a materialized domain hands out a new value")
			}
			sym.Cover("segments")
		}
	}
}

// domains with a contract that cannot hold are refused, and operations of another kind are absent
func H_declare() {
	kinds := []string{"nominal", "ordinal", "interval", "rotational"}
	ki := sym.Choose("kind", 4)
	kn := kinds[ki]
	limit := sym.Int("limit", -3, 6)
	k := kw("name", "x", "limit", limit)
	ok := limit > 0
	if kn == "rotational" {
		ok = limit > 1
	}
	div := limit - 1
	if kn == "interval" {
		sym.Assume(limit != -1)
		if sym.Flip("divergence") {
			div = sym.Int("div", -3, 6)
			sym.Assume(div != -1)
			k = append(k, kw("divergence", div)...)
			ok = limit > 0 && div >= 0 && limit <= div+1
		}
	}
	v, err := make_(kn, k)
	sym.Assert((err == nil) == ok, "a domain is refused although its contract can hold, or accepted although it cannot")
	if !ok {
		sym.Cover("refused")
		return
	}
	has := func(name string) bool {
		m, err := v.(starlark.HasAttrs).Attr(name)
		return err == nil && m != nil
	}
	table := map[string][]bool{ // by kind
		"fresh": {true, true, true, true}, "values": {true, true, true, true},
		"choose": {true, false, false, true}, "choices": {true, false, false, true},
		"min": {false, true, true, false}, "max": {false, true, true, false},
		"segments": {false, true, false, false},
	}
	for _, name := range []string{"fresh", "values", "choose", "choices", "min", "max", "segments"} {
		sym.Assert(has(name) == table[name][ki], "a domain has other methods than its kind")
	}
	sym.Cover("declared")
}

// ---- whole models

// holders are the places of a model where a value can live.
var holders = []string{"h = v", "h = [0, v]", "h = (0, v)", "h = {0: v}", "h = {v: 0}", "h = set([v])", "h = genericset([[v]])",
	"h = genericmap({0: v})", "h = bag([v])", "h = record(f = v)", "h = struct(f = v)", "h = [{0: (v, 1)}]", "h = struct(f = [v])"}

func graphStates(root *modelchecker.Node) []*modelchecker.Node { return ts.Contract(root).Nodes }

func domainDecl(ki int) string {
	return []string{`D = symmetry.nominal(name="d", limit=3)`, `D = symmetry.ordinal(name="d", limit=3)`,
		`D = symmetry.interval(name="d", limit=3)`, `D = symmetry.rotational(name="d", limit=3)`}[ki]
}

func run(f *ast.File, max, conc int) *modelchecker.Node {
	p := spec.New(f, spec.Options(int64(max), int64(conc), false, false), "bfs")
	root, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	return root
}

// a value stored anywhere in the state is live: fresh() does not return it
func H_live() {
	ki := sym.Choose("kind", 4)
	h := sym.Choose("holder", len(holders))
	f := spec.File(
		spec.Action("Init", spec.Block(spec.Atomic, spec.Py("v = D.fresh()\nsame = 0\n"+holders[h]+"\nv = 0"))),
		spec.Action("A", spec.Block(spec.Atomic, spec.Py("v = D.fresh()"), spec.Py("same = 1 if str(v) in str(h) else 2"), spec.Py("v = 0"))))
	f.Stmts = append(f.Stmts, spec.Py(domainDecl(ki)))
	root := run(f, 1, 1)
	n := 0
	for _, s := range graphStates(root) {
		v := ts.StateOf(s, "same")
		sym.Assert(v != 1, "fresh() returns a value that the state holds")
		n += v
	}
	sym.Assert(n > 0, "fresh() below the limit disables the transition")
	sym.Cover("live")
}

// a value held by an execution under way (a parameter, a local variable of a function, the rest of a
// loop, a role field, an argument) is live too
func H_running() {
	ki := sym.Choose("kind", 4)
	how := sym.Choose("how", 7)
	check := func(v string) []*ast.Statement {
		return []*ast.Statement{spec.Py("step = 1"), spec.Py("clash = 1 if " + v + " == y else clash")}
	}
	var body []*ast.Statement
	var fns []*ast.Function
	fn := func(name string, params []string, ss ...*ast.Statement) {
		fns = append(fns, spec.Func(name, spec.Serial, params, ss...))
	}
	switch how {
	case 0: // parameter
		fn("F", []string{"v"}, check("v")...)
		body = []*ast.Statement{spec.Call(nil, "self", "F", "D.fresh()")}
	case 1: // local variable
		fn("F", nil, append([]*ast.Statement{spec.Py("w = D.fresh()")}, check("w")...)...)
		body = []*ast.Statement{spec.Call(nil, "self", "F")}
	case 2: // elements of a loop not visited yet
		body = []*ast.Statement{spec.For(spec.Serial, "w", "[D.fresh(), D.fresh()]", spec.Block(spec.Serial, check("w")...))}
	case 3: // caller's variable, while the callee runs
		fn("G", nil, spec.Py("step = 1"), spec.Py("step = 2"))
		fn("F", []string{"v"}, append([]*ast.Statement{spec.Call(nil, "self", "G")}, check("v")...)...)
		body = []*ast.Statement{spec.Call(nil, "self", "F", "D.fresh()")}
	case 4: // role field holding a container
		body = []*ast.Statement{spec.Py("self.k = self.k + [D.fresh()]"), spec.Py("step = 1"),
			spec.Py("clash = 1 if y in self.k else clash")}
	case 5: // two arguments of one call
		fn("F", []string{"v", "w"}, spec.Py("clash = 1 if v == w else clash"), spec.Py("step = 1"), spec.Py("clash = 1 if v == y or w == y else clash"))
		body = []*ast.Statement{spec.Call(nil, "self", "F", "D.fresh()", "D.fresh()")}
	case 6: // chosen value
		body = []*ast.Statement{spec.Any("w", "[D.fresh(), D.fresh()]", "", spec.Block(spec.Serial, check("w")...))}
	}
	f := spec.File(
		spec.Action("Init", spec.Block(spec.Atomic, spec.Py("y = 0\nclash = 0\nstep = 0"), spec.Py("r = R()"))),
		spec.Action("B", spec.Block(spec.Atomic, spec.Py("y = D.fresh()"))))
	f.Roles = append(f.Roles, spec.Role("R", []*ast.Action{
		spec.Action("Init", spec.Block(spec.Atomic, spec.Py("self.k = []"))),
		spec.Action("A", spec.Block(spec.Serial, body...))}, fns...))
	f.Stmts = append(f.Stmts, spec.Py(domainDecl(ki)))
	root := run(f, 2, 2)
	step := false
	for _, s := range graphStates(root) {
		sym.Assert(ts.StateOf(s, "clash") == 0, "fresh() returns a value that an execution under way holds")
		if ts.StateOf(s, "step") > 0 {
			step = true
		}
	}
	sym.Assert(step, "fresh() below the limit disables the transition")
	sym.Cover("running")
}

// a request beyond the limit disables the step wherever it is made
func H_exhausted() {
	ki := sym.Choose("kind", 4)
	decl := []string{`D = symmetry.nominal(name="d", limit=2)`, `D = symmetry.ordinal(name="d", limit=2)`,
		`D = symmetry.interval(name="d", limit=2)`, `D = symmetry.rotational(name="d", limit=2)`}[ki]
	done := spec.Py("step = 1")
	inner := spec.Block(spec.Atomic, spec.Py("step = 1"))
	forms := [][]*ast.Statement{
		{spec.Py("step = 1\nx = D.fresh()")},
		{spec.If("D.fresh() != 0", inner, inner)},
		{spec.Any("w", "[D.fresh()]", "", inner)},
		{spec.Any("w", "[0]", "D.fresh() != w", inner)},
		{spec.Pick("x", "[D.fresh()]", ""), done},
		{spec.Pick("x", "[0]", "D.fresh() != x"), done},
		{spec.For(spec.Atomic, "w", "[D.fresh()]", inner)},
		{spec.While(spec.Atomic, "D.fresh() == 0", inner), done},
		{spec.Require("D.fresh() != 0"), done},
		{spec.Call(nil, "", "F", "D.fresh()"), done},
		{done, spec.Call([]string{"x"}, "", "G")},
		{done, spec.Return("D.fresh()")},
		{spec.Call(nil, "h", "append", "D.fresh()"), done},
		{spec.Call(nil, "", "K"), done},
	}
	k := sym.Choose("form", len(forms))
	form := forms[k]
	if k != 3 && sym.Flip("first") { // (a block of alternatives without an alternative is skipped)
		form = append([]*ast.Statement{done}, form...)
	}
	live := sym.Choose("live", 2) + 1 // live values before the step
	init := "h = [D.fresh()" + []string{"", ", D.fresh()"}[live-1] + "]\nx = 0\nstep = 0"
	f := spec.File(
		spec.Action("Init", spec.Block(spec.Atomic, spec.Py(init))),
		spec.Action("A", spec.Block(spec.Atomic, form...)))
	f.Functions = []*ast.Function{spec.Func("F", spec.Atomic, []string{"v"}, spec.Py("x = 1")), spec.Func("G", spec.Atomic, nil, spec.Return("D.fresh()"))}
	f.Functions = append(f.Functions, spec.Func("K", spec.Atomic, []string{"v"}, spec.Py("x = 1")))
	f.Functions[2].Params[0].DefaultPyExpr, f.Functions[2].Params[0].DefaultExpr = "D.fresh()", spec.Expr("D.fresh()")
	f.Stmts = append(f.Stmts, spec.Py(decl))
	root := run(f, 1, 1)
	_, _, dead, _ := modelchecker.GetAllNodes(root, 1)
	sym.Assert((dead == root) == (live == 2), "a disabled step counts as a step")
	step := false
	for _, s := range graphStates(root) {
		if ts.StateOf(s, "step") > 0 {
			step = true
		}
	}
	sym.Assert(step == (live < 2), "a request beyond the limit does not disable the step, or one within the limit does")
	sym.Cover("exhausted")
}

// arithmetic never takes the live values beyond the limit or the divergence, and only such steps are cut off
func H_arithmetic() {
	div := 1 + sym.Choose("divergence", 3)
	limit := 1 + sym.Choose("limit", div+1)
	da, db := sym.Int("da", -2, 2), sym.Int("db", -2, 2)
	spec.Builtin("da", func([]starlark.Value) starlark.Value { return starlark.MakeInt(sym.Concrete(da)) })
	spec.Builtin("db", func([]starlark.Value) starlark.Value { return starlark.MakeInt(sym.Concrete(db)) })
	start := []int{0, 3}[sym.Choose("start", 2)]
	decl := "D = symmetry.interval(name='d', limit=" + itoa(limit) + ", divergence=" + itoa(div) + ", start=" + itoa(start) + ")"
	f := spec.File(
		spec.Action("Init", spec.Block(spec.Atomic, spec.Py("a = D.min()\nb = D.min()\nd = 0"))),
		spec.Action("A", spec.Block(spec.Atomic, spec.Py("a = a + da()\nd = a - b"))),
		spec.Action("B", spec.Block(spec.Atomic, spec.Py("b = b + db()\nd = a - b"))))
	f.Stmts = append(f.Stmts, spec.Py(decl))
	root := run(f, 8, 1)
	want := map[int]bool{0: true}
	ok := func(d int) bool {
		if d < 0 {
			d = -d
		}
		return d <= div && (d == 0 || limit > 1)
	}
	for q := []int{0}; len(q) > 0; q = q[1:] {
		for _, n := range []int{q[0] + da, q[0] - db} {
			n = sym.Concrete(n)
			if ok(n) && !want[n] {
				want[n] = true
				q = append(q, n)
			}
		}
	}
	got := map[int]bool{}
	for _, s := range graphStates(root) {
		got[ts.StateOf(s, "d")] = true
	}
	for d := range got {
		sym.Assert(want[d], "a step beyond the limit or the divergence of a domain is explored")
	}
	for d := range want {
		sym.Assert(got[d], "a step within the limit and the divergence of a domain is cut off")
	}
	sym.Cover("arithmetic")
}

func itoa(i int) string { return string(rune('0' + i)) }
