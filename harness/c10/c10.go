// Package c10: crashes happen at every yield and lose exactly the ephemeral state.
package c10

import (
	ast "fizz/proto"
	"fmt"
	"sort"
	"strings"
	"verifh/spec"
	"verifh/star"
	"verifh/sym"
	"verifh/ts"

	"github.com/fizzbee-io/fizzbee/modelchecker"
	"go.starlark.net/starlark"
)

func more(quick, thorough int) int {
	if sym.Tier() > 0 {
		return thorough
	}
	return quick
}

// stmt assigns target a symbolic function of from (both fields of the same
// instance, or g), or calls the function F of instance inst.
type stmt struct {
	k            int
	target, from string
	call         int  // instance whose F is called, -1: none
	atomic       bool // the call is made in an atomic block
}

// micro is one statement of the flattened action: the instance it belongs to and the frames it runs in.
type micro struct {
	s      []stmt
	inst   int   // -1: no instance
	frames []int // instances from the root frame to the top (-1: none)
	depth  int   // number of the call it is part of, 0: none
}

// inst is a role instance.
type inst struct {
	role   string
	durab  bool // its role has a durability annotation
	params string
}

type action struct {
	name    string
	inst    int // -1: global
	body    []stmt
	noCrash bool
}

type model struct {
	insts   []inst
	acts    []action
	fbody   []stmt // body of F in every role
	fflow   ast.Flow
	form    int // annotation form
	conc    int
	crash   bool
	anyInit bool
	vals    map[string]int
}

// f is the symbolic function k.
func (m *model) f(k, v int) int {
	key := fmt.Sprintf("f%d@%d", k, v)
	r, ok := m.vals[key]
	if !ok {
		r = sym.Choose(key, 2)
		m.vals[key] = r
	}
	return r
}

func (m *model) decorator() []*ast.Decorator {
	e := []string{"ephemeral=['e']", "durable=['d']", "durable = ['d']"}[m.form]
	return []*ast.Decorator{{SourceInfo: &ast.SourceInfo{FileName: "spec.fizz"}, Name: "state",
		Args: []*ast.Argument{{SourceInfo: &ast.SourceInfo{FileName: "spec.fizz"}, Expr: spec.Expr(e)}}}}
}

func (m *model) stmts(body []stmt, self bool) []*ast.Statement {
	var out []*ast.Statement
	ref := func(v string) string {
		if self && v != "g" {
			return "self." + v
		}
		return v
	}
	for _, s := range body {
		if s.call >= 0 {
			c := spec.Call(nil, fmt.Sprintf("r%d", s.call), "F")
			if s.atomic {
				c = spec.Nest(spec.Block(spec.Atomic, spec.Call(nil, fmt.Sprintf("r%d", s.call), "F")))
			}
			out = append(out, c)
			continue
		}
		out = append(out, spec.Py(fmt.Sprintf("%s = f(%d, %s)", ref(s.target), s.k, ref(s.from))))
	}
	return out
}

func (m *model) file() *ast.File {
	spec.Builtin("f", func(a []starlark.Value) starlark.Value {
		return star.Int(m.f(star.IntOf(a[0]), star.IntOf(a[1])))
	})
	init := []*ast.Statement{spec.Py("g = 0")}
	roles := map[string]*ast.Role{}
	var f *ast.File
	var glob []*ast.Action
	var list []*ast.Role
	for i, in := range m.insts {
		init = append(init, spec.Py(fmt.Sprintf("r%d = %s()", i, in.role)))
		if roles[in.role] != nil {
			continue
		}
		ini := spec.Block(spec.Atomic, spec.Py("self.d = 0\nself.e = 0"))
		if m.anyInit {
			ini = spec.Block(spec.Atomic, spec.Py("self.d = 0"), spec.Any("v", "[0, 1]", "", spec.Block(0, spec.Py("self.e = v"))))
		}
		r := spec.Role(in.role, []*ast.Action{spec.Action("Init", ini)}, spec.Func("F", m.fflow, nil, m.stmts(m.fbody, true)...))
		if in.durab {
			r.Decorators = m.decorator()
		}
		roles[in.role] = r
		list = append(list, r)
	}
	done := map[string]bool{}
	for _, a := range m.acts {
		if a.inst < 0 {
			glob = append(glob, spec.Action(a.name, spec.Block(spec.Serial, m.stmts(a.body, false)...)))
			continue
		}
		r := roles[m.insts[a.inst].role]
		if !done[r.Name+a.name] {
			done[r.Name+a.name] = true
			r.Actions = append(r.Actions, spec.Action(a.name, spec.Block(spec.Serial, m.stmts(a.body, true)...)))
		}
	}
	f = spec.File(append([]*ast.Action{spec.Action("Init", spec.Block(spec.Atomic, init...))}, glob...)...)
	f.Roles = list
	return f
}

func (m *model) options() *ast.StateSpaceOptions {
	o := spec.Options(1000, int64(m.conc), m.crash, false)
	for _, a := range m.acts {
		if a.noCrash {
			no := false
			n := m.full(a)
			if o.ActionOptions == nil {
				o.ActionOptions = map[string]*ast.Options{}
			}
			o.ActionOptions[n] = &ast.Options{CrashOnYield: &no}
		}
	}
	return o
}

func (m *model) flat(a action) []micro {
	var out []micro
	calls := 0
	for _, s := range a.body {
		if s.call < 0 {
			out = append(out, micro{[]stmt{s}, a.inst, []int{a.inst}, 0})
			continue
		}
		if s.atomic {
			out = append(out, micro{m.fbody, s.call, []int{a.inst}, 0})
			continue
		}
		calls++
		for _, fs := range m.fbody {
			out = append(out, micro{[]stmt{fs}, s.call, []int{a.inst, s.call}, calls})
		}
	}
	return out
}

// ---- reference

type thr struct{ act, pc int }

type state struct {
	d, e, init [2]int
	g          int
	ts         []thr
}

func (s state) clone() state {
	s.ts = append([]thr{}, s.ts...)
	return s
}

func (s *state) sort() {
	sort.Slice(s.ts, func(i, j int) bool {
		return s.ts[i].act < s.ts[j].act || s.ts[i].act == s.ts[j].act && s.ts[i].pc < s.ts[j].pc
	})
}

func (s state) key() string { return fmt.Sprint(s.d, s.e, s.init, s.g, s.ts) }

// obs is what a node shows: fields, g and how many executions of each action are under way.
func (m *model) obs(s state) string {
	n := make([]int, len(m.acts))
	for _, t := range s.ts {
		n[m.kind(t.act)]++
	}
	return fmt.Sprint(s.d[:len(m.insts)], s.e[:len(m.insts)], s.g, n)
}

func (m *model) full(a action) string {
	if a.inst >= 0 {
		return m.insts[a.inst].role + "." + a.name
	}
	return a.name
}

// kind is the first action with the name of action a.
func (m *model) kind(a int) int {
	for i := range m.acts {
		if m.full(m.acts[i]) == m.full(m.acts[a]) {
			return i
		}
	}
	return a
}

func (m *model) exec(s *state, mi micro) {
	get := func(v string) int {
		switch v {
		case "d":
			return s.d[mi.inst]
		case "e":
			return s.e[mi.inst]
		}
		return s.g
	}
	for _, st := range mi.s {
		r := m.f(st.k, get(st.from))
		switch st.target {
		case "d":
			s.d[mi.inst] = r
		case "e":
			s.e[mi.inst] = r
		default:
			s.g = r
		}
	}
}

// frames of a thread at its yield point.
func (m *model) frames(t thr) []int {
	fl := m.flat(m.acts[t.act])
	b := fl[t.pc]
	if a := fl[t.pc-1]; b.depth > 0 && a.depth == b.depth {
		return b.frames
	}
	return b.frames[:1]
}

type ref struct {
	states  map[string]bool
	crashes map[string]bool // from, to of every crash
}

func (m *model) reference() ref {
	r := ref{map[string]bool{}, map[string]bool{}}
	seen := map[string]bool{}
	var queue []state
	push := func(s state) {
		s = s.clone()
		s.sort()
		if !seen[s.key()] {
			seen[s.key()] = true
			queue = append(queue, s)
		}
	}
	if m.anyInit {
		for a := 0; a < 2; a++ {
			for b := 0; b < 2; b++ {
				if len(m.insts) == 1 && b > 0 {
					continue
				}
				push(state{e: [2]int{a, b}, init: [2]int{a, b}})
			}
		}
	} else {
		push(state{})
	}
	for len(queue) > 0 {
		s := queue[0]
		queue = queue[1:]
		r.states[m.obs(s)] = true
		run := func(t thr, base state) {
			fl := m.flat(m.acts[t.act])
			m.exec(&base, fl[t.pc])
			if t.pc+1 < len(fl) {
				base.ts = append(base.ts, thr{t.act, t.pc + 1})
			}
			push(base)
		}
		for i, t := range s.ts {
			n := s.clone()
			n.ts = append(n.ts[:i], n.ts[i+1:]...)
			run(t, n.clone())
			if m.crash && !m.acts[t.act].noCrash {
				c := n.clone()
				push(c)
				r.crashes[m.obs(s)+" -> "+m.obs(c)] = true
			}
		}
		if len(s.ts) < m.conc {
			for a := range m.acts {
				run(thr{a, 0}, s.clone())
			}
		}
		for i := range m.insts {
			if !m.crash || !m.insts[i].durab {
				continue
			}
			n := s.clone()
			n.ts = nil
			waiting := false
			for _, t := range s.ts {
				fr := m.frames(t)
				for _, x := range fr[:len(fr)-1] {
					waiting = waiting || x == i && fr[len(fr)-1] != i
				}
				if fr[len(fr)-1] != i {
					n.ts = append(n.ts, t)
				}
			}
			if waiting {
				continue
			}
			n.e[i] = n.init[i]
			push(n)
			r.crashes[m.obs(s)+" -> "+m.obs(n)] = true
		}
	}
	return r
}

func (m *model) observe(n *modelchecker.Node) string {
	field := func(i int, name string) int {
		v, err := n.Roles[i].Fields.Attr(name)
		sym.Assert(err == nil, "a role loses its field")
		return star.IntOf(v)
	}
	var d, e []int
	for i := range m.insts {
		d, e = append(d, field(i, "d")), append(e, field(i, "e"))
	}
	c := make([]int, len(m.acts))
	for _, t := range n.Process.GetThreads() {
		name := t.Stack.RawArray()[0].Name
		for i, a := range m.acts {
			if m.full(a) == name {
				c[i]++
				break
			}
		}
	}
	return fmt.Sprint(d, e, ts.StateOf(n, "g"), c)
}

func (m *model) check(strategy string, processed bool) {
	p := spec.New(m.file(), m.options(), strategy)
	p.SetExperimentalProcessedQueue(processed)
	root, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "a run without assertions fails")
	want := m.reference()
	g := ts.Contract(root)
	got := map[string]bool{}
	for _, n := range g.Nodes {
		if !n.IsYieldNode() {
			continue
		}
		o := m.observe(n)
		if !want.states[o] {
			sym.Debug(fmt.Sprint("state ", o, " program ", m.acts, m.fbody, m.vals))
		}
		sym.Assert(want.states[o], "a state is reached that no execution and no crash leads to")
		got[o] = true
	}
	for o := range want.states {
		if !got[o] {
			sym.Debug(fmt.Sprint("missed ", o, " program ", m.acts, m.fbody, m.vals))
		}
		sym.Assert(got[o], "a state that executions and crashes lead to is not explored")
	}
	for _, e := range g.Edges {
		if strings.HasPrefix(e.Name, "crash") {
			a, b := m.observe(e.From), m.observe(e.To)
			sym.Assert(m.crash, "a crash is explored although crashes are off")
			if a != b {
				sym.Assert(want.crashes[a+" -> "+b], "a crash loses something else than the crashed execution or the ephemeral state of the crashed instance")
			}
			if e.Name != "crash" {
				sym.Cover("role crash")
			} else {
				sym.Cover("execution crash")
			}
		}
	}
}

func target(name string) string { return []string{"d", "e", "g"}[sym.Choose(name, 3)] }

// One role instance, one action of two or three statements, one or two executions at once.
func H_single() {
	n := 2 + sym.Choose("statements", more(1, 2))
	m := &model{insts: []inst{{role: "R", durab: true}}, vals: map[string]int{}, form: sym.Choose("annotation", 3),
		crash: true, conc: 1 + sym.Choose("conc", 2)}
	var body []stmt
	for i := 0; i < n; i++ {
		t := []string{"d", "e"}[sym.Choose(fmt.Sprintf("target%d", i), 2)]
		body = append(body, stmt{k: i, target: t, from: []string{"d", "e"}[sym.Choose(fmt.Sprintf("from%d", i), 2)], call: -1})
	}
	m.acts = []action{{name: "A", inst: 0, body: body}}
	m.check("", false)
}

func simple(i int, t, f string) stmt { return stmt{k: i, target: t, from: f, call: -1} }

func (m *model) leaf(i int, vars ...string) stmt {
	t := vars[sym.Choose(fmt.Sprintf("target%d", i), len(vars))]
	f := vars[sym.Choose(fmt.Sprintf("from%d", i), len(vars))]
	return simple(i, t, f)
}

// key numbers the functions: all different in the thorough tier.
func key(quick, thorough int) int { return more(quick, thorough) }

// Two instances of one role, or of two roles, each with an action.
func H_two() {
	m := &model{vals: map[string]int{}, crash: true, conc: 2}
	m.insts = []inst{{role: "R", durab: true}, {role: "R", durab: true}}
	switch sym.Choose("roles", 3) {
	case 1:
		m.insts[1] = inst{role: "Q", durab: true}
	case 2:
		m.insts[1] = inst{role: "Q"}
	}
	second := simple(1, "e", "e")
	if sym.Tier() > 0 {
		second = m.leaf(1, "d", "e")
	}
	body := []stmt{m.leaf(0, "d", "e"), second}
	m.acts = []action{{name: "A", inst: 0, body: body}, {name: "A", inst: 1, body: body}}
	m.check("", sym.Tier() > 0 && sym.Flip("processed"))
}

// A global action that uses a role instance, next to an action of the instance.
func H_global() {
	m := &model{vals: map[string]int{}, crash: true, conc: 1 + sym.Choose("conc", more(1, 2)), fflow: spec.Atomic}
	m.insts = []inst{{role: "R", durab: sym.Flip("durab")}}
	m.fbody = []stmt{m.leaf(0, "d", "e"), simple(1, "e", "e")}
	m.acts = []action{{name: "T", inst: -1, noCrash: sym.Flip("noCrash"), body: []stmt{{call: 0, atomic: true}, simple(key(1, 2), "g", "g")}}}
	if sym.Flip("other") {
		m.acts = append(m.acts, action{name: "A", inst: 0, body: []stmt{simple(key(0, 3), "e", "e"), simple(key(1, 4), "g", "g")}})
	}
	m.check("", false)
}

// An instance that calls another one: the caller's execution is lost with the callee's.
func H_call() {
	m := &model{vals: map[string]int{}, crash: true, conc: 1 + sym.Choose("conc", 2), fflow: spec.Serial}
	m.insts = []inst{{role: "R", durab: true}, {role: "Q", durab: sym.Flip("durab")}}
	m.fbody = []stmt{simple(0, "e", "e"), simple(1, []string{"d", "e"}[sym.Choose("target1", 2)], "d")}
	m.acts = []action{{name: "A", inst: 0, body: []stmt{simple(key(1, 2), "e", "e"), {call: 1}, simple(key(1, 3), "d", "e")}}}
	if sym.Flip("other") {
		m.acts = append(m.acts, action{name: "B", inst: 1, body: []stmt{simple(key(0, 4), "e", "d"), simple(key(1, 5), "d", "e")}})
	}
	m.check("", false)
}

// Crashes switched off for an action that yields inside a function it calls.
func H_offCall() {
	m := &model{vals: map[string]int{}, crash: true, conc: 1 + sym.Choose("conc", 2), fflow: spec.Serial}
	m.insts = []inst{{role: "R"}, {role: "Q"}}
	m.fbody = []stmt{simple(0, "d", "e"), simple(1, "e", "d")}
	m.acts = []action{{name: "A", inst: 0, noCrash: sym.Flip("noCrashA"), body: []stmt{simple(0, "e", "e"), {call: 1}, simple(1, "d", "e")}}}
	if m.conc == 2 {
		m.acts = append(m.acts, action{name: "B", inst: 1, noCrash: sym.Flip("noCrashB"), body: []stmt{simple(0, "e", "d"), simple(1, "d", "e")}})
	}
	m.check("", false)
}

// Two instances of the callee: a crash of one leaves executions in the other alone.
func H_callTwo() {
	m := &model{vals: map[string]int{}, crash: true, conc: 2, fflow: spec.Serial}
	m.insts = []inst{{role: "R", durab: true}, {role: "R", durab: true}}
	m.fbody = []stmt{simple(0, "e", "e"), simple(1, "d", "e")}
	m.acts = []action{{name: "A", inst: 0, body: []stmt{{call: 1}, simple(1, "e", "d")}}}
	m.acts = append(m.acts, action{name: "A", inst: 1, body: m.acts[0].body})
	m.check("", false)
}

// The initial value is chosen while the instance is initialized.
func H_init() {
	m := &model{vals: map[string]int{}, crash: true, conc: 1, anyInit: true}
	m.insts = []inst{{role: "R", durab: true}}
	if sym.Flip("two") {
		m.insts = append(m.insts, inst{role: "Q", durab: true})
	}
	m.acts = []action{{name: "A", inst: 0, body: []stmt{m.leaf(0, "d", "e"), m.leaf(1, "d", "e")}}}
	m.check([]string{"", "dfs"}[sym.Choose("strategy", more(1, 2))], false)
}

// Without crashes, and with crashes switched off for one action.
func H_off() {
	m := &model{vals: map[string]int{}, crash: sym.Flip("crash"), conc: 2}
	m.insts = []inst{{role: "R", durab: !m.crash}}
	m.acts = []action{{name: "A", inst: 0, noCrash: sym.Flip("noCrashA"), body: []stmt{m.leaf(0, "d", "e"), simple(key(0, 1), "d", "e")}},
		{name: "T", inst: -1, noCrash: sym.Flip("noCrashT"), body: []stmt{simple(key(0, 2), "g", "g"), simple(key(0, 3), "g", "g")}}}
	m.check("", false)
}

// An assertion over the fields is judged in the states after crashes, too.
func H_assert() {
	m := &model{vals: map[string]int{}, crash: true, conc: 1 + sym.Choose("conc", 2)}
	m.insts = []inst{{role: "R", durab: true}}
	m.acts = []action{{name: "A", inst: 0, body: []stmt{m.leaf(0, "d", "e"), simple(1, "d", "e")}}}
	if sym.Flip("global") {
		m.fflow = spec.Atomic
		m.fbody = m.acts[0].body
		m.acts = []action{{name: "T", inst: -1, body: []stmt{{call: 0, atomic: true}, simple(1, "g", "g")}}}
	}
	bad := fmt.Sprint(sym.Choose("badD", 2), sym.Choose("badE", 2))
	if bad == "0 0" {
		return
	}
	f := m.file()
	f.Invariants = []*ast.Invariant{spec.Assertion("I", []string{"always"}, fmt.Sprintf("not (r0.d == %c and r0.e == %c)", bad[0], bad[2]))}
	p := spec.New(f, m.options(), []string{"", "dfs"}[sym.Choose("strategy", 2)])
	p.SetExperimentalProcessedQueue(sym.Flip("processed"))
	_, failed, err := p.Start()
	sym.Assert(err == nil, "a run with an assertion fails with an error")
	want := false
	for o := range m.reference().states {
		want = want || strings.HasPrefix(o, fmt.Sprintf("[%c] [%c]", bad[0], bad[2]))
	}
	sym.Assert(want == (failed != nil), "an assertion is violated iff a state, after a crash or not, makes it false")
	if failed != nil {
		sym.Cover("violated")
		sym.Assert(strings.HasPrefix(m.observe(failed), fmt.Sprintf("[%c] [%c]", bad[0], bad[2])), "the reported state satisfies the assertion")
	} else {
		sym.Cover("holds")
	}
}

// Ephemeral fields that hold objects: repeated crashes give the initial object,
// not one that an execution has changed, and references to roles stay references.
func H_objects() {
	kind := sym.Choose("kind", 5)
	init := []string{"[]", "{}", "set()", "record(x=[])", "[[]]"}[kind]
	change := []string{
		"self.e.append(1) if len(self.e) < 2 else None",
		"self.e.update([(len(self.e), 1)]) if len(self.e) < 2 else None",
		"self.e.add(len(self.e)) if len(self.e) < 2 else None",
		"self.e.x.append(1) if len(self.e.x) < 2 else None",
		"self.e[0].append(1) if len(self.e[0]) < 2 else None"}[kind]
	size := []string{"len(self.e)", "len(self.e)", "len(self.e)", "len(self.e.x)", "len(self.e[0])"}[kind]
	ini := spec.Block(spec.Atomic, spec.Py("self.d = 0\nself.e = "+init))
	body := spec.Block(spec.Serial, spec.Py(change), spec.Py("self.d = "+size))
	r := spec.Role("R", []*ast.Action{spec.Action("Init", ini), spec.Action("A", body)})
	m := &model{form: sym.Choose("annotation", 2)}
	r.Decorators = m.decorator()
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic, spec.Py("r0 = R()"))))
	f.Roles = []*ast.Role{r}
	root, failed, err := spec.New(f, spec.Options(1000, 1, true, false), "").Start()
	sym.Assert(err == nil && failed == nil, "a run without assertions fails")
	got := map[string]bool{}
	size0 := func(n *modelchecker.Node) (int, int) {
		d, _ := n.Roles[0].Fields.Attr("d")
		e, _ := n.Roles[0].Fields.Attr("e")
		if kind == 3 {
			e, _ = e.(starlark.HasAttrs).Attr("x")
		}
		if kind == 4 {
			e = e.(*starlark.List).Index(0)
		}
		return star.IntOf(d), starlark.Len(e)
	}
	for _, n := range ts.Contract(root).Nodes {
		d, e := size0(n)
		got[fmt.Sprint(d, e, len(n.Process.GetThreads()))] = true
	}
	// executions: e grows to at most 2, d follows; a crash empties e
	want := map[string]bool{}
	type st struct{ d, e, t int }
	queue := []st{{}}
	for len(queue) > 0 {
		s := queue[0]
		queue = queue[1:]
		k := fmt.Sprint(s.d, s.e, s.t)
		if want[k] {
			continue
		}
		want[k] = true
		queue = append(queue, st{s.d, 0, 0}, st{s.d, s.e, 0})
		if s.t == 0 {
			queue = append(queue, st{s.d, min(s.e+1, 2), 1})
		} else {
			queue = append(queue, st{s.e, s.e, 0})
		}
	}
	sym.Assert(len(got) == len(want), "the states with an ephemeral object are not those of executions and crashes")
	for k := range want {
		sym.Assert(got[k], "a state with an ephemeral object is not explored")
	}
	sym.Cover("objects")
}

// An ephemeral field that refers to another role instance still does so after a crash.
func H_reference() {
	how := sym.Choose("how", 3)
	hold := []string{"self.Q", "[self.Q]", "{'k': self.Q}"}[how]
	get := []string{"self.e", "self.e[0]", "self.e['k']"}[how]
	ini := spec.Block(spec.Atomic, spec.Py("self.d = 0\nself.e = "+hold))
	act := spec.Action("A", spec.Block(spec.Serial, spec.Py("self.d = "+get+".x if self.e != None else 0"), spec.Py("self.d = 2\nself.e = None"), spec.Py("self.d = 3")))
	r := spec.Role("R", []*ast.Action{spec.Action("Init", ini), act})
	r.Decorators = (&model{form: sym.Choose("annotation", 2)}).decorator()
	qr := spec.Role("Q", []*ast.Action{spec.Action("Init", spec.Block(spec.Atomic, spec.Py("self.x = 0"))),
		spec.Action("B", spec.Block(spec.Atomic, spec.Py("self.x = 1")))})
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic, spec.Py("q = Q()"), spec.Py("r = R(Q=q)"))))
	f.Roles = []*ast.Role{qr, r}
	root, failed, err := spec.New(f, spec.Options(1000, 1, true, false), "").Start()
	sym.Assert(err == nil && failed == nil, "a run without assertions fails")
	for _, n := range ts.Contract(root).Nodes {
		e, _ := n.Roles[1].Fields.Attr("e")
		if e == starlark.None {
			sym.Cover("released")
			continue
		}
		switch how {
		case 1:
			e = e.(*starlark.List).Index(0)
		case 2:
			e, _, _ = e.(*starlark.Dict).Get(starlark.String("k"))
		}
		sym.Assert(e == starlark.Value(n.Roles[0]), "a reference to a role becomes a copy of the role")
	}
	sym.Cover("reference")
}
