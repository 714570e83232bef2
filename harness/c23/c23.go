// Package c23: channel messages are delivered as the channel's semantics permit.
package c23

import (
	"fmt"
	"sort"
	"strings"

	ast "fizz/proto"
	"verifh/spec"
	"verifh/star"
	"verifh/sym"
	"verifh/ts"

	"github.com/fizzbee-io/fizzbee/lib"
	"github.com/fizzbee-io/fizzbee/modelchecker"
	"go.starlark.net/starlark"
)

func more(quick, thorough int) int {
	if sym.Tier() > 0 {
		return thorough
	}
	return quick
}

// op is one statement of an action or function.
type op struct {
	kind int
	ch   int    // channel of a send
	to   int    // receiver of a send; other: the receiver this one is not
	fn   string // function of a send, or text of a note
	val  int    // which value is sent; par: the parameter
}

const (
	send   = iota
	note   // log.append((fn, id, x))
	open   // gate = 1
	guard  // require gate == 1
	sendIf // sends to receiver `value % 2`
	other  = 7
	par    = -1
)

type body struct {
	flow ast.Flow
	ops  []op
}

// prog is a model with senders S#i, receivers R#0 and R#1, and a log of all that happened.
type prog struct {
	chans   int
	senders []body // action Go of each sender
	fns     map[string]body
	vals    []int
	crash   bool
	max     int
	conc    int
	extra   func(f *ast.File)
}

const Chan = "Channel(ordering='unordered', delivery='exactly_once', blocking='fire_and_forget')"

func (p *prog) val(i int) int { return p.vals[i] }

func values(n int) []int {
	v := make([]int, n)
	for i := range v {
		v[i] = sym.Int(fmt.Sprintf("v%d", i), 0, 1)
	}
	return v
}

func (o op) x(inFn bool) string {
	if o.val == par {
		return "x"
	}
	return fmt.Sprintf("val(%d)", o.val)
}

func (o op) stmts(recv bool) []*ast.Statement {
	x := o.x(recv)
	switch o.kind {
	case note:
		return []*ast.Statement{spec.Py("log.append(('" + o.fn + "', self.ID, " + x + "))")}
	case open:
		return []*ast.Statement{spec.Py("gate[0] = 1")}
	case guard:
		return []*ast.Statement{spec.Require("gate[0] == 1")}
	case sendIf:
		return []*ast.Statement{spec.If(x+" == 0",
			spec.Block(ast.Flow_FLOW_UNKNOWN, spec.Call(nil, q(o.ch, 0), o.fn, x)),
			spec.Block(ast.Flow_FLOW_UNKNOWN, spec.Call(nil, q(o.ch, 1), o.fn, x)))}
	}
	if o.to == other {
		return []*ast.Statement{spec.If("self.ID == 1",
			spec.Block(ast.Flow_FLOW_UNKNOWN, spec.Call(nil, q(o.ch, 0), o.fn, x)),
			spec.Block(ast.Flow_FLOW_UNKNOWN, spec.Call(nil, q(o.ch, 1), o.fn, x)))}
	}
	return []*ast.Statement{spec.Call(nil, q(o.ch, o.to), o.fn, x)}
}

func q(ch, to int) string { return fmt.Sprintf("q%d%d", ch, to) }

func (b body) stmts(recv bool) []*ast.Statement {
	var r []*ast.Statement
	for _, o := range b.ops {
		r = append(r, o.stmts(recv)...)
	}
	return r
}

func (p *prog) names() []string {
	var l []string
	for n := range p.fns {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

func (p *prog) file() *ast.File {
	init := []*ast.Statement{spec.Py("log = []"), spec.Py("gate = [0]")}
	for c := 0; c < p.chans; c++ {
		init = append(init, spec.Py(fmt.Sprintf("c%d = %s", c, Chan)))
	}
	for i := 0; i < 2; i++ {
		init = append(init, spec.Py(fmt.Sprintf("r%d = R(ID=%d)", i, i)))
	}
	for c := 0; c < p.chans; c++ {
		for i := 0; i < 2; i++ {
			init = append(init, spec.Py(fmt.Sprintf("%s = c%d.stub(r%d)", q(c, i), c, i)))
		}
	}
	var roles []*ast.Role
	var fns []*ast.Function
	for _, n := range p.names() {
		b := p.fns[n]
		fns = append(fns, spec.Func(n, b.flow, []string{"x"}, b.stmts(true)...))
	}
	roles = append(roles, spec.Role("R", nil, fns...))
	for i, b := range p.senders {
		n := fmt.Sprintf("S%d", i)
		init = append(init, spec.Py(fmt.Sprintf("s%d = %s(ID=%d)", i, n, i)))
		roles = append(roles, spec.Role(n, []*ast.Action{spec.Action("Go", spec.Block(b.flow, b.stmts(false)...))}))
	}
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic, init...)))
	f.Roles = roles
	spec.Builtin("val", func(a []starlark.Value) starlark.Value { return star.Int(p.val(star.IntOf(a[0]))) })
	if p.extra != nil {
		p.extra(f)
	}
	return f
}

// ---- reference ----

type msg struct {
	ch, to int
	fn     string
	x      int
}

type thread struct {
	fn   string // "" for a sender's action
	self int
	x    int
	pc   int
}

type state struct {
	log     []string
	gate    int
	pend    []msg
	threads []thread
	started []int
}

func (s *state) clone() *state {
	return &state{append([]string{}, s.log...), s.gate, append([]msg{}, s.pend...), append([]thread{}, s.threads...), append([]int{}, s.started...)}
}

func (m msg) String() string { return fmt.Sprintf("c%d>%d.%s(%d)", m.ch, m.to, m.fn, m.x) }

func (s *state) key() string {
	var p []string
	for _, m := range s.pend {
		p = append(p, m.String())
	}
	sort.Strings(p)
	return fmt.Sprintf("%s|%d|%s|%d", strings.Join(s.log, " "), s.gate, strings.Join(p, " "), len(s.threads))
}

// exec runs op o; false: disabled.
func (p *prog) exec(s *state, o op, t thread) bool {
	x := t.x
	if o.val != par {
		x = sym.Concrete(p.val(o.val))
	}
	switch o.kind {
	case note:
		s.log = append(s.log, fmt.Sprintf("%s.%d.%d", o.fn, t.self, x))
	case open:
		s.gate = 1
	case guard:
		return s.gate == 1
	case sendIf:
		s.pend = append(s.pend, msg{o.ch, x, o.fn, x})
	default:
		to := o.to
		if to == other {
			to = 1 - t.self
		}
		s.pend = append(s.pend, msg{o.ch, to, o.fn, x})
	}
	return true
}

// step runs t until it yields or ends; s does not contain t.
func (p *prog) step(s *state, t thread) []*state {
	b := p.fns[t.fn]
	if t.fn == "" {
		b = p.senders[t.self]
	}
	for t.pc < len(b.ops) {
		o := b.ops[t.pc]
		if !p.exec(s, o, t) {
			return nil
		}
		t.pc++
		if b.flow == spec.Serial && o.kind != guard && t.pc < len(b.ops) {
			var r []*state
			if p.crash {
				r = append(r, s.clone())
			}
			s.threads = append(s.threads, t)
			return append(r, s)
		}
	}
	return []*state{s}
}

type edge struct{ from, name, to string }

func (s *state) full() string {
	var l []string
	for _, t := range s.threads {
		l = append(l, fmt.Sprintf("%+v", t))
	}
	sort.Strings(l)
	return fmt.Sprintf("%s|%s|%v", s.key(), strings.Join(l, " "), s.started)
}

// succ are the steps from s; limits bound the starting of actions.
func (p *prog) succ(s *state, limits bool, add func(name string, l []*state)) {
	for i, t := range s.threads {
		n := s.clone()
		n.threads = append(n.threads[:i], n.threads[i+1:]...)
		add("thread", p.step(n, t))
	}
	for i, m := range s.pend {
		n := s.clone()
		n.pend = append(n.pend[:i], n.pend[i+1:]...)
		add("channel", p.step(n, thread{fn: m.fn, self: m.to, x: m.x}))
	}
	total := 0
	for _, n := range s.started {
		total += n
	}
	if limits && (total >= p.max || len(s.threads) >= p.conc) {
		return
	}
	for i := range p.senders {
		n := s.clone()
		n.started[i]++
		add(fmt.Sprintf("S%d#0.Go", i), p.step(n, thread{self: i}))
	}
}

func (p *prog) initial() *state { return &state{started: make([]int, len(p.senders))} }

func (p *prog) reference() (map[string]*state, map[edge]bool) {
	s0 := p.initial()
	seen := map[string]bool{}
	at := map[string]*state{s0.key(): s0}
	edges := map[edge]bool{}
	queue := []*state{s0}
	for len(queue) > 0 {
		s := queue[0]
		queue = queue[1:]
		p.succ(s, true, func(name string, l []*state) {
			for _, n := range l {
				k := n.key()
				edges[edge{s.key(), name, k}] = true
				at[k] = n
				if u := n.full(); !seen[u] {
					seen[u] = true
					queue = append(queue, n)
				}
			}
		})
	}
	return at, edges
}

// ---- explored ----

func (p *prog) keyOf(n *modelchecker.Node) string {
	var log, pend []string
	for _, v := range star.Elems(n.Heap.GetValue("log")) {
		t := v.(starlark.Tuple)
		log = append(log, fmt.Sprintf("%s.%d.%d", string(t[0].(starlark.String)), sym.Concrete(star.IntOf(t[1])), sym.Concrete(star.IntOf(t[2]))))
	}
	for c, l := range n.ChannelMessages {
		for _, m := range l {
			x := m.Params()["x"]
			sym.Assert(len(m.Params()) == 1 && x != nil, "a message carries other arguments than those sent")
			to := int(m.Receiver()[len("R#")] - '0')
			pend = append(pend, msg{c, to, m.Function(), sym.Concrete(star.IntOf(x))}.String())
		}
	}
	sort.Strings(pend)
	gate := star.IntOf(star.Elems(n.Heap.GetValue("gate"))[0])
	return fmt.Sprintf("%s|%d|%s|%d", strings.Join(log, " "), gate, strings.Join(pend, " "), n.GetThreadsCount())
}

func kind(name string) string {
	if strings.HasPrefix(name, "channel-") {
		return "channel"
	}
	if strings.HasPrefix(name, "thread-") {
		return "thread"
	}
	return name
}

func (p *prog) run(c ts.Config, deadlock bool) (*modelchecker.Node, *modelchecker.Node, error) {
	pr := spec.New(p.file(), spec.Options(int64(p.max), int64(p.conc), p.crash, deadlock), c.Strategy)
	pr.SetExperimentalProcessedQueue(c.Processed)
	return pr.Start()
}

func (p *prog) check(c ts.Config) {
	root, failed, err := p.run(c, false)
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	p.compare(root)
}

func (p *prog) compare(root *modelchecker.Node) {
	at, edges := p.reference()
	g := ts.Contract(root)
	got := map[string]bool{}
	keys := map[*modelchecker.Node]string{}
	for _, n := range g.Nodes {
		k := p.keyOf(n)
		keys[n] = k
		got[k] = true
		if at[k] == nil {
			sym.Debug("extra " + k)
		}
		sym.Assert(at[k] != nil, "a state is explored that no delivery order leads to")
	}
	for k := range at {
		if !got[k] {
			sym.Debug("missing " + k)
		}
		sym.Assert(got[k], "a delivery order is not explored")
	}
	has := map[edge]bool{}
	for _, e := range g.Edges {
		if e.Name == "crash" || strings.HasPrefix(e.Name, "crash-") {
			continue
		}
		k := edge{keys[e.From], kind(e.Name), keys[e.To]}
		has[k] = true
		sym.Assert(edges[k], "a step is explored that the model does not have")
	}
	for e := range edges {
		if !p.crash {
			sym.Assert(has[e], "a step of the model is not explored")
		}
	}
	sym.Cover("compared")
	if len(at) > 40 {
		sym.Cover("large")
	}
}

var cfgs = []ts.Config{{}, {Strategy: "dfs"}, {Processed: true}}

func flow(name string) ast.Flow {
	if sym.Flip(name) {
		return spec.Serial
	}
	return spec.Atomic
}

func plain(fn string, f ast.Flow, extra ...op) map[string]body {
	return map[string]body{fn: {f, append([]op{{kind: note, fn: fn, val: par}}, extra...)}}
}

// H_send: one sender, up to two messages each, every receiver, function and flow.
func H_send() {
	p := &prog{chans: 1, vals: values(2), max: 1 + sym.Choose("max", 2), conc: 2}
	p.fns = map[string]body{
		"F": {spec.Atomic, []op{{kind: note, fn: "F", val: par}}},
		"G": {spec.Serial, []op{{kind: note, fn: "G1", val: par}, {kind: note, fn: "G2", val: par}}},
	}
	fn := func(n string) string { return []string{"F", "G"}[sym.Choose(n, 2)] }
	b := body{flow: flow("serial")}
	b.ops = append(b.ops, op{kind: sendIf, fn: fn("f0"), val: 0})
	if p.max == 1 || sym.Tier() > 0 {
		b.ops = append(b.ops, op{kind: send, to: sym.Choose("to", 2), fn: fn("f1"), val: 1})
	}
	p.senders = []body{b}
	p.check(cfgs[sym.Choose("config", 3)])
}

// H_senders: two senders and a shared receiver.
func H_senders() {
	p := &prog{chans: 1, vals: values(2), max: 2, conc: 1 + sym.Choose("conc", 2)}
	p.fns = plain("F", spec.Atomic)
	if sym.Flip("serialF") {
		p.fns["F"] = body{spec.Serial, []op{{kind: note, fn: "F1", val: par}, {kind: note, fn: "F2", val: par}}}
	}
	a := body{flow("flowA"), []op{{kind: send, to: 0, fn: "F", val: 0}, {kind: note, fn: "a", val: 0}}}
	b := body{spec.Atomic, []op{{kind: send, to: sym.Choose("to", 2), fn: "F", val: 1}}}
	p.senders = []body{a, b}
	sym.Assume(sym.Tier() > 0 || p.conc == 1 || a.flow == spec.Atomic || p.fns["F"].flow == spec.Atomic)
	if sym.Flip("crash") {
		p.crash = true
		if sym.Tier() == 0 {
			p.conc = 1
		}
		sym.Assume(sym.Tier() > 0 || a.flow == spec.Atomic)
	}
	c := 2 * sym.Choose("config", 2)
	if sym.Tier() > 0 {
		c = sym.Choose("configs", 3)
	}
	p.check(cfgs[c])
}

// H_chain: a receiver sends on.
func H_chain() {
	p := &prog{chans: 1, vals: values(1), max: 1, conc: 1 + sym.Choose("conc", 2)}
	fw := op{kind: send, to: other, fn: "G", val: par}
	nt := op{kind: note, fn: "F", val: par}
	ops := []op{nt, fw}
	if sym.Flip("first") {
		ops = []op{fw, nt}
	}
	twice := sym.Flip("twice")
	if twice {
		ops = append(ops, fw)
	}
	p.fns = map[string]body{"F": {flow("flowF"), ops}, "G": {flow("flowG"), []op{{kind: note, fn: "G1", val: par}, {kind: note, fn: "G2", val: par}}}}
	sends := []op{{kind: sendIf, fn: "F", val: 0}}
	if !twice || sym.Tier() > 0 {
		sends = append(sends, op{kind: send, to: 0, fn: "G", val: 0})
	}
	p.senders = []body{{flow("flowS"), sends}}
	p.check(cfgs[sym.Choose("config", 3)])
}

// H_channels: two channels to the same receivers.
func H_channels() {
	p := &prog{chans: 2, vals: append(values(1), 5), max: 1 + sym.Choose("max", 2), conc: 2}
	p.fns = plain("F", flow("flowF"), op{kind: note, fn: "f", val: par})
	a := body{flow("flowA"), []op{{kind: send, ch: sym.Choose("ch", 2), to: 0, fn: "F", val: 0}}}
	b := body{spec.Atomic, []op{{kind: send, ch: 1, to: sym.Choose("to", 2), fn: "F", val: 1}}}
	p.senders = []body{a, b}
	if sym.Flip("both") {
		p.senders = []body{{a.flow, append(a.ops, b.ops...)}}
		p.max = 1
	}
	sym.MapOrder(sym.Flip("order"))
	p.check(cfgs[sym.Choose("config", 3)])
}

// H_guard: a message whose function is not enabled stays pending until it is.
func H_guard() {
	p := &prog{chans: 1, vals: values(2), max: 2, conc: 2}
	first := sym.Flip("first")
	ops := []op{{kind: guard}, {kind: note, fn: "F", val: par}}
	if !first {
		ops = []op{{kind: note, fn: "F", val: par}, {kind: guard}, {kind: note, fn: "G", val: par}}
	}
	p.fns = map[string]body{"F": {flow("flowF"), ops}, "O": {spec.Atomic, []op{{kind: open}, {kind: note, fn: "O", val: par}}}}
	p.senders = []body{
		{spec.Atomic, []op{{kind: send, to: 0, fn: "F", val: 0}}},
		{spec.Atomic, []op{{kind: send, to: sym.Choose("to", 2), fn: "O", val: 1}}},
	}
	p.check(cfgs[sym.Choose("config", 3)])
}

// H_equal: equal messages are separate messages.
func H_equal() {
	p := &prog{chans: 1, vals: values(1), max: 1 + sym.Choose("max", 2), conc: 1}
	p.fns = plain("F", flow("flowF"), op{kind: note, fn: "f", val: par})
	b := body{flow: flow("flowA")}
	for i, n := 0, 1+sym.Choose("sends", more(2, 3)); i < n; i++ {
		b.ops = append(b.ops, op{kind: send, to: 1, fn: "F", val: 0})
	}
	p.senders = []body{b}
	p.check(cfgs[sym.Choose("config", 3)])
}

// H_deadlock: a pending message is something that can happen.
func H_deadlock() {
	p := &prog{chans: 1, vals: values(1), max: 1, conc: 1}
	ops := []op{{kind: note, fn: "F", val: par}}
	blocked := sym.Flip("blocked")
	if blocked {
		ops = append([]op{{kind: guard}}, ops...)
	}
	p.fns = map[string]body{"F": {flow("flowF"), ops}}
	once := []op{{kind: guard}, {kind: send, to: 0, fn: "F", val: 0}}
	p.senders = []body{{spec.Atomic, once}}
	p.extra = func(f *ast.File) {
		// Go only once: open closes the gate, whatever the limits
		st := f.Roles[1].Actions[0].Block.Stmts
		f.Roles[1].Actions[0].Block.Stmts = append([]*ast.Statement{spec.Require("gate[0] == 0"), spec.Py("gate[0] = 2")}, st[1:]...)
	}
	p.max = 5
	root, failed, err := p.run(cfgs[sym.Choose("config", 3)], true)
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	_, _, dead, _ := modelchecker.GetAllNodes(root, 5)
	sym.Assert(dead != nil, "a model that comes to rest is not reported as deadlocked")
	pend := 0
	for _, l := range dead.ChannelMessages {
		pend += len(l)
	}
	n := len(star.Elems(dead.Heap.GetValue("log")))
	sym.Assert(blocked == (pend == 1) && blocked == (n == 0), "a state with a deliverable message is reported as deadlocked")
	sym.Cover("compared")
}

// ---- whole-system behaviours ----

// H_alias: the receiver gets the arguments as they were when they were sent.
func H_alias() {
	v := []int{sym.Int("v0", 0, 3), sym.Int("v1", 0, 3), sym.Int("v2", 0, 3)}
	spec.Builtin("val", func(a []starlark.Value) starlark.Value { return star.Int(v[star.IntOf(a[0])]) })
	form := sym.Choose("form", 4)
	mk := []string{"[val(0)]", "{'k': val(0)}", "record(k=val(0))", "[[val(0)]]"}[form]
	get := []string{"x[0]", "x['k']", "x.k", "x[0][0]"}[form]
	obj := []string{"d", "self.d"}[sym.Choose("where", 2)]
	set := func(o string, i int) *ast.Statement {
		return spec.Py(strings.Replace(get, "x", o, 1) + fmt.Sprintf(" = val(%d)", i))
	}
	// the sender changes the object after sending it, in the same step or in a later one;
	// the receiver changes what it got
	act := []*ast.Statement{spec.Require("len(log) == 0 and not sent[0]"), spec.Py("sent[0] = True"), spec.Call(nil, "q0", "F", obj)}
	when := sym.Choose("when", 3)
	var acts []*ast.Action
	if when == 0 {
		act = append(act, set(obj, 1))
	}
	if when == 1 {
		acts = append(acts, spec.Action("Change", spec.Block(spec.Atomic, spec.Require("sent[0]"), set(obj, 1))))
	}
	acts = append(acts, spec.Action("Go", spec.Block(spec.Atomic, act...)))
	fn := []*ast.Statement{spec.Py("log.append(" + get + ")")}
	if when == 2 {
		fn = append(fn, set("x", 2))
	}
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic,
		spec.Py("log = []"), spec.Py("sent = [False]"), spec.Py("d = "+mk), spec.Py("c0 = "+Chan), spec.Py("r0 = R()"), spec.Py("q0 = c0.stub(r0)"), spec.Py("s0 = S(d="+mk+")"))))
	f.Roles = []*ast.Role{spec.Role("R", nil, spec.Func("F", spec.Atomic, []string{"x"}, fn...)), spec.Role("S", acts)}
	p := spec.New(f, spec.Options(2, 1, false, false), cfgs[sym.Choose("config", 3)].Strategy)
	root, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	n := 0
	for _, nd := range ts.Contract(root).Nodes {
		for _, e := range star.Elems(nd.Heap.GetValue("log")) {
			sym.Assert(star.IntOf(e) == v[0], "a message is delivered with other arguments than it was sent with")
			n++
		}
		d := nd.Heap.GetValue("d")
		if when == 2 && obj == "d" && form == 0 {
			sym.Assert(star.IntOf(star.Elems(d)[0]) == v[0], "the receiver of a message changes the sender's object")
		}
	}
	sym.Assert(n > 0, "a message is never delivered")
	sym.Cover("compared")
}

// H_trace: a guided trace delivers the message it names.
func H_trace() {
	n := 2 + sym.Choose("sends", 2)
	p := &prog{chans: 1, vals: values(2), max: 1, conc: 1}
	p.vals = append(p.vals, 5)
	p.fns = plain("F", spec.Atomic)
	var b body
	b.flow = spec.Atomic
	for i := 0; i < n; i++ {
		to := 1
		if i == 0 || sym.Tier() > 0 {
			to = sym.Choose("to", 2)
		}
		b.ops = append(b.ops, op{kind: send, to: to, fn: "F", val: i})
	}
	p.senders = []body{b}
	t := []string{"S0#0.Go"}
	s := p.initial()
	s = p.step(s, thread{})[0]
	for i := 0; i < n; i++ {
		j := sym.Choose("next", n)
		t = append(t, fmt.Sprintf("channel-0-message-%d", j))
		if j >= len(s.pend) {
			break // no such message: the trace is not followed further
		}
		m := s.pend[j]
		s.pend = append(append([]msg{}, s.pend[:j]...), s.pend[j+1:]...)
		s = p.step(s, thread{fn: m.fn, self: m.to, x: m.x})[0]
	}
	tr := &modelchecker.GuidedTrace{LinkNames: t}
	pr := spec.NewGuided(p.file(), spec.Options(5, 1, false, false), "", tr)
	pr.SetExperimentalProcessedQueue(sym.Flip("processed"))
	root, failed, err := pr.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	g := ts.Contract(root)
	sym.Assert(len(g.Edges) == len(s.log)+1 && len(g.Nodes) == len(g.Edges)+1, "a guided run does not follow its trace")
	last := g.Nodes[len(g.Nodes)-1]
	sym.Assert(p.keyOf(last) == s.key(), "a guided run delivers another message than its trace names")
	sym.Assert(tr.IsExhausted() == (len(s.log) == n), "completion of the trace is misreported")
	sym.Cover("compared")
}

// H_sim: a simulation delivers messages as the exhaustive exploration does.
func H_sim() {
	p := &prog{chans: 1 + sym.Choose("chans", 2), vals: values(1), max: 1 + sym.Choose("max", 2), conc: 1}
	p.fns = plain("F", flow("flowF"), op{kind: note, fn: "f", val: par})
	b := body{spec.Atomic, []op{{kind: sendIf, ch: 0, fn: "F", val: 0}}}
	if p.max == 1 || sym.Tier() > 0 {
		b.ops = append(b.ops, op{kind: send, ch: p.chans - 1, to: 0, fn: "F", val: 0})
	}
	p.senders = []body{b}
	o := spec.Options(int64(p.max), 1, false, true)
	o.Liveness = "false"
	root, failed, err := spec.NewSim(p.file(), o).Start()
	sym.Assert(err == nil, "a simulation of a valid model fails")
	at, edges := p.reference()
	g := ts.Contract(root)
	for _, n := range g.Nodes {
		sym.Assert(at[p.keyOf(n)] != nil, "a simulation reaches a state that no delivery order leads to")
	}
	out := map[string]int{}
	for _, e := range g.Edges {
		sym.Assert(edges[edge{p.keyOf(e.From), kind(e.Name), p.keyOf(e.To)}], "a simulation makes a step that the model does not have")
		out[p.keyOf(e.From)]++
	}
	last := g.Nodes[len(g.Nodes)-1]
	for _, n := range g.Nodes {
		sym.Assert(n == last || out[p.keyOf(n)] == 1, "a simulation run follows two branches")
	}
	for e := range edges {
		sym.Assert(failed == nil || e.from != p.keyOf(last), "a simulation reports a deadlock while something can happen")
		sym.Assert(failed != nil || e.from != p.keyOf(last), "a simulation stops while a message is pending")
	}
	sym.Cover("compared")
}

// H_probe: next_states() sees the deliveries.
func H_probe() {
	p := &prog{chans: 1 + sym.Choose("chans", 2), vals: values(2), max: 1, conc: 2}
	p.fns = plain("F", flow("flowF"), op{kind: note, fn: "f", val: par})
	p.senders = []body{{spec.Atomic, []op{{kind: sendIf, ch: 0, fn: "F", val: 0}, {kind: send, ch: p.chans - 1, to: sym.Choose("to", 2), fn: "F", val: 1}, {kind: note, fn: "sent", val: 0}}}}
	p.extra = func(f *ast.File) {
		f.Invariants = append(f.Invariants, spec.Assertion("L", []string{"always"}, "look(log, [n.state.log for n in next_states()])"))
	}
	text := func(v starlark.Value) string {
		var log []string
		for _, e := range star.Elems(v) {
			t := e.(starlark.Tuple)
			log = append(log, fmt.Sprintf("%s.%d.%d", string(t[0].(starlark.String)), sym.Concrete(star.IntOf(t[1])), sym.Concrete(star.IntOf(t[2]))))
		}
		return strings.Join(log, " ")
	}
	var at map[string]*state
	spec.Builtin("look", func(a []starlark.Value) starlark.Value {
		if at == nil {
			at, _ = p.reference()
		}
		k := text(a[0])
		want := map[string]int{}
		for _, s := range at {
			if strings.Join(s.log, " ") == k {
				p.succ(s, false, func(name string, l []*state) {
					for _, n := range l {
						want[strings.Join(n.log, " ")]++
					}
				})
			}
		}
		got := map[string]int{}
		for _, v := range star.Elems(a[1]) {
			got[text(v)]++
		}
		for w := range want {
			sym.Assert(got[w] > 0, "next_states() misses a delivery")
		}
		for w := range got {
			sym.Assert(want[w] > 0, "next_states() lists a state that no delivery leads to")
		}
		sym.Cover("looked")
		return starlark.True
	})
	p.check(cfgs[sym.Choose("config", 3)])
}

// H_reply: a role sent along is the role, not a copy of it; named and default arguments.
func H_reply() {
	v := []int{sym.Int("v0", 0, 5), sym.Int("v1", 0, 5)}
	spec.Builtin("val", func(a []starlark.Value) starlark.Value { return star.Int(v[star.IntOf(a[0])]) })
	form := sym.Choose("form", 4)
	ask := spec.Call(nil, "q0", "F", "val(0)", "self")
	if form == 1 { // named arguments, in another order
		ask = spec.Call(nil, "q0", "F", "self", "val(0)")
		ask.CallStmt.Args[0].Name = "who"
		ask.CallStmt.Args[1].Name = "x"
	}
	if form == 2 { // inside a list
		ask = spec.Call(nil, "q0", "F", "val(0)", "[self]")
	}
	fn := spec.Func("F", flow("flowF"), []string{"x", "who"},
		spec.Py("w = who"+[]string{"", "", "[0]", ""}[form]), spec.Py("back = c0.stub(w)"), spec.Py("self.seen = x"), spec.Call(nil, "back", "G", "x + 10"))
	if form == 3 { // default
		ask = spec.Call(nil, "q0", "F", "self")
		ask.CallStmt.Args[0].Name = "who"
		fn.Params[0].DefaultPyExpr = "val(1)"
		fn.Params[0].DefaultExpr = spec.Expr("val(1)")
	}
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic,
		spec.Py("c0 = "+Chan), spec.Py("r0 = R()"), spec.Py("s0 = S()"), spec.Py("s1 = S()"), spec.Py("q0 = c0.stub(r0)"))))
	f.Roles = []*ast.Role{
		spec.Role("R", []*ast.Action{spec.Action("Init", spec.Block(spec.Atomic, spec.Py("self.seen = -1")))}, fn),
		spec.Role("S", []*ast.Action{spec.Action("Init", spec.Block(spec.Atomic, spec.Py("self.got = -1\nself.sent = False\n"))), spec.Action("Go", spec.Block(spec.Atomic, spec.Require("not self.sent"), spec.Py("self.sent = True"), ask))},
			spec.Func("G", spec.Atomic, []string{"x"}, spec.Py("self.got = x"))),
	}
	p := spec.New(f, spec.Options(2, 1, false, false), cfgs[sym.Choose("config", 3)].Strategy)
	root, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	x := v[0]
	if form == 3 {
		x = v[1]
	}
	both := false
	for _, n := range ts.Contract(root).Nodes {
		var got [2]int
		var sent [2]bool
		for i := range got {
			r := n.Heap.GetValue(fmt.Sprintf("s%d", i)).(*lib.Role)
			g, _ := r.Attr("got")
			b, _ := r.Attr("sent")
			got[i], sent[i] = star.IntOf(g), bool(b.(starlark.Bool))
			sym.Assert(got[i] == -1 || got[i] == x+10 && sent[i], "a reply reaches a role that did not ask, or with other arguments")
			// the role in Roles is the same
			found := false
			for _, o := range n.Roles {
				found = found || o == r
			}
			sym.Assert(found && len(n.Roles) == 3, "a message makes a copy of a role")
		}
		both = both || got[0] == x+10 && got[1] == x+10
	}
	sym.Assert(both, "a reply is never delivered")
	sym.Cover("compared")
}

// H_symmetric: messages between instances of a symmetric role; the states explored represent
// exactly the reachable ones, up to a renaming of the instances.
func H_symmetric() {
	n := 2
	if sym.Flip("three") {
		n = 3
	}
	most := 1 + sym.Choose("max", more(2, 3))
	arg := sym.Choose("arg", 3) // what is sent: the sender, another instance, a number
	v := sym.Int("v", 0, 1)
	spec.Builtin("val", func(a []starlark.Value) starlark.Value { return star.Int(v) })
	sent := spec.Any("r", "rs", "", spec.Block(0, spec.Py("q = c0.stub(r)"), spec.Call(nil, "q", "F", []string{"self", "r", "val()"}[arg])))
	r := spec.Role("R", []*ast.Action{
		spec.Action("Init", spec.Block(spec.Atomic, spec.Py("self.n = 0\nself.y = None\n"))),
		spec.Action("Go", spec.Block(spec.Atomic, spec.Py("self.n += 1"), sent))},
		spec.Func("F", spec.Atomic, []string{"x"}, spec.Py("self.y = x")))
	r.Modifiers = []string{"symmetric"}
	start := []*ast.Statement{spec.Py("rs = bag()"), spec.Py("c0 = " + Chan)}
	for i := 0; i < n; i++ {
		start = append(start, spec.Py("rs.add(R())"))
	}
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic, start...)))
	f.Roles = []*ast.Role{r}
	p := spec.New(f, spec.Options(int64(most), 1, false, false), cfgs[sym.Choose("config", 3)].Strategy)
	off := sym.Flip("off")
	p.SetDisableSymmetryReduction(off)
	root, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")

	// a state: per instance the number of sends and the value received (-1: none), and the messages
	type st struct {
		n, y [3]int
		pend []([2]int)
	}
	perms := [][]int{{0, 1, 2}, {1, 0, 2}}
	if n == 3 {
		perms = append(perms, []int{0, 2, 1}, []int{1, 2, 0}, []int{2, 0, 1}, []int{2, 1, 0})
	}
	ren := func(pm []int, y int) int {
		if arg == 2 || y < 0 {
			return y
		}
		return pm[y]
	}
	key := func(s st, pm []int) string {
		var a, b [3]int
		for i := range s.n {
			a[pm[i]] = s.n[i]
			b[pm[i]] = ren(pm, s.y[i])
		}
		var l []string
		for _, m := range s.pend {
			l = append(l, fmt.Sprint(pm[m[0]], ren(pm, m[1])))
		}
		sort.Strings(l)
		return fmt.Sprint(a, b, l)
	}
	canon := func(s st) string {
		if off {
			return key(s, perms[0])
		}
		best := ""
		for _, pm := range perms {
			if k := key(s, pm); best == "" || k < best {
				best = k
			}
		}
		return best
	}
	// the instances of a role have the ids 0, 1, ...; the id of a value
	id := func(v starlark.Value) int {
		switch v := v.(type) {
		case starlark.NoneType:
			return -1
		case *lib.Role:
			return int(v.RefStringShort()[len("R#")] - '0')
		}
		return sym.Concrete(star.IntOf(v))
	}
	got := map[string]bool{}
	for _, nd := range ts.Contract(root).Nodes {
		s := st{y: [3]int{-1, -1, -1}}
		for _, e := range star.Elems(nd.Heap.GetValue("rs")) {
			role := e.(*lib.Role)
			a, _ := role.Attr("n")
			b, _ := role.Attr("y")
			s.n[id(role)], s.y[id(role)] = star.IntOf(a), id(b)
		}
		for _, l := range nd.ChannelMessages {
			for _, m := range l {
				s.pend = append(s.pend, [2]int{int(m.Receiver()[len("R#")] - '0'), id(m.Params()["x"])})
			}
		}
		got[canon(s)] = true
	}
	x := sym.Concrete(v)
	s0 := st{y: [3]int{-1, -1, -1}}
	seen := map[string]bool{canon(s0): true}
	for queue := []st{s0}; len(queue) > 0; queue = queue[1:] {
		s := queue[0]
		add := func(t st) {
			if k := canon(t); !seen[k] {
				seen[k] = true
				queue = append(queue, t)
			}
		}
		if s.n[0]+s.n[1]+s.n[2] < most {
			for i := 0; i < n; i++ {
				for to := 0; to < n; to++ {
					t := s
					t.n[i]++
					t.pend = append(append([][2]int{}, s.pend...), [2]int{to, []int{i, to, x}[arg]})
					add(t)
				}
			}
		}
		for j, m := range s.pend {
			t := s
			t.pend = append(append([][2]int{}, s.pend[:j]...), s.pend[j+1:]...)
			t.y[m[0]] = m[1]
			add(t)
		}
	}
	for k := range seen {
		if !got[k] {
			sym.Debug("missing " + k)
		}
		sym.Assert(got[k], "a delivery order is not explored")
	}
	for k := range got {
		if !seen[k] {
			sym.Debug("extra " + k)
		}
		sym.Assert(seen[k], "a state is explored that no delivery order leads to")
	}
	sym.Cover("compared")
}
