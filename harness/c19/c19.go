// Package c19: exported graphs describe exactly the explored graph.
package c19

import (
	"fmt"
	"os"
	"sort"
	"strings"

	ast "fizz/proto"
	"verifh/spec"
	"verifh/star"
	"verifh/sym"
	"verifh/ts"

	"github.com/fizzbee-io/fizzbee/modelchecker"
	"go.starlark.net/starlark"
	"google.golang.org/protobuf/proto"
)

func more(quick, thorough int) int {
	if sym.Tier() > 0 {
		return thorough
	}
	return quick
}

// explored is the graph in memory: the nodes that lie on an execution from one
// yield point to the next, and the links between them.
func explored(root *modelchecker.Node) (nodes []*modelchecker.Node, links map[*modelchecker.Node][]*modelchecker.Link) {
	var all []*modelchecker.Node
	seen := map[*modelchecker.Node]bool{root: true}
	queue := []*modelchecker.Node{root}
	into := map[*modelchecker.Node][]*modelchecker.Node{}
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		all = append(all, n)
		for _, l := range n.Outbound {
			if !l.Node.Enabled {
				continue
			}
			into[l.Node] = append(into[l.Node], n)
			if !seen[l.Node] {
				seen[l.Node] = true
				queue = append(queue, l.Node)
			}
		}
	}
	live := map[*modelchecker.Node]bool{}
	var mark func(n *modelchecker.Node)
	mark = func(n *modelchecker.Node) {
		if live[n] {
			return
		}
		live[n] = true
		for _, p := range into[n] {
			mark(p)
		}
	}
	for _, n := range all {
		if n.Name == "yield" || n.Name == "init" || n.Name == "crash" {
			mark(n)
		}
	}
	links = map[*modelchecker.Node][]*modelchecker.Link{}
	for _, n := range all {
		if !live[n] {
			continue
		}
		nodes = append(nodes, n)
		for _, l := range n.Outbound {
			if l.Node.Enabled && live[l.Node] {
				links[n] = append(links[n], l)
			}
		}
	}
	return
}

// whole is the number of enabled nodes.
func whole(root *modelchecker.Node) int {
	seen := map[*modelchecker.Node]bool{}
	var visit func(n *modelchecker.Node)
	visit = func(n *modelchecker.Node) {
		if seen[n] || !n.Enabled {
			return
		}
		seen[n] = true
		for _, l := range n.Outbound {
			visit(l.Node)
		}
	}
	visit(root)
	return len(seen)
}

func returns(d starlark.StringDict) string {
	var s []string
	for k, v := range d {
		s = append(s, k+"="+v.String())
	}
	sort.Strings(s)
	return strings.Join(s, ";")
}

func message(m *ast.Message) string {
	s := m.Sender + "->" + strings.Join(m.Receivers, ",") + " " + m.Name + fmt.Sprint(m.IsReturn, m.Lossy)
	for _, v := range m.Values {
		s += ";" + v.Name + "=" + v.Value
	}
	return s
}

func describe(typ, name string, labels []string, req int, msgs []*ast.Message, ret string) string {
	s := typ + "|" + name + "|" + strings.Join(labels, ",") + fmt.Sprint("|", req, "|")
	for _, m := range msgs {
		s += message(m) + " "
	}
	return s + "|" + ret
}

func ofLink(l *modelchecker.Link, typ string) string {
	return describe(typ, l.Name, l.Labels, l.ReqId, l.Messages, returns(l.Returns))
}

func ofProto(l *ast.Link) string {
	var r []string
	for i, v := range l.Returns {
		r = append(r, v.Name+"="+v.Value)
		sym.Assert(i == 0 || l.Returns[i-1].Name < v.Name, "the returned values of an exported link are not in the order of their names")
	}
	return describe(l.Type, l.Name, l.Labels, int(l.ReqId), l.Messages, strings.Join(r, ";"))
}

func threads(l *modelchecker.Link, e *ast.Link) bool {
	if len(l.ThreadsMap) != len(e.NewToOldThreads) {
		return false
	}
	for k, v := range l.ThreadsMap {
		if w, ok := e.NewToOldThreads[int64(k)]; !ok || w != int64(v) {
			return false
		}
	}
	return true
}

// read reads the files as their consumers do: in the order of the file names, one after the other.
func read(files []string) [][]byte {
	files = append([]string{}, files...)
	sort.Strings(files)
	var out [][]byte
	for i, f := range files {
		sym.Assert(i == 0 || files[i-1] != f, "one exported file overwrites another")
		b, err := os.ReadFile(f)
		sym.Assert(err == nil, "an exported file does not exist")
		out = append(out, b)
	}
	return out
}

func readNodes(files []string) (json []string) {
	for _, b := range read(files) {
		var n ast.Nodes
		err := proto.Unmarshal(b, &n)
		sym.Assert(err == nil, "an exported file cannot be read")
		json = append(json, n.Json...)
	}
	return
}

func readLinks(files []string, total int) (links []*ast.Link) {
	for _, b := range read(files) {
		var n ast.Links
		err := proto.Unmarshal(b, &n)
		sym.Assert(err == nil, "an exported file cannot be read")
		sym.Assert(n.TotalNodes == int64(total), "an exported file states another number of nodes")
		links = append(links, n.Links...)
	}
	return
}

// graph checks the export of a finished run.
func graph(root *modelchecker.Node) {
	want, out := explored(root)
	if whole(root) > len(want) {
		sym.Cover("dead alternative")
	}
	nodes, _, _, _ := modelchecker.GetAllNodes(root, 100)
	at := map[*modelchecker.Node]int{}
	for i, n := range nodes {
		_, dup := at[n]
		sym.Assert(!dup, "a node is listed twice")
		at[n] = i
	}
	sym.Assert(len(nodes) == len(want), "the listed nodes are not the explored nodes")
	for _, n := range want {
		_, ok := at[n]
		sym.Assert(ok, "an explored node is not listed")
	}
	nf, lf, err := modelchecker.GenerateProtoOfJson(nodes, "out/x/")
	sym.Assert(err == nil, "the export fails")
	json := readNodes(nf)
	sym.Assert(len(json) == len(nodes), "the exported nodes are not the explored nodes")
	for i, n := range nodes {
		sym.Assert(json[i] == n.GetJsonString(), "an exported node is not the node of its index")
	}
	links := readLinks(lf, len(nodes))
	by := make([][]*ast.Link, len(nodes))
	for _, l := range links {
		sym.Assert(l.Src >= 0 && l.Src < int64(len(nodes)) && l.Dest >= 0 && l.Dest < int64(len(nodes)), "an exported link has an end out of range")
		by[l.Src] = append(by[l.Src], l)
	}
	for i, n := range nodes {
		ls := out[n]
		if len(ls) == 0 {
			sym.Assert(len(by[i]) == 1 && by[i][0].Dest == int64(i) && by[i][0].Weight == 1 && by[i][0].Name == "end", "a node where everything ends is not exported with one link to itself")
			sym.Cover("end")
			continue
		}
		sym.Assert(len(by[i]) == len(ls), "the exported links of a node are not its explored links")
		used := map[int]bool{}
		for _, l := range ls {
			found := false
			for k, e := range by[i] {
				if !used[k] && e.Dest == int64(at[l.Node]) && ofProto(e) == ofLink(l, l.Type) && threads(l, e) {
					used[k], found = true, true
					break
				}
			}
			sym.Assert(found, "an explored link is not exported as it is")
		}
		sum := 0.0
		for _, e := range by[i] {
			sym.Assert(e.Weight > 0, "an exported link has no weight")
			sum += e.Weight
		}
		sym.Assert(sum > 0.999999 && sum < 1.000001, "the weights of a node's exported links do not add up to one")
	}
	if len(nf) > 1 && len(lf) > 1 {
		sym.Cover("several files")
	}
	dot(root)
}

// dot checks the picture of the graph: every enabled node and link once.
func dot(root *modelchecker.Node) {
	var all []*modelchecker.Node
	seen := map[*modelchecker.Node]bool{}
	var visit func(n *modelchecker.Node)
	edges := map[string]int{}
	visit = func(n *modelchecker.Node) {
		if seen[n] {
			return
		}
		seen[n] = true
		all = append(all, n)
		for _, l := range n.Outbound {
			if l.Node.Enabled {
				edges[fmt.Sprintf("\"%p\" -> \"%p\"", n, l.Node)]++
				visit(l.Node)
			}
		}
	}
	visit(root)
	d := modelchecker.GenerateDotFile(root, map[*modelchecker.Node]bool{})
	lines := strings.Split(d, "\n")
	count := func(prefix string) (n int) {
		for _, l := range lines {
			if strings.HasPrefix(l, prefix) {
				n++
			}
		}
		return
	}
	for _, n := range all {
		sym.Assert(count(fmt.Sprintf("  \"%p\" [label=", n)) == 1, "the picture does not show an explored node once")
	}
	total := 0
	for e, k := range edges {
		sym.Assert(count("  "+e+" [label=") == k, "the picture does not show every explored link")
		total += k
	}
	sym.Assert(count("  \"") == total+len(all), "the picture shows something that was not explored")
}

// path checks the export of a failing execution.
func path(p []*modelchecker.Link) {
	nf, lf, err := modelchecker.GenerateErrorPathProtoOfJson(p, "out/x/")
	sym.Assert(err == nil, "the export fails")
	json := readNodes(nf)
	sym.Assert(len(json) == len(p), "the exported failure does not have the steps of the failing execution")
	for i, l := range p {
		sym.Assert(json[i] == l.Node.GetJsonString(), "a state of the exported failure is not the state of the failing execution")
	}
	links := readLinks(lf, len(p))
	sym.Assert(len(links) == len(p)-1, "the exported failure does not have the steps of the failing execution")
	for i, e := range links {
		sym.Assert(e.Src == int64(i) && e.Dest == int64(i+1), "a step of the exported failure joins other states")
		sym.Assert(ofProto(e) == ofLink(p[i+1], e.Type), "a step of the exported failure is not the step of the failing execution")
	}
	if len(p) > 2 {
		sym.Cover("path")
	}
	d := modelchecker.GenerateFailurePath(p, "", nil)
	for i := 1; i < len(p); i++ {
		sym.Assert(strings.Contains(d, fmt.Sprintf("[label=\"%d: %s\"", i, strings.ReplaceAll(p[i].Name, "\"", "\\\""))), "the picture of the failure misses a step")
	}
	sym.Assert(strings.Count(d, " -> ") >= len(p)-1, "the picture of the failure misses a step")
}

// H_graph: every small graph of one or two actions, with choices, dead
// alternatives, self loops and parallel links.
func H_graph() {
	form := sym.Choose("form", ts.Forms)
	n := more(3, 4)
	if form == ts.Req || form == ts.If || form == ts.Forced {
		n = more(4, 5)
	}
	m := ts.New(n, ts.Act{Name: "A", Form: form})
	m.Plain = true
	root, failed, err := ts.Config{Processed: sym.Tier() > 0 && sym.Flip("processed")}.Make(m.File()).Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	graph(root)
}

// H_dead: alternatives that end in a disabled statement after the state changed.
func H_dead() {
	memo := map[int]bool{}
	spec.Builtin("ok", func(a []starlark.Value) starlark.Value {
		i := 4*star.IntOf(a[0]) + star.IntOf(a[1])
		if _, ok := memo[i]; !ok {
			memo[i] = sym.Flip("ok")
		}
		return starlark.Bool(memo[i])
	})
	inner := spec.Block(0, spec.Require("ok(k, x)"), spec.Py("s = x"))
	alt := func(k string) *ast.Statement {
		return spec.Nest(spec.Block(spec.Atomic, spec.Py("k = "+k), spec.Any("x", "[0, 1]", "", inner)))
	}
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic, spec.Py("s = 0"))),
		spec.Action("A", spec.Block(spec.Atomic, spec.Require("s == 0"), spec.Py("s = 2"), spec.Nest(spec.Block(spec.Oneof, alt("1"), alt("2"))))))
	root, failed, err := spec.New(f, spec.Options(100, 1, false, false), []string{"", "dfs"}[sym.Choose("strategy", 2)]).Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	graph(root)
}

func H_pair() {
	forms := [][2]int{{ts.Req, ts.Forced}, {ts.If, ts.OneOf}, {ts.Pick, ts.Forced}}[sym.Choose("forms", 3)]
	m := ts.New(more(2, 3), ts.Act{Name: "A", Form: forms[0]}, ts.Act{Name: "B", Form: forms[1]})
	m.Plain = true
	root, failed, err := ts.Config{}.Make(m.File()).Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	graph(root)
}

// rich is a program with roles, calls, returned values, labels and several
// threads; nxt is an arbitrary table.
func rich(serial bool) *ast.File {
	flow := spec.Atomic
	if serial {
		flow = spec.Serial
	}
	act := spec.Action("A", spec.Block(flow,
		spec.Require("self.x < 2"),
		spec.Labeled("one", spec.Py("self.x = self.x + 1")),
		spec.Py("q = self.Q"),
		spec.Call([]string{"v"}, "q", "F", "self.x", "'m'"),
		spec.Labeled("two", spec.Py("self.y = v")),
		spec.Return("[v, 'r']")))
	r := spec.Role("R", []*ast.Action{spec.Action("Init", spec.Block(spec.Atomic, spec.Py("self.x = 0\nself.y = 0"))), act})
	q := spec.Role("Q", []*ast.Action{spec.Action("Init", spec.Block(spec.Atomic, spec.Py("self.y = 0")))},
		spec.Func("F", flow, []string{"a", "b"}, spec.Labeled("in", spec.Py("self.y = nxt(a)")), spec.Return("nxt(self.y)")))
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic, spec.Py("q = Q()"), spec.Py("r = R(Q=q)"))),
		spec.Action("G", spec.Block(spec.Atomic, spec.Require("q.y == 0"), spec.Return("q.y"))))
	f.Roles = []*ast.Role{q, r}
	return f
}

func table(n int) {
	memo := map[int]int{}
	spec.Builtin("nxt", func(a []starlark.Value) starlark.Value {
		i := star.IntOf(a[0])
		if _, ok := memo[i]; !ok {
			memo[i] = sym.Choose("nxt", n)
		}
		return starlark.MakeInt(memo[i])
	})
}

// H_rich: labels, messages, returned values, concurrent threads and crashes.
func H_rich() {
	table(2)
	serial := sym.Flip("serial")
	conc, crash := 1, false
	if serial {
		conc += sym.Choose("threads", 2)
		crash = conc == 1 && sym.Flip("crash")
	}
	root, failed, err := spec.New(rich(serial), spec.Options(100, int64(conc), crash, false), "").Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	graph(root)
	sym.Cover("rich")
}

// H_symmetric: choices between symmetric values, symmetric values in states and returned values.
func H_symmetric() {
	m := spec.Action("A", spec.Block(spec.Atomic,
		spec.Any("k", "KEYS.values()", "", spec.Block(0, spec.Py("s.add(k)"), spec.Return("k")))))
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic, spec.Py("s = set()"))), m)
	f.Stmts = append(f.Stmts, spec.Py([]string{"KEYS = symmetry.nominal(name='k', limit=2)", "KEYS = symmetry.ordinal(name='k', limit=2)", "KEYS = symmetry.rotational(name='k', limit=2)"}[sym.Choose("kind", 3)]))
	root, failed, err := spec.New(f, spec.Options(100, 1, false, false), "").Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	graph(root)
}

// H_failure: the failing execution of a model whose assertion is any table of truth values.
func H_failure() {
	forms := []int{ts.Req, ts.Pick, ts.OneOf, ts.Any}
	config := ts.Config{Processed: sym.Flip("processed")}
	if sym.Tier() > 0 {
		config = ts.AnyConfig()
	}
	m := ts.New(3, ts.Act{Name: "A", Form: forms[sym.Choose("form", more(2, 4))]})
	m.Plain = true
	f := m.File()
	spec.Builtin("bad", func(a []starlark.Value) starlark.Value {
		return starlark.Bool(m.TruthOf(0, m.Rep(star.IntOf(a[0]))))
	})
	f.Invariants = append(f.Invariants, spec.Assertion("I", []string{"always"}, "bad(s)"))
	root, failed, err := config.Make(f).Start()
	sym.Assert(err == nil, "exploration of a valid model fails")
	if failed == nil {
		return
	}
	path(modelchecker.ExtractFailurePath(failed, root))
}

// H_failRich: the same for a program with calls, messages, returned values and labels.
func H_failRich() {
	table(2)
	serial := sym.Flip("serial")
	f := rich(serial)
	f.Invariants = append(f.Invariants, spec.Assertion("I", []string{"always"}, []string{"r.y == 0", "r.x < 2", "q.y == 0"}[sym.Choose("which", 3)]))
	conc := 1
	if serial {
		conc += sym.Choose("threads", 2)
	}
	root, failed, err := spec.New(f, spec.Options(100, int64(conc), false, false), "").Start()
	sym.Assert(err == nil, "exploration of a valid model fails")
	if failed != nil {
		path(modelchecker.ExtractFailurePath(failed, root))
	}
}

// H_liveness: the failing execution of a liveness assertion, which ends in a cycle.
func H_liveness() {
	m := ts.New(3, ts.Act{Name: "A", Form: []int{ts.Req, ts.If}[sym.Choose("form", 2)]})
	m.Plain = true
	f := m.File()
	spec.Builtin("good", func(a []starlark.Value) starlark.Value {
		return starlark.Bool(m.TruthOf(0, m.Rep(star.IntOf(a[0]))))
	})
	f.Invariants = append(f.Invariants, spec.Assertion("L", []string{"always", "eventually"}, "good(s)"))
	root, failed, err := ts.Config{}.Make(f).Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	nodes, _, _, _ := modelchecker.GetAllNodes(root, 100)
	p, inv := modelchecker.CheckStrictLiveness(root, nodes)
	if inv != nil {
		path(p)
	}
}
