// Package c21: guided traces restrict exploration to the trace and nothing else.
package c21

import (
	"strconv"
	"strings"

	ast "fizz/proto"
	"verifh/spec"
	"verifh/sym"
	"verifh/ts"

	"github.com/fizzbee-io/fizzbee/modelchecker"
)

func more(quick, thorough int) int {
	if sym.Tier() > 0 {
		return thorough
	}
	return quick
}

// trace is any sequence of labels.
func trace(max int, labels ...string) []string {
	var t []string
	n := 1 + sym.Choose("length", max)
	for i := 0; i < n; i++ {
		t = append(t, labels[sym.Choose("label", len(labels))])
	}
	return t
}

func start(f *ast.File, t *modelchecker.GuidedTrace, processed bool) *modelchecker.Node {
	p := spec.NewGuided(f, spec.Options(50, 2, false, false), "", t)
	p.SetExperimentalProcessedQueue(processed)
	root, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	return root
}

// links are a node's outgoing links to nodes that became enabled.
func links(n *modelchecker.Node) (out []*modelchecker.Link) {
	for _, l := range n.Outbound {
		if l.Node.Enabled || len(live(l.Node)) > 0 {
			out = append(out, l)
		}
	}
	return
}

func live(n *modelchecker.Node) (out []*modelchecker.Link) {
	if n.IsYieldNode() {
		return nil
	}
	return links(n)
}

// walker compares the explored tree with the executions of the table that follow the trace.
type walker struct {
	m     *ts.Model
	t     []string
	ext   int
	most  int // the longest part of the trace an execution consumes
	how   int
}

func (w *walker) next(k int) string {
	if k < len(w.t) {
		return w.t[k]
	}
	return ""
}

// at is a yield point in state i, with k links of the trace consumed and x steps taken beyond it.
func (w *walker) at(n *modelchecker.Node, i, k, x int) {
	sym.Assert(w.m.Rep(ts.StoredOf(n, w.how)) == i, "a guided execution reaches another state")
	if k > w.most {
		w.most = k
	}
	found := map[string]int{}
	for _, l := range links(n) {
		found[l.Name]++
	}
	total := 0
	for a, act := range w.m.Acts {
		follow := w.next(k) == act.Name || k >= len(w.t) && x < w.ext
		var want []int
		if follow && act.Form == ts.Pick {
			for _, j := range w.m.Next(a, i) {
				if k >= len(w.t) || w.next(k+1) == "Any:s="+strconv.Itoa(w.m.Val(j)) {
					want = append(want, j)
				}
			}
			if k < len(w.t) && len(w.m.Next(a, i)) > 0 && k+1 > w.most {
				w.most = k + 1 // the action starts, even when none of its choices is the trace's next link
			}
		} else if follow {
			want = w.m.Next(a, i)
		}
		if len(want) == 0 {
			if follow && act.Form == ts.Pick && len(w.m.Next(a, i)) > 0 {
				total += found[act.Name] // a step the trace ends inside of
			}
			continue
		}
		sym.Assert(found[act.Name] == 1, "an execution that matches the trace is not explored")
		total++
		var to *modelchecker.Node
		for _, l := range links(n) {
			if l.Name == act.Name {
				to = l.Node
			}
		}
		k2, x2 := k+1, x
		if k >= len(w.t) {
			k2, x2 = k, x+1
		}
		if act.Form != ts.Pick {
			w.at(to, want[0], k2, x2)
			continue
		}
		cs := links(to)
		for _, c := range cs {
			ok := false
			for _, j := range want {
				ok = ok || w.m.Rep(ts.StoredOf(c.Node, w.how)) == j
			}
			sym.Assert(ok, "a choice that does not match the trace is explored")
		}
		for _, j := range want {
			ok := false
			for _, c := range cs {
				if w.m.Rep(ts.StoredOf(c.Node, w.how)) == j {
					ok = true
					w.at(c.Node, j, k2+1, x2)
				}
			}
			sym.Assert(ok, "a choice that matches the trace is not explored")
		}
	}
	sym.Assert(total == len(links(n)), "a step that does not match the trace is explored")
}

func check(m *ts.Model, t []string, ext int) { stored(m, ts.Var, t, ext) }

func stored(m *ts.Model, how int, t []string, ext int) {
	tr := &modelchecker.GuidedTrace{LinkNames: t, ExtendDepth: ext}
	f := m.FileStored(how)
	if how == ts.InRole {
		for i := range m.Acts {
			m.Acts[i].Name = "R#0." + m.Acts[i].Name
		}
	}
	root := start(f, tr, sym.Flip("processed"))
	w := &walker{m: m, t: t, ext: ext, how: how}
	w.at(root, m.Rep(0), 0, 0)
	sym.Cover("checked")
	sym.Assert(tr.IsExhausted() == (w.most >= len(t)), "completion is reported exactly when an execution consumes the whole trace")
	if tr.IsExhausted() {
		sym.Cover("complete")
	}
}

// actions with one outcome
func H_steps() {
	m := ts.New(3, ts.Act{"A", ts.Req}, ts.Act{"B", ts.If})
	check(m, trace(more(4, 5), "A", "B"), 0)
}

// looking further after the end of the trace
func H_extend() {
	m := ts.New(2, ts.Act{"A", ts.Req}, ts.Act{"B", ts.Req})
	check(m, trace(2, "A", "B"), 1+sym.Choose("extend", 2))
}

// actions that choose
func H_choice() {
	m := ts.New(2, ts.Act{"A", ts.Pick}, ts.Act{"B", ts.Req})
	check(m, trace(more(4, 5), "A", "B", "Any:s=0", "Any:s=7"), 0)
}

// actions that can be interrupted: started steps always continue
func H_threads() {
	m := ts.New(2, ts.Act{"A", ts.Forced}, ts.Act{"B", ts.Req})
	f := m.File()
	f.Actions[1] = spec.Action("A", spec.Block(spec.Serial, spec.Py("s = nxt(0, 0, s)"), spec.Py("s = nxt(0, 1, s)")))
	t := trace(more(3, 4), "A", "B")
	tr := &modelchecker.GuidedTrace{LinkNames: t}
	root := start(f, tr, sym.Flip("processed"))
	most := 0
	var at func(n *modelchecker.Node, i, open, k int)
	at = func(n *modelchecker.Node, i, open, k int) {
		sym.Assert(m.Rep(ts.S(n)) == i, "a guided execution reaches another state")
		sym.Assert(n.GetThreadsCount() == open, "a guided execution loses or gains a step under way")
		if k > most {
			most = k
		}
		name := ""
		if k < len(t) {
			name = t[k]
		}
		threads, acts := 0, 0
		for _, l := range links(n) {
			if strings.HasPrefix(l.Name, "thread-") {
				threads++
				at(l.Node, m.Rep(m.Succ(0, 1, i)[0]), open-1, k)
				continue
			}
			acts++
			sym.Assert(l.Name == name, "a step that does not match the trace is explored")
			if name == "A" {
				at(l.Node, m.Rep(m.Succ(0, 0, i)[0]), open+1, k+1)
			} else {
				nx := m.Next(1, i)
				sym.Assert(len(nx) == 1, "a disabled action is explored")
				at(l.Node, nx[0], open, k+1)
			}
		}
		sym.Assert(threads == open, "a step under way is not continued")
		can := open < 2 && (name == "A" || name == "B" && len(m.Next(1, i)) > 0)
		sym.Assert((acts == 1) == can, "an execution that matches the trace is not explored")
	}
	at(root, m.Rep(0), 0, 0)
	sym.Cover("checked")
	sym.Assert(tr.IsExhausted() == (most >= len(t)), "completion is reported exactly when an execution consumes the whole trace")
}

// the text form: one name per line, blank lines and comments ignored
func H_parse() {
	var lines, want []string
	n := 1 + sym.Choose("lines", more(3, 4))
	for i := 0; i < n; i++ {
		switch sym.Choose("kind", 5) {
		case 0:
			lines = append(lines, "")
		case 1:
			lines = append(lines, "  # A")
		case 2:
			lines, want = append(lines, "A"), append(want, "A")
		case 3:
			lines, want = append(lines, "  Any:x=1 # y  "), append(want, "Any:x=1 # y")
		case 4:
			lines, want = append(lines, "R#0.B\r"), append(want, "R#0.B")
		}
	}
	end := ""
	if sym.Flip("newline") {
		end = "\n"
	}
	t, err := modelchecker.ParseTraceString(strings.Join(lines, "\n") + end)
	sym.Cover("parsed")
	sym.Assert((err != nil) == (len(want) == 0), "a trace is rejected exactly when it is empty")
	if err != nil {
		return
	}
	sym.Assert(len(t.LinkNames) == len(want), "a trace has one link per line that is neither blank nor a comment")
	for i := range want {
		sym.Assert(t.LinkNames[i] == want[i], "a trace link is not the text of its line")
		name, err := t.GetNextLinkName()
		sym.Assert(err == nil && name == want[i] && t.GetCurrentIndex() == i && !t.IsExhausted(), "a trace is consumed in order")
		t.Advance()
	}
	_, err = t.GetNextLinkName()
	sym.Assert(err != nil && t.IsExhausted(), "a consumed trace is exhausted")
}

// actions of a role instance
func H_role() {
	m := ts.New(2, ts.Act{"A", ts.Req}, ts.Act{"B", ts.Req})
	stored(m, ts.InRole, trace(2, "R#0.A", "R#0.B", "R.A"), sym.Choose("extend", 2))
}
