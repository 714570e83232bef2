// Package ts builds models whose actions are arbitrary transition tables with
// symbolic entries and compares the explored graph with the table. Entries are
// created on demand: a table entry for (action, state) becomes a fresh input
// the first time somebody asks for it, so the whole space of reachable graphs
// within the bounds is covered without enumerating unreachable entries.
package ts

import (
	"strings"

	ast "fizz/proto"
	"verifh/spec"
	"verifh/star"
	"verifh/sym"

	"github.com/fizzbee-io/fizzbee/modelchecker"
	"go.starlark.net/starlark"
)

// Form of an action's body.
const (
	Req       = iota // require en; s = nxt
	If               // if en: s = nxt
	Any              // any x in succ (none, one or two elements): s = x
	OneOf            // oneof: {require en0; s = nxt0} {require en1; s = nxt1}
	Forced           // s = nxt (always enabled)
	AnyIf            // any x in succ(a,s) if x != s : s = x  (may filter everything)
	PrefixAny        // t = nxt(a, s); s = any succ(b, t)   (an assignment before the choice)
	Pick             // s = any succ
	Forms
	Midway = Forms + iota // s = nxt(a, s); s = any succ(b, s)   (the state changes before the choice)
)

type Act struct {
	Name string
	Form int
}

type Model struct {
	N      int // bound on the number of different states; state values are arbitrary integers
	Plain  bool // the state values are 0, 1, 2, ... instead (for texts of states)
	Acts   []Act
	reps   []int
	nx     map[[3]int][]int
	Fair   []ast.FairnessLevel
	Choice map[int]ast.FairnessLevel // fairness of the choice in a Pick or Any action
	Truth  map[[2]int]bool
	TruthF func(q, i int) bool
	TransF func(i, j int) bool
	SuccF  func(a, k, i int) []int
}

func New(n int, acts ...Act) *Model {
	return &Model{N: n, Acts: acts, nx: map[[3]int][]int{}, Choice: map[int]ast.FairnessLevel{}, Truth: map[[2]int]bool{}}
}

// Rep gives the index of a state value; equal values share an index.
func (m *Model) Rep(v int) int {
	for i, r := range m.reps {
		if r == v {
			return i
		}
	}
	m.reps = append(m.reps, v)
	return len(m.reps) - 1
}
func (m *Model) States() int   { return len(m.reps) }
func (m *Model) Val(i int) int { return m.reps[i] }

// Succ is the list of values action a's k-th table leads to from state i; empty means disabled.
func (m *Model) Succ(a, k, i int) []int {
	key := [3]int{a, k, i}
	if l, ok := m.nx[key]; ok {
		return l
	}
	if m.SuccF != nil {
		return m.SuccF(a, k, i)
	}
	max := 1
	if m.Acts[a].Form == Any || m.Acts[a].Form == Pick || m.Acts[a].Form == AnyIf || ((m.Acts[a].Form == PrefixAny || m.Acts[a].Form == Midway) && k == 1) {
		max = 2
	}
	n := 1
	if m.Acts[a].Form != Forced && !((m.Acts[a].Form == PrefixAny || m.Acts[a].Form == Midway) && k == 0) {
		n = sym.Choose("arity", max+1)
	}
	var l []int
	for j := 0; j < n; j++ {
		l = append(l, m.value())
	}
	m.nx[key] = l
	return l
}

// value is an arbitrary state: one already met, or (within the bound) any other integer.
func (m *Model) value() int {
	k := len(m.reps)
	if k < m.N {
		k++
	}
	if i := sym.Choose("nxt", k); i < len(m.reps) {
		return m.reps[i]
	}
	if m.Plain {
		m.reps = append(m.reps, k-1)
		return k - 1
	}
	v := sym.Int("value", -1000000, 1000000)
	fresh := true
	for _, r := range m.reps {
		fresh = sym.And(fresh, v != r)
	}
	sym.Assume(fresh)
	m.reps = append(m.reps, v)
	return v
}

// Next is the list of distinct state indexes one step of action a leads to from state i.
func (m *Model) Next(a, i int) []int {
	var out []int
	add := func(v int) {
		j := m.Rep(v)
		for _, o := range out {
			if o == j {
				return
			}
		}
		out = append(out, j)
	}
	switch m.Acts[a].Form {
	case OneOf:
		for k := 0; k < 2; k++ {
			for _, v := range m.Succ(a, k, i) {
				add(v)
			}
		}
	case AnyIf:
		for _, v := range m.Succ(a, 0, i) {
			if m.Rep(v) != i {
				add(v)
			}
		}
	case PrefixAny, Midway:
		t := m.Rep(m.Succ(a, 0, i)[0])
		for _, v := range m.Succ(a, 1, t) {
			add(v)
		}
	default:
		for _, v := range m.Succ(a, 0, i) {
			add(v)
		}
	}
	return out
}

func arg(a []starlark.Value, i int) int { return star.IntOf(a[i]) }

// File is the model: state variable s, starting at 0.
func (m *Model) File() *ast.File {
	m.Builtins()
	acts := []*ast.Action{spec.Action("Init", spec.Block(spec.Atomic, spec.Py("s = 0")))}
	return spec.File(append(acts, m.Actions("s")...)...)
}

// How the state is stored.
const (
	Var = iota
	InList
	InDict
	InRecord
	InTuplePair // s = (x, "tag")
	InRole
	Storages
)

// FileStored keeps the same state inside a container, a record or a role field.
func (m *Model) FileStored(how int) *ast.File {
	if how == Var {
		return m.File()
	}
	m.Builtins()
	init := func(code string) *ast.Action { return spec.Action("Init", spec.Block(spec.Atomic, spec.Py(code))) }
	switch how {
	case InList:
		return spec.File(append([]*ast.Action{init("s = [0, [0]]")}, m.Actions("s[0]")...)...)
	case InDict:
		return spec.File(append([]*ast.Action{init("s = {'k': 0, 1: 0}")}, m.Actions("s['k']")...)...)
	case InRecord:
		return spec.File(append([]*ast.Action{init("s = record(x = 0, y = [0])")}, m.Actions("s.x")...)...)
	case InTuplePair:
		return spec.File(append([]*ast.Action{init("s = {'k': [(0, 1)]}")}, m.Actions("s['k'][0]")...)...)
	}
	f := spec.File(init("r = R()"))
	acts := []*ast.Action{init("self.s = 0")}
	f.Roles = []*ast.Role{spec.Role("R", append(acts, m.Actions("self.s")...))}
	return f
}

// StoredOf reads the state back from a node.
func StoredOf(n *modelchecker.Node, how int) int {
	switch how {
	case Var:
		return StateOf(n, "s")
	case InRole:
		v, err := n.Roles[0].Fields.Attr("s")
		sym.Assert(err == nil, "a role loses its field")
		return star.IntOf(v)
	}
	v := n.Heap.GetValue("s")
	switch how {
	case InList:
		return star.IntOf(star.Elems(v)[0])
	case InRecord:
		x, err := v.(starlark.HasAttrs).Attr("x")
		sym.Assert(err == nil, "a record loses its field")
		return star.IntOf(x)
	}
	x, ok, err := v.(*starlark.Dict).Get(starlark.String("k"))
	sym.Assert(ok && err == nil, "a dict loses its entry")
	if how == InTuplePair {
		return star.IntOf(x.(*starlark.List).Index(0).(starlark.Tuple)[0])
	}
	return star.IntOf(x)
}

func (m *Model) Builtins() {
	spec.Builtin("en", func(a []starlark.Value) starlark.Value {
		return starlark.Bool(len(m.Succ(arg(a, 0), arg(a, 1), m.Rep(arg(a, 2)))) > 0)
	})
	spec.Builtin("nxt", func(a []starlark.Value) starlark.Value {
		return star.Int(m.Succ(arg(a, 0), arg(a, 1), m.Rep(arg(a, 2)))[0])
	})
	spec.Builtin("succ", func(a []starlark.Value) starlark.Value {
		return star.List(m.Succ(arg(a, 0), arg(a, 1), m.Rep(arg(a, 2)))...)
	})
	spec.Builtin("truth", func(a []starlark.Value) starlark.Value {
		return starlark.Bool(m.TruthOf(arg(a, 0), m.Rep(arg(a, 1))))
	})
	spec.Builtin("trans", func(a []starlark.Value) starlark.Value {
		return starlark.Bool(m.TransOf(m.Rep(arg(a, 0)), m.Rep(arg(a, 1))))
	})
}

// Actions are the model's actions over the state expression v.
func (m *Model) Actions(v string) []*ast.Action {
	var acts []*ast.Action
	for i, a := range m.Acts {
		x := spec.Action(a.Name, m.Body(i, v))
		if i < len(m.Fair) {
			spec.Fair(x, m.Fair[i])
		}
		acts = append(acts, x)
	}
	return acts
}

// Body is action i's block over the variable v.
func (m *Model) Body(i int, v string) *ast.Block {
	n := string(rune('0' + i))
	tuple := false
	if strings.HasPrefix(v, "s['k'][0]") {
		v, tuple = "s['k'][0][0]", true
	}
	set := func(k string) *ast.Statement {
		e := "nxt(" + n + ", " + k + ", " + v + ")"
		if tuple {
			return spec.Py("s['k'] = [(" + e + ", 1)]")
		}
		return spec.Py(v + " = " + e)
	}
	en := func(k string) string { return "en(" + n + ", " + k + ", " + v + ")" }
	switch m.Acts[i].Form {
	case Req:
		return spec.Block(spec.Atomic, spec.Require(en("0")), set("0"))
	case If:
		return spec.Block(spec.Atomic, spec.If(en("0"), spec.Block(0, set("0")), nil))
	case Any:
		return spec.Block(spec.Atomic, m.fairChoice(i, spec.Any("x", "succ("+n+", 0, "+v+")", "", spec.Block(0, spec.Py(v+" = x")))))
	case AnyIf:
		return spec.Block(spec.Atomic, spec.Any("x", "succ("+n+", 0, "+v+")", "x != "+v, spec.Block(0, spec.Py(v+" = x"))))
	case OneOf:
		return spec.Block(spec.Atomic, spec.Nest(spec.Block(spec.Oneof,
			spec.Nest(spec.Block(spec.Atomic, spec.Require(en("0")), set("0"))),
			spec.Nest(spec.Block(spec.Atomic, spec.Require(en("1")), set("1"))))))
	case PrefixAny:
		return spec.Block(spec.Atomic, spec.Py("t = nxt("+n+", 0, "+v+")"),
			spec.Pick(v, "succ("+n+", 1, t)", ""))
	case Midway:
		return spec.Block(spec.Atomic, set("0"), spec.Pick(v, "succ("+n+", 1, "+v+")", ""))
	case Pick:
		return spec.Block(spec.Atomic, m.fairChoice(i, spec.Pick(v, "succ("+n+", 0, "+v+")", "")))
	default:
		return spec.Block(spec.Atomic, set("0"))
	}
}

func (m *Model) fairChoice(i int, s *ast.Statement) *ast.Statement {
	if l, ok := m.Choice[i]; ok {
		s.AnyStmt.Fairness = &ast.Fairness{SourceInfo: s.SourceInfo, Level: l}
	}
	return s
}

// TruthOf is predicate q's symbolic truth table.
func (m *Model) TruthOf(q, i int) bool {
	if m.TruthF != nil {
		return m.TruthF(q, i)
	}
	k := [2]int{q, i}
	if b, ok := m.Truth[k]; ok {
		return b
	}
	b := sym.Flip("truth")
	m.Truth[k] = b
	return b
}

func (m *Model) TransOf(i, j int) bool {
	if m.TransF != nil {
		return m.TransF(i, j)
	}
	return m.TruthOf(1000+i, j)
}

// Reach is the list of reachable state indexes in breadth-first order with depth.
func (m *Model) Reach() (order []int, depth map[int]int) {
	depth = map[int]int{}
	s0 := m.Rep(0)
	order = append(order, s0)
	depth[s0] = 0
	for q := 0; q < len(order); q++ {
		i := order[q]
		for a := range m.Acts {
			for _, j := range m.Next(a, i) {
				if _, ok := depth[j]; !ok {
					depth[j] = depth[i] + 1
					order = append(order, j)
				}
			}
		}
	}
	return
}

// Edge is one step of the explored graph between yield nodes.
type Edge struct {
	From, To *modelchecker.Node
	Name     string
	Links    []*modelchecker.Link
}

// Graph is the explored graph contracted to yield nodes.
type Graph struct {
	Root  *modelchecker.Node
	Nodes []*modelchecker.Node
	Edges []Edge
}

func Contract(root *modelchecker.Node) *Graph {
	g := &Graph{Root: root}
	seen := map[*modelchecker.Node]bool{}
	var visit func(n *modelchecker.Node)
	visit = func(n *modelchecker.Node) {
		seen[n] = true
		g.Nodes = append(g.Nodes, n)
		var walk func(from *modelchecker.Node, links []*modelchecker.Link)
		walk = func(from *modelchecker.Node, links []*modelchecker.Link) {
			for _, l := range from.Outbound {
				if !l.Node.Enabled {
					continue
				}
				ls := append(append([]*modelchecker.Link{}, links...), l)
				if l.Node.IsYieldNode() {
					g.Edges = append(g.Edges, Edge{n, l.Node, ls[0].Name, ls})
				} else {
					walk(l.Node, ls)
				}
			}
		}
		walk(n, nil)
	}
	visit(root)
	for q := 0; q < len(g.Edges); q++ {
		if !seen[g.Edges[q].To] {
			visit(g.Edges[q].To)
		}
	}
	return g
}

// StateOf is the value of variable v at a node.
func S(n *modelchecker.Node) int { return StateOf(n, "s") }

func StateOf(n *modelchecker.Node, v string) int { return star.IntOf(n.Heap.GetValue(v)) }

// Run explores the model.
type Config struct {
	Strategy  string
	Processed bool
	NoGraph   bool
	Max       int64
	Deadlock  bool
}

func (c Config) Make(f *ast.File) *modelchecker.Processor {
	if c.Max == 0 {
		c.Max = 100
	}
	p := spec.New(f, spec.Options(c.Max, 2, false, c.Deadlock), c.Strategy)
	p.SetExperimentalProcessedQueue(c.Processed || c.NoGraph)
	p.SetExperimentalNoGraph(c.NoGraph)
	return p
}

// Strategies in which an exhaustive run can be made.
func AnyConfig() Config {
	switch sym.Choose("config", 5) {
	case 1:
		return Config{Strategy: "dfs"}
	case 2:
		return Config{Strategy: "random"}
	case 3:
		return Config{Processed: true}
	case 4:
		return Config{Strategy: "dfs", Processed: true}
	}
	return Config{}
}

// CheckGraph asserts that the graph contains exactly the reachable states and exactly the steps of the model.
func (m *Model) CheckGraph(root *modelchecker.Node, state func(*modelchecker.Node) int) (*Graph, map[int]*modelchecker.Node) {
	g := Contract(root)
	order, depth := m.Reach()
	at := map[int]*modelchecker.Node{}
	idx := map[*modelchecker.Node]int{}
	for _, n := range g.Nodes {
		i := m.Rep(state(n))
		idx[n] = i
		_, ok := depth[i]
		sym.Assert(ok, "the graph contains a state no sequence of actions reaches")
		_, dup := at[i]
		sym.Assert(!dup, "the graph contains one state twice")
		at[i] = n
	}
	for _, i := range order {
		_, ok := at[i]
		sym.Assert(ok, "a reachable state was not discovered")
	}
	sym.Assert(idx[g.Root] == m.Rep(0), "exploration does not start at the initial state")
	type e struct {
		i, j int
		a    string
	}
	have := map[e]bool{}
	for _, ed := range g.Edges {
		have[e{idx[ed.From], idx[ed.To], ed.Name}] = true
	}
	cnt := 0
	for _, i := range order {
		for a, act := range m.Acts {
			for _, j := range m.Next(a, i) {
				sym.Assert(have[e{i, j, act.Name}], "a step of the model is missing from the graph")
				cnt++
			}
		}
	}
	sym.Assert(cnt == len(have), "the graph contains a step that no action makes")
	return g, at
}

// IsChoice reports whether a link name marks a nondeterministic choice inside an action.
func IsChoice(name string) bool {
	return strings.HasPrefix(name, "Stmt:") || strings.HasPrefix(name, "Any:") || strings.HasPrefix(name, "For:")
}
