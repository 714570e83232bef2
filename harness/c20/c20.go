// Package c20: positions in a program are navigated faithfully.
package c20

import (
	"fmt"
	"strings"

	"verifh/spec"
	"verifh/star"
	"verifh/sym"
	"verifh/ts"

	ast "fizz/proto"

	"github.com/fizzbee-io/fizzbee/modelchecker"
	"go.starlark.net/starlark"
	"google.golang.org/protobuf/proto"
)

func more(quick, thorough int) int {
	if sym.Tier() > 0 {
		return thorough
	}
	return quick
}

// ---- runs: the statements executed, in order ----

const (
	nest = iota
	ifFirst
	ifThird
	ifNone
	anyOf
	loop
	while
	call
	kinds

	leaf
	brk
	cont
	ret
)

var names = []string{"block", "if", "elif elif", "if-none", "any", "for", "while", "call", "", "leaf", "break", "continue", "return"}

type node struct {
	kind int
	id   int
	body []*node
}

type gen struct {
	n     int // ids
	funcs []*ast.Function
	flow  ast.Flow
}

func (g *gen) leaf() *node { g.n++; return &node{kind: leaf, id: g.n} }

func (g *gen) leaves(n int) (out []*node) {
	for i := 0; i < n; i++ {
		out = append(out, g.leaf())
	}
	return
}

func block(b []*ast.Statement) *ast.Block { return spec.Block(ast.Flow_FLOW_UNKNOWN, b...) }

func (g *gen) log(id int) *ast.Statement { return spec.Py(fmt.Sprintf("self.log = self.log + [%d]", id)) }

// wrong is a block that is never executed, of a size that may be larger or
// smaller than the others.
func (g *gen) wrong(n int) *ast.Block {
	var b []*ast.Statement
	for i := 0; i < n; i++ {
		b = append(b, g.log(-1))
	}
	return block(b)
}

func branch(cond string, b *ast.Block) *ast.Branch {
	return &ast.Branch{SourceInfo: b.SourceInfo, Condition: cond, ConditionExpr: spec.Expr(cond), Block: b}
}

func (g *gen) stmts(ns []*node) (out []*ast.Statement) {
	for _, n := range ns {
		out = append(out, g.stmt(n)...)
	}
	return
}

func (g *gen) stmt(n *node) []*ast.Statement {
	one := func(s *ast.Statement) []*ast.Statement { return []*ast.Statement{s} }
	switch n.kind {
	case leaf:
		return one(g.log(n.id))
	case brk:
		return one(spec.Break())
	case cont:
		return one(spec.Continue())
	case ret:
		return one(spec.Return(""))
	}
	b := block(g.stmts(n.body))
	v := fmt.Sprintf("v%d", n.id)
	switch n.kind {
	case nest:
		return one(spec.Nest(b))
	case ifFirst, ifThird, ifNone:
		s := spec.If("True", b, nil)
		br := branch("True", b)
		switch n.kind {
		case ifFirst:
			s.IfStmt.Branches = []*ast.Branch{br, branch("True", g.wrong(1)), branch("True", g.wrong(2))}
		case ifThird:
			s.IfStmt.Branches = []*ast.Branch{branch("False", g.wrong(1)), branch("False", g.wrong(4)), br, branch("True", g.wrong(1))}
		case ifNone:
			s.IfStmt.Branches = []*ast.Branch{branch("False", b)}
		}
		return one(s)
	case anyOf:
		return one(spec.Any(v, "[7]", "", b))
	case loop:
		return one(spec.For(ast.Flow_FLOW_UNKNOWN, v, "[1, 2]", b))
	case while:
		b.Stmts = append([]*ast.Statement{spec.Py(v + " = " + v + " + 1")}, b.Stmts...)
		return []*ast.Statement{spec.Py(v + " = 0"), spec.While(ast.Flow_FLOW_UNKNOWN, v+" < 2", b)}
	case call:
		name := fmt.Sprintf("F%d", n.id)
		g.funcs = append(g.funcs, spec.Func(name, g.flow, nil, b.Stmts...))
		return one(spec.Call(nil, "self", name))
	}
	panic("kind")
}

// run is the reference: the leaves executed, and how the list ends.
func run(ns []*node, out *[]int) int {
	for _, n := range ns {
		switch n.kind {
		case leaf:
			*out = append(*out, n.id)
		case brk, cont, ret:
			return n.kind
		case ifNone:
		case loop, while:
			for i := 0; i < 2; i++ {
				c := run(n.body, out)
				if c == ret {
					return ret
				}
				if c == brk {
					break
				}
			}
		case call:
			run(n.body, out)
		default:
			if c := run(n.body, out); c != leaf {
				return c
			}
		}
	}
	return leaf
}

func (n *node) String() string {
	s := fmt.Sprintf("%s %d", names[n.kind], n.id)
	if n.kind < kinds {
		s += fmt.Sprint(n.body)
	}
	return s
}

func logOf(n *modelchecker.Node) []int {
	v, err := n.Roles[0].Fields.Attr("log")
	sym.Assert(err == nil, "a role loses its field")
	l := v.(*starlark.List)
	var out []int
	for i := 0; i < l.Len(); i++ {
		out = append(out, star.IntOf(l.Index(i)))
	}
	return out
}

func (g *gen) check(body []*node) {
	var want []int
	run(body, &want)
	a := spec.Block(g.flow, g.stmts(body)...)
	acts := []*ast.Action{spec.Action("Init", spec.Block(spec.Atomic, spec.Py("self.log = []")))}
	for i := 0; i < 10; i++ {
		acts = append(acts, spec.Action(fmt.Sprintf("Z%d", i), spec.Block(spec.Atomic, spec.Require("False"), g.log(-2))))
	}
	acts = append(acts, spec.Action("A", a))
	for i := 0; i < 2; i++ {
		g.funcs = append([]*ast.Function{spec.Func(fmt.Sprintf("Other%d", i), g.flow, nil, g.log(-3), g.log(-4))}, g.funcs...)
	}
	f := spec.File(spec.Action("Init", spec.Block(spec.Atomic, spec.Py("r = R()"))))
	f.Roles = []*ast.Role{
		spec.Role("Q", []*ast.Action{spec.Action("Init", spec.Block(spec.Atomic, spec.Py("self.log = [-5]")))}),
		spec.Role("R", acts, g.funcs...)}
	sym.Show(fmt.Sprint(body, " want ", want))
	root, failed, err := spec.New(f, spec.Options(1, 1, false, false), "bfs").Start()
	sym.Assert(err == nil && failed == nil, "a valid program fails")
	sym.Cover("run")
	ended := false
	for _, n := range ts.Contract(root).Nodes {
		got := logOf(n)
		sym.Show(fmt.Sprint(got, n.GetThreadsCount()))
		sym.Assert(len(got) <= len(want), "statements are executed that are not next")
		for i := range got {
			sym.Assert(got[i] == want[i], "statements are executed that are not next")
		}
		if n.GetThreadsCount() == 0 && n != root {
			sym.Assert(len(got) == len(want), "a program ends before its last statement")
			ended = true
		}
	}
	sym.Assert(ended || len(want) == 0, "a program does not end")
	sym.Cover(fmt.Sprint("leaves", len(want)))
}

// chain is a block of leaves around a statement that contains the next block.
// The block at the given level has as many statements before it as pad says.
func (g *gen) chain(ks []int, end, before, after int, twice bool) []*node {
	b := g.leaves(before)
	if len(ks) > 0 {
		g.n++
		c := &node{kind: ks[0], id: g.n}
		c.body = g.chain(ks[1:], end, before, after, twice)
		b = append(b, c)
		if twice {
			g.n++
			b = append(b, &node{kind: loop, id: g.n, body: g.leaves(1)})
		}
	} else {
		b = append(b, &node{kind: end, id: 0})
		if end == leaf {
			b[len(b)-1] = g.leaf()
		}
	}
	return append(b, g.leaves(after)...)
}

func looped(ks []int) bool {
	for i := len(ks) - 1; i >= 0; i-- {
		if ks[i] == call {
			return false
		}
		if ks[i] == loop || ks[i] == while {
			return true
		}
	}
	return false
}

// H_nested: statements nested in each other in every way
func H_nested() {
	var ks []int
	for i := 0; i < more(3, 4); i++ {
		k := sym.Choose(fmt.Sprint("kind", i), kinds)
		if k == ifNone && i != more(2, 3) {
			k = nest
		}
		ks = append(ks, k)
	}
	end := leaf
	ends := []int{leaf, ret, brk, cont}
	if looped(ks) {
		end = ends[sym.Choose("end", 4)]
	} else {
		end = ends[sym.Choose("end", 2)]
	}
	layout := sym.Choose("layout", more(3, 4))
	g := &gen{flow: []ast.Flow{spec.Atomic, spec.Serial, spec.Serial, spec.Atomic}[layout]}
	before, after := []int{1, 0, 2, 1}[layout], []int{0, 1, 1, 1}[layout]
	g.check(g.chain(ks, end, before, after, layout == 2))
}

// H_long: blocks of more than ten statements
func H_long() {
	k := sym.Choose("kind", kinds)
	g := &gen{flow: []ast.Flow{spec.Atomic, spec.Serial}[sym.Choose("flow", 2)]}
	at := sym.Choose("at", 12)
	b := g.leaves(at)
	g.n++
	c := &node{kind: k, id: g.n}
	in := sym.Choose("in", 3)
	c.body = g.leaves([]int{1, 10, 12}[in])
	b = append(b, c)
	b = append(b, g.leaves(11-at)...)
	g.check(b)
}

// ---- positions ----

type part struct {
	path string
	stmt *ast.Statement
}

// H_paths: every position in a tree is found again, its next position is the
// next statement of the innermost block or the block's end
func H_paths() {
	line := int32(0)
	mark := func() *ast.SourceInfo {
		line++
		return &ast.SourceInfo{Start: &ast.Position{Line: line}}
	}
	mk := func(n int) *ast.Block {
		b := &ast.Block{SourceInfo: mark()}
		for i := 0; i < n; i++ {
			b.Stmts = append(b.Stmts, &ast.Statement{SourceInfo: mark(), PyStmt: &ast.PyStmt{SourceInfo: mark(), Code: fmt.Sprint("x = ", line)}})
		}
		return b
	}
	sizes := []int{1, 11, 2}
	size := func(name string) int { return sizes[sym.Choose(name, more(2, 3))] }
	f := &ast.File{SourceInfo: mark()}
	n := size("top")
	top := mk(n)
	path := ""
	switch sym.Choose("where", 4) {
	case 0:
		for i := 0; i < 11; i++ {
			f.Actions = append(f.Actions, &ast.Action{SourceInfo: mark(), Block: mk(2)})
		}
		f.Actions = append(f.Actions, &ast.Action{SourceInfo: mark(), Block: top})
		path = "Actions[11]"
	case 1:
		f.Functions = []*ast.Function{{SourceInfo: mark(), Block: mk(3)}, {SourceInfo: mark(), Block: top}}
		path = "Functions[1]"
	case 2:
		f.Roles = []*ast.Role{{SourceInfo: mark()}, {SourceInfo: mark(), Actions: []*ast.Action{{SourceInfo: mark(), Block: top}}}}
		path = "Roles[1].Actions[0]"
	case 3:
		f.Invariants = []*ast.Invariant{{SourceInfo: mark(), Block: mk(1)}, {SourceInfo: mark(), Block: mk(1)}, {SourceInfo: mark(), Block: top}}
		path = "Invariants[2]"
	}
	info := func(m proto.Message) *ast.SourceInfo {
		if m == nil {
			return nil
		}
		return m.(modelchecker.CodeSnippet).GetSourceInfo()
	}
	at := func(p string, want *ast.SourceInfo, what string) {
		sym.Show(p)
		sym.Assert(info(modelchecker.GetProtoFieldByPath(f, p)) == want, what)
		// asked again, and of the tree itself
		sym.Assert(info(modelchecker.GetProtoFieldByPath(f, p)) == want, what)
	}
	blockPath := path + ".Block"
	b := top
	depth := more(2, 3)
	var blocks []string
	var open []string // paths of the loops entered
	for d := 0; ; d++ {
		at(blockPath, b.SourceInfo, "a position names another block")
		blocks = append(blocks, blockPath)
		next := 0
		if d < depth {
			next = []int{0, len(b.Stmts) - 1}[sym.Choose(fmt.Sprint("at", d), 2)]
		}
		for i, s := range b.Stmts {
			p := fmt.Sprintf("%s.Stmts[%d]", blockPath, i)
			at(p, s.SourceInfo, "a position names another statement")
			at(p+".PyStmt", s.PyStmt.SourceInfo, "a position names another statement")
			code, ok := modelchecker.GetStringFieldByPath(f, p+".PyStmt.Code")
			sym.Assert(ok && code == s.PyStmt.Code, "the text of a statement is another statement's")
			for _, tail := range []string{"", ".PyStmt", ".PyStmt.Code"} {
				q, v := modelchecker.GetNextFieldPath(f, p+tail)
				if i+1 < len(b.Stmts) {
					sym.Assert(q == fmt.Sprintf("%s.Stmts[%d]", blockPath, i+1), "the next position is another one")
					sym.Assert(v != nil && v.Interface().(*ast.Statement) == b.Stmts[i+1], "the next statement is another one")
				} else {
					sym.Assert(q == blockPath+".$" && v == nil, "a finished block does not end")
				}
				sym.Assert(modelchecker.EndOfBlock(p+tail) == blockPath+".$", "the end of the block is another block's")
			}
			sym.Assert(modelchecker.ParentBlockPath(p) == blockPath, "the block around a statement is another one")
			sym.Assert(modelchecker.RemoveLastBlock(p) == strings.TrimSuffix(blockPath, ".Block"), "a block is left to another position")
		}
		for _, i := range []int{len(b.Stmts), 99} {
			sym.Assert(modelchecker.GetProtoFieldByPath(f, fmt.Sprintf("%s.Stmts[%d]", blockPath, i)) == nil, "a statement is found where there is none")
		}
		sym.Assert(modelchecker.RemoveLastBlock(blockPath+".$") == strings.TrimSuffix(blockPath, ".Block"), "a block is left to another position")
		for _, p := range []string{blockPath + ".$", blockPath + ".Stmts[0]"} {
			if len(open) > 0 {
				l := open[len(open)-1]
				sym.Assert(modelchecker.RemoveLastLoop(p) == l[:strings.LastIndex(l, ".")], "a loop is left to another position")
			}
		}
		if d == depth {
			break
		}
		// the statement in which the next block is
		s := b.Stmts[next]
		p := fmt.Sprintf("%s.Stmts[%d]", blockPath, next)
		inner := mk(size(fmt.Sprint("size", d)))
		switch sym.Choose(fmt.Sprint("kind", d), 5) {
		case 0:
			s.Block = inner
			p += ".Block"
		case 1:
			k := sym.Choose(fmt.Sprint("branch", d), 2)
			s.IfStmt = &ast.IfStmt{SourceInfo: mark()}
			for i := 0; i < 2; i++ {
				s.IfStmt.Branches = append(s.IfStmt.Branches, &ast.Branch{SourceInfo: mark(), Block: mk(1)})
			}
			s.IfStmt.Branches[k].Block = inner
			at(fmt.Sprintf("%s.IfStmt.Branches[%d]", p, k), s.IfStmt.Branches[k].SourceInfo, "a position names another branch")
			for _, q := range []string{p + ".IfStmt", fmt.Sprintf("%s.IfStmt.Branches[%d]", p, k)} {
				sym.Assert(modelchecker.EndOfBlock(q) == blockPath+".$", "the end of the block is another block's")
				r, _ := modelchecker.GetNextFieldPath(f, q)
				t, _ := modelchecker.GetNextFieldPath(f, p)
				sym.Assert(r == t, "the position after a branch is not the one after its statement")
			}
			p = fmt.Sprintf("%s.IfStmt.Branches[%d].Block", p, k)
		case 2:
			s.AnyStmt = &ast.AnyStmt{SourceInfo: mark(), Block: inner}
			at(p+".AnyStmt", s.AnyStmt.SourceInfo, "a position names another statement")
			p += ".AnyStmt.Block"
		case 3:
			s.ForStmt = &ast.ForStmt{SourceInfo: mark(), Block: inner}
			at(p+".ForStmt", s.ForStmt.SourceInfo, "a position names another statement")
			open = append(open, p+".ForStmt")
			p += ".ForStmt.Block"
		case 4:
			s.WhileStmt = &ast.WhileStmt{SourceInfo: mark(), Block: inner}
			at(p+".WhileStmt", s.WhileStmt.SourceInfo, "a position names another statement")
			open = append(open, p+".WhileStmt")
			p += ".WhileStmt.Block"
		}
		blockPath, b = p, inner
	}
	// a file of its own has positions of its own
	g := &ast.File{Actions: f.Actions, Functions: []*ast.Function{{Block: mk(1)}}, SourceInfo: mark()}
	q := "Functions[0].Block"
	sym.Assert(info(modelchecker.GetProtoFieldByPath(g, q)) == g.Functions[0].Block.SourceInfo, "a position of one file names a part of another")
	if len(f.Functions) > 0 {
		at(q, f.Functions[0].Block.SourceInfo, "a position of one file names a part of another")
	}
	sym.Cover("checked")
}
