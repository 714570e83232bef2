// Package spec builds FizzBee program trees the way the parser emits them.
package spec

import (
	ast "fizz/proto"

	"github.com/fizzbee-io/fizzbee/lib"
	"github.com/fizzbee-io/fizzbee/modelchecker"
	"go.starlark.net/starlark"
)

const (
	Atomic   = ast.Flow_FLOW_ATOMIC
	Serial   = ast.Flow_FLOW_SERIAL
	Oneof    = ast.Flow_FLOW_ONEOF
	Parallel = ast.Flow_FLOW_PARALLEL
)

func si() *ast.SourceInfo {
	return &ast.SourceInfo{FileName: "spec.fizz", Start: &ast.Position{Line: 1, Column: 1}, End: &ast.Position{Line: 1, Column: 2}}
}

func Py(code string) *ast.Statement {
	return &ast.Statement{SourceInfo: si(), PyStmt: &ast.PyStmt{SourceInfo: si(), Code: code}}
}
func Labeled(label string, s *ast.Statement) *ast.Statement { s.Label = label; return s }
func Block(flow ast.Flow, ss ...*ast.Statement) *ast.Block {
	return &ast.Block{SourceInfo: si(), Flow: flow, Stmts: ss}
}
func Nest(b *ast.Block) *ast.Statement { return &ast.Statement{SourceInfo: si(), Block: b} }
func Expr(e string) *ast.Expr          { return &ast.Expr{SourceInfo: si(), PyExpr: e} }
func Require(cond string) *ast.Statement {
	return &ast.Statement{SourceInfo: si(), RequireStmt: &ast.RequireStmt{SourceInfo: si(), Condition: cond, ConditionExpr: Expr(cond)}}
}
func Return(e string) *ast.Statement {
	r := &ast.ReturnStmt{SourceInfo: si(), PyExpr: e}
	if e != "" {
		r.Expr = Expr(e)
	}
	return &ast.Statement{SourceInfo: si(), ReturnStmt: r}
}
func Break() *ast.Statement {
	return &ast.Statement{SourceInfo: si(), BreakStmt: &ast.BreakStmt{SourceInfo: si()}}
}
func Continue() *ast.Statement {
	return &ast.Statement{SourceInfo: si(), ContinueStmt: &ast.ContinueStmt{SourceInfo: si()}}
}

// Inner blocks carry FLOW_UNKNOWN (inherit) as the parser emits them.
func If(cond string, then *ast.Block, els *ast.Block) *ast.Statement {
	br := []*ast.Branch{{SourceInfo: si(), Condition: cond, ConditionExpr: Expr(cond), Block: then}}
	if els != nil {
		br = append(br, &ast.Branch{SourceInfo: si(), Condition: "True", ConditionExpr: Expr("True"), Block: els})
	}
	return &ast.Statement{SourceInfo: si(), IfStmt: &ast.IfStmt{SourceInfo: si(), Branches: br}}
}
func For(flow ast.Flow, v, in string, b *ast.Block) *ast.Statement {
	return &ast.Statement{SourceInfo: si(), ForStmt: &ast.ForStmt{SourceInfo: si(), Flow: flow, LoopVars: []string{v}, PyExpr: in, IterExpr: Expr(in), Block: b}}
}
func While(flow ast.Flow, cond string, b *ast.Block) *ast.Statement {
	return &ast.Statement{SourceInfo: si(), WhileStmt: &ast.WhileStmt{SourceInfo: si(), Flow: flow, PyExpr: cond, IterExpr: Expr(cond), Block: b}}
}
func Any(v, in, cond string, b *ast.Block) *ast.Statement {
	a := &ast.AnyStmt{SourceInfo: si(), LoopVars: []string{v}, PyExpr: in, IterExpr: Expr(in), Block: b, Condition: cond}
	if cond != "" {
		a.ConditionExpr = Expr(cond)
	}
	return &ast.Statement{SourceInfo: si(), AnyStmt: a}
}

// Pick is the assignment form: v = oneof in (if cond).
func Pick(v, in, cond string) *ast.Statement { return Any(v, in, cond, nil) }

func Call(vars []string, receiver, name string, args ...string) *ast.Statement {
	c := &ast.CallStmt{SourceInfo: si(), Vars: vars, Receiver: receiver, Name: name}
	for _, a := range args {
		c.Args = append(c.Args, &ast.Argument{SourceInfo: si(), PyExpr: a, Expr: Expr(a)})
	}
	return &ast.Statement{SourceInfo: si(), CallStmt: c}
}

func Action(name string, b *ast.Block) *ast.Action {
	return &ast.Action{SourceInfo: si(), Name: name, Flow: b.Flow, Block: b}
}
func Fair(a *ast.Action, l ast.FairnessLevel) *ast.Action {
	a.Fairness = &ast.Fairness{SourceInfo: si(), Level: l}
	return a
}
func Func(name string, flow ast.Flow, params []string, ss ...*ast.Statement) *ast.Function {
	f := &ast.Function{SourceInfo: si(), Name: name, Flow: flow, Block: Block(flow, ss...)}
	for _, p := range params {
		f.Params = append(f.Params, &ast.Parameter{SourceInfo: si(), Name: p})
	}
	return f
}

// Assertion is `<ops> assertion name: return expr`.
func Assertion(name string, ops []string, expr string) *ast.Invariant {
	return &ast.Invariant{SourceInfo: si(), Name: name, TemporalOperators: ops, Block: Block(Atomic, Return(expr))}
}

func File(acts ...*ast.Action) *ast.File {
	return &ast.File{SourceInfo: si(), Actions: acts}
}

// Role declares a role with its Init action, actions and functions.
func Role(name string, acts []*ast.Action, funcs ...*ast.Function) *ast.Role {
	return &ast.Role{SourceInfo: si(), Name: name, Actions: acts, Functions: funcs}
}

func Options(maxActions, maxConc int64, crash, deadlock bool) *ast.StateSpaceOptions {
	return &ast.StateSpaceOptions{
		Options:           &ast.Options{MaxActions: maxActions, MaxConcurrentActions: maxConc, CrashOnYield: &crash},
		DeadlockDetection: &deadlock,
		Liveness:          "strict",
	}
}

func New(f *ast.File, o *ast.StateSpaceOptions, strategy string) *modelchecker.Processor {
	p := modelchecker.NewProcessor([]*ast.File{f}, o, false, 1, "", strategy, true, nil, nil, "")
	inject(p)
	return p
}

// NewSim is a simulation run (every random choice is an input).
func NewSim(f *ast.File, o *ast.StateSpaceOptions) *modelchecker.Processor {
	p := modelchecker.NewProcessor([]*ast.File{f}, o, true, 1, "", "random", true, nil, nil, "")
	inject(p)
	return p
}

// NewRefining is a run of an implementation against the steps of its abstract specs.
func NewRefining(f *ast.File, o *ast.StateSpaceOptions, hashes modelchecker.JoinHashes) *modelchecker.Processor {
	p := modelchecker.NewProcessor([]*ast.File{f}, o, false, 1, "", "bfs", true, hashes, nil, "")
	inject(p)
	return p
}

// NewGuided is a run guided by a trace.
func NewGuided(f *ast.File, o *ast.StateSpaceOptions, strategy string, t *modelchecker.GuidedTrace) *modelchecker.Processor {
	p := modelchecker.NewProcessor([]*ast.File{f}, o, false, 1, "", strategy, true, nil, t, "")
	inject(p)
	return p
}

// Builtin makes a Go function callable from the model.
func Builtin(name string, f func(args []starlark.Value) starlark.Value) {
	lib.Builtins[name] = starlark.NewBuiltin(name, func(_ *starlark.Thread, _ *starlark.Builtin, args starlark.Tuple, _ []starlark.Tuple) (starlark.Value, error) {
		return f([]starlark.Value(args)), nil
	})
}
