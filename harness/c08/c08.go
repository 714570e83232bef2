// Package c08: deadlocks are reported exactly when a reachable state has no successor.
package c08

import (
	"verifh/sym"
	"verifh/ts"

	"github.com/fizzbee-io/fizzbee/modelchecker"
)

func more(quick, thorough int) int {
	if sym.Tier() > 0 {
		return thorough
	}
	return quick
}

// report is the node the command line tool reports as a deadlock.
func report(c ts.Config, p *modelchecker.Processor, root *modelchecker.Node) *modelchecker.Node {
	if d := p.GetEarlyDeadlock(); d != nil {
		return d
	}
	if c.NoGraph {
		return nil
	}
	_, _, d, _ := modelchecker.GetAllNodes(root, c.Max)
	if !c.Deadlock {
		return nil
	}
	return d
}

func dead(m *ts.Model, i int) bool {
	for a := range m.Acts {
		if len(m.Next(a, i)) > 0 {
			return false
		}
	}
	return true
}

func check(m *ts.Model, c ts.Config) {
	if c.Max == 0 {
		c.Max = 50
	}
	p := c.Make(m.File())
	root, failed, err := p.Start()
	sym.Assert(err == nil && failed == nil, "exploration of a valid model fails")
	d := report(c, p, root)
	sym.Cover("run")
	if !c.Deadlock {
		sym.Assert(d == nil, "a deadlock is reported although deadlock detection is off")
		return
	}
	order, depth := m.Reach()
	want, within := false, map[int]bool{}
	for _, i := range order {
		if depth[i] < int(c.Max) && dead(m, i) {
			want = true
			within[i] = true
		}
	}
	if d == nil {
		sym.Assert(!want, "a reachable deadlock is not reported")
		return
	}
	sym.Cover("deadlock")
	sym.Assert(want, "a deadlock is reported although every reachable state has a successor or is at the limit")
	sym.Assert(within[m.Rep(ts.S(d))], "the state reported as a deadlock has a successor")
}

func config() ts.Config {
	c := ts.AnyConfig()
	c.Deadlock = true
	return c
}

// one action of any form, every strategy
func H_single() {
	form := sym.Choose("form", ts.Forms)
	check(ts.New(more(2, 3), ts.Act{"A", form}), config())
}

func H_deep() {
	form := []int{ts.Req, ts.If, ts.OneOf}[sym.Choose("form", 3)]
	check(ts.New(more(3, 4), ts.Act{"A", form}), ts.Config{Deadlock: true, Processed: sym.Flip("processed")})
}

// two actions
func H_pair() {
	forms := [][2]int{{ts.Req, ts.If}, {ts.Pick, ts.If}, {ts.If, ts.OneOf}, {ts.Req, ts.PrefixAny}}[sym.Choose("forms", 4)]
	c := ts.Config{Deadlock: true}
	if sym.Flip("processed") {
		c.Processed = true
	}
	check(ts.New(2, ts.Act{"A", forms[0]}, ts.Act{"B", forms[1]}), c)
}

// dead branches and intermediate states shared between steps
func H_branches() {
	c := ts.Config{Deadlock: true, Processed: sym.Flip("processed")}
	check(ts.New(2, ts.Act{"A", ts.Midway}, ts.Act{"B", ts.Req}), c)
}

func H_branches2() {
	c := ts.Config{Deadlock: true}
	if sym.Tier() > 0 {
		c.Processed = sym.Flip("processed")
	}
	check(ts.New(more(2, 3), ts.Act{"A", ts.Midway}, ts.Act{"B", ts.PrefixAny}), c)
}

// three states, two guarded actions
func H_three() {
	check(ts.New(3, ts.Act{"A", ts.Req}, ts.Act{"B", ts.Req}), ts.Config{Deadlock: true})
}

// the action limit is not a deadlock
func H_limit() {
	m := ts.New(more(4, 5), ts.Act{"A", ts.Req})
	if sym.Flip("pick") {
		m = ts.New(more(3, 4), ts.Act{"A", ts.Pick})
	}
	max := 1 + sym.Choose("max", 3)
	check(m, ts.Config{Deadlock: true, Max: int64(max), Processed: sym.Flip("processed")})
}

// detection switched off
func H_off() {
	m := ts.New(2, ts.Act{"A", ts.Req}, ts.Act{"B", ts.If})
	check(m, ts.AnyConfig())
}

// without a graph
func H_nograph() {
	m := ts.New(more(2, 3), ts.Act{"A", ts.Pick}, ts.Act{"B", ts.Req})
	c := ts.Config{NoGraph: true, Deadlock: true}
	if sym.Flip("dfs") {
		c.Strategy = "dfs"
	}
	check(m, c)
}
