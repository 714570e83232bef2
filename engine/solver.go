package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver is one incremental z3 process.  All assertions of a path live in one
// push scope; queries use a nested scope.
type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	epoch   int32
	scope   bool
	stats   *SolverStats
	lines   int
	Log     io.Writer
	timeout int
}

type SolverStats struct {
	Queries, Sat, Unsat, Unknown int64
	Nearby                       int64 // satisfiable branches settled by an assignment next to the current one
	Errors                       int64
	Time                         time.Duration
}

func solverCmd() []string {
	if s := os.Getenv("VERIF_SOLVER"); s != "" {
		return strings.Fields(s)
	}
	return []string{"z3-new", "-in", "-smt2"}
}

func newSolver(stats *SolverStats) *Solver {
	s := &Solver{stats: stats}
	s.start()
	return s
}

func (s *Solver) start() {
	c := solverCmd()
	s.cmd = exec.Command(c[0], c[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	if d := os.Getenv("VERIF_SMTLOG"); d != "" {
		f, _ := os.CreateTemp(d, "q*.smt2")
		s.Log = f
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.epoch++
	s.send("(set-option :produce-models true)")
	if strings.HasPrefix(c[0], "z3") {
		s.send("(set-option :timeout 60000)")
	}
	s.send("(set-logic QF_BV)")
	s.scope = false
	s.lines = 0
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.send("(exit)")
		s.in.Flush()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(x string) {
	if s.Log != nil {
		io.WriteString(s.Log, x+"\n")
	}
	s.in.WriteString(x)
	s.in.WriteByte('\n')
	s.lines++
}

// reset begins a new path.
func (s *Solver) reset() {
	if s.lines > 200000 {
		s.stop()
		s.start()
	}
	if s.scope {
		s.send("(pop 1)")
	}
	s.send("(push 1)")
	s.scope = true
	s.epoch++
}

func (s *Solver) define(t *Term) {
	if t.op == TConst || t.def == s.epoch {
		return
	}
	t.def = s.epoch
	if t.op == TVar {
		if t.w == 0 {
			s.send(fmt.Sprintf("(declare-const %s Bool)", t.ref()))
			return
		}
		e := t.encWidth()
		s.send(fmt.Sprintf("(declare-const %s (_ BitVec %d))", t.ref(), e))
		if t.lo > minS(e) {
			s.send(fmt.Sprintf("(assert (bvsle %s %s))", bvLit(t.lo, e), t.ref()))
		}
		if t.hi < maxS(e) {
			s.send(fmt.Sprintf("(assert (bvsle %s %s))", t.ref(), bvLit(t.hi, e)))
		}
		return
	}
	for _, a := range t.a {
		if a != nil {
			s.define(a)
		}
	}
	w := t.w
	if w > 0 {
		w = t.encWidth()
	}
	s.send(fmt.Sprintf("(define-fun %s () %s %s)", t.ref(), sortName(w), t.body()))
}

func bvLit(v int64, w uint8) string { return fmt.Sprintf("(_ bv%d %d)", uint64(v)&mask(w), w) }

func (s *Solver) assert(t *Term) {
	s.define(t)
	s.send("(assert " + t.ref() + ")")
}

// check decides path-condition AND extra (extra may be nil); on sat it fetches values for vars.
func (s *Solver) check(extra *Term, vars []*Term) (string, map[*Term]uint64) {
	t0 := time.Now()
	if extra != nil {
		s.define(extra)
	}
	for _, v := range vars {
		s.define(v)
	}
	if extra != nil {
		s.send("(push 1)")
		s.send("(assert " + extra.ref() + ")")
	}
	s.send("(check-sat)")
	s.in.Flush()
	r := s.readLine()
	s.stats.Queries++
	var m map[*Term]uint64
	switch r {
	case "sat":
		s.stats.Sat++
		m = map[*Term]uint64{}
		if len(vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteByte(' ')
				sb.WriteString(v.ref())
			}
			sb.WriteString("))")
			s.send(sb.String())
			s.in.Flush()
			txt := s.readSexp()
			parseValues(txt, vars, m)
		}
	case "unsat":
		s.stats.Unsat++
	default:
		if strings.HasPrefix(r, "(error") {
			s.stats.Errors++
			fmt.Fprintln(os.Stderr, "solver error:", r)
		}
		s.stats.Unknown++
		r = "unknown"
	}
	if extra != nil {
		s.send("(pop 1)")
	}
	s.stats.Time += time.Since(t0)
	return r, m
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic(abort{kind: "solver", msg: "solver died: " + err.Error()})
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic(abort{kind: "solver", msg: "solver died: " + err.Error()})
		}
		for _, c := range l {
			if c == '(' {
				depth++
				started = true
			} else if c == ')' {
				depth--
			}
		}
		sb.WriteString(l)
		if started && depth <= 0 {
			return sb.String()
		}
	}
}

func parseValues(txt string, vars []*Term, m map[*Term]uint64) {
	byName := map[string]*Term{}
	for _, v := range vars {
		byName[v.ref()] = v
	}
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt))
	for i := 0; i+1 < len(toks); i++ {
		if v, ok := byName[toks[i]]; ok {
			x := toks[i+1]
			switch {
			case x == "true":
				m[v] = 1
			case x == "false":
				m[v] = 0
			case strings.HasPrefix(x, "#x"):
				n, _ := strconv.ParseUint(x[2:], 16, 64)
				m[v] = uint64(sext(n, v.encWidth())) & mask(v.w)
			case strings.HasPrefix(x, "#b"):
				n, _ := strconv.ParseUint(x[2:], 2, 64)
				m[v] = uint64(sext(n, v.encWidth())) & mask(v.w)
			case x == "(" && i+4 < len(toks) && toks[i+2] == "_": // (_ bvN w)
				n, _ := strconv.ParseUint(strings.TrimPrefix(toks[i+3], "bv"), 10, 64)
				m[v] = uint64(sext(n, v.encWidth())) & mask(v.w)
			}
		}
	}
}
