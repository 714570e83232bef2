package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const goBin = "/opt/veriftools/go1.23.12/bin"

type Env struct {
	repo, verif, tmp string
	prop             string
	mbt              bool
	env              []string
	harnessDir       string
	modfile          string
	overlayFile      string
	overlay          map[string][]byte
	nativeOverlay    map[string]string
	parseRepl        map[string][]byte
}

func (e *Env) run(dir string, name string, args ...string) error {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = e.env
	out, err := c.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%s %s: %v\n%s", name, strings.Join(args, " "), err, out)
	}
	return nil
}

// prepare generates fizz/proto and the module file from /repo's current tree, in a private directory.
func (e *Env) prepare() error {
	os.MkdirAll(filepath.Join(e.tmp, "fizz/proto"), 0o755)
	e.env = append(os.Environ(), "PATH="+goBin+":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOFLAGS=", "GOROOT=")
	gomod, err := os.ReadFile(filepath.Join(e.repo, "go.mod"))
	if err != nil {
		return err
	}
	gosum, _ := os.ReadFile(filepath.Join(e.repo, "go.sum"))
	pb := ""
	var reqs []string
	in := false
	goline := "go 1.22.4"
	for _, l := range strings.Split(string(gomod), "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "require ("):
			in = true
		case in && t == ")":
			in = false
		case in && t != "":
			reqs = append(reqs, t)
		case strings.HasPrefix(t, "require "):
			reqs = append(reqs, strings.TrimPrefix(t, "require "))
		case strings.HasPrefix(t, "go "):
			goline = t
		}
		if i := strings.Index(t, "google.golang.org/protobuf v"); i >= 0 {
			pb = strings.Fields(t[i:])[1]
		}
	}
	w := func(p, s string) error { return os.WriteFile(filepath.Join(e.tmp, p), []byte(s), 0o644) }
	w("fizz/go.mod", "module fizz\n\ngo 1.22.4\n\nrequire google.golang.org/protobuf "+pb+"\n")
	w("repo.mod", string(gomod)+"\nrequire fizz v0.0.0\nreplace fizz => "+e.tmp+"/fizz\n")
	w("repo.sum", string(gosum))
	hm := "module verifh\n\n" + goline + "\n\nrequire fizz v0.0.0\nrequire github.com/fizzbee-io/fizzbee v0.0.0\n"
	for _, r := range reqs {
		hm += "require " + r + "\n"
	}
	hm += "replace fizz => " + e.tmp + "/fizz\nreplace github.com/fizzbee-io/fizzbee => " + e.repo + "\n"
	hs := string(gosum)
	if e.mbt {
		hm = "module verifm\n\ngo 1.23.0\n\nrequire verifh v0.0.0\nrequire github.com/fizzbee-io/fizzbee/mbt/lib/go v0.0.0\n"
		hm += "replace verifh => " + filepath.Join(e.verif, "harness") + "\n"
		mm, err := os.ReadFile(filepath.Join(e.repo, "mbt/lib/go/go.mod"))
		if err != nil {
			return err
		}
		in := false
		mod := ""
		for _, l := range strings.Split(string(mm), "\n") {
			t := strings.TrimSpace(l)
			switch {
			case strings.HasPrefix(t, "module "):
				mod = strings.TrimPrefix(t, "module ")
			case strings.HasPrefix(t, "require ("):
				in = true
			case in && t == ")":
				in = false
			case in && t != "":
				hm += "require " + t + "\n"
			case strings.HasPrefix(t, "require "):
				hm += t + "\n"
			}
		}
		hm = strings.Replace(hm, "github.com/fizzbee-io/fizzbee/mbt/lib/go v0", mod+" v0", 1)
		hm += "replace " + mod + " => " + filepath.Join(e.repo, "mbt/lib/go") + "\n"
		ms, _ := os.ReadFile(filepath.Join(e.repo, "mbt/lib/go/go.sum"))
		hs = string(ms)
	}
	w("h.mod", hm)
	w("h.sum", hs)
	e.modfile = filepath.Join(e.tmp, "h.mod")
	if !e.mbt {
		pg := filepath.Join(e.tmp, "protoc-gen-go")
		if err := e.run(e.repo, filepath.Join(goBin, "go"), "build", "-modfile="+filepath.Join(e.tmp, "repo.mod"), "-o", pg, "google.golang.org/protobuf/cmd/protoc-gen-go"); err != nil {
			return err
		}
		out := filepath.Join(e.tmp, "pbout")
		os.MkdirAll(out, 0o755)
		protos, _ := filepath.Glob(filepath.Join(e.repo, "proto/*.proto"))
		args := append([]string{"-I", filepath.Join(e.repo, "proto"), "--plugin=" + pg, "--go_out=" + out}, protos...)
		if err := e.run(e.repo, "protoc", args...); err != nil {
			return err
		}
		gen, _ := filepath.Glob(filepath.Join(out, "fizz/proto/*.go"))
		for _, g := range gen {
			b, _ := os.ReadFile(g)
			w("fizz/proto/"+filepath.Base(g), string(b))
		}
	}
	// overlays: in-package accessors and the portable starlark Int
	e.overlay = map[string][]byte{}
	e.nativeOverlay = map[string]string{}
	ov, _ := filepath.Glob(filepath.Join(e.verif, "overlay", strings.ToLower(e.prop), "*", "*.go"))
	for _, f := range ov {
		dir := strings.ReplaceAll(filepath.Base(filepath.Dir(f)), "__", "/")
		dst := filepath.Join(e.repo, dir, filepath.Base(f))
		if (dir == "mbt/lib/go") != e.mbt {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		e.overlay[dst] = b
		e.nativeOverlay[dst] = f
	}
	if e.prop == "C19" {
		return e.smallShards()
	}
	if e.prop == "C26" {
		return e.mainPackage()
	}
	return nil
}

// mainPackage makes the commands of the main package importable as verifh/c26main.
func (e *Env) mainPackage() error {
	files, _ := filepath.Glob(filepath.Join(e.repo, "*.go"))
	put := func(name string, src []byte) error {
		dst := filepath.Join(e.harnessDir, "c26main", name)
		tmp := filepath.Join(e.tmp, "main_"+name)
		e.overlay[dst] = src
		e.nativeOverlay[dst] = tmp
		return os.WriteFile(tmp, src, 0o644)
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		t, err := parser.ParseFile(token.NewFileSet(), f, src, parser.PackageClauseOnly)
		if err != nil {
			return err
		}
		if t.Name.Name != "main" {
			continue
		}
		o := int(t.Name.Pos()) - 1
		src = append(append(append([]byte{}, src[:o]...), "c26main"...), src[o+len("main"):]...)
		if err := put(filepath.Base(f), src); err != nil {
			return err
		}
	}
	return put("zz_export.go", []byte("package c26main\n\nvar PopulateJoinHashes = populateJoinHashes\n"))
}

// smallShards replaces the numbers of entries per exported file (literals of a
// million and more) by 2 and 3, so that graphs within the bounds fill several.
func (e *Env) smallShards() error {
	files, _ := filepath.Glob(filepath.Join(e.repo, "modelchecker", "*.go"))
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		if strings.HasSuffix(f, "_test.go") || !bytes.Contains(src, []byte("adjacency_lists_")) {
			continue
		}
		fset := token.NewFileSet()
		t, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			return err
		}
		var lits []*ast.BasicLit
		ast.Inspect(t, func(n ast.Node) bool {
			if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.INT {
				lits = append(lits, l)
			}
			return true
		})
		out, last := []byte{}, 0
		for _, l := range lits {
			v, err := strconv.ParseInt(strings.ReplaceAll(l.Value, "_", ""), 0, 64)
			if err != nil || v < 1_000_000 {
				continue
			}
			r := "2"
			if v >= 10_000_000 {
				r = "3"
			}
			o := fset.Position(l.Pos()).Offset
			out = append(append(out, src[last:o]...), r...)
			last = o + len(l.Value)
		}
		out = append(out, src[last:]...)
		e.overlay[f] = out
		g := filepath.Join(e.tmp, "small_"+filepath.Base(f))
		if err := os.WriteFile(g, out, 0o644); err != nil {
			return err
		}
		e.nativeOverlay[f] = g
	}
	return nil
}

func (e *Env) starlarkOverlay() error {
	c := exec.Command(filepath.Join(goBin, "go"), "list", "-modfile="+e.modfile, "-m", "-f", "{{.Dir}}", "go.starlark.net")
	c.Dir = e.harnessDir
	c.Env = e.env
	out, err := c.Output()
	if err != nil {
		return fmt.Errorf("locating go.starlark.net: %v", err)
	}
	d := strings.TrimSpace(string(out))
	gen, err := os.ReadFile(filepath.Join(d, "starlark/int_generic.go"))
	if err != nil {
		return err
	}
	var keep []string
	for _, l := range strings.Split(string(gen), "\n") {
		if strings.HasPrefix(l, "//go:build") || strings.HasPrefix(l, "// +build") {
			continue
		}
		keep = append(keep, l)
	}
	e.parseRepl = map[string][]byte{filepath.Join(d, "starlark/int_posix64.go"): []byte(strings.Join(keep, "\n"))}
	return nil
}

func (e *Env) load() (*Prog, *packages.Package, error) {
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        e.harnessDir,
		Env:        append(e.env, "GOFLAGS=-mod=mod", "CGO_ENABLED=0"),
		BuildFlags: []string{"-modfile=" + e.modfile, "-tags=math_big_pure_go,purego,verifengine"},
		Overlay:    e.overlay,
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			if r, ok := e.parseRepl[filename]; ok {
				src = r
			}
			return parser.ParseFile(fset, filename, src, parser.SkipObjectResolution|parser.ParseComments)
		},
	}
	p, err := loadProgram(cfg, "./"+strings.ToLower(e.prop))
	if err != nil {
		return nil, nil, err
	}
	return p, p.pkgs[0], nil
}

// buildNative compiles the harness package against the real code.
func (e *Env) buildNative(names []string) (string, error) {
	pkg := strings.ToLower(e.prop)
	mod := "verifh"
	if e.mbt {
		mod = "verifm"
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\t\"verifh/sym\"\n\th \"%s/%s\"\n)\n\nfunc main() {\n\tsym.Main(map[string]func(){\n", mod, pkg)
	for _, n := range names {
		fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", n, n)
	}
	sb.WriteString("\t})\n}\n")
	mainf := filepath.Join(e.tmp, "main_"+pkg+".go")
	os.WriteFile(mainf, []byte(sb.String()), 0o644)
	e.nativeOverlay[filepath.Join(e.harnessDir, "cmd_"+pkg, "main.go")] = mainf
	b, _ := json.Marshal(map[string]any{"Replace": e.nativeOverlay})
	ovf := filepath.Join(e.tmp, "overlay.json")
	os.WriteFile(ovf, b, 0o644)
	bin := filepath.Join(e.tmp, "native_"+pkg)
	return bin, e.run(e.harnessDir, filepath.Join(goBin, "go"), "build", "-mod=mod", "-modfile="+e.modfile, "-overlay="+ovf, "-o", bin, "./cmd_"+pkg)
}

type nativeResult struct {
	Status string   `json:"status"` // ok, assume, assert, panic, timeout, crash
	Label  string   `json:"label"`
	Obs    []string `json:"obs"`
}

func (e *Env) replay(bin, harness string, model map[string]uint64, tier int, timeout time.Duration) nativeResult {
	dir, _ := os.MkdirTemp(e.tmp, "run")
	defer os.RemoveAll(dir)
	b, _ := json.Marshal(map[string]any{"harness": harness, "model": model, "tier": tier})
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	c := exec.CommandContext(ctx, "/bin/sh", "-c", "ulimit -v 4000000; exec "+bin)
	c.Dir = dir
	c.Env = append(os.Environ(), "GOMEMLIMIT=2GiB")
	c.Stdin = bytes.NewReader(b)
	var out bytes.Buffer
	c.Stdout = &out
	if os.Getenv("VERIF_SHOW") != "" {
		c.Stderr = os.Stderr
	}
	err := c.Run()
	if ctx.Err() != nil {
		return nativeResult{Status: "timeout"}
	}
	var r nativeResult
	for _, l := range strings.Split(out.String(), "\n") {
		if j, ok := strings.CutPrefix(l, "@@RESULT "); ok {
			if json.Unmarshal([]byte(j), &r) == nil {
				return r
			}
		}
	}
	return nativeResult{Status: "crash", Label: fmt.Sprint(err)}
}

type Known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
	Fixed    string `json:"fixed"`
}

func main() {
	prop := flag.String("prop", "", "property id")
	tierS := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	only := flag.String("only", "", "run only harnesses whose name contains this")
	budget := flag.Duration("budget", 0, "exploration time budget")
	workers := flag.Int("workers", runtime.NumCPU(), "")
	prof := flag.String("cpuprofile", "", "")
	verbose := flag.Bool("v", false, "")
	replayF := flag.String("replay", "", "replay a recorded violation natively")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	os.Exit(realMain(*prop, *tierS, *repo, *verif, *only, *budget, *workers, *verbose, *replayF))
}

func realMain(prop, tierS, repo, verif, only string, budget time.Duration, nw int, verbose bool, replayF string) int {
	t0 := time.Now()
	tier := 0
	if tierS == "thorough" {
		tier = 1
	} else {
		tierS = "quick"
	}
	if budget == 0 {
		budget = 300 * time.Second
		if tier == 1 {
			budget = 40 * time.Minute
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tmp, err := os.MkdirTemp("", "verif-"+strings.ToLower(prop)+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if os.Getenv("VERIF_KEEP") == "" {
		defer os.RemoveAll(tmp)
	}
	env := &Env{repo: repo, verif: verif, tmp: tmp, prop: prop, harnessDir: filepath.Join(verif, "harness")}
	if _, err := os.Stat(filepath.Join(verif, "harness_mbt", strings.ToLower(prop))); err == nil {
		env.mbt = true
		env.harnessDir = filepath.Join(verif, "harness_mbt")
	}
	fail := func(err error) int {
		fmt.Fprintln(os.Stderr, "ERROR:", err)
		return 2
	}
	if err := env.prepare(); err != nil {
		return fail(err)
	}
	if !env.mbt {
		if err := env.starlarkOverlay(); err != nil {
			return fail(err)
		}
	}
	build.Default.CgoEnabled = false
	p, hp, err := env.load()
	if err != nil {
		return fail(err)
	}
	tLoad := time.Since(t0)
	e := newExplorer(p)
	e.tier = tier
	for _, k := range loadKnown(filepath.Join(verif, "known_findings.jsonl"), prop) {
		e.known[k.Harness+"|"+k.Label] = true
	}
	p.repoDir = repo
	sp := p.ssa.Package(hp.Types)
	var names []string
	for n, m := range sp.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "H_") && f.Signature.Params().Len() == 0 {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		if only != "" && !strings.Contains(n, only) {
			continue
		}
		h := &Harness{name: n, fn: p.fn(sp.Func(n)), aborts: map[string]int64{}, msgs: map[string]int64{}, asserts: map[string]int64{}, covers: map[string]int64{}}
		e.hs = append(e.hs, h)
		e.byName[n] = h
	}
	// compile the native replay binary while exploring
	var bin string
	var berr error
	var bwg sync.WaitGroup
	bwg.Add(1)
	go func() {
		defer bwg.Done()
		bin, berr = env.buildNative(names)
	}()
	if replayF != "" {
		bwg.Wait()
		if berr != nil {
			return fail(berr)
		}
		b, err := os.ReadFile(replayF)
		if err != nil {
			return fail(err)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			return fail(err)
		}
		r := env.replay(bin, v.Harness, v.Model, tier, 60*time.Second)
		fmt.Printf("%+v\n", r)
		if r.Status == "assert" || r.Status == "panic" || r.Status == "crash" || r.Status == "timeout" {
			return 1
		}
		return 0
	}
	e.deadline = time.Now().Add(budget)
	tx := time.Now()
	if err := e.run(nw); err != nil {
		bwg.Wait()
		return fail(err)
	}
	tExp := time.Since(tx)
	bwg.Wait()
	if berr != nil {
		return fail(berr)
	}
	return env.report(e, bin, names, tierS, tier, seed, t0, tLoad, tExp, verbose)
}

func loadKnown(path, prop string) []Known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []Known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] != '{' {
			continue
		}
		var k Known
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == prop && k.Fixed == "" {
			out = append(out, k)
		}
	}
	return out
}

func (env *Env) report(e *Explorer, bin string, names []string, tierS string, tier, seed int, t0 time.Time, tLoad, tExp time.Duration, verbose bool) int {
	prop := env.prop
	type vres struct {
		v *Violation
		r nativeResult
	}
	var mu sync.Mutex
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	do := func(f func()) {
		wg.Add(1)
		sem <- struct{}{}
		go func() { defer wg.Done(); f(); <-sem }()
	}
	// 1. replay every counterexample on the real code
	var confirmed []*Violation
	var unconfirmed []*Violation
	for _, v := range e.viol {
		v := v
		do(func() {
			r := env.replay(bin, v.Harness, v.Model, tier, 60*time.Second)
			v.Native = r.Status + ": " + r.Label
			mu.Lock()
			defer mu.Unlock()
			switch r.Status {
			case "assert", "panic":
				if r.Status == "assert" && v.Label != r.Label {
					v.Label = r.Label
				}
				if r.Status == "panic" {
					v.Kind = "panic"
				}
				confirmed = append(confirmed, v)
			case "crash", "timeout":
				confirmed = append(confirmed, v)
			default:
				unconfirmed = append(unconfirmed, v)
			}
		})
	}
	wg.Wait()
	// 2. paths the engine could not complete: run their inputs natively so a failure there is not lost
	fallbacks := 0
	for _, h := range e.hs {
		for _, m := range h.fallbk {
			h, m := h, m
			if e.foundNew && len(confirmed) > 0 {
				break
			}
			fallbacks++
			do(func() {
				r := env.replay(bin, h.name, m, tier, 60*time.Second)
				if r.Status == "timeout" {
					r.Label = "the run does not end"
				}
				if r.Status == "assert" || r.Status == "panic" || r.Status == "timeout" {
					mu.Lock()
					confirmed = append(confirmed, &Violation{Harness: h.name, Label: r.Label, Kind: r.Status, Model: m, Native: r.Status + ": " + r.Label})
					mu.Unlock()
				}
			})
		}
	}
	wg.Wait()
	// 3. validate the engine: observations of sampled paths must match a native run
	validated, mismatched := 0, 0
	var mism []string
	var samples []any
	for _, h := range e.hs {
		for _, s := range h.samples {
			h, s := h, s
			do(func() {
				r := env.replay(bin, h.name, s.Model, tier, 60*time.Second)
				mu.Lock()
				defer mu.Unlock()
				if len(samples) < 6 || len(s.Model) > 0 && len(samples) < 12 {
					samples = append(samples, map[string]any{"harness": h.name, "inputs": s.Model, "observed": truncAll(s.Obs)})
				}
				if r.Status == "ok" && fmt.Sprint(r.Obs) == fmt.Sprint(s.Obs) {
					validated++
					return
				}
				if r.Status == "assert" || r.Status == "panic" {
					// the engine missed it (e.g. imprecise path); it is still a real failure
					confirmed = append(confirmed, &Violation{Harness: h.name, Label: r.Label, Kind: r.Status, Model: s.Model, Native: r.Status + ": " + r.Label})
				}
				mismatched++
				if len(mism) < 10 {
					d := ""
					for i := range s.Obs {
						if i >= len(r.Obs) || r.Obs[i] != s.Obs[i] {
							d = "engine " + trunc(s.Obs[i], 300)
							if i < len(r.Obs) {
								d += " / native " + trunc(r.Obs[i], 300)
							}
							break
						}
					}
					mj, _ := json.Marshal(s.Model)
					mism = append(mism, fmt.Sprintf("%s %s native=%s %s: %s", h.name, trunc(string(mj), 300), r.Status, r.Label, d))
				}
			})
		}
	}
	wg.Wait()

	known := loadKnown(filepath.Join(env.verif, "known_findings.jsonl"), prop)
	sort.Slice(confirmed, func(i, j int) bool {
		if confirmed[i].Harness != confirmed[j].Harness {
			return confirmed[i].Harness < confirmed[j].Harness
		}
		return confirmed[i].Label < confirmed[j].Label
	})
	seenKnown := map[string]bool{}
	seenViol := map[string]bool{}
	nviol := 0
	for _, v := range confirmed {
		kn := ""
		for _, k := range known {
			if k.Harness == v.Harness && k.Label == v.Label {
				kn = k.What
			}
		}
		if kn != "" {
			if !seenKnown[kn] {
				seenKnown[kn] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kn)
			}
			continue
		}
		key := v.Harness + "|" + v.Label
		if seenViol[key] {
			continue
		}
		seenViol[key] = true
		nviol++
		dir := filepath.Join(env.verif, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		f := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, nviol))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(f, b, 0o644)
		mj, _ := json.Marshal(v.Model)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		fmt.Printf("  harness %s: %s\n  inputs %s\n  native run: %s\n", v.Harness, v.Label, trunc(string(mj), 600), trunc(v.Native, 600))
	}
	// ---- evidence ----
	var st SolverStats
	for _, s := range e.stats {
		st.Queries += s.Queries
		st.Nearby += s.Nearby
		st.Sat += s.Sat
		st.Unsat += s.Unsat
		st.Unknown += s.Unknown
		st.Errors += s.Errors
		st.Time += s.Time
	}
	var paths, done, forks, steps int64
	hinfo := map[string]any{}
	exhaustive := true
	reached := true
	for _, h := range e.hs {
		paths += h.paths
		done += h.aborts["done"]
		forks += h.forks
		steps += h.steps
		incomplete := len(h.stack) + h.busy
		bad := h.aborts["unsupported"] + h.aborts["limit"] + h.aborts["internal"] + h.aborts["solver"]
		if incomplete > 0 || bad > 0 {
			exhaustive = false
		}
		var na int64
		for _, n := range h.asserts {
			na += n
		}
		if na == 0 || h.aborts["done"] == 0 {
			reached = false
		}
		hi := map[string]any{"paths": h.paths, "outcomes": h.aborts, "assertions_checked": h.asserts, "coverage_witnesses": h.covers, "max_decisions": h.maxDecs, "exhausted": incomplete == 0 && bad == 0, "cpu_s": round(h.wall.Seconds())}
		if len(h.msgs) > 0 {
			hi["incomplete_paths"] = h.msgs
		}
		if incomplete > 0 {
			hi["pending_paths"] = incomplete
		}
		hinfo[h.name] = hi
	}
	if st.Unknown > 0 {
		exhaustive = false
	}
	funcs := e.repoFuncs("fizzbee-io/fizzbee")
	cov := map[string]any{
		"states": done, "transitions": forks,
		"traces_validated_against_impl":      validated,
		"samples":                            samples,
		"exhaustive":                         exhaustive,
		"explanation":                        "states = completed symbolic paths (each stands for every input satisfying its path condition); transitions = solver-decided branch forks. Every assertion on every path is discharged by the solver (or folds to true structurally) for all inputs of that path.",
		"functions_encoded":                  funcs,
		"functions_encoded_count":            len(funcs),
		"paths":                              paths,
		"instructions_executed":              steps,
		"solver":                             map[string]any{"queries": st.Queries, "sat": st.Sat, "unsat": st.Unsat, "unknown": st.Unknown, "sat_by_neighbouring_assignment": st.Nearby, "errors": st.Errors, "time_s": round(st.Time.Seconds())},
		"assertions_discharged_by_solver":    e.discharged,
		"assertions_discharged_on_path":      e.discTriv,
		"harnesses":                          hinfo,
		"native_replays_of_incomplete_paths": fallbacks,
		"validation_mismatches":              mismatched,
		"unconfirmed_counterexamples":        len(unconfirmed),
		"reachability_witness_all_harnesses": reached,
		"timing":                             map[string]any{"load_s": round(tLoad.Seconds()), "explore_s": round(tExp.Seconds())},
	}
	bounds, assume := readBounds(filepath.Join(env.harnessDir, strings.ToLower(prop), "BOUNDS.md"))
	cov["bounds"] = bounds
	ev := map[string]any{"property": prop, "tier": tierS, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": assume, "wall_s": round(time.Since(t0).Seconds()), "violations": nviol}
	os.MkdirAll(filepath.Join(env.verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(env.verif, "evidence", prop+".json"), b, 0o644)

	fmt.Printf("%s %s: %d paths (%d completed), %d solver queries, %.1fs solver, %d assertions by solver + %d on path, validated %d, load %.1fs explore %.1fs, exhaustive=%v, violations=%d\n",
		prop, tierS, paths, done, st.Queries, st.Time.Seconds(), e.discharged, e.discTriv, validated, tLoad.Seconds(), tExp.Seconds(), exhaustive, nviol)
	for _, h := range e.hs {
		if verbose {
			fmt.Printf("  %-28s paths=%d %v asserts=%v cover=%v decs=%d pending=%d cpu=%.1fs steps=%dM\n", h.name, h.paths, h.aborts, h.asserts, h.covers, h.maxDecs, len(h.stack), h.wall.Seconds(), h.steps/1000000)
		}
		for _, m := range sortedKeys(h.msgs) {
			fmt.Fprintf(os.Stderr, "  NOTE %s: %d× %s\n", h.name, h.msgs[m], m)
		}
		if len(h.asserts) == 0 {
			fmt.Fprintf(os.Stderr, "  NOTE %s: no assertion reached\n", h.name)
		}
	}
	for _, m := range mism {
		fmt.Fprintln(os.Stderr, "  MISMATCH", m)
	}
	for _, v := range unconfirmed {
		mj, _ := json.Marshal(v.Model)
		fmt.Fprintf(os.Stderr, "  UNCONFIRMED %s: %s inputs %s native=%s\n", v.Harness, v.Label, trunc(string(mj), 400), v.Native)
	}
	if forkProfile {
		tot := map[string]int{}
		for _, w := range e.workers {
			for k, n := range w.forkSite {
				tot[k] += n
			}
		}
		ks := sortedKeys(tot)
		sort.Slice(ks, func(i, j int) bool { return tot[ks[i]] > tot[ks[j]] })
		for i, k := range ks {
			if i > 15 {
				break
			}
			fmt.Println("  FORK", tot[k], k)
		}
	}
	if nviol > 0 {
		return 1
	}
	return 0
}

func truncAll(s []string) []string {
	var o []string
	for i, x := range s {
		if i >= 12 {
			break
		}
		o = append(o, trunc(x, 200))
	}
	return o
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

// readBounds splits BOUNDS.md into bounds and assumptions (lines under "Assumptions").
func readBounds(path string) (bounds, assume []string) {
	b, err := os.ReadFile(path)
	bounds, assume = []string{}, []string{}
	if err != nil {
		return
	}
	cur := &bounds
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "#") {
			if strings.Contains(strings.ToLower(l), "assum") {
				cur = &assume
			} else {
				cur = &bounds
			}
			continue
		}
		l = strings.TrimPrefix(l, "- ")
		if l != "" {
			*cur = append(*cur, l)
		}
	}
	return
}
