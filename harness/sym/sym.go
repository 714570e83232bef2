// Package sym is the interface between harnesses and the symbolic executor.
// Under the executor every function here is intercepted; compiled natively the
// functions read one concrete assignment, so that a counterexample replays
// against the real code.
package sym

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
)

type input struct {
	Harness string            `json:"harness"`
	Model   map[string]uint64 `json:"model"`
	Tier    int               `json:"tier"`
}

var (
	in     input
	counts = map[string]int{}
	obs    = []string{}
	out    *os.File
)

type stop struct{ status, label string }

func get(name string) uint64 {
	k := counts[name]
	counts[name]++
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	return in.Model[name]
}

// Int is a symbolic integer in [lo,hi].
func Int(name string, lo, hi int) int {
	v := int(get(name))
	if v < lo || v > hi {
		panic(stop{"assume", name})
	}
	return v
}

// Choose is a symbolic choice in [0,n), one path per value.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return Int(name, 0, n-1)
}
func Int64(name string) int64   { return int64(get(name)) }
func Int32(name string) int32   { return int32(get(name)) }
func Uint64(name string) uint64 { return get(name) }
func Byte(name string) byte     { return byte(get(name)) }
func Bool(name string) bool     { return get(name) != 0 }

// Flip is a symbolic boolean decided on the spot (one path per value).
func Flip(name string) bool { return get(name) != 0 }

// Concrete splits the path until x has one value.
func Concrete(x int) int { return x }
func Assume(c bool) {
	if !c {
		panic(stop{"assume", ""})
	}
}
func Assert(c bool, label string) {
	if !c {
		panic(stop{"assert", label})
	}
}
func Cover(label string) {}
func Observe(label string, v any) {
	obs = append(obs, fmt.Sprintf("%s=%v", label, v))
}
func InEngine() bool { return false }
func Tier() int      { return in.Tier }

// And, Or, Not and Ite build conditions without splitting the path.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Not(a bool) bool    { return !a }
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func StrEq(a, b string) bool { return a == b }

// MapOrder reverses the executor's map iteration order when c holds (no native effect).
func MapOrder(c bool) {}
func Debug(v any)     {}

type source struct{}

// Int63 makes (*rand.Rand).Intn return the next input named "rand".
func (source) Int63() int64 { return int64(get("rand")) << 32 }
func (source) Seed(int64)   {}

// Rand is a random generator whose Intn results are symbolic choices (inputs "rand").
func Rand() rand.Rand { return *rand.New(source{}) }

func Main(all map[string]func()) {
	b, _ := io.ReadAll(os.Stdin)
	if err := json.Unmarshal(b, &in); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	out = os.Stdout
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null
	os.Stderr = null
	f := all[in.Harness]
	if f == nil {
		emit("nosuch", in.Harness)
		return
	}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				emit("ok", "")
				return
			}
			if s, ok := r.(stop); ok {
				emit(s.status, s.label)
				return
			}
			emit("panic", "uncaught panic: "+trunc(fmt.Sprint(r), 160)+" "+where(string(debug.Stack())))
		}()
		f()
	}()
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// where names the function that panicked.
func where(stk string) string {
	lines := strings.Split(stk, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if seen && !strings.HasPrefix(l, "\t") && !strings.HasPrefix(l, "runtime.") && !strings.HasPrefix(l, "panic") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return "[" + l + "]"
		}
	}
	return ""
}

func emit(status, label string) {
	b, _ := json.Marshal(map[string]any{"status": status, "label": label, "obs": obs})
	fmt.Fprintf(out, "\n@@RESULT %s\n", b)
}
