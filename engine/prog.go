package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Intrinsic func(w *Worker, fn *Func, args []Value) Value

type Prog struct {
	ssa      *ssa.Program
	pkgs     []*packages.Package
	types    TypeTab
	funcs    sync.Map // *ssa.Function -> *Func
	nfuncs   int32
	fmu      sync.Mutex
	flist    []*Func
	globals  map[*ssa.Global]int
	glist    []*ssa.Global
	gmu      sync.Mutex
	rtErr    *RType
	tString  *RType
	tInt     *RType
	tError   *RType
	tErrStr  *RType // *errors.errorString
	tByte    *RType
	tAny     *RType
	tSString *RType
	repoDir  string
}

type Func struct {
	p        *Prog
	f        *ssa.Function
	name     string
	idx      int
	intr     Intrinsic
	once     sync.Once
	blocks   []*Block
	entry    *Block
	recover  *Block
	nregs    int
	nparams  int
	hasDefer bool
	external bool
	skip     bool
	results  *RType // tuple or single
	nres     int
	regOf    map[ssa.Value]int
	ninstr   int
}

type Op func(fr *Frame)
type TermOp func(fr *Frame) *Block
type Block struct {
	ops  []Op
	term TermOp
	n    int64
	idx  int
}

type deferred struct {
	fn   Value
	args []Value
	b    *ssa.Builtin
	call ssa.CallCommon
	fr   *Frame
}

type Frame struct {
	w         *Worker
	fn        *Func
	regs      []Value
	caller    *Frame
	defers    []func()
	panicking bool
	pval      *goPanic
	recovered bool
	result    Value
	base      int
	arena     []Value
	deferOf   *Frame // set when this frame runs as a deferred call of that frame
}

func loadProgram(cfg *packages.Config, patterns ...string) (*Prog, error) {
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	bad := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "load:", p.PkgPath, e)
			bad = true
		}
	})
	if bad {
		return nil, fmt.Errorf("packages do not type-check")
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{ssa: prog, pkgs: pkgs, globals: map[*ssa.Global]int{}}
	p.types.m.SetHasher(nilHasher())
	for _, pk := range prog.AllPackages() {
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok {
				p.globals[g] = len(p.glist)
				p.glist = append(p.glist, g)
			}
		}
	}
	p.tString = p.types.get(types.Typ[types.String])
	p.tInt = p.types.get(types.Typ[types.Int])
	p.tByte = p.types.get(types.Typ[types.Byte])
	p.tAny = p.types.get(types.NewInterfaceType(nil, nil))
	p.tSString = p.types.get(types.NewSlice(types.Typ[types.String]))
	p.tError = p.types.get(types.Universe.Lookup("error").Type())
	if rt := prog.ImportedPackage("runtime"); rt != nil {
		p.rtErr = p.types.get(rt.Type("errorString").Type())
	}
	if er := prog.ImportedPackage("errors"); er != nil {
		p.tErrStr = p.types.get(types.NewPointer(er.Type("errorString").Type()))
	}
	return p, nil
}

func (p *Prog) runtimeError(msg string) Value {
	return Value{O: &Iface{p.rtErr, vStr(msg)}}
}

func (p *Prog) newError(msg Value) Value {
	s := &Struct{F: []Value{msg}}
	return Value{O: &Iface{p.tErrStr, Value{O: s}}}
}

func funcName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

func (p *Prog) fn(f *ssa.Function) *Func {
	if x, ok := p.funcs.Load(f); ok {
		return x.(*Func)
	}
	p.fmu.Lock()
	defer p.fmu.Unlock()
	if x, ok := p.funcs.Load(f); ok {
		return x.(*Func)
	}
	n := &Func{p: p, f: f, name: funcName(f), idx: len(p.flist)}
	p.flist = append(p.flist, n)
	n.intr = lookupIntrinsic(n.name, f)
	if n.intr == nil && skipFunc(f) {
		n.skip = true
	}
	n.nres = f.Signature.Results().Len()
	if n.nres == 1 {
		n.results = p.types.get(f.Signature.Results().At(0).Type())
	} else {
		n.results = p.types.get(f.Signature.Results())
	}
	p.funcs.Store(f, n)
	return n
}

// skipFunc: package initialisers that are not run.
func skipFunc(f *ssa.Function) bool {
	if f.Pkg == nil {
		return false
	}
	path := f.Pkg.Pkg.Path()
	if f.Name() == "init" && f.Synthetic != "" {
		return denyInit(path)
	}
	if strings.HasPrefix(f.Name(), "init#") && (denyInit(path) || path == "fizz/proto" || strings.HasSuffix(path, "internalpb")) {
		return true
	}
	return false
}

var denyPrefixes = []string{"errors", "runtime", "internal/", "reflect", "os", "syscall", "time", "sync", "fmt", "log", "encoding/json",
	"google.golang.org/", "github.com/golang/glog", "crypto", "net", "testing", "io/fs", "golang.org/x/sys", "vendor/", "unsafe",
	"hash", "encoding/base64", "encoding/binary", "text/", "html/", "go/", "compress", "mime", "embed", "flag", "context", "gopkg.in/", "golang.org/x/net",
	"github.com/davecgh", "github.com/pmezard", "github.com/stretchr", "math/rand"}

func denyInit(path string) bool {
	for _, d := range denyPrefixes {
		if path == d || strings.HasPrefix(path, d) && (strings.HasSuffix(d, "/") || len(path) > len(d) && path[len(d)] == '/') {
			if path == "internal/strconv" {
				return false
			}
			if path == "math/rand" {
				return false
			}
			return true
		}
	}
	return false
}

func (p *Prog) constValue(c *ssa.Const) Value {
	t := p.types.get(c.Type())
	if c.Value == nil {
		return t.zero()
	}
	switch t.k {
	case kBool:
		return vBool(constant.BoolVal(c.Value))
	case kInt:
		v := constant.ToInt(c.Value)
		n, ok := constant.Int64Val(v)
		if !ok {
			u, _ := constant.Uint64Val(v)
			n = int64(u)
		}
		return Value{N: canon(t, uint64(n))}
	case kUint, kUnsafe:
		v := constant.ToInt(c.Value)
		n, ok := constant.Uint64Val(v)
		if !ok {
			i, _ := constant.Int64Val(v)
			n = uint64(i)
		}
		return Value{N: canon(t, n)}
	case kFloat:
		f, _ := constant.Float64Val(c.Value)
		if t.w == 32 {
			f = float64(float32(f))
		}
		return vFloat(f)
	case kComplex:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return Value{O: Complex{complex(re, im)}}
	case kString:
		if c.Value.Kind() == constant.String {
			return vStr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return vStr(string(rune(i)))
	}
	panic(fmt.Sprintf("const %v of %v", c, t))
}

// canon brings an integer to its canonical extension.
func canon(t *RType, n uint64) uint64 {
	switch t.k {
	case kInt:
		switch t.w {
		case 8:
			return uint64(int64(int8(n)))
		case 16:
			return uint64(int64(int16(n)))
		case 32:
			return uint64(int64(int32(n)))
		}
	case kUint:
		switch t.w {
		case 8:
			return uint64(uint8(n))
		case 16:
			return uint64(uint16(n))
		case 32:
			return uint64(uint32(n))
		}
	}
	return n
}

var _ = math.Abs
