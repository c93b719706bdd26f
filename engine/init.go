package main

import (
	"fmt"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var rtByte *RT

// initTypes fixes the run-time types the interpreter itself needs.
func initTypes(p *Prog) *wellKnown {
	bt := func(k types.BasicKind) *RT { return rtOf(types.Typ[k]) }
	rtInt, rtInt32, rtUint64, rtByte = bt(types.Int), bt(types.Int32), bt(types.Uint64), bt(types.Uint8)
	named := func(pkg, name string) *RT {
		pk := p.prog.ImportedPackage(pkg)
		if pk == nil || pk.Type(name) == nil {
			return nil
		}
		return rtOf(pk.Type(name).Type())
	}
	rtAny = rtOf(types.NewInterfaceType(nil, nil).Complete())
	rtMapAny = rtOf(types.NewMap(rtAny.t, rtAny.t))
	rtRType = ptrTo(named("reflect", "rtype"))
	rtStructField = named("reflect", "StructField")
	rtLiteType = named("internal/reflectlite", "rtype")
	w := &wellKnown{str: bt(types.String), i: rtInt, b: bt(types.Bool), by: rtByte}
	w.errorString = named("runtime", "errorString")
	if w.errorString == nil {
		w.errorString = w.str
	}
	w.plainErr = ptrTo(named("errors", "errorString"))
	return w
}

func newMachine(p *Prog, x *Explorer) *M {
	m := &M{p: p, st: NewStore(), ctx: x, types_: p.wk, ext: map[string]any{}, skipped: map[string]int{}}
	m.st.divide = m.divide
	m.st.cmpLin = m.cmpLin
	m.st.fits = func(e *Expr, n uint8) bool {
		lo, hi, ok := m.irange(e)
		return ok && lo >= 0 && (n >= 63 || hi < 1<<n)
	}
	m.solver = NewSolver(m.st, 8000)
	m.epoch = 1
	m.clock = 1700000000
	return m
}

// pkgOrder lists the packages to initialise, dependencies first.
func pkgOrder(p *Prog, roots []*types.Package) []*ssa.Package {
	var out []*ssa.Package
	seen := map[*types.Package]bool{}
	var walk func(t *types.Package)
	walk = func(t *types.Package) {
		if seen[t] {
			return
		}
		seen[t] = true
		imps := append([]*types.Package(nil), t.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, i := range imps {
			walk(i)
		}
		if sp := p.prog.Package(t); sp != nil {
			out = append(out, sp)
		}
	}
	for _, r := range roots {
		walk(r)
	}
	return out
}

var skipInit = map[string]bool{
	"runtime": true, "internal/cpu": true, "internal/runtime/maps": true, "runtime/internal/sys": true, "runtime/debug": true,
	"internal/runtime/sys": true, "internal/runtime/atomic": true, "internal/abi": true,
	"crypto/internal/fips140/check": true, "crypto/internal/fips140deps/godebug": true,
}

// runInit runs f to completion, skipping calls outside the encoded fragment.
func (m *M) runInit(fn *Func, verbose bool) {
	if fn.f.Blocks == nil {
		return
	}
	m.steps = 0
	m.fr = nil
	top := m.newFrame(fn, nil, nil)
	m.pushFrame(top)
	m.initFr = top
	for tries := 0; tries < 200; tries++ {
		bad := func() (msg string) {
			defer func() {
				if r := recover(); r != nil {
					switch r := r.(type) {
					case unsupported:
						msg = r.msg
					case violation:
						msg = r.msg
					case goPanic:
						msg = "panic " + m.describe(r.v)
					case pathEnd:
						msg = "end " + r.why
					default:
						msg = fmt.Sprintf("engine: %v", r)
						if verbose {
							buf := make([]byte, 4000)
							buf = buf[:runtimeStack(buf)]
							fmt.Fprintf(os.Stderr, "%s\n", buf)
						}
					}
				}
			}()
			m.run()
			return ""
		}()
		if bad == "" {
			m.fr = nil
			return
		}
		m.skipped[fn.f.Pkg.Pkg.Path()+": "+strings.SplitN(bad, "\n", 2)[0]]++
		if verbose {
			fmt.Fprintf(os.Stderr, "init %s: %s\n%s", fn.name, bad, m.stack())
		}
		// resume after the failing instruction of the initialiser itself
		m.fr = top
		top.mode, top.defers = 0, nil
		in := &top.fn.code[top.pc-1]
		if in.op == ICall && in.d >= 0 {
			top.regs[in.d] = zero(in.t2)
		} else if in.op != ICall {
			break
		}
	}
	m.fr = nil
}

func (m *M) init() {
	m.initing = true
	m.jOn = false
	verbose := m.ctx.verbose && m.wid == 0
	t0 := time.Now()
	for _, pk := range m.p.order {
		path := pk.Pkg.Path()
		if skipInit[path] || strings.HasPrefix(path, "crypto/internal/fips140/") || strings.HasPrefix(path, "runtime/") {
			continue
		}
		f := pk.Func("init")
		if f == nil {
			continue
		}
		t1 := time.Now()
		m.runInit(m.p.fn(f), verbose)
		if d := time.Since(t1); verbose && d > 50*time.Millisecond {
			fmt.Fprintf(os.Stderr, "init %s %v\n", path, d)
		}
		// dependents must not run it again
		if g := pk.Var("init$guard"); g != nil {
			*m.gcell(m.p.global(g)) = V{n: 1}
		}
	}
	// let the harness fill caches in the base state
	for _, w := range m.p.warmup {
		m.runInit(m.p.fn(w), verbose)
	}
	m.steps = 0
	m.initing = false
	m.jOn = true
	m.rootJ = len(m.jrn)
	m.stdout = nil
	m.ins, m.obs = nil, nil
	if verbose {
		fmt.Fprintf(os.Stderr, "init total %v\n", time.Since(t0))
	}
}

var _ = reflect.Int
var _ sync.Mutex
