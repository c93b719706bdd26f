package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"runtime"
	"strings"
)

type Intrinsic func(m *M, in *Instr, a []V) (V, *Frame)

var intrinsics = map[string]Intrinsic{}

func runtimeStack(b []byte) int { return runtime.Stack(b, false) }

type simple = func(m *M, in *Instr, a []V) V

func reg(name string, f simple) {
	intrinsics[name] = func(m *M, in *Instr, a []V) (V, *Frame) { return f(m, in, a), nil }
}

func nop(m *M, in *Instr, a []V) V { return V{} }

func tup(v ...V) V { return V{x: &Agg{v}} }

func cellsOf(v V) []V {
	switch x := v.x.(type) {
	case nil:
		return nil
	case *Slice:
		return x.e
	case string, *SStr:
		return strCells(v)
	}
	panic(fmt.Sprintf("cellsOf %T", v.x))
}

// cellEq compares two byte cells.
func (m *M) cellEq(a, b V) *Expr {
	if a.x == nil && b.x == nil {
		return m.st.Bool(a.n == b.n)
	}
	return m.st.Eq(m.ex(a, 8), m.ex(b, 8))
}

func (m *M) indexByte(e []V, c V) int {
	for i := range e {
		if m.decide(m.cellEq(e[i], c)) {
			return i
		}
	}
	return -1
}

func (m *M) indexCells(e, sub []V) int {
	if len(sub) == 0 {
		return 0
	}
	for i := 0; i+len(sub) <= len(e); i++ {
		c := m.st.T
		for j := range sub {
			c = m.st.And(c, m.cellEq(e[i+j], sub[j]))
			if c == m.st.F {
				break
			}
		}
		if m.decide(c) {
			return i
		}
	}
	return -1
}

func intV(i int) V { return V{n: uint64(int64(i))} }

func (m *M) field(p V, i int) *V {
	c, ok := p.x.(*V)
	if !ok {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	return &c.x.(*Agg).e[i]
}

func fieldIndex(rt *RT, name string) int {
	st := rt.u.(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func init() {
	// --- bytealg, strings, bytes ---
	idxB := func(m *M, in *Instr, a []V) V { return intV(m.indexByte(cellsOf(a[0]), a[1])) }
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte"} {
		reg(n, idxB)
	}
	idx := func(m *M, in *Instr, a []V) V {
		if s, ok := concStr2(a[0]); ok {
			if t, ok := concStr2(a[1]); ok {
				return intV(strings.Index(s, t))
			}
		}
		return intV(m.indexCells(cellsOf(a[0]), cellsOf(a[1])))
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index", "internal/stringslite.Index"} {
		reg(n, idx)
	}
	cnt := func(m *M, in *Instr, a []V) V {
		n := 0
		for _, c := range cellsOf(a[0]) {
			if m.decide(m.cellEq(c, a[1])) {
				n++
			}
		}
		return intV(n)
	}
	reg("internal/bytealg.Count", cnt)
	reg("internal/bytealg.CountString", cnt)
	eqf := func(m *M, in *Instr, a []V) V {
		x, y := cellsOf(a[0]), cellsOf(a[1])
		return boolV(m.strEq(cellsToStr(m.st, x), cellsToStr(m.st, y)))
	}
	reg("internal/bytealg.Equal", eqf)
	reg("bytes.Equal", eqf)
	cmp := func(m *M, in *Instr, a []V) V {
		x, y := cellsToStr(m.st, cellsOf(a[0])), cellsToStr(m.st, cellsOf(a[1]))
		if m.decide(m.strEq(x, y)) {
			return V{}
		}
		if m.decide(m.strLess(m.st.strExprs(x), m.st.strExprs(y))) {
			return intV(-1)
		}
		return intV(1)
	}
	reg("internal/bytealg.Compare", cmp)
	reg("internal/bytealg.CompareString", cmp)
	reg("bytes.Compare", cmp)
	reg("strings.Compare", cmp)
	reg("runtime.cmpstring", cmp)
	reg("internal/bytealg.MakeNoZero", func(m *M, in *Instr, a []V) V {
		return V{x: &Slice{make([]V, m.intOf(a[0], rtInt))}}
	})
	reg("(*strings.Builder).String", func(m *M, in *Instr, a []V) V {
		p := a[0].x.(*V).x.(*Agg)
		for _, f := range p.e {
			if s, ok := f.x.(*Slice); ok {
				return cellsToStr(m.st, s.e)
			}
		}
		return V{}
	})
	reg("(*strings.Builder).copyCheck", nop)
	reg("strings.Clone", func(m *M, in *Instr, a []V) V { return a[0] })
	reg("internal/stringslite.Clone", func(m *M, in *Instr, a []V) V { return a[0] })
	reg("unicode/utf8.RuneCountInString", func(m *M, in *Instr, a []V) V {
		n := 0
		for p := 0; p < strLen(a[0]); n++ {
			_, s := m.decodeRune(a[0], p)
			p += s
		}
		return intV(n)
	})
	dec := func(m *M, in *Instr, a []V) V {
		s := a[0]
		if _, ok := s.x.(*Slice); ok {
			e := cellsOf(s)
			if len(e) > 4 {
				e = e[:4]
			}
			s = cellsToStr(m.st, e)
		}
		if strLen(s) == 0 {
			return tup(V{n: 0xfffd}, V{})
		}
		r, n := m.decodeRune(s, 0)
		return tup(r, intV(n))
	}
	reg("unicode/utf8.DecodeRuneInString", dec)
	reg("unicode/utf8.DecodeRune", dec)
	id := func(m *M, in *Instr, a []V) V { return a[0] }
	for _, n := range []string{"internal/abi.NoEscape", "internal/abi.Escape", "reflect.noescape", "strings.noescape", "unique.clone"} {
		reg(n, id)
	}
	// --- sync ---
	for _, n := range []string{"(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait",
		"sync.runtime_registerPoolCleanup", "sync.runtime_notifyListCheck", "sync.throw", "sync.fatal", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC",
		"internal/godebug.setUpdate", "internal/godebug.registerMetric", "internal/godebug.setNewIncNonDefault", "(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).register",
		"internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable", "internal/race.ReleaseMerge", "internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Errors", "os/signal.Notify",
		"os.runtime_beforeExit", "internal/runtime/atomic.storePointer", "runtime.Gosched", "internal/msan.Read", "internal/asan.Read", "crypto/internal/sysrand.fatal",
		"crypto/internal/boring/sig.StandardCrypto", "crypto/internal/boring/sig.BoringCrypto", "crypto/internal/fips140only.init", "net.runtime_registerX"} {
		reg(n, nop)
	}
	reg("(*internal/sync.Mutex).TryLock", func(m *M, in *Instr, a []V) V { return b(true) })
	reg("(*internal/godebug.Setting).Value", func(m *M, in *Instr, a []V) V { return V{} })
	reg("(*internal/godebug.Setting).Undocumented", func(m *M, in *Instr, a []V) V { return V{} })
	reg("runtime.GOMAXPROCS", func(m *M, in *Instr, a []V) V { return intV(1) })
	reg("runtime.NumCPU", func(m *M, in *Instr, a []V) V { return intV(1) })
	reg("runtime.Callers", func(m *M, in *Instr, a []V) V { return V{} })
	reg("runtime.Caller", func(m *M, in *Instr, a []V) V { return tup(V{}, mkStr("?"), V{}, V{}) })
	reg("runtime.Stack", func(m *M, in *Instr, a []V) V { return V{} })
	reg("runtime/debug.SetGCPercent", func(m *M, in *Instr, a []V) V { return V{} })
	intrinsics["(*sync.Pool).Get"] = func(m *M, in *Instr, a []V) (V, *Frame) {
		if v, ok := m.unpool(a[0]); ok {
			return v, nil
		}
		ag := a[0].x.(*V).x.(*Agg)
		cl, _ := ag.e[len(ag.e)-1].x.(*Closure)
		if cl == nil {
			return V{}, nil
		}
		if cl.native != nil {
			return cl.native(m, nil), nil
		}
		return V{}, m.newFrame(cl.fn, nil, cl.free)
	}
	smap := func(m *M, p V) *Map {
		c := m.field(p, 0)
		mp, _ := c.x.(*Map)
		if mp == nil {
			mp = &Map{rt: rtMapAny, idx: map[any]int{}}
			m.set(c, V{x: mp})
		}
		return mp
	}
	reg("(*sync.Map).Load", func(m *M, in *Instr, a []V) V {
		e := m.mapFind(smap(m, a[0]), a[1])
		if e == nil {
			return tup(V{}, V{})
		}
		return tup(e.cell, V{n: 1})
	})
	reg("(*sync.Map).Store", func(m *M, in *Instr, a []V) V { m.mapSet(smap(m, a[0]), a[1], a[2]); return V{} })
	reg("(*sync.Map).Delete", func(m *M, in *Instr, a []V) V { m.mapDelete(smap(m, a[0]), a[1]); return V{} })
	reg("(*sync.Map).LoadOrStore", func(m *M, in *Instr, a []V) V {
		mp := smap(m, a[0])
		e := m.mapFind(mp, a[1])
		if e != nil {
			return tup(e.cell, V{n: 1})
		}
		m.mapSet(mp, a[1], a[2])
		return tup(a[2], V{})
	})
	reg("(*sync.Map).LoadAndDelete", func(m *M, in *Instr, a []V) V {
		mp := smap(m, a[0])
		e := m.mapFind(mp, a[1])
		if e == nil {
			return tup(V{}, V{})
		}
		v := e.cell
		m.mapDelete(mp, a[1])
		return tup(v, V{n: 1})
	})
	// --- atomics (single-threaded) ---
	for _, pre := range []string{"sync/atomic.", "internal/runtime/atomic."} {
		for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer", "", "64", "8", "Acq", "Acq64", "uint", "Loadp", "Loaduint", "Acquintptr", "Rel", "Rel64", "NoWB", "int32", "int64", "uintptr", "p"} {
			reg(pre+"Load"+t, func(m *M, in *Instr, a []V) V { return m.load(a[0].x, in) })
			reg(pre+"Store"+t, func(m *M, in *Instr, a []V) V { m.store(cellPtr(m, a[0]), a[1]); return V{} })
			reg(pre+"Swap"+t, func(m *M, in *Instr, a []V) V {
				o := m.load(a[0].x, in)
				m.store(cellPtr(m, a[0]), a[1])
				return o
			})
			w := uint8(64)
			if t == "Int32" || t == "Uint32" || t == "" {
				w = 32
			}
			reg(pre+"Add"+t, func(m *M, in *Instr, a []V) V {
				o := m.load(a[0].x, in)
				n := V{n: (o.n + a[1].n) & mask(w)}
				m.store(cellPtr(m, a[0]), n)
				return n
			})
			reg(pre+"CompareAndSwap"+t, func(m *M, in *Instr, a []V) V {
				o := m.load(a[0].x, in)
				if o.n == a[1].n && o.x == a[1].x {
					m.store(cellPtr(m, a[0]), a[2])
					return b(true)
				}
				return b(false)
			})
			reg(pre+"And"+t, func(m *M, in *Instr, a []V) V {
				o := m.load(a[0].x, in)
				m.store(cellPtr(m, a[0]), V{n: o.n & a[1].n})
				return o
			})
			reg(pre+"Or"+t, func(m *M, in *Instr, a []V) V {
				o := m.load(a[0].x, in)
				m.store(cellPtr(m, a[0]), V{n: o.n | a[1].n})
				return o
			})
		}
	}
	reg("(*sync/atomic.Value).Load", func(m *M, in *Instr, a []V) V { return *m.field(a[0], 0) })
	reg("(*sync/atomic.Value).Store", func(m *M, in *Instr, a []V) V { m.set(m.field(a[0], 0), a[1]); return V{} })
	// --- math ---
	f1 := func(name string, f func(float64) float64) {
		reg("math."+name, func(m *M, in *Instr, a []V) V {
			return V{n: math.Float64bits(f(math.Float64frombits(m.concN(a[0]))))}
		})
	}
	f1("Floor", math.Floor)
	f1("Ceil", math.Ceil)
	f1("Trunc", math.Trunc)
	f1("Sqrt", math.Sqrt)
	f1("Abs", math.Abs)
	f1("Log", math.Log)
	f1("Exp", math.Exp)
	f1("archFloor", math.Floor)
	f1("archCeil", math.Ceil)
	f1("archTrunc", math.Trunc)
	f1("archLog", math.Log)
	f1("archExp", math.Exp)
	f1("sqrt", math.Sqrt)
	// --- time ---
	reg("time.now", func(m *M, in *Instr, a []V) V {
		t := m.tick()
		return tup(V{n: t}, V{n: 123000000}, V{n: t * 1000000000})
	})
	reg("time.runtimeNow", func(m *M, in *Instr, a []V) V {
		t := m.tick()
		return tup(V{n: t}, V{n: 123000000}, V{n: t * 1000000000})
	})
	reg("time.runtimeNano", func(m *M, in *Instr, a []V) V { return V{n: m.tick() * 1000000000} })
	reg("time.runtimeIsBubbled", func(m *M, in *Instr, a []V) V { return V{} })
	reg("time.initLocal", func(m *M, in *Instr, a []V) V {
		c := m.globalByName("time", "localLoc")
		m.set(&c.x.(*Agg).e[0], mkStr("UTC"))
		return V{}
	})
	// --- os, syscall ---
	reg("syscall.runtime_envs", func(m *M, in *Instr, a []V) V { return V{} })
	reg("syscall.Getenv", func(m *M, in *Instr, a []V) V { return tup(V{}, V{}) })
	reg("os.Getenv", func(m *M, in *Instr, a []V) V { return V{} })
	reg("os.LookupEnv", func(m *M, in *Instr, a []V) V { return tup(V{}, V{}) })
	reg("os.runtime_args", func(m *M, in *Instr, a []V) V { return V{x: &Slice{[]V{mkStr("prog")}}} })
	reg("os.Getpagesize", func(m *M, in *Instr, a []V) V { return intV(4096) })
	reg("syscall.Getpagesize", func(m *M, in *Instr, a []V) V { return intV(4096) })
	reg("syscall.runtimeSetenv", nop)
	reg("syscall.runtimeUnsetenv", nop)
	reg("syscall.Exit", func(m *M, in *Instr, a []V) V { panic(unsupported{"os.Exit"}) })
	reg("os.runtime_beforeExit", nop)
	reg("internal/godebugs.All", nop)
	reg("runtime/debug.Stack", func(m *M, in *Instr, a []V) V { return V{} })
	reg("os.NewFile", func(m *M, in *Instr, a []V) V {
		return m.newFile(int(m.intOf(a[0], rtInt)), a[1])
	})
	reg("os.newFile", func(m *M, in *Instr, a []V) V {
		return m.newFile(int(m.intOf(a[0], rtInt)), a[1])
	})
	// files which stand for real ones, among them standard output; others run
	// the code of package os
	file := func(name string, f func(m *M, a []V) V) {
		wrappers["(*os.File)."+name] = func(m *M, a []V) (V, bool) {
			if p, ok := a[0].x.(*V); ok && p != nil && m.files[p] != nil {
				return f(m, a), true
			}
			return V{}, false
		}
	}
	file("Write", func(m *M, a []V) V { return m.fileWrite(a[0], cellsOf(a[1])) })
	file("WriteString", func(m *M, a []V) V { return m.fileWrite(a[0], cellsOf(a[1])) })
	file("Close", func(m *M, a []V) V { return V{} })
	file("Sync", func(m *M, a []V) V { return V{} })
	file("Name", func(m *M, a []V) V { return m.files[a[0].x.(*V)].name })
	file("Fd", func(m *M, a []V) V { return intV(m.files[a[0].x.(*V)].fd) })
	reg("(*os.File).readFrom", func(m *M, in *Instr, a []V) V { return tup(V{}, V{}, V{}) })
	// --- random ---
	rnd := func(m *M, in *Instr, a []V) V {
		for i, e := 0, cellsOf(a[0]); i < len(e); i++ {
			m.set(&m.rndCell, V{n: m.rndCell.n*6364136223846793005 + 1442695040888963407})
			m.set(&e[i], V{n: m.rndCell.n >> 56})
		}
		return V{}
	}
	reg("crypto/internal/sysrand.Read", rnd)
	reg("crypto/internal/fips140/drbg.Read", rnd)
	reg("time.Sleep", func(m *M, in *Instr, a []V) V { return V{} })
	reg("internal/runtime/maps.rand", func(m *M, in *Instr, a []V) V { return V{} })
	reg("math/rand.runtime_rand", func(m *M, in *Instr, a []V) V { return V{n: 42} })
	reg("math/rand/v2.runtime_rand", func(m *M, in *Instr, a []V) V { return V{n: 42} })
	reg("hash/maphash.runtime_rand", func(m *M, in *Instr, a []V) V { return V{n: 42} })
	reg("hash/maphash.rthash", func(m *M, in *Instr, a []V) V { return V{n: 42} })
	reg("internal/rand.rand", func(m *M, in *Instr, a []V) V { return V{n: 42} })
	reg("os.runtime_rand", func(m *M, in *Instr, a []V) V { return V{n: 42} })
	// --- linkname'd runtime hooks ---
	reg("internal/poll.runtime_pollServerInit", nop)
	reg("net/http.valuesAndNamesLookup", nop)
	reg("crypto/internal/fips140.Enabled", nop)
	reg("crypto/fips140.Enabled", nop)
	reg("internal/cpu.Name", nop)
	reg("runtime.Version", func(m *M, in *Instr, a []V) V { return mkStr("go1.27") })
	reg("internal/buildcfg.init", nop)
	reg("internal/synctest.IsInBubble", nop)
	reg("internal/synctest.Run", nop)
	reg("sync.runtime_doSpin", nop)
	reg("(*internal/bisect.Matcher).init", nop)
	reg("internal/syscall/unix.fcntl", func(m *M, in *Instr, a []V) V { return tup(V{}, V{}) })
	reg("unique.runtime_registerUniqueMapCleanup", nop)
	reg("errors.init$guard", nop)
	delete(intrinsics, "errors.init$guard")
}

func concStr2(v V) (string, bool) {
	switch x := v.x.(type) {
	case nil:
		return "", true
	case string:
		return x, true
	case *Slice:
		b := make([]byte, len(x.e))
		for i := range x.e {
			if x.e[i].x != nil {
				return "", false
			}
			b[i] = byte(x.e[i].n)
		}
		return string(b), true
	}
	return "", false
}

func cellPtr(m *M, v V) *V {
	c, ok := v.x.(*V)
	if !ok {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	return c
}

// ---- files ----

type vfile struct {
	fd   int
	name V
	data []V
}

func (m *M) newFile(fd int, name V) V {
	var rt *RT
	if p := m.p.prog.ImportedPackage("os"); p != nil {
		rt = rtOf(p.Type("File").Type())
	}
	c := zero(rt)
	p := &c
	if m.files == nil {
		m.files = map[*V]*vfile{}
	}
	f := &vfile{fd: fd, name: name}
	m.files[p] = f
	m.flist = append(m.flist, f)
	m.undoable(func() {
		delete(m.files, p)
		m.flist = m.flist[:len(m.flist)-1]
	})
	return V{x: p}
}

func (m *M) fileWrite(f V, e []V) V {
	p, _ := f.x.(*V)
	if p == nil {
		return tup(V{}, m.mkError("invalid argument"))
	}
	if vf := m.files[p]; vf != nil {
		if vf.fd == 1 || vf.fd == 2 && m.capErr {
			m.ensureMark()
			m.stdout = append(m.stdout, e...)
		} else if vf.fd == 9 {
			old := vf.data
			m.undoable(func() { vf.data = old })
			vf.data = append(old[:len(old):len(old)], e...)
		}
	}
	return tup(intV(len(e)), V{})
}

func (m *M) tick() uint64 {
	c := m.clock
	m.set(&m.clockCell, V{n: m.clockCell.n + 1})
	return c + m.clockCell.n
}

var _ = reflect.Bool

// Pure functions of texts run directly when the text is concrete.
func init() {
	text := func(f func(string) string) func(m *M, a []V) (V, bool) {
		return func(m *M, a []V) (V, bool) {
			s, ok := concStr2(a[0])
			if !ok {
				return V{}, false
			}
			if s = f(s); s == "" {
				return V{}, true
			}
			return V{x: s}, true
		}
	}
	wrappers["strings.ToLower"] = text(strings.ToLower)
	wrappers["strings.ToUpper"] = text(strings.ToUpper)
	wrappers["strings.TrimSpace"] = text(strings.TrimSpace)
	wrappers["strings.EqualFold"] = func(m *M, a []V) (V, bool) {
		s, ok1 := concStr2(a[0])
		t, ok2 := concStr2(a[1])
		return boolV(m.st.Bool(ok1 && ok2 && strings.EqualFold(s, t))), ok1 && ok2
	}
}

// isInCharacterRange of encoding/xml as one formula: executed as written it
// would split paths between blanks and tabs for no reason.
func init() {
	w := func(m *M, a []V) (V, bool) {
		if a[0].x == nil {
			return V{}, false
		}
		s, r := m.st, m.ex(a[0], 32)
		is := func(c uint64) *Expr { return s.Eq(r, s.Const(c, 32)) }
		in := func(lo, hi uint64) *Expr { return s.And(s.Ule(s.Const(lo, 32), r), s.Ule(r, s.Const(hi, 32))) }
		e := s.Or(s.Or(is(9), is(10)), is(13))
		e = s.Or(e, s.Or(in(0x20, 0xDF77), s.Or(in(0xE000, 0xFFFD), in(0x10000, 0x10FFFF))))
		return boolV(e), true
	}
	wrappers["github.com/aclindsa/xml.isInCharacterRange"] = w
}
