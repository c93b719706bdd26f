package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strings"
	"time"
)

type Frame struct {
	fn     *Func
	regs   []V
	pc     int
	parent *Frame
	epoch  int64
	defers *deferRec
	d      int32 // destination register in the parent, -1 none
	onRet  func(m *M, v V) V
	defOf  bool // this frame runs a deferred call of parent
	mode   uint8
	pan    V // panic value (interface) while mode==1
	recov  bool
	ret    V
	depth  int32
}

type deferRec struct {
	cl   *Closure
	args []V
	bi   string
	in   *Instr
	next *deferRec
}

type jent struct {
	p   *V
	old V
	f   func()
	fr  *Frame
	fs  *Frame // saved copy
}

// mark is the path state at the start of an instruction.
type mark struct {
	pcLen, multi, inLen, obsLen, logLen, nvar, outLen int
	steps                                             int64
}

// Choice is an open alternative.
type Choice struct {
	mark
	jlen   int
	fr     *Frame
	pre    []uint64 // decisions of the current instruction before this one
	alts   []uint64 // remaining alternatives
	models [][]uint64
}

// Input is one symbolic (or chosen) harness input, in creation order.
type Input struct {
	Label string
	e     *Expr
	k     uint64
}

type pcMulti struct {
	e    *Expr
	vars []*Expr
}

type pathEnd struct{ why string }
type goPanic struct{ v V }
type violation struct {
	kind, msg string
}
type unsupported struct{ msg string }

type Observation struct {
	label string
	val   V
}

type M struct {
	p       *Prog
	st      *Store
	solver  *Solver
	globals []*V
	fr      *Frame
	jrn     []jent
	jOn     bool
	epoch   int64
	choices []*Choice

	// path state
	pc     []*Expr
	multi  []pcMulti
	dom    []*[4]uint64
	coup   []bool
	model  []uint64
	seed   []uint64
	pvars  []*Expr
	labels []string
	steps  int64
	limit  int64
	obs    []Observation
	approx bool
	aprWhy string
	log    []uint64
	cur    []uint64 // decisions made in the current instruction
	forced []uint64
	reach  []string

	ext       map[string]any // journaled extension state
	ctx       *Explorer
	wid       int
	job       *Job
	jmark     int
	marked    bool
	ifr       *Frame
	ipc       int
	mk        mark
	rootJ     int
	rootCh    int
	deadline  time.Time
	ins       []Input
	nvar      int
	stdout    []V
	capErr    bool // standard error goes there as well
	pollN     int
	stats     Stats
	types_    *wellKnown
	initing   bool
	last      string
	hooks     harnessState
	fpCheck   int
	noFork    int
	trace     bool
	files     map[*V]*vfile
	clock     uint64
	clockCell V
	dayInv    map[*Expr]dayInv
	flist     []*vfile
	capFrom   int
	rndCell   V
	initFr    *Frame
	skipped   map[string]int
	conc      *conc
	quiet     int
	pools     map[*V][]V
}

type Stats struct {
	Paths, Steps, Forks, Queries, Sat, Unsat, Unknown, FastDec, Asserts, AssertQ, Infeasible, Approx, Limited int64
	SolverNs                                                                                                  int64
	CrossChecks                                                                                               int64
	MaxPathSteps                                                                                              int64
	Model                                                                                                     int64
}

func (m *M) set(p *V, v V) {
	if m.conc != nil {
		m.wrote(p, v)
	}
	if m.jOn {
		m.jrn = append(m.jrn, jent{p: p, old: *p})
	}
	*p = v
}

func (m *M) undoable(f func()) {
	if m.jOn {
		m.jrn = append(m.jrn, jent{f: f})
	}
}

func (m *M) touch(f *Frame) {
	if f.epoch != m.epoch {
		m.saveFrame(f)
	}
}

func (m *M) saveFrame(f *Frame) {
	if m.jOn {
		s := *f
		s.regs = append([]V(nil), f.regs...)
		m.jrn = append(m.jrn, jent{fr: f, fs: &s})
	}
	f.epoch = m.epoch
}

func (m *M) rollback(n int) {
	j := m.jrn
	for i := len(j) - 1; i >= n; i-- {
		e := &j[i]
		if e.p != nil {
			*e.p = e.old
		} else if e.fr != nil {
			regs := e.fr.regs
			copy(regs, e.fs.regs)
			*e.fr = *e.fs
			e.fr.regs = regs
		} else {
			e.f()
		}
		j[i] = jent{}
	}
	m.jrn = j[:n]
}

// store writes v into the cell p, element-wise for aggregates.
func (m *M) store(p *V, v V) {
	if a, ok := v.x.(*Agg); ok {
		if d, ok := p.x.(*Agg); ok && len(d.e) == len(a.e) {
			if d == a {
				return
			}
			for i := range a.e {
				m.store(&d.e[i], a.e[i])
			}
			return
		}
		m.set(p, copyV(v))
		return
	}
	m.set(p, v)
}

func (m *M) load(p any, at *Instr) V {
	switch p := p.(type) {
	case *V:
		if m.conc != nil {
			m.read(p)
		}
		if _, ok := p.x.(*Agg); ok {
			return copyV(*p)
		}
		return *p
	case *SymPtr:
		if m.conc != nil {
			m.readAll(p.e)
		}
		return m.symLoad(p)
	case *DataPtr:
		if m.conc != nil {
			m.readAll(p.e[:1])
		}
		return p.e[0]
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	panic(unsupported{fmt.Sprintf("load through %T", p)})
}

func (m *M) symLoad(p *SymPtr) V {
	return m.selectAt(p.e, p.idx, p.t)
}

// selectAt reads e[idx] for a symbolic, in-range idx.
func (m *M) selectAt(e []V, idx *Expr, t *RT) V {
	if t != nil && (t.isInt() || t.kind == reflect.Bool) && len(e) <= 4096 {
		conc := true
		ok := true
		for i := range e {
			if e[i].x != nil {
				conc = false
				if _, is := e[i].x.(*Expr); !is {
					ok = false
				}
			}
		}
		w := t.w
		if ok && conc {
			tab := make([]uint64, len(e))
			for i := range e {
				tab[i] = e[i].n
			}
			r := m.st.Tab(tab, idx, w)
			if w == 0 {
				return boolV(r)
			}
			return r.val()
		}
		if ok && w > 0 && len(e) <= 64 {
			r := m.ex(e[len(e)-1], w)
			for i := len(e) - 2; i >= 0; i-- {
				r = m.st.Ite(m.st.Eq(idx, m.st.Const(uint64(i), 64)), m.ex(e[i], w), r)
			}
			return r.val()
		}
	}
	i := m.concretize(idx, 300)
	if int(i) >= len(e) {
		panic(pathEnd{"index"})
	}
	if _, ok := e[i].x.(*Agg); ok {
		return copyV(e[i])
	}
	return e[i]
}

func (e *Expr) val() V {
	if e.isConst() {
		return V{n: e.k}
	}
	return V{x: e}
}

func (m *M) ex(v V, w uint8) *Expr {
	if v.x == nil {
		return m.st.Const(v.n, w)
	}
	if e, ok := v.x.(*Expr); ok {
		return e
	}
	panic(unsupported{fmt.Sprintf("scalar expected, got %T", v.x)})
}

func (m *M) exb(v V) *Expr {
	if v.x == nil {
		return m.st.Bool(v.n != 0)
	}
	return v.x.(*Expr)
}

func (m *M) get(f *Frame, i int32) V {
	if i >= 0 {
		return f.regs[i]
	}
	if i == math.MinInt32 {
		return V{}
	}
	k := &f.fn.consts[^i]
	if k.g < 0 {
		return k.v
	}
	return V{x: m.gcell(k.g)}
}

func (m *M) gcell(g int32) *V {
	if int(g) >= len(m.globals) {
		n := make([]*V, int(g)+256)
		copy(n, m.globals)
		m.globals = n
	}
	c := m.globals[g]
	if c == nil {
		m.p.mu.RLock()
		gl := m.p.glist[g]
		m.p.mu.RUnlock()
		v := zero(rtOf(gl.Type()).elem)
		c = &v
		m.globals[g] = c
	}
	return c
}

// globalCell finds a package-level variable by package path and name.
func (m *M) globalByName(pkg, name string) *V {
	p := m.p.prog.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	g := p.Var(name)
	if g == nil {
		return nil
	}
	return m.gcell(m.p.global(g))
}

type wellKnown struct {
	errorString   *RT // runtime.errorString
	str, i, b, by *RT
	errT          *RT
	plainErr      *RT // *errors.errorString
	boundsErr     *RT
}

func (m *M) rtPanic(msg string) {
	panic(goPanic{V{x: &Iface{m.types_.errorString, mkStr(msg)}}})
}

func (m *M) strIface(s string) V { return V{x: &Iface{m.types_.str, mkStr(s)}} }

// mkError builds an error value with the given text (as errors.New does).
func (m *M) mkError(s string) V {
	cell := V{x: &Agg{[]V{mkStr(s)}}}
	return V{x: &Iface{m.types_.plainErr, V{x: &cell}}}
}

func (m *M) newFrame(fn *Func, args []V, free []V) *Frame {
	fn.ensure(m.p)
	if !m.initing && !fn.seen.Load() {
		fn.seen.Store(true)
	}
	f := &Frame{fn: fn, d: -1, epoch: m.epoch}
	f.regs = make([]V, fn.nregs)
	copy(f.regs, args)
	copy(f.regs[fn.free0:], free)
	return f
}

func (m *M) pushFrame(f *Frame) {
	f.parent = m.fr
	if m.fr != nil {
		f.depth = m.fr.depth + 1
		if f.depth > 3000 {
			panic(unsupported{"call depth"})
		}
	}
	m.fr = f
}

func (m *M) lookupMethod(t *RT, name string, meth *types.Func) *Func {
	t.mu.Lock()
	f := t.methods[name]
	t.mu.Unlock()
	if f != nil {
		return f
	}
	var pkg *types.Package
	if meth != nil {
		pkg = meth.Pkg()
		name2 := meth.Name()
		sf := m.p.prog.LookupMethod(t.t, pkg, name2)
		if sf == nil {
			panic(unsupported{"no method " + name + " on " + t.String()})
		}
		f = m.p.fn(sf)
	} else {
		sf := m.p.prog.LookupMethod(t.t, nil, name)
		if sf == nil {
			return nil
		}
		f = m.p.fn(sf)
	}
	t.mu.Lock()
	t.methods[name] = f
	t.mu.Unlock()
	return f
}

// describe renders a panic value for messages.
func (m *M) describe(v V) string {
	i, ok := v.x.(*Iface)
	if !ok {
		return "nil"
	}
	if s, ok := concStr(i.v); ok && i.t.kind == reflect.String {
		return i.t.String() + ": " + s
	}
	if p, ok := i.v.x.(*V); ok {
		if a, ok := p.x.(*Agg); ok && len(a.e) > 0 {
			if s, ok := concStr(a.e[0]); ok {
				return i.t.String() + ": " + s
			}
		}
	}
	return i.t.String()
}

func (m *M) stack() string {
	var sb strings.Builder
	n := 0
	for f := m.fr; f != nil && n < 40; f = f.parent {
		line := ""
		pc := f.pc
		if pc > 0 && pc-1 < len(f.fn.code) {
			pos := f.fn.code[pc-1].pos
			if pos.IsValid() {
				ps := m.p.prog.Fset.Position(pos)
				line = fmt.Sprintf(" %s:%d", shortFile(ps.Filename), ps.Line)
			}
		}
		fmt.Fprintf(&sb, "  %s%s\n", f.fn.name, line)
		n++
	}
	return sb.String()
}

func shortFile(s string) string {
	p := strings.Split(s, "/")
	if len(p) > 3 {
		p = p[len(p)-3:]
	}
	return strings.Join(p, "/")
}
