package main

import (
	"fmt"
	"go/token"
	"math"
	"reflect"
)

const maxLoopCheck = 1 << 14

// run executes until the frame chain is empty (returns normally) or the path
// ends (panics with pathEnd / violation / unsupported).
func (m *M) run() {
	for {
		if m.runGuard() {
			return
		}
	}
}

func (m *M) runGuard() (done bool) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanic); ok {
				done = false
				func() {
					defer func() {
						// raising may itself end the path
						if r2 := recover(); r2 != nil {
							panic(r2)
						}
					}()
					m.raise(gp.v)
				}()
				return
			}
			panic(r)
		}
	}()
	m.loop()
	return true
}

// raise starts unwinding with panic value v in the current frame.
func (m *M) raise(v V) {
	f := m.fr
	m.touch(f)
	f.mode = 1
	f.pan = v
	f.recov = false
	m.unwind()
}

// unwind continues the defers of the current frame in mode 1 or 2.
func (m *M) unwind() {
	for {
		f := m.fr
		if f == nil {
			return
		}
		m.touch(f)
		if f.mode == 1 && f.recov {
			f.mode = 2
			f.pan = V{}
		}
		if f.defers != nil {
			d := f.defers
			f.defers = d.next
			if m.startDefer(f, d) {
				return
			}
			continue
		}
		if f.mode == 2 {
			f.mode = 0
			if f.fn.recover >= 0 {
				f.pc = f.fn.recover
				return
			}
			// no named results: return zero values
			m.ret(zeroResults(f.fn))
			return
		}
		// propagate
		v := f.pan
		par := f.parent
		if par == nil {
			panic(violation{"panic", "panic: " + m.describe(v) + "\n" + m.stack()})
		}
		m.fr = par
		m.touch(par)
		par.mode = 1
		par.pan = v
		par.recov = false
	}
}

func zeroResults(fn *Func) V {
	r := fn.results
	if r == nil || r.Len() == 0 {
		return V{}
	}
	if r.Len() == 1 {
		return zero(rtOf(r.At(0).Type()))
	}
	return zero(rtOf(r))
}

// startDefer begins a deferred call; false if it completed immediately.
func (m *M) startDefer(f *Frame, d *deferRec) bool {
	if d.bi != "" {
		m.builtin(d.in, d.bi, d.args)
		return false
	}
	nf := m.enter(d.cl, d.args)
	if nf == nil {
		return false
	}
	nf.defOf = true
	nf.d = -1
	m.pushFrame(nf)
	return true
}

// enter prepares a call; a nil frame means it was an intrinsic and has run.
func (m *M) enter(cl *Closure, args []V) *Frame {
	if cl == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if cl.native != nil {
		cl.native(m, args)
		return nil
	}
	if cl.fn.intr != nil {
		_, nf := cl.fn.intr(m, nil, args)
		return nf
	}
	m.checkBody(cl.fn)
	return m.newFrame(cl.fn, args, cl.free)
}

func (m *M) checkBody(fn *Func) {
	if fn.f.Blocks == nil {
		panic(unsupported{"no body: " + fn.name})
	}
}

// ret returns v from the current frame.
func (m *M) ret(v V) {
	f := m.fr
	par := f.parent
	m.fr = par
	if f.onRet != nil {
		v = f.onRet(m, v)
	}
	if par == nil {
		m.hooks.result = v
		return
	}
	m.touch(par)
	if f.defOf {
		if par.mode != 0 {
			m.unwind()
		}
		return
	}
	if f.d >= 0 {
		par.regs[f.d] = v
	}
}

func (m *M) loop() {
	if m.fr == nil {
		return
	}
	for {
		f := m.fr
		if f == nil {
			return
		}
		if f.epoch != m.epoch {
			m.saveFrame(f)
		}
		code := f.fn.code
		in := &code[f.pc]
		m.ipc = f.pc
		m.ifr = f
		m.jmark = len(m.jrn)
		m.marked = false
		f.pc++
		m.steps++
		if m.steps&0xfff == 0 {
			m.poll()
		}
		switch in.op {
		case IJump:
			f.pc = int(in.n)
		case IIf:
			c := m.get(f, in.a)
			b := false
			if c.x == nil {
				b = c.n != 0
			} else {
				b = m.decide(c.x.(*Expr))
				m.touch(f)
			}
			if b {
				f.pc = int(in.n)
			} else {
				f.pc = int(in.c)
			}
		case IPhi:
			if len(in.moves) == 1 {
				mv := in.moves[0]
				f.regs[mv[0]] = m.get(f, mv[1])
			} else {
				var tmp [8]V
				t := tmp[:0]
				for _, mv := range in.moves {
					t = append(t, m.get(f, mv[1]))
				}
				for i, mv := range in.moves {
					f.regs[mv[0]] = t[i]
				}
			}
		case IMove:
			f.regs[in.d] = m.get(f, in.a)
		case IAlloc:
			c := zero(in.t)
			f.regs[in.d] = V{x: &c}
		case ILoad:
			p := m.get(f, in.a)
			if c, ok := p.x.(*V); ok {
				if m.conc != nil {
					m.read(c)
				}
				if _, ok := c.x.(*Agg); ok {
					f.regs[in.d] = copyV(*c)
				} else {
					f.regs[in.d] = *c
				}
			} else {
				v := m.load(p.x, in)
				m.touch(f)
				f.regs[in.d] = v
			}
		case IStore:
			p := m.get(f, in.a)
			v := m.get(f, in.b)
			switch c := p.x.(type) {
			case *V:
				if _, ok := v.x.(*Agg); ok {
					m.store(c, v)
				} else {
					m.set(c, v)
				}
			case *SymPtr:
				i := m.concretize(c.idx, 300)
				m.store(&c.e[i], v)
			case *DataPtr:
				m.store(&c.e[0], v)
			case nil:
				m.rtPanic("invalid memory address or nil pointer dereference")
			default:
				panic(unsupported{fmt.Sprintf("store through %T", p.x)})
			}
		case IBin:
			x, y := m.get(f, in.a), m.get(f, in.b)
			v := m.binop(in, x, y)
			m.touch(f)
			f.regs[in.d] = v
		case IFieldAddr:
			p := m.get(f, in.a)
			c, ok := p.x.(*V)
			if !ok {
				if p.x == nil {
					m.rtPanic("invalid memory address or nil pointer dereference")
				}
				panic(unsupported{fmt.Sprintf("fieldaddr of %T", p.x)})
			}
			a, ok := c.x.(*Agg)
			if !ok {
				panic(unsupported{fmt.Sprintf("fieldaddr: cell holds %T (%s)", c.x, in.t2)})
			}
			f.regs[in.d] = V{x: &a.e[in.n]}
		case IField:
			a := m.get(f, in.a)
			f.regs[in.d] = a.x.(*Agg).e[in.n]
		case IIndexAddr:
			p := m.get(f, in.a)
			iv := m.get(f, in.b)
			var e []V
			switch s := p.x.(type) {
			case *Slice:
				e = s.e
			case *V:
				e = s.x.(*Agg).e
			case nil:
				if in.t.kind == reflect.Pointer {
					m.rtPanic("invalid memory address or nil pointer dereference")
				}
			default:
				panic(unsupported{fmt.Sprintf("indexaddr of %T", p.x)})
			}
			if iv.x == nil {
				i := toInt(iv, in.aux.(*RT))
				if i < 0 || i >= int64(len(e)) {
					m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(e)))
				}
				f.regs[in.d] = V{x: &e[i]}
			} else {
				idx := m.symIndex(iv, in.aux.(*RT), len(e))
				m.touch(f)
				f.regs[in.d] = V{x: &SymPtr{e, idx, in.t2.elem}}
			}
		case IIndex:
			v := m.index(in, m.get(f, in.a), m.get(f, in.b))
			m.touch(f)
			f.regs[in.d] = v
		case IExtract:
			a := m.get(f, in.a)
			f.regs[in.d] = a.x.(*Agg).e[in.n]
		case ICall:
			m.call(f, in)
		case IReturn:
			var v V
			switch len(in.args) {
			case 0:
			case 1:
				v = m.get(f, in.args[0])
			default:
				a := &Agg{make([]V, len(in.args))}
				for i, r := range in.args {
					a.e[i] = m.get(f, r)
				}
				v = V{x: a}
			}
			// inline of ret
			par := f.parent
			m.fr = par
			if f.onRet != nil {
				v = f.onRet(m, v)
			}
			if par == nil {
				m.hooks.result = v
				return
			}
			if par.epoch != m.epoch {
				m.saveFrame(par)
			}
			if f.defOf {
				if par.mode != 0 {
					m.unwind()
				}
			} else if f.d >= 0 {
				par.regs[f.d] = v
			}
		case IMakeIface:
			f.regs[in.d] = V{x: &Iface{in.t, m.get(f, in.a)}}
		case IMakeClosure:
			fv := make([]V, len(in.args))
			for i, r := range in.args {
				fv[i] = m.get(f, r)
			}
			f.regs[in.d] = V{x: &Closure{fn: in.fn, free: fv}}
		case INot:
			c := m.get(f, in.a)
			if c.x == nil {
				f.regs[in.d] = V{n: c.n ^ 1}
			} else {
				f.regs[in.d] = boolV(m.st.Not(c.x.(*Expr)))
			}
		case INeg:
			c := m.get(f, in.a)
			switch {
			case in.t.isInt() && c.x == nil:
				f.regs[in.d] = V{n: (-c.n) & mask(in.t.w)}
			case in.t.isInt():
				f.regs[in.d] = m.st.Neg(c.x.(*Expr)).val()
			case in.t.kind == reflect.Float64 && c.x == nil:
				f.regs[in.d] = V{n: math.Float64bits(-math.Float64frombits(c.n))}
			case in.t.kind == reflect.Float32 && c.x == nil:
				f.regs[in.d] = V{n: uint64(math.Float32bits(-math.Float32frombits(uint32(c.n))))}
			default:
				panic(unsupported{"neg " + in.t.String()})
			}
		case ICompl:
			c := m.get(f, in.a)
			if c.x == nil {
				f.regs[in.d] = V{n: ^c.n & mask(in.t.w)}
			} else {
				f.regs[in.d] = m.st.BitNot(c.x.(*Expr)).val()
			}
		case IConvert:
			v := m.convert(in.t, in.t2, m.get(f, in.a))
			m.touch(f)
			f.regs[in.d] = v
		case IMakeMap:
			f.regs[in.d] = V{x: &Map{rt: in.t2, idx: map[any]int{}}}
		case IMakeSlice:
			n := m.intOf(m.get(f, in.a), rtInt)
			c := m.intOf(m.get(f, in.b), rtInt)
			m.touch(f)
			if n < 0 || n > 1<<28 {
				m.rtPanic("makeslice: len out of range")
			}
			if c < n || c > 1<<28 {
				m.rtPanic("makeslice: cap out of range")
			}
			f.regs[in.d] = V{x: &Slice{zeros(in.t2.elem, int(c))[:n]}}
		case ISlice:
			v := m.slice(f, in)
			m.touch(f)
			f.regs[in.d] = v
		case ISliceToArrPtr:
			s := m.get(f, in.a)
			n := in.t2.elem.n
			sl, _ := s.x.(*Slice)
			if sl == nil {
				if n == 0 {
					f.regs[in.d] = V{}
					break
				}
				m.rtPanic("cannot convert slice to array pointer")
			}
			if len(sl.e) < n {
				m.rtPanic("cannot convert slice to array pointer: length")
			}
			c := V{x: &Agg{sl.e[:n:n]}}
			f.regs[in.d] = V{x: &c}
		case ILookup:
			v := m.lookup(in, m.get(f, in.a), m.get(f, in.b))
			m.touch(f)
			f.regs[in.d] = v
		case IMapUpdate:
			mp, _ := m.get(f, in.a).x.(*Map)
			if mp == nil {
				panic(goPanic{V{x: &Iface{m.types_.errorString, mkStr("assignment to entry in nil map")}}})
			}
			m.mapSet(mp, m.get(f, in.b), m.get(f, in.c))
		case IRange:
			x := m.get(f, in.a)
			if in.t.kind == reflect.String {
				f.regs[in.d] = V{x: &Agg{[]V{x, {}}}}
			} else {
				mp, _ := x.x.(*Map)
				var l []*MapEnt
				if mp != nil {
					if m.conc != nil {
						m.touched(mp, false)
					}
					for _, e := range mp.ents {
						if !e.dead {
							l = append(l, e)
						}
					}
				}
				f.regs[in.d] = V{x: &Agg{[]V{{x: mapIter(l)}, {}}}}
			}
		case INext:
			v := m.next(in, m.get(f, in.a))
			m.touch(f)
			f.regs[in.d] = v
		case ITypeAssert:
			f.regs[in.d] = m.typeAssert(in, m.get(f, in.a))
		case IRunDefers:
			if f.defers != nil {
				d := f.defers
				f.defers = d.next
				f.pc--
				m.startDefer(f, d)
			}
		case IPanic:
			v := m.get(f, in.a)
			if v.x == nil {
				v = V{x: &Iface{m.types_.errorString, mkStr("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")}}
			}
			m.raise(v)
		case IDefer:
			d := &deferRec{next: f.defers, in: in}
			for _, a := range in.args {
				d.args = append(d.args, m.get(f, a))
			}
			if in.bi != "" {
				d.bi = in.bi
			} else {
				d.cl, d.args = m.target(f, in, d.args)
			}
			f.defers = d
		case IGo:
			args := make([]V, len(in.args))
			for i, a := range in.args {
				args[i] = m.get(f, a)
			}
			cl, args := m.target(f, in, args)
			m.spawn(cl, args)
		case IMakeChan:
			m.makeChan(f, in)
		case ISend:
			m.chanSend(f, in)
		case IRecv:
			m.chanRecv(f, in)
		case ISelect:
			m.chanSelect(f, in)
		case INop:
		default:
			panic(unsupported{fmt.Sprint("op ", in.op)})
		}
	}
}

type mapIter []*MapEnt

func boolV(e *Expr) V {
	if e.isConst() {
		return V{n: e.k}
	}
	return V{x: e}
}

// target resolves the callee of a call-like instruction.
func (m *M) target(f *Frame, in *Instr, args []V) (*Closure, []V) {
	if in.meth != nil {
		i, ok := m.get(f, in.a).x.(*Iface)
		if !ok {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := m.lookupMethod(i.t, in.name, in.meth)
		return &Closure{fn: fn}, append([]V{i.v}, args...)
	}
	if in.fn != nil {
		return &Closure{fn: in.fn}, args
	}
	cl, _ := m.get(f, in.a).x.(*Closure)
	if cl == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	return cl, args
}

func (m *M) call(f *Frame, in *Instr) {
	var fn *Func
	var free []V
	var args []V
	if in.meth != nil {
		i, ok := m.get(f, in.a).x.(*Iface)
		if !ok {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn = m.lookupMethod(i.t, in.name, in.meth)
		args = make([]V, len(in.args)+1)
		args[0] = i.v
		for k, a := range in.args {
			args[k+1] = m.get(f, a)
		}
	} else {
		args = make([]V, len(in.args))
		for k, a := range in.args {
			args[k] = m.get(f, a)
		}
		if in.bi != "" {
			v := m.builtin(in, in.bi, args)
			m.touch(f)
			f.regs[in.d] = v
			return
		}
		if in.fn != nil {
			fn = in.fn
		} else {
			cl, _ := m.get(f, in.a).x.(*Closure)
			if cl == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			if cl.native != nil {
				v := cl.native(m, args)
				m.touch(f)
				f.regs[in.d] = v
				return
			}
			fn = cl.fn
			free = cl.free
		}
	}
	if fn.intr != nil {
		v, nf := fn.intr(m, in, args)
		if nf != nil {
			nf.d = in.d
			m.pushFrame(nf)
			return
		}
		m.touch(f)
		f.regs[in.d] = v
		return
	}
	if fn.f.Blocks == nil {
		panic(unsupported{"no body: " + fn.name})
	}
	nf := m.newFrame(fn, args, free)
	nf.d = in.d
	nf.parent = f
	nf.depth = f.depth + 1
	if nf.depth > 3000 {
		panic(unsupported{"call depth"})
	}
	if m.trace {
		m.traceCall(nf)
	}
	m.fr = nf
}

func (m *M) traceCall(nf *Frame) {
	fmt.Printf("%*s%s\n", int(nf.depth), "", nf.fn.name)
}

func toInt(v V, t *RT) int64 {
	if t.signed {
		return sext(v.n, t.w)
	}
	if v.n > math.MaxInt64 {
		return math.MaxInt64
	}
	return int64(v.n)
}

var rtInt *RT

// intOf forces an integer to a concrete value (forking over its values).
func (m *M) intOf(v V, t *RT) int64 {
	if v.x == nil {
		return toInt(v, t)
	}
	return toInt(V{n: m.concretize(v.x.(*Expr), 2000)}, t)
}

// symIndex checks bounds of a symbolic index and returns it 64 bits wide.
func (m *M) symIndex(iv V, t *RT, n int) *Expr {
	e := iv.x.(*Expr)
	var x *Expr
	if t.signed {
		x = m.st.SExt(e, 64)
	} else {
		x = m.st.ZExt(e, 64)
	}
	if !m.decide(m.st.Ult(x, m.st.Const(uint64(n), 64))) {
		m.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return x
}

func (m *M) index(in *Instr, x, iv V) V {
	t := in.aux.(*RT)
	if in.t.kind == reflect.String {
		n := strLen(x)
		if iv.x == nil {
			i := toInt(iv, t)
			if i < 0 || i >= int64(n) {
				m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
			}
			return strAt(x, int(i))
		}
		idx := m.symIndex(iv, t, n)
		return m.selectAt(strCells(x), idx, rtByte)
	}
	a, ok := x.x.(*Agg)
	if !ok {
		panic(unsupported{"index of " + in.t.String()})
	}
	if iv.x == nil {
		i := toInt(iv, t)
		if i < 0 || i >= int64(len(a.e)) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(a.e)))
		}
		return a.e[i]
	}
	idx := m.symIndex(iv, t, len(a.e))
	return m.selectAt(a.e, idx, in.t2)
}

func (m *M) slice(f *Frame, in *Instr) V {
	x := m.get(f, in.a)
	bound := func(k int) (int64, bool) {
		if in.args[k] == math.MinInt32 {
			return 0, false
		}
		return m.intOf(m.get(f, in.args[k]), rtInt), true
	}
	lo, _ := bound(0)
	hi, hasHi := bound(1)
	mx, hasMax := bound(2)
	if in.t.kind == reflect.String {
		n := int64(strLen(x))
		if !hasHi {
			hi = n
		}
		if lo < 0 || hi < lo || hi > n {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		return strSlice(x, int(lo), int(hi))
	}
	var e []V
	isNil := false
	switch s := x.x.(type) {
	case *Slice:
		e = s.e
	case *V:
		e = s.x.(*Agg).e
	case nil:
		if in.t.kind == reflect.Pointer {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		isNil = true
	default:
		panic(unsupported{fmt.Sprintf("slice of %T", x.x)})
	}
	n, c := int64(len(e)), int64(cap(e))
	if !hasHi {
		hi = n
	}
	if !hasMax {
		mx = c
	}
	if lo < 0 || hi < lo || hi > mx || mx > c {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, c))
	}
	if isNil {
		return V{}
	}
	return V{x: &Slice{e[lo:hi:mx]}}
}

func (m *M) typeAssert(in *Instr, v V) V {
	i, _ := v.x.(*Iface)
	ok := false
	var r V
	if in.t.kind == reflect.Interface {
		if i != nil && implements(i.t, in.t) {
			ok = true
			r = v
		}
	} else if i != nil && i.t == in.t {
		ok = true
		r = i.v
	}
	if in.commaOk {
		if !ok {
			r = zero(in.t)
		}
		return V{x: &Agg{[]V{r, {n: b2u(ok)}}}}
	}
	if !ok {
		from := "nil"
		if i != nil {
			from = i.t.String()
		}
		m.rtPanic("interface conversion: interface is " + from + ", not " + in.t.String())
	}
	return r
}

func (m *M) next(in *Instr, it V) V {
	a := it.x.(*Agg)
	if in.commaOk { // string
		s := a.e[0]
		pos := int(a.e[1].n)
		if pos >= strLen(s) {
			return V{x: &Agg{[]V{{}, {}, {}}}}
		}
		r, size := m.decodeRune(s, pos)
		m.set(&a.e[1], V{n: uint64(pos + size)})
		return V{x: &Agg{[]V{{n: 1}, {n: uint64(pos)}, r}}}
	}
	l := a.e[0].x.(mapIter)
	pos := int(a.e[1].n)
	for pos < len(l) && l[pos].dead {
		pos++
	}
	if pos >= len(l) {
		return V{x: &Agg{[]V{{}, {}, {}}}}
	}
	m.set(&a.e[1], V{n: uint64(pos + 1)})
	return V{x: &Agg{[]V{{n: 1}, l[pos].k, copyV(l[pos].cell)}}}
}

var _ = token.ADD
