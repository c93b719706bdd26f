package main

import (
	"reflect"
)

const vp = "verif/harness/v."

func (m *M) addInput(label string, e *Expr, k uint64) {
	m.ensureMark()
	m.ins = append(m.ins, Input{label, e, k})
}

func (m *M) addObs(label string, v V) {
	m.ensureMark()
	m.obs = append(m.obs, Observation{label, v})
}

func (m *M) label(v V) string {
	s, ok := concStr(v)
	if !ok {
		return "?"
	}
	return s
}

// classTab parses a byte-class string such as "a-zA-Z0-9" ("" = any byte).
func classTab(s string) *[4]uint64 {
	if s == "" {
		return nil
	}
	var t [4]uint64
	for i := 0; i < len(s); i++ {
		lo, hi := s[i], s[i]
		if s[i] == '\\' && i+1 < len(s) {
			i++
			lo, hi = s[i], s[i]
		}
		if i+2 < len(s) && s[i+1] == '-' {
			i += 2
			if s[i] == '\\' && i+1 < len(s) {
				i++
			}
			hi = s[i]
		}
		for c := int(lo); c <= int(hi); c++ {
			t[c>>6] |= 1 << (uint(c) & 63)
		}
	}
	return &t
}

func (m *M) newByte(label string, cls *[4]uint64) V {
	v := m.newVar(8)
	m.addInput(label, v, 0)
	if cls != nil {
		tab := make([]uint64, 256)
		for i := range tab {
			tab[i] = cls[i>>6] >> (uint(i) & 63) & 1
		}
		c := m.st.Tab(tab, v, 0)
		if m.evalE(c) != 1 {
			m.model[v.vid] = domPick(*cls)
		}
		m.addPC(c)
	}
	return V{x: v}
}

func init() {
	reg(vp+"Byte", func(m *M, in *Instr, a []V) V { return m.newByte(m.label(a[0]), nil) })
	reg(vp+"ByteIn", func(m *M, in *Instr, a []V) V { return m.newByte(m.label(a[0]), classTab(m.label(a[1]))) })
	reg(vp+"Bool", func(m *M, in *Instr, a []V) V {
		v := m.newVar(8)
		m.addInput(m.label(a[0]), v, 0)
		m.model[v.vid] &= 1
		m.addPC(m.st.Ult(v, m.st.Const(2, 8)))
		return boolV(m.st.Eq(v, m.st.Const(1, 8)))
	})
	reg(vp+"Uint64", func(m *M, in *Instr, a []V) V {
		v := m.newVar(64)
		m.addInput(m.label(a[0]), v, 0)
		return V{x: v}
	})
	reg(vp+"Int64", func(m *M, in *Instr, a []V) V {
		v := m.newVar(64)
		m.addInput(m.label(a[0]), v, 0)
		return V{x: v}
	})
	// Range(label, lo, hi): symbolic integer in [lo,hi]
	reg(vp+"Range", func(m *M, in *Instr, a []V) V {
		lo, hi := int64(a[1].n), int64(a[2].n)
		s := m.st
		if lo >= 0 && hi < 256 {
			v := m.newVar(8)
			m.addInput(m.label(a[0]), v, 0)
			if m.model[v.vid] < uint64(lo) || m.model[v.vid] > uint64(hi) {
				m.model[v.vid] = uint64(lo)
			}
			m.addPC(s.And(s.Ule(s.Const(uint64(lo), 8), v), s.Ule(v, s.Const(uint64(hi), 8))))
			return V{x: s.ZExt(v, 64)}
		}
		v := m.newVar(64)
		m.addInput(m.label(a[0]), v, 0)
		if x := int64(m.model[v.vid]); x < lo || x > hi {
			m.model[v.vid] = uint64(lo)
		}
		m.addPC(s.Sle(s.Const(uint64(lo), 64), v))
		m.addPC(s.Sle(v, s.Const(uint64(hi), 64)))
		return V{x: v}
	})
	reg(vp+"Long", func(m *M, in *Instr, a []V) V {
		m.limit = 5 * m.ctx.stepLimit
		return V{}
	})
	reg(vp+"Choose", func(m *M, in *Instr, a []V) V {
		n := m.intOf(a[1], rtInt)
		if n <= 0 {
			panic(unsupported{"Choose(0)"})
		}
		k := m.choose(int(n))
		m.addInput(m.label(a[0]), nil, uint64(k))
		return V{n: uint64(k)}
	})
	str := func(m *M, in *Instr, a []V) []V {
		n := int(m.intOf(a[1], rtInt))
		cls := classTab(m.label(a[2]))
		e := make([]V, n)
		for i := range e {
			e[i] = m.newByte(m.label(a[0]), cls)
		}
		return e
	}
	reg(vp+"Str", func(m *M, in *Instr, a []V) V { return cellsToStr(m.st, str(m, in, a)) })
	reg(vp+"Bytes", func(m *M, in *Instr, a []V) V { return V{x: &Slice{str(m, in, a)}} })
	reg(vp+"Assume", func(m *M, in *Instr, a []V) V { m.assume(m.exb(a[0])); return V{} })
	reg(vp+"Assert", func(m *M, in *Instr, a []V) V {
		msg := m.sampleStrSafe(a[1])
		m.assert(m.exb(a[0]), msg)
		return V{}
	})
	reg(vp+"And", func(m *M, in *Instr, a []V) V {
		r := m.st.T
		for _, x := range cellsOf(a[0]) {
			r = m.st.And(r, m.exb(x))
		}
		return boolV(r)
	})
	reg(vp+"Or", func(m *M, in *Instr, a []V) V {
		r := m.st.F
		for _, x := range cellsOf(a[0]) {
			r = m.st.Or(r, m.exb(x))
		}
		return boolV(r)
	})
	reg(vp+"Implies", func(m *M, in *Instr, a []V) V {
		return boolV(m.st.Or(m.st.Not(m.exb(a[0])), m.exb(a[1])))
	})
	reg(vp+"Iff", func(m *M, in *Instr, a []V) V { return boolV(m.st.Eq(m.exb(a[0]), m.exb(a[1]))) })
	reg(vp+"IteInt", func(m *M, in *Instr, a []V) V {
		return m.st.Ite(m.exb(a[0]), m.ex(a[1], 64), m.ex(a[2], 64)).val()
	})
	reg(vp+"InClass", func(m *M, in *Instr, a []V) V { // InClass(byte, class)
		t := classTab(m.label(a[1]))
		if a[0].x == nil {
			return b(t[a[0].n>>6]>>(a[0].n&63)&1 == 1)
		}
		tab := make([]uint64, 256)
		for i := range tab {
			tab[i] = t[i>>6] >> (uint(i) & 63) & 1
		}
		return boolV(m.st.Tab(tab, a[0].x.(*Expr), 0))
	})
	reg(vp+"Reach", func(m *M, in *Instr, a []V) V { m.addObs("reach:"+m.label(a[0]), V{}); return V{} })
	reg(vp+"Observe", func(m *M, in *Instr, a []V) V {
		v := a[1]
		if i, ok := v.x.(*Iface); ok {
			switch i.t.kind {
			case reflect.Bool:
				e := m.exb(i.v)
				v = m.st.Ite(e, m.st.Const(1, 8), m.st.Const(0, 8)).val()
			case reflect.Slice:
				v = cellsToStr(m.st, cellsOf(i.v))
				if v.x == nil {
					v = V{x: ""}
				}
			case reflect.String:
				v = i.v
				if v.x == nil {
					v = V{x: ""}
				}
			default:
				v = i.v
				if e, ok := v.x.(*Expr); ok {
					v = m.intConv(e, i.t, rtOf64(i.t.signed)).val()
				} else {
					v = V{n: uint64(toInt(v, i.t))}
				}
			}
		}
		m.addObs(m.label(a[0]), v)
		return V{}
	})
	// Symbolic reports whether the harness runs in the engine.
	reg(vp+"Engine", func(m *M, in *Instr, a []V) V { return b(true) })
	// Sample fixes a value (used where the property does not depend on it).
	reg(vp+"Concrete", func(m *M, in *Instr, a []V) V {
		if a[0].x == nil {
			return a[0]
		}
		return V{n: m.concretize(a[0].x.(*Expr), 5000)}
	})
	// standard output capture
	capture := func(m *M, all bool) V {
		m.ensureMark()
		m.stdout = m.stdout[:len(m.stdout):len(m.stdout)]
		old := m.capFrom
		m.undoable(func() { m.capFrom = old })
		m.capFrom = len(m.stdout)
		was := m.capErr
		m.undoable(func() { m.capErr = was })
		m.capErr = all
		return V{}
	}
	reg(vp+"CaptureStart", func(m *M, in *Instr, a []V) V { return capture(m, false) })
	// standard error, too
	reg(vp+"CaptureAll", func(m *M, in *Instr, a []V) V { return capture(m, true) })
	reg(vp+"CaptureEnd", func(m *M, in *Instr, a []V) V {
		return cellsToStr(m.st, append([]V(nil), m.stdout[m.capFrom:]...))
	})
}

func rtOf64(signed bool) *RT {
	if signed {
		return rtInt
	}
	return rtUint64
}

var rtUint64 *RT

func (m *M) sampleStrSafe(v V) string {
	if s, ok := concStr(v); ok {
		return s
	}
	var b []byte
	for _, e := range v.x.(*SStr).b {
		b = append(b, byte(m.evalE(e)))
	}
	return string(b)
}
