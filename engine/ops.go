package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"reflect"
	"sort"
	"strings"
)

func (m *M) binop(in *Instr, x, y V) V {
	t := in.t
	if t.isInt() {
		if x.x == nil && y.x == nil {
			return m.intBin(in, x.n, y.n)
		}
		return m.symBin(in, x, y)
	}
	switch in.tok {
	case token.EQL:
		return boolV(m.eqTyped(t, in.aux.(*RT), x, y))
	case token.NEQ:
		return boolV(m.st.Not(m.eqTyped(t, in.aux.(*RT), x, y)))
	}
	switch t.kind {
	case reflect.String:
		switch in.tok {
		case token.ADD:
			return m.st.strCat(x, y)
		}
		a, ok1 := concStr(x)
		b, ok2 := concStr(y)
		if ok1 && ok2 {
			switch in.tok {
			case token.LSS:
				return V{n: b2u(a < b)}
			case token.LEQ:
				return V{n: b2u(a <= b)}
			case token.GTR:
				return V{n: b2u(a > b)}
			case token.GEQ:
				return V{n: b2u(a >= b)}
			}
		}
		xs, ys := m.st.strExprs(x), m.st.strExprs(y)
		switch in.tok {
		case token.LSS:
			return boolV(m.strLess(xs, ys))
		case token.GTR:
			return boolV(m.strLess(ys, xs))
		case token.LEQ:
			return boolV(m.st.Not(m.strLess(ys, xs)))
		case token.GEQ:
			return boolV(m.st.Not(m.strLess(xs, ys)))
		}
	case reflect.Bool:
		a, b := m.exb(x), m.exb(y)
		switch in.tok {
		case token.AND, token.LAND:
			return boolV(m.st.And(a, b))
		case token.OR, token.LOR:
			return boolV(m.st.Or(a, b))
		}
	case reflect.Float64:
		a, b := math.Float64frombits(m.concN(x)), math.Float64frombits(m.concN(y))
		switch in.tok {
		case token.ADD:
			return V{n: math.Float64bits(a + b)}
		case token.SUB:
			return V{n: math.Float64bits(a - b)}
		case token.MUL:
			return V{n: math.Float64bits(a * b)}
		case token.QUO:
			return V{n: math.Float64bits(a / b)}
		}
		return cmpF(in.tok, a, b)
	case reflect.Float32:
		a, b := math.Float32frombits(uint32(m.concN(x))), math.Float32frombits(uint32(m.concN(y)))
		f := func(v float32) V { return V{n: uint64(math.Float32bits(v))} }
		switch in.tok {
		case token.ADD:
			return f(a + b)
		case token.SUB:
			return f(a - b)
		case token.MUL:
			return f(a * b)
		case token.QUO:
			return f(a / b)
		}
		return cmpF(in.tok, float64(a), float64(b))
	}
	panic(unsupported{fmt.Sprintf("binop %v on %v", in.tok, t)})
}

func cmpF(tok token.Token, a, b float64) V {
	switch tok {
	case token.LSS:
		return V{n: b2u(a < b)}
	case token.LEQ:
		return V{n: b2u(a <= b)}
	case token.GTR:
		return V{n: b2u(a > b)}
	case token.GEQ:
		return V{n: b2u(a >= b)}
	case token.EQL:
		return V{n: b2u(a == b)}
	case token.NEQ:
		return V{n: b2u(a != b)}
	}
	panic(unsupported{"float op " + tok.String()})
}

// concN samples a symbolic scalar (flagging the path as partial).
func (m *M) concN(v V) uint64 {
	if v.x == nil {
		return v.n
	}
	if e, ok := v.x.(*Expr); ok {
		return m.sample(e, "float arithmetic on a symbolic value")
	}
	panic(unsupported{fmt.Sprintf("scalar of %T", v.x)})
}

func (m *M) intBin(in *Instr, a, b uint64) V {
	t := in.t
	w := t.w
	mk := mask(w)
	switch in.tok {
	case token.ADD:
		return V{n: (a + b) & mk}
	case token.SUB:
		return V{n: (a - b) & mk}
	case token.MUL:
		return V{n: (a * b) & mk}
	case token.QUO, token.REM:
		if b == 0 {
			m.rtPanic("integer divide by zero")
		}
		op := OUDiv
		if t.signed {
			op = OSDiv
			if in.tok == token.REM {
				op = OSRem
			}
		} else if in.tok == token.REM {
			op = OURem
		}
		return V{n: foldDiv(op, a, b, w) & mk}
	case token.AND:
		return V{n: a & b}
	case token.OR:
		return V{n: a | b}
	case token.XOR:
		return V{n: a ^ b}
	case token.AND_NOT:
		return V{n: a &^ b}
	case token.SHL, token.SHR:
		yt := in.aux.(*RT)
		if yt.signed && sext(b, yt.w) < 0 {
			m.rtPanic("negative shift amount")
		}
		if in.tok == token.SHL {
			if b >= uint64(w) {
				return V{}
			}
			return V{n: (a << b) & mk}
		}
		if t.signed {
			s := sext(a, w)
			if b > 63 {
				b = 63
			}
			return V{n: uint64(s>>b) & mk}
		}
		if b >= 64 {
			return V{}
		}
		return V{n: a >> b}
	case token.EQL:
		return V{n: b2u(a == b)}
	case token.NEQ:
		return V{n: b2u(a != b)}
	}
	if t.signed {
		x, y := sext(a, w), sext(b, w)
		switch in.tok {
		case token.LSS:
			return V{n: b2u(x < y)}
		case token.LEQ:
			return V{n: b2u(x <= y)}
		case token.GTR:
			return V{n: b2u(x > y)}
		case token.GEQ:
			return V{n: b2u(x >= y)}
		}
	}
	switch in.tok {
	case token.LSS:
		return V{n: b2u(a < b)}
	case token.LEQ:
		return V{n: b2u(a <= b)}
	case token.GTR:
		return V{n: b2u(a > b)}
	case token.GEQ:
		return V{n: b2u(a >= b)}
	}
	panic("intBin " + in.tok.String())
}

func (m *M) symBin(in *Instr, x, y V) V {
	t := in.t
	w := t.w
	s := m.st
	if in.tok == token.SHL || in.tok == token.SHR {
		yt := in.aux.(*RT)
		a := m.ex(x, w)
		c := m.ex(y, yt.w)
		if yt.signed && !c.isConst() && umax(c) >= uint64(1)<<(yt.w-1) {
			if m.decide(s.Slt(c, s.Const(0, yt.w))) {
				m.rtPanic("negative shift amount")
			}
		}
		var b *Expr
		switch {
		case yt.w < w:
			b = s.ZExt(c, w)
		case yt.w > w:
			b = s.Ite(s.Ult(c, s.Const(uint64(w), yt.w)), s.Extract(c, 0, w), s.Const(uint64(w), w))
		default:
			b = c
		}
		switch {
		case in.tok == token.SHL:
			return s.Shift(OShl, a, b).val()
		case t.signed:
			return s.Shift(OAShr, a, b).val()
		}
		return s.Shift(OLShr, a, b).val()
	}
	a, b := m.ex(x, w), m.ex(y, w)
	switch in.tok {
	case token.ADD:
		return s.Add(a, b).val()
	case token.SUB:
		return s.Sub(a, b).val()
	case token.MUL:
		return s.Mul(a, b).val()
	case token.QUO, token.REM:
		if !b.isConst() {
			if m.decide(s.Eq(b, s.Const(0, w))) {
				m.rtPanic("integer divide by zero")
			}
		} else if b.k == 0 {
			m.rtPanic("integer divide by zero")
		}
		op := OUDiv
		switch {
		case t.signed && in.tok == token.QUO:
			op = OSDiv
		case t.signed:
			op = OSRem
		case in.tok == token.REM:
			op = OURem
		}
		return m.divide(op, a, b).val()
	case token.AND:
		return s.BitAnd(a, b).val()
	case token.OR:
		return s.BitOr(a, b).val()
	case token.XOR:
		return s.BitXor(a, b).val()
	case token.AND_NOT:
		return s.BitAnd(a, s.BitNot(b)).val()
	case token.EQL:
		return boolV(s.Eq(a, b))
	case token.NEQ:
		return boolV(s.Not(s.Eq(a, b)))
	case token.LSS:
		if t.signed {
			return boolV(s.Slt(a, b))
		}
		return boolV(s.Ult(a, b))
	case token.LEQ:
		if t.signed {
			return boolV(s.Sle(a, b))
		}
		return boolV(s.Ule(a, b))
	case token.GTR:
		if t.signed {
			return boolV(s.Slt(b, a))
		}
		return boolV(s.Ult(b, a))
	case token.GEQ:
		if t.signed {
			return boolV(s.Sle(b, a))
		}
		return boolV(s.Ule(b, a))
	}
	panic(unsupported{"symBin " + in.tok.String()})
}

// divide by a constant with range information from the path condition:
// (c*X + Y) / c with 0 <= Y < c and no overflow is X.
func (m *M) divide(op Op, a, b *Expr) *Expr {
	s := m.st
	if !b.isConst() || b.k <= 1 || b.k > 1<<62 || a.isConst() {
		return s.Div(op, a, b)
	}
	lo, hi, ok := m.irange(a)
	if !ok || lo < 0 {
		return s.Div(op, a, b)
	}
	if op == OSDiv {
		op = OUDiv
	} else if op == OSRem {
		op = OURem
	}
	bb := int64(b.k)
	if hi < bb {
		if op == OUDiv {
			return s.Const(0, a.w)
		}
		return a
	}
	var l lin
	if s.toLin(a, 1, &l) && !(len(l.terms) == 1 && l.terms[0].e == a) {
		// split the terms divisible by b from the rest: a = b*q + r with r >= 0
		var q, r lin
		for _, t := range l.terms {
			c := t.c & mask(a.w)
			sc := sext(c, a.w)
			if sc%bb == 0 {
				q.terms = append(q.terms, linTerm{t.e, uint64(sc / bb)})
			} else {
				r.terms = append(r.terms, linTerm{t.e, c})
			}
		}
		kk := sext(l.k&mask(a.w), a.w)
		rlo, rhi, rok := m.lrange(r.terms, a.w)
		_, _, qok := m.lrange(q.terms, a.w)
		base := kk + rlo
		qk := base / bb
		if base%bb < 0 {
			qk--
		}
		rk := kk - qk*bb
		if rok && qok && (len(q.terms) > 0 || qk != 0) && rlo+rk >= 0 && rhi+rk < 1<<61 {
			rr := s.fromLin(&r, a.w)
			rr = s.Add(rr, s.Const(uint64(rk), a.w))
			if op == OURem {
				if rhi+rk < bb {
					return rr
				}
				return m.divNarrow(op, rr, b, rhi+rk)
			}
			q0 := s.Add(s.fromLin(&q, a.w), s.Const(uint64(qk), a.w))
			if rhi+rk < bb {
				return q0
			}
			return s.Add(q0, m.divNarrow(op, rr, b, rhi+rk))
		}
	}
	return m.divNarrow(op, a, b, hi)
}

// divNarrow divides a, known to lie in [0,hi], at the width it needs.
func (m *M) divNarrow(op Op, a, b *Expr, hi int64) *Expr {
	s := m.st
	if op == OURem {
		if d, ok := s.rem[a]; ok && d.c%b.k == 0 && d.x.w == a.w && (d.nw == 0 || s.fits(d.x, d.nw)) {
			return m.divide(OURem, d.x, b)
		}
	}
	n := uint64(hi)
	if b.k > n {
		n = b.k
	}
	nw := uint8(bits.Len64(n))
	if nw < 4 {
		nw = 4
	}
	if nw+8 > a.w {
		return s.Div(op, a, b)
	}
	r := s.ZExt(s.div(op, s.Extract(a, 0, nw), s.Const(b.k, nw)), a.w)
	if r.op == OZExt && r.a.op == op {
		if op == OUDiv {
			s.quo[r] = divInfo{a, b.k, nw}
		} else {
			s.rem[r] = divInfo{a, b.k, nw}
		}
	}
	return r
}

func (m *M) lrange(ts []linTerm, w uint8) (int64, int64, bool) {
	var lo, hi int64
	for _, t := range ts {
		l, h, ok := m.irange(t.e)
		if !ok {
			return 0, 0, false
		}
		c := sext(t.c&mask(w), w)
		a, o1 := mulOvf(c, l)
		b, o2 := mulOvf(c, h)
		if o1 || o2 {
			return 0, 0, false
		}
		if a > b {
			a, b = b, a
		}
		var o3, o4 bool
		lo, o3 = addOvf(lo, a)
		hi, o4 = addOvf(hi, b)
		if o3 || o4 {
			return 0, 0, false
		}
	}
	return lo, hi, true
}

func mulOvf(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, false
	}
	c := a * b
	if c/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		return 0, true
	}
	if c > 1<<62 || c < -(1<<62) {
		return 0, true
	}
	return c, false
}
func addOvf(a, b int64) (int64, bool) {
	c := a + b
	if (c > a) != (b > 0) && b != 0 {
		return 0, true
	}
	if c > 1<<62 || c < -(1<<62) {
		return 0, true
	}
	return c, false
}

// irange gives a signed range of e (as a signed w-bit integer without
// wrap-around in its linear form) using byte domains; ok=false when unknown.
func (m *M) irange(e *Expr) (int64, int64, bool) {
	switch e.op {
	case OConst:
		v := sext(e.k, e.w)
		return v, v, true
	case OBox:
		return int64(e.b.k), int64(e.c.k), true
	case OVar:
		if e.w == 8 {
			d := m.domOf(e)
			if d != nil {
				lo, hi := 256, -1
				for i := 0; i < 256; i++ {
					if d[i>>6]>>(uint(i)&63)&1 == 1 {
						if i < lo {
							lo = i
						}
						hi = i
					}
				}
				if hi >= 128 {
					// as an 8-bit signed quantity it wraps; callers see it through zext
					return 0, 0, false
				}
				return int64(lo), int64(hi), true
			}
		}
		return 0, 0, false
	case OZExt:
		if e.a.op == OVar && e.a.w == 8 {
			d := m.domOf(e.a)
			if d == nil {
				return 0, 255, true
			}
			lo, hi := int64(256), int64(-1)
			for i := int64(0); i < 256; i++ {
				if d[i>>6]>>(uint(i)&63)&1 == 1 {
					if i < lo {
						lo = i
					}
					hi = i
				}
			}
			return lo, hi, hi >= 0
		}
		if e.a.v != nil && e.a.v.w == 8 {
			return m.byteRange(e.a, false)
		}
		l, h, ok := m.irange(e.a)
		if ok && l >= 0 {
			return l, h, true
		}
		u := umax(e)
		if u < 1<<62 {
			return 0, int64(u), true
		}
		return 0, 0, false
	case OSExt:
		if e.a.v != nil && e.a.v.w == 8 {
			return m.byteRange(e.a, true)
		}
		return m.irange(e.a)
	case OAdd, OMul:
		var l lin
		if !m.st.toLin(e, 1, &l) {
			return 0, 0, false
		}
		if len(l.terms) == 1 && l.terms[0].e == e {
			break
		}
		lo, hi, ok := m.lrange(l.terms, e.w)
		if !ok {
			break
		}
		k := sext(l.k&mask(e.w), e.w)
		lo, o1 := addOvf(lo, k)
		hi, o2 := addOvf(hi, k)
		if o1 || o2 {
			break
		}
		if e.w < 64 {
			top := int64(1) << (e.w - 1)
			if lo < -top || hi >= top {
				break
			}
		}
		return lo, hi, true
	case OUDiv:
		if e.b.isConst() {
			l, h, ok := m.irange(e.a)
			if ok && l >= 0 && e.b.k > 0 && e.b.k < 1<<62 {
				return l / int64(e.b.k), h / int64(e.b.k), true
			}
		}
	case OURem:
		if e.b.isConst() && e.b.k > 0 && e.b.k < 1<<62 {
			return 0, int64(e.b.k) - 1, true
		}
	case OIte:
		l1, h1, ok1 := m.irange(e.b)
		l2, h2, ok2 := m.irange(e.c)
		if ok1 && ok2 {
			if l2 < l1 {
				l1 = l2
			}
			if h2 > h1 {
				h1 = h2
			}
			return l1, h1, true
		}
	}
	if e.v != nil && e.v.w == 8 {
		return m.byteRange(e, true)
	}
	if u := umax(e); u < uint64(1)<<(e.w-1) && u < 1<<62 {
		return 0, int64(u), true
	}
	return 0, 0, false
}

// byteRange evaluates a term of one byte variable over the variable's domain.
func (m *M) byteRange(e *Expr, signed bool) (int64, int64, bool) {
	d := m.domOf(e.v)
	lo, hi := int64(math.MaxInt64), int64(math.MinInt64)
	mod := make([]uint64, e.v.vid+1)
	for i := uint64(0); i < 256; i++ {
		if d != nil && d[i>>6]>>(i&63)&1 == 0 {
			continue
		}
		mod[e.v.vid] = i
		u := m.st.Eval(e, mod)
		var v int64
		if signed {
			v = sext(u, e.w)
		} else {
			v = int64(u)
		}
		if v < lo {
			lo = v
		}
		if v > hi {
			hi = v
		}
	}
	return lo, hi, lo <= hi && lo > -(1<<62) && hi < 1<<62
}

func (m *M) strLess(x, y []*Expr) *Expr {
	// lexicographic, built from the end
	s := m.st
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := s.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = s.Or(s.Ult(x[i], y[i]), s.And(s.Eq(x[i], y[i]), r))
	}
	return r
}

func (m *M) strEq(x, y V) *Expr {
	if a, ok := concStr(x); ok {
		if b, ok := concStr(y); ok {
			return m.st.Bool(a == b)
		}
	}
	if strLen(x) != strLen(y) {
		return m.st.F
	}
	xs, ys := m.st.strExprs(x), m.st.strExprs(y)
	r := m.st.T
	for i := range xs {
		r = m.st.And(r, m.st.Eq(xs[i], ys[i]))
		if r == m.st.F {
			return r
		}
	}
	return r
}

func (m *M) eqTyped(t, t2 *RT, x, y V) *Expr {
	// comparison of an interface with a concrete operand does not occur in
	// SSA (operands have been converted), but nil constants do
	if t.kind == reflect.Interface || (t2 != nil && t2.kind == reflect.Interface) {
		return m.ifaceEq(x, y)
	}
	return m.eq(t, x, y)
}

func (m *M) ifaceEq(x, y V) *Expr {
	a, _ := x.x.(*Iface)
	b, _ := y.x.(*Iface)
	if a == nil || b == nil {
		return m.st.Bool(a == nil && b == nil)
	}
	if a.t != b.t {
		return m.st.F
	}
	switch a.t.kind {
	case reflect.Slice, reflect.Map, reflect.Func:
		m.rtPanic("comparing uncomparable type " + a.t.String())
	}
	return m.eq(a.t, a.v, b.v)
}

func (m *M) eq(t *RT, x, y V) *Expr {
	s := m.st
	switch t.kind {
	case reflect.Bool:
		return s.Eq(m.exb(x), m.exb(y))
	case reflect.String:
		return m.strEq(x, y)
	case reflect.Interface:
		return m.ifaceEq(x, y)
	case reflect.Struct:
		a, b := x.x.(*Agg), y.x.(*Agg)
		r := s.T
		st := t.u
		_ = st
		for i, f := range t.fields {
			r = s.And(r, m.eq(f, a.e[i], b.e[i]))
			if r == s.F {
				break
			}
		}
		return r
	case reflect.Array:
		a, b := x.x.(*Agg), y.x.(*Agg)
		r := s.T
		for i := range a.e {
			r = s.And(r, m.eq(t.elem, a.e[i], b.e[i]))
			if r == s.F {
				break
			}
		}
		return r
	case reflect.Slice, reflect.Map, reflect.Func, reflect.Chan:
		// only against nil (or chan identity)
		if x.x == nil || y.x == nil {
			return s.Bool(x.x == nil && y.x == nil)
		}
		return s.Bool(x.x == y.x)
	case reflect.Pointer, reflect.UnsafePointer:
		if a, ok := x.x.(*DataPtr); ok {
			if b, ok := y.x.(*DataPtr); ok {
				if len(a.e) == 0 || len(b.e) == 0 {
					return s.Bool(len(a.e) == len(b.e))
				}
				return s.Bool(&a.e[0] == &b.e[0])
			}
			return s.F
		}
		return s.Bool(x.x == y.x && x.n == y.n)
	}
	if t.isInt() {
		if x.x == nil && y.x == nil {
			return s.Bool(x.n == y.n)
		}
		if _, ok := x.x.(*Expr); !ok && x.x != nil {
			return s.Bool(x.x == y.x)
		}
		return s.Eq(m.ex(x, t.w), m.ex(y, t.w))
	}
	if t.kind == reflect.Float64 {
		return s.Bool(math.Float64frombits(m.concN(x)) == math.Float64frombits(m.concN(y)))
	}
	if t.kind == reflect.Float32 {
		return s.Bool(math.Float32frombits(uint32(m.concN(x))) == math.Float32frombits(uint32(m.concN(y))))
	}
	if t.kind == reflect.Complex128 || t.kind == reflect.Complex64 {
		return s.Bool(x.x == y.x)
	}
	panic(unsupported{"eq on " + t.String()})
}

func (m *M) convert(from, to *RT, v V) V {
	if m.conc != nil {
		if sl, ok := v.x.(*Slice); ok && to.kind == reflect.String {
			m.readAll(sl.e)
		}
	}
	switch {
	case to.isInt():
		switch {
		case from.isInt():
			if v.x == nil {
				if from.signed {
					return V{n: uint64(sext(v.n, from.w)) & mask(to.w)}
				}
				return V{n: v.n & mask(to.w)}
			}
			e, ok := v.x.(*Expr)
			if !ok {
				return v // pointer bits carried through uintptr
			}
			return m.intConv(e, from, to).val()
		case from.isFloat():
			f := math.Float64frombits(m.concN(v))
			if from.kind == reflect.Float32 {
				f = float64(math.Float32frombits(uint32(m.concN(v))))
			}
			if to.signed {
				return V{n: uint64(int64(f)) & mask(to.w)}
			}
			return V{n: uint64(f) & mask(to.w)}
		case from.kind == reflect.UnsafePointer:
			return v
		}
	case to.isFloat():
		var f float64
		switch {
		case from.isInt():
			n := m.concN(v)
			if from.signed {
				f = float64(sext(n, from.w))
			} else {
				f = float64(n)
			}
		case from.kind == reflect.Float32:
			f = float64(math.Float32frombits(uint32(m.concN(v))))
		default:
			f = math.Float64frombits(m.concN(v))
		}
		if to.kind == reflect.Float32 {
			return V{n: uint64(math.Float32bits(float32(f)))}
		}
		return V{n: math.Float64bits(f)}
	case to.kind == reflect.String:
		switch {
		case from.kind == reflect.String:
			return v
		case from.isInt():
			if v.x == nil {
				r := rune(sext(v.n, from.w))
				if from.w == 64 && (int64(v.n) > 0x10ffff || int64(v.n) < 0) {
					r = 0xfffd
				}
				return mkStr(string(r))
			}
			return cellsToStr(m.st, m.encodeRune(m.intConv(v.x.(*Expr), from, rtInt32)))
		case from.kind == reflect.Slice:
			sl, _ := v.x.(*Slice)
			if sl == nil {
				return V{}
			}
			if from.elem.w == 8 {
				return cellsToStr(m.st, sl.e)
			}
			var out []V
			for _, c := range sl.e {
				if c.x == nil {
					for _, b := range []byte(string(rune(int32(c.n)))) {
						out = append(out, V{n: uint64(b)})
					}
				} else {
					out = append(out, m.encodeRune(c.x.(*Expr))...)
				}
			}
			return cellsToStr(m.st, out)
		}
	case to.kind == reflect.Slice:
		if from.kind == reflect.String {
			if to.elem.w == 8 {
				return V{x: &Slice{strCells(v)}}
			}
			var out []V
			for p := 0; p < strLen(v); {
				r, n := m.decodeRune(v, p)
				out = append(out, r)
				p += n
			}
			return V{x: &Slice{out}}
		}
		return v
	case to.kind == reflect.UnsafePointer, to.kind == reflect.Pointer:
		if from.isInt() && v.x == nil && v.n == 0 {
			return V{}
		}
		return v
	case to.kind == from.kind:
		return v
	}
	if to.kind == reflect.Complex128 || to.kind == reflect.Complex64 {
		return v
	}
	panic(unsupported{fmt.Sprintf("convert %v to %v", from, to)})
}

var rtInt32 *RT

func (m *M) intConv(e *Expr, from, to *RT) *Expr {
	switch {
	case to.w == from.w:
		return e
	case to.w < from.w:
		return m.st.Extract(e, 0, to.w)
	case from.signed:
		return m.st.SExt(e, to.w)
	}
	return m.st.ZExt(e, to.w)
}

// decodeRune implements the language's UTF-8 decoding at byte position p.
func (m *M) decodeRune(s V, p int) (V, int) {
	n := strLen(s)
	conc := true
	end := p + 4
	if end > n {
		end = n
	}
	var bs []V
	for i := p; i < end; i++ {
		c := strAt(s, i)
		bs = append(bs, c)
		if c.x != nil {
			conc = false
		}
		if i == p && c.x == nil && c.n < 0x80 {
			return c, 1
		}
	}
	if conc {
		b := make([]byte, len(bs))
		for i := range bs {
			b[i] = byte(bs[i].n)
		}
		for i, r := range string(b) {
			if i == 0 {
				sz := len(string(r))
				if r == 0xfffd && !(len(b) >= 3 && b[0] == 0xef && b[1] == 0xbf && b[2] == 0xbd) {
					sz = 1
				}
				return V{n: uint64(uint32(r))}, sz
			}
		}
	}
	st := m.st
	b0 := m.ex(bs[0], 8)
	c8 := func(k uint64) *Expr { return st.Const(k, 8) }
	if m.decide(st.Ult(b0, c8(0x80))) {
		return st.ZExt(b0, 32).val(), 1
	}
	bad := V{n: 0xfffd}
	inr := func(e *Expr, lo, hi uint64) *Expr { return st.And(st.Ule(c8(lo), e), st.Ule(e, c8(hi))) }
	need := 0
	lo, hi := uint64(0x80), uint64(0xbf)
	switch {
	case m.decide(inr(b0, 0xc2, 0xdf)):
		need = 1
	case m.decide(inr(b0, 0xe0, 0xef)):
		need = 2
		if m.decide(st.Eq(b0, c8(0xe0))) {
			lo = 0xa0
		} else if m.decide(st.Eq(b0, c8(0xed))) {
			hi = 0x9f
		}
	case m.decide(inr(b0, 0xf0, 0xf4)):
		need = 3
		if m.decide(st.Eq(b0, c8(0xf0))) {
			lo = 0x90
		} else if m.decide(st.Eq(b0, c8(0xf4))) {
			hi = 0x8f
		}
	default:
		return bad, 1
	}
	if len(bs) < need+1 {
		return bad, 1
	}
	w := func(e *Expr, mk uint64) *Expr { return st.ZExt(st.BitAnd(e, c8(mk)), 32) }
	sh := func(e *Expr, n uint64) *Expr { return st.Shift(OShl, e, st.Const(n, 32)) }
	for i := 1; i <= need; i++ {
		b := m.ex(bs[i], 8)
		l, h := uint64(0x80), uint64(0xbf)
		if i == 1 {
			l, h = lo, hi
		}
		if !m.decide(inr(b, l, h)) {
			return bad, 1
		}
	}
	var r *Expr
	switch need {
	case 1:
		r = sh(w(b0, 0x1f), 6)
	case 2:
		r = sh(w(b0, 0x0f), 12)
	default:
		r = sh(w(b0, 0x07), 18)
	}
	for i := 1; i <= need; i++ {
		r = st.Add(r, sh(w(m.ex(bs[i], 8), 0x3f), uint64(6*(need-i))))
	}
	return r.val(), need + 1
}

func (m *M) encodeRune(r *Expr) []V {
	st := m.st
	c := func(k uint64) *Expr { return st.Const(k, 32) }
	b := func(e *Expr, add uint64) V {
		return st.Extract(st.Add(e, c(add)), 0, 8).val()
	}
	sh := func(n uint64) *Expr { return st.Shift(OLShr, r, c(n)) }
	lowm := func(e *Expr) *Expr { return st.BitAnd(e, c(0x3f)) }
	switch {
	case m.decide(st.Ult(r, c(0x80))):
		return []V{b(r, 0)}
	case m.decide(st.Ult(r, c(0x800))):
		return []V{b(sh(6), 0xc0), b(lowm(r), 0x80)}
	case m.decide(st.Or(st.Ult(c(0x10ffff), r), st.And(st.Ule(c(0xd800), r), st.Ule(r, c(0xdfff))))):
		return []V{{n: 0xef}, {n: 0xbf}, {n: 0xbd}}
	case m.decide(st.Ult(r, c(0x10000))):
		return []V{b(sh(12), 0xe0), b(lowm(sh(6)), 0x80), b(lowm(r), 0x80)}
	}
	return []V{b(sh(18), 0xf0), b(lowm(sh(12)), 0x80), b(lowm(sh(6)), 0x80), b(lowm(r), 0x80)}
}

// ---- maps ----

func (m *M) mapFind(mp *Map, k V) *MapEnt {
	if mp == nil {
		return nil
	}
	if m.conc != nil {
		m.touched(mp, false)
	}
	key, conc := mapKey(k)
	if conc {
		if i, ok := mp.idx[key]; ok && !mp.ents[i].dead {
			return mp.ents[i]
		}
		if mp.syms == 0 {
			return nil
		}
	}
	for _, e := range mp.ents {
		if e.dead || (conc && !e.sym) {
			continue
		}
		if m.decide(m.eq(mp.rt.key, e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *M) mapSet(mp *Map, k, v V) {
	if i, ok := k.x.(*Iface); ok {
		switch i.t.kind {
		case reflect.Slice, reflect.Map, reflect.Func:
			m.rtPanic("hash of unhashable type " + i.t.String())
		}
	}
	if m.conc != nil {
		m.wroteMap(mp, k, v)
	}
	e := m.mapFind(mp, k)
	if e != nil {
		m.set(&e.cell, copyV(v))
		return
	}
	key, conc := mapKey(k)
	e = &MapEnt{k: k, cell: copyV(v), sym: !conc}
	n := len(mp.ents)
	mp.ents = append(mp.ents, e)
	if conc {
		old, had := mp.idx[key]
		mp.idx[key] = n
		m.undoable(func() {
			mp.ents = mp.ents[:n]
			mp.live--
			if had {
				mp.idx[key] = old
			} else {
				delete(mp.idx, key)
			}
		})
	} else {
		mp.syms++
		m.undoable(func() { mp.ents = mp.ents[:n]; mp.live--; mp.syms-- })
	}
	mp.live++
}

func (m *M) mapDelete(mp *Map, k V) {
	if m.conc != nil {
		m.touched(mp, true)
	}
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	e.dead = true
	mp.live--
	if e.sym {
		mp.syms--
	}
	m.undoable(func() {
		e.dead = false
		mp.live++
		if e.sym {
			mp.syms++
		}
	})
}

func (m *M) lookup(in *Instr, x, k V) V {
	mp, _ := x.x.(*Map)
	e := m.mapFind(mp, k)
	var v V
	ok := false
	if e != nil {
		v, ok = copyV(e.cell), true
	} else {
		v = zero(in.t.elem)
	}
	if in.commaOk {
		return V{x: &Agg{[]V{v, {n: b2u(ok)}}}}
	}
	return v
}

// ---- builtins ----

func (m *M) builtin(in *Instr, name string, args []V) V {
	switch name {
	case "Sizeof":
		return V{n: uint64(types.SizesFor("gc", "amd64").Sizeof(in.rts[0].t))}
	case "Alignof":
		return V{n: uint64(types.SizesFor("gc", "amd64").Alignof(in.rts[0].t))}
	case "len":
		switch x := args[0].x.(type) {
		case nil:
			if in.rts[0].kind == reflect.Pointer {
				return V{n: uint64(in.rts[0].elem.n)}
			}
			return V{}
		case string:
			return V{n: uint64(len(x))}
		case *SStr:
			return V{n: uint64(len(x.b))}
		case *Slice:
			return V{n: uint64(len(x.e))}
		case *Map:
			return V{n: uint64(x.live)}
		case *Agg:
			return V{n: uint64(len(x.e))}
		case *V:
			return V{n: uint64(len(x.x.(*Agg).e))}
		case *Chan:
			return V{n: uint64(len(x.buf))}
		}
	case "cap":
		switch x := args[0].x.(type) {
		case nil:
			return V{}
		case *Slice:
			return V{n: uint64(cap(x.e))}
		case *Agg:
			return V{n: uint64(len(x.e))}
		case *V:
			return V{n: uint64(len(x.x.(*Agg).e))}
		case *Chan:
			return V{n: uint64(x.cap)}
		}
	case "append":
		var src []V
		switch x := args[1].x.(type) {
		case nil:
		case *Slice:
			src = x.e
		case string, *SStr:
			src = strCells(args[1])
		default:
			panic(unsupported{fmt.Sprintf("append of %T", x)})
		}
		dst, _ := args[0].x.(*Slice)
		if len(src) == 0 {
			return args[0]
		}
		if dst == nil {
			dst = &Slice{}
		}
		return V{x: m.appendV(dst, src, in.rts[0].elem)}
	case "copy":
		dst, _ := args[0].x.(*Slice)
		if dst == nil {
			return V{}
		}
		var src []V
		switch x := args[1].x.(type) {
		case nil:
			return V{}
		case *Slice:
			src = x.e
		default:
			src = strCells(args[1])
		}
		n := len(dst.e)
		if len(src) < n {
			n = len(src)
		}
		m.copyCells(dst.e[:n], src[:n])
		return V{n: uint64(n)}
	case "delete":
		mp, _ := args[0].x.(*Map)
		if mp != nil {
			m.mapDelete(mp, args[1])
		}
		return V{}
	case "clear":
		switch x := args[0].x.(type) {
		case *Map:
			for _, e := range x.ents {
				if !e.dead {
					e := e
					e.dead = true
					x.live--
					if e.sym {
						x.syms--
					}
					m.undoable(func() {
						e.dead = false
						x.live++
						if e.sym {
							x.syms++
						}
					})
				}
			}
		case *Slice:
			for i := range x.e {
				m.store(&x.e[i], zero(in.rts[0].elem))
			}
		}
		return V{}
	case "min", "max":
		r := args[0]
		t := in.rts[0]
		for _, y := range args[1:] {
			tok := token.LSS
			if name == "max" {
				tok = token.GTR
			}
			c := m.binop(&Instr{tok: tok, t: t, aux: t}, y, r)
			if c.x == nil {
				if c.n != 0 {
					r = y
				}
			} else if t.isInt() {
				r = m.st.Ite(c.x.(*Expr), m.ex(y, t.w), m.ex(r, t.w)).val()
			} else if m.decide(c.x.(*Expr)) {
				r = y
			}
		}
		return r
	case "recover":
		f := m.fr
		if f.defOf && f.parent != nil && f.parent.mode == 1 && !f.parent.recov {
			m.touch(f.parent)
			f.parent.recov = true
			return f.parent.pan
		}
		return V{}
	case "panic":
		panic(goPanic{args[0]})
	case "print", "println":
		return V{}
	case "close":
		m.chanClose(args[0])
		return V{}
	case "ssa:wrapnilchk":
		if args[0].x == nil {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "SliceData":
		s, _ := args[0].x.(*Slice)
		if s == nil {
			return V{}
		}
		return V{x: &DataPtr{s.e[:cap(s.e)]}}
	case "StringData":
		if args[0].x == nil {
			return V{}
		}
		return V{x: &DataPtr{strCells(args[0])}}
	case "String":
		n := m.intOf(args[1], rtInt)
		switch p := args[0].x.(type) {
		case nil:
			return V{}
		case *DataPtr:
			return cellsToStr(m.st, p.e[:n])
		case *V:
			if n == 0 {
				return V{}
			}
			if n == 1 {
				return cellsToStr(m.st, []V{*p})
			}
		}
	case "Slice":
		n := m.intOf(args[1], rtInt)
		switch p := args[0].x.(type) {
		case nil:
			return V{}
		case *DataPtr:
			return V{x: &Slice{p.e[:n:n]}}
		}
	case "real":
		return V{n: math.Float64bits(real(args[0].x.(complex128)))}
	case "imag":
		return V{n: math.Float64bits(imag(args[0].x.(complex128)))}
	}
	panic(unsupported{fmt.Sprintf("builtin %s on %T", name, args[0].x)})
}

func (m *M) appendV(dst *Slice, src []V, et *RT) *Slice {
	n := len(dst.e)
	agg := et.kind == reflect.Struct || et.kind == reflect.Array
	if m.conc != nil {
		m.readAll(src)
	}
	if n+len(src) <= cap(dst.e) {
		e := dst.e[:n+len(src)]
		if agg {
			tmp := make([]V, len(src))
			for i := range src {
				tmp[i] = copyV(src[i])
			}
			for i := range src {
				m.store(&e[n+i], tmp[i])
			}
		} else {
			m.copyCells(e[n:], src)
		}
		return &Slice{e}
	}
	c := 2 * cap(dst.e)
	if c < n+len(src) {
		c = n + len(src)
	}
	if c < 8 && !agg {
		c = 8
	}
	e := make([]V, c)
	copy(e, dst.e)
	for i := range src {
		if agg {
			e[n+i] = copyV(src[i])
		} else {
			e[n+i] = src[i]
		}
	}
	if agg {
		// the new backing array must not share aggregates with the old one
		for i := 0; i < n; i++ {
			e[i] = copyV(e[i])
		}
		for i := n + len(src); i < c; i++ {
			e[i] = zero(et)
		}
	}
	return &Slice{e[:n+len(src)]}
}

func (m *M) copyCells(dst, src []V) {
	if len(dst) == 0 {
		return
	}
	if m.conc != nil {
		m.readAll(src[:len(dst)])
	}
	if _, ok := src[0].x.(*Agg); ok {
		tmp := make([]V, len(src))
		for i := range src {
			tmp[i] = copyV(src[i])
		}
		for i := range tmp {
			m.store(&dst[i], tmp[i])
		}
		return
	}
	if m.jOn {
		old := append([]V(nil), dst...)
		m.jrn = append(m.jrn, jent{f: func() { copy(dst, old) }})
	}
	if m.conc != nil {
		for i := range dst {
			m.wrote(&dst[i], src[i])
		}
	}
	copy(dst, src)
}

// showV renders a value for reports and traces.
func (m *M) showV(v V) string {
	switch x := v.x.(type) {
	case nil:
		return fmt.Sprint(v.n)
	case string:
		return fmt.Sprintf("%q", x)
	case *SStr:
		var b []byte
		for _, e := range x.b {
			b = append(b, byte(m.evalE(e)))
		}
		return fmt.Sprintf("%q", string(b))
	case *Expr:
		return fmt.Sprint(m.evalE(x))
	case *Slice:
		var sb strings.Builder
		sb.WriteByte('[')
		for i, e := range x.e {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(m.showV(e))
		}
		sb.WriteByte(']')
		return sb.String()
	case *Iface:
		return m.showV(x.v)
	}
	return fmt.Sprintf("%T", v.x)
}

// cmpLin rewrites a<b as a comparison of a canonical linear form with a
// constant when neither side nor the difference can wrap.
func (m *M) cmpLin(a, b *Expr, signed bool) *Expr {
	s := m.st
	w := a.w
	la, _, ok := m.irange(a)
	if !ok {
		return nil
	}
	lb, _, ok := m.irange(b)
	if !ok || (!signed && (la < 0 || lb < 0)) {
		return nil
	}
	var l lin
	if !s.toLin(a, 1, &l) || !s.toLin(b, ^uint64(0), &l) {
		return nil
	}
	var ts []linTerm
	g := int64(0)
	for _, t := range l.terms {
		c := sext(t.c&mask(w), w)
		if c == 0 {
			continue
		}
		if c == math.MinInt64 {
			return nil
		}
		ts = append(ts, linTerm{t.e, uint64(c)})
		if c < 0 {
			c = -c
		}
		for x := c; x != 0; {
			g, x = x, g%x
		}
	}
	k := sext(l.k&mask(w), w)
	if len(ts) == 0 {
		return s.Bool(k < 0)
	}
	// the constant part of the difference must be exact as well
	ka, okA := linConst(s, a)
	kb, okB := linConst(s, b)
	if !okA || !okB {
		return nil
	}
	if d := ka - kb; d != k || (ka < 0) != (kb < 0) && (d < 0) != (ka < 0) {
		return nil
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].e.id < ts[j].e.id })
	neg := int64(ts[0].c) < 0
	for i := range ts {
		c := int64(ts[i].c) / g
		if neg {
			c = -c
		}
		ts[i].c = uint64(c)
	}
	// c = ceil(-k/g): t < c
	if k == math.MinInt64 {
		return nil
	}
	c := -k / g
	if -k%g > 0 {
		c++
	}
	if neg { // -t' < c  <=>  !(t' < 1-c)
		c = 1 - c
	}
	lo, hi, ok := m.lrange(ts, w)
	if !ok {
		return nil
	}
	var r *Expr
	switch {
	case hi < c:
		r = s.T
	case lo >= c:
		r = s.F
	default:
		nw := w
		if lo > -(1<<14) && hi < 1<<14 {
			nw = 16
		} else if lo > -(1<<30) && hi < 1<<30 {
			nw = 32
		}
		if nw > w {
			nw = w
		}
		if w < 64 && (lo < -(int64(1)<<(w-1)) || hi >= int64(1)<<(w-1)) {
			return nil
		}
		t := s.Extract(s.fromLin(&lin{ts, 0}, w), 0, nw)
		cc := s.Const(uint64(c), nw)
		if t.isConst() {
			r = s.Bool(sext(t.k, nw) < c)
		} else if lo >= 0 {
			r = s.mk(Expr{op: OUlt, a: t, b: cc})
		} else {
			r = s.mk(Expr{op: OSlt, a: t, b: cc})
		}
	}
	if neg {
		return s.Not(r)
	}
	return r
}

func linConst(s *Store, a *Expr) (int64, bool) {
	var l lin
	if !s.toLin(a, 1, &l) {
		return 0, false
	}
	return sext(l.k&mask(a.w), a.w), true
}
