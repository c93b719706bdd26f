package main

// Hash-consed bit-vector / boolean terms with a local simplifier, an
// evaluator, byte-variable truth tables and an SMT-LIB2 printer.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool
	OAnd // bool
	OOr  // bool
	OEq  // bool result
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OShl
	OLShr
	OAShr
	OBAnd
	OBOr
	OBXor
	OBNot
	OExtract // k = lo bit, w = width
	OZExt
	OSExt
	OIte
	OTab // table k at index a
	OBox // a, known to lie in [b,c] (unsigned constants); an atom of linear forms
)

// Expr is a term. w==0 means boolean, otherwise a bit-vector of width w.
type Expr struct {
	op      Op
	w       uint8
	multi   bool  // depends on more than one variable
	id      int32 // unique within a Store
	k       uint64
	a, b, c *Expr
	v       *Expr      // the only variable, when !multi and not constant
	tt      *[4]uint64 // truth table over the single byte variable (boolean terms)
	name    string     // variables
	vid     int32      // variable index
	tabv    []uint64
}

type ekey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c int32
}

type Store struct {
	tab    map[ekey]*Expr
	n      int32
	consts [65][]*Expr // small constant cache per width (<=256)
	T, F   *Expr
	vars   []*Expr
	byName map[string]*Expr
	// evaluation memo
	memo    []uint64
	memoGen []uint32
	gen     uint32
	tabs    [][]uint64
	tabIdx  map[uint64][]int
	// quotients and remainders by constants: result -> dividend, divisor
	quo, rem map[*Expr]divInfo
	divide   func(op Op, a, b *Expr) *Expr // range-aware division (set by the machine)
	fits     func(e *Expr, bits uint8) bool
	cmpLin   func(a, b *Expr, signed bool) *Expr // a<b over range-checked linear forms, or nil
}

type divInfo struct {
	x  *Expr
	c  uint64
	nw uint8 // valid when x fits this many bits (0: always)
}

func (s *Store) mkDiv(op Op, a, b *Expr) *Expr {
	if s.divide != nil {
		return s.divide(op, a, b)
	}
	return s.Div(op, a, b)
}

func NewStore() *Store {
	s := &Store{tab: map[ekey]*Expr{}, byName: map[string]*Expr{}, quo: map[*Expr]divInfo{}, rem: map[*Expr]divInfo{}}
	s.T = s.mk(Expr{op: OConst, w: 0, k: 1})
	s.F = s.mk(Expr{op: OConst, w: 0, k: 0})
	return s
}

func eid(e *Expr) int32 {
	if e == nil {
		return -1
	}
	return e.id
}

func (s *Store) mk(e Expr) *Expr {
	key := ekey{e.op, e.w, e.k, eid(e.a), eid(e.b), eid(e.c)}
	if x, ok := s.tab[key]; ok {
		return x
	}
	e.id = s.n
	s.n++
	for _, y := range [3]*Expr{e.a, e.b, e.c} {
		if y == nil {
			continue
		}
		if y.multi {
			e.multi = true
		} else if y.v != nil {
			if e.v == nil {
				e.v = y.v
			} else if e.v != y.v {
				e.multi = true
			}
		}
	}
	if e.multi {
		e.v = nil
	}
	p := new(Expr)
	*p = e
	s.tab[key] = p
	return p
}

func (s *Store) NewVar(name string, w uint8) *Expr {
	if x, ok := s.byName[name]; ok && x.w == w {
		return x
	}
	e := &Expr{op: OVar, w: w, id: s.n, name: name, vid: int32(len(s.vars))}
	s.n++
	e.v = e
	s.vars = append(s.vars, e)
	s.byName[name] = e
	return e
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (s *Store) Const(v uint64, w uint8) *Expr {
	v &= mask(w)
	if v < 256 {
		c := s.consts[w]
		if c == nil {
			c = make([]*Expr, 256)
			s.consts[w] = c
		}
		if c[v] == nil {
			c[v] = s.mk(Expr{op: OConst, w: w, k: v})
		}
		return c[v]
	}
	return s.mk(Expr{op: OConst, w: w, k: v})
}

func (s *Store) Bool(b bool) *Expr {
	if b {
		return s.T
	}
	return s.F
}

func (e *Expr) isConst() bool { return e.op == OConst }

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (s *Store) Not(a *Expr) *Expr {
	if a.isConst() {
		return s.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return s.mk(Expr{op: ONot, a: a})
}

func (s *Store) And(a, b *Expr) *Expr {
	if a == b {
		return a
	}
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return s.F
	}
	return s.mk(Expr{op: OAnd, a: a, b: b})
}

func (s *Store) Or(a, b *Expr) *Expr {
	if a == b {
		return a
	}
	if a.isConst() {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 1 {
			return b
		}
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return s.T
	}
	return s.mk(Expr{op: OOr, a: a, b: b})
}

func (s *Store) Ite(c, a, b *Expr) *Expr {
	if a == b {
		return a
	}
	if c.isConst() {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a.w == 0 {
		return s.Or(s.And(c, a), s.And(s.Not(c), b))
	}
	if c.op == ONot {
		return s.Ite(c.a, b, a)
	}
	return s.mk(Expr{op: OIte, w: a.w, a: c, b: a, c: b})
}

func (s *Store) Eq(a, b *Expr) *Expr {
	if a == b {
		return s.T
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 1 {
				return a
			}
			return s.Not(a)
		}
		return s.Or(s.And(a, b), s.And(s.Not(a), s.Not(b)))
	}
	if a.isConst() && b.isConst() {
		return s.Bool(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OZExt:
			if b.k > mask(a.a.w) {
				return s.F
			}
			return s.Eq(a.a, s.Const(b.k, a.a.w))
		case OSExt:
			t := b.k & mask(a.a.w)
			if uint64(sext(t, a.a.w))&mask(a.w) != b.k {
				return s.F
			}
			return s.Eq(a.a, s.Const(t, a.a.w))
		case OIte:
			// only when a branch is constant, to avoid blow-up
			if a.b.isConst() || a.c.isConst() {
				x, y := s.Eq(a.b, b), s.Eq(a.c, b)
				if x.isConst() || y.isConst() {
					return s.Or(s.And(a.a, x), s.And(s.Not(a.a), y))
				}
			}
		case OAdd:
			if a.b.isConst() {
				return s.Eq(a.a, s.Const(b.k-a.b.k, a.w))
			}
		case OBNot:
			return s.Eq(a.a, s.Const(^b.k, a.w))
		case OBXor:
			if a.b.isConst() {
				return s.Eq(a.a, s.Const(b.k^a.b.k, a.w))
			}
		}
	} else if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return s.Eq(a.a, b.a)
	} else if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
		return s.Eq(a.a, b.a)
	} else if a.op == OAdd || b.op == OAdd {
		// cancel common parts
		if a.id > b.id {
			a, b = b, a
		}
		d := s.Sub(a, b)
		if d.isConst() {
			return s.Bool(d.k == 0)
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return s.mk(Expr{op: OEq, a: a, b: b})
}

// umax gives a cheap upper bound on the unsigned value.
func umax(e *Expr) uint64 {
	switch e.op {
	case OConst:
		return e.k
	case OZExt:
		return umax(e.a)
	case OBAnd:
		m := umax(e.a)
		if n := umax(e.b); n < m {
			m = n
		}
		return m
	case OURem:
		if e.b.isConst() && e.b.k > 0 {
			return e.b.k - 1
		}
	case OUDiv:
		if e.b.isConst() && e.b.k > 0 {
			return umax(e.a) / e.b.k
		}
	case OLShr:
		if e.b.isConst() && e.b.k < 64 {
			return umax(e.a) >> e.b.k
		}
	case OIte:
		m := umax(e.b)
		if n := umax(e.c); n > m {
			m = n
		}
		return m
	case OTab:
		return e.c.k // bound kept in c
	case OAdd:
		x, y := umax(e.a), umax(e.b)
		if t := x + y; t >= x && t <= mask(e.w) {
			return t
		}
	case OMul:
		x, y := umax(e.a), umax(e.b)
		hi, lo := bits.Mul64(x, y)
		if hi == 0 && lo <= mask(e.w) {
			return lo
		}
	}
	return mask(e.w)
}

func (s *Store) Ult(a, b *Expr) *Expr {
	if a == b {
		return s.F
	}
	if a.isConst() && b.isConst() {
		return s.Bool(a.k < b.k)
	}
	if b.isConst() {
		if b.k == 0 {
			return s.F
		}
		if umax(a) < b.k {
			return s.T
		}
		if a.op == OZExt {
			return s.Ult(a.a, s.Const(b.k, a.a.w))
		}
		if b.k == 1 {
			return s.Eq(a, s.Const(0, a.w))
		}
	}
	if a.isConst() {
		if a.k >= umax(b) {
			return s.F
		}
		if b.op == OZExt {
			return s.Ult(s.Const(a.k, b.a.w), b.a)
		}
		if a.k == 0 {
			return s.Not(s.Eq(b, s.Const(0, b.w)))
		}
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return s.Ult(a.a, b.a)
	}
	if s.cmpLin != nil && (isLin(a) || isLin(b)) {
		if r := s.cmpLin(a, b, false); r != nil {
			return r
		}
	}
	return s.mk(Expr{op: OUlt, a: a, b: b})
}
func (s *Store) Ule(a, b *Expr) *Expr { return s.Not(s.Ult(b, a)) }

func (s *Store) Slt(a, b *Expr) *Expr {
	if a == b {
		return s.F
	}
	if a.isConst() && b.isConst() {
		return s.Bool(sext(a.k, a.w) < sext(b.k, b.w))
	}
	top := uint64(1) << (a.w - 1)
	if umax(a) < top && umax(b) < top {
		return s.Ult(a, b)
	}
	if umax(a) < top && b.isConst() { // b negative
		return s.F
	}
	if umax(b) < top && a.isConst() {
		return s.T
	}
	if a.op == OSExt && b.isConst() {
		t := b.k & mask(a.a.w)
		if uint64(sext(t, a.a.w))&mask(a.w) == b.k {
			return s.Slt(a.a, s.Const(t, a.a.w))
		}
		return s.Bool(sext(b.k, b.w) > 0)
	}
	if s.cmpLin != nil && (isLin(a) || isLin(b)) {
		if r := s.cmpLin(a, b, true); r != nil {
			return r
		}
	}
	return s.mk(Expr{op: OSlt, a: a, b: b})
}

func isLin(e *Expr) bool { return e.op == OAdd || e.op == OMul }

func (s *Store) Sle(a, b *Expr) *Expr { return s.Not(s.Slt(b, a)) }

// linear form: sum of coef*term + const
type lin struct {
	terms []linTerm
	k     uint64
}
type linTerm struct {
	e *Expr
	c uint64
}

const linMax = 24

func (s *Store) toLin(e *Expr, coef uint64, l *lin) bool {
	switch e.op {
	case OConst:
		l.k += e.k * coef
		return true
	case OAdd:
		return s.toLin(e.a, coef, l) && s.toLin(e.b, coef, l)
	case OMul:
		if e.b.isConst() {
			return s.toLin(e.a, coef*e.b.k, l)
		}
	}
	for i := range l.terms {
		if l.terms[i].e == e {
			l.terms[i].c += coef
			return true
		}
	}
	l.terms = append(l.terms, linTerm{e, coef})
	return len(l.terms) <= linMax
}

func (s *Store) fromLin(l *lin, w uint8) *Expr {
	m := mask(w)
	ts := l.terms[:0]
	for _, t := range l.terms {
		t.c &= m
		if t.c != 0 {
			ts = append(ts, t)
		}
	}
	// x - c*(x/c) is x%c
	for i, t := range ts {
		d, ok := s.quo[t.e]
		if !ok || d.x.w != w || (d.nw != 0 && !s.fits(d.x, d.nw)) {
			continue
		}
		k := sext(t.c, w)
		if d.c == 0 || d.c > 1<<40 || k%int64(d.c) != 0 {
			continue
		}
		f := uint64(-(k / int64(d.c)))
		var n lin
		n.k = l.k
		ok = true
		for j, u := range ts {
			if j != i {
				ok = ok && s.toLin(u.e, u.c, &n)
			}
		}
		if !ok || !s.toLin(d.x, -f, &n) {
			continue
		}
		live := 0
		for _, u := range n.terms {
			if u.c&m != 0 {
				live++
			}
		}
		if live >= len(ts)-1 && len(ts) > 1 {
			continue
		}
		if live > 0 && len(ts) == 1 {
			continue
		}
		if !s.toLin(s.mkDiv(OURem, d.x, s.Const(d.c, w)), f, &n) {
			continue
		}
		return s.fromLin(&n, w)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].e.id < ts[j].e.id })
	var r *Expr
	for _, t := range ts {
		x := t.e
		if t.c != 1 {
			x = s.mk(Expr{op: OMul, w: w, a: t.e, b: s.Const(t.c, w)})
		}
		if r == nil {
			r = x
		} else {
			r = s.mk(Expr{op: OAdd, w: w, a: r, b: x})
		}
	}
	k := l.k & m
	if r == nil {
		return s.Const(k, w)
	}
	if k != 0 {
		r = s.mk(Expr{op: OAdd, w: w, a: r, b: s.Const(k, w)})
	}
	return r
}

func (s *Store) addCoef(a *Expr, ca uint64, b *Expr, cb uint64) *Expr {
	var l lin
	if s.toLin(a, ca, &l) && s.toLin(b, cb, &l) {
		return s.fromLin(&l, a.w)
	}
	x, y := a, b
	if ca != 1 {
		x = s.mk(Expr{op: OMul, w: a.w, a: a, b: s.Const(ca, a.w)})
	}
	if cb != 1 {
		y = s.mk(Expr{op: OMul, w: a.w, a: b, b: s.Const(cb, a.w)})
	}
	return s.mk(Expr{op: OAdd, w: a.w, a: x, b: y})
}

func (s *Store) Add(a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return s.Const(a.k+b.k, a.w)
	}
	return s.addCoef(a, 1, b, 1)
}
func (s *Store) Sub(a, b *Expr) *Expr {
	if a == b {
		return s.Const(0, a.w)
	}
	if a.isConst() && b.isConst() {
		return s.Const(a.k-b.k, a.w)
	}
	return s.addCoef(a, 1, b, ^uint64(0))
}
func (s *Store) Neg(a *Expr) *Expr { return s.Sub(s.Const(0, a.w), a) }
func (s *Store) Mul(a, b *Expr) *Expr {
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		return s.Const(a.k*b.k, a.w)
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		if b.k == 1 {
			return a
		}
		return s.addCoef(a, b.k, s.Const(0, a.w), 1)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(Expr{op: OMul, w: a.w, a: a, b: b})
}

func foldDiv(op Op, x, y uint64, w uint8) uint64 {
	switch op {
	case OUDiv:
		return x / y
	case OURem:
		return x % y
	case OSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == -1 {
			return uint64(-sx)
		}
		return uint64(sx / sy)
	}
	sx, sy := sext(x, w), sext(y, w)
	if sy == -1 {
		return 0
	}
	return uint64(sx % sy)
}

func (s *Store) Div(op Op, a, b *Expr) *Expr {
	r := s.div(op, a, b)
	if b.isConst() && b.k > 1 && !r.isConst() && r != a {
		switch op {
		case OUDiv:
			if r.op == OUDiv || (r.op == OZExt && r.a.op == OUDiv) {
				s.quo[r] = divInfo{a, b.k, 0}
			}
		case OURem:
			if r.op == OURem || (r.op == OZExt && r.a.op == OURem) {
				s.rem[r] = divInfo{a, b.k, 0}
			}
		}
	}
	return r
}

func (s *Store) div(op Op, a, b *Expr) *Expr {
	if a.isConst() && b.isConst() && b.k != 0 {
		return s.Const(foldDiv(op, a.k, b.k, a.w), a.w)
	}
	if op == OSDiv || op == OSRem {
		top := uint64(1) << (a.w - 1)
		if umax(a) < top && umax(b) < top {
			if op == OSDiv {
				op = OUDiv
			} else {
				op = OURem
			}
		}
	}
	if b.isConst() && op == OURem {
		if d, ok := s.rem[a]; ok && d.c%b.k == 0 && d.x.w == a.w && (d.nw == 0 || s.fits(d.x, d.nw)) {
			return s.mkDiv(OURem, d.x, b)
		}
	}
	if b.isConst() {
		if b.k == 1 {
			if op == OUDiv || op == OSDiv {
				return a
			}
			return s.Const(0, a.w)
		}
		if op == OUDiv && umax(a) < b.k {
			return s.Const(0, a.w)
		}
		if op == OURem && umax(a) < b.k {
			return a
		}
		if (op == OUDiv || op == OURem) && b.k&(b.k-1) == 0 && b.k != 0 {
			n := uint64(bits.TrailingZeros64(b.k))
			if op == OUDiv {
				return s.Shift(OLShr, a, s.Const(n, a.w))
			}
			return s.BitAnd(a, s.Const(b.k-1, a.w))
		}
		// narrow the operation to the width actually needed
		if op == OUDiv || op == OURem {
			m := umax(a)
			if b.k > m {
				m = b.k
			}
			nw := uint8(bits.Len64(m))
			if nw < 4 {
				nw = 4
			}
			if nw+8 <= a.w {
				x := s.mk(Expr{op: op, w: nw, a: s.Extract(a, 0, nw), b: s.Const(b.k, nw)})
				return s.ZExt(x, a.w)
			}
		}
	}
	return s.mk(Expr{op: op, w: a.w, a: a, b: b})
}

func (s *Store) Shift(op Op, a, b *Expr) *Expr { // same widths
	if b.isConst() {
		n := b.k
		if n == 0 {
			return a
		}
		if a.isConst() {
			switch op {
			case OShl:
				if n >= uint64(a.w) {
					return s.Const(0, a.w)
				}
				return s.Const(a.k<<n, a.w)
			case OLShr:
				if n >= uint64(a.w) {
					return s.Const(0, a.w)
				}
				return s.Const(a.k>>n, a.w)
			case OAShr:
				if n >= uint64(a.w) {
					n = uint64(a.w) - 1
				}
				return s.Const(uint64(sext(a.k, a.w)>>n), a.w)
			}
		}
		if n >= uint64(a.w) {
			if op != OAShr {
				return s.Const(0, a.w)
			}
			b = s.Const(uint64(a.w)-1, a.w)
			n = uint64(a.w) - 1
		}
		if op == OShl {
			return s.Mul(a, s.Const(uint64(1)<<n, a.w))
		}
		if op == OLShr && umax(a)>>n == 0 {
			return s.Const(0, a.w)
		}
		if op == OAShr && umax(a) < uint64(1)<<(a.w-1) {
			op = OLShr
		}
		if op == OLShr {
			// narrow: zext(extract)
			return s.ZExt(s.Extract(a, uint8(n), a.w-uint8(n)), a.w)
		}
	}
	return s.mk(Expr{op: op, w: a.w, a: a, b: b})
}

func (s *Store) BitAnd(a, b *Expr) *Expr {
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return s.Const(a.k&b.k, a.w)
		}
		if b.k == 0 {
			return b
		}
		if b.k == mask(a.w) {
			return a
		}
		if b.k&(b.k+1) == 0 { // low mask
			n := uint8(bits.Len64(b.k))
			if umax(a) <= b.k {
				return a
			}
			return s.ZExt(s.Extract(a, 0, n), a.w)
		}
		if a.op == OZExt {
			return s.ZExt(s.BitAnd(a.a, s.Const(b.k, a.a.w)), a.w)
		}
		if a.op == OIte && a.b.isConst() && a.c.isConst() {
			return s.Ite(a.a, s.BitAnd(a.b, b), s.BitAnd(a.c, b))
		}
	}
	return s.mk(Expr{op: OBAnd, w: a.w, a: a, b: b})
}
func (s *Store) BitOr(a, b *Expr) *Expr {
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return s.Const(a.k|b.k, a.w)
		}
		if b.k == 0 {
			return a
		}
		if b.k == mask(a.w) {
			return b
		}
	}
	return s.mk(Expr{op: OBOr, w: a.w, a: a, b: b})
}
func (s *Store) BitXor(a, b *Expr) *Expr {
	if a == b {
		return s.Const(0, a.w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return s.Const(a.k^b.k, a.w)
		}
		if b.k == 0 {
			return a
		}
	}
	return s.mk(Expr{op: OBXor, w: a.w, a: a, b: b})
}
func (s *Store) BitNot(a *Expr) *Expr {
	if a.isConst() {
		return s.Const(^a.k, a.w)
	}
	if a.op == OBNot {
		return a.a
	}
	return s.mk(Expr{op: OBNot, w: a.w, a: a})
}

func (s *Store) Extract(a *Expr, lo, w uint8) *Expr {
	if lo == 0 && w == a.w {
		return a
	}
	if a.isConst() {
		return s.Const(a.k>>lo, w)
	}
	switch a.op {
	case OExtract:
		return s.Extract(a.a, lo+uint8(a.k), w)
	case OZExt:
		if lo+w <= a.a.w {
			return s.Extract(a.a, lo, w)
		}
		if lo >= a.a.w {
			return s.Const(0, w)
		}
		if lo == 0 {
			return s.ZExt(a.a, w)
		}
		return s.ZExt(s.Extract(a.a, lo, a.a.w-lo), w)
	case OSExt:
		if lo+w <= a.a.w {
			return s.Extract(a.a, lo, w)
		}
		if lo == 0 {
			return s.SExt(a.a, w)
		}
	case OAdd, OMul:
		if lo == 0 {
			var l lin
			if s.toLin(a, 1, &l) {
				var r lin
				r.k = l.k
				for _, t := range l.terms {
					s.toLin(s.Extract(t.e, 0, w), t.c, &r)
				}
				if len(r.terms) <= linMax {
					return s.fromLin(&r, w)
				}
			}
		}
	case OIte:
		if a.b.isConst() || a.c.isConst() {
			return s.Ite(a.a, s.Extract(a.b, lo, w), s.Extract(a.c, lo, w))
		}
	case OBAnd:
		if lo == 0 {
			return s.BitAnd(s.Extract(a.a, lo, w), s.Extract(a.b, lo, w))
		}
	case OBOr:
		if lo == 0 {
			return s.BitOr(s.Extract(a.a, lo, w), s.Extract(a.b, lo, w))
		}
	case OBXor:
		if lo == 0 {
			return s.BitXor(s.Extract(a.a, lo, w), s.Extract(a.b, lo, w))
		}
	}
	return s.mk(Expr{op: OExtract, w: w, k: uint64(lo), a: a})
}

func (s *Store) ZExt(a *Expr, w uint8) *Expr {
	if w == a.w {
		return a
	}
	if w < a.w {
		return s.Extract(a, 0, w)
	}
	if a.isConst() {
		return s.Const(a.k, w)
	}
	if a.op == OZExt {
		a = a.a
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() {
		return s.Ite(a.a, s.Const(a.b.k, w), s.Const(a.c.k, w))
	}
	// zext distributes over a sum that cannot overflow
	if a.op == OAdd && a.b.isConst() && umax(a) < mask(a.w) {
		return s.Add(s.ZExt(a.a, w), s.Const(a.b.k, w))
	}
	return s.mk(Expr{op: OZExt, w: w, a: a})
}
func (s *Store) SExt(a *Expr, w uint8) *Expr {
	if w == a.w {
		return a
	}
	if w < a.w {
		return s.Extract(a, 0, w)
	}
	if a.isConst() {
		return s.Const(uint64(sext(a.k, a.w)), w)
	}
	if umax(a) < uint64(1)<<(a.w-1) {
		return s.ZExt(a, w)
	}
	if a.op == OSExt {
		a = a.a
	}
	return s.mk(Expr{op: OSExt, w: w, a: a})
}

// ---- evaluation ----

func (s *Store) beginEval() {
	s.gen++
	if len(s.memo) < int(s.n) {
		m := make([]uint64, int(s.n)*2+1024)
		g := make([]uint32, len(m))
		copy(m, s.memo)
		copy(g, s.memoGen)
		s.memo, s.memoGen = m, g
	}
}

// Eval evaluates e under model (indexed by vid; missing = 0).
func (s *Store) Eval(e *Expr, model []uint64) uint64 {
	s.beginEval()
	return s.ev(e, model)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (s *Store) ev(e *Expr, m []uint64) uint64 {
	switch e.op {
	case OConst:
		return e.k
	case OVar:
		if int(e.vid) < len(m) {
			return m[e.vid] & mask1(e.w)
		}
		return 0
	}
	if s.memoGen[e.id] == s.gen {
		return s.memo[e.id]
	}
	var r uint64
	switch e.op {
	case ONot:
		r = 1 - s.ev(e.a, m)
	case OAnd:
		r = s.ev(e.a, m)
		if r == 1 {
			r = s.ev(e.b, m)
		}
	case OOr:
		r = s.ev(e.a, m)
		if r == 0 {
			r = s.ev(e.b, m)
		}
	case OIte:
		if s.ev(e.a, m) == 1 {
			r = s.ev(e.b, m)
		} else {
			r = s.ev(e.c, m)
		}
	default:
		x := s.ev(e.a, m)
		var y uint64
		if e.b != nil {
			y = s.ev(e.b, m)
		}
		r = evalOp(e, x, y)
	}
	s.memo[e.id] = r
	s.memoGen[e.id] = s.gen
	return r
}

func mask1(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func evalOp(e *Expr, x, y uint64) uint64 {
	w := e.a.w
	m := mask1(e.w)
	switch e.op {
	case OTab:
		if x < uint64(len(e.tabv)) {
			return e.tabv[x] & m
		}
		return 0
	case OBox:
		return x
	case OEq:
		return b2u(x == y)
	case OUlt:
		return b2u(x < y)
	case OSlt:
		return b2u(sext(x, w) < sext(y, w))
	case OAdd:
		return (x + y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv, OSRem:
		if y == 0 {
			if e.op == OSRem {
				return x
			}
			if sext(x, w) >= 0 {
				return m
			}
			return 1
		}
		return foldDiv(e.op, x, y, w) & m
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OBNot:
		return ^x & m
	case OExtract:
		return (x >> e.k) & m
	case OZExt:
		return x
	case OSExt:
		return uint64(sext(x, w)) & m
	}
	panic(fmt.Sprint("evalOp ", e.op))
}

// truthTable of a boolean term over its single byte variable.
func (s *Store) truthTable(e *Expr) *[4]uint64 {
	if e.tt != nil {
		return e.tt
	}
	var tt [4]uint64
	if e.op == OConst {
		if e.k == 1 {
			tt = [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
		}
	} else if e.op == ONot {
		a := s.truthTable(e.a)
		for i := range tt {
			tt[i] = ^a[i]
		}
	} else if e.op == OAnd || e.op == OOr {
		a, b := s.truthTable(e.a), s.truthTable(e.b)
		for i := range tt {
			if e.op == OAnd {
				tt[i] = a[i] & b[i]
			} else {
				tt[i] = a[i] | b[i]
			}
		}
	} else {
		m := make([]uint64, e.v.vid+1)
		for x := uint64(0); x < 256; x++ {
			m[e.v.vid] = x
			if s.Eval(e, m) == 1 {
				tt[x>>6] |= 1 << (x & 63)
			}
		}
	}
	e.tt = &tt
	return e.tt
}

// ---- SMT-LIB printing ----

var smtOps = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OSlt: "bvslt", OAdd: "bvadd", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", OIte: "ite", OTab: "tab", OBox: "box"}

func smtSort(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func smtRef(e *Expr) string {
	switch e.op {
	case OConst:
		if e.w == 0 {
			if e.k == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", e.k, e.w)
	case OVar:
		return fmt.Sprintf("v%d", e.vid)
	}
	return fmt.Sprintf("e%d", e.id)
}

// smtDefine writes definitions for e and everything below it not yet in done.
func smtDefine(sb *strings.Builder, e *Expr, done map[int32]bool) {
	if e.op == OConst || done[e.id] {
		return
	}
	if e.op == OVar {
		done[e.id] = true
		fmt.Fprintf(sb, "(declare-const v%d %s)\n", e.vid, smtSort(e.w))
		return
	}
	// iterative post-order to survive deep terms
	type it struct {
		e *Expr
		i int
	}
	st := []it{{e, 0}}
	for len(st) > 0 {
		t := &st[len(st)-1]
		if done[t.e.id] || t.e.op == OConst {
			st = st[:len(st)-1]
			continue
		}
		var ch *Expr
		switch t.i {
		case 0:
			ch = t.e.a
		case 1:
			ch = t.e.b
		case 2:
			ch = t.e.c
		}
		t.i++
		if t.i <= 3 {
			if ch != nil && !done[ch.id] && ch.op != OConst {
				if ch.op == OVar {
					done[ch.id] = true
					fmt.Fprintf(sb, "(declare-const v%d %s)\n", ch.vid, smtSort(ch.w))
				} else {
					st = append(st, it{ch, 0})
				}
			}
			continue
		}
		x := t.e
		done[x.id] = true
		fmt.Fprintf(sb, "(define-fun e%d () %s ", x.id, smtSort(x.w))
		switch x.op {
		case OExtract:
			fmt.Fprintf(sb, "((_ extract %d %d) %s)", x.k+uint64(x.w)-1, x.k, smtRef(x.a))
		case OZExt:
			fmt.Fprintf(sb, "((_ zero_extend %d) %s)", x.w-x.a.w, smtRef(x.a))
		case OSExt:
			fmt.Fprintf(sb, "((_ sign_extend %d) %s)", x.w-x.a.w, smtRef(x.a))
		case OTab:
			sb.WriteString(tabText(x))
		case OBox:
			sb.WriteString(smtRef(x.a))
		default:
			sb.WriteString("(" + smtOps[x.op])
			for _, y := range [3]*Expr{x.a, x.b, x.c} {
				if y != nil {
					sb.WriteByte(' ')
					sb.WriteString(smtRef(y))
				}
			}
			sb.WriteByte(')')
		}
		sb.WriteString(")\n")
		st = st[:len(st)-1]
	}
}

func (e *Expr) String() string {
	switch e.op {
	case OConst:
		return fmt.Sprintf("%d:%d", e.k, e.w)
	case OVar:
		return e.name
	case OExtract:
		return fmt.Sprintf("ext(%v,%d,%d)", e.a, e.k, e.w)
	case OZExt:
		return fmt.Sprintf("zx%d(%v)", e.w, e.a)
	case OSExt:
		return fmt.Sprintf("sx%d(%v)", e.w, e.a)
	}
	r := "(" + smtOps[e.op]
	for _, y := range [3]*Expr{e.a, e.b, e.c} {
		if y != nil {
			r += " " + y.String()
		}
	}
	return r + ")"
}

// Tab builds a constant-table lookup (0 outside the table).
func (s *Store) Tab(tab []uint64, idx *Expr, w uint8) *Expr {
	for idx.op == OZExt && uint64(len(tab)) > 0 {
		idx = idx.a
	}
	if idx.isConst() {
		if idx.k < uint64(len(tab)) {
			return s.Const1(tab[idx.k], w)
		}
		return s.Const1(0, w)
	}
	h := uint64(14695981039346656037)
	mx := uint64(0)
	same := true
	for _, x := range tab {
		h = (h ^ x) * 1099511628211
		if x > mx {
			mx = x
		}
		if x != tab[0] {
			same = false
		}
	}
	if same && len(tab) > 0 && umax(idx) < uint64(len(tab)) {
		return s.Const1(tab[0], w)
	}
	id := -1
	if s.tabIdx == nil {
		s.tabIdx = map[uint64][]int{}
	}
outer:
	for _, k := range s.tabIdx[h] {
		t := s.tabs[k]
		if len(t) != len(tab) {
			continue
		}
		for i := range t {
			if t[i] != tab[i] {
				continue outer
			}
		}
		id = k
		break
	}
	if id < 0 {
		id = len(s.tabs)
		s.tabs = append(s.tabs, append([]uint64(nil), tab...))
		s.tabIdx[h] = append(s.tabIdx[h], id)
	}
	bound := s.Const(mx, 64)
	e := s.mk(Expr{op: OTab, w: w, k: uint64(id), a: idx, c: bound})
	if e.tabv == nil {
		e.tabv = s.tabs[id]
	}
	return e
}

// Const1 also makes boolean constants (w==0).
func (s *Store) Const1(v uint64, w uint8) *Expr {
	if w == 0 {
		return s.Bool(v != 0)
	}
	return s.Const(v, w)
}

// Box hides the structure of a from linear simplification and range analysis.
func (s *Store) Box(a *Expr, lo, hi uint64) *Expr {
	if a.isConst() || a.op == OBox {
		return a
	}
	return s.mk(Expr{op: OBox, w: a.w, a: a, b: s.Const(lo, a.w), c: s.Const(hi, a.w)})
}

func tabText(x *Expr) string {
	// balanced decision tree over runs of equal values
	type run struct{ lo, v uint64 }
	var rs []run
	for i, v := range x.tabv {
		if x.a.w < 64 && uint64(i) > mask(x.a.w) {
			break // beyond what the index can be
		}
		if len(rs) == 0 || rs[len(rs)-1].v != v {
			rs = append(rs, run{uint64(i), v})
		}
	}
	if x.a.w >= 64 || uint64(len(x.tabv)) <= mask(x.a.w) {
		if len(rs) == 0 || rs[len(rs)-1].v != 0 {
			rs = append(rs, run{uint64(len(x.tabv)), 0})
		}
	}
	c := func(v uint64) string {
		if x.w == 0 {
			if v != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", v, x.w)
	}
	var rec func(rs []run) string
	rec = func(rs []run) string {
		if len(rs) == 1 {
			return c(rs[0].v)
		}
		h := len(rs) / 2
		return fmt.Sprintf("(ite (bvult %s (_ bv%d %d)) %s %s)", smtRef(x.a), rs[h].lo, x.a.w, rec(rs[:h]), rec(rs[h:]))
	}
	return rec(rs)
}
