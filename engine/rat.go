package main

// Decimal model of math/big.Rat for values parsed from symbolic text: the
// digits stay symbolic, the position of the point and the presence of a sign
// are decided per path. Concrete rationals run through the real math/big.

import (
	"math/big"
	"strings"
)

// SymRat is sign * digits / 10^frac; it sits in the magnitude cell of Rat.a.
type SymRat struct {
	neg  bool
	d    []*Expr // ASCII digits
	frac int
	num  *Expr // the digits as one number, for values computed from integers
}

func ratCell(p V, path ...int) *V {
	c, ok := p.x.(*V)
	if !ok {
		return nil
	}
	for _, i := range path {
		a, ok := c.x.(*Agg)
		if !ok || i >= len(a.e) {
			return nil
		}
		c = &a.e[i]
	}
	return c
}

func symRatOf(p V) *SymRat {
	c := ratCell(p, 0, 1)
	if c == nil {
		return nil
	}
	r, _ := c.x.(*SymRat)
	return r
}

func symIntOf(p V) *SymRat {
	c := ratCell(p, 1)
	if c == nil {
		return nil
	}
	r, _ := c.x.(*SymRat)
	return r
}

func natOf(c *V) *big.Int {
	z := new(big.Int)
	es := cellsOf(*c)
	for i := len(es) - 1; i >= 0; i-- {
		if es[i].x != nil {
			return nil
		}
		z.Lsh(z, 64)
		z.Or(z, new(big.Int).SetUint64(es[i].n))
	}
	return z
}

// concRat reads a concrete Rat.
func concRat(p V) *big.Rat {
	n, a, b := ratCell(p, 0, 0), ratCell(p, 0, 1), ratCell(p, 1, 1)
	if n == nil || a == nil || b == nil || n.x != nil {
		return nil
	}
	if _, ok := a.x.(*SymRat); ok {
		return nil
	}
	x, y := natOf(a), natOf(b)
	if x == nil || y == nil {
		return nil
	}
	if y.Sign() == 0 {
		y.SetInt64(1)
	}
	if n.n != 0 {
		x.Neg(x)
	}
	return new(big.Rat).SetFrac(x, y)
}

// ratView gives a decimal view of any Rat with a finite expansion.
func (m *M) ratView(p V) *SymRat {
	if r := symRatOf(p); r != nil {
		return r
	}
	c := concRat(p)
	if c == nil {
		return nil
	}
	prec, exact := c.FloatPrec()
	if !exact || prec > 400 {
		return nil
	}
	s := c.FloatString(prec)
	r := &SymRat{frac: prec}
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '-':
			r.neg = true
		case '.':
		default:
			r.d = append(r.d, m.st.Const(uint64(s[i]), 8))
		}
	}
	return r
}

func (m *M) digitsZero(d []*Expr) *Expr {
	c := m.st.T
	for _, e := range d {
		c = m.st.And(c, m.st.Eq(e, m.st.Const('0', 8)))
	}
	return c
}

func (m *M) ratSign(r *SymRat) *Expr {
	s := m.st
	k := s.Const(1, 64)
	if r.neg {
		k = s.Const(^uint64(0), 64)
	}
	return s.Ite(m.digitsZero(r.d), s.Const(0, 64), k)
}

// align pads two digit strings to a common shape.
func (m *M) ratAlign(a, b *SymRat) (x, y []*Expr) {
	z := m.st.Const('0', 8)
	pad := func(r *SymRat, ip, fp int) []*Expr {
		var o []*Expr
		for i := len(r.d) - r.frac; i < ip; i++ {
			o = append(o, z)
		}
		o = append(o, r.d...)
		for i := r.frac; i < fp; i++ {
			o = append(o, z)
		}
		return o
	}
	ip, fp := len(a.d)-a.frac, a.frac
	if i := len(b.d) - b.frac; i > ip {
		ip = i
	}
	if b.frac > fp {
		fp = b.frac
	}
	return pad(a, ip, fp), pad(b, ip, fp)
}

func (m *M) ratCmp(a, b *SymRat) *Expr {
	s := m.st
	x, y := m.ratAlign(a, b)
	mag := func() (lt, eq *Expr) {
		if (a.num != nil || b.num != nil) && len(x) <= 18 {
			frac := a.frac
			if b.frac > frac {
				frac = b.frac
			}
			p, q := m.ratNum(a, x, frac), m.ratNum(b, y, frac)
			return s.Ult(p, q), s.Eq(p, q)
		}
		lt, eq = s.F, s.T
		for i := len(x) - 1; i >= 0; i-- {
			e := s.Eq(x[i], y[i])
			lt = s.Or(s.Ult(x[i], y[i]), s.And(e, lt))
			eq = s.And(e, eq)
		}
		return
	}
	one, mone, zero := s.Const(1, 64), s.Const(^uint64(0), 64), s.Const(0, 64)
	if a.neg == b.neg {
		lt, eq := mag()
		l, g := mone, one
		if a.neg {
			l, g = one, mone
		}
		return s.Ite(eq, zero, s.Ite(lt, l, g))
	}
	k := one
	if a.neg {
		k = mone
	}
	return s.Ite(s.And(m.digitsZero(a.d), m.digitsZero(b.d)), zero, k)
}

// ratNum gives the magnitude of r, aligned to the digits d, as one number.
func (m *M) ratNum(r *SymRat, d []*Expr, frac int) *Expr {
	s := m.st
	x := s.Const(0, 64)
	if r.num != nil {
		x = r.num
		for i := r.frac; i < frac; i++ {
			x = s.Mul(x, s.Const(10, 64))
		}
		return x
	}
	for _, e := range d {
		x = s.Add(s.Mul(x, s.Const(10, 64)), s.ZExt(s.Sub(e, s.Const('0', 8)), 64))
	}
	return x
}

// ratFromInt models a/10^frac for a 64-bit integer a (times f), or gives nil.
func (m *M) ratFromInt(a *Expr, signed bool, f uint64, frac int) *SymRat {
	s := m.st
	r := &SymRat{frac: frac}
	if signed && m.decide(s.Slt(a, s.Const(0, 64))) {
		r.neg = true
		a = s.Neg(a)
	}
	if !m.decide(s.Ult(a, s.Const(1e18/f, 64))) {
		return nil
	}
	a = s.Mul(a, s.Const(f, 64))
	r.num = a
	n, p := 1, uint64(10)
	for (n <= frac || !m.decide(s.Ult(a, s.Const(p, 64)))) && n < 18 {
		n, p = n+1, p*10
	}
	w := uint8(1)
	for p > 1<<w {
		w++
	}
	x := s.Extract(a, 0, w)
	r.d = make([]*Expr, n)
	for i := n - 1; i >= 0; i-- {
		q := x
		if i > 0 {
			q = s.Div(OURem, x, s.Const(10, w))
			x = s.Div(OUDiv, x, s.Const(10, w))
		}
		if w < 8 {
			q = s.ZExt(q, 8)
		} else {
			q = s.Extract(q, 0, 8)
		}
		r.d[i] = s.Add(q, s.Const('0', 8))
	}
	return r
}

func isSpecialRat(c byte) bool { return strings.IndexByte("/_eEpPxXoObBacdfACDF", c) >= 0 }

// ratParse decides whether text is a plain decimal number.
func (m *M) ratParse(e []V) (r *SymRat, ok bool) {
	s := m.st
	r = &SymRat{}
	i := 0
	rangeTab := func(f func(c byte) bool) []uint64 {
		t := make([]uint64, 256)
		for c := range t {
			if f(byte(c)) {
				t[c] = 1
			}
		}
		return t
	}
	digit := func(c byte) bool { return c >= '0' && c <= '9' }
	is := func(v V, f func(c byte) bool) bool {
		if v.x == nil {
			return f(byte(v.n))
		}
		return m.decide(s.Tab(rangeTab(f), m.ex(v, 8), 0))
	}
	dot := false
	for ; i < len(e); i++ {
		if is(e[i], digit) {
			r.d = append(r.d, m.ex(e[i], 8))
			if dot {
				r.frac++
			}
			continue
		}
		if i == 0 && is(e[i], func(c byte) bool { return c == '-' }) {
			r.neg = true
			continue
		}
		if i == 0 && is(e[i], func(c byte) bool { return c == '+' }) {
			continue
		}
		if !dot && is(e[i], func(c byte) bool { return c == '.' }) {
			dot = true
			continue
		}
		if is(e[i], isSpecialRat) {
			return nil, false
		}
		return nil, true // not a number
	}
	if len(r.d) == 0 {
		return nil, true
	}
	return r, true
}

func (m *M) symText(cells []V) bool {
	for _, c := range cells {
		if c.x != nil {
			return true
		}
	}
	return false
}

func (m *M) floatString(r *SymRat, prec int) V {
	s := m.st
	ip := append([]*Expr(nil), r.d[:len(r.d)-r.frac]...)
	fp := append([]*Expr(nil), r.d[len(r.d)-r.frac:]...)
	if len(fp) > prec {
		up := m.decide(s.Ult(s.Const('4', 8), fp[prec]))
		fp = fp[:prec]
		if up {
			all := append(append([]*Expr{s.Const('0', 8)}, ip...), fp...)
			for i := len(all) - 1; i >= 0; i-- {
				if m.decide(s.Eq(all[i], s.Const('9', 8))) {
					all[i] = s.Const('0', 8)
					continue
				}
				all[i] = s.Add(all[i], s.Const(1, 8))
				break
			}
			ip, fp = all[:len(ip)+1], all[len(ip)+1:]
		}
	}
	for len(ip) > 0 && m.decide(s.Eq(ip[0], s.Const('0', 8))) {
		ip = ip[1:]
	}
	var out []V
	if r.neg {
		// the sign is kept unless the value itself is zero; a value that
		// rounds to zero keeps it as well
		if !m.decide(m.digitsZero(r.d)) {
			out = append(out, V{n: '-'})
		}
	}
	if len(ip) == 0 {
		out = append(out, V{n: '0'})
	}
	for _, e := range ip {
		out = append(out, e.val())
	}
	if prec > 0 {
		out = append(out, V{n: '.'})
		for _, e := range fp {
			out = append(out, e.val())
		}
		for i := len(fp); i < prec; i++ {
			out = append(out, V{n: '0'})
		}
	}
	return cellsToStr(s, out)
}

// symInt gives the integer part of a value already known to be integral.
func (m *M) symIntVal(r *SymRat) *Expr {
	s := m.st
	x := s.Const(0, 64)
	for _, e := range r.d[:len(r.d)-r.frac] {
		x = s.Add(s.Mul(x, s.Const(10, 64)), s.ZExt(s.Sub(e, s.Const('0', 8)), 64))
	}
	if r.neg {
		x = s.Neg(x)
	}
	return x
}

func init() {
	rat := "(*math/big.Rat)."
	setRat := func(m *M, p V, r *SymRat) {
		m.set(ratCell(p, 0, 0), V{})
		m.set(ratCell(p, 0, 1), V{x: r})
		m.set(ratCell(p, 1, 0), V{})
		m.set(ratCell(p, 1, 1), V{})
	}
	wrappers[rat+"SetString"] = func(m *M, a []V) (V, bool) {
		e := cellsOf(a[1])
		if !m.symText(e) || ratCell(a[0]) == nil {
			return V{}, false
		}
		r, ok := m.ratParse(e)
		if !ok {
			// exponents, fractions, other bases: fix the text
			out := make([]byte, len(e))
			for i, c := range e {
				if c.x == nil {
					out[i] = byte(c.n)
				} else {
					out[i] = byte(m.concretize(m.ex(c, 8), 300))
				}
			}
			z, ok := new(big.Rat).SetString(string(out))
			if !ok {
				return tup(V{}, V{}), true
			}
			v := m.natRat(z)
			m.set(ratCell(a[0], 0, 0), v[0])
			m.set(ratCell(a[0], 0, 1), v[1])
			m.set(ratCell(a[0], 1, 0), v[2])
			m.set(ratCell(a[0], 1, 1), v[3])
			return tup(a[0], b(true)), true
		}
		if r == nil {
			return tup(V{}, V{}), true
		}
		setRat(m, a[0], r)
		return tup(a[0], b(true)), true
	}
	wrappers[rat+"SetFrac64"] = func(m *M, a []V) (V, bool) {
		if a[1].x == nil || a[2].x != nil || a[2].n == 0 || ratCell(a[0]) == nil {
			return V{}, false
		}
		den, num := a[2].n, m.ex(a[1], 64)
		if int64(den) < 0 {
			den, num = -den, m.st.Neg(num)
		}
		frac, p := 0, uint64(1)
		for ; p%den != 0; p *= 10 {
			if frac++; frac > 17 {
				return V{}, false
			}
		}
		r := m.ratFromInt(num, true, p/den, frac)
		if r == nil {
			return V{}, false
		}
		setRat(m, a[0], r)
		return a[0], true
	}
	setInt := func(signed bool) func(m *M, a []V) (V, bool) {
		return func(m *M, a []V) (V, bool) {
			if a[1].x == nil || ratCell(a[0]) == nil {
				return V{}, false
			}
			r := m.ratFromInt(m.ex(a[1], 64), signed, 1, 0)
			if r == nil {
				return V{}, false
			}
			setRat(m, a[0], r)
			return a[0], true
		}
	}
	wrappers[rat+"SetInt64"] = setInt(true)
	wrappers[rat+"SetUint64"] = setInt(false)
	wrappers[rat+"FloatString"] = func(m *M, a []V) (V, bool) {
		if a[1].x != nil {
			return V{}, false
		}
		if r := symRatOf(a[0]); r != nil {
			return m.floatString(r, int(a[1].n)), true
		}
		if c := concRat(a[0]); c != nil && int64(a[1].n) >= 0 {
			return mkStr(c.FloatString(int(a[1].n))), true
		}
		return V{}, false
	}
	wrappers[rat+"Cmp"] = func(m *M, a []V) (V, bool) {
		if symRatOf(a[0]) == nil && symRatOf(a[1]) == nil {
			if x, y := concRat(a[0]), concRat(a[1]); x != nil && y != nil {
				return intV(x.Cmp(y)), true
			}
			return V{}, false
		}
		x, y := m.ratView(a[0]), m.ratView(a[1])
		if x == nil || y == nil {
			panic(unsupported{"comparison of a symbolic with a non-decimal rational"})
		}
		return m.ratCmp(x, y).val(), true
	}
	wrappers[rat+"Sign"] = func(m *M, a []V) (V, bool) {
		if r := symRatOf(a[0]); r != nil {
			return m.ratSign(r).val(), true
		}
		return V{}, false
	}
	wrappers[rat+"IsInt"] = func(m *M, a []V) (V, bool) {
		if r := symRatOf(a[0]); r != nil {
			return boolV(m.digitsZero(r.d[len(r.d)-r.frac:])), true
		}
		return V{}, false
	}
	wrappers[rat+"Set"] = func(m *M, a []V) (V, bool) {
		if r := symRatOf(a[1]); r != nil && ratCell(a[0]) != nil {
			setRat(m, a[0], r)
			return a[0], true
		}
		return V{}, false
	}
	neg := func(f func(r *SymRat) *SymRat) func(m *M, a []V) (V, bool) {
		return func(m *M, a []V) (V, bool) {
			if r := symRatOf(a[1]); r != nil && ratCell(a[0]) != nil {
				setRat(m, a[0], f(r))
				return a[0], true
			}
			return V{}, false
		}
	}
	wrappers[rat+"Neg"] = neg(func(r *SymRat) *SymRat { return &SymRat{!r.neg, r.d, r.frac, r.num} })
	wrappers[rat+"Abs"] = neg(func(r *SymRat) *SymRat { return &SymRat{false, r.d, r.frac, r.num} })
	wrappers[rat+"Num"] = func(m *M, a []V) (V, bool) {
		if r := symRatOf(a[0]); r != nil {
			if !m.decide(m.digitsZero(r.d[len(r.d)-r.frac:])) {
				panic(unsupported{"numerator of a symbolic fraction"})
			}
			return V{x: ratCell(a[0], 0)}, true
		}
		return V{}, false
	}
	ints := "(*math/big.Int)."
	i64 := func(m *M, a []V) (V, bool) {
		if r := symIntOf(a[0]); r != nil {
			return m.symIntVal(r).val(), true
		}
		return V{}, false
	}
	wrappers[ints+"Int64"] = i64
	wrappers[ints+"Uint64"] = i64
	wrappers[ints+"Sign"] = func(m *M, a []V) (V, bool) {
		if r := symIntOf(a[0]); r != nil {
			return m.ratSign(r).val(), true
		}
		return V{}, false
	}
	str := func(m *M, a []V) (V, bool) {
		if r := symIntOf(a[0]); r != nil {
			return m.floatString(r, 0), true
		}
		return V{}, false
	}
	wrappers[ints+"String"] = str
	wrappers[ints+"Text"] = str
}

// materialize fixes the digits of symbolic numbers handed to a math/big
// function that has no model, so that its real code can run on them.
func (m *M) materialize(f *Func, a []V) {
	if !strings.HasPrefix(f.name, "(*math/big.") {
		return
	}
	for _, x := range a {
		if r := symRatOf(x); r != nil {
			v := m.natRat(m.ratFix(r))
			m.set(ratCell(x, 0, 0), v[0])
			m.set(ratCell(x, 0, 1), v[1])
			m.set(ratCell(x, 1, 0), v[2])
			m.set(ratCell(x, 1, 1), v[3])
		} else if r := symIntOf(x); r != nil {
			v := m.natRat(m.ratFix(&SymRat{neg: r.neg, d: r.d}))
			m.set(ratCell(x, 0), v[0])
			m.set(ratCell(x, 1), v[1])
		}
	}
}

func (m *M) ratFix(r *SymRat) *big.Rat {
	t := make([]byte, len(r.d))
	for i, e := range r.d {
		t[i] = byte(m.concretize(e, 12))
	}
	z, ok := new(big.Int).SetString("0"+string(t), 10)
	if !ok {
		panic(unsupported{"digits of a rational"})
	}
	if r.neg {
		z.Neg(z)
	}
	return new(big.Rat).SetFrac(z, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(r.frac)), nil))
}

// natRat gives the cells of a concrete Rat: a.neg, a.abs, b.neg, b.abs.
func (m *M) natRat(z *big.Rat) [4]V {
	nat := func(x *big.Int) V {
		var e []V
		for _, w := range x.Bits() {
			e = append(e, V{n: uint64(w)})
		}
		if e == nil {
			return V{}
		}
		return V{x: &Slice{e}}
	}
	return [4]V{b(z.Sign() < 0), nat(z.Num()), {}, nat(z.Denom())}
}
