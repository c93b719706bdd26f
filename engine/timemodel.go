package main

// Civil-calendar arithmetic of package time on symbolic dates. The real
// day-count formula is built as a term and boxed; the inverse conversion of
// such a day count returns the year, month and day it was built from (the two
// are inverse to each other for valid dates, by the contract of package time).

import "sync"

// wrappers replace a function for some arguments only.
var wrappers = map[string]func(m *M, a []V) (V, bool){}

const absYearsBase = 292277022400

type dayInv struct{ y, mo, d *Expr }

var (
	absOnce             sync.Once
	absBaseDay, absBase uint64
)

func absBases() (uint64, uint64) {
	absOnce.Do(func() {
		absBaseDay = absDaysOf(-4, 3, 1)
		absBase = absBaseDay * 86400
	})
	return absBaseDay, absBase
}

func absDaysOf(year int64, month uint32, day int) uint64 {
	am := month
	jf := uint32(0)
	if am < 3 {
		jf = 1
	}
	am += 12 * jf
	y := uint64(year) - uint64(jf) + absYearsBase
	ay := (979*am - 2919) >> 5
	c := y / 100
	cy := uint32(y % 100)
	return 146097*c/4 + uint64(int64(1461*cy/4+ay)+int64(day)-1)
}

func symE(v V) bool { _, ok := v.x.(*Expr); return ok }

func init() {
	wrappers["time.dateToAbsDays"] = func(m *M, a []V) (V, bool) {
		if !symE(a[0]) && !symE(a[1]) && !symE(a[2]) {
			return V{}, false
		}
		s := m.st
		y, mo, d := m.ex(a[0], 64), m.ex(a[1], 64), m.ex(a[2], 64)
		lo, hi, ok := m.irange(y)
		if !ok || lo < 0 || hi > 20000 {
			yy := m.concretize(y, 400)
			y = s.Const(yy, 64)
			if yy > 20000 {
				return V{n: absDaysOf(int64(yy), uint32(m.concretize(mo, 20)), int(int64(m.concretize(d, 70))))}, true
			}
		}
		if l, h, ok := m.irange(mo); !ok || l < 0 || h > 15 {
			k := m.concretize(mo, 20)
			if k > 15 {
				panic(unsupported{"date with month out of range"})
			}
			mo = s.Const(k, 64)
		}
		if l, h, ok := m.irange(d); !ok || l < -40000 || h > 40000 {
			d = s.Const(m.concretize(d, 80), 64)
		}
		base, _ := absBases()
		// y' counted from March of year -4
		jf := s.Ite(s.Ult(mo, s.Const(3, 64)), s.Const(1, 64), s.Const(0, 64))
		yy := s.Sub(s.Add(y, s.Const(4, 64)), jf)
		tab := make([]uint64, 16)
		for i := range tab {
			am := uint32(i)
			if am < 3 {
				am += 12
			}
			tab[i] = uint64((979*am - 2919) >> 5)
		}
		ay := s.Tab(tab, mo, 64)
		// 2000-based: the base year -4 is a leap-cycle boundary minus 4, so use
		// the proleptic counts relative to year -4 directly
		z := s.Add(yy, s.Const(396, 64)) // years since March of -400
		c := s.Div(OUDiv, z, s.Const(100, 64))
		cy := s.Div(OURem, z, s.Const(100, 64))
		days := s.Add(s.Div(OUDiv, s.Mul(c, s.Const(146097, 64)), s.Const(4, 64)), s.Div(OUDiv, s.Mul(cy, s.Const(1461, 64)), s.Const(4, 64)))
		days = s.Add(days, ay)
		days = s.Add(days, d)
		off := base - absDaysOf(-400, 3, 1) + 1
		days = s.Sub(days, s.Const(off, 64))
		if days.isConst() {
			return V{n: days.k + base}, true
		}
		b := s.Box(days, 0, 8_000_000)
		if m.dayInv == nil {
			m.dayInv = map[*Expr]dayInv{}
		}
		m.dayInv[b] = dayInv{y, mo, d}
		return s.Add(b, s.Const(base, 64)).val(), true
	}
	small := func(m *M, v V, base uint64) (*Expr, bool) {
		x := m.st.Sub(m.ex(v, 64), m.st.Const(base, 64))
		lo, _, ok := m.irange(x)
		return x, ok && lo >= 0
	}
	wrappers["(time.absSeconds).days"] = func(m *M, a []V) (V, bool) {
		if !symE(a[0]) {
			return V{}, false
		}
		bd, bs := absBases()
		x, ok := small(m, a[0], bs)
		if !ok {
			return V{}, false
		}
		q := m.divide(OUDiv, x, m.st.Const(86400, 64))
		return m.st.Add(q, m.st.Const(bd, 64)).val(), true
	}
	wrappers["(time.absSeconds).clock"] = func(m *M, a []V) (V, bool) {
		if !symE(a[0]) {
			return V{}, false
		}
		_, bs := absBases()
		x, ok := small(m, a[0], bs)
		if !ok {
			return V{}, false
		}
		s := m.st
		c := func(k uint64) *Expr { return s.Const(k, 64) }
		sec := m.divide(OURem, x, c(86400))
		h := m.divide(OUDiv, sec, c(3600))
		sec = s.Sub(sec, s.Mul(h, c(3600)))
		mi := m.divide(OUDiv, sec, c(60))
		sec = s.Sub(sec, s.Mul(mi, c(60)))
		return tup(h.val(), mi.val(), sec.val()), true
	}
	wrappers["(time.absDays).date"] = func(m *M, a []V) (V, bool) {
		if !symE(a[0]) {
			return V{}, false
		}
		bd, _ := absBases()
		x, ok := small(m, a[0], bd)
		if !ok {
			return V{}, false
		}
		s := m.st
		if iv, ok := m.dayInv[x]; ok {
			c := func(k uint64) *Expr { return s.Const(k, 64) }
			dim := s.Tab([]uint64{0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}, iv.mo, 64)
			leap := s.And(s.Eq(s.BitAnd(iv.y, c(3)), c(0)), s.Or(s.Not(s.Eq(s.Div(OURem, iv.y, c(25)), c(0))), s.Eq(s.BitAnd(iv.y, c(15)), c(0))))
			feb := s.And(leap, s.Eq(iv.mo, c(2)))
			dim = s.Add(dim, s.Ite(feb, c(1), c(0)))
			valid := s.And(s.And(s.Ule(c(1), iv.mo), s.Ule(iv.mo, c(12))), s.And(s.Ule(c(1), iv.d), s.Ule(iv.d, dim)))
			if m.decide(valid) {
				return tup(iv.y.val(), iv.mo.val(), iv.d.val()), true
			}
		}
		k := m.concretize(m.ex(a[0], 64), 100)
		y, mo, d := civil(int64(k - bd))
		return tup(V{n: uint64(y)}, V{n: uint64(mo)}, V{n: uint64(d)}), true
	}
	wrappers["(time.absDays).split"] = func(m *M, a []V) (V, bool) {
		if !symE(a[0]) {
			return V{}, false
		}
		k := m.concretize(m.ex(a[0], 64), 100)
		d := 4*k + 3
		c := d / 146097
		cd := uint32(d%146097) | 3
		p := uint64(2939745) * uint64(cd)
		return tup(V{n: c}, V{n: p >> 32}, V{n: uint64(uint32(p) / 2939745 / 4)}), true
	}
}

// civil converts days since -0004-03-01 to a date.
func civil(z int64) (int64, int64, int64) {
	z += 400*365 + 97 - (4*365 + 1) // days since -0400-03-01 (from -0004: 396 years)
	z = z - 0
	era := z / 146097
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y := yoe + era*400 - 400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d := doy - (153*mp+2)/5 + 1
	mo := mp + 3
	if mp >= 10 {
		mo = mp - 9
	}
	if mo <= 2 {
		y++
	}
	return y, mo, d
}
