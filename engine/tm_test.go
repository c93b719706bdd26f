package main

import (
	"testing"
	"time"
)

func TestCivil(t *testing.T) {
	bd, _ := absBases()
	for y := int64(0); y < 3000; y++ {
		for mo := 1; mo <= 12; mo++ {
			for _, d := range []int{1, 28, 29, 30, 31} {
				if time.Date(int(y), time.Month(mo), d, 0, 0, 0, 0, time.UTC).Day() != d {
					continue
				}
				a := absDaysOf(y, uint32(mo), d)
				yy, mm, dd := civil(int64(a - bd))
				if yy != y || int(mm) != mo || int(dd) != d {
					t.Fatal(y, mo, d, yy, mm, dd)
				}
				st := NewStore()
				m := &M{st: st}
				yv := st.NewVar("y", 64)
				m.growVars(0)
				box := st.Box(yv, 0, 9999)
				m.model[0] = uint64(y)
				r, ok := wrappers["time.dateToAbsDays"](m, []V{{x: box}, {n: uint64(mo)}, {n: uint64(d)}})
				if !ok || m.evalE(r.x.(*Expr)) != a {
					t.Fatal("formula", y, mo, d, m.evalE(r.x.(*Expr)), a)
				}
			}
		}
	}
}
