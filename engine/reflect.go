package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sync"
)

// RVal is the payload of an interpreted reflect.Value.
type RVal struct {
	t  *RT
	p  *V // addressable cell, nil otherwise
	v  V
	ro bool
}

func (r *RVal) get() V {
	if r.p != nil {
		return *r.p
	}
	return r.v
}

var implCache sync.Map

func implements(t, it *RT) bool {
	k := [2]*RT{t, it}
	if r, ok := implCache.Load(k); ok {
		return r.(bool)
	}
	r := types.Implements(t.t, it.u.(*types.Interface))
	implCache.Store(k, r)
	return r
}

var (
	rtRType, rtLiteType, rtValue, rtLiteValue, rtStructField, rtMethod, rtAny, rtMapAny, rtMapIter *RT
)

func (m *M) typeIface(t *RT) V {
	if t == nil {
		return V{}
	}
	return V{x: &Iface{rtRType, V{x: t}}}
}

func (m *M) rv(r *RVal) V {
	a := &Agg{make([]V, 3)}
	if r != nil {
		a.e[0].x = r
	}
	return V{x: a}
}

func argRV(v V) *RVal {
	r, _ := v.x.(*Agg).e[0].x.(*RVal)
	return r
}

func (m *M) need(v V, what string) *RVal {
	r := argRV(v)
	if r == nil {
		m.valueErr(what, "zero Value")
	}
	return r
}

func (m *M) valueErr(what, kind string) {
	panic(goPanic{V{x: &Iface{m.types_.errorString, mkStr("reflect: call of reflect.Value." + what + " on " + kind)}}})
}

func (m *M) toIface(r *RVal) V {
	v := r.get()
	if r.t.kind == reflect.Interface {
		return v
	}
	return V{x: &Iface{r.t, copyV(v)}}
}

func (m *M) rvField(r *RVal, i int) *RVal {
	if r.t.kind != reflect.Struct {
		m.valueErr("Field", r.t.kind.String()+" Value")
	}
	st := r.t.u.(*types.Struct)
	f := st.Field(i)
	n := &RVal{t: r.t.fields[i], ro: r.ro || (!f.Exported())}
	if f.Embedded() && !f.Exported() {
		n.ro = true
	}
	if r.p != nil {
		n.p = &r.p.x.(*Agg).e[i]
	} else {
		n.v = r.v.x.(*Agg).e[i]
	}
	return n
}

func (m *M) rvElem(r *RVal) *RVal {
	v := r.get()
	switch r.t.kind {
	case reflect.Interface:
		i, _ := v.x.(*Iface)
		if i == nil {
			return nil
		}
		return &RVal{t: i.t, v: i.v, ro: r.ro}
	case reflect.Pointer:
		if v.x == nil {
			return nil
		}
		c, ok := v.x.(*V)
		if !ok {
			panic(unsupported{fmt.Sprintf("reflect Elem of %T", v.x)})
		}
		return &RVal{t: r.t.elem, p: c, ro: r.ro}
	}
	m.valueErr("Elem", r.t.kind.String()+" Value")
	return nil
}

func (m *M) assignTo(t *RT, r *RVal) V {
	v := r.get()
	if t.kind == reflect.Interface {
		if r.t.kind == reflect.Interface {
			return v
		}
		return V{x: &Iface{r.t, copyV(v)}}
	}
	if t != r.t && !types.AssignableTo(r.t.t, t.t) {
		m.rtPanic("reflect.Set: value of type " + r.t.String() + " is not assignable to type " + t.String())
	}
	return v
}

func (m *M) mustSet(r *RVal, what string) {
	if r.ro {
		m.rtPanic("reflect: reflect.Value." + what + " using value obtained using unexported field")
	}
	if r.p == nil {
		m.rtPanic("reflect: reflect.Value." + what + " using unaddressable value")
	}
}

func (m *M) structField(t *RT, i int) V {
	st := t.u.(*types.Struct)
	f := st.Field(i)
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	v := zero(rtStructField)
	a := v.x.(*Agg)
	a.e[0] = mkStr(f.Name())
	a.e[1] = mkStr(pkg)
	a.e[2] = m.typeIface(t.fields[i])
	a.e[3] = mkStr(st.Tag(i))
	a.e[4] = V{n: uint64(i * 8)}
	a.e[5] = V{x: &Slice{[]V{{n: uint64(i)}}}}
	a.e[6] = V{n: b2u(f.Embedded())}
	return v
}

func typeName(t *RT) string {
	switch x := types.Unalias(t.t).(type) {
	case *types.Named:
		return x.Obj().Name()
	case *types.Basic:
		return x.Name()
	}
	return ""
}

func typePkg(t *RT) string {
	if x, ok := types.Unalias(t.t).(*types.Named); ok && x.Obj().Pkg() != nil {
		return x.Obj().Pkg().Path()
	}
	return ""
}

func exportedMethods(t *RT) []*types.Selection {
	ms := types.NewMethodSet(t.t)
	var out []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			out = append(out, ms.At(i))
		}
	}
	return out
}

func b(v bool) V { return V{n: b2u(v)} }

func (m *M) isNilV(v V) bool { return v.x == nil }

func (m *M) isZero(t *RT, v V) *Expr {
	switch t.kind {
	case reflect.Struct:
		r := m.st.T
		for i, f := range t.fields {
			r = m.st.And(r, m.isZero(f, v.x.(*Agg).e[i]))
		}
		return r
	case reflect.Array:
		r := m.st.T
		for _, e := range v.x.(*Agg).e {
			r = m.st.And(r, m.isZero(t.elem, e))
		}
		return r
	case reflect.String:
		return m.st.Bool(strLen(v) == 0)
	case reflect.Bool:
		return m.st.Not(m.exb(v))
	}
	if t.isInt() {
		return m.st.Eq(m.ex(v, t.w), m.st.Const(0, t.w))
	}
	if t.isFloat() {
		return m.st.Bool(m.concN(v) == 0)
	}
	return m.st.Bool(v.x == nil)
}

func init() {
	type ri = func(m *M, in *Instr, a []V) V
	reg := func(name string, f ri) {
		intrinsics[name] = func(m *M, in *Instr, a []V) (V, *Frame) { return f(m, in, a), nil }
	}
	T := func(v V) *RT {
		switch x := v.x.(type) {
		case *RT:
			return x
		case *Iface:
			return x.v.x.(*RT)
		}
		return nil
	}
	reg("reflect.TypeOf", func(m *M, in *Instr, a []V) V {
		i, _ := a[0].x.(*Iface)
		if i == nil {
			return V{}
		}
		return m.typeIface(i.t)
	})
	reg("internal/reflectlite.TypeOf", func(m *M, in *Instr, a []V) V {
		i, _ := a[0].x.(*Iface)
		if i == nil {
			return V{}
		}
		return V{x: &Iface{rtLiteType, V{x: i.t}}}
	})
	for _, pre := range []string{"(*reflect.rtype).", "(internal/reflectlite.rtype)."} {
		lite := pre[1] == 'i'
		wrap := func(m *M, t *RT) V {
			if t == nil {
				return V{}
			}
			if lite {
				return V{x: &Iface{rtLiteType, V{x: t}}}
			}
			return m.typeIface(t)
		}
		reg(pre+"Kind", func(m *M, in *Instr, a []V) V { return V{n: uint64(T(a[0]).kind)} })
		reg(pre+"String", func(m *M, in *Instr, a []V) V { return mkStr(T(a[0]).String()) })
		reg(pre+"Name", func(m *M, in *Instr, a []V) V { return mkStr(typeName(T(a[0]))) })
		reg(pre+"PkgPath", func(m *M, in *Instr, a []V) V { return mkStr(typePkg(T(a[0]))) })
		reg(pre+"Elem", func(m *M, in *Instr, a []V) V {
			t := T(a[0])
			if t.elem == nil {
				m.rtPanic("reflect: Elem of invalid type " + t.String())
			}
			return wrap(m, t.elem)
		})
		reg(pre+"Implements", func(m *M, in *Instr, a []V) V { return b(implements(T(a[0]), T(a[1]))) })
		reg(pre+"AssignableTo", func(m *M, in *Instr, a []V) V {
			t, u := T(a[0]), T(a[1])
			return b(t == u || types.AssignableTo(t.t, u.t))
		})
		reg(pre+"Comparable", func(m *M, in *Instr, a []V) V { return b(types.Comparable(T(a[0]).t)) })
		reg(pre+"Size", func(m *M, in *Instr, a []V) V { return V{n: uint64(T(a[0]).w+7) / 8} })
		reg(pre+"Key", func(m *M, in *Instr, a []V) V { return wrap(m, T(a[0]).key) })
		reg(pre+"Len", func(m *M, in *Instr, a []V) V { return V{n: uint64(T(a[0]).n)} })
	}
	p := "(*reflect.rtype)."
	reg(p+"NumField", func(m *M, in *Instr, a []V) V { return V{n: uint64(len(T(a[0]).fields))} })
	reg(p+"Field", func(m *M, in *Instr, a []V) V {
		t := T(a[0])
		i := m.intOf(a[1], rtInt)
		if t.kind != reflect.Struct || i < 0 || int(i) >= len(t.fields) {
			m.rtPanic("reflect: Field index out of bounds")
		}
		return m.structField(t, int(i))
	})
	reg(p+"FieldByName", func(m *M, in *Instr, a []V) V {
		t := T(a[0])
		name, _ := concStr(a[1])
		obj, idx, _ := types.LookupFieldOrMethod(t.t, false, nil, name)
		if _, ok := obj.(*types.Var); ok {
			cur := t
			var f V
			var ix []V
			for k, i := range idx {
				if k > 0 && cur.kind == reflect.Pointer {
					cur = cur.elem
				}
				f = m.structField(cur, i)
				cur = cur.fields[i]
				ix = append(ix, V{n: uint64(i)})
			}
			f.x.(*Agg).e[5] = V{x: &Slice{ix}}
			return V{x: &Agg{[]V{f, {n: 1}}}}
		}
		return V{x: &Agg{[]V{zero(rtStructField), {}}}}
	})
	reg(p+"NumMethod", func(m *M, in *Instr, a []V) V {
		t := T(a[0])
		if it, ok := t.u.(*types.Interface); ok {
			return V{n: uint64(it.NumMethods())}
		}
		return V{n: uint64(len(exportedMethods(t)))}
	})
	reg(p+"Bits", func(m *M, in *Instr, a []V) V { return V{n: uint64(T(a[0]).w)} })
	reg(p+"ConvertibleTo", func(m *M, in *Instr, a []V) V { return b(types.ConvertibleTo(T(a[0]).t, T(a[1]).t)) })
	reg(p+"common", func(m *M, in *Instr, a []V) V { return a[0] })
	reg(p+"NumIn", func(m *M, in *Instr, a []V) V { return V{n: uint64(T(a[0]).u.(*types.Signature).Params().Len())} })
	reg(p+"NumOut", func(m *M, in *Instr, a []V) V { return V{n: uint64(T(a[0]).u.(*types.Signature).Results().Len())} })

	reg("reflect.PointerTo", func(m *M, in *Instr, a []V) V { return m.typeIface(ptrTo(T(a[0]))) })
	reg("reflect.PtrTo", func(m *M, in *Instr, a []V) V { return m.typeIface(ptrTo(T(a[0]))) })
	reg("reflect.SliceOf", func(m *M, in *Instr, a []V) V { return m.typeIface(rtOf(types.NewSlice(T(a[0]).t))) })

	valueOf := func(m *M, in *Instr, a []V) V {
		i, _ := a[0].x.(*Iface)
		if i == nil {
			return m.rv(nil)
		}
		return m.rv(&RVal{t: i.t, v: i.v})
	}
	reg("reflect.ValueOf", valueOf)
	reg("internal/reflectlite.ValueOf", valueOf)
	reg("reflect.New", func(m *M, in *Instr, a []V) V {
		t := T(a[0])
		c := zero(t)
		return m.rv(&RVal{t: ptrTo(t), v: V{x: &c}})
	})
	reg("reflect.Zero", func(m *M, in *Instr, a []V) V {
		t := T(a[0])
		return m.rv(&RVal{t: t, v: zero(t)})
	})
	reg("reflect.MakeSlice", func(m *M, in *Instr, a []V) V {
		t := T(a[0])
		n, c := m.intOf(a[1], rtInt), m.intOf(a[2], rtInt)
		return m.rv(&RVal{t: t, v: V{x: &Slice{zeros(t.elem, int(c))[:n]}}})
	})
	reg("reflect.MakeMap", func(m *M, in *Instr, a []V) V {
		t := T(a[0])
		return m.rv(&RVal{t: t, v: V{x: &Map{rt: t, idx: map[any]int{}}}})
	})
	reg("reflect.Indirect", func(m *M, in *Instr, a []V) V {
		r := argRV(a[0])
		if r == nil || r.t.kind != reflect.Pointer {
			return a[0]
		}
		return m.rv(m.rvElem(r))
	})
	reg("reflect.Append", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "Append")
		s, _ := r.get().x.(*Slice)
		if s == nil {
			s = &Slice{}
		}
		var src []V
		if xs, ok := a[1].x.(*Slice); ok {
			for _, x := range xs.e {
				src = append(src, m.assignTo(r.t.elem, argRV(x)))
			}
		}
		return m.rv(&RVal{t: r.t, v: V{x: m.appendV(s, src, r.t.elem)}})
	})
	reg("reflect.Copy", func(m *M, in *Instr, a []V) V {
		d, s := m.need(a[0], "Copy"), m.need(a[1], "Copy")
		var de, se []V
		switch x := d.get().x.(type) {
		case *Slice:
			de = x.e
		case *Agg:
			de = x.e
		}
		switch x := s.get().x.(type) {
		case *Slice:
			se = x.e
		case *Agg:
			se = x.e
		case string, *SStr:
			se = strCells(s.get())
		}
		n := len(de)
		if len(se) < n {
			n = len(se)
		}
		m.copyCells(de[:n], se[:n])
		return V{n: uint64(n)}
	})
	swapper := func(m *M, in *Instr, a []V) V {
		i, _ := a[0].x.(*Iface)
		s, _ := i.v.x.(*Slice)
		return V{x: &Closure{native: func(m *M, ar []V) V {
			x, y := int(m.intOf(ar[0], rtInt)), int(m.intOf(ar[1], rtInt))
			p, q := copyV(s.e[x]), copyV(s.e[y])
			m.store(&s.e[x], q)
			m.store(&s.e[y], p)
			return V{}
		}}}
	}
	reg("reflect.Swapper", swapper)
	reg("internal/reflectlite.Swapper", swapper)
	reg("reflect.DeepEqual", func(m *M, in *Instr, a []V) V {
		return boolV(m.deepEq(a[0], a[1], rtAny, 0))
	})

	for _, q := range []string{"(reflect.Value).", "(internal/reflectlite.Value)."} {
		reg(q+"Kind", func(m *M, in *Instr, a []V) V {
			r := argRV(a[0])
			if r == nil {
				return V{}
			}
			return V{n: uint64(r.t.kind)}
		})
		reg(q+"Len", func(m *M, in *Instr, a []V) V {
			r := m.need(a[0], "Len")
			switch x := r.get().x.(type) {
			case nil:
				return V{}
			case *Slice:
				return V{n: uint64(len(x.e))}
			case *Agg:
				return V{n: uint64(len(x.e))}
			case *Map:
				return V{n: uint64(x.live)}
			}
			return V{n: uint64(strLen(r.get()))}
		})
		reg(q+"IsNil", func(m *M, in *Instr, a []V) V {
			r := m.need(a[0], "IsNil")
			switch r.t.kind {
			case reflect.Pointer, reflect.Interface, reflect.Slice, reflect.Map, reflect.Func, reflect.Chan, reflect.UnsafePointer:
				return b(r.get().x == nil)
			}
			m.valueErr("IsNil", r.t.kind.String()+" Value")
			return V{}
		})
		reg(q+"IsValid", func(m *M, in *Instr, a []V) V { return b(argRV(a[0]) != nil) })
		reg(q+"Elem", func(m *M, in *Instr, a []V) V { return m.rv(m.rvElem(m.need(a[0], "Elem"))) })
		reg(q+"Set", func(m *M, in *Instr, a []V) V {
			r := m.need(a[0], "Set")
			m.mustSet(r, "Set")
			x := m.need(a[1], "Set")
			m.store(r.p, m.assignTo(r.t, x))
			return V{}
		})
		reg(q+"CanSet", func(m *M, in *Instr, a []V) V {
			r := argRV(a[0])
			return b(r != nil && r.p != nil && !r.ro)
		})
		reg(q+"CanInterface", func(m *M, in *Instr, a []V) V { return b(!m.need(a[0], "CanInterface").ro) })
	}
	reg("(internal/reflectlite.Value).Type", func(m *M, in *Instr, a []V) V {
		return V{x: &Iface{rtLiteType, V{x: m.need(a[0], "Type").t}}}
	})
	q := "(reflect.Value)."
	reg(q+"Type", func(m *M, in *Instr, a []V) V { return m.typeIface(m.need(a[0], "Type").t) })
	reg(q+"Interface", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "Interface")
		if r.ro {
			m.rtPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return m.toIface(r)
	})
	reg("reflect.valueInterface", func(m *M, in *Instr, a []V) V { return m.toIface(m.need(a[0], "Interface")) })
	reg(q+"CanAddr", func(m *M, in *Instr, a []V) V { r := argRV(a[0]); return b(r != nil && r.p != nil) })
	reg(q+"Addr", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "Addr")
		if r.p == nil {
			m.rtPanic("reflect.Value.Addr of unaddressable value")
		}
		return m.rv(&RVal{t: ptrTo(r.t), v: V{x: r.p}, ro: r.ro})
	})
	reg(q+"NumField", func(m *M, in *Instr, a []V) V { return V{n: uint64(len(m.need(a[0], "NumField").t.fields))} })
	reg(q+"Field", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "Field")
		i := m.intOf(a[1], rtInt)
		if r.t.kind != reflect.Struct {
			m.valueErr("Field", r.t.kind.String()+" Value")
		}
		if i < 0 || int(i) >= len(r.t.fields) {
			m.rtPanic("reflect: Field index out of range")
		}
		return m.rv(m.rvField(r, int(i)))
	})
	reg(q+"FieldByIndex", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "FieldByIndex")
		s, _ := a[1].x.(*Slice)
		for k, x := range s.e {
			if k > 0 && r.t.kind == reflect.Pointer && r.t.elem.kind == reflect.Struct {
				n := m.rvElem(r)
				if n == nil {
					m.rtPanic("reflect: indirection through nil pointer to embedded struct")
				}
				r = n
			}
			r = m.rvField(r, int(x.n))
		}
		return m.rv(r)
	})
	reg(q+"FieldByName", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "FieldByName")
		name, _ := concStr(a[1])
		obj, idx, _ := types.LookupFieldOrMethod(r.t.t, false, nil, name)
		if _, ok := obj.(*types.Var); !ok {
			return m.rv(nil)
		}
		for k, i := range idx {
			if k > 0 && r.t.kind == reflect.Pointer {
				r = m.rvElem(r)
			}
			r = m.rvField(r, i)
		}
		return m.rv(r)
	})
	reg(q+"Index", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "Index")
		v := r.get()
		switch x := v.x.(type) {
		case *Slice:
			i := m.intOf(a[1], rtInt)
			if i < 0 || int(i) >= len(x.e) {
				m.rtPanic("reflect: slice index out of range")
			}
			return m.rv(&RVal{t: r.t.elem, p: &x.e[i], ro: r.ro})
		case *Agg:
			i := m.intOf(a[1], rtInt)
			if i < 0 || int(i) >= len(x.e) {
				m.rtPanic("reflect: array index out of range")
			}
			n := &RVal{t: r.t.elem, ro: r.ro}
			if r.p != nil {
				n.p = &x.e[i]
			} else {
				n.v = x.e[i]
			}
			return m.rv(n)
		case string, *SStr:
			i := m.intOf(a[1], rtInt)
			if i < 0 || int(i) >= strLen(v) {
				m.rtPanic("reflect: string index out of range")
			}
			return m.rv(&RVal{t: rtOf(types.Typ[types.Uint8]), v: strAt(v, int(i))})
		case nil:
			m.rtPanic("reflect: slice index out of range")
		}
		m.valueErr("Index", r.t.kind.String()+" Value")
		return V{}
	})
	reg(q+"Int", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "Int")
		if !r.t.isInt() || !r.t.signed {
			m.valueErr("Int", r.t.kind.String()+" Value")
		}
		return m.convert(r.t, rtOf(types.Typ[types.Int64]), r.get())
	})
	reg(q+"Uint", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "Uint")
		if !r.t.isInt() || r.t.signed {
			m.valueErr("Uint", r.t.kind.String()+" Value")
		}
		return m.convert(r.t, rtOf(types.Typ[types.Uint64]), r.get())
	})
	reg(q+"Float", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "Float")
		return m.convert(r.t, rtOf(types.Typ[types.Float64]), r.get())
	})
	reg(q+"Bool", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "Bool")
		if r.t.kind != reflect.Bool {
			m.valueErr("Bool", r.t.kind.String()+" Value")
		}
		return r.get()
	})
	reg(q+"String", func(m *M, in *Instr, a []V) V {
		r := argRV(a[0])
		if r == nil {
			return mkStr("<invalid Value>")
		}
		if r.t.kind != reflect.String {
			return mkStr("<" + r.t.String() + " Value>")
		}
		return r.get()
	})
	reg(q+"Bytes", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "Bytes")
		if x, ok := r.get().x.(*Agg); ok {
			return V{x: &Slice{x.e}}
		}
		return r.get()
	})
	reg(q+"Cap", func(m *M, in *Instr, a []V) V {
		switch x := m.need(a[0], "Cap").get().x.(type) {
		case *Slice:
			return V{n: uint64(cap(x.e))}
		case *Agg:
			return V{n: uint64(len(x.e))}
		}
		return V{}
	})
	setter := func(name string) {
		reg(q+name, func(m *M, in *Instr, a []V) V {
			r := m.need(a[0], name)
			m.mustSet(r, name)
			v := a[1]
			switch name {
			case "SetInt":
				v = m.convert(rtOf(types.Typ[types.Int64]), r.t, v)
			case "SetUint":
				v = m.convert(rtOf(types.Typ[types.Uint64]), r.t, v)
			case "SetFloat":
				v = m.convert(rtOf(types.Typ[types.Float64]), r.t, v)
			case "SetString":
				if r.t.kind != reflect.String {
					m.valueErr(name, r.t.kind.String()+" Value")
				}
			}
			m.store(r.p, v)
			return V{}
		})
	}
	for _, n := range []string{"SetInt", "SetUint", "SetFloat", "SetString", "SetBool", "SetBytes"} {
		setter(n)
	}
	reg(q+"SetZero", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "SetZero")
		m.mustSet(r, "SetZero")
		m.store(r.p, zero(r.t))
		return V{}
	})
	reg(q+"SetLen", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "SetLen")
		n := m.intOf(a[1], rtInt)
		s, _ := r.get().x.(*Slice)
		c := 0
		if s != nil {
			c = cap(s.e)
		}
		if n < 0 || int(n) > c {
			m.rtPanic("reflect: slice length out of range in SetLen")
		}
		if s == nil {
			return V{}
		}
		m.set(r.p, V{x: &Slice{s.e[:n]}})
		return V{}
	})
	reg(q+"SetCap", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "SetCap")
		n := m.intOf(a[1], rtInt)
		s, _ := r.get().x.(*Slice)
		if s != nil {
			m.set(r.p, V{x: &Slice{s.e[:len(s.e):n]}})
		}
		return V{}
	})
	reg(q+"Grow", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "Grow")
		n := int(m.intOf(a[1], rtInt))
		s, _ := r.get().x.(*Slice)
		if s == nil {
			s = &Slice{}
		}
		l := len(s.e)
		if l+n > cap(s.e) {
			ns := m.appendV(s, zeros(r.t.elem, n), r.t.elem)
			m.set(r.p, V{x: &Slice{ns.e[:l]}})
		}
		return V{}
	})
	reg(q+"Slice", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "Slice")
		i, j := m.intOf(a[1], rtInt), m.intOf(a[2], rtInt)
		switch x := r.get().x.(type) {
		case *Slice:
			return m.rv(&RVal{t: r.t, v: V{x: &Slice{x.e[i:j]}}})
		case *Agg:
			return m.rv(&RVal{t: rtOf(types.NewSlice(r.t.elem.t)), v: V{x: &Slice{x.e[i:j]}}})
		case string, *SStr:
			return m.rv(&RVal{t: r.t, v: strSlice(r.get(), int(i), int(j))})
		}
		return m.rv(r)
	})
	reg(q+"IsZero", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "IsZero")
		return boolV(m.isZero(r.t, r.get()))
	})
	reg(q+"MapKeys", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "MapKeys")
		mp, _ := r.get().x.(*Map)
		var out []V
		if mp != nil {
			for _, e := range mp.ents {
				if !e.dead {
					out = append(out, m.rv(&RVal{t: r.t.key, v: e.k}))
				}
			}
		}
		return V{x: &Slice{out}}
	})
	reg(q+"MapIndex", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "MapIndex")
		mp, _ := r.get().x.(*Map)
		e := m.mapFind(mp, m.assignTo(r.t.key, m.need(a[1], "MapIndex")))
		if e == nil {
			return m.rv(nil)
		}
		return m.rv(&RVal{t: r.t.elem, v: copyV(e.cell)})
	})
	reg(q+"SetMapIndex", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "SetMapIndex")
		mp, _ := r.get().x.(*Map)
		x := argRV(a[2])
		k := m.assignTo(r.t.key, m.need(a[1], "SetMapIndex"))
		if x == nil {
			m.mapDelete(mp, k)
		} else {
			m.mapSet(mp, k, m.assignTo(r.t.elem, x))
		}
		return V{}
	})
	reg(q+"NumMethod", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "NumMethod")
		if it, ok := r.t.u.(*types.Interface); ok {
			return V{n: uint64(it.NumMethods())}
		}
		return V{n: uint64(len(exportedMethods(r.t)))}
	})
	ptr := func(m *M, in *Instr, a []V) V {
		v := m.need(a[0], "Pointer").get()
		return V{x: v.x}
	}
	reg(q+"Pointer", ptr)
	reg(q+"UnsafePointer", ptr)
	reg(q+"UnsafeAddr", ptr)
	reg(q+"Comparable", func(m *M, in *Instr, a []V) V { return b(types.Comparable(m.need(a[0], "Comparable").t.t)) })
	reg(q+"CanInt", func(m *M, in *Instr, a []V) V { r := argRV(a[0]); return b(r != nil && r.t.isInt() && r.t.signed) })
	reg(q+"CanUint", func(m *M, in *Instr, a []V) V { r := argRV(a[0]); return b(r != nil && r.t.isInt() && !r.t.signed) })
	reg(q+"CanFloat", func(m *M, in *Instr, a []V) V { r := argRV(a[0]); return b(r != nil && r.t.isFloat()) })
	reg(q+"CanConvert", func(m *M, in *Instr, a []V) V {
		return b(types.ConvertibleTo(m.need(a[0], "CanConvert").t.t, T(a[1]).t))
	})
	reg(q+"Convert", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "Convert")
		t := T(a[1])
		if t.kind == reflect.Interface {
			return m.rv(&RVal{t: t, v: m.toIface(r)})
		}
		return m.rv(&RVal{t: t, v: m.convert(r.t, t, r.get())})
	})
	reg(q+"OverflowInt", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "OverflowInt")
		w := r.t.w
		x := m.ex(a[1], 64)
		if w == 64 {
			return V{}
		}
		return boolV(m.st.Not(m.st.Eq(m.st.SExt(m.st.Extract(x, 0, w), 64), x)))
	})
	reg(q+"OverflowUint", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "OverflowUint")
		w := r.t.w
		x := m.ex(a[1], 64)
		if w == 64 {
			return V{}
		}
		return boolV(m.st.Not(m.st.Eq(m.st.ZExt(m.st.Extract(x, 0, w), 64), x)))
	})
	// Call and Method: direct invocation
	reg(q+"MethodByName", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "MethodByName")
		name, _ := concStr(a[1])
		t := r.t
		v := r.get()
		if t.kind == reflect.Interface {
			i, _ := v.x.(*Iface)
			if i == nil {
				return m.rv(nil)
			}
			t, v = i.t, i.v
		}
		ms := types.NewMethodSet(t.t)
		sel := ms.Lookup(nil, name)
		if sel == nil {
			return m.rv(nil)
		}
		fn := m.lookupMethod(t, name, nil)
		sig := sel.Type().(*types.Signature)
		ft := rtOf(types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic()))
		return m.rv(&RVal{t: ft, v: V{x: &Closure{fn: fn, free: []V{{x: boundRecv{copyV(v)}}}}}})
	})
	intrinsics[q+"Call"] = func(m *M, in *Instr, a []V) (V, *Frame) {
		r := m.need(a[0], "Call")
		cl, _ := r.get().x.(*Closure)
		var args []V
		free := cl.free
		if len(cl.free) == 1 {
			if br, ok := cl.free[0].x.(boundRecv); ok {
				args = append(args, br.v)
				free = nil
			}
		}
		sig := r.t.u.(*types.Signature)
		if s, ok := a[1].x.(*Slice); ok {
			for i, x := range s.e {
				args = append(args, m.assignTo(rtOf(sig.Params().At(i).Type()), argRV(x)))
			}
		}
		wrap := func(m *M, v V) V {
			n := sig.Results().Len()
			var out []V
			for i := 0; i < n; i++ {
				x := v
				if n > 1 {
					x = v.x.(*Agg).e[i]
				}
				out = append(out, m.rv(&RVal{t: rtOf(sig.Results().At(i).Type()), v: x}))
			}
			return V{x: &Slice{out}}
		}
		if cl.fn.intr != nil {
			v, nf := cl.fn.intr(m, in, args)
			if nf != nil {
				panic(unsupported{"reflect call of " + cl.fn.name})
			}
			return wrap(m, v), nil
		}
		m.checkBody(cl.fn)
		f := m.newFrame(cl.fn, args, free)
		f.onRet = wrap
		return V{}, f
	}
	// map iterators
	reg(q+"MapRange", func(m *M, in *Instr, a []V) V {
		r := m.need(a[0], "MapRange")
		mp, _ := r.get().x.(*Map)
		var l mapIter
		if mp != nil {
			for _, e := range mp.ents {
				if !e.dead {
					l = append(l, e)
				}
			}
		}
		c := V{x: &Agg{[]V{{x: l}, {}, {x: r.t}}}}
		return V{x: &c}
	})
	reg("(*reflect.MapIter).Next", func(m *M, in *Instr, a []V) V {
		g := a[0].x.(*V).x.(*Agg)
		n := g.e[1].n
		m.set(&g.e[1], V{n: n + 1})
		return b(int(n) < len(g.e[0].x.(mapIter)))
	})
	reg("(*reflect.MapIter).Key", func(m *M, in *Instr, a []V) V {
		g := a[0].x.(*V).x.(*Agg)
		return m.rv(&RVal{t: g.e[2].x.(*RT).key, v: g.e[0].x.(mapIter)[g.e[1].n-1].k})
	})
	reg("(*reflect.MapIter).Value", func(m *M, in *Instr, a []V) V {
		g := a[0].x.(*V).x.(*Agg)
		return m.rv(&RVal{t: g.e[2].x.(*RT).elem, v: copyV(g.e[0].x.(mapIter)[g.e[1].n-1].cell)})
	})
	_ = math.Pi
}

type boundRecv struct{ v V }

func (m *M) deepEq(x, y V, t *RT, depth int) *Expr {
	s := m.st
	if depth > 60 {
		panic(unsupported{"DeepEqual depth"})
	}
	switch t.kind {
	case reflect.Interface:
		a, _ := x.x.(*Iface)
		c, _ := y.x.(*Iface)
		if a == nil || c == nil {
			return s.Bool(a == nil && c == nil)
		}
		if a.t != c.t {
			return s.F
		}
		return m.deepEq(a.v, c.v, a.t, depth+1)
	case reflect.Pointer:
		if x.x == y.x {
			return s.T
		}
		if x.x == nil || y.x == nil {
			return s.F
		}
		a, ok1 := x.x.(*V)
		c, ok2 := y.x.(*V)
		if !ok1 || !ok2 {
			return s.F
		}
		return m.deepEq(*a, *c, t.elem, depth+1)
	case reflect.Slice:
		a, _ := x.x.(*Slice)
		c, _ := y.x.(*Slice)
		if a == nil || c == nil {
			return s.Bool(a == nil && c == nil)
		}
		if len(a.e) != len(c.e) {
			return s.F
		}
		r := s.T
		for i := range a.e {
			r = s.And(r, m.deepEq(a.e[i], c.e[i], t.elem, depth+1))
			if r == s.F {
				break
			}
		}
		return r
	case reflect.Array:
		r := s.T
		for i := range x.x.(*Agg).e {
			r = s.And(r, m.deepEq(x.x.(*Agg).e[i], y.x.(*Agg).e[i], t.elem, depth+1))
		}
		return r
	case reflect.Struct:
		r := s.T
		for i, f := range t.fields {
			r = s.And(r, m.deepEq(x.x.(*Agg).e[i], y.x.(*Agg).e[i], f, depth+1))
			if r == s.F {
				break
			}
		}
		return r
	case reflect.Map:
		a, _ := x.x.(*Map)
		c, _ := y.x.(*Map)
		if a == nil || c == nil {
			return s.Bool(a == nil && c == nil)
		}
		if a.live != c.live {
			return s.F
		}
		r := s.T
		for _, e := range a.ents {
			if e.dead {
				continue
			}
			f := m.mapFind(c, e.k)
			if f == nil {
				return s.F
			}
			r = s.And(r, m.deepEq(e.cell, f.cell, t.elem, depth+1))
		}
		return r
	case reflect.Func:
		return s.Bool(x.x == nil && y.x == nil)
	}
	return m.eq(t, x, y)
}
