package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// V is one interpreter value (also one memory cell).
//
//	bool, integers, floats: n (bits), or x=*Expr when symbolic
//	string:  x=string | *SStr | nil ("")
//	pointer: x=*V | *SymPtr | *DataPtr | native pointer-like objects
//	struct, array, tuple: x=*Agg
//	slice:   x=*Slice, map: x=*Map, interface: x=*Iface, func: x=*Closure
type V struct {
	n uint64
	x any
}

type Agg struct{ e []V }
type Slice struct{ e []V }
type SStr struct{ b []*Expr }
type Iface struct {
	t *RT
	v V
}
type Closure struct {
	fn     *Func
	free   []V
	native func(m *M, args []V) V
}

// SymPtr points at e[idx] for a symbolic idx already known to be in range.
type SymPtr struct {
	e   []V
	idx *Expr
	t   *RT // element type
}

// DataPtr is the result of unsafe.SliceData / unsafe.StringData.
type DataPtr struct{ e []V }

// RT is a canonical run-time type.
type RT struct {
	t       types.Type
	u       types.Type // underlying
	id      int
	kind    reflect.Kind
	w       uint8 // bit width of scalars (0 for bool)
	signed  bool
	elem    *RT
	key     *RT
	n       int
	fields  []*RT
	mu      sync.Mutex
	methods map[string]*Func
	ptr     *RT
	comp    int8
}

var (
	rtMu  sync.RWMutex
	rtMap typeutil.Map
	rtAll []*RT
	rtPtr = map[types.Type]*RT{} // pointer-identity cache
)

func rtOf(t types.Type) *RT {
	rtMu.RLock()
	r := rtPtr[t]
	rtMu.RUnlock()
	if r != nil {
		return r
	}
	rtMu.Lock()
	defer rtMu.Unlock()
	return rtLocked(t)
}

func rtLocked(t types.Type) *RT {
	if r := rtPtr[t]; r != nil {
		return r
	}
	if a, ok := t.(*types.Alias); ok {
		r := rtLocked(types.Unalias(a))
		rtPtr[t] = r
		return r
	}
	if x := rtMap.At(t); x != nil {
		r := x.(*RT)
		rtPtr[t] = r
		return r
	}
	r := &RT{t: t, u: t.Underlying(), id: len(rtAll), methods: map[string]*Func{}}
	rtAll = append(rtAll, r)
	rtMap.Set(t, r)
	rtPtr[t] = r
	switch u := r.u.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			r.kind = reflect.Bool
		case types.Int, types.UntypedInt:
			r.kind, r.w, r.signed = reflect.Int, 64, true
		case types.Int8:
			r.kind, r.w, r.signed = reflect.Int8, 8, true
		case types.Int16:
			r.kind, r.w, r.signed = reflect.Int16, 16, true
		case types.Int32, types.UntypedRune:
			r.kind, r.w, r.signed = reflect.Int32, 32, true
		case types.Int64:
			r.kind, r.w, r.signed = reflect.Int64, 64, true
		case types.Uint:
			r.kind, r.w = reflect.Uint, 64
		case types.Uint8:
			r.kind, r.w = reflect.Uint8, 8
		case types.Uint16:
			r.kind, r.w = reflect.Uint16, 16
		case types.Uint32:
			r.kind, r.w = reflect.Uint32, 32
		case types.Uint64:
			r.kind, r.w = reflect.Uint64, 64
		case types.Uintptr:
			r.kind, r.w = reflect.Uintptr, 64
		case types.Float32:
			r.kind, r.w = reflect.Float32, 32
		case types.Float64, types.UntypedFloat:
			r.kind, r.w = reflect.Float64, 64
		case types.Complex64:
			r.kind = reflect.Complex64
		case types.Complex128, types.UntypedComplex:
			r.kind = reflect.Complex128
		case types.String, types.UntypedString:
			r.kind = reflect.String
		case types.UnsafePointer, types.UntypedNil:
			r.kind = reflect.UnsafePointer
		}
	case *types.Pointer:
		r.kind = reflect.Pointer
		r.elem = rtLocked(u.Elem())
	case *types.Slice:
		r.kind = reflect.Slice
		r.elem = rtLocked(u.Elem())
	case *types.Array:
		r.kind = reflect.Array
		r.elem = rtLocked(u.Elem())
		r.n = int(u.Len())
	case *types.Map:
		r.kind = reflect.Map
		r.key = rtLocked(u.Key())
		r.elem = rtLocked(u.Elem())
	case *types.Chan:
		r.kind = reflect.Chan
		r.elem = rtLocked(u.Elem())
	case *types.Signature:
		r.kind = reflect.Func
	case *types.Interface:
		r.kind = reflect.Interface
	case *types.Struct:
		r.kind = reflect.Struct
		for i := 0; i < u.NumFields(); i++ {
			r.fields = append(r.fields, rtLocked(u.Field(i).Type()))
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			r.fields = append(r.fields, rtLocked(u.At(i).Type()))
		}
	}
	return r
}

func ptrTo(r *RT) *RT {
	r.mu.Lock()
	p := r.ptr
	r.mu.Unlock()
	if p != nil {
		return p
	}
	p = rtOf(types.NewPointer(r.t))
	r.mu.Lock()
	r.ptr = p
	r.mu.Unlock()
	return p
}

func qual(p *types.Package) string { return p.Name() }

func (r *RT) String() string {
	s := types.TypeString(r.t, qual)
	s = strings.ReplaceAll(s, "interface{}", "interface {}")
	if s == "any" {
		return "interface {}"
	}
	return s
}

func (r *RT) isInt() bool { return r.kind >= reflect.Int && r.kind <= reflect.Uintptr }
func (r *RT) isFloat() bool {
	return r.kind == reflect.Float32 || r.kind == reflect.Float64
}

func zero(r *RT) V {
	switch r.kind {
	case reflect.Struct:
		a := &Agg{make([]V, len(r.fields))}
		for i, f := range r.fields {
			if f.kind == reflect.Struct || f.kind == reflect.Array {
				a.e[i] = zero(f)
			}
		}
		return V{x: a}
	case reflect.Array:
		a := &Agg{make([]V, r.n)}
		if r.elem.kind == reflect.Struct || r.elem.kind == reflect.Array {
			for i := range a.e {
				a.e[i] = zero(r.elem)
			}
		}
		return V{x: a}
	}
	if r.fields != nil { // tuple
		a := &Agg{make([]V, len(r.fields))}
		for i, f := range r.fields {
			a.e[i] = zero(f)
		}
		return V{x: a}
	}
	return V{}
}

func zeros(r *RT, n int) []V {
	e := make([]V, n)
	if r.kind == reflect.Struct || r.kind == reflect.Array {
		for i := range e {
			e[i] = zero(r)
		}
	}
	return e
}

func copyV(v V) V {
	if a, ok := v.x.(*Agg); ok {
		n := &Agg{make([]V, len(a.e))}
		for i := range a.e {
			if _, ok := a.e[i].x.(*Agg); ok {
				n.e[i] = copyV(a.e[i])
			} else {
				n.e[i] = a.e[i]
			}
		}
		return V{x: n}
	}
	return v
}

func mkStr(s string) V {
	if s == "" {
		return V{}
	}
	return V{x: s}
}

func strLen(v V) int {
	switch s := v.x.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v.x))
}

// strBytes gives the bytes of a string value as cells.
func strCells(v V) []V {
	switch s := v.x.(type) {
	case nil:
		return nil
	case string:
		e := make([]V, len(s))
		for i := 0; i < len(s); i++ {
			e[i].n = uint64(s[i])
		}
		return e
	case *SStr:
		e := make([]V, len(s.b))
		for i, b := range s.b {
			if b.isConst() {
				e[i].n = b.k
			} else {
				e[i].x = b
			}
		}
		return e
	}
	panic(fmt.Sprintf("strCells of %T", v.x))
}

func strAt(v V, i int) V {
	switch s := v.x.(type) {
	case string:
		return V{n: uint64(s[i])}
	case *SStr:
		if s.b[i].isConst() {
			return V{n: s.b[i].k}
		}
		return V{x: s.b[i]}
	}
	panic("strAt")
}

func strSlice(v V, lo, hi int) V {
	if lo == hi {
		return V{}
	}
	switch s := v.x.(type) {
	case string:
		return V{x: s[lo:hi]}
	case *SStr:
		b := s.b[lo:hi:hi]
		for _, c := range b {
			if !c.isConst() {
				return V{x: &SStr{b}}
			}
		}
		r := make([]byte, len(b))
		for i, c := range b {
			r[i] = byte(c.k)
		}
		return V{x: string(r)}
	}
	panic("strSlice")
}

func cellsToStr(st *Store, e []V) V {
	if len(e) == 0 {
		return V{}
	}
	sym := false
	for i := range e {
		if e[i].x != nil {
			sym = true
			break
		}
	}
	if !sym {
		r := make([]byte, len(e))
		for i := range e {
			r[i] = byte(e[i].n)
		}
		return V{x: string(r)}
	}
	b := make([]*Expr, len(e))
	for i := range e {
		if x, ok := e[i].x.(*Expr); ok {
			b[i] = x
		} else {
			b[i] = st.Const(e[i].n, 8)
		}
	}
	return V{x: &SStr{b}}
}

func (st *Store) strExprs(v V) []*Expr {
	switch s := v.x.(type) {
	case nil:
		return nil
	case string:
		b := make([]*Expr, len(s))
		for i := range b {
			b[i] = st.Const(uint64(s[i]), 8)
		}
		return b
	case *SStr:
		return s.b
	}
	panic("strExprs")
}

func exprsToStr(b []*Expr) V {
	if len(b) == 0 {
		return V{}
	}
	return strSlice(V{x: &SStr{b}}, 0, len(b))
}

func (st *Store) strCat(a, b V) V {
	if a.x == nil {
		return b
	}
	if b.x == nil {
		return a
	}
	if s, ok := a.x.(string); ok {
		if t, ok := b.x.(string); ok {
			return V{x: s + t}
		}
	}
	x, y := st.strExprs(a), st.strExprs(b)
	r := make([]*Expr, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return V{x: &SStr{r}}
}

func concStr(v V) (string, bool) {
	switch s := v.x.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

// Map is an insertion-ordered map (deterministic iteration).
type Map struct {
	rt   *RT
	idx  map[any]int // concrete keys
	ents []*MapEnt   // in insertion order, dead ones removed on compaction
	live int
	syms int // number of live entries with a symbolic key
}
type MapEnt struct {
	k    V
	cell V
	dead bool
	sym  bool
}

// mapKey gives a Go-comparable key for a concrete value, false if symbolic.
func mapKey(v V) (any, bool) {
	switch x := v.x.(type) {
	case nil:
		return v.n, true
	case string:
		return x, true
	case *SStr, *Expr:
		return nil, false
	case *Iface:
		k, ok := mapKey(x.v)
		if !ok {
			return nil, false
		}
		return ikey{x.t, k}, true
	case *Agg:
		var sb strings.Builder
		ptrs := [4]any{}
		np := 0
		for _, e := range x.e {
			k, ok := mapKey(e)
			if !ok {
				return nil, false
			}
			switch k := k.(type) {
			case uint64:
				fmt.Fprintf(&sb, "n%d;", k)
			case string:
				fmt.Fprintf(&sb, "s%d:%s;", len(k), k)
			default:
				if np < 4 {
					ptrs[np] = k
					np++
					sb.WriteString("p;")
				} else {
					fmt.Fprintf(&sb, "q%p;", k)
				}
			}
		}
		return akey{sb.String(), ptrs}, true
	default:
		return x, true
	}
}

type ikey struct {
	t *RT
	k any
}
type akey struct {
	s string
	p [4]any
}

var emptyStrKey any = ""

func normKey(v V, rt *RT) (any, bool) {
	if v.x == nil && rt.kind == reflect.String {
		return emptyStrKey, true
	}
	return mapKey(v)
}
