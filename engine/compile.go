package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type IOp uint8

const (
	INop IOp = iota
	IAlloc
	IMove
	IPhi // parallel moves on an edge
	ICall
	IBin
	INeg
	INot
	ICompl
	ILoad
	IStore
	IConvert
	IMakeIface
	IMakeClosure
	IMakeMap
	IMakeChan
	IMakeSlice
	ISlice
	ISliceToArrPtr
	IFieldAddr
	IField
	IIndexAddr
	IIndex
	ILookup
	IRange
	INext
	ITypeAssert
	IExtract
	IJump
	IIf
	IReturn
	IRunDefers
	IPanic
	IGo
	IDefer
	IMapUpdate
	ISend
	IRecv
	ISelect
)

type Instr struct {
	op      IOp
	tok     token.Token
	commaOk bool
	d       int32
	a, b, c int32
	n       int32
	args    []int32
	t, t2   *RT // operand / result types
	fn      *Func
	name    string
	meth    *types.Func
	bi      string // builtin name
	moves   [][2]int32
	site    int32
	pos     token.Pos
	aux     any
	rts     []*RT
}

type KOperand struct {
	v V
	g int32 // global index or -1
}

type Func struct {
	f       *ssa.Function
	name    string
	code    []Instr
	nregs   int
	nparams int
	consts  []KOperand
	free0   int32 // first register of free variables
	recover int   // pc of the recover block, or -1
	rets    []int32
	state   int32
	mu      sync.Mutex
	intr    Intrinsic
	depth   int
	isRepo  bool
	fid     int32
	results *types.Tuple
	seen    atomic.Bool
}

type Prog struct {
	prog    *ssa.Program
	mu      sync.RWMutex
	funcs   map[*ssa.Function]*Func
	globals map[*ssa.Global]int32
	glist   []*ssa.Global
	nfunc   int32
	wk      *wellKnown
	order   []*ssa.Package
	warmup  []*ssa.Function
}

func (p *Prog) fn(f *ssa.Function) *Func {
	p.mu.RLock()
	r := p.funcs[f]
	p.mu.RUnlock()
	if r != nil {
		return r
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if r := p.funcs[f]; r != nil {
		return r
	}
	p.nfunc++
	r = &Func{f: f, name: f.String(), recover: -1, fid: p.nfunc, results: f.Signature.Results()}
	o := f
	if f.Origin() != nil {
		o = f.Origin()
	}
	r.intr = intrinsics[r.name]
	if r.intr == nil && o != f {
		r.intr = intrinsics[o.String()]
	}
	if r.intr == nil && f.Object() != nil {
		// methods of reflect.rtype & co reached through wrappers
		if f.Synthetic != "" {
			if of, ok := f.Object().(*types.Func); ok && f.Signature.Recv() == nil && len(f.FreeVars) == 0 {
				_ = of
			}
		}
	}
	if w := wrappers[r.name]; r.intr == nil && (w != nil || strings.HasPrefix(r.name, "(*math/big.")) {
		{
			r.intr = func(m *M, in *Instr, a []V) (V, *Frame) {
				if w != nil {
					if v, ok := w(m, a); ok {
						return v, nil
					}
				}
				m.materialize(r, a)
				m.checkBody(r)
				return V{}, m.newFrame(r, a, nil)
			}
		}
	}
	r.isRepo = o.Pkg != nil && isRepoPath(o.Pkg.Pkg.Path())
	if r.intr != nil {
		r.intr = atomicIntr(o.String(), r.intr)
	}
	p.funcs[f] = r
	return r
}

func (p *Prog) global(g *ssa.Global) int32 {
	p.mu.RLock()
	i, ok := p.globals[g]
	p.mu.RUnlock()
	if ok {
		return i
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.globals[g]; ok {
		return i
	}
	i = int32(len(p.glist))
	p.glist = append(p.glist, g)
	p.globals[g] = i
	return i
}

func constV(c *ssa.Const) V {
	rt := rtOf(c.Type())
	if c.Value == nil {
		return zero(rt)
	}
	return constantV(c.Value, rt)
}

func constantV(cv constant.Value, rt *RT) V {
	switch {
	case rt.kind == reflect.Bool:
		return V{n: b2u(constant.BoolVal(cv))}
	case rt.kind == reflect.String:
		return mkStr(constant.StringVal(cv))
	case rt.isInt():
		cv = constant.ToInt(cv)
		if i, ok := constant.Int64Val(cv); ok {
			return V{n: uint64(i) & mask(rt.w)}
		}
		u, _ := constant.Uint64Val(cv)
		return V{n: u & mask(rt.w)}
	case rt.kind == reflect.Float64:
		f, _ := constant.Float64Val(cv)
		return V{n: math.Float64bits(f)}
	case rt.kind == reflect.Float32:
		f, _ := constant.Float32Val(cv)
		return V{n: uint64(math.Float32bits(f))}
	case rt.kind == reflect.Complex64, rt.kind == reflect.Complex128:
		re, _ := constant.Float64Val(constant.Real(cv))
		im, _ := constant.Float64Val(constant.Imag(cv))
		return V{x: complex(re, im)}
	case rt.kind == reflect.UnsafePointer:
		return V{}
	case rt.kind == reflect.Interface: // type-parameter leftovers
		return V{}
	}
	panic(fmt.Sprintf("const %v of %v", cv, rt))
}

func (f *Func) ensure(p *Prog) {
	if atomic.LoadInt32(&f.state) == 2 {
		return
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.state == 2 {
		return
	}
	f.compile(p)
	atomic.StoreInt32(&f.state, 2)
}

type compiler struct {
	p    *Prog
	f    *Func
	regs map[ssa.Value]int32
	kmap map[any]int32
}

func (c *compiler) reg(v ssa.Value) int32 {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := int32(c.f.nregs)
	c.f.nregs++
	c.regs[v] = r
	return r
}

func (c *compiler) opnd(v ssa.Value) int32 {
	switch v := v.(type) {
	case nil:
		return math.MinInt32
	case *ssa.Const:
		return c.k(v, KOperand{v: constV(v), g: -1})
	case *ssa.Global:
		return c.k(v, KOperand{g: c.p.global(v)})
	case *ssa.Function:
		return c.k(v, KOperand{v: V{x: &Closure{fn: c.p.fn(v)}}, g: -1})
	case *ssa.Builtin:
		return math.MinInt32
	}
	return c.reg(v)
}

func (c *compiler) k(key any, o KOperand) int32 {
	if i, ok := c.kmap[key]; ok {
		return i
	}
	c.f.consts = append(c.f.consts, o)
	i := ^int32(len(c.f.consts) - 1)
	c.kmap[key] = i
	return i
}

func (f *Func) compile(p *Prog) {
	sf := f.f
	f.nparams = len(sf.Params)
	if sf.Blocks == nil {
		return
	}
	c := &compiler{p: p, f: f, regs: map[ssa.Value]int32{}, kmap: map[any]int32{}}
	for _, x := range sf.Params {
		c.reg(x)
	}
	f.free0 = int32(f.nregs)
	for _, x := range sf.FreeVars {
		c.reg(x)
	}
	start := map[*ssa.BasicBlock]int{}
	type fix struct {
		at  int
		blk *ssa.BasicBlock
		els bool
	}
	var fixes []fix
	var code []Instr
	edge := func(from, to *ssa.BasicBlock) [][2]int32 {
		var mv [][2]int32
		pi := -1
		for i, pr := range to.Preds {
			if pr == from {
				pi = i
			}
		}
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			mv = append(mv, [2]int32{c.reg(ph), c.opnd(ph.Edges[pi])})
		}
		return mv
	}
	for _, b := range sf.Blocks {
		start[b] = len(code)
		if b == sf.Recover {
			f.recover = len(code)
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Jump:
				if mv := edge(b, b.Succs[0]); len(mv) > 0 {
					code = append(code, Instr{op: IPhi, moves: mv})
				}
				fixes = append(fixes, fix{len(code), b.Succs[0], false})
				code = append(code, Instr{op: IJump})
			case *ssa.If:
				// cond in a; then target n, else target c
				at := len(code)
				code = append(code, Instr{op: IIf, a: c.opnd(in.Cond), pos: in.Cond.Pos()})
				for k := 0; k < 2; k++ {
					to := b.Succs[k]
					mv := [][2]int32(nil)
					if b.Succs[0] == b.Succs[1] {
						// duplicate edges: pick the k-th predecessor entry
						mv = edgeK(c, b, to, k)
					} else {
						mv = edge(b, to)
					}
					if len(mv) > 0 {
						if k == 0 {
							code[at].n = int32(len(code))
						} else {
							code[at].c = int32(len(code))
						}
						code = append(code, Instr{op: IPhi, moves: mv})
						fixes = append(fixes, fix{len(code), to, false})
						code = append(code, Instr{op: IJump})
					} else {
						fixes = append(fixes, fix{at, to, k == 1})
					}
				}
			default:
				code = append(code, c.instr(in))
			}
		}
	}
	for _, x := range fixes {
		if code[x.at].op == IIf && x.els {
			code[x.at].c = int32(start[x.blk])
		} else {
			code[x.at].n = int32(start[x.blk])
		}
	}
	f.code = code
}

func edgeK(c *compiler, from, to *ssa.BasicBlock, k int) [][2]int32 {
	var mv [][2]int32
	seen := 0
	pi := -1
	for i, pr := range to.Preds {
		if pr == from {
			if seen == k {
				pi = i
			}
			seen++
		}
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		mv = append(mv, [2]int32{c.reg(ph), c.opnd(ph.Edges[pi])})
	}
	return mv
}

func (c *compiler) call(r *Instr, cc *ssa.CallCommon) {
	r.pos = cc.Pos()
	for _, a := range cc.Args {
		r.args = append(r.args, c.opnd(a))
	}
	r.a = math.MinInt32
	if cc.IsInvoke() {
		r.meth = cc.Method
		r.name = cc.Method.Name()
		if !cc.Method.Exported() && cc.Method.Pkg() != nil {
			r.name = cc.Method.Pkg().Path() + "." + r.name
		}
		r.a = c.opnd(cc.Value)
		return
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		r.bi = v.Name()
		for _, a := range cc.Args {
			r.rts = append(r.rts, rtOf(a.Type()))
		}
	case *ssa.Function:
		r.fn = c.p.fn(v)
	default:
		r.a = c.opnd(v)
	}
}

func (c *compiler) instr(in ssa.Instruction) Instr {
	r := Instr{pos: in.Pos()}
	if v, ok := in.(ssa.Value); ok {
		r.d = c.reg(v)
		r.t2 = rtOf(v.Type())
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		r.op = IAlloc
		r.t = rtOf(in.Type()).elem
	case *ssa.Call:
		r.op = ICall
		c.call(&r, &in.Call)
	case *ssa.Go:
		r.op = IGo
		c.call(&r, &in.Call)
	case *ssa.Defer:
		r.op = IDefer
		c.call(&r, &in.Call)
	case *ssa.BinOp:
		r.op = IBin
		r.tok = in.Op
		r.a, r.b = c.opnd(in.X), c.opnd(in.Y)
		r.t = rtOf(in.X.Type())
		yt := rtOf(in.Y.Type())
		r.aux = yt
		if r.t.kind == reflect.UnsafePointer || r.t.kind == reflect.Invalid {
			r.t = yt
		}
	case *ssa.UnOp:
		r.a = c.opnd(in.X)
		r.t = rtOf(in.X.Type())
		r.commaOk = in.CommaOk
		switch in.Op {
		case token.MUL:
			r.op = ILoad
		case token.SUB:
			r.op = INeg
		case token.NOT:
			r.op = INot
		case token.XOR:
			r.op = ICompl
		case token.ARROW:
			r.op = IRecv
		default:
			panic("unop " + in.Op.String())
		}
	case *ssa.ChangeType:
		r.op = IMove
		r.a = c.opnd(in.X)
	case *ssa.ChangeInterface:
		r.op = IMove
		r.a = c.opnd(in.X)
	case *ssa.Convert:
		r.op = IConvert
		r.a = c.opnd(in.X)
		r.t = rtOf(in.X.Type())
	case *ssa.MultiConvert:
		r.op = IConvert
		r.a = c.opnd(in.X)
		r.t = rtOf(in.X.Type())
	case *ssa.MakeInterface:
		r.op = IMakeIface
		r.a = c.opnd(in.X)
		r.t = rtOf(in.X.Type())
	case *ssa.MakeClosure:
		r.op = IMakeClosure
		r.fn = c.p.fn(in.Fn.(*ssa.Function))
		for _, b := range in.Bindings {
			r.args = append(r.args, c.opnd(b))
		}
	case *ssa.MakeMap:
		r.op = IMakeMap
	case *ssa.MakeChan:
		r.op = IMakeChan
		r.a = c.opnd(in.Size)
	case *ssa.MakeSlice:
		r.op = IMakeSlice
		r.a, r.b = c.opnd(in.Len), c.opnd(in.Cap)
	case *ssa.Slice:
		r.op = ISlice
		r.a = c.opnd(in.X)
		r.t = rtOf(in.X.Type())
		r.args = []int32{c.opnd(in.Low), c.opnd(in.High), c.opnd(in.Max)}
		if in.Low == nil {
			r.args[0] = math.MinInt32
		}
		if in.High == nil {
			r.args[1] = math.MinInt32
		}
		if in.Max == nil {
			r.args[2] = math.MinInt32
		}
	case *ssa.SliceToArrayPointer:
		r.op = ISliceToArrPtr
		r.a = c.opnd(in.X)
	case *ssa.FieldAddr:
		r.op = IFieldAddr
		r.a = c.opnd(in.X)
		r.n = int32(in.Field)
	case *ssa.Field:
		r.op = IField
		r.a = c.opnd(in.X)
		r.n = int32(in.Field)
	case *ssa.IndexAddr:
		r.op = IIndexAddr
		r.a, r.b = c.opnd(in.X), c.opnd(in.Index)
		r.t = rtOf(in.X.Type())
		r.aux = rtOf(in.Index.Type())
	case *ssa.Index:
		r.op = IIndex
		r.a, r.b = c.opnd(in.X), c.opnd(in.Index)
		r.t = rtOf(in.X.Type())
		r.aux = rtOf(in.Index.Type())
	case *ssa.Lookup:
		r.a, r.b = c.opnd(in.X), c.opnd(in.Index)
		r.t = rtOf(in.X.Type())
		r.aux = rtOf(in.Index.Type())
		r.commaOk = in.CommaOk
		if r.t.kind == reflect.String {
			r.op = IIndex
		} else {
			r.op = ILookup
		}
	case *ssa.Range:
		r.op = IRange
		r.a = c.opnd(in.X)
		r.t = rtOf(in.X.Type())
	case *ssa.Next:
		r.op = INext
		r.a = c.opnd(in.Iter)
		r.commaOk = in.IsString
	case *ssa.TypeAssert:
		r.op = ITypeAssert
		r.a = c.opnd(in.X)
		r.t = rtOf(in.AssertedType)
		r.commaOk = in.CommaOk
	case *ssa.Extract:
		r.op = IExtract
		r.a = c.opnd(in.Tuple)
		r.n = int32(in.Index)
	case *ssa.Return:
		r.op = IReturn
		for _, x := range in.Results {
			r.args = append(r.args, c.opnd(x))
		}
	case *ssa.RunDefers:
		r.op = IRunDefers
	case *ssa.Panic:
		r.op = IPanic
		r.a = c.opnd(in.X)
	case *ssa.Store:
		r.op = IStore
		r.a, r.b = c.opnd(in.Addr), c.opnd(in.Val)
	case *ssa.MapUpdate:
		r.op = IMapUpdate
		r.a, r.b, r.c = c.opnd(in.Map), c.opnd(in.Key), c.opnd(in.Value)
		r.t = rtOf(in.Map.Type())
	case *ssa.Send:
		r.op = ISend
		r.a, r.b = c.opnd(in.Chan), c.opnd(in.X)
	case *ssa.Select:
		r.op = ISelect
		r.aux = in
		r.commaOk = in.Blocking
		for _, s := range in.States {
			r.args = append(r.args, c.opnd(s.Chan), c.opnd(s.Send))
		}
	default:
		panic(fmt.Sprintf("instr %T", in))
	}
	return r
}
