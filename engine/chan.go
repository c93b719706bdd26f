package main

// Channels and goroutines are outside the encoded fragment, except for
// buffered operations that cannot block.

type Chan struct {
	buf    []V
	cap    int
	closed bool
}

func (m *M) spawn(cl *Closure, args []V) {
	if m.initing {
		return
	}
	panic(unsupported{"goroutine"})
}

func (m *M) makeChan(f *Frame, in *Instr) {
	n := m.intOf(m.get(f, in.a), rtInt)
	m.touch(f)
	f.regs[in.d] = V{x: &Chan{cap: int(n)}}
}

func (m *M) chanSend(f *Frame, in *Instr) {
	c, _ := m.get(f, in.a).x.(*Chan)
	if c == nil {
		panic(unsupported{"send on nil channel"})
	}
	if c.closed {
		m.rtPanic("send on closed channel")
	}
	if len(c.buf) >= c.cap {
		panic(unsupported{"blocking send"})
	}
	old := c.buf
	c.buf = append(append([]V(nil), c.buf...), copyV(m.get(f, in.b)))
	m.undoable(func() { c.buf = old })
}

func (m *M) chanRecv(f *Frame, in *Instr) {
	c, _ := m.get(f, in.a).x.(*Chan)
	if c == nil {
		panic(unsupported{"receive on nil channel"})
	}
	var v V
	ok := false
	switch {
	case len(c.buf) > 0:
		old := c.buf
		v, ok = c.buf[0], true
		c.buf = c.buf[1:]
		m.undoable(func() { c.buf = old })
	case c.closed:
		v = zero(in.t.elem)
	default:
		panic(unsupported{"blocking receive"})
	}
	if in.commaOk {
		v = V{x: &Agg{[]V{v, {n: b2u(ok)}}}}
	}
	f.regs[in.d] = v
}

func (m *M) chanSelect(f *Frame, in *Instr) {
	if in.commaOk { // blocking
		panic(unsupported{"blocking select"})
	}
	// a non-blocking select with no ready case takes the default
	for i := 0; i < len(in.args); i += 2 {
		if c, _ := m.get(f, in.args[i]).x.(*Chan); c != nil && (len(c.buf) > 0 || c.closed) {
			panic(unsupported{"select with a ready case"})
		}
	}
	r := zero(in.t2)
	r.x.(*Agg).e[0] = V{n: ^uint64(0)}
	f.regs[in.d] = r
}

func (m *M) chanClose(v V) {
	c, _ := v.x.(*Chan)
	if c == nil {
		m.rtPanic("close of nil channel")
	}
	if c.closed {
		m.rtPanic("close of closed channel")
	}
	c.closed = true
	m.undoable(func() { c.closed = false })
}
