package main

import (
	"sort"
	"strings"
)

// Concurrency: the harness runs the operations of several goroutines one after
// the other ("threads"). Every access to memory they share (what is reachable
// from the package-level variables of the code under test, what the harness
// shares, and all package-level variables themselves) is recorded with the
// locks held. Two accesses by different threads to the same place, at least one
// of them a write, without a lock that orders them, are a race. Without races
// every interleaving is equivalent to one in which critical sections and
// threads follow each other.

type access struct {
	thread int
	write  bool
	clock  int // of the thread
	locks  []lockRef
	seen   []*V        // mutexes the thread has locked before
	acq    map[int]int // clocks of other threads ordered before by atomics
	where  string
}

type lockRef struct {
	mu   *V
	excl bool
}

type conc struct {
	shared map[any]string // *V cells and *Map, with what they belong to
	cells  map[*V]string  // package-level variables of other packages
	thread int
	clock  int
	held   []lockRef
	seen   []*V
	acq    map[int]int
	rel    map[any]map[int]int
	recs   map[any][]access
}

const repoPath = "github.com/aclindsa/ofxgo"

func isRepoPath(p string) bool {
	return p == repoPath || strings.HasPrefix(p, repoPath+"/") || p == "verif/harness/ofxcli"
}

func (m *M) shareFrom(set map[any]string, v V, what string, deep bool) {
	switch x := v.x.(type) {
	case *V:
		if x != nil && deep {
			m.shareCell(set, x, what, true)
		}
	case *Agg:
		for i := range x.e {
			m.shareCell(set, &x.e[i], what, deep)
		}
	case *Slice:
		if deep && len(x.e) <= 1<<16 {
			for i := range x.e[:cap(x.e)] {
				m.shareCell(set, &x.e[:cap(x.e)][i], what, true)
			}
		}
	case *SymPtr:
	case *Map:
		if x == nil || !deep {
			return
		}
		if _, ok := set[x]; ok {
			return
		}
		set[x] = what
		for _, e := range x.ents {
			m.shareFrom(set, e.k, what, true)
			m.shareCell(set, &e.cell, what, true)
		}
	case *Iface:
		if x != nil {
			m.shareFrom(set, x.v, what, deep)
		}
	case *Closure:
		if x != nil && deep {
			for i := range x.free {
				m.shareFrom(set, x.free[i], what, true)
			}
		}
	}
}

func (m *M) shareCell(set map[any]string, c *V, what string, deep bool) {
	if _, ok := set[c]; ok {
		return
	}
	set[c] = what
	m.shareFrom(set, *c, what, deep)
}

// concStart collects the shared memory.
func (m *M) concStart() *conc {
	c := &conc{shared: map[any]string{}, cells: map[*V]string{}, recs: map[any][]access{}, rel: map[any]map[int]int{}}
	m.p.mu.RLock()
	gl := append(m.p.glist[:0:0], m.p.glist...)
	m.p.mu.RUnlock()
	for i, g := range gl {
		if g.Pkg == nil {
			continue
		}
		if isRepoPath(g.Pkg.Pkg.Path()) {
			m.gcell(int32(i))
		}
		if i >= len(m.globals) || m.globals[i] == nil {
			continue
		}
		name := g.Name()
		if isRepoPath(g.Pkg.Pkg.Path()) {
			m.shareCell(c.shared, m.globals[i], name, true)
			continue
		}
		if strings.HasPrefix(g.Pkg.Pkg.Path(), "verif/") {
			continue
		}
		flat := map[any]string{}
		m.shareCell(flat, m.globals[i], name, false)
		for k := range flat {
			if p, ok := k.(*V); ok {
				c.cells[p] = name
			}
		}
	}
	return c
}

// touched records an access to a cell or map.
func (m *M) touched(loc any, write bool) {
	c := m.conc
	if m.quiet > 0 || c.thread == 0 {
		return
	}
	what, ok := c.shared[loc]
	if !ok {
		p, is := loc.(*V)
		if !is || !write {
			return
		}
		if what, ok = c.cells[p]; !ok {
			return
		}
		// other packages look after their own variables
		if m.fr == nil || !m.fr.fn.isRepo {
			return
		}
	}
	if f := m.fr; f != nil {
		n := f.fn.name
		if strings.HasPrefix(n, "(*sync.") || strings.HasPrefix(n, "sync.") || strings.HasPrefix(n, "(*internal/sync.") || strings.HasPrefix(n, "(*sync/atomic.") {
			return
		}
	}
	old := c.recs[loc]
	for i, r := range old {
		if r.thread == c.thread && r.write == write && sameLocks(r.locks, c.held) && len(r.seen) == len(c.seen) && len(r.acq) == len(c.acq) {
			if r.clock == c.clock {
				return
			}
			n := append([]access(nil), old...)
			n[i].clock = c.clock
			c.recs[loc] = n
			m.undoable(func() { c.recs[loc] = old })
			return
		}
	}
	where := what
	if m.fr != nil {
		where += " in " + m.fr.fn.name
	}
	c.recs[loc] = append(old[:len(old):len(old)], access{c.thread, write, c.clock, c.held, c.seen, c.acq, where})
	m.undoable(func() { c.recs[loc] = old })
}

// read and wrote record accesses to a cell and its parts.
func (m *M) read(p *V) {
	m.touched(p, false)
	if a, ok := p.x.(*Agg); ok {
		for i := range a.e {
			m.read(&a.e[i])
		}
	}
}

func (m *M) readAll(e []V) {
	for i := range e {
		m.read(&e[i])
	}
}

func (m *M) wrote(p *V, v V) {
	m.touched(p, true)
	m.published(p, v)
}

func (m *M) wroteMap(mp *Map, k, v V) {
	m.touched(mp, true)
	m.published(mp, k)
	m.published(mp, v)
}

// published makes what is reachable from v shared when loc is.
func (m *M) published(loc any, v V) {
	c := m.conc
	what, ok := c.shared[loc]
	if !ok || v.x == nil {
		return
	}
	n := map[any]string{}
	m.shareFrom(n, v, what, true)
	for k := range n {
		if _, ok := c.shared[k]; ok {
			delete(n, k)
		} else {
			c.shared[k] = what
		}
	}
	if len(n) > 0 {
		m.undoable(func() {
			for k := range n {
				delete(c.shared, k)
			}
		})
	}
}

func sameLocks(a, b []lockRef) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// lock and unlock change the set of held locks.
func (m *M) lock(p V, excl bool) {
	c := m.conc
	mu, _ := p.x.(*V)
	if c == nil || mu == nil {
		return
	}
	for _, l := range c.held {
		if l.mu == mu && (l.excl || excl) {
			panic(violation{"deadlock", "lock taken again by its holder"})
		}
	}
	old, seen := c.held, c.seen
	c.held = append(old[:len(old):len(old)], lockRef{mu, excl})
	has := false
	for _, s := range seen {
		has = has || s == mu
	}
	if !has {
		c.seen = append(seen[:len(seen):len(seen)], mu)
	}
	m.undoable(func() { c.held, c.seen = old, seen })
}

func (m *M) unlock(p V, excl bool) {
	c := m.conc
	mu, _ := p.x.(*V)
	if c == nil || mu == nil {
		return
	}
	old := c.held
	for i := len(old) - 1; i >= 0; i-- {
		if old[i] == (lockRef{mu, excl}) {
			c.held = append(append([]lockRef(nil), old[:i]...), old[i+1:]...)
			m.undoable(func() { c.held = old })
			return
		}
	}
}

// atomically orders the thread after the others' operations on loc (acquire)
// and those after what the thread has done (release).
func (m *M) atomically(loc any, acquire, release bool) {
	c := m.conc
	if c.thread == 0 || loc == nil {
		return
	}
	if acquire && len(c.rel[loc]) > 0 {
		old := c.acq
		n := map[int]int{}
		for t, k := range old {
			n[t] = k
		}
		for t, k := range c.rel[loc] {
			if t != c.thread && k > n[t] {
				n[t] = k
			}
		}
		c.acq = n
		m.undoable(func() { c.acq = old })
	}
	if release {
		old, clock := c.rel[loc], c.clock
		n := map[int]int{}
		for t, k := range old {
			n[t] = k
		}
		c.clock++
		n[c.thread] = c.clock
		c.rel[loc] = n
		c.clock++
		m.undoable(func() { c.rel[loc], c.clock = old, clock })
	}
}

// atomicIntr wraps the intrinsics of sync and sync/atomic.
func atomicIntr(name string, f Intrinsic) Intrinsic {
	if !strings.HasPrefix(name, "sync/atomic.") && !strings.HasPrefix(name, "(*sync/atomic.") && !strings.HasPrefix(name, "internal/runtime/atomic.") && !strings.HasPrefix(name, "(*sync.Map).") {
		return f
	}
	i := strings.LastIndexByte(name, '.')
	op := name[i+1:]
	load := strings.HasPrefix(op, "Load")
	add := strings.HasPrefix(op, "Add") || strings.HasPrefix(op, "And") || strings.HasPrefix(op, "Or")
	return func(m *M, in *Instr, a []V) (V, *Frame) {
		if m.conc == nil {
			return f(m, in, a)
		}
		m.quiet++
		defer func() { m.quiet-- }()
		var loc any
		switch p := a[0].x.(type) {
		case *V:
			loc = p
		}
		v, fr := f(m, in, a)
		m.atomically(loc, !add, !load || op == "LoadOrStore" || op == "LoadAndDelete")
		return v, fr
	}
}

func (m *M) setConc(c *conc) {
	old := m.conc
	m.conc = c
	m.undoable(func() { m.conc = old })
}

// races looks for two accesses that conflict.
func (m *M) races() {
	var keys []any
	for k, rs := range m.conc.recs {
		if len(rs) == 0 {
			continue
		}
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return m.conc.recs[keys[i]][0].where < m.conc.recs[keys[j]][0].where })
	for _, k := range keys {
		rs := m.conc.recs[k]
		for i, a := range rs {
			for _, b := range rs[:i] {
				if a.thread == b.thread || !a.write && !b.write {
					continue
				}
				// b came first
				ordered := b.clock <= a.acq[b.thread]
				for _, x := range b.locks {
					for _, y := range a.seen {
						ordered = ordered || x.mu == y
					}
				}
				for _, x := range a.locks {
					for _, y := range b.locks {
						if x.mu == y.mu && (x.excl || y.excl) {
							ordered = true
						}
					}
				}
				if !ordered {
					panic(violation{"race", "unsynchronised accesses to " + a.where + " and " + b.where})
				}
			}
		}
	}
}

// Pools: what the code under test puts into one it gets again, last first.
func (m *M) unpool(p V) (V, bool) {
	k, _ := p.x.(*V)
	l := m.pools[k]
	if len(l) == 0 {
		return V{}, false
	}
	m.ensureMark()
	v := l[len(l)-1]
	m.pools[k] = l[: len(l)-1 : len(l)-1]
	m.undoable(func() { m.pools[k] = l })
	return v, true
}

func init() {
	reg("(*sync.Pool).Put", func(m *M, in *Instr, a []V) V {
		if m.fr == nil || !m.fr.fn.isRepo || m.initing {
			return V{}
		}
		k, _ := a[0].x.(*V)
		if m.pools == nil {
			m.pools = map[*V][]V{}
		}
		l := m.pools[k]
		m.ensureMark()
		m.pools[k] = append(l[:len(l):len(l)], a[1])
		m.undoable(func() { m.pools[k] = l })
		return V{}
	})
	for name, excl := range map[string]bool{"(*sync.Mutex).": true, "(*sync.RWMutex).": true, "(*sync.RWMutex).R": false} {
		reg(name+"Lock", func(m *M, in *Instr, a []V) V { m.lock(a[0], excl); return V{} })
		reg(name+"Unlock", func(m *M, in *Instr, a []V) V { m.unlock(a[0], excl); return V{} })
	}
	for name, excl := range map[string]bool{"(*sync.Mutex).TryLock": true, "(*sync.RWMutex).TryLock": true, "(*sync.RWMutex).TryRLock": false} {
		reg(name, func(m *M, in *Instr, a []V) V { m.lock(a[0], excl); return V{n: 1} })
	}
	reg(vp+"Share", func(m *M, in *Instr, a []V) V {
		m.ensureMark()
		if m.conc == nil {
			m.setConc(m.concStart())
		}
		c := m.conc
		// a set of its own, forgotten with the path
		n := *c
		n.shared = map[any]string{}
		for k, v := range c.shared {
			n.shared[k] = v
		}
		m.shareFrom(n.shared, a[0], "the shared value", true)
		m.setConc(&n)
		return V{}
	})
	reg(vp+"thread", func(m *M, in *Instr, a []V) V {
		m.ensureMark()
		if m.conc == nil {
			m.setConc(m.concStart())
		}
		c := m.conc
		if len(c.held) > 0 {
			panic(violation{"deadlock", "a lock is never released"})
		}
		if a[0].n == 0 {
			m.races()
			m.setConc(nil)
			return V{}
		}
		old := *c
		c.thread, c.clock, c.held, c.seen, c.acq = int(a[0].n), 1, nil, nil, nil
		m.undoable(func() { *c = old })
		return V{n: 1}
	})
}
