package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type harnessState struct {
	result V
}

func (m *M) ensureMark() {
	if m.marked {
		return
	}
	m.marked = true
	m.cur = m.cur[:0]
	m.mk = mark{pcLen: len(m.pc), multi: len(m.multi), inLen: len(m.ins), obsLen: len(m.obs), logLen: len(m.log), nvar: m.nvar, outLen: len(m.stdout), steps: m.steps - 1}
}

var forkMu sync.Mutex
var forkSites = map[string]int{}

func (m *M) newChoice(alts []uint64, models [][]uint64) {
	if *fForks {
		l := strings.SplitN(m.stack(), "\n", 5)
		if len(l) > 4 {
			l = l[:4]
		}
		forkMu.Lock()
		forkSites[strings.Join(l, "\n")]++
		forkMu.Unlock()
	}
	m.ensureMark()
	c := &Choice{mark: m.mk, jlen: m.jmark, fr: m.ifr, pre: append([]uint64(nil), m.cur...), alts: alts, models: models}
	f := m.ifr
	if f != nil {
		s := *f
		s.pc = m.ipc
		s.regs = append([]V(nil), f.regs...)
		m.jrn = append(m.jrn, jent{fr: f, fs: &s})
	}
	m.epoch++
	if f != nil {
		f.epoch = m.epoch
	}
	m.choices = append(m.choices, c)
	m.stats.Forks++
}

func (m *M) restore(c *Choice) {
	m.rollback(c.jlen)
	m.fr = c.fr
	m.pc = m.pc[:c.pcLen]
	m.multi = m.multi[:c.multi]
	m.ins = m.ins[:c.inLen]
	m.obs = m.obs[:c.obsLen]
	m.log = m.log[:c.logLen]
	m.stdout = m.stdout[:c.outLen]
	m.nvar = c.nvar
	m.steps = c.steps
	m.epoch++
}

func (m *M) backtrack() bool {
	for len(m.choices) > 0 {
		c := m.choices[len(m.choices)-1]
		n := len(c.alts)
		if n == 0 {
			m.choices = m.choices[:len(m.choices)-1]
			continue
		}
		alt, mod := c.alts[n-1], c.models[n-1]
		c.alts, c.models = c.alts[:n-1], c.models[:n-1]
		if n == 1 {
			m.choices = m.choices[:len(m.choices)-1]
		}
		m.restore(c)
		m.forced = append(append([]uint64(nil), c.pre...), alt)
		m.model = mod
		m.growVars(len(m.dom) - 1)
		for len(m.model) < len(m.dom) {
			m.model = append(m.model, 0)
		}
		return true
	}
	return false
}

// Job is a subtree of a harness's path tree.
type Job struct {
	h      *Harness
	forced []uint64
	seed   []uint64
}

type Harness struct {
	name  string
	fn    *ssa.Function
	quota time.Duration
	// results
	mu        sync.Mutex
	stats     Stats
	why       map[string]int
	reach     map[string]int64
	funcs     map[*Func]int64
	viol      []*Violation
	sample    []*PathModel
	cutSample []*PathModel // models of paths cut by a limit of the engine
	cutN      int64
	seenN     int64
	cpu       time.Duration
	doneAt    time.Duration
	pend      int64
	cut       bool         // exploration was cut by the time budget
	used      atomic.Int64 // worker time, ns
	rng       *rand.Rand
	inputsMax int
}

type Violation struct {
	H      *Harness `json:"-"`
	Kind   string
	Msg    string
	Stack  string
	Ins    []InVal
	Obs    []ObsVal
	Approx bool
}

type InVal struct {
	Label string `json:"label"`
	Value uint64 `json:"value"`
}
type ObsVal struct {
	Label string `json:"label"`
	Value string `json:"value"`
}
type PathModel struct {
	H   *Harness `json:"-"`
	Ins []InVal
	Obs []ObsVal
	Out string
}

type Explorer struct {
	p          *Prog
	mu         sync.Mutex
	cond       *sync.Cond
	queue      []*Job
	active     int
	waiting    int32
	start      time.Time
	deadline   time.Time
	hdeadline  map[*Harness]time.Time
	noFallback bool
	maxViol    int
	first      bool // stop at the first violation
	found      atomic.Bool
	sampleN    int
	stepLimit  int64
	stop       bool
	verbose    bool
	nworkers   int
}

func (x *Explorer) put(j *Job) {
	x.mu.Lock()
	x.queue = append(x.queue, j)
	j.h.mu.Lock()
	j.h.pend++
	j.h.mu.Unlock()
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *Explorer) take() *Job {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.waiting++
	for {
		if x.stop {
			x.waiting--
			return nil
		}
		if len(x.queue) > 0 && (time.Now().After(x.deadline) || x.found.Load()) {
			for _, j := range x.queue {
				j.h.mu.Lock()
				j.h.cut = true
				j.h.mu.Unlock()
			}
			x.queue = nil
		}
		if n := len(x.queue); n > 0 {
			// the harness that used the least time so far, oldest subtree first
			best := 0
			for i, j := range x.queue {
				if j.h.used.Load() < x.queue[best].h.used.Load() {
					best = i
				}
			}
			j := x.queue[best]
			x.queue = append(x.queue[:best:best], x.queue[best+1:]...)
			x.waiting--
			x.active++
			return j
		}
		if x.active == 0 {
			x.stop = true
			x.cond.Broadcast()
			x.waiting--
			return nil
		}
		x.cond.Wait()
	}
}

func (x *Explorer) done(j *Job) {
	j.h.mu.Lock()
	j.h.pend--
	if j.h.pend == 0 {
		j.h.doneAt = time.Since(x.start)
	}
	j.h.mu.Unlock()
	x.mu.Lock()
	x.active--
	if x.active == 0 && len(x.queue) == 0 {
		x.stop = true
		x.cond.Broadcast()
	}
	x.mu.Unlock()
}

// poll runs every few thousand instructions.
func (m *M) poll() {
	if m.ctx == nil || m.job == nil {
		if m.initing && m.steps > 400_000_000 {
			panic(unsupported{"init step limit"})
		}
		return
	}
	m.pollN++
	if m.steps > m.limit {
		panic(unsupported{"path step limit"})
	}
	if m.pollN%4 == 0 {
		now := time.Now()
		if now.After(m.deadline) || m.ctx.found.Load() {
			panic(pathEnd{"time"})
		}
		m.share()
	}
}

// share donates the oldest open alternative when a worker is idle.
func (m *M) share() {
	x := m.ctx
	if len(m.choices) == 0 {
		return
	}
	x.mu.Lock()
	need := int(x.waiting) > len(x.queue)
	x.mu.Unlock()
	if !need {
		return
	}
	m.donate()
}

func (m *M) donate() bool {
	x := m.ctx
	for _, c := range m.choices {
		if len(c.alts) == 0 {
			continue
		}
		alt, mod := c.alts[0], c.models[0]
		c.alts, c.models = c.alts[1:], c.models[1:]
		f := append([]uint64(nil), m.log[:c.logLen]...)
		f = append(append(f, c.pre...), alt)
		seed := make([]uint64, len(m.pvars))
		for i, v := range m.pvars {
			if v != nil && int(v.vid) < len(mod) {
				seed[i] = mod[v.vid]
			}
		}
		x.put(&Job{h: m.job.h, forced: f, seed: seed})
		return true
	}
	return false
}

// yieldTo reports whether another harness with less time used is waiting.
func (m *M) yieldTo(h *Harness) bool {
	x := m.ctx
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, j := range x.queue {
		if j.h != h && j.h.used.Load() < h.used.Load() {
			return true
		}
	}
	return false
}

// spill turns every open alternative into a job of its own.
func (m *M) spill() {
	for m.donate() {
	}
	m.choices = m.choices[:0]
}

// newVar creates the next symbolic variable of the path.
func (m *M) newVar(w uint8) *Expr {
	m.ensureMark()
	i := m.nvar
	m.nvar++
	v := m.st.NewVar(fmt.Sprintf("x%d_%d", i, w), w)
	for len(m.pvars) <= i {
		m.pvars = append(m.pvars, nil)
	}
	m.pvars[i] = v
	m.growVars(int(v.vid))
	if m.dom[v.vid] != nil || m.coup[v.vid] {
		// left over from another path: forget (journaled changes were undone,
		// so this only happens on engine bugs)
		panic("stale variable state")
	}
	if i < len(m.seed) {
		m.model[v.vid] = m.seed[i]
	} else if w == 8 {
		m.model[v.vid] = 'a'
	} else {
		m.model[v.vid] = 0
	}
	return v
}

func (m *M) runJob(j *Job) {
	m.job = j
	m.deadline = m.ctx.deadline
	if d, ok := m.ctx.hdeadline[j.h]; ok && d.Before(m.deadline) {
		m.deadline = d
	}
	m.rollback(m.rootJ)
	m.choices = m.choices[:0]
	m.pc, m.multi, m.ins, m.obs, m.log, m.stdout = m.pc[:0], m.multi[:0], m.ins[:0], m.obs[:0], m.log[:0], m.stdout[:0]
	m.nvar, m.steps, m.approx = 0, 0, false
	m.forced = append([]uint64(nil), j.forced...)
	m.seed = j.seed
	m.limit = m.ctx.stepLimit
	m.epoch++
	m.fr = nil
	m.marked = false
	fn := m.p.fn(j.h.fn)
	m.pushFrame(m.newFrame(fn, nil, nil))
	t0 := time.Now()
	tl := t0
	before := m.stats
	var total int64
	for {
		s0 := m.steps
		why := m.runPath()
		total += m.steps - s0
		if m.steps > m.stats.MaxPathSteps {
			m.stats.MaxPathSteps = m.steps
		}
		m.finishPath(why)
		if time.Now().After(m.deadline) {
			if len(m.choices) > 0 || why == "time" {
				j.h.mu.Lock()
				j.h.cut = true
				j.h.mu.Unlock()
			}
			break
		}
		j.h.mu.Lock()
		nv := len(j.h.viol)
		j.h.mu.Unlock()
		if nv > 0 && m.ctx.first {
			m.ctx.found.Store(true)
		}
		if nv >= m.ctx.maxViol {
			break
		}
		m.share()
		m.seed = nil
		now := time.Now()
		j.h.used.Add(int64(now.Sub(tl)))
		tl = now
		if now.Sub(t0) > 2*time.Second && m.yieldTo(j.h) {
			m.spill()
			break
		}
		if !m.backtrack() {
			break
		}
	}
	m.stats.Steps += total
	d := diffStats(m.stats, before)
	j.h.mu.Lock()
	addStats(&j.h.stats, d)
	j.h.cpu += time.Since(t0)
	j.h.mu.Unlock()
}

func diffStats(a, b Stats) Stats {
	return Stats{a.Paths - b.Paths, a.Steps - b.Steps, a.Forks - b.Forks, a.Queries - b.Queries, a.Sat - b.Sat, a.Unsat - b.Unsat, a.Unknown - b.Unknown, a.FastDec - b.FastDec, a.Asserts - b.Asserts, a.AssertQ - b.AssertQ, a.Infeasible - b.Infeasible, a.Approx - b.Approx, a.Limited - b.Limited, a.SolverNs - b.SolverNs, a.CrossChecks - b.CrossChecks, a.MaxPathSteps, a.Model - b.Model}
}

func addStats(a *Stats, b Stats) {
	a.Paths += b.Paths
	a.Steps += b.Steps
	a.Forks += b.Forks
	a.Queries += b.Queries
	a.Sat += b.Sat
	a.Unsat += b.Unsat
	a.Unknown += b.Unknown
	a.FastDec += b.FastDec
	a.Asserts += b.Asserts
	a.AssertQ += b.AssertQ
	a.Infeasible += b.Infeasible
	a.Approx += b.Approx
	a.Limited += b.Limited
	a.SolverNs += b.SolverNs
	a.CrossChecks += b.CrossChecks
	if b.MaxPathSteps > a.MaxPathSteps {
		a.MaxPathSteps = b.MaxPathSteps
	}
	a.Model += b.Model
}

// runPath executes until the path ends; "" means normal completion.
func (m *M) runPath() (why string) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case pathEnd:
				why = r.why
			case violation:
				why = "violation"
				m.report(r)
			case unsupported:
				why = "unsupported"
				m.noteWhy(r.msg)
			case goPanic:
				why = "violation"
				m.report(violation{"panic", "panic: " + m.describe(r.v)})
			default:
				why = "unsupported"
				m.noteWhy(fmt.Sprintf("engine: %v", r))
				if m.ctx.verbose {
					fmt.Fprintf(os.Stderr, "engine panic: %v\n%s\n", r, m.stack())
					buf := make([]byte, 6000)
					buf = buf[:runtimeStack(buf)]
					fmt.Fprintf(os.Stderr, "%s\n", buf)
				}
			}
		}
	}()
	m.run()
	return ""
}

func (m *M) noteWhy(s string) {
	h := m.job.h
	pos := ""
	if f := m.fr; f != nil && f.pc > 0 && f.pc-1 < len(f.fn.code) {
		p := m.p.prog.Fset.Position(f.fn.code[f.pc-1].pos)
		pos = fmt.Sprintf(" at %s %s:%d", f.fn.name, shortFile(p.Filename), p.Line)
	}
	h.mu.Lock()
	h.why[s+pos]++
	first := h.why[s+pos] == 1
	h.mu.Unlock()
	if first && m.ctx.verbose {
		fmt.Fprintf(os.Stderr, "[%s] unsupported: %s%s\n%s", h.name, s, pos, m.stack())
	}
}

func (m *M) inVals() []InVal {
	var out []InVal
	for _, i := range m.ins {
		k := i.k
		if i.e != nil {
			k = m.evalE(i.e)
		}
		out = append(out, InVal{i.Label, k})
	}
	return out
}

func (m *M) obsVals() []ObsVal {
	var out []ObsVal
	for _, o := range m.obs {
		out = append(out, ObsVal{o.label, m.showV(o.val)})
	}
	return out
}

func (m *M) report(v violation) {
	h := m.job.h
	w := &Violation{H: h, Kind: v.kind, Msg: v.msg, Stack: m.stack(), Ins: m.inVals(), Obs: m.obsVals(), Approx: m.approx}
	h.mu.Lock()
	if len(h.viol) < 20 {
		h.viol = append(h.viol, w)
	}
	h.mu.Unlock()
	if m.ctx.verbose {
		fmt.Fprintf(os.Stderr, "[%s] VIOL %s %s\n%s", h.name, v.kind, v.msg, w.Stack)
		for _, i := range w.Ins {
			fmt.Fprintf(os.Stderr, "   %s=%d", i.Label, i.Value)
		}
		fmt.Fprintln(os.Stderr)
	}
}

func (m *M) finishPath(why string) {
	h := m.job.h
	switch why {
	case "", "violation":
		m.stats.Paths++
	case "assume":
		m.stats.Infeasible++
		return
	case "time":
		return
	case "unsupported", "unknown", "index":
		m.stats.Limited++
		h.mu.Lock()
		h.cutN++
		slot := -1
		if len(h.cutSample) < 16 {
			h.cutSample = append(h.cutSample, nil)
			slot = len(h.cutSample) - 1
		} else if k := h.rng.Int63n(h.cutN); k < 16 {
			slot = int(k)
		}
		h.mu.Unlock()
		if slot >= 0 {
			if pm := m.cutModel(); pm != nil {
				h.mu.Lock()
				h.cutSample[slot] = pm
				h.mu.Unlock()
			}
		}
		return
	}
	if m.approx {
		m.stats.Approx++
		h.mu.Lock()
		h.why["partial: "+m.aprWhy]++
		h.mu.Unlock()
	}
	if why == "" {
		h.mu.Lock()
		h.seenN++
		if len(m.ins) > h.inputsMax {
			h.inputsMax = len(m.ins)
		}
		for _, o := range m.obs {
			if strings.HasPrefix(o.label, "reach:") {
				h.reach[o.label[6:]]++
			}
		}
		// reservoir sample of path models for native validation
		slot := -1
		if len(h.sample) < m.ctx.sampleN {
			h.sample = append(h.sample, nil)
			slot = len(h.sample) - 1
		} else if m.ctx.sampleN > 0 {
			if k := h.rng.Int63n(h.seenN); k < int64(m.ctx.sampleN) {
				slot = int(k)
			}
		}
		h.mu.Unlock()
		if slot >= 0 {
			pm := &PathModel{H: h, Ins: m.inVals(), Obs: m.obsVals()}
			h.mu.Lock()
			if slot < len(h.sample) {
				h.sample[slot] = pm
			}
			h.mu.Unlock()
		}
	}
}

func (m *M) cutModel() (pm *PathModel) {
	defer func() {
		if recover() != nil {
			pm = nil
		}
	}()
	return &PathModel{H: m.job.h, Ins: m.inVals()}
}

func sortedKeys(m map[string]int) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Slice(k, func(i, j int) bool { return m[k[i]] > m[k[j]] || (m[k[i]] == m[k[j]] && k[i] < k[j]) })
	return k
}
