package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Sat int

const (
	Unsat Sat = iota
	SatYes
	Unknown
)

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

// Solver drives one z3 process; other back ends are started on demand.
type Solver struct {
	z     *proc
	defs  map[int32]bool
	ndefs int
	st    *Store
	tmo   int
	log   io.Writer
	dead  bool
}

func startProc(name string, args ...string) (*proc, error) {
	cmd := exec.Command(name, args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &proc{cmd, in, bufio.NewReaderSize(out, 1<<16)}, nil
}

func (p *proc) kill() {
	if p != nil {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
}

func z3Name() string {
	if _, err := exec.LookPath("z3-new"); err == nil {
		return "z3-new"
	}
	return "z3"
}

func NewSolver(st *Store, tmo int) *Solver { return &Solver{st: st, tmo: tmo} }

func (s *Solver) ensure() error {
	if s.z != nil && s.ndefs < 60000 {
		return nil
	}
	s.z.kill()
	z, err := startProc(z3Name(), "-in", "-smt2")
	if err != nil {
		return err
	}
	s.z = z
	s.defs = map[int32]bool{}
	s.ndefs = 0
	fmt.Fprintf(z.in, "(set-option :print-success false)\n(set-option :timeout %d)\n", s.tmo)
	return nil
}

func (s *Solver) close() {
	s.z.kill()
	s.z = nil
}

// domText prints the membership constraint of a byte variable.
func domText(v *Expr, d *[4]uint64) string {
	in := func(i int) bool { return d[i>>6]>>(uint(i)&63)&1 == 1 }
	var parts []string
	for i := 0; i < 256; i++ {
		if !in(i) {
			continue
		}
		j := i
		for j+1 < 256 && in(j+1) {
			j++
		}
		switch {
		case i == 0 && j == 255:
			return "true"
		case i == j:
			parts = append(parts, fmt.Sprintf("(= v%d #x%02x)", v.vid, i))
		default:
			parts = append(parts, fmt.Sprintf("(and (bvule #x%02x v%d) (bvule v%d #x%02x))", i, v.vid, v.vid, j))
		}
		i = j
	}
	switch len(parts) {
	case 0:
		return "false"
	case 1:
		return parts[0]
	}
	return "(or " + strings.Join(parts, " ") + ")"
}

type dcon struct {
	v *Expr
	d *[4]uint64
}

// Check decides the conjunction of cs and the byte domains ds.
func (s *Solver) Check(cs []*Expr, ds []dcon, vars []*Expr) (Sat, []uint64, string) {
	var q strings.Builder
	if err := s.ensure(); err != nil {
		return Unknown, nil, err.Error()
	}
	n0 := len(s.defs)
	for _, v := range vars {
		smtDefine(&q, v, s.defs)
	}
	for _, c := range cs {
		smtDefine(&q, c, s.defs)
	}
	s.ndefs += len(s.defs) - n0
	q.WriteString("(push 1)\n")
	for _, d := range ds {
		if t := domText(d.v, d.d); t != "true" {
			fmt.Fprintf(&q, "(assert %s)\n", t)
		}
	}
	for _, c := range cs {
		fmt.Fprintf(&q, "(assert %s)\n", smtRef(c))
	}
	q.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.z.in, q.String()); err != nil {
		s.close()
		return Unknown, nil, "solver pipe: " + err.Error()
	}
	r, err := s.readLine()
	if err != nil {
		s.close()
		return Unknown, nil, "solver died"
	}
	res := Unknown
	var vals []uint64
	why := ""
	switch r {
	case "sat":
		res = SatYes
		if len(vars) > 0 {
			var g strings.Builder
			g.WriteString("(get-value (")
			for _, v := range vars {
				g.WriteString(smtRef(v))
				g.WriteByte(' ')
			}
			g.WriteString("))\n")
			io.WriteString(s.z.in, g.String())
			t, err := s.readSexp()
			if err != nil {
				s.close()
				return Unknown, nil, "solver died"
			}
			vals, err = parseValues(t, len(vars))
			if err != nil {
				s.close()
				return Unknown, nil, err.Error()
			}
		}
	case "unsat":
		res = Unsat
	default:
		why = r
		if strings.HasPrefix(r, "(error") {
			fmt.Fprintln(os.Stderr, "solver error:", r)
			s.close()
			return Unknown, nil, r
		}
	}
	io.WriteString(s.z.in, "(pop 1)\n")
	return res, vals, why
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.z.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		c, err := s.z.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		switch c {
		case '(':
			depth++
			started = true
		case ')':
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

func parseValues(t string, n int) ([]uint64, error) {
	if strings.Contains(t, "error") {
		return nil, fmt.Errorf("%s", t)
	}
	var out []uint64
	// ((v1 #x41) (v2 (_ bv5 64)) (v3 true))
	i := strings.IndexByte(t, '(') + 1
	for len(out) < n {
		j := strings.IndexByte(t[i:], '(')
		if j < 0 {
			return nil, fmt.Errorf("values: %s", t)
		}
		i += j + 1
		k := strings.IndexByte(t[i:], ' ')
		i += k + 1
		for t[i] == ' ' || t[i] == '\n' {
			i++
		}
		switch {
		case strings.HasPrefix(t[i:], "#x"):
			e := i + 2
			for e < len(t) && t[e] != ')' {
				e++
			}
			v, err := strconv.ParseUint(t[i+2:e], 16, 64)
			if err != nil {
				return nil, err
			}
			out = append(out, v)
			i = e
		case strings.HasPrefix(t[i:], "#b"):
			e := i + 2
			for e < len(t) && t[e] != ')' {
				e++
			}
			v, err := strconv.ParseUint(t[i+2:e], 2, 64)
			if err != nil {
				return nil, err
			}
			out = append(out, v)
			i = e
		case strings.HasPrefix(t[i:], "(_ bv"):
			e := i + 5
			for t[e] != ' ' {
				e++
			}
			v, err := strconv.ParseUint(t[i+5:e], 10, 64)
			if err != nil {
				return nil, err
			}
			out = append(out, v)
			i = e
			for t[i] != ')' {
				i++
			}
			i++
		case strings.HasPrefix(t[i:], "true"):
			out = append(out, 1)
		case strings.HasPrefix(t[i:], "false"):
			out = append(out, 0)
		default:
			return nil, fmt.Errorf("value: %s", t[i:])
		}
	}
	return out, nil
}

// script renders a self-contained query for a one-shot back end.
func script(cs []*Expr, ds []dcon, vars []*Expr) string {
	var q strings.Builder
	q.WriteString("(set-logic ALL)\n")
	done := map[int32]bool{}
	for _, v := range vars {
		smtDefine(&q, v, done)
	}
	for _, c := range cs {
		smtDefine(&q, c, done)
	}
	for _, d := range ds {
		if t := domText(d.v, d.d); t != "true" {
			fmt.Fprintf(&q, "(assert %s)\n", t)
		}
	}
	for _, c := range cs {
		fmt.Fprintf(&q, "(assert %s)\n", smtRef(c))
	}
	q.WriteString("(check-sat)\n")
	return q.String()
}

// OneShot asks another back end; sat answers are returned without values.
func OneShot(name string, args []string, text string, limit time.Duration) Sat {
	cmd := exec.Command(name, args...)
	cmd.Stdin = strings.NewReader(text)
	done := make(chan struct{})
	var out []byte
	go func() {
		out, _ = cmd.Output()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(limit):
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
		<-done
		return Unknown
	}
	s := string(out)
	if strings.Contains(s, "(error") {
		return Unknown
	}
	switch {
	case strings.Contains(s, "unsat"):
		return Unsat
	case strings.Contains(s, "sat"):
		return SatYes
	}
	return Unknown
}

// ---- path condition handling in the machine ----

func exprVars(e *Expr) []*Expr {
	seen := map[int32]bool{}
	var out []*Expr
	var st []*Expr
	st = append(st, e)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == nil || seen[x.id] {
			continue
		}
		seen[x.id] = true
		if x.op == OVar {
			out = append(out, x)
			continue
		}
		if !x.multi && x.v != nil {
			if !seen[x.v.id] {
				seen[x.v.id] = true
				out = append(out, x.v)
			}
			continue
		}
		st = append(st, x.a, x.b, x.c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].vid < out[j].vid })
	return out
}

func (m *M) domOf(v *Expr) *[4]uint64 {
	if int(v.vid) < len(m.dom) {
		return m.dom[v.vid]
	}
	return nil
}

var fullDom = [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

func (m *M) domGet(v *Expr) [4]uint64 {
	if d := m.domOf(v); d != nil {
		return *d
	}
	return fullDom
}

func (m *M) growVars(n int) {
	for len(m.dom) <= n {
		m.dom = append(m.dom, nil)
		m.coup = append(m.coup, false)
		m.model = append(m.model, 0)
	}
}

func (m *M) setDom(v *Expr, d [4]uint64) {
	m.growVars(int(v.vid))
	old := m.dom[v.vid]
	nd := d
	m.dom[v.vid] = &nd
	vid := v.vid
	m.undoable(func() { m.dom[vid] = old })
}

func (m *M) isCoup(v *Expr) bool {
	return int(v.vid) < len(m.coup) && m.coup[v.vid]
}

func isByte(e *Expr) bool { return e.v != nil && e.v.w == 8 && !e.multi }

// addPC records a constraint that the current model satisfies.
func (m *M) addPC(c *Expr) {
	switch {
	case c.isConst():
		return
	case c.op == OAnd:
		m.addPC(c.a)
		m.addPC(c.b)
		return
	case c.op == ONot && c.a.op == OOr:
		m.addPC(m.st.Not(c.a.a))
		m.addPC(m.st.Not(c.a.b))
		return
	}
	m.pc = append(m.pc, c)
	if isByte(c) {
		d := m.domGet(c.v)
		t := m.st.truthTable(c)
		for i := range d {
			d[i] &= t[i]
		}
		m.setDom(c.v, d)
		return
	}
	vs := exprVars(c)
	for _, v := range vs {
		m.growVars(int(v.vid))
		if !m.coup[v.vid] {
			vid := v.vid
			m.coup[vid] = true
			m.undoable(func() { m.coup[vid] = false })
		}
	}
	m.multi = append(m.multi, pcMulti{c, vs})
}

func (m *M) evalE(e *Expr) uint64 {
	if e.isConst() {
		return e.k
	}
	return m.st.Eval(e, m.model)
}

func domEmpty(d [4]uint64) bool { return d[0]|d[1]|d[2]|d[3] == 0 }

func domFirst(d [4]uint64) uint64 {
	for i := 0; i < 4; i++ {
		if d[i] != 0 {
			for b := uint64(0); b < 64; b++ {
				if d[i]>>b&1 == 1 {
					return uint64(i)*64 + b
				}
			}
		}
	}
	return 0
}

// domPick prefers printable values so that counterexamples read well.
func domPick(d [4]uint64) uint64 {
	for _, c := range []byte("a1A0 .-") {
		if d[c>>6]>>(c&63)&1 == 1 {
			return uint64(c)
		}
	}
	for c := uint64(0x21); c < 0x7f; c++ {
		if d[c>>6]>>(c&63)&1 == 1 {
			return c
		}
	}
	return domFirst(d)
}

// conjuncts flattens c into byte-unary conjuncts; ok=false if some is not.
func (m *M) conjuncts(c *Expr, out []*Expr) ([]*Expr, bool) {
	if c.op == OAnd {
		var ok bool
		if out, ok = m.conjuncts(c.a, out); !ok {
			return out, false
		}
		return m.conjuncts(c.b, out)
	}
	if c.op == ONot && c.a.op == OOr {
		var ok bool
		if out, ok = m.conjuncts(m.st.Not(c.a.a), out); !ok {
			return out, false
		}
		return m.conjuncts(m.st.Not(c.a.b), out)
	}
	if isByte(c) && !m.isCoup(c.v) && len(out) < 200 {
		return append(out, c), true
	}
	return out, false
}

type assign struct {
	v *Expr
	k uint64
}

// feasible decides whether pc && c is satisfiable, returning the changes to
// the model that make it so.
func (m *M) feasible(c *Expr) (Sat, []assign) {
	if c.isConst() {
		if c.k == 1 {
			return SatYes, nil
		}
		return Unsat, nil
	}
	if m.evalE(c) == 1 {
		return SatYes, nil
	}
	if isByte(c) {
		d := m.domGet(c.v)
		t := m.st.truthTable(c)
		for i := range d {
			d[i] &= t[i]
		}
		if domEmpty(d) {
			m.stats.FastDec++
			m.crossCheck(c, Unsat)
			return Unsat, nil
		}
		if !m.isCoup(c.v) {
			m.stats.FastDec++
			return SatYes, []assign{{c.v, domPick(d)}}
		}
		return m.query(c)
	}
	// conjunction of independent byte constraints
	var buf [32]*Expr
	if cj, ok := m.conjuncts(c, buf[:0]); ok {
		doms := map[*Expr][4]uint64{}
		for _, x := range cj {
			d, ok := doms[x.v]
			if !ok {
				d = m.domGet(x.v)
			}
			t := m.st.truthTable(x)
			for i := range d {
				d[i] &= t[i]
			}
			doms[x.v] = d
			if domEmpty(d) {
				m.stats.FastDec++
				m.crossCheck(c, Unsat)
				return Unsat, nil
			}
		}
		m.stats.FastDec++
		var as []assign
		for _, x := range cj {
			if d, ok := doms[x.v]; ok {
				cv := m.evalE(x.v)
				if d[cv>>6]>>(cv&63)&1 == 0 {
					as = append(as, assign{x.v, domPick(d)})
				}
				delete(doms, x.v)
			}
		}
		return SatYes, as
	}
	// disjunction: try each byte-unary disjunct
	if r, as, ok := m.disj(c); ok {
		return r, as
	}
	return m.query(c)
}

func (m *M) disj(c *Expr) (Sat, []assign, bool) {
	var ds []*Expr
	var walk func(e *Expr) bool
	walk = func(e *Expr) bool {
		if len(ds) > 64 {
			return false
		}
		if e.op == OOr {
			return walk(e.a) && walk(e.b)
		}
		if e.op == ONot && e.a.op == OAnd {
			return walk(m.st.Not(e.a.a)) && walk(m.st.Not(e.a.b))
		}
		ds = append(ds, e)
		return true
	}
	if !walk(c) || len(ds) < 2 {
		return 0, nil, false
	}
	all := true
	for _, x := range ds {
		if !isByte(x) {
			all = false
			continue
		}
		d := m.domGet(x.v)
		t := m.st.truthTable(x)
		for i := range d {
			d[i] &= t[i]
		}
		if domEmpty(d) {
			continue
		}
		if m.isCoup(x.v) {
			all = false
			continue
		}
		m.stats.FastDec++
		return SatYes, []assign{{x.v, domPick(d)}}, true
	}
	if all {
		m.stats.FastDec++
		m.crossCheck(c, Unsat)
		return Unsat, nil, true
	}
	return 0, nil, false
}

// crossCheck sends a sample of the truth-table decisions to the SMT solver.
func (m *M) crossCheck(c *Expr, want Sat) {
	m.fpCheck++
	if m.fpCheck%499 != 1 {
		return
	}
	m.stats.CrossChecks++
	r, _ := m.query(c)
	if r != Unknown && r != want {
		panic(unsupported{"decision procedures disagree on " + c.String()})
	}
}

// query sends pc-slice && c to the SMT solver.
func (m *M) query(c *Expr) (Sat, []assign) {
	cs := []*Expr{c}
	inSet := map[int32]bool{}
	var vars []*Expr
	add := func(vs []*Expr) {
		for _, v := range vs {
			if !inSet[v.vid] {
				inSet[v.vid] = true
				vars = append(vars, v)
			}
		}
	}
	add(exprVars(c))
	used := make([]bool, len(m.multi))
	for again := true; again; {
		again = false
		for i := range m.multi {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range m.multi[i].vars {
				if inSet[v.vid] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				again = true
				cs = append(cs, m.multi[i].e)
				add(m.multi[i].vars)
			}
		}
	}
	var ds []dcon
	for _, v := range vars {
		if v.w == 8 {
			if d := m.domOf(v); d != nil {
				ds = append(ds, dcon{v, d})
			}
		}
	}
	t0 := time.Now()
	r, vals, why := m.solver.Check(cs, ds, vars)
	if r == Unknown {
		r, vals = m.fallback(cs, ds, vars, why)
	}
	dt := time.Since(t0)
	m.stats.SolverNs += int64(dt)
	if dt > 3*time.Second {
		slowQuery(cs, ds, vars, dt, r)
	}
	m.stats.Queries++
	switch r {
	case SatYes:
		m.stats.Sat++
	case Unsat:
		m.stats.Unsat++
		return Unsat, nil
	default:
		m.stats.Unknown++
		return Unknown, nil
	}
	var as []assign
	for i, v := range vars {
		as = append(as, assign{v, vals[i]})
	}
	return SatYes, as
}

var slowDir = os.Getenv("GOSYM_SLOW")
var slowN int

func slowQuery(cs []*Expr, ds []dcon, vars []*Expr, dt time.Duration, r Sat) {
	if slowDir == "" {
		return
	}
	slowN++
	os.WriteFile(fmt.Sprintf("%s/slow%d_%d_%ds.smt2", slowDir, slowN, r, int(dt.Seconds())), []byte(script(cs, ds, vars)), 0644)
}

func (m *M) fallback(cs []*Expr, ds []dcon, vars []*Expr, why string) (Sat, []uint64) {
	if m.ctx != nil && m.ctx.noFallback {
		return Unknown, nil
	}
	text := script(cs, ds, vars)
	if r := OneShot("cvc5", []string{"--lang=smt2", "--solve-bv-as-int=sum", "--tlimit=10000"}, text, 12*time.Second); r == Unsat {
		return Unsat, nil
	}
	if r := OneShot("z3", []string{"-in", "-T:10"}, text, 12*time.Second); r == Unsat {
		return Unsat, nil
	}
	return Unknown, nil
}

func (m *M) applyAssign(as []assign) {
	for _, a := range as {
		m.growVars(int(a.v.vid))
		m.model[a.v.vid] = a.k
	}
}

func (m *M) withAssign(as []assign) []uint64 {
	n := append([]uint64(nil), m.model...)
	for _, a := range as {
		for len(n) <= int(a.v.vid) {
			n = append(n, 0)
		}
		n[a.v.vid] = a.k
	}
	return n
}

// decide resolves a condition, forking when both outcomes are feasible.
func (m *M) decide(c *Expr) bool {
	if c.isConst() {
		return c.k == 1
	}
	m.ensureMark()
	if len(m.forced) > 0 {
		d := m.forced[0]
		m.forced = m.forced[1:]
		m.cur = append(m.cur, d)
		m.log = append(m.log, d)
		if d&1 == 1 {
			m.addPC(c)
			return true
		}
		m.addPC(m.st.Not(c))
		return false
	}
	v := m.evalE(c) == 1
	other := c
	if v {
		other = m.st.Not(c)
	}
	r, as := m.feasible(other)
	switch r {
	case SatYes:
		if m.noFork > 0 {
			break
		}
		m.newChoice([]uint64{1 - b2u(v)}, [][]uint64{m.withAssign(as)})
	case Unknown:
		m.markApprox("solver gave no answer for a branch")
	}
	m.cur = append(m.cur, b2u(v))
	m.log = append(m.log, b2u(v))
	if r == SatYes || r == Unknown {
		if v {
			m.addPC(c)
		} else {
			m.addPC(m.st.Not(c))
		}
	}
	return v
}

// choose is an unconstrained n-way choice.
func (m *M) choose(n int) int {
	if n <= 1 {
		return 0
	}
	m.ensureMark()
	if len(m.forced) > 0 {
		d := m.forced[0]
		m.forced = m.forced[1:]
		m.cur = append(m.cur, d)
		m.log = append(m.log, d)
		return int(d)
	}
	var alts []uint64
	var mods [][]uint64
	for i := n - 1; i >= 1; i-- {
		alts = append(alts, uint64(i))
		mods = append(mods, append([]uint64(nil), m.model...))
	}
	m.newChoice(alts, mods)
	m.cur = append(m.cur, 0)
	m.log = append(m.log, 0)
	return 0
}

// concretize forks over the feasible values of e.
func (m *M) concretize(e *Expr, max int) uint64 {
	if e.isConst() {
		return e.k
	}
	m.ensureMark()
	for i := 0; i < max; i++ {
		var k uint64
		if len(m.forced) > 0 {
			// the compared value is part of the decision log
			k = m.forced[0]
			m.forced = m.forced[1:]
		} else {
			k = m.evalE(e)
		}
		m.cur = append(m.cur, k)
		m.log = append(m.log, k)
		if m.decide(m.st.Eq(e, m.st.Const(k, e.w))) {
			return k
		}
	}
	return m.sample(e, "too many values to enumerate")
}

// sample fixes e to one feasible value and marks the path as partial.
func (m *M) sample(e *Expr, why string) uint64 {
	if e.isConst() {
		return e.k
	}
	m.ensureMark()
	m.markApprox(why)
	var k uint64
	if len(m.forced) > 0 {
		k = m.forced[0]
		m.forced = m.forced[1:]
	} else {
		k = m.evalE(e)
	}
	m.cur = append(m.cur, k)
	m.log = append(m.log, k)
	m.addPC(m.st.Eq(e, m.st.Const(k, e.w)))
	return k
}

func (m *M) sampleStr(v V, why string) string {
	if s, ok := concStr(v); ok {
		return s
	}
	b := make([]byte, 0, strLen(v))
	for _, e := range v.x.(*SStr).b {
		if e.isConst() {
			b = append(b, byte(e.k))
		} else {
			b = append(b, byte(m.sample(e, why)))
		}
	}
	return string(b)
}

func (m *M) markApprox(why string) {
	if !m.approx {
		m.approx = true
		m.aprWhy = why
		if f := m.fr; f != nil && f.pc > 0 {
			pos := m.p.prog.Fset.Position(f.fn.code[f.pc-1].pos)
			m.aprWhy = fmt.Sprintf("%s (in %s, %s:%d)", why, f.fn.name, shortFile(pos.Filename), pos.Line)
		}
		m.undoable(func() { m.approx = false })
	}
}

// assume adds a constraint, ending the path when it is infeasible.
func (m *M) assume(c *Expr) {
	if c.isConst() {
		if c.k == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	m.ensureMark()
	if len(m.forced) == 0 || m.evalE(c) != 1 {
		r, as := m.feasible(c)
		switch r {
		case Unsat:
			panic(pathEnd{"assume"})
		case Unknown:
			m.markApprox("solver gave no answer for an assumption")
			panic(pathEnd{"unknown"})
		}
		m.applyAssign(as)
	}
	m.addPC(c)
}

// assertion: pc must imply c.
func (m *M) assert(c *Expr, msg string) {
	m.stats.Asserts++
	if c.isConst() {
		if c.k == 0 {
			panic(violation{"assert", msg})
		}
		return
	}
	if len(m.forced) > 0 {
		// already checked where the prefix was explored
		return
	}
	n := m.st.Not(c)
	if m.evalE(n) == 1 {
		panic(violation{"assert", msg})
	}
	m.stats.AssertQ++
	r, as := m.query(n)
	switch r {
	case SatYes:
		m.applyAssign(as)
		panic(violation{"assert", msg})
	case Unknown:
		m.markApprox("solver gave no answer for an assertion")
	}
}
