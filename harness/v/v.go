// Package v is the interface between the verification harnesses and the two
// ways of running them: the symbolic executor (which replaces the functions
// below by its own) and a native replay of one concrete assignment.
package v

import (
	"context"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"
)

// In is one recorded harness input.
type In struct {
	Label string `json:"label"`
	Value uint64 `json:"value"`
}

// Obs is one observed value.
type Obs struct {
	Label string `json:"label"`
	Value string `json:"value"`
}

// Result is the outcome of a native run.
type Result struct {
	Status string `json:"status"` // ok, assume, violation, diverged
	Msg    string `json:"msg"`
	Obs    []Obs  `json:"obs"`
	Ins    []In   `json:"ins"` // inputs used, when they were completed
}

var (
	ins  []In
	pos  int
	res  *Result
	free bool
)

type stop struct{ status, msg string }

// RunFree executes f on recorded inputs, completed by the least value of each
// missing one.
func RunFree(f func(), inputs []In) *Result {
	free = true
	r := Run(f, inputs)
	r.Ins = ins
	return r
}

// Run executes f natively on the recorded inputs.
func Run(f func(), inputs []In) (r *Result) {
	ins, pos = inputs, 0
	r = &Result{Status: "ok", Obs: []Obs{}}
	res = r
	defer func() {
		e := recover()
		switch e := e.(type) {
		case nil:
			if pos != len(ins) {
				r.Status, r.Msg = "diverged", fmt.Sprintf("used %d of %d inputs", pos, len(ins))
			}
		case stop:
			r.Status, r.Msg = e.status, e.msg
		default:
			buf := make([]byte, 6000)
			buf = buf[:runtime.Stack(buf, false)]
			r.Status, r.Msg = "violation", fmt.Sprintf("panic: %v\n%s", e, buf)
		}
	}()
	f()
	return r
}

func next(label string, least uint64) uint64 {
	if pos >= len(ins) && free {
		ins = append(ins, In{label, least})
	}
	if pos >= len(ins) {
		panic(stop{"diverged", "more inputs than recorded at " + label})
	}
	i := ins[pos]
	if i.Label != label {
		panic(stop{"diverged", "input " + label + " where " + i.Label + " was recorded"})
	}
	pos++
	return i.Value
}

// Byte is an arbitrary byte.
func Byte(label string) byte { return byte(next(label, 'a')) }

// ByteIn is an arbitrary byte of a class such as "a-zA-Z0-9".
func ByteIn(label, class string) byte { return byte(next(label, least(class))) }

// Bool is an arbitrary boolean.
func Bool(label string) bool { return next(label, 0) == 1 }

// Uint64 is an arbitrary 64-bit value.
func Uint64(label string) uint64 { return next(label, 0) }

// Int64 is an arbitrary 64-bit value.
func Int64(label string) int64 { return int64(next(label, 0)) }

// Range is an arbitrary integer in [lo, hi].
func Range(label string, lo, hi int) int { return int(next(label, uint64(lo))) }

// Choose is an arbitrary integer in [0, n), explored one value at a time.
func Choose(label string, n int) int { return int(next(label, 0)) }

// Str is an arbitrary string of n bytes of a class ("" for any byte).
func Str(label string, n int, class string) string { return string(Bytes(label, n, class)) }

// Bytes is an arbitrary sequence of n bytes of a class.
func Bytes(label string, n int, class string) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(label, least(class)))
	}
	return b
}

func least(class string) uint64 {
	if class == "" {
		return 'a'
	}
	if class[0] == '\\' {
		return uint64(class[1])
	}
	return uint64(class[0])
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(stop{"assume", ""})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(stop{"violation", msg})
	}
}

// And, Or, Implies, Iff combine conditions without branching.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// IteInt selects without branching.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// In reports membership of a byte in a class.
func InClass(c byte, class string) bool {
	s := class
	for i := 0; i < len(s); i++ {
		lo, hi := s[i], s[i]
		if s[i] == '\\' && i+1 < len(s) {
			i++
			lo, hi = s[i], s[i]
		}
		if i+2 < len(s) && s[i+1] == '-' {
			i += 2
			if s[i] == '\\' && i+1 < len(s) {
				i++
			}
			hi = s[i]
		}
		if lo <= c && c <= hi {
			return true
		}
	}
	return false
}

// Reach marks a point every harness must be able to reach.
func Reach(name string) { res.Obs = append(res.Obs, Obs{"reach:" + name, "0"}) }

// Observe records a value for comparison between engine and native runs.
func Observe(label string, x interface{}) {
	s := ""
	switch x := x.(type) {
	case bool:
		s = "0"
		if x {
			s = "1"
		}
	case string:
		s = fmt.Sprintf("%q", x)
	case []byte:
		s = fmt.Sprintf("%q", x)
	case int:
		s = fmt.Sprint(uint64(int64(x)))
	case int64:
		s = fmt.Sprint(uint64(x))
	case int32:
		s = fmt.Sprint(uint64(int64(x)))
	case uint64:
		s = fmt.Sprint(x)
	case uint8:
		s = fmt.Sprint(x)
	case uint16:
		s = fmt.Sprint(x)
	default:
		panic(fmt.Sprintf("Observe of %T", x))
	}
	res.Obs = append(res.Obs, Obs{label, s})
}

// Long allows a run to take more steps than others.
func Long() {}

// Share adds what x refers to to the memory goroutines share.
func Share(x interface{}) {}

// thread begins what another goroutine does (0: they have ended).
func thread(n int) bool { return false }

// Concurrently runs functions in goroutines of their own. Inputs must be drawn
// and values observed before or afterwards.
func Concurrently(fs ...func()) {
	if thread(1) {
		for i, f := range fs {
			thread(i + 1)
			f()
		}
		thread(0)
		return
	}
	if os.Getenv("VERIF_SERIAL") != "" {
		// a schedule like any other
		for _, f := range fs {
			f()
		}
		return
	}
	var begin, end sync.WaitGroup
	begin.Add(1)
	end.Add(len(fs))
	died := make([]interface{}, len(fs))
	for i, f := range fs {
		go func(i int, f func()) {
			defer end.Done()
			defer func() { died[i] = recover() }()
			begin.Wait()
			f()
		}(i, f)
	}
	begin.Done()
	end.Wait()
	for _, e := range died {
		if e != nil {
			panic(e)
		}
	}
}

// Engine reports whether the harness runs symbolically.
func Engine() bool { return false }

// Concrete splits the exploration by the value of x.
func Concrete(x int) int { return x }

var _ = strings.TrimSpace

// ---- running the command-line client ----

type exitCode int

// OnSleep and OnReadPassword replace time.Sleep and term.ReadPassword in the
// copy of cmd/ofx the harnesses run.
var (
	OnSleep        func(d time.Duration)
	OnReadPassword func(fd int) ([]byte, error)
)

// Sleep stands in for time.Sleep.
func Sleep(d time.Duration) {
	if OnSleep != nil {
		OnSleep(d)
	}
}

// After stands in for time.After.
func After(d time.Duration) <-chan time.Time {
	return NewTimer(d).C
}

// Timer stands in for time.Timer.
type Timer struct {
	C <-chan time.Time
	c chan time.Time
}

// NewTimer stands in for time.NewTimer; the time has passed when it returns.
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{c, c}
	t.Reset(d)
	return t
}

// Reset waits once more.
func (t *Timer) Reset(d time.Duration) bool {
	Sleep(d)
	select {
	case t.c <- time.Time{}:
	default:
	}
	return false
}

// Stop does nothing: the time has passed already.
func (t *Timer) Stop() bool { return false }

// AfterFunc stands in for time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := NewTimer(d)
	go f()
	return t
}

// WithTimeout stands in for context.WithTimeout; the time has passed when it
// returns.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	c, cancel := context.WithCancel(parent)
	Sleep(d)
	cancel()
	return c, cancel
}

// ReadPassword stands in for term.ReadPassword.
func ReadPassword(fd int) ([]byte, error) {
	if OnReadPassword != nil {
		return OnReadPassword(fd)
	}
	return nil, io.EOF
}

var (
	capOld  *os.File
	errOld  *os.File
	capFile *os.File
)

// CaptureStart redirects standard output.
func CaptureStart() {
	open, remove := os.VerifOpen, os.VerifRemove
	os.VerifOpen, os.VerifRemove = nil, nil
	f, err := os.CreateTemp("", "verif-out")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	os.VerifOpen, os.VerifRemove = open, remove
	capOld, capFile = os.Stdout, f
	os.Stdout = f
}

// CaptureAll redirects standard error as well.
func CaptureAll() {
	CaptureStart()
	errOld = os.Stderr
	os.Stderr = capFile
	log.SetOutput(capFile)
}

// CaptureEnd restores standard output and returns what was written.
func CaptureEnd() string {
	os.Stdout = capOld
	if errOld != nil {
		os.Stderr = errOld
		log.SetOutput(errOld)
		errOld = nil
	}
	capFile.Seek(0, 0)
	b, _ := io.ReadAll(capFile)
	capFile.Close()
	return string(b)
}

// WithStderr makes RunCLI capture standard error as well.
var WithStderr bool

// RunCLI runs main with the given arguments and returns its exit code (0 when
// it returns) and output. atExit is called when it leaves: what deferred
// functions do afterwards does not happen in a process.
func RunCLI(main func(), atExit func(), args ...string) (code int, out string) {
	os.Args = append([]string{"ofx"}, args...)
	if WithStderr {
		CaptureAll()
	} else {
		CaptureStart()
	}
	gone := false
	os.VerifExit = func(c int) {
		if !gone {
			gone = true
			out = CaptureEnd()
			if atExit != nil {
				atExit()
			}
		}
		panic(exitCode(c))
	}
	code = callMain(main)
	os.VerifExit = nil
	if !gone {
		out = CaptureEnd()
		if atExit != nil {
			atExit()
		}
	}
	return code, out
}

func callMain(main func()) (code int) {
	defer func() {
		if e := recover(); e != nil {
			c, ok := e.(exitCode)
			if !ok {
				panic(e)
			}
			code = int(c)
		}
	}()
	main()
	return 0
}
