// Package vsched runs the goroutines of the code under test one at a time inside a synctest bubble and
// decides at every scheduling point (P, inserted before each statement) which one goes on. A decision
// list makes an execution repeatable; Points reports where another decision was possible.
package vsched

import (
	"runtime"
	"testing/synctest"
)

type state int

const (
	ready state = iota
	running
	blocked // until pred
	raw     // inside a blocking operation the scheduler does not know
	done
)

type thread struct {
	id   int
	wake chan struct{}
	st   state
	pred func() bool
	goid string
}

// Point is a place where more than one thread could go on.
type Point struct {
	N   int  // choices, 0 is the default
	Pre bool // choices other than 0 preempt the running thread
}

// S is one controlled execution.
type S struct {
	threads  []*thread
	cur      *thread
	raws     int
	plan     []int
	Points   []Point
	Steps    int
	Switches int
	dead     bool
	handoff  *thread
	Stride   int // only every Stride-th step is a preemption point (0: all)
	MaxSteps int
	Over     bool
}

var s *S

// Active reports whether a scheduler is in charge.
func Active() bool { return s != nil }

// New starts a controlled execution with the given decisions.
func New(plan []int) *S { s = &S{plan: plan, MaxSteps: 200000}; return s }

func goid() string {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	// "goroutine N ["
	for i := 10; i < n; i++ {
		if b[i] == ' ' {
			return string(b[10:i])
		}
	}
	return ""
}

func (x *S) decide(n int, pre bool) int {
	if n < 2 {
		return 0
	}
	i := len(x.Points)
	x.Points = append(x.Points, Point{n, pre})
	if i < len(x.plan) && x.plan[i] < n {
		return x.plan[i]
	}
	return 0
}

func (x *S) enabled() (ts []*thread) {
	for _, t := range x.threads {
		if t.st == ready || t.st == blocked && t.pred() {
			ts = append(ts, t)
		}
	}
	return
}

func (t *thread) park(x *S) {
	<-t.wake
	if x.dead {
		runtime.Goexit()
	}
}

// me finds the calling thread, nil when it is not one of ours.
func (x *S) me() *thread {
	if x.raws == 0 {
		return x.cur
	}
	g := goid()
	for _, t := range x.threads {
		if t.goid == g {
			return t
		}
	}
	return nil
}

// P is a scheduling point.
func P() {
	x := s
	if x == nil || x.dead {
		return
	}
	t := x.me()
	if t == nil {
		return
	}
	if t.st == raw { // came back from a blocking operation while another thread runs
		x.raws--
		t.st = ready
		t.park(x)
		return
	}
	if t != x.cur {
		return
	}
	x.Steps++
	if x.Steps > x.MaxSteps {
		x.Over = true
		t.st = blocked
		t.pred = func() bool { return false }
		x.cur = nil
		t.park(x)
	}
	if x.Stride > 1 && x.Steps%x.Stride != 0 {
		return
	}
	if len(x.threads) < 2 {
		return
	}
	others := x.enabled()
	d := x.decide(1+len(others), true)
	if d == 0 {
		return
	}
	if goid() != t.goid {
		return
	}
	x.Switches++
	t.st = ready
	x.cur = nil
	x.handoff = others[d-1]
	t.park(x)
}

// Block waits until pred holds.
func Block(pred func() bool) {
	x := s
	if x == nil {
		panic("vsched: no scheduler")
	}
	if x.dead {
		runtime.Goexit()
	}
	t := x.me()
	if t == nil {
		panic("vsched: unknown goroutine blocks")
	}
	if t.st == raw {
		x.raws--
	}
	t.st = blocked
	t.pred = pred
	if x.cur == t {
		x.cur = nil
	}
	t.park(x)
}

// Hook makes a goroutine of the code under test a thread (for vgo.Hook).
func Hook(run func()) func() {
	x := s
	if x == nil || x.dead {
		return run
	}
	t := &thread{id: len(x.threads), wake: make(chan struct{})}
	x.threads = append(x.threads, t)
	return func() {
		t.goid = goid()
		defer func() {
			if t.st == raw {
				x.raws--
			}
			t.st = done
			if x.cur == t {
				x.cur = nil
			}
		}()
		t.park(x)
		run()
	}
}

// Run lets threads go on until none can.
func (x *S) Run() {
	synctest.Wait()
	for {
		var t *thread
		if x.handoff != nil {
			t, x.handoff = x.handoff, nil
		} else {
			e := x.enabled()
			if len(e) == 0 {
				return
			}
			t = e[x.decide(len(e), false)]
		}
		t.st = running
		t.pred = nil
		x.cur = t
		t.wake <- struct{}{}
		synctest.Wait()
		if x.cur != nil { // blocked in an operation we do not control
			x.cur.st = raw
			x.raws++
			x.cur = nil
		}
	}
}

// Unfinished counts threads that have not ended.
func (x *S) Unfinished() (n int) {
	for _, t := range x.threads {
		if t.st != done {
			n++
		}
	}
	return
}

// Stop ends the execution: parked threads exit.
func (x *S) Stop() {
	x.dead = true
	s = nil
	for _, t := range x.threads {
		if t.st == ready || t.st == blocked {
			close(t.wake)
		}
	}
	synctest.Wait()
}
