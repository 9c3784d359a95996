package gate

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"
	"testing"
	"time"

	"verif.local/mc/vgo"
	"verif.local/mc/vnet"
	"verif.local/mc/vsched"
	"verif.local/mc/x"
)

// One step of what happens to the listener.
var acceptOps = []struct {
	name string
	err  error
}{
	{"connect+packet", nil},
	{"connect+half a packet", nil},
	{"accept fails: too many open files", os.NewSyscallError("accept4", syscall.EMFILE)},
	{"accept fails: connection aborted", os.NewSyscallError("accept4", syscall.ECONNABORTED)},
	{"accept fails: timeout", os.ErrDeadlineExceeded},
	{"accept fails: other", errors.New("scripted failure")},
	{"accept fails: EOF", io.EOF},
	{"stop", nil},
}

type acceptConn struct {
	k       *vnet.VConn
	ms      []Msg
	half    bool // the second packet is sent later
	stopped bool // offered after the stop
}

func acceptRun(c *x.C, ops []int, batch bool, repeat int) {
	const long = time.Hour
	st := &Store{Name: "a"}
	var fail string
	bad := func(f string, a ...any) {
		if fail == "" {
			fail = fmt.Sprintf(f, a...)
		}
	}
	h := x.HI(14, b2i(batch), uint64(repeat))
	res := Exec(long, []*Store{st}, func(s *Sim) {
		var cs []*acceptConn
		stopped, extra := false, 0
		settle := func() { s.Wait(); s.Sleep(2 * time.Second) }
		check := func() {
			for _, a := range cs {
				if a.stopped {
					if a.k.Accepted() {
						bad("connection %d, offered after the stop, was accepted", a.k.ID)
					}
					continue
				}
				if !a.k.Accepted() {
					bad("connection %d was not accepted", a.k.ID)
					continue
				}
				ms := a.ms
				if a.half {
					ms = ms[:len(ms)-1]
				}
				if e := checkReplies(a.k.Out(), ms); e != "" {
					bad("connection %d: %s", a.k.ID, e)
				}
				if cl, _ := a.k.Closed(); cl {
					bad("connection %d was closed", a.k.ID)
				}
			}
		}
		stop := func() {
			done := false
			go func() { s.Stop(); done = true }()
			settle()
			if !done {
				bad("Stop does not return")
			}
			s.Sleep(10 * time.Second)
			if !s.RunDone {
				bad("Run has not returned 10 s after the stop")
			}
			if s.L.Spin || s.L.AfterClose > 50 {
				bad("Run goes on accepting after the stop (%d times)", s.L.AfterClose)
			}
			stopped = true
		}
		for i, o := range ops {
			h = x.HI(h, uint64(o))
			c.State(h)
			op := acceptOps[o]
			switch {
			case op.err != nil:
				if !stopped {
					for j := 0; j < repeat; j++ {
						s.L.PushErr(op.err)
					}
				}
			case op.name == "stop":
				settle()
				stop()
			default:
				a := &acceptConn{k: s.NewConn(), half: o == 1, stopped: stopped}
				pid := uint16(100*i + 1)
				a.ms = []Msg{kinds[i%3].mk(pid, 1)}
				a.k.Send(a.ms[0].Wire)
				if a.half {
					m := kinds[0].mk(pid+1, 2)
					a.ms = append(a.ms, m)
					a.k.Send(m.Wire[:5+3*(i%7)])
				}
				cs = append(cs, a)
				s.L.Push(a.k)
			}
			if !batch || op.name == "stop" {
				settle()
				check()
			}
		}
		settle()
		check()
		if !stopped {
			if s.RunDone {
				bad("Run returned without a stop")
			}
			k := s.Conn()
			m := kinds[0].mk(999, 9)
			k.Send(m.Wire)
			settle()
			if e := checkReplies(k.Out(), []Msg{m}); e != "" {
				bad("a last connection: %s", e)
			}
			stop()
			extra = 1
		}
		// connections accepted before the stop are still served
		for _, a := range cs {
			if a.stopped {
				continue
			}
			if a.half {
				a.k.Send(a.ms[1].Wire[a.sentOf(ops, cs):])
				a.half = false
			}
			m := kinds[4].mk(uint16(2000+a.k.ID), 3)
			a.ms = append(a.ms, m)
			a.k.Send(m.Wire)
		}
		settle()
		check()
		s.Stop()
		settle()
		check()
		for _, a := range cs {
			a.k.End(io.EOF)
		}
		s.Sleep(long + time.Second)
		for _, a := range cs {
			if cl, _ := a.k.Closed(); !cl && !a.stopped {
				bad("connection %d is not released after its peer closed", a.k.ID)
			}
		}
		// everything reported was saved
		want := extra
		for _, a := range cs {
			if a.stopped {
				continue
			}
			for _, m := range a.ms {
				if m.Exp != nil {
					want++
				}
			}
		}
		if n := len(s.Saves("a")); n != want {
			bad("%d records saved, want %d", n, want)
		}
	})
	c.Step(len(ops) + 3)
	c.Trace()
	if len(res.Fatal) > 0 {
		c.Fail("crash", "%s", res.Fatal[0])
	}
	if fail != "" {
		c.Fail("accept", "%s", fail)
	}
	c.Count("listener histories")
}

// sentOf is how much of the half packet was sent.
func (a *acceptConn) sentOf(ops []int, cs []*acceptConn) int {
	n := 0
	for i, o := range ops {
		if o <= 1 {
			if cs[n] == a {
				return 5 + 3*(i%7)
			}
			n++
		}
	}
	return 0
}

// stopRace is what meets at the listener while stops run as threads of their own.
type stopRace struct {
	ops   []int // of acceptOps, all offered at the start
	empty bool  // connections send nothing until the stops are over
	stops int
}

func (s stopRace) String() string {
	var v []string
	for _, o := range s.ops {
		v = append(v, acceptOps[o].name)
	}
	e := ""
	if s.empty {
		e = " (sent after the stop)"
	}
	return fmt.Sprintf("%s%s against %d concurrent stops", strings.Join(v, "; "), e, s.stops)
}

// stopSched runs the accept loop, the handlers and the stops one at a time, as the plan decides.
func stopSched(q stopRace, plan []int) (r schedRes) {
	st := &Store{Name: "a"}
	sc := vsched.New(plan)
	vgo.Hook, vnet.Block = vsched.Hook, vsched.Block
	defer func() { vgo.Hook, vnet.Block = nil, nil }()
	bad := func(f string, a ...any) {
		if r.fail == "" {
			r.fail = fmt.Sprintf(f, a...)
		}
	}
	res := Exec(1000*time.Hour, []*Store{st}, func(s *Sim) {
		defer func() {
			vgo.Hook, vnet.Block = nil, nil
			sc.Stop()
		}()
		go1 := func() {
			for i := 0; i < 3; i++ {
				sc.Run()
				s.Sleep(20 * time.Second)
			}
			sc.Run()
		}
		s.Wait()
		var ms []Msg
		for i, o := range q.ops {
			if e := acceptOps[o].err; e != nil {
				s.L.PushErr(e)
				continue
			}
			k := s.NewConn()
			ms = append(ms, kinds[i%3].mk(uint16(10*i+1), 1))
			if !q.empty {
				k.Send(ms[len(ms)-1].Wire)
			}
			s.L.Push(k)
		}
		// Run calls Accept, then everything goes on in any order
		running := false
		stopped := make([]bool, q.stops)
		for i := 0; i < q.stops; i++ {
			i := i
			go vgo.Spawn(func() {
				vsched.Block(func() bool { running = running || s.L.Accepting(); return running })
				s.Stop()
				stopped[i] = true
			})()
		}
		go1()
		if len(res14(s)) > 0 || sc.Over {
			return
		}
		for i, ok := range stopped {
			if !ok {
				bad("stop %d does not return", i+1)
			}
		}
		if !s.RunDone {
			bad("Run has not returned after the stop")
		}
		if s.L.Spin || s.L.AfterClose > 50 {
			bad("Run goes on accepting after the stop (%d times)", s.L.AfterClose)
		}
		if q.empty {
			for i, k := range s.Conns {
				k.Send(ms[i].Wire)
			}
			go1()
		}
		want := 0
		for i, k := range s.Conns {
			if !k.Accepted() {
				if len(k.Out()) > 0 {
					bad("connection %d was never accepted and answered", k.ID)
				}
				continue
			}
			if e := checkReplies(k.Out(), ms[i:i+1]); e != "" {
				bad("connection %d, accepted before the stop: %s", k.ID, e)
			}
			if cl, _ := k.Closed(); cl {
				bad("connection %d, accepted before the stop, was closed", k.ID)
			}
			if ms[i].Exp != nil {
				want++
			}
		}
		if n := len(s.Saves("a")); n != want {
			bad("%d records saved, want %d", n, want)
		}
	})
	r.points, r.steps = sc.Points, sc.Steps
	if len(res.Fatal) > 0 {
		r.fail = "crash: " + res.Fatal[0]
	} else if sc.Over {
		r.fail = fmt.Sprintf("more than %d statements executed", sc.MaxSteps)
	}
	return r
}

// res14 is what has crashed so far (it stays recorded).
func res14(s *Sim) []string {
	p := vgo.Take()
	for _, e := range p {
		vgo.Record(e)
	}
	return p
}

func TestC14(t *testing.T) {
	run(t, func(r *x.R) {
		// stops against the accept loop: every schedule with a number of deviations
		races := []struct {
			q     stopRace
			bound int
		}{
			{stopRace{nil, true, 1}, 2}, {stopRace{nil, true, 2}, 2},
			{stopRace{[]int{0}, true, 1}, 2}, {stopRace{[]int{2}, true, 1}, 2}, {stopRace{[]int{2}, true, 2}, 2},
			{stopRace{[]int{0, 2}, true, 1}, 2}, {stopRace{[]int{3, 0}, true, 1}, 2}, {stopRace{[]int{0, 0}, true, 2}, 1},
			{stopRace{[]int{4, 5, 6}, true, 1}, 1}, {stopRace{[]int{0, 2, 0}, true, 1}, 1}, {stopRace{[]int{2, 2}, true, 2}, 1},
			{stopRace{[]int{0}, false, 1}, 1}, {stopRace{[]int{0, 2, 0}, false, 1}, 1}, {stopRace{[]int{0, 0, 0}, false, 2}, 1},
		}
		if r.Thorough {
			for i := range races {
				conns := 0
				for _, o := range races[i].q.ops {
					conns += int(b2i(acceptOps[o].err == nil))
				}
				switch {
				case conns == 0:
					races[i].bound = 3
				case conns == 1: // (with two, the handlers alone have thousands of scheduling points)
					races[i].bound = 2
				}
			}
		}
		for ri, ra := range races {
			root := stopSched(ra.q, nil)
			r.Extra("scheduling points of: "+ra.q.String(), len(root.points))
			exec := func(q stopRace, plan []int) schedRes { return stopSched(q, plan) }
			r.Case(x.HI(4, uint64(ri)), func() string { return ra.q.String() + ", no preemption" }, func(c *x.C) {
				exploreWith(c, "accept", ra.q.String(), func(p []int) schedRes { return exec(ra.q, p) }, nil, 0)
			})
			for i, p := range root.points {
				for d := 1; d < p.N; d++ {
					plan := make([]int, i+1)
					plan[i] = d
					r.Case(x.HI(5, uint64(ri), uint64(i), uint64(d)), func() string {
						return fmt.Sprintf("%s, schedule %s and up to %d deviations more", ra.q, compact(plan), ra.bound-1)
					}, func(c *x.C) {
						exploreWith(c, "accept", ra.q.String(), func(p []int) schedRes { return exec(ra.q, p) }, plan, ra.bound)
					})
				}
			}
		}
		name := func(ops []int) string {
			var s []string
			for _, o := range ops {
				s = append(s, acceptOps[o].name)
			}
			return strings.Join(s, "; ")
		}
		depth := 5
		if r.Thorough {
			depth = 6
		}
		x.Seqs(len(acceptOps), 0, depth, func(q []int) {
			ops := append([]int(nil), q...)
			for _, batch := range []bool{false, true} {
				h := x.HI(1, b2i(batch))
				for _, o := range ops {
					h = x.HI(h, uint64(o))
				}
				r.Case(h, func() string { return fmt.Sprintf("%s (all at once: %v)", name(ops), batch) }, func(c *x.C) { acceptRun(c, ops, batch, 1) })
			}
		})
		// long runs of failures
		for e := 2; e < 7; e++ {
			for _, n := range []int{2, 5, 10, 50, 100, 1000} {
				for _, ops := range [][]int{{e, 0}, {0, e, 0}, {e, 7}, {1, e, 7, 0}, {0, e, e, 1, 7, 7}} {
					for _, batch := range []bool{false, true} {
						r.Case(x.HI(2, uint64(e), uint64(n), uint64(len(ops)), b2i(batch), uint64(ops[0])), func() string { return fmt.Sprintf("%s (each failure %d times, all at once: %v)", name(ops), n, batch) },
							func(c *x.C) { acceptRun(c, ops, batch, n) })
					}
				}
			}
		}
		// long histories: connections and failures in turns
		for ci, cyc := range [][]int{{0}, {1}, {0, 0, 0, 2}, {0, 3}, {4, 0, 1}, {0, 5, 6}, {2, 3, 4, 5, 6, 0, 1}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 3}} {
			for _, n := range []int{700, 1300} {
				for _, batch := range []bool{false, true} {
					if !batch && n > 700 && !r.Thorough {
						continue
					}
					var ops []int
					for i := 0; i < n; i++ {
						ops = append(ops, cyc[i%len(cyc)])
					}
					r.Case(x.HI(6, uint64(ci), uint64(n), b2i(batch)), func() string { return fmt.Sprintf("%d steps: %s in turns (all at once: %v)", n, name(cyc), batch) },
						func(c *x.C) { acceptRun(c, ops, batch, 1) })
				}
			}
		}
		// stop while saves are in progress: they are completed and acknowledged
		for n := 1; n <= 4; n++ {
			for stops := 1; stops <= 3; stops++ {
				r.Case(x.HI(3, uint64(n), uint64(stops)), func() string {
					return fmt.Sprintf("%d connections wait for the store, stop %d times, the store goes on", n, stops)
				}, func(c *x.C) {
					st := &Store{Name: "a", Script: func(int) Outcome { return Hold }}
					var bads string
					res := Exec(time.Hour, []*Store{st}, func(s *Sim) {
						var ks []*vnet.VConn
						var ms []Msg
						for i := 0; i < n; i++ {
							k := s.Conn()
							m := kinds[0].mk(uint16(i+1), 4)
							k.Send(m.Wire)
							s.Wait()
							ks, ms = append(ks, k), append(ms, m)
						}
						for i := 0; i < stops; i++ {
							s.Stop()
							s.Sleep(time.Second)
						}
						if !s.RunDone {
							bads = "Run has not returned"
						}
						st.Release()
						s.Sleep(time.Second)
						for i, k := range ks {
							if e := checkReplies(k.Out(), ms[i:i+1]); e != "" {
								bads = e
							}
						}
					})
					c.Step(n + stops)
					c.State(x.HI(uint64(n), uint64(stops)))
					c.Trace()
					if len(res.Fatal) > 0 {
						c.Fail("crash", "%s", res.Fatal[0])
					}
					if bads != "" {
						c.Fail("accept", "%s", bads)
					}
				})
			}
		}
	})
}
