package stores

import (
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	"github.com/sirupsen/logrus"

	"verif.local/mc/x"
)

// happenings are what can befall a save.
var happenings = []string{"accept", "reject", "drop", "lose", "cut", "down", "slam", "deny", "dismiss"}

// settle waits until ok, at most d.
func settle(d time.Duration, ok func() bool) bool {
	for end := time.Now().Add(d); ; time.Sleep(10 * time.Millisecond) {
		if ok() {
			return true
		}
		if time.Now().After(end) {
			return ok()
		}
	}
}

// hoard repeats the happenings for so many rounds and judges what the connector holds. It runs alone in
// its process, whose goroutines are counted. It closes the
// connector "late", when the last happening has ended and saving goes on, or with the last happening under way,
// "during" the saves that fail from it or "at once" before any.
func hoard(kind string, q []int, f Refusal, dismissal, denial string, rounds, savers int, when string) (problem string, states []string) {
	before := goroutines()
	s := NewServer(kind)
	stopped := false
	defer func() {
		if !stopped {
			s.Stop()
		}
	}()
	set := Usual[kind]
	s.User, s.Pass, s.Salt = set.User, set.Pass, 'm'
	s.refuse = f
	st := connector(kind)
	cfg := Config(s, set)
	if kind == "tarantool_queue" {
		cfg["max_recons"] = "1000"
	}
	if err, crash := initStore(st, cfg); err != nil || crash != nil {
		return fmt.Sprintf("Init fails: %v %v (%s)", err, crash, s.Bad()), nil
	}
	closed := false
	defer func() {
		if !closed {
			closeStore(st)
		}
	}()
	n := 0
	saves := func() (good int) {
		var mu sync.Mutex
		var wg sync.WaitGroup
		for range savers {
			wg.Add(1)
			n++
			m := &msg{body: fmt.Sprintf("{\"record\":%d}", n)}
			go func() {
				defer wg.Done()
				err, crash := save(st, m)
				mu.Lock()
				defer mu.Unlock()
				if crash != nil {
					problem = fmt.Sprintf("a save panics: %v", crash)
				}
				if err == nil {
					good++
				}
			}()
		}
		wg.Wait()
		return
	}
	happen := func(h string) {
		switch h {
		case "reject":
			s.SetMode(Reject)
		case "drop":
			s.SetMode(Drop)
		case "lose":
			s.SetMode(Lose)
		case "cut":
			s.Cut()
		case "down":
			s.Down()
		case "slam":
			s.Slam(true)
		case "deny":
			s.Deny(denial)
		case "dismiss":
			s.Say(dismissal)
			time.Sleep(15 * time.Millisecond)
		}
	}
	over := func(h string) {
		switch h {
		case "down":
			s.Up()
		case "slam":
			s.Slam(false)
		case "deny":
			s.Deny("")
		}
		s.SetMode(Accept)
	}
	round := func() string {
		for _, k := range q {
			h := happenings[k]
			happen(h)
			saves()
			saves()
			over(h)
		}
		for end := time.Now().Add(recovery); saves() < savers; {
			if time.Now().After(end) {
				return "saves still fail after " + fmt.Sprint(recovery)
			}
			time.Sleep(50 * time.Millisecond)
		}
		return problem
	}
	saves()
	// one round to open what is to be open, then the ones that may not open more
	for range 2 {
		if p := round(); p != "" {
			return p, states
		}
	}
	time.Sleep(50 * time.Millisecond)
	conns, gors := s.Open(), goroutines()
	for range rounds {
		if p := round(); p != "" {
			return p, states
		}
		states = append(states, fmt.Sprint(kind, q, f, savers, s.Open()))
	}
	allowed := max(conns, savers) + min(rounds/4, 2)
	if !settle(6*time.Second, func() bool { return s.Open() <= allowed }) {
		return fmt.Sprintf("%d connections to the server are open after %d rounds by %d savers, %d after two", s.Open(), rounds+2, savers, conns), states
	}
	if !settle(6*time.Second, func() bool { return goroutines() < gors+savers*4+rounds/2 }) {
		return fmt.Sprintf("%d goroutines after %d rounds by %d savers, %d after two; %s", goroutines(), rounds+2, savers, gors, stacks()), states
	}
	last := ""
	if when != "late" && len(q) > 0 {
		last = happenings[q[len(q)-1]]
		happen(last)
		if when == "during" {
			saves()
		}
		if problem != "" {
			return problem, states
		}
	}
	closed = true
	if p := closeStore(st); p != "" {
		return p, states
	}
	over(last)
	if !settle(6*time.Second, func() bool { return s.Open() == 0 }) {
		return fmt.Sprintf("%d connections to the server are open after the connector is closed", s.Open()), states
	}
	_, dials := s.Counts()
	if when != "late" {
		time.Sleep(3 * time.Second) // longer than any connector waits between two attempts
	}
	if _, d := s.Counts(); d > dials+1 || s.Open() != 0 {
		return fmt.Sprintf("after the connector is closed %d new connections are made, %d are open", d-dials, s.Open()), states
	}
	s.Stop()
	stopped = true
	if !settle(6*time.Second, func() bool { return goroutines() <= before+1 }) {
		return fmt.Sprintf("%d goroutines before the connector is set up, %d after it is closed; %s", before, goroutines(), stacks()), states
	}
	return "", states
}

// goroutines is the number of goroutines that run, apart from those counted by left.
func goroutines() int { return runtime.NumGoroutine() - left() }

// left is the number of readers of connections that the AMQP library leaves behind for good: a reader that
// takes a frame when the heartbeats have not begun or have ended waits for a goroutine that is not there.
// Nothing a connector can do ends them.
func left() (n int) {
	buf := make([]byte, 1<<20)
	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		first, rest, _ := strings.Cut(g, "\n")
		if strings.Contains(first, "[chan send") && strings.HasPrefix(rest, "github.com/streadway/amqp.(*Connection).reader(") {
			n++
		}
	}
	return
}

// stacks are the stacks of what runs.
func stacks() string {
	buf := make([]byte, 256<<10)
	t := string(buf[:runtime.Stack(buf, true)])
	var out []string
	for _, g := range strings.Split(t, "\n\n") {
		if !strings.Contains(g, "testing.") && !strings.Contains(g, "verif.local/mc/x.Run") {
			out = append(out, g)
		}
	}
	return strings.Join(out[:min(len(out), 12)], "\n\n")
}

// starts sets connectors up in vain, over and over.
func starts(kind, how string, rounds int) (problem string, states []string) {
	s := NewServer(kind)
	defer s.Stop()
	set := Usual[kind]
	s.User, s.Pass, s.Salt = set.User, set.Pass, 'm'
	cfg := Config(s, set)
	switch how {
	case "down":
		s.Down()
	case "slam":
		s.Slam(true)
	case "wrong password":
		cfg["password"] = "wrong"
	case "one at a time":
		s.Room(1)
	default:
		s.Deny(how)
	}
	for range rounds {
		st := connector(kind)
		err, crash := initStore(st, cfg)
		if crash != nil {
			return fmt.Sprintf("Init panics: %v", crash), states
		}
		if err == nil { // it connects when it saves, or the server does not mind
			if p := closeStore(st); p != "" {
				return p, states
			}
		}
		states = append(states, fmt.Sprint(kind, how, err == nil))
	}
	if !settle(6*time.Second, func() bool { return s.Open() == 0 }) {
		problem = fmt.Sprintf("%d connections are open after %d starts that failed", s.Open(), rounds)
	}
	return
}

// leftovers sets connectors up that the server turns away with a Close in answer to their credentials, and
// returns what stays behind.
func leftovers(rounds int) int {
	s := NewServer("rabbitmq")
	defer s.Stop()
	set := Usual["rabbitmq"]
	s.User, s.Pass = set.User, set.Pass
	cfg := Config(s, set)
	cfg["password"] = "wrong"
	n := left()
	for range rounds {
		st := connector("rabbitmq")
		initStore(st, cfg)
		closeStore(st)
	}
	time.Sleep(500 * time.Millisecond)
	return left() - n
}

// memory saves over and over and judges what the process keeps for it.
func memory(kind string, h string, f Refusal, size, reps int) (problem string, states []string) {
	problem = withServer(kind, Usual[kind], func(s *Server, st storage.Store) string {
		s.mu.Lock()
		s.refuse = f
		s.mu.Unlock()
		if h == "reject" {
			s.SetMode(Reject)
		}
		pad := strings.Repeat("x", size)
		n := 0
		round := func(k int) string {
			for range k {
				n++
				err, crash := save(st, &msg{body: fmt.Sprint(n, pad)})
				if crash != nil {
					return fmt.Sprintf("save %d panics: %v", n, crash)
				}
				if (err == nil) != (h == "accept") && !(h == "reject" && err != nil) {
					return fmt.Sprintf("save %d returns %v", n, err)
				}
				if n%50 == 0 {
					s.Forget()
				}
			}
			s.Forget()
			return ""
		}
		heap := func() int64 {
			var m runtime.MemStats
			for range 3 {
				runtime.GC()
			}
			runtime.ReadMemStats(&m)
			return int64(m.HeapAlloc)
		}
		if p := round(reps / 2); p != "" {
			return p
		}
		a := heap()
		for k := 0; ; k++ {
			if p := round(reps); p != "" {
				return p
			}
			b := heap()
			states = append(states, fmt.Sprint(kind, h, f, size, (b-a)/int64(8*reps)))
			if b-a < int64(8*reps) {
				return ""
			}
			if k == 3 {
				return fmt.Sprintf("%d saves leave %d bytes behind, after %d saves before them", reps, b-a, reps/2+k*reps)
			}
			a = b
		}
	})
	return
}

func TestC22(t *testing.T) {
	logrus.SetOutput(io.Discard)
	log.SetOutput(io.Discard)
	for _, e := range os.Environ() {
		if k, _, _ := strings.Cut(e, "="); strings.HasPrefix(k, "PG") {
			os.Unsetenv(k)
		}
	}
	x.Run(t, func(r *x.R) {
		one := func(kind, what, name string, run func() (string, []string)) {
			if o := os.Getenv("VMC_KIND"); o != "" && o != kind {
				return
			}
			r.Case(x.HS(kind, what, name), func() string { return kind + ", " + what + ": " + name }, func(c *x.C) {
				p, states := run()
				c.Trace()
				c.Step(len(states))
				for _, s := range states {
					c.State(x.HS(s))
				}
				c.Count(kind + ", " + what)
				if p != "" {
					c.Note(kind+" "+what, "%s", p)
				}
			})
		}
		names := func(q []int) string {
			var s []string
			for _, k := range q {
				s = append(s, happenings[k])
			}
			return fmt.Sprint(s)
		}
		depth, few := 2, 8
		if r.Thorough {
			few = 24
		}
		for _, kind := range Kinds {
			usual := closing(kind)[0]
			// quick ones, many rounds
			for _, savers := range []int{1, 5} {
				for h := range 2 {
					one(kind, "many rounds", fmt.Sprintf("%s, %d side by side", happenings[h], savers), func() (string, []string) {
						return hoard(kind, []int{h}, Refusals[kind][0], "", "", 100, savers, []string{"late", "during"}[h])
					})
				}
			}
			dismissals, can := Dismissals[kind], len(happenings)
			if len(dismissals) == 0 {
				can, dismissals = can-1, []string{""}
			}
			x.Seqs(can, 1, depth, func(q []int) {
				q = append([]int(nil), q...)
				rounds := few
				if len(q) == 2 {
					rounds = few / 2
				}
				for _, when := range []string{"late", "during", "at once"} {
					if when == "at once" && len(q) == 2 {
						continue // as after one
					}
					one(kind, "rounds", fmt.Sprintf("%s, closed %s", names(q), when), func() (string, []string) {
						return hoard(kind, q, usual, dismissals[0], Denials[kind][0], rounds, 1, when)
					})
				}
				if len(q) == 1 {
					one(kind, "rounds", names(q)+", 3 side by side", func() (string, []string) {
						return hoard(kind, q, usual, dismissals[0], Denials[kind][0], rounds, 3, "during")
					})
				}
			})
			for _, f := range Refusals[kind] {
				one(kind, "refusal", f.String(), func() (string, []string) { return hoard(kind, []int{1}, f, "", "", few, 1, "during") })
			}
			for _, d := range dismissals[1:] {
				for _, when := range []string{"late", "during", "at once"} {
					one(kind, "dismissal", d+", closed "+when, func() (string, []string) {
						return hoard(kind, []int{len(happenings) - 1}, usual, d, "", few/2, 1, when)
					})
				}
			}
			for _, d := range Denials[kind][1:] {
				for _, when := range []string{"late", "during", "at once"} {
					one(kind, "denial", d+", closed "+when, func() (string, []string) {
						return hoard(kind, []int{len(happenings) - 2}, usual, "", d, few/2, 1, when)
					})
				}
			}
			reps := 1000
			if r.Thorough {
				reps = 8000
			}
			for _, size := range []int{10, 3000} {
				one(kind, "memory", fmt.Sprintf("accepted, %d bytes", size), func() (string, []string) { return memory(kind, "accept", usual, size, reps) })
				one(kind, "memory", fmt.Sprintf("refused, %d bytes", size), func() (string, []string) { return memory(kind, "reject", Refusals[kind][0], size, reps) })
			}
			if kind == "rabbitmq" {
				r.Case(x.HS("left"), func() string { return "rabbitmq, closed before it is open" }, func(c *x.C) {
					c.Trace()
					if n := leftovers(10); n > 0 {
						c.Note("amqp-reader-left", "%d goroutines of the AMQP library are left after 10 connections that the server has closed before they were open", n)
					}
				})
			}
			for _, how := range append([]string{"down", "slam", "wrong password", "one at a time"}, Denials[kind]...) {
				one(kind, "failing starts", how, func() (string, []string) { return starts(kind, how, 20) })
			}
		}
	})
}
