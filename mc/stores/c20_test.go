package stores

import (
	"fmt"
	"io"
	"log"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/sirupsen/logrus"

	"verif.local/mc/x"
)

// outage is one failure of the store, from which it returns.
type outage struct {
	fault string // cut, down, slam (accepts and closes), drop (closes on a record), refuse (refuses and closes), lose (takes the record, closes)
	last  time.Duration
	every time.Duration // pause between the saves during the outage; 0 is no save

	refusal Refusal // how it refuses, if not in the usual way
}

// closing are the ways to refuse a record and close the connection.
func closing(kind string) (out []Refusal) {
	for _, f := range Refusals[kind] {
		if f.Close {
			out = append(out, f)
		}
	}
	if len(out) == 0 {
		out = Refusals[kind][:1]
	}
	return
}

func (o outage) String() string {
	text := fmt.Sprintf("%s %v", o.fault, o.last)
	if o.every != 0 {
		text += fmt.Sprintf(", saves every %v", o.every)
	}
	if o.refusal != (Refusal{}) {
		text += ", by " + o.refusal.String()
	}
	return text
}

// recovery is the time a store has to be in use again after its return, slow the time one save may take.
const (
	recovery = 7 * time.Second
	slow     = 4 * time.Second
)

// resume runs the outages one after another with savers saving side by side, and wants every one of
// them to succeed again after each.
func resume(kind string, os []outage, before, savers int) (string, []string) {
	s := NewServer(kind)
	defer s.Stop()
	set := Usual[kind]
	s.User, s.Pass, s.Salt = set.User, set.Pass, 'm'
	if len(os) > 0 && os[0].refusal != (Refusal{}) {
		s.refuse = os[0].refusal
	} else {
		s.refuse = closing(kind)[0]
	}
	st := connector(kind)
	cfg := Config(s, set)
	if kind == "tarantool_queue" {
		cfg["max_recons"] = "1000"
	}
	if err, crash := initStore(st, cfg); err != nil || crash != nil {
		return fmt.Sprintf("Init fails: %v %v (%s)", err, crash, s.Bad()), nil
	}
	defer closeStore(st)
	var (
		mu      sync.Mutex
		n       int
		results = map[int]error{}
		calm    = map[int]bool{} // saved while nothing was wrong
		problem string
		states  []string
	)
	body := func(i int) string { return fmt.Sprintf("{\"record\":%d}", i) }
	// round saves one record per saver side by side and returns the number of those that succeed.
	round := func(quiet bool) int {
		good := 0
		var wg sync.WaitGroup
		for range savers {
			wg.Add(1)
			go func() {
				defer wg.Done()
				mu.Lock()
				i := n
				n++
				mu.Unlock()
				t0 := time.Now()
				err, crash := save(st, &msg{body: body(i)})
				d := time.Since(t0)
				mu.Lock()
				defer mu.Unlock()
				results[i] = err
				calm[i] = quiet
				if crash != nil && problem == "" {
					problem = fmt.Sprintf("save %d panics: %v", i, crash)
				}
				if d > slow && problem == "" {
					problem = fmt.Sprintf("save %d takes %v", i, d)
				}
				if err == nil {
					good++
				}
			}()
		}
		wg.Wait()
		return good
	}
	for range before {
		if round(true) != savers && problem == "" {
			return fmt.Sprintf("save fails before any outage: %v", results), states
		}
	}
	for k, o := range os {
		switch o.fault {
		case "cut":
			s.Cut()
		case "down":
			s.Down()
		case "slam":
			s.Slam(true)
		case "drop":
			s.SetMode(Drop)
		case "refuse":
			s.SetMode(Reject)
		case "lose":
			s.SetMode(Lose)
		}
		end := time.Now().Add(o.last)
		failed := 0
		for time.Now().Before(end) {
			if o.every == 0 {
				time.Sleep(time.Until(end))
				break
			}
			if g := round(false); g < savers {
				failed++
			} else if o.fault != "cut" {
				return fmt.Sprintf("a save succeeds during the outage %q", o), states
			}
			if problem != "" {
				return problem, states
			}
			time.Sleep(o.every)
		}
		switch o.fault {
		case "down":
			s.Up()
		case "slam":
			s.Slam(false)
		}
		s.SetMode(Accept)
		back := time.Now()
		row := 0
		for tries := 0; row < 3; tries++ {
			if round(false) == savers {
				row++
			} else {
				row = 0
				if time.Since(back) > recovery {
					mu.Lock()
					defer mu.Unlock()
					return fmt.Sprintf("%v after the end of outage %d (%s) a save still fails: %v (%d tries)", time.Since(back).Round(time.Second), k, o, results[n-1], tries), states
				}
				time.Sleep(100 * time.Millisecond)
			}
			if problem != "" {
				return problem, states
			}
		}
		states = append(states, fmt.Sprint(k, o, failed > 0, time.Since(back)/time.Second))
	}
	for range 2 {
		if round(true) != savers {
			return fmt.Sprintf("a save fails after the last outage: %v", results[n-1]), states
		}
	}
	return finish(s, set, n, body, func(i int) error { return results[i] }, func(i int) bool { return !calm[i] }), states
}

func TestC20(t *testing.T) {
	logrus.SetOutput(io.Discard)
	log.SetOutput(io.Discard)
	for _, e := range os.Environ() {
		if k, _, _ := strings.Cut(e, "="); strings.HasPrefix(k, "PG") {
			os.Unsetenv(k)
		}
	}
	faults := []string{"cut", "down", "slam", "drop", "refuse", "lose"}
	ms := time.Millisecond
	x.Run(t, func(r *x.R) {
		// the longest outage first: it takes most of the time
		var long []item
		for _, kind := range Kinds {
			for _, f := range []string{"down", "slam"} {
				for _, every := range []time.Duration{0, time.Second} {
					last := 135 * time.Second
					if r.Thorough {
						last = 400 * time.Second
					}
					o := []outage{{fault: f, last: last, every: every}}
					long = append(long, item{fmt.Sprint(kind, " ", o), func() (string, []string) { return resume(kind, o, 1, 1) }})
				}
			}
		}
		group(r, "all", "long outage", long, len(long))
		for _, kind := range Kinds {
			if o := os.Getenv("VMC_KIND"); o != "" && o != kind {
				continue
			}
			var items []item
			add := func(os []outage, before, savers int) {
				os = append([]outage(nil), os...)
				items = append(items, item{fmt.Sprintf("%d before, %d side by side, %v", before, savers, os), func() (string, []string) { return resume(kind, os, before, savers) }})
			}
			var choices []outage
			for _, f := range faults {
				choices = append(choices, outage{fault: f}, outage{fault: f, last: 60 * ms, every: 15 * ms})
			}
			n := 2
			if r.Thorough {
				n = 3
			}
			x.Seqs(len(choices), 1, n, func(q []int) {
				var os []outage
				for _, i := range q {
					os = append(os, choices[i])
				}
				add(os, len(q)%2, 1)
				if len(q) < 3 {
					add(os, 1-len(q)%2, 1)
					add(os, 1, 3)
				}
			})
			for _, f := range faults {
				for _, last := range []time.Duration{0, 200 * ms, 1100 * ms, 2500 * ms, 6 * time.Second} {
					for _, every := range []time.Duration{0, 20 * ms, 300 * ms, time.Second} {
						if every > last {
							continue
						}
						for _, savers := range []int{1, 4} {
							for _, before := range []int{0, 1, 5} {
								add([]outage{{fault: f, last: last, every: every}}, before, savers)
							}
						}
					}
				}
			}
			for _, f := range append(closing(kind), Refusals[kind]...) {
				for _, last := range []time.Duration{20 * ms, 500 * ms} {
					for _, savers := range []int{1, 3} {
						o := outage{fault: "refuse", last: last, every: 12 * ms, refusal: f}
						add([]outage{o}, 1, savers)
						add([]outage{o, {fault: "cut"}, o, {fault: "down"}, o}, 1, savers)
					}
				}
			}
			// many outages
			for _, f := range faults {
				var os []outage
				for i := range 8 {
					os = append(os, outage{fault: f, last: time.Duration(i%3) * 20 * ms, every: 10 * ms})
				}
				add(os, 1, 1)
				add(os, 1, 2)
			}
			group(r, kind, "outage", items, 128)
			step := 5
			if r.Thorough {
				step = 1
			}
			breaks(r, kind, step, true)
		}
	})
}
