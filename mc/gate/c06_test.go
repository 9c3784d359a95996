package gate

import (
	"bytes"
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	"verif.local/mc/ref"
	"verif.local/mc/vnet"
	"verif.local/mc/x"
)

func storesFor(n int, script func(store, call int) Outcome) (out []*Store) {
	for i := 0; i < n; i++ {
		out = append(out, &Store{Name: string(rune('a' + i)), Script: func(call int) Outcome { return script(i, call) }})
	}
	return
}

// ackOrder checks the order of saves and replies on one connection, and the replies themselves.
// failed tells, per telemetry packet in order, whether some store failed to save it.
func ackOrder(evs []vnet.Event, ms []Msg, nstores int, failed []bool) string {
	// split what was written into packets, remembering at which event each began
	type wr struct {
		at int
		r  ref.Reply
	}
	var ws []wr
	var buf []byte
	start := 0
	for i, e := range evs {
		if e.Kind != "write" {
			continue
		}
		if len(buf) == 0 {
			start = i
		}
		buf = append(buf, e.Data...)
		rs, rest, err := ref.ParseReplies(buf)
		if err != nil {
			return "unparsable reply: " + err.Error()
		}
		for _, r := range rs {
			ws = append(ws, wr{start, r})
		}
		if len(rest) > 0 && len(rs) > 0 {
			start = i
		}
		buf = rest
	}
	if len(buf) > 0 {
		return "incomplete reply"
	}
	// event index after which the k-th telemetry packet was saved by all stores
	var savedAt []int
	cnt := map[string]int{}
	nth := map[string][]int{}
	for i, e := range evs {
		if e.Kind == "saved" || e.Kind == "failed" {
			cnt[e.Name]++
			nth[e.Name] = append(nth[e.Name], i)
		}
	}
	k := 0
	i := 0
	for _, m := range ms {
		if m.Kind == Ignored {
			continue
		}
		if i >= len(ws) {
			return fmt.Sprintf("packet %s (%d) was not answered", m.Name, m.PID)
		}
		w := ws[i]
		i++
		fail := false
		if m.Exp != nil {
			fail = failed[k]
			last := -1
			for s := 0; s < nstores; s++ {
				n := nth[string(rune('a'+s))]
				if k >= len(n) {
					return fmt.Sprintf("telemetry packet %d (%s) was not offered to store %d", k, m.Name, s)
				}
				last = max(last, n[k])
			}
			savedAt = append(savedAt, last)
			if w.r.PR == 0 && w.at < last {
				return fmt.Sprintf("packet %s (%d) is acknowledged before every store has saved it", m.Name, m.PID)
			}
			k++
		}
		if !fail {
			if s := checkResponse(&w.r, m); s != "" {
				return fmt.Sprintf("packet %s (%d): %s", m.Name, m.PID, s)
			}
			if m.Kind == Data && m.Auth {
				if i >= len(ws) {
					return "no result code"
				}
				if s := checkResult(&ws[i].r); s != "" {
					return s
				}
				i++
			}
			continue
		}
		if w.r.PT != ref.PtResponse || w.r.RPID != m.PID {
			return fmt.Sprintf("packet %s (%d): want its response, got %s", m.Name, m.PID, showReply(w.r))
		}
		if w.r.PR == 0 {
			return fmt.Sprintf("packet %s (%d) was not saved by every store but is answered with result 0", m.Name, m.PID)
		}
		for _, cf := range w.r.Conf {
			if cf.Status == 0 {
				return fmt.Sprintf("packet %s (%d) was not saved by every store but record %d is confirmed", m.Name, m.PID, cf.RN)
			}
		}
		if m.Auth && i < len(ws) && ws[i].r.PT == ref.PtAppdata { // whether a result code follows is not defined
			i++
		}
	}
	if i != len(ws) {
		return "too many replies: " + showReply(ws[i].r)
	}
	return ""
}

func TestC06(t *testing.T) {
	run(t, func(r *x.R) {
		// kinds with and without telemetry
		pick := []int{0, 1, 2, 4, 5, 9} // pos three auth term+pos sensors bad-body-crc
		// every outcome of every save: 0..3 stores, every sequence of up to 3 packets, and a retransmission of them all
		plen := 4
		if r.Thorough {
			plen = 5
		}
		for n := 0; n <= 3; n++ {
			x.Seqs(len(pick), 1, plen, func(q []int) {
				var ms []Msg
				tele := 0
				for i, k := range q {
					m := kinds[pick[k]].mk(uint16(50+i), uint16(1+100*i))
					ms = append(ms, m)
					if m.Exp != nil {
						tele++
					}
				}
				if tele == 0 {
					return
				}
				if n == 3 && tele > 3 {
					return
				}
				for mask := 0; mask < 1<<(n*tele); mask++ {
					if !r.Mine() {
						r.Case(0, nil, nil)
						continue
					}
					q := append([]int(nil), q...)
					r.Case(x.HI(1, uint64(n), uint64(mask), x.HS(fmt.Sprint(q))), func() string {
						return fmt.Sprintf("%d stores, packets %s then all again; store s fails to save telemetry packet p when bit p*%d+s of %b is set", n, Names(ms), n, mask)
					}, func(c *x.C) {
						failed := make([]bool, 2*tele)
						for p := 0; p < tele; p++ {
							failed[p] = mask>>(p*n)&(1<<n-1) != 0
						}
						sts := storesFor(n, func(s, call int) Outcome {
							if call < tele && mask>>(call*n+s)&1 == 1 {
								return Fail
							}
							return OK
						})
						all := append(append([]Msg(nil), ms...), ms...)
						var evs []vnet.Event
						closed := false
						res := Exec(ttl, sts, func(s *Sim) {
							k := s.Conn()
							k.Send(Stream(ms))
							s.Wait()
							k.Send(Stream(ms))
							s.Wait()
							closed, _ = k.Closed()
							evs = s.Tr.Events()
						})
						states(c, all)
						if len(res.Fatal) > 0 {
							c.Fail("crash", "%s", res.Fatal[0])
						}
						if closed {
							c.Fail("close", "the connection was closed")
						}
						if s := ackOrder(evs, all, n, failed); s != "" {
							c.Fail("ack", "%s", s)
						}
						c.Count(fmt.Sprintf("%d stores", n))
					})
				}
			})
		}
		// every form of a packet, saved or not saved by the last or only store, then sent again
		for gi, g := range [][]shape{
			shapes("position", func() []item { return items(pos(3)) }),
			shapes("term and position", func() []item { return items(term(3), pos(3)) }),
		} {
			for i, sh := range g {
				for mode := 0; mode < 4; mode++ { // bit 0: two stores, bit 1: the packet is followed by another that is saved
					r.Case(x.HI(4, uint64(gi), uint64(i), uint64(mode)), func() string {
						return fmt.Sprintf("%s (%d stores, the last fails to save it), then sent again", sh.name, 1+mode&1)
					}, func(c *x.C) {
						n := 1 + mode&1
						m := sh.mk(40, 30)
						all, failed := []Msg{m, m}, []bool{true, false}
						if mode&2 != 0 {
							all, failed = []Msg{m, kinds[0].mk(41, 31), m}, []bool{true, false, false}
						}
						sts := storesFor(n, func(s, call int) Outcome {
							if s == n-1 && call == 0 {
								return Fail
							}
							return OK
						})
						var evs []vnet.Event
						res := Exec(ttl, sts, func(s *Sim) {
							k := s.Conn()
							k.Send(Stream(all))
							s.Wait()
							if cl, _ := k.Closed(); cl {
								c.Fail("close", "the connection was closed")
							}
							evs = s.Tr.Events()
						})
						states(c, all)
						if len(res.Fatal) > 0 {
							c.Fail("crash", "%s", res.Fatal[0])
						}
						if s := ackOrder(evs, all, n, failed); s != "" {
							c.Fail("ack", "%s", s)
						}
					})
				}
			}
		}
		// every kind of error a store may report is a failure, whichever store and packet it concerns
		for ei, oe := range oddErrs() {
			for n := 1; n <= 3; n++ {
				for h := 0; h < n; h++ {
					for p := 0; p < 3; p++ {
						for _, kind := range []int{0, 1, 2, 5} {
							r.Case(x.HI(3, uint64(ei), uint64(n), uint64(h), uint64(p), uint64(kind)), func() string {
								return fmt.Sprintf("%d stores, store %d reports %s for packet %d of three packets %s, which are then sent again", n, h, oe.name, p, kinds[kind].name)
							}, func(c *x.C) {
								var ms []Msg
								for i := 0; i < 3; i++ {
									ms = append(ms, kinds[kind].mk(uint16(70+i), uint16(5+10*i)))
								}
								all := append(append([]Msg(nil), ms...), ms...)
								sts := storesFor(n, func(s, call int) Outcome {
									if s == h && call == p {
										return Fail
									}
									return OK
								})
								sts[h].Err = oe.err
								var evs []vnet.Event
								res := Exec(ttl, sts, func(s *Sim) {
									k := s.Conn()
									k.Send(Stream(all))
									s.Wait()
									if cl, _ := k.Closed(); cl {
										c.Fail("close", "the connection was closed")
									}
									evs = s.Tr.Events()
								})
								states(c, all)
								if len(res.Fatal) > 0 {
									c.Fail("crash", "%s", res.Fatal[0])
								}
								failed := make([]bool, 6)
								failed[p] = true
								if s := ackOrder(evs, all, n, failed); s != "" {
									c.Fail("ack", "%s", s)
								}
							})
						}
					}
				}
			}
		}
		// long runs of failures, on one connection and over many
		runs := []struct {
			name string
			fail func(i int) bool
		}{
			{"every one", func(i int) bool { return true }},
			{"every one but the last", func(i int) bool { return i != 699 }},
			{"every second", func(i int) bool { return i%2 == 0 }},
			{"every third", func(i int) bool { return i%3 == 2 }},
			{"all but every tenth", func(i int) bool { return i%10 != 9 }},
			{"all but every hundredth", func(i int) bool { return i%100 != 99 }},
			{"the first half", func(i int) bool { return i < 350 }},
			{"the second half", func(i int) bool { return i >= 350 }},
			{"blocks of 16", func(i int) bool { return i/16%2 == 0 }},
			{"blocks of 65", func(i int) bool { return i/65%2 == 1 }},
		}
		for ri, run := range runs {
			for _, kind := range []int{0, 1, 5} {
				for n := 1; n <= 3; n++ {
					for _, per := range []int{700, 50, 1} {
						for _, gap := range []time.Duration{0, time.Second, 20 * time.Minute} {
							if !r.Thorough && (n == 3 || gap > 0 && n > 1 || kind == 1 && per == 50) {
								continue
							}
							r.Case(x.HI(5, uint64(ri), uint64(kind), uint64(n), uint64(per), uint64(gap)), func() string {
								return fmt.Sprintf("%d stores, 700 packets %s, %d per connection, %v between them, the last store fails to save %s", n, kinds[kind].name, per, gap, run.name)
							}, func(c *x.C) {
								fails := make([]bool, 700)
								for i := range fails {
									fails[i] = run.fail(i)
								}
								sts := storesFor(n, func(s, call int) Outcome {
									if s == n-1 && call < len(fails) && fails[call] {
										return Fail
									}
									return OK
								})
								bad := ""
								res := Exec(time.Hour, sts, func(s *Sim) {
									for from := 0; from < 700 && bad == ""; from += per {
										k := s.Conn()
										first := len(s.Tr.Events())
										var ms []Msg
										for i := from; i < from+per; i++ {
											m := kinds[kind].mk(uint16(3+i/2), uint16(5+10*(i/2))) // every packet is sent twice
											ms = append(ms, m)
											k.Send(m.Wire)
											s.Sleep(gap)
										}
										s.Wait()
										if cl, _ := k.Closed(); cl {
											bad = fmt.Sprintf("connection %d was closed", k.ID)
											return
										}
										if e := ackOrder(s.Tr.Events()[first:], ms, n, fails[from:from+per]); e != "" {
											bad = fmt.Sprintf("connection %d: %s", k.ID, e)
										}
										k.End(io.EOF)
										s.Wait()
									}
								})
								c.State(x.HI(5, uint64(ri), uint64(kind), uint64(n), uint64(per), uint64(gap)))
								c.Step(700)
								c.Trace()
								if len(res.Fatal) > 0 {
									c.Fail("crash", "%s", res.Fatal[0])
								}
								if bad != "" {
									c.Fail("ack", "%s", bad)
								}
								c.Count("long runs of failures")
							})
						}
					}
				}
			}
		}
		// nothing is acknowledged while a save is in progress: hold store h of n at packet p
		for n := 1; n <= 3; n++ {
			for h := 0; h < n; h++ {
				for p := 0; p < 3; p++ {
					for after := 0; after < 2; after++ { // the held save then succeeds or fails
						for _, kind := range []int{0, 1, 4, 5} {
							for _, d := range []time.Duration{ttl / 2, ttl + time.Second, time.Minute, 65 * time.Minute, 49 * time.Hour} {
								r.Case(x.HI(2, uint64(n), uint64(h), uint64(p), uint64(after), uint64(kind), uint64(d)), func() string {
									return fmt.Sprintf("%d stores, store %d takes %v to save packet %d of three packets %s (then fails: %d)", n, h, d, p, kinds[kind].name, after)
								}, func(c *x.C) { heldSave(c, n, h, p, after == 1, kind, d) })
							}
						}
					}
				}
			}
		}
	})
}

type timeoutErr struct{ tmp bool }

func (timeoutErr) Error() string     { return "i/o timeout" }
func (timeoutErr) Timeout() bool     { return true }
func (e timeoutErr) Temporary() bool { return e.tmp }

type sliceErr []string

func (e sliceErr) Error() string { return strings.Join(e, ", ") }

type nilErr struct{}

func (*nilErr) Error() string { return "an error without a value" }

type oddErr struct {
	name string
	err  error
}

// oddErrs are the errors stores and their drivers report.
func oddErrs() []oddErr {
	return []oddErr{
		{"io.EOF", io.EOF},
		{"io.ErrUnexpectedEOF", io.ErrUnexpectedEOF},
		{"a wrapped closed pipe", fmt.Errorf("wrapped: %w", io.ErrClosedPipe)},
		{"a wrapped EOF", fmt.Errorf("wrapped: %w", io.EOF)},
		{"os.ErrDeadlineExceeded", os.ErrDeadlineExceeded},
		{"os.ErrExist", os.ErrExist},
		{"os.ErrNotExist", os.ErrNotExist},
		{"net.ErrClosed", net.ErrClosed},
		{"a net timeout", &net.OpError{Op: "write", Net: "tcp", Err: timeoutErr{true}}},
		{"a timeout", timeoutErr{}},
		{"a temporary error", timeoutErr{true}},
		{"a refused connection", &net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}},
		{"a broken pipe", os.NewSyscallError("write", syscall.EPIPE)},
		{"EAGAIN", syscall.EAGAIN},
		{"EINTR", syscall.EINTR},
		{"context.Canceled", context.Canceled},
		{"context.DeadlineExceeded", context.DeadlineExceeded},
		{"sql.ErrNoRows", sql.ErrNoRows},
		{"sql.ErrConnDone", sql.ErrConnDone},
		{"driver.ErrBadConn", driver.ErrBadConn},
		{"driver.ErrSkip", driver.ErrSkip},
		{"an error with empty text", errors.New("")},
		{"an error with text nil", errors.New("nil")},
		{"an error with a verb", errors.New("100%s %d %!v")},
		{"an error of 100000 characters", errors.New(strings.Repeat("x", 100000))},
		{"an error with line ends", errors.New("a\nb\r\n\x00")},
		{"a duplicate key", errors.New("pq: duplicate key value violates unique constraint")},
		{"an incomparable error", sliceErr{"a", "b"}},
		{"an empty incomparable error", sliceErr(nil)},
		{"a typed nil", (*nilErr)(nil)},
		{"joined errors", errors.Join(io.EOF, errors.New("b"))},
	}
}

// heldSave holds the save of packet p in store h for d. A gateway may give a connection up that takes
// longer than its idle limit; it may not acknowledge what is not saved.
func heldSave(c *x.C, n, h, p int, thenFail bool, kind int, d time.Duration) {
	kd := kinds[kind]
	if kd.name == "sensors" {
		kd = kinds[0]
	}
	var ms []Msg
	for i := 0; i < 3; i++ {
		ms = append(ms, kd.mk(uint16(60+i), uint16(5+i)))
	}
	sts := storesFor(n, func(s, call int) Outcome {
		if s == h && call == p {
			return Hold
		}
		return OK
	})
	sts[h].HeldFails = thenFail
	var before []byte
	var evs []vnet.Event
	var gone bool
	res := Exec(ttl, sts, func(s *Sim) {
		k := s.Conn()
		k.Send(Stream(ms))
		s.Sleep(d)
		before = k.Out()
		gone, _ = k.Closed()
		sts[h].Release()
		s.Wait()
		evs = s.Tr.Events()
	})
	states(c, ms)
	if len(res.Fatal) > 0 {
		c.Fail("crash", "%s", res.Fatal[0])
	}
	if s := checkReplies(before, ms[:p]); s != "" {
		c.Fail("ack-before-save", "while store %d is still saving packet %d: %s", h, p, s)
	}
	if d > ttl && gone {
		c.Count("given up while a save takes longer than the idle limit")
		return
	}
	failed := make([]bool, 3)
	failed[p] = thenFail
	if s := ackOrder(evs, ms, n, failed); s != "" {
		c.Fail("ack", "%s", s)
	}
}

// recStore is a Saver that records what it is given.
type recStore struct {
	id   int
	log  *[]string
	fail func(call int) error
	n    int
}

func (s *recStore) Save(m interface{ ToBytes() ([]byte, error) }) error {
	b, err := m.ToBytes()
	*s.log = append(*s.log, fmt.Sprintf("%d:%s", s.id, b))
	if err != nil {
		*s.log = append(*s.log, "unserialisable")
	}
	s.n++
	return s.fail(s.n - 1)
}

type blob struct{ b []byte }

func (b *blob) ToBytes() ([]byte, error) { return b.b, nil }

func TestC07(t *testing.T) {
	run(t, func(r *x.R) {
		maxN, saves := 7, 2
		if r.Thorough {
			maxN, saves = 8, 2
		}
		errs := []error{errors.New("first"), io.EOF, fmt.Errorf("wrapped: %w", io.ErrClosedPipe)}
		// every kind of error in every store, alone and with every other kind in another store
		odd := append([]oddErr{{name: "nothing"}}, oddErrs()...)
		for n := 1; n <= 3; n++ {
			x.Seqs(len(odd), n, n, func(q []int) {
				q = append([]int(nil), q...)
				r.Case(x.HI(8, x.HS(fmt.Sprint(q))), func() string {
					var ns []string
					for _, i := range q {
						ns = append(ns, odd[i].name)
					}
					return "stores that report " + strings.Join(ns, "; ")
				}, func(c *x.C) {
					repo := storage.NewRepository()
					var log []string
					any := false
					for i := range q {
						any = any || q[i] != 0
						repo.AddStore(&recStore{id: i, log: &log, fail: func(call int) error {
							if call == 1 {
								return nil
							}
							return odd[q[i]].err
						}})
					}
					for k := 0; k < 3; k++ {
						log = nil
						err := repo.Save(&blob{[]byte(fmt.Sprintf("record %d", k))})
						var want []string
						for i := range q {
							want = append(want, fmt.Sprintf("%d:record %d", i, k))
						}
						c.State(x.HI(8, x.HS(fmt.Sprint(q)), uint64(k)))
						c.Step(n)
						if fmt.Sprint(log) != fmt.Sprint(want) {
							c.Fail("fan-out", "save %d: stores received %q, want %q", k, log, want)
						}
						if (err != nil) != (any && k != 1) {
							c.Fail("error", "save %d: an error is reported: %v, some store failed: %v", k, err != nil, any && k != 1)
						}
					}
					c.Trace()
				})
			})
		}
		// long histories of few stores: every outcome of every save
		for n := 1; n <= 3; n++ {
			k := []int{0, 14, 7, 5}[n]
			if r.Thorough {
				k = []int{0, 17, 9, 6}[n]
			}
			for mask := 0; mask < 1<<(n*k); mask++ {
				r.Case(x.HI(9, uint64(n), uint64(mask)), func() string {
					return fmt.Sprintf("%d stores, %d saves, store s fails save k when bit k*%d+s of %b is set", n, k, n, mask)
				}, func(c *x.C) {
					repo := storage.NewRepository()
					var log []string
					for i := 0; i < n; i++ {
						repo.AddStore(&recStore{id: i, log: &log, fail: func(call int) error {
							if mask>>(call*n+i)&1 == 1 {
								return errs[(i+call)%3]
							}
							return nil
						}})
					}
					for q := 0; q < k; q++ {
						log = nil
						err := repo.Save(&blob{[]byte(fmt.Sprintf("record %d", q))})
						var want []string
						for i := 0; i < n; i++ {
							want = append(want, fmt.Sprintf("%d:record %d", i, q))
						}
						now := mask >> (q * n) & (1<<n - 1)
						c.State(x.HI(9, uint64(n), uint64(q), uint64(mask&(1<<(n*(q+1))-1))))
						c.Step(n)
						if fmt.Sprint(log) != fmt.Sprint(want) {
							c.Fail("fan-out", "save %d: stores received %q, want %q", q, log, want)
						}
						if (err != nil) != (now != 0) {
							c.Fail("error", "save %d returned %v, some store failed: %v", q, err, now != 0)
						}
					}
					c.Trace()
				})
			}
		}
		// every number of stores, every outcome of every store in each of several saves; stores may be added between saves
		for n := 0; n <= maxN; n++ {
			for added := 0; added <= n; added++ { // registered before the first save
				k := saves
				if n > 4 {
					k = 1
					if added != n {
						continue
					}
				}
				for mask := 0; mask < 1<<(n*k); mask++ {
					r.Case(x.HI(1, uint64(n), uint64(added), uint64(mask)), func() string {
						return fmt.Sprintf("%d stores (%d registered before the first of %d saves), store s fails save k when bit k*%d+s of %b is set", n, added, k, n, mask)
					}, func(c *x.C) {
						repo := storage.NewRepository()
						var log []string
						mk := func(i int) *recStore {
							s := &recStore{id: i, log: &log}
							save := 0
							if i >= added {
								save = 1
							}
							s.fail = func(call int) error {
								if mask>>((call+save)*n+i)&1 == 1 {
									return errs[(i+call)%3]
								}
								return nil
							}
							return s
						}
						for i := 0; i < added; i++ {
							repo.AddStore(mk(i))
						}
						have := added
						for k2 := 0; k2 < k; k2++ {
							if k2 == 1 {
								for i := added; i < n; i++ {
									repo.AddStore(mk(i))
								}
								have = n
							}
							log = nil
							rec := &blob{[]byte(fmt.Sprintf("record %d", k2))}
							err := repo.Save(rec)
							var want []string
							anyFail := false
							for i := 0; i < have; i++ {
								want = append(want, fmt.Sprintf("%d:record %d", i, k2))
								anyFail = anyFail || mask>>(k2*n+i)&1 == 1
							}
							c.State(x.HI(uint64(have), uint64(mask>>(k2*n)&(1<<n-1))))
							c.Step(have)
							if fmt.Sprint(log) != fmt.Sprint(want) {
								c.Fail("fan-out", "save %d: stores received %q, want %q", k2, log, want)
							}
							if (err != nil) != anyFail {
								c.Fail("error", "save %d returned %v, some store failed: %v", k2, err, anyFail)
							}
						}
						c.Trace()
					})
				}
			}
		}
		// through the gateway: every connection's record reaches every store once, in order, with equal bytes
		for n := 0; n <= 5; n++ {
			for mask := 0; mask < 1<<n; mask++ {
				for _, kind := range []int{0, 1, 4} {
					r.Case(x.HI(2, uint64(n), uint64(mask), uint64(kind)), func() string {
						return fmt.Sprintf("gateway with %d stores of which %b fail receives %s twice", n, mask, kinds[kind].name)
					}, func(c *x.C) {
						sts := storesFor(n, func(s, call int) Outcome {
							if mask>>s&1 == 1 {
								return Fail
							}
							return OK
						})
						var evs []vnet.Event
						ms := []Msg{kinds[kind].mk(5, 1), kinds[kind].mk(6, 2)}
						res := Exec(ttl, sts, func(s *Sim) {
							k := s.Conn()
							k.Send(Stream(ms))
							s.Sleep(time.Second)
							evs = s.Tr.Events()
						})
						states(c, ms)
						if len(res.Fatal) > 0 {
							c.Fail("crash", "%s", res.Fatal[0])
						}
						i := 0
						var first []byte
						for _, e := range evs {
							if e.Kind != "save" {
								continue
							}
							if want := string(rune('a' + i%max(n, 1))); e.Name != want {
								c.Fail("fan-out", "save call %d went to store %s, want %s", i, e.Name, want)
							}
							if i%n == 0 {
								first = e.Data
							} else if !bytes.Equal(first, e.Data) {
								c.Fail("fan-out", "stores received different records: %s and %s", first, e.Data)
							}
							i++
						}
						if i != 2*n {
							c.Fail("fan-out", "%d save calls, want %d", i, 2*n)
						}
					})
				}
			}
		}
	})
}
