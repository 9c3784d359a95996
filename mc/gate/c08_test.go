package gate

import (
	"fmt"
	"io"
	"syscall"
	"testing"
	"time"

	"verif.local/mc/x"
)

// idleRun delivers chunks after the given gaps and then falls silent. It checks that the connection is
// open while no gap exceeds the limit, that complete packets are answered, and that it is closed soon
// after the limit has passed since the last byte.
func idleRun(c *x.C, lim time.Duration, ms []Msg, chunks [][]byte, gaps []time.Duration, end error, ended bool) {
	st := &Store{Name: "a"}
	var out []byte
	var early, late bool
	var at, from time.Time
	total := 0
	for _, b := range chunks {
		total += len(b)
	}
	res := Exec(lim, []*Store{st}, func(s *Sim) {
		k := s.Conn()
		from = time.Now()
		for i, b := range chunks {
			s.Sleep(gaps[i])
			if early, at = k.Closed(); early {
				return
			}
			k.Send(b)
			from = time.Now()
			s.Wait()
		}
		out = k.Out()
		if early, at = k.Closed(); early {
			return
		}
		if ended {
			s.Sleep(gaps[len(chunks)])
			if early, at = k.Closed(); early {
				return
			}
			k.End(end)
			from = time.Now()
			s.Sleep(lim + lim/4)
			late, at = k.Closed()
			return
		}
		s.Sleep(lim - time.Millisecond)
		if early, at = k.Closed(); early {
			return
		}
		s.Sleep(lim/2 + time.Millisecond)
		late, at = k.Closed()
	})
	h := x.HI(8, uint64(total), uint64(lim))
	for i := range chunks {
		h = x.HI(h, uint64(gaps[i]), uint64(len(chunks[i])))
		c.State(h)
	}
	c.State(x.HI(h, b2i(ended)))
	c.Step(len(chunks) + 1)
	c.Trace()
	if len(res.Fatal) > 0 {
		c.Fail("crash", "%s", res.Fatal[0])
	}
	if early {
		c.Fail("closed-early", "closed %v after the last byte, limit %v", at.Sub(from), lim)
	}
	n := 0
	var comp []Msg
	for _, m := range ms {
		if n += len(m.Wire); n <= total {
			comp = append(comp, m)
		}
	}
	if s := checkReplies(out, comp); s != "" {
		c.Fail("reply", "%s", s)
	}
	if !late {
		if ended {
			c.Fail("not-released", "the peer closed but the connection is not released %v later, limit %v", lim+lim/4, lim)
		}
		c.Fail("not-closed", "still open %v after the last byte, limit %v", lim+lim/2, lim)
	}
	c.Count("closed as required")
}

func TestC08(t *testing.T) {
	run(t, func(r *x.R) {
		ms := []Msg{kinds[0].mk(5, 1), kinds[2].mk(6, 2), kinds[9].mk(7, 3), kinds[0].mk(8, 4)}
		b := Stream(ms)
		lims := []time.Duration{time.Second, 10 * time.Second, 2 * time.Second, time.Minute, 5 * time.Minute, time.Hour}
		desc := func(lim time.Duration, chunks [][]byte, gaps []time.Duration, tail string) func() string {
			return func() string {
				s := fmt.Sprintf("limit %v:", lim)
				for i, k := range chunks {
					s += fmt.Sprintf(" after %v %d bytes,", gaps[i], len(k))
				}
				return s + " " + tail
			}
		}
		ends := []struct {
			err   error
			ended bool
			name  string
		}{{nil, false, "then silence"}, {io.EOF, true, "then the peer closes"}, {syscall.ECONNRESET, true, "then the peer resets"}}
		for _, lim := range lims {
			// silence or end after every prefix, sent at once, byte by byte with the longest pause allowed, and in two parts
			for n := 0; n <= len(b); n++ {
				for _, e := range ends {
					for _, g := range []time.Duration{0, lim / 2, lim - time.Millisecond} {
						chunks := [][]byte{b[:n]}
						if n == 0 {
							chunks = nil
						}
						gaps := []time.Duration{g, g}
						r.Case(x.HI(1, uint64(lim), uint64(n), x.HS(e.name), uint64(g)), desc(lim, chunks, gaps, e.name), func(c *x.C) { idleRun(c, lim, ms, chunks, gaps, e.err, e.ended) })
					}
					if e.ended && e.err != io.EOF && n%4 != 0 {
						continue
					}
					if !r.Mine() {
						r.Case(0, nil, nil)
						continue
					}
					var chunks [][]byte
					var gaps []time.Duration
					for i := 0; i < n; i++ {
						chunks = append(chunks, b[i:i+1])
						gaps = append(gaps, lim-time.Millisecond)
					}
					gaps = append(gaps, lim-time.Millisecond)
					r.Case(x.HI(2, uint64(lim), uint64(n), x.HS(e.name)), desc(lim, chunks, gaps, e.name), func(c *x.C) { idleRun(c, lim, ms, chunks, gaps, e.err, e.ended) })
				}
			}
			// every schedule of up to four chunks of every interesting size with every interesting gap
			sizes := []int{1, 5, 10, 11, len(ms[0].Wire) - 1, len(ms[0].Wire)}
			gs := []time.Duration{0, lim / 2, lim - time.Millisecond}
			depth := 4
			if r.Thorough {
				depth = 5
			}
			x.Seqs(len(sizes)*len(gs), 1, depth, func(q []int) {
				for _, e := range ends[:2] {
					if !r.Mine() {
						r.Case(0, nil, nil)
						continue
					}
					var chunks [][]byte
					var gaps []time.Duration
					h := x.HI(3, uint64(lim), b2i(e.ended))
					at := 0
					for _, v := range q {
						n := min(at+sizes[v%len(sizes)], len(b))
						if n == at {
							break
						}
						chunks, gaps = append(chunks, b[at:n]), append(gaps, gs[v/len(sizes)])
						at = n
						h = x.HI(h, uint64(v))
					}
					gaps = append(gaps, lim/3)
					r.Case(h, desc(lim, chunks, gaps, e.name), func(c *x.C) { idleRun(c, lim, ms, chunks, gaps, e.err, e.ended) })
				}
			})
		}
		// connections that are active for a long time
		for _, lim := range append([]time.Duration{10 * time.Minute, 24 * time.Hour}, lims...) {
			for _, whole := range []bool{true, false} {
				for _, g := range []time.Duration{lim / 3, lim - time.Millisecond} {
					for _, e := range ends {
						n := max(1200, int(26*time.Hour/lim))
						if !r.Thorough {
							n = min(n, 10000)
						}
						if whole && e.name != ends[0].name && !r.Thorough {
							continue
						}
						if !r.Mine() {
							r.Case(0, nil, nil)
							continue
						}
						r.Case(x.HI(5, uint64(lim), b2i(whole), uint64(g), x.HS(e.name)), func() string {
							return fmt.Sprintf("limit %v, active for %v (whole packets: %v, one every %v), %s", lim, g*time.Duration(n), whole, g, e.name)
						}, func(c *x.C) {
							var chunks [][]byte
							var gaps []time.Duration
							var ms []Msg
							for i := 0; len(chunks) < n; i++ {
								m := kinds[i%4].mk(uint16(i), uint16(i))
								ms = append(ms, m)
								if whole {
									chunks = append(chunks, m.Wire)
									continue
								}
								for j := range m.Wire {
									chunks = append(chunks, m.Wire[j:j+1])
								}
							}
							for range chunks {
								gaps = append(gaps, g)
							}
							idleRun(c, lim, ms, chunks, append(gaps, g), e.err, e.ended)
						})
					}
				}
			}
		}
		// idle limit in the presence of another, active connection, and of connections accepted later
		for gap := 0; gap < 10; gap++ {
			r.Case(x.HI(4, uint64(gap)), func() string {
				return fmt.Sprintf("one connection silent from the start, another sends a packet every %d00 ms, a third connects late", gap)
			}, func(c *x.C) { twoIdle(c, time.Duration(gap)*100*time.Millisecond) })
		}
	})
}

func twoIdle(c *x.C, gap time.Duration) {
	const lim = time.Second
	st := &Store{Name: "a"}
	var silent, active, late, lateEnd bool
	n := 30
	var out []byte
	var ms []Msg
	res := Exec(lim, []*Store{st}, func(s *Sim) {
		a, b := s.Conn(), s.Conn()
		for i := 0; i < n; i++ {
			m := kinds[0].mk(uint16(i), 1)
			ms = append(ms, m)
			b.Send(m.Wire)
			if i < n-1 {
				s.Sleep(gap)
			}
		}
		s.Sleep(lim - 100*time.Millisecond)
		d := s.Conn()
		s.Sleep(50 * time.Millisecond)
		if active, _ = b.Closed(); !active {
			out = b.Out()
		}
		s.Sleep(lim / 2)
		silent, _ = a.Closed() // (after the packets at least another 1.35 limits have passed)
		late, _ = d.Closed()
		s.Sleep(lim)
		lateEnd, _ = d.Closed()
	})
	c.Step(n + 3)
	c.State(uint64(gap))
	c.Trace()
	if len(res.Fatal) > 0 {
		c.Fail("crash", "%s", res.Fatal[0])
	}
	if !silent {
		c.Fail("not-closed", "the silent connection is still open")
	}
	if active {
		c.Fail("closed-early", "the active connection was closed")
	}
	if s := checkReplies(out, ms); s != "" {
		c.Fail("reply", "%s", s)
	}
	if late {
		c.Fail("closed-early", "the connection accepted last was closed before its limit")
	}
	if !lateEnd {
		c.Fail("not-closed", "the connection accepted last is still open")
	}
}
