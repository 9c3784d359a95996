package gate

import (
	"fmt"
	"io"
	"runtime"
	"strings"
	"syscall"
	"testing"
	"time"

	"verif.local/mc/ref"
	"verif.local/mc/vnet"
	"verif.local/mc/x"
)

// use is what the process holds.
type use struct {
	heap int64
	gor  int
}

func measure() use {
	var m runtime.MemStats
	for range 3 {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return use{int64(m.HeapAlloc), runtime.NumGoroutine()}
}

// conns that come and go are the ways a connection ends once its packets are sent.
var ends = []struct {
	name string
	end  func(c *vnet.VConn)
}{
	{"closed by the peer", func(c *vnet.VConn) { c.End(io.EOF) }},
	{"reset", func(c *vnet.VConn) { c.End(syscall.ECONNRESET) }},
	{"silent", func(c *vnet.VConn) {}},
	{"closed within a header", func(c *vnet.VConn) { c.Send([]byte{1, 0, 3}); c.End(io.EOF) }},
	{"closed within a body", func(c *vnet.VConn) {
		b := kinds[0].mk(1, 1).Wire
		c.Send(b[:len(b)-5])
		c.End(io.EOF)
	}},
	{"reset within a body", func(c *vnet.VConn) {
		b := kinds[1].mk(1, 1).Wire
		c.Send(b[:20])
		c.End(syscall.ECONNRESET)
	}},
	{"silent within a header", func(c *vnet.VConn) { c.Send([]byte{1}) }},
	{"silent within a body", func(c *vnet.VConn) { c.Send(kinds[0].mk(1, 1).Wire[:30]) }},
	{"ended by garbage", func(c *vnet.VConn) { c.Send([]byte("GET / HTTP/1.1\r\n\r\n")) }},
	{"ended by an impossible length", func(c *vnet.VConn) { c.Send([]byte{1, 0, 3, 2, 0, 0, 0, 0, 0, 0, 0}) }},
}

// growth runs reps repetitions of round and reports what they leave behind: something the process keeps
// for every one of them. What is kept only for the first ones (caches, pools) is not counted.
func growth(round func(n int), reps int) string {
	round(reps / 2)
	a := measure()
	for k := 0; ; k++ {
		round(reps)
		b := measure()
		dh, dg := b.heap-a.heap, b.gor-a.gor
		// a pointer per repetition, or one goroutine in eight
		if dh < int64(8*reps) && dg < reps/8 {
			return ""
		}
		if k == 3 {
			buf := make([]byte, 64<<10)
			st := string(buf[:runtime.Stack(buf, true)])
			if dg < reps/8 {
				st = ""
			} else if i := strings.LastIndex(st[:min(len(st), 6000)], "\n\ngoroutine"); i > 0 {
				st = st[:i]
			}
			return fmt.Sprintf("%d repetitions leave %d bytes and %d goroutines behind, after %d before them; %s", reps, dh, dg, reps/2+k*reps, st)
		}
		a = b
	}
}

func TestC21(t *testing.T) {
	testT = t
	x.Run(t, func(r *x.R) {
		const ttl = 5 * time.Second
		depth, reps := 2, 400
		if r.Thorough {
			depth, reps = 3, 800
		}
		type storing struct {
			name   string
			stores func() []*Store
		}
		fail := func(n int) func(int) Outcome {
			return func(call int) Outcome {
				if n > 0 && call%n == 0 {
					return Fail
				}
				return OK
			}
		}
		storings := []storing{
			{"saved", func() []*Store { return []*Store{{Name: "a", Script: fail(0)}} }},
			{"not saved", func() []*Store { return []*Store{{Name: "a", Script: fail(1)}} }},
			{"two stores, the second failing at times", func() []*Store {
				return []*Store{{Name: "a", Script: fail(0)}, {Name: "b", Script: fail(3)}}
			}},
		}
		run := func(hash uint64, desc string, st storing, f func(s *Sim) (again func(n int), reps int)) {
			r.Case(hash, func() string { return desc + ", " + st.name }, func(c *x.C) {
				problem := ""
				res := Exec(ttl, st.stores(), func(s *Sim) {
					s.Tr.Off = true
					round, reps := f(s)
					defer func() {
						if e := recover(); e != nil {
							problem = fmt.Sprint(e)
						}
					}()
					problem = growth(round, reps)
				})
				c.Trace()
				c.Step(reps)
				c.State(hash)
				if len(res.Fatal) > 0 {
					c.Fail("ends", "the process would end: %v", res.Fatal)
				}
				if problem != "" {
					c.Fail("kept", "%s", problem)
				}
			})
		}
		// connections that come and go, 40 at a time
		n := 0
		comeAndGo := func(s *Sim, msgs []Msg, end func(c *vnet.VConn), wf int) func(int) {
			return func(reps int) {
				for done := 0; done < reps; done += 40 {
					var cs []*vnet.VConn
					for range 40 {
						n++
						k := vnet.NewConn(n%250, s.Tr)
						k.Peer = peer(n)
						cs = append(cs, k)
						s.L.Push(k)
					}
					s.Wait()
					for i, k := range cs {
						if wf == 1 {
							k.FailWrites(syscall.EPIPE)
						} else if wf == 2 {
							k.Stall(true)
						}
						for _, m := range msgs {
							k.Send(m.Wire)
						}
						if i%2 == 0 {
							s.Wait()
						}
						end(k)
					}
					s.Wait()
					if wf == 2 {
						s.Sleep(ttl / 2)
						for _, k := range cs {
							k.FailWrites(syscall.ECONNRESET)
						}
					}
					s.Sleep(4 * ttl)
					for _, k := range cs {
						if ok, _ := k.Closed(); !ok {
							panic(fmt.Sprintf("a connection is open %v after its end", 4*ttl))
						}
					}
				}
			}
		}
		for si, st := range storings {
			for ei, e := range ends {
				x.Seqs(len(kinds), 0, depth, func(q []int) {
					if si == 2 && len(q) > 1 && ei > 0 {
						return
					}
					var msgs []Msg
					var names []string
					for i, k := range q {
						m := kinds[k].mk(uint16(i+1), uint16(10*i))
						msgs = append(msgs, m)
						names = append(names, m.Name)
					}
					for wf, w := range []string{"", ", writes fail", ", writes block"} {
						if wf > 0 && (len(q) != 1 && !r.Thorough || len(q) > 2 || len(q) == 0 || ei == 2) {
							continue
						}
						run(x.HS("conn", fmt.Sprint(q), e.name, st.name, w), fmt.Sprintf("connections with %v, %s%s", names, e.name, w), st, func(s *Sim) (func(int), int) {
							return comeAndGo(s, msgs, e.end, wf), reps
						})
					}
				})
			}
		}
		// one connection that lasts
		long := 3000
		if r.Thorough {
			long = 20000
		}
		for _, st := range storings {
			x.Seqs(len(kinds), 1, depth, func(q []int) {
				var names []string
				for _, k := range q {
					if kinds[k].name == "not-egts" {
						return
					}
					names = append(names, kinds[k].name)
				}
				run(x.HS("long", fmt.Sprint(q), st.name), fmt.Sprintf("one connection, packets %v", names), st, func(s *Sim) (func(int), int) {
					k := vnet.NewConn(1, s.Tr)
					s.L.Push(k)
					s.Conns = append(s.Conns, k)
					rn := 0
					return func(reps int) {
						for i := range reps {
							for j, kind := range q {
								k.Send(kinds[kind].mk(uint16(i%8), uint16(rn%100)).Wire)
								rn += j + 1
							}
							if i%50 == 49 {
								s.Sleep(ttl / 10)
								if k.Pending() > 0 {
									panic("packets are not read")
								}
							}
						}
						s.Sleep(ttl / 2)
						if ok, _ := k.Closed(); ok {
							panic("the connection is closed")
						}
					}, long / len(q)
				})
			})
		}
		// packets of every size on one connection, and shapes of header
		for _, np := range []int{1, 2, 10, 100, 1000, 3000} {
			for _, st := range storings {
				var its []item
				for i := range np {
					its = append(its, pos(uint32(i)))
				}
				for _, w := range []bool{false, true} {
					run(x.HS("size", fmt.Sprint(np, w), st.name), fmt.Sprintf("one connection, packets of %d positions, wrong checksum %v", np, w), st, func(s *Sim) (func(int), int) {
						p := ref.Appdata(5, TRec{RN: 1, OID: u32(1), SST: 2, Items: its}.Rec())
						if np > 2000 { // too long for one record
							half := len(its) / 2
							its1, its2 := its[:half], its[half:]
							if len(its2) > 2000 {
								its2 = its2[:1000]
							}
							p = ref.Appdata(5, TRec{RN: 1, OID: u32(1), SST: 2, Items: its1[:1400]}.Rec(), TRec{RN: 2, OID: u32(1), SST: 2, Items: its2[:1000]}.Rec())
						}
						if w {
							p.CCX = 1
						}
						b := p.Bytes()
						k := vnet.NewConn(1, s.Tr)
						s.L.Push(k)
						s.Conns = append(s.Conns, k)
						return func(reps int) {
							for range reps {
								k.Send(b)
								s.Sleep(ttl / 50)
								if k.Pending() > 0 {
									panic("packets are not read")
								}
							}
						}, 40 + 2000/np
					})
				}
			}
		}
		// accepting that fails
		for _, e := range []error{syscall.EMFILE, syscall.ECONNABORTED, syscall.ENFILE, syscall.EINTR, syscall.EPROTO, io.ErrUnexpectedEOF} {
			for _, with := range []bool{false, true} {
				run(x.HS("accept", e.Error(), fmt.Sprint(with)), fmt.Sprintf("accepting fails with %q, a packet after it %v", e, with), storings[0], func(s *Sim) (func(int), int) {
					return func(reps int) {
						for range reps {
							s.L.PushErr(e)
							if with {
								k := vnet.NewConn(1, s.Tr)
								s.L.Push(k)
								k.Send(kinds[0].mk(1, 1).Wire)
								k.End(syscall.ECONNRESET)
							}
							s.Sleep(3 * time.Second)
						}
						s.Sleep(4 * ttl)
					}, 200
				})
			}
		}
	})
}
