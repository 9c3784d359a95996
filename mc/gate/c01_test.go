package gate

import (
	"fmt"
	"io"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/ElectroUnion/egts-gate/libs/egts"
	log "github.com/sirupsen/logrus"
	"verif.local/mc/bases"
	"verif.local/mc/ref"
	"verif.local/mc/vnet"
	"verif.local/mc/x"
)

// quickDecode calls the decoder as a library. A panic is reported by the caller's recover.
func libDecode(c *x.C, what string, b []byte) {
	defer func() {
		if e := recover(); e != nil {
			c.Fail("decoder-panic", "Package.Decode panics on %s % x: %v", what, b, e)
		}
	}()
	in := append([]byte(nil), b...)
	p := egts.Package{}
	p.Decode(in)
	c.Step(1)
}

type hostile struct {
	what string
	b    []byte
}

var endKinds = []error{io.EOF, syscall.ECONNRESET, syscall.ETIMEDOUT}

// serveHostile sends every stream on a connection of its own, then checks that the gateway is alive.
func serveHostile(c *x.C, hs []hostile, end error, failWrites bool) {
	st := &Store{Name: "a"}
	good := kinds[0].mk(77, 7)
	var out []byte
	var open, spin []string
	var runDone, accSpin bool
	res := Exec(ttl, []*Store{st}, func(s *Sim) {
		var ks []*vnet.VConn
		for _, h := range hs {
			k := s.Conn()
			if failWrites {
				k.FailWrites(syscall.EPIPE)
			}
			ks = append(ks, k)
			k.Send(h.b)
			k.End(end)
			s.Wait()
		}
		s.Sleep(ttl + ttl/2)
		for i, k := range ks {
			if done, _ := k.Closed(); !done {
				open = append(open, fmt.Sprintf("%s % x", hs[i].what, hs[i].b[:min(len(hs[i].b), 3000)]))
			}
			if k.Spin {
				spin = append(spin, fmt.Sprintf("%s % x", hs[i].what, hs[i].b[:min(len(hs[i].b), 3000)]))
			}
		}
		k := s.Conn()
		k.Send(good.Wire)
		s.Wait()
		out = k.Out()
		runDone, accSpin = s.RunDone, s.L.Spin
	})
	c.Step(len(hs) + 1)
	list := func() string {
		var v []string
		for _, h := range hs {
			v = append(v, fmt.Sprintf("%s [% x]", h.what, h.b[:min(len(h.b), 3000)]))
		}
		return clipList(v)
	}
	if len(res.Fatal) > 0 {
		c.Fail("gateway-crash", "one of the streams %s ends the gateway: %s", list(), res.Fatal[0])
	}
	if len(spin) > 0 {
		c.Fail("spin", "the gateway reads for ever after the end of %s", spin[0])
	}
	if len(open) > 0 {
		c.Fail("not-released", "the connection is still open %v after its peer closed: %s", ttl+ttl/2, open[0])
	}
	if runDone || accSpin {
		c.Fail("gateway-stopped", "Run returned or spins after %s", list())
	}
	if s := checkReplies(out, []Msg{good}); s != "" {
		c.Fail("not-served", "after %s a new connection is not served: %s", list(), s)
	}
}

func clipList(v []string) string {
	s := strings.Join(v, ", ")
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}

// fixed makes packet bytes with the checksums of the given (mutated) header and body.
func fixHeader(h []byte) []byte {
	if n := len(h); n > 0 {
		h[n-1] = ref.CRC8(h[:n-1])
	}
	return h
}
func withBody(p ref.Pkt, body []byte) []byte {
	p.Body = body
	return p.Bytes()
}

func TestC01(t *testing.T) {
	x.OnCase = func(i int64) { peers = int(i % 5) }
	log.SetLevel(log.DebugLevel) // the text of every message is formatted (and discarded)
	run(t, func(r *x.R) {
		const batch = 32
		// group collects streams and makes a case of every batch of them: library and gateway.
		group := func(class string, lib, gate bool) (add func(what string, b []byte), flush func()) {
			var hs []hostile
			n := 0
			flush = func() {
				if len(hs) == 0 {
					return
				}
				list := hs
				k := n
				n++
				hs = nil
				r.Case(x.HS(class, fmt.Sprint(k)), func() string {
					return fmt.Sprintf("%s, batch %d: %s (% x) ... %s", class, k, list[0].what, list[0].b, list[len(list)-1].what)
				}, func(c *x.C) {
					for _, h := range list {
						if lib {
							libDecode(c, h.what, h.b)
						}
						c.State(x.HB(1, h.b))
					}
					if gate {
						for i := 0; i < len(list); i += batch {
							serveHostile(c, list[i:min(i+batch, len(list))], endKinds[k%3], k%5 == 4)
						}
					}
					c.Trace()
				})
			}
			add = func(what string, b []byte) {
				hs = append(hs, hostile{what, append([]byte(nil), b...)})
				if len(hs) == 8*batch {
					flush()
				}
			}
			return
		}
		bs := bases.Pkts()
		all := make([]byte, 256)
		for i := range all {
			all[i] = byte(i)
		}
		few := []byte{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 18, 20, 21, 22, 24, 25, 27, 31, 32, 48, 49, 63, 64, 99, 100, 110, 111, 127, 128, 129, 191, 192, 224, 240, 254, 255}

		// 1. every prefix of every packet, and every packet followed by a part of another
		add, flush := group("prefix", true, true)
		for _, p := range bs {
			w := p.Wire()
			for n := 0; n <= len(w); n++ {
				add(fmt.Sprintf("%s cut to %d bytes", p.Name, n), w[:n])
				add(fmt.Sprintf("%s without its first %d bytes", p.Name, n), w[n:])
			}
			for _, q := range bs {
				add(p.Name+" followed by half of "+q.Name, append(append([]byte(nil), w...), q.Wire()[:len(q.Wire())/2]...))
				add(p.Name+" followed by "+q.Name, append(append([]byte(nil), w...), q.Wire()...))
			}
		}
		flush()

		// 2. every byte string of up to two bytes (three: thorough) for the decoder; of one for the gateway after a good start
		for l := 0; l <= 2; l++ {
			n := 1 << (8 * l)
			for from := 0; from < n; from += 4096 {
				r.Case(x.HI(2, uint64(l), uint64(from)), func() string { return fmt.Sprintf("byte strings of length %d from %x", l, from) }, func(c *x.C) {
					for v := from; v < min(n, from+4096); v++ {
						b := []byte{byte(v), byte(v >> 8)}[:l]
						libDecode(c, "byte string", b)
						c.State(x.HB(1, b))
					}
				})
			}
		}

		// 3. headers: every header length, with and without routing, over frame lengths around the data present, checksum right
		add, flush = group("header length", true, true)
		body := bs[0].Body
		for _, rte := range []byte{0, 1} {
			for hl := 0; hl < 256; hl++ {
				for _, fdl := range []int{0, 1, 2, len(body) - 1, len(body), len(body) + 1, len(body) + 2, 255, 256, 32767, 32768, 65532, 65533, 65534, 65535} {
					for _, pt := range []byte{0, 1, 2} {
						if pt == 2 && fdl != len(body) {
							continue
						}
						p := ref.Pkt{PRV: 1, PID: 3, RTE: rte, PT: pt, Body: body}
						p.HLD = hl - 11 - 5*int(rte)
						p.FDLD = fdl - len(body)
						add(fmt.Sprintf("header length %d, frame length %d, route %d, type %d", hl, fdl, rte, pt), p.Bytes())
						if hl > 10 && hl < 60 && fdl == len(body) { // checksum placed where the header length says
							w := p.Bytes()
							if hl <= len(w) {
								fixHeader(w[:hl])
								add(fmt.Sprintf("header length %d, checksum moved, frame length %d, route %d, type %d", hl, fdl, rte, pt), w)
							}
						}
					}
				}
			}
		}
		flush()
		// huge frames that are really there
		add, flush = group("huge frame", true, true)
		for _, n := range []int{32767, 32768, 65500, 65533, 65534, 65535} {
			for _, pt := range []byte{0, 1} {
				for _, fill := range []byte{0, 1, 0xFF} {
					b := make([]byte, n)
					for i := range b {
						b[i] = fill
					}
					add(fmt.Sprintf("%d bytes %#x in a packet of type %d", n, fill, pt), withBody(ref.Pkt{PRV: 1, PT: pt}, b))
				}
			}
			// one record, one subrecord, filling it
			for _, st := range []byte{1, 5, 7, 15, 16, 18, 27} {
				sub := ref.Sub{T: st, Body: make([]byte, n-10)}
				add(fmt.Sprintf("subrecord of type %d with %d bytes", st, n-10), ref.Appdata(1, ref.Rec{RN: 1, SST: 2, RST: 2, Subs: []ref.Sub{sub}}).Bytes())
			}
		}
		flush()

		// 4. every single-byte substitution in header or body, both checksums right
		vals := all
		for _, p := range bs {
			add, flush = group("substitution in "+p.Name, true, true)
			h, bd := p.Header(), p.Body
			crc := []byte{}
			w := p.Wire()
			if len(bd) > 0 {
				crc = w[len(w)-2:]
			}
			for i := 0; i < len(h)-1; i++ {
				for _, v := range vals {
					m := append([]byte(nil), h...)
					m[i] = v
					fixHeader(m)
					add(fmt.Sprintf("%s: header byte %d = %d", p.Name, i, v), append(append(m, bd...), crc...))
				}
			}
			for i := range bd {
				for _, v := range vals {
					m := append([]byte(nil), bd...)
					m[i] = v
					q := p.Pkt
					q.Body = m
					add(fmt.Sprintf("%s: body byte %d = %d", p.Name, i, v), q.Bytes())
				}
			}
			flush()
		}
		// header bytes in front of large bodies, and pairs of header bytes
		var large []ref.Pkt
		for _, n := range []int{300, 1000, 5000, 40000} {
			large = append(large, bigPkt(5, n))
		}
		for _, p := range large {
			add, flush := group(fmt.Sprintf("header of %d bytes of frame", len(p.Body)), true, true)
			h, w := p.Header(), p.Bytes()
			for i := 0; i < len(h)-1; i++ {
				for _, v := range vals {
					if len(w) > 1000 && v%16 != 0 && v%16 != 15 && v > 20 && i != 4 {
						continue
					}
					m := append([]byte(nil), w...)
					m[i] = v
					fixHeader(m[:len(h)])
					add(fmt.Sprintf("frame of %d bytes, header byte %d = %d", len(p.Body), i, v), m)
				}
			}
			flush()
		}
		for _, p := range []bases.NamedPkt{bs[0], bs[len(bs)-1], {Name: "300 bytes", Pkt: large[0]}} {
			h := p.Header()
			for i := 0; i < len(h)-1; i++ {
				r.Case(x.HS("header pairs", p.Name, fmt.Sprint(i)), func() string {
					return fmt.Sprintf("%s: pairs of values of header byte %d and every later one", p.Name, i)
				}, func(c *x.C) {
					w := p.Bytes()
					for j := i + 1; j < len(h)-1; j++ {
						for _, v := range few {
							for _, u := range few {
								m := append([]byte(nil), w...)
								m[i], m[j] = v, u
								fixHeader(m[:len(h)])
								c.State(x.HB(1, m[:min(len(m), 40)]))
								libDecode(c, fmt.Sprintf("%s with header bytes %d,%d = %d,%d", p.Name, i, j, v, u), m)
							}
						}
					}
				})
			}
		}
		// one connection that brings several packets, good and bad: every ordered pair, and very many
		frames := map[string][]byte{}
		var fnames []string
		frame := func(n string, b []byte) { frames[n] = b; fnames = append(fnames, n) }
		for _, p := range bs {
			w := p.Wire()
			frame(p.Name, w)
			bad := append([]byte(nil), w...)
			bad[len(bad)-1] ^= 0x5A
			frame(p.Name+" with a wrong last byte", bad)
		}
		frame("header only", ref.Pkt{PRV: 1, PID: 5, PT: 1}.Bytes())
		frame("unknown packet type", ref.Pkt{PRV: 1, PID: 5, PT: 77, Body: []byte{1, 2, 3}}.Bytes())
		frame("odd subrecord", ref.Appdata(3, ref.Rec{RN: 1, SST: 2, RST: 2, Subs: []ref.Sub{{T: 200, Body: []byte{1}}}}).Bytes())
		frame("short subrecord", ref.Appdata(3, ref.Rec{RN: 1, SST: 2, RST: 2, Subs: []ref.Sub{{T: 16, Body: []byte{1}}}}).Bytes())
		add, flush = group("two packets", false, true)
		for _, a := range fnames {
			for _, b := range fnames {
				add(a+" then "+b+" then "+a, append(append(append([]byte(nil), frames[a]...), frames[b]...), frames[a]...))
			}
		}
		flush()
		many := 70000
		for _, a := range fnames {
			r.Case(x.HS("many of", a), func() string { return fmt.Sprintf("%d times %s on one connection", many, a) }, func(c *x.C) {
				var b []byte
				for len(b) < many*len(frames[a]) && len(b) < 8<<20 {
					b = append(b, frames[a]...)
				}
				c.State(x.HB(2, frames[a]))
				serveHostile(c, []hostile{{"many times " + a, b}}, endKinds[len(a)%3], false)
			})
		}
		// the same over all values for the decoder
		for _, p := range bs {
			for i := range p.Body {
				r.Case(x.HS("sub all", p.Name, fmt.Sprint(i)), func() string { return fmt.Sprintf("%s: every value of body byte %d", p.Name, i) }, func(c *x.C) {
					for v := 0; v < 256; v++ {
						m := append([]byte(nil), p.Body...)
						m[i] = byte(v)
						q := p.Pkt
						q.Body = m
						w := q.Bytes()
						c.State(x.HB(1, w))
						libDecode(c, fmt.Sprintf("%s with body byte %d = %d", p.Name, i, v), w)
					}
				})
			}
		}
		// pairs of adjacent bytes (quick: boundary values, thorough: all)
		pv := few
		if r.Thorough {
			pv = all
		}
		for _, p := range bs {
			for i := 0; i+1 < len(p.Body); i++ {
				r.Case(x.HS("pair", p.Name, fmt.Sprint(i)), func() string { return fmt.Sprintf("%s: pairs of values of body bytes %d and %d", p.Name, i, i+1) }, func(c *x.C) {
					m := append([]byte(nil), p.Body...)
					for _, v := range pv {
						for _, u := range pv {
							m[i], m[i+1] = v, u
							q := p.Pkt
							q.Body = m
							w := q.Bytes()
							if !r.Thorough {
								c.State(x.HB(1, w))
							}
							libDecode(c, fmt.Sprintf("%s with body bytes %d,%d = %d,%d", p.Name, i, i+1, v, u), w)
						}
					}
				})
			}
		}

		// 5. every subrecord type, every body length up to a limit, uniform and patterned fills
		lim := 80
		if r.Thorough {
			lim = 300
		}
		fills := [][]byte{{0}, {0xFF}, {1}, {0x80}, {0x30, 0}, {0x08}, {0x0A, 0xFF}, {0xFF, 0}, {0x7F}, {0x12, 0x34, 0x56}}
		for ty := 0; ty < 256; ty++ {
			known := ref.Known(byte(ty))
			if !known && !r.Thorough && ty%16 != 3 && ty > 40 {
				continue
			}
			add, flush = group(fmt.Sprintf("subrecord type %d", ty), true, known || ty%16 == 3)
			for n := 0; n <= lim; n++ {
				for _, f := range fills {
					bd := make([]byte, n)
					for i := range bd {
						bd[i] = f[i%len(f)]
					}
					add(fmt.Sprintf("type %d, %d bytes of % x", ty, n, f), ref.Appdata(1, ref.Rec{RN: 1, OID: ref.U32(2), SST: 2, RST: 2, Subs: []ref.Sub{{T: byte(ty), Body: bd}}}).Bytes())
				}
			}
			flush()
		}
		// every body of up to two bytes for every known type; response bodies and record sets likewise
		for ty := 0; ty < 256; ty++ {
			if !ref.Known(byte(ty)) {
				continue
			}
			for hi := 0; hi < 256; hi += 16 {
				r.Case(x.HI(6, uint64(ty), uint64(hi)), func() string { return fmt.Sprintf("type %d: every body of two bytes from %x", ty, hi) }, func(c *x.C) {
					for a := hi; a < hi+16; a++ {
						for b := 0; b < 256; b++ {
							w := ref.Appdata(1, ref.Rec{RN: 1, SST: 2, RST: 2, Subs: []ref.Sub{{T: byte(ty), Body: []byte{byte(b), byte(a)}}}}).Bytes()
							libDecode(c, "short body", w)
							c.State(x.HB(1, w))
							if ty == 15 && r.Thorough {
								for z := 0; z < 256; z++ {
									w := ref.Appdata(1, ref.Rec{RN: 1, SST: 2, RST: 2, Subs: []ref.Sub{{T: byte(ty), Body: []byte{byte(b), byte(a), byte(z)}}}}).Bytes()
									libDecode(c, "short body", w)
								}
							}
						}
						w := ref.Appdata(1, ref.Rec{RN: 1, SST: 2, RST: 2, Subs: []ref.Sub{{T: byte(ty), Body: []byte{byte(a)}}}}).Bytes()
						libDecode(c, "short body", w)
					}
				})
			}
		}
		for _, pt := range []byte{0, 1} {
			for hi := 0; hi < 256; hi += 16 {
				r.Case(x.HI(7, uint64(pt), uint64(hi)), func() string { return fmt.Sprintf("packet type %d: every body of up to two bytes from %x", pt, hi) }, func(c *x.C) {
					for a := hi; a < hi+16; a++ {
						libDecode(c, "short frame", withBody(ref.Pkt{PRV: 1, PT: pt}, []byte{byte(a)}))
						for b := 0; b < 256; b++ {
							w := withBody(ref.Pkt{PRV: 1, PT: pt}, []byte{byte(b), byte(a)})
							c.State(x.HB(1, w))
							libDecode(c, "short frame", w)
						}
					}
				})
			}
		}

		// 6. lengths that lie, on two nested levels
		add, flush = group("nested lengths", true, true)
		for _, pt := range []byte{0, 1} {
			for rl := 0; rl <= 40; rl++ {
				for srl := 0; srl <= 40; srl++ {
					if !r.Thorough && (rl%3 != 0 && rl != 24 && rl != 25 && srl%4 != 1 && srl != 21 && srl != 22) {
						continue
					}
					s := bases.Subs()[0].Sub
					s.LenD = srl - len(s.Body)
					rec := ref.Rec{RN: 1, OID: ref.U32(9), SST: 2, RST: 2, Subs: []ref.Sub{s}, LenD: rl - 24}
					p := ref.Appdata(4, rec)
					if pt == 0 {
						p = ref.Response(4, 3, 0, rec)
					}
					add(fmt.Sprintf("record length %d, subrecord length %d, type %d", rl, srl, pt), p.Bytes())
				}
			}
			for _, rl := range []int{255, 256, 32767, 32768, 65535} {
				for _, srl := range []int{0, 21, 255, 256, 32767, 32768, 65535} {
					s := bases.Subs()[0].Sub
					s.LenD = srl - len(s.Body)
					rec := ref.Rec{RN: 1, OID: ref.U32(9), SST: 2, RST: 2, Subs: []ref.Sub{s}, LenD: rl - 24}
					p := ref.Appdata(4, rec)
					if pt == 0 {
						p = ref.Response(4, 3, 0, rec)
					}
					add(fmt.Sprintf("record length %d, subrecord length %d, type %d", rl, srl, pt), p.Bytes())
				}
			}
		}
		flush()
		// every record flag byte, with every amount of data behind it
		add, flush = group("record flags", true, true)
		for f := 0; f < 256; f++ {
			for n := 0; n <= 20; n++ {
				if !r.Thorough && n%2 == 1 && f > 7 {
					continue
				}
				for _, rl := range []int{0, 1, n} {
					b := append([]byte{byte(rl), byte(rl >> 8), 1, 0, byte(f)}, make([]byte, n)...)
					add(fmt.Sprintf("record flags %#x with %d bytes behind, record length %d", f, n, rl), withBody(ref.Pkt{PRV: 1, PT: 1, PID: 6}, b))
				}
			}
		}
		flush()

		// 7. hostile streams in two segments with every cut inside the header, and idle hostile peers
		for _, p := range bs[len(bs)-9:] {
			w := p.Wire()
			for n := 1; n < min(20, len(w)); n++ {
				r.Case(x.HS("stalled", p.Name, fmt.Sprint(n)), func() string { return fmt.Sprintf("peer goes silent after %d bytes of %s", n, p.Name) }, func(c *x.C) {
					st := &Store{Name: "a"}
					good := kinds[0].mk(77, 7)
					var out []byte
					var closed bool
					res := Exec(ttl, []*Store{st}, func(s *Sim) {
						k := s.Conn()
						k.Send(w[:n])
						s.Wait()
						k2 := s.Conn()
						k2.Send(good.Wire)
						s.Wait()
						out = k2.Out()
						s.Sleep(2 * ttl)
						closed, _ = k.Closed()
					})
					c.Step(3)
					if len(res.Fatal) > 0 {
						c.Fail("gateway-crash", "%s", res.Fatal[0])
					}
					if !closed {
						c.Fail("not-released", "a silent connection is still open after %v", 2*ttl)
					}
					if s := checkReplies(out, []Msg{good}); s != "" {
						c.Fail("not-served", "%s", s)
					}
				})
			}
		}
	})
}

var _ = time.Second
