package gate

import (
	"bytes"
	"fmt"
	"io"
	"testing"
	"time"

	"verif.local/mc/bases"
	"verif.local/mc/ref"
	"verif.local/mc/vnet"
	"verif.local/mc/x"
)

// reject demands that the decoder refuses b, with one of the codes when given.
func reject(c *x.C, what func() string, b []byte, codes ...byte) {
	code, err := wantCode(b)
	if err == nil || code == 0 {
		c.Fail("accepted", "%s is accepted (code %d, error %v): % x", what(), code, err, b)
	}
	if len(codes) > 0 && bytes.IndexByte(codes, code) < 0 {
		c.Fail("wrong-code", "%s gives result code %d, want %v (error %v): % x", what(), code, codes, err, b)
	}
}

// refuse sends every packet on a connection of its own and demands that nothing of it takes effect.
func refuse(c *x.C, key string, hs []hostile) {
	st := &Store{Name: "a"}
	type one struct {
		out   []byte
		saves []vnet.Event
	}
	var res []one
	r := Exec(ttl, []*Store{st}, func(s *Sim) {
		for _, h := range hs {
			k := s.Conn()
			before := len(s.Saves("a"))
			k.Send(h.b)
			k.End(io.EOF)
			s.Wait()
			res = append(res, one{k.Out(), s.Saves("a")[before:]})
		}
		s.Sleep(ttl + time.Second)
		for i, k := range s.Conns {
			res[i].out = k.Out()
		}
		if n := len(s.Saves("a")); n > 0 && len(res[len(res)-1].saves) == 0 {
			res[len(res)-1].saves = s.Saves("a")[:1]
		}
	})
	if len(r.Fatal) > 0 {
		c.Fail("crash", "%s", r.Fatal[0])
	}
	for i, o := range res {
		h := hs[i]
		if len(o.saves) > 0 {
			c.Fail(key+"-saved", "%s: the gateway saves %s from % x", h.what, o.saves[0].Data, h.b)
		}
		rs, rest, err := ref.ParseReplies(o.out)
		if err != nil || len(rest) > 0 {
			c.Fail(key+"-reply", "%s: unparsable reply % x (%v)", h.what, o.out, err)
		}
		for _, p := range rs {
			if p.PT != ref.PtResponse || p.PR == 0 || len(p.Results) > 0 {
				c.Fail(key+"-confirmed", "%s: the gateway answers %s to % x", h.what, showReply(p), h.b)
			}
			for _, k := range p.Conf {
				if k.Status == 0 {
					c.Fail(key+"-confirmed", "%s: the gateway answers %s to % x", h.what, showReply(p), h.b)
				}
			}
		}
	}
	c.Step(len(hs))
	c.Trace()
	c.R.AddCount("packets sent to the gateway", len(hs))
}

// flip inverts the bits of a burst: pattern bit 0 at bit position at (MSB first within a byte).
func flip(b []byte, at int, pat uint32) []byte {
	m := append([]byte(nil), b...)
	for k := 0; pat != 0; k, pat = k+1, pat>>1 {
		if pat&1 == 1 {
			p := at + k
			m[p/8] ^= 0x80 >> (p % 8)
		}
	}
	return m
}

func TestC11(t *testing.T) {
	run(t, func(r *x.R) {
		var bs []bases.NamedPkt
		for _, p := range bases.Pkts() {
			if len(p.Body) > 0 {
				bs = append(bs, p)
			}
		}
		maxBurst := 12
		if r.Thorough {
			maxBurst = 16
		}
		for _, p := range bs {
			w := p.Wire()
			hl := len(p.Header())
			body := p.Body
			// the packet itself is accepted
			r.Case(x.HB(1, w), func() string { return p.Name }, func(c *x.C) {
				if code, err := wantCode(w); err != nil || code != 0 {
					c.Fail("refused", "the well-formed packet %s is refused: %d %v", p.Name, code, err)
				}
			})
			// truncation
			r.Case(x.HB(2, w), func() string { return p.Name + " truncated" }, func(c *x.C) {
				var hs []hostile
				for n := 0; n < len(w); n++ {
					c.State(x.HB(1, w[:n]))
					reject(c, func() string { return fmt.Sprintf("%s cut to %d of %d bytes", p.Name, n, len(w)) }, w[:n])
					c.Step(1)
					if n > 0 {
						hs = append(hs, hostile{fmt.Sprintf("%s cut to %d of %d bytes", p.Name, n, len(w)), w[:n]})
					}
				}
				refuse(c, "truncated", hs)
			})
			// bursts in the header
			for at := 0; at < 8*hl; at++ {
				r.Case(x.HS("hb", p.Name, fmt.Sprint(at)), func() string { return fmt.Sprintf("%s: header bursts from bit %d", p.Name, at) }, func(c *x.C) {
					var hs []hostile
					for pat := uint32(1); pat < 256; pat += 2 {
						if at+bitlen(pat) > 8*hl {
							continue
						}
						m := flip(w, at, pat)
						what := func() string { return fmt.Sprintf("%s with burst %b from header bit %d", p.Name, pat, at) }
						codes := []byte{137, 131}
						if m[2]&0x20 == w[2]&0x20 && m[3] == w[3] {
							codes = codes[:1]
						}
						if m[0] != w[0] {
							codes = append(codes, 128, 131)
						}
						c.State(x.HB(1, m))
						c.Step(1)
						reject(c, what, m, codes...)
						hs = append(hs, hostile{what(), m})
						if len(hs) == 64 {
							refuse(c, "corrupt", hs)
							hs = nil
						}
					}
					if len(hs) > 0 {
						refuse(c, "corrupt", hs)
					}
				})
			}
			// bursts in body and its checksum
			nb := 8 * (len(w) - hl)
			for at := 0; at < nb; at++ {
				r.Case(x.HS("bb", p.Name, fmt.Sprint(at)), func() string { return fmt.Sprintf("%s: body bursts from bit %d", p.Name, at) }, func(c *x.C) {
					var hs []hostile
					for pat := uint32(1); pat < 1<<maxBurst; pat += 2 {
						n := bitlen(pat)
						if at+n > nb {
							break
						}
						m := flip(w, 8*hl+at, pat)
						if at+n > 8*len(body) && ref.CRC16(m[hl:hl+len(body)]) == uint16(m[len(m)-2])|uint16(m[len(m)-1])<<8 {
							continue // the checksum stands low byte first: a few bursts across the boundary agree with it
						}
						what := func() string { return fmt.Sprintf("%s with burst %b from body bit %d", p.Name, pat, at) }
						if n <= 4 || pat%509 == 1 {
							c.State(x.HB(1, m))
						}
						c.Step(1)
						if ref.WellFormed(p.PT, m[hl:hl+len(body)]) == 1 {
							reject(c, what, m, 138)
						} else {
							reject(c, what, m)
						}
						if n <= 3 || n == 8 && pat == 255 || n == 12 && pat%256 == 1 {
							hs = append(hs, hostile{what(), m})
						}
					}
					if len(hs) > 0 {
						refuse(c, "corrupt", hs)
					}
				})
			}
			// two-bit errors anywhere
			if len(w) <= 120 || r.Thorough {
				for a := 0; a < 8*len(w); a++ {
					r.Case(x.HS("two", p.Name, fmt.Sprint(a)), func() string { return fmt.Sprintf("%s: bit %d and any later one", p.Name, a) }, func(c *x.C) {
						m := append([]byte(nil), w...)
						m[a/8] ^= 0x80 >> (a % 8)
						for b := a + 1; b < 8*len(w); b++ {
							m[b/8] ^= 0x80 >> (b % 8)
							q := append([]byte(nil), m...)
							// both checksums must miss it to let it pass
							_, _, err := ref.ParsePkt(q)
							c.Step(1)
							if err != nil {
								reject(c, func() string { return fmt.Sprintf("%s with bits %d and %d inverted", p.Name, a, b) }, q)
							}
							m[b/8] ^= 0x80 >> (b % 8)
						}
					})
				}
			}
			// both checksums, every wrong value
			r.Case(x.HS("hcx", p.Name), func() string { return p.Name + ": every wrong header checksum" }, func(c *x.C) {
				var hs []hostile
				for v := 1; v < 256; v++ {
					q := p.Pkt
					q.HCX = byte(v)
					m := q.Bytes()
					what := func() string { return fmt.Sprintf("%s with its header checksum xor %#x", p.Name, v) }
					reject(c, what, m, 137)
					hs = append(hs, hostile{what(), m})
					c.State(x.HB(1, m))
				}
				c.Step(255)
				refuse(c, "corrupt", hs)
			})
			for hi := 0; hi < 256; hi++ {
				r.Case(x.HS("ccx", p.Name, fmt.Sprint(hi)), func() string { return fmt.Sprintf("%s: wrong body checksums, high byte xor %#x", p.Name, hi) }, func(c *x.C) {
					var hs []hostile
					for lo := 0; lo < 256; lo++ {
						if hi == 0 && lo == 0 {
							continue
						}
						q := p.Pkt
						q.CCX = uint16(hi<<8 | lo)
						m := q.Bytes()
						what := func() string { return fmt.Sprintf("%s with its body checksum xor %#x", p.Name, q.CCX) }
						reject(c, what, m, 138)
						c.Step(1)
						if hi == 0 || lo == 0 || lo == hi {
							c.State(x.HB(1, m))
							hs = append(hs, hostile{what(), m})
						}
					}
					refuse(c, "corrupt", hs)
				})
			}
			// every other packet type
			r.Case(x.HS("pt", p.Name), func() string { return p.Name + ": every unknown packet type" }, func(c *x.C) {
				var hs []hostile
				for v := 2; v < 256; v++ {
					q := p.Pkt
					q.PT = byte(v)
					m := q.Bytes()
					what := func() string { return fmt.Sprintf("%s as packet type %d", p.Name, v) }
					reject(c, what, m, 133)
					hs = append(hs, hostile{what(), m})
					c.State(x.HB(1, m))
				}
				c.Step(254)
				refuse(c, "unknown type", hs)
			})
		}
		// packets of every order of size
		sizes := []int{120, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1100, 1400, 1460, 1461, 1500, 2000, 2047, 2048, 2049, 3000, 4000, 4095, 4096, 4097, 5000, 8192, 9000, 16384, 20000, 32767, 32768, 32769, 50000, 60000, 65000, 65535}
		for _, n := range sizes {
			p := bigPkt(77, n)
			w := p.Bytes()
			hl := len(w) - len(p.Body) - 2
			var places []int
			dense, apart := 150, 31
			if len(w) > 5000 {
				apart = 509
			}
			if r.Thorough {
				dense, apart = 2000, 61
			}
			for i := hl; i < len(w); i++ {
				if i < hl+dense || i > len(w)-40 || i%apart == 0 || i&(i+1) == 0 || i&(i-1) == 0 || (i-hl)&(i-hl+1) == 0 || (i-hl)&(i-hl-1) == 0 {
					places = append(places, i)
				}
			}
			name := fmt.Sprintf("a packet with %d bytes of frame data", len(p.Body))
			const chunk = 200
			for from := 0; from < len(places); from += chunk {
				part := places[from:min(len(places), from+chunk)]
				r.Case(x.HI(21, uint64(n), uint64(from)), func() string { return fmt.Sprintf("%s, errors from byte %d", name, part[0]) }, func(c *x.C) {
					var hs []hostile
					for k, i := range part {
						for j, pat := range []uint32{1, 0xFF, 0x801, 0x8421} {
							at := 8*(i-hl) + (i+j)%8
							if at+bitlen(pat) > 8*(len(w)-hl) {
								continue
							}
							m := flip(w, 8*hl+at, pat)
							if at+bitlen(pat) > 8*len(p.Body) && ref.CRC16(m[hl:hl+len(p.Body)]) == uint16(m[len(m)-2])|uint16(m[len(m)-1])<<8 {
								continue
							}
							what := func() string { return fmt.Sprintf("%s with burst %b from body bit %d", name, pat, at) }
							c.Step(1)
							if j == 0 && ref.WellFormed(p.PT, m[hl:hl+len(p.Body)]) == 1 {
								reject(c, what, m, 138)
							} else {
								reject(c, what, m)
							}
							if k%100 == j || i > len(w)-3 {
								c.State(x.HI(21, uint64(n), uint64(at), uint64(pat)))
								hs = append(hs, hostile{what(), m})
							}
						}
					}
					refuse(c, "corrupt", hs)
				})
			}
			r.Case(x.HI(22, uint64(n)), func() string { return name + " truncated, and with other checksums" }, func(c *x.C) {
				if code, err := wantCode(w); err != nil || code != 0 {
					c.Fail("refused", "%s is refused: %d %v", name, code, err)
				}
				var hs []hostile
				for k := 0; k < len(w); k++ {
					if len(w) < 2500 || k < 300 || k%61 == 0 || k > len(w)-100 || k&(k-1) == 0 {
						what := fmt.Sprintf("%s cut to %d of %d bytes", name, k, len(w))
						reject(c, func() string { return what }, w[:k])
						c.Step(1)
						if k > len(w)-5 || k > 0 && k&(k-1) == 0 {
							hs = append(hs, hostile{what, w[:k]})
						}
					}
				}
				sum := ref.CRC16(p.Body)
				for _, v := range []uint16{0, 0xFFFF, ^sum, sum<<8 | sum>>8, sum + 1, sum - 1, 0x1D0F, sum & 0xFF, sum & 0xFF00, ref.CRC16(p.Body[1:]), ref.CRC16(p.Body[:len(p.Body)-1]), ref.CRC16(w[:hl+len(p.Body)])} {
					if v == sum {
						continue
					}
					m := append(append([]byte(nil), w[:len(w)-2]...), byte(v), byte(v>>8))
					what := fmt.Sprintf("%s with body checksum %#x for %#x", name, v, sum)
					reject(c, func() string { return what }, m, 138)
					c.Step(1)
					hs = append(hs, hostile{what, m})
				}
				refuse(c, "corrupt", hs)
			})
		}
		// every form of header and record with errors in each part
		for gi, g := range [][]shape{shapes("position", func() []item { return items(pos(3)) }), shapes("identity", func() []item { return items(term(3)) }), responses()} {
			const chunk = 40
			for lo := 0; lo < len(g); lo += chunk {
				part := g[lo:min(len(g), lo+chunk)]
				r.Case(x.HI(23, uint64(gi), uint64(lo)), func() string { return fmt.Sprintf("%s, and %d more forms, corrupted", part[0].name, len(part)-1) }, func(c *x.C) {
					var hs []hostile
					for k, sh := range part {
						w := sh.mk(uint16(77*k), uint16(k)).Wire
						hs = append(hs, spoil(c, sh.name, w)...)
						if len(hs) > 60 {
							refuse(c, "corrupt", hs)
							hs = nil
						}
					}
					if len(hs) > 0 {
						refuse(c, "corrupt", hs)
					}
				})
			}
		}
		for pid := 0; pid < 65536; pid += 256 {
			r.Case(x.HI(24, uint64(pid)), func() string { return fmt.Sprintf("packets %d to %d corrupted", pid, pid+255) }, func(c *x.C) {
				for i := pid; i < pid+256; i++ {
					hs := spoil(c, fmt.Sprint("packet ", i), kinds[i%6].mk(uint16(i), uint16(i)).Wire)
					if i%256 == 255 {
						refuse(c, "corrupt", hs)
					}
				}
			})
		}
		// a corrupted packet between good ones: only the good ones count
		for i, p := range bs {
			w := p.Wire()
			for at := 0; at < len(w); at++ {
				if w[0] != 1 || at < 7 && at != 1 && at != 4 { // bytes that steer the framing are covered above
					continue
				}
				m := append([]byte(nil), w...)
				m[at] ^= 0x10
				bad := Msg{Name: fmt.Sprintf("%s, byte %d xor 10", p.Name, at), Kind: Bad, Wire: m, PID: uint16(m[7]) | uint16(m[8])<<8}
				r.Case(x.HI(9, uint64(i), uint64(at)), func() string { return "good, " + bad.Name + ", good" }, func(c *x.C) {
					converse(c, []Msg{kinds[0].mk(5, 1), bad, kinds[1].mk(6, 2)}, false, true)
				})
			}
		}
	})
}

// spoil corrupts a packet once in every part, demands that the decoder refuses the result, and returns it.
func spoil(c *x.C, name string, w []byte) (hs []hostile) {
	hl := int(w[3])
	add := func(m []byte, what string, codes ...byte) {
		what = name + " " + what
		reject(c, func() string { return what }, m, codes...)
		c.Step(1)
		hs = append(hs, hostile{what, m})
	}
	at := func(i int, x byte) []byte {
		m := append([]byte(nil), w...)
		m[i] ^= x
		return m
	}
	add(at(hl-1, 1), "with its header checksum xor 1", 137)
	add(at(hl-1, 0xFF), "with its header checksum inverted", 137)
	add(at(1, 0x10), "with its key xor 10h", 137)
	add(at(hl-2, 4), "with the last byte before the header checksum xor 4", 137)
	if len(w) == hl {
		return
	}
	n := len(w)
	add(at(n-2, 1), "with its body checksum xor 1", 138)
	add(at(n-1, 0x80), "with its body checksum xor 8000h", 138)
	z := append([]byte(nil), w...)
	z[n-1], z[n-2] = 0, 0
	if w[n-1]|w[n-2] != 0 {
		add(z, "with body checksum 0", 138)
	}
	add(at(n-3, 2), "with its last body byte xor 2")
	add(at(hl+(n-2-hl)/2, 0x20), "with its middle body byte xor 20h")
	add(at(hl+2, 1), "with the record number xor 1")
	return
}

// responses are transport responses of many forms.
func responses() (out []shape) {
	for i := 0; i < 512; i++ {
		for n := 0; n < 3; n++ {
			out = append(out, shape{fmt.Sprintf("response with header flags %08b, %d records", i, n), func(pid, rn uint16) Msg {
				p := ref.Response(pid, rn, byte(i%5*i))
				if n > 0 {
					p = ref.Response(pid, rn, byte(i%5*i), ref.Rec{RN: rn, SST: 2, RST: byte(i), Subs: []ref.Sub{ref.RecResp{CRN: rn, RST: byte(i >> 3)}.Sub()}}, ref.Rec{RN: 3, SST: 1, RST: 1, Subs: []ref.Sub{ref.RecResp{CRN: 9}.Sub()}})
				}
				h := p
				h.PRF, h.RTE, h.ENA, h.CMP, h.PR = byte(i>>6&3), byte(i>>5&1), byte(i>>3&3), byte(i>>2&1), byte(i&3)
				h.SKID, h.HE, h.PRA, h.RCA, h.TTL = byte(i*7), byte(i>>8*255), uint16(i), uint16(i*3), byte(i)
				return Msg{Name: "response", Kind: Ignored, PID: pid, Wire: h.Bytes()}
			}})
		}
	}
	return
}

func bitlen(p uint32) (n int) {
	for ; p != 0; p >>= 1 {
		n++
	}
	return
}
