package gate

import (
	"fmt"
	"testing"

	"verif.local/mc/bases"
	"verif.local/mc/ref"
	"verif.local/mc/x"
)

// lies collects packets with lengths that do not fit, judged by the independent layout.
type lies struct {
	c       *x.C
	hs      []hostile
	noGate  bool
	judged  int
	refused int
}

func (l *lies) add(what func() string, p ref.Pkt) {
	w := p.Bytes()
	l.c.Step(1)
	l.judged++
	if ref.LengthsFit(p.PT, p.Body) != 0 {
		return
	}
	l.refused++
	l.c.State(x.HB(1, w))
	if ref.HeaderOnlyLast(p.PT, p.Body) {
		if code, err := wantCode(w); err == nil || code == 0 {
			l.c.Note("last-record-without-data", "%s is accepted: % x", what(), w)
		}
		return
	}
	reject(l.c, what, w)
	if l.noGate {
		return
	}
	l.hs = append(l.hs, hostile{what(), w})
	if len(l.hs) == 64 {
		l.flush()
	}
}

func (l *lies) flush() {
	if len(l.hs) > 0 {
		refuse(l.c, "short", l.hs)
	}
	l.hs = nil
	l.c.R.AddCount("packets judged", l.judged)
	l.c.R.AddCount("packets with lengths that do not fit", l.refused)
	l.judged, l.refused = 0, 0
}

// recsOf parses the records of a base packet back, to lie about their lengths.
func recsOf(p bases.NamedPkt) (front []byte, recs []ref.Rec) {
	b := p.Body
	if p.PT == ref.PtResponse {
		front, b = b[:3], b[3:]
	}
	recs, err := ref.ParseRecs(b)
	if err != nil {
		panic(err)
	}
	return
}

func rebuild(p ref.Pkt, front []byte, recs []ref.Rec) ref.Pkt {
	p.Body = append([]byte(nil), front...)
	for _, r := range recs {
		p.Body = append(p.Body, r.Bytes()...)
	}
	return p
}

func TestC12(t *testing.T) {
	run(t, func(r *x.R) {
		var bs []bases.NamedPkt
		for _, p := range bases.Pkts() {
			if len(p.Body) > 0 {
				bs = append(bs, p)
			}
		}
		// every wrong value of a length; all 65536 for some packets, near and far values for the others
		values := func(actual int, all bool) (vs []int) {
			if all {
				for v := 0; v < 65536; v++ {
					vs = append(vs, v)
				}
				return
			}
			for v := 0; v <= actual+60; v++ {
				vs = append(vs, v)
			}
			for _, v := range []int{255, 256, 257, 511, 512, 1000, 32767, 32768, 65279, 65280, 65533, 65534, 65535} {
				if v > actual+60 {
					vs = append(vs, v)
				}
			}
			return
		}
		for bi, p := range bs {
			all := r.Thorough || p.Name == "data/pos" || p.Name == "data/auth" || p.Name == "response/records"
			front, recs := recsOf(p)
			for i := range recs {
				rl := 0
				for _, s := range recs[i].Subs {
					rl += len(s.Body) + 3
				}
				lie := func(label string, actual int, set func(rs []ref.Rec, d int)) {
					vs := values(actual, all)
					for from := 0; from < len(vs); from += 2048 {
						part := vs[from:min(from+2048, len(vs))]
						r.Case(x.HS("len", p.Name, label, fmt.Sprint(from)), func() string {
							return fmt.Sprintf("%s: %s %d..%d instead of %d", p.Name, label, part[0], part[len(part)-1], actual)
						}, func(c *x.C) {
							l := &lies{c: c}
							for _, v := range part {
								if v == actual {
									continue
								}
								rs := append([]ref.Rec(nil), recs...)
								for k := range rs {
									rs[k].Subs = append([]ref.Sub(nil), rs[k].Subs...)
								}
								set(rs, v-actual)
								l.noGate = all && v > actual+200 && v%256 > 1
								l.add(func() string { return fmt.Sprintf("%s with %s %d instead of %d", p.Name, label, v, actual) }, rebuild(p.Pkt, front, rs))
							}
							l.flush()
							c.Trace()
						})
					}
				}
				lie(fmt.Sprintf("length of record %d", i), rl, func(rs []ref.Rec, d int) { rs[i].LenD = d })
				for j, s := range recs[i].Subs {
					lie(fmt.Sprintf("length of subrecord %d.%d", i, j), len(s.Body), func(rs []ref.Rec, d int) { rs[i].Subs[j].LenD = d })
					// the subrecord really is shorter, and everything around it agrees
					r.Case(x.HS("cut", p.Name, fmt.Sprint(i, j)), func() string { return fmt.Sprintf("%s: subrecord %d.%d shortened", p.Name, i, j) }, func(c *x.C) {
						l := &lies{c: c}
						for n := 0; n < len(s.Body); n++ {
							rs := append([]ref.Rec(nil), recs...)
							rs[i].Subs = append([]ref.Sub(nil), rs[i].Subs...)
							rs[i].Subs[j].Body = s.Body[:n]
							l.add(func() string {
								return fmt.Sprintf("%s with subrecord %d.%d cut from %d to %d bytes", p.Name, i, j, len(s.Body), n)
							}, rebuild(p.Pkt, front, rs))
							rs[i].Subs[j].Body = s.Body[len(s.Body)-n:]
							l.add(func() string {
								return fmt.Sprintf("%s with only the last %d bytes of subrecord %d.%d", p.Name, n, i, j)
							}, rebuild(p.Pkt, front, rs))
						}
						l.flush()
						c.Trace()
					})
				}
			}
			// the frame body ends early, and the header agrees
			r.Case(x.HS("body cut", p.Name), func() string { return p.Name + ": frame body shortened" }, func(c *x.C) {
				l := &lies{c: c}
				for n := 1; n < len(p.Body); n++ {
					q := p.Pkt
					q.Body = p.Body[:n]
					l.add(func() string {
						return fmt.Sprintf("%s with only the first %d of %d body bytes", p.Name, n, len(p.Body))
					}, q)
				}
				l.flush()
				c.Trace()
			})
			// the header claims more data than is there
			r.Case(x.HS("fdl", p.Name), func() string { return p.Name + ": wrong frame data lengths" }, func(c *x.C) {
				var hs []hostile
				for _, v := range values(len(p.Body), all) {
					if v == len(p.Body) {
						continue
					}
					q := p.Pkt
					q.FDLD = v - len(p.Body)
					w := q.Bytes()
					what := func() string { return fmt.Sprintf("%s with data length %d instead of %d", p.Name, v, len(p.Body)) }
					c.Step(1)
					if v > len(p.Body) {
						reject(c, what, w)
						c.State(x.HB(1, w))
					} else if v > 0 && ref.CRC16(p.Body[:v]) == uint16(w[len(p.Header())+v])|uint16(w[len(p.Header())+v+1])<<8 {
						continue
					} else {
						reject(c, what, w)
						c.State(x.HB(1, w))
					}
					if !all || v < 300 || v%251 == 0 {
						hs = append(hs, hostile{what(), w})
					}
					if len(hs) == 64 {
						refuse(c, "frame-length", hs)
						hs = nil
					}
				}
				if len(hs) > 0 {
					refuse(c, "frame-length", hs)
				}
				c.Trace()
			})
			// header lengths
			r.Case(x.HS("hl", p.Name), func() string { return p.Name + ": wrong header lengths" }, func(c *x.C) {
				right := len(p.Header())
				var hs []hostile
				try := func(what string, w []byte) {
					c.Step(1)
					c.State(x.HB(1, w))
					reject(c, func() string { return what }, w)
					hs = append(hs, hostile{what, w})
				}
				for hl := 0; hl < 256; hl++ {
					if hl == right {
						continue
					}
					q := p.Pkt
					q.HLD = hl - right
					try(fmt.Sprintf("%s with header length %d", p.Name, hl), q.Bytes())
					// the checksum where that length puts it
					w := q.Bytes()
					if hl > 10 && hl < len(w) {
						w[hl-1] = ref.CRC8(w[:hl-1])
						try(fmt.Sprintf("%s with header length %d and its checksum there", p.Name, hl), w)
						// and bytes inserted so that the body follows
						if hl > right {
							ins := append(append([]byte(nil), q.Header()[:right-1]...), make([]byte, hl-right)...)
							ins = append(ins, ref.CRC8(ins))
							full := append(ins, p.Bytes()[right:]...)
							try(fmt.Sprintf("%s with a header of %d bytes", p.Name, hl), full)
						}
					}
					if len(hs) >= 64 {
						refuse(c, "header-length", hs)
						hs = nil
					}
				}
				if len(hs) > 0 {
					refuse(c, "header-length", hs)
				}
				c.Trace()
			})
			_ = bi
		}
		// every subrecord type, flag bytes and body lengths shorter than the layout they announce
		pos0 := bases.Subs()[0].Sub
		wrap := func(s ref.Sub, after bool) ref.Pkt {
			subs := []ref.Sub{pos0, s}
			if after {
				subs = append(subs, pos0)
			}
			return ref.Appdata(7, ref.Rec{RN: 3, OID: ref.U32(4), SST: 2, RST: 2, Subs: subs})
		}
		for ty := 0; ty < 256; ty++ {
			if !ref.Known(byte(ty)) || ty == 15 {
				continue
			}
			flagAt := map[int]int{1: 4, 16: 12, 17: 0, 18: 0, 19: 0, 27: 0}
			at, flagged := flagAt[ty]
			for f := 0; f < 256; f++ {
				if !flagged && f != 0 && f != 255 && f != 0x41 {
					continue
				}
				r.Case(x.HI(20, uint64(ty), uint64(f)), func() string { return fmt.Sprintf("subrecords of type %d with flags %#x, too short", ty, f) }, func(c *x.C) {
					l := &lies{c: c}
					seconds := []int{0}
					if ty == 18 {
						seconds = nil
						for v := 0; v < 256; v++ {
							seconds = append(seconds, v)
						}
					}
					for _, sec := range seconds {
						for _, fill := range []byte{0, 0xFF, 0x31} {
							if ty == 18 && fill != 0xFF && sec%16 != 0 {
								continue
							}
							full := make([]byte, 70)
							for i := range full {
								full[i] = fill
							}
							if flagged {
								full[at] = byte(f)
							} else if f != 0 {
								full[0] = byte(f)
							}
							if ty == 18 {
								full[2] = byte(sec)
							}
							for n := 0; n < 70; n++ {
								if m := ref.MinLen(byte(ty), full[:n]); n >= m && m >= 0 {
									break
								}
								s := ref.Sub{T: byte(ty), Body: full[:n]}
								l.noGate = (ty == 18 && sec%32 != 5) || fill == 0x31
								l.add(func() string { return fmt.Sprintf("last subrecord of type %d, body % x", ty, s.Body) }, wrap(s, false))
								l.noGate = l.noGate || fill == 0
								l.add(func() string { return fmt.Sprintf("subrecord of type %d before another, body % x", ty, s.Body) }, wrap(s, true))
							}
						}
					}
					l.flush()
					c.Trace()
				})
			}
		}
		// responses too short for their fixed part
		r.Case(x.HI(21), func() string { return "responses with a body of one or two bytes" }, func(c *x.C) {
			for v := 0; v < 65536; v++ {
				for n := 1; n <= 2; n++ {
					if n == 1 && v > 255 {
						continue
					}
					w := withBody(ref.Pkt{PRV: 1, PT: 0, PID: 5}, []byte{byte(v), byte(v >> 8)}[:n])
					c.Step(1)
					reject(c, func() string { return "short response" }, w)
				}
			}
			var hs []hostile
			for v := 0; v < 256; v++ {
				hs = append(hs, hostile{"short response", withBody(ref.Pkt{PRV: 1, PT: 0, PID: 5}, []byte{byte(v)})})
			}
			refuse(c, "short", hs)
		})
		// record headers cut short, for every flag byte, alone and behind a good record
		good := ref.Rec{RN: 1, OID: ref.U32(4), SST: 2, RST: 2, Subs: []ref.Sub{pos0}}
		for _, pt := range []byte{0, 1} {
			for f := 0; f < 256; f++ {
				r.Case(x.HI(22, uint64(pt), uint64(f)), func() string { return fmt.Sprintf("record headers with flags %#x cut short, packet type %d", f, pt) }, func(c *x.C) {
					l := &lies{c: c}
					for n := 1; n < 20; n++ {
						h := append([]byte{0, 0, 2, 0, byte(f)}, make([]byte, 20)...)[:n]
						for _, before := range []bool{false, true} {
							b := []byte{}
							if pt == 0 {
								b = []byte{1, 0, 0}
							}
							if before {
								b = append(b, good.Bytes()...)
							}
							p := ref.Pkt{PRV: 1, PT: pt, PID: 8, Body: append(b, h...)}
							l.add(func() string {
								return fmt.Sprintf("%d bytes of a record header with flags %#x (after a record: %v)", n, f, before)
							}, p)
						}
					}
					l.flush()
					c.Trace()
				})
			}
		}
		// a subrecord shorter than its layout at every kind of place among many
		samples := bases.Subs()
		for si, s := range samples {
			if s.Sub.T == 5 || s.Sub.T == 15 || len(s.Sub.Body) == 0 {
				continue
			}
			s := s
			for _, n := range []int{1, 2, 5, 10, 16, 33, 64, 65, 100, 128, 129, 200, 256, 257, 300, 512, 640} {
				if n > 300 && !r.Thorough && si > 0 {
					continue
				}
				n := n
				for _, across := range []bool{false, true} {
					across := across
					r.Case(x.HI(23, uint64(si), uint64(n), b2i(across)), func() string {
						return fmt.Sprintf("%d small subrecords (in records of their own: %v) around a %s that is too short", n, across, s.Name)
					}, func(c *x.C) {
						l := &lies{c: c}
						seen := map[int]bool{}
						for _, k := range []int{0, 1, 2, 7, 63, 64, 65, n / 2, n - 2, n - 1, n} {
							if k < 0 || k > n || seen[k] {
								continue
							}
							seen[k] = true
							for cutTo := len(s.Sub.Body) - 1; cutTo >= 0 && cutTo >= len(s.Sub.Body)-12; cutTo-- {
								for _, lie := range []bool{false, true} {
									bad := ref.Sub{T: s.Sub.T, Body: s.Sub.Body[:cutTo]}
									if lie {
										bad.LenD = len(s.Sub.Body) - cutTo
									}
									var subs []ref.Sub
									var recs []ref.Rec
									put := func(q ref.Sub) {
										if across {
											recs = append(recs, ref.Rec{RN: uint16(len(recs)), SST: 2, RST: 2, Subs: []ref.Sub{q}})
										} else {
											subs = append(subs, q)
										}
									}
									for i := 0; i <= n; i++ {
										if i == k {
											put(bad)
										}
										if i < n {
											put(ref.AbsCntr{N: byte(i % 100), V: uint32(i)}.Sub())
										}
									}
									if !across {
										recs = []ref.Rec{{RN: 3, OID: ref.U32(4), SST: 2, RST: 2, Subs: subs}}
									}
									l.noGate = n > 10 && (cutTo != len(s.Sub.Body)-1 || k != n && k != 0)
									l.add(func() string {
										return fmt.Sprintf("%s of %d instead of %d bytes (announced as such: %v) at place %d of %d", s.Name, cutTo, len(s.Sub.Body), !lie, k, n)
									}, ref.Appdata(7, recs...))
								}
							}
						}
						l.flush()
						c.Trace()
					})
				}
			}
		}
		// lengths that lie in large records
		for _, n := range []int{250, 256, 4000, 8190, 16383, 32760, 32767, 32768, 32775, 50000, 65000, 65400} {
			n := n
			r.Case(x.HI(24, uint64(n)), func() string { return fmt.Sprintf("a record of about %d bytes, lengths that do not fit", n) }, func(c *x.C) {
				l := &lies{c: c}
				var subs []ref.Sub
				for i := 0; i < n/7; i++ {
					subs = append(subs, ref.AbsCntr{N: byte(i % 100), V: uint32(i)}.Sub())
				}
				subs = append(subs, pos0)
				rl := 0
				for _, s := range subs {
					rl += len(s.Body) + 3
				}
				first := ref.Rec{RN: 2, SST: 2, RST: 2, Subs: []ref.Sub{pos0}}
				lens := []int{1, 2, 3, 7, 8, 127, 128, 255, 256, 1000, 16384, 32767, 32768, 65535 - rl}
				for d := 1; d < 40; d++ {
					lens = append(lens, d)
				}
				for i, d := range lens {
					for _, d := range []int{d, -d} {
						if rl+d > 65535 || rl+d < 0 || d == 0 {
							continue
						}
						big := ref.Rec{RN: 1, OID: ref.U32(4), SST: 2, RST: 2, Subs: subs, LenD: d}
						l.noGate = i > 14
						l.add(func() string { return fmt.Sprintf("record length %d instead of %d", rl+d, rl) }, ref.Appdata(7, big))
						if rl < 65400 {
							l.add(func() string { return fmt.Sprintf("record length %d instead of %d behind a record", rl+d, rl) }, ref.Appdata(7, first, big))
						}
						sl := append([]ref.Sub(nil), subs...)
						for _, at := range []int{0, 1, len(subs) / 2, len(subs) - 2, len(subs) - 1} {
							if v := len(subs[at].Body) + d; v < 0 || v > 65535 {
								continue
							}
							sl[at].LenD = d
							l.add(func() string {
								return fmt.Sprintf("length of subrecord %d off by %d in a record of %d bytes", at, d, rl)
							}, ref.Appdata(7, ref.Rec{RN: 1, OID: ref.U32(4), SST: 2, RST: 2, Subs: sl}))
							sl[at].LenD = 0
						}
					}
				}
				// the frame ends within the record
				w := ref.Appdata(7, ref.Rec{RN: 1, OID: ref.U32(4), SST: 2, RST: 2, Subs: subs})
				for i, cut := range []int{1, 2, 3, 10, 24, 25, 100, 127, 128, 129, 1000, 32767, 32768, n / 2, n - 1} {
					if cut >= len(w.Body) || cut <= 0 {
						continue
					}
					q := w
					q.Body = w.Body[:len(w.Body)-cut]
					l.noGate = i > 8
					l.add(func() string { return fmt.Sprintf("a record of %d bytes in a frame that ends %d bytes early", rl, cut) }, q)
				}
				l.flush()
				c.Trace()
			})
		}
		// header lengths that lie, with every way of making the checksums agree with the lie or with the truth
		for _, rte := range []byte{0, 1} {
			for _, ttlv := range []byte{0, 1, 255} {
				if rte == 0 && ttlv > 0 {
					continue
				}
				for variant := 0; variant < 4; variant++ {
					for flags := 0; flags < 8; flags++ {
						rte, ttlv, variant, flags := rte, ttlv, variant, flags
						r.Case(x.HI(25, uint64(rte), uint64(ttlv), uint64(variant), uint64(flags)), func() string {
							return fmt.Sprintf("crafted header lengths: routed %d, time to live %d, variant %d, flags %d", rte, ttlv, variant, flags)
						}, func(c *x.C) {
							p := ref.Appdata(513, good)
							switch variant {
							case 1:
								p = ref.Response(513, 7, 0)
							case 2:
								p = ref.Appdata(513)
							case 3:
								p = ref.Appdata(0, ref.Rec{RN: 0, SST: 2, RST: 2, Subs: []ref.Sub{{T: 9, Body: []byte{0}}}})
							}
							p.RTE, p.TTL = rte, ttlv
							if variant != 3 {
								p.PRA, p.RCA, p.SKID, p.HE = 0x0B01, 0x0102, 3, 0
							}
							if flags&1 != 0 {
								p.CMP = 1
							}
							if flags&2 != 0 {
								p.ENA = 3
							}
							if flags&4 != 0 {
								p.PRF, p.PR = 2, 2
							}
							right := len(p.Header())
							var hs []hostile
							for hl := 0; hl < 256; hl++ {
								if hl == right {
									continue
								}
								for mode := 0; mode < 16; mode++ {
									q := p
									q.HLD = hl - right
									w := append(q.Bytes(), make([]byte, 8*(mode>>3))...)
									if mode&1 == 1 {
										if hl < 1 || hl > len(w) {
											continue
										}
										w[right-1] = ref.CRC8(w[:hl-1])
									}
									if mode&2 == 2 {
										if hl < 11 || hl > len(w) {
											continue
										}
										w[hl-1] = ref.CRC8(w[:hl-1])
									}
									if mode&4 == 4 {
										end := hl + len(p.Body)
										if hl < 4 || end > len(w) || len(w) < right+len(p.Body)+2 || len(p.Body) == 0 {
											continue
										}
										v := ref.CRC16(w[hl:end])
										w[right+len(p.Body)], w[right+len(p.Body)+1] = byte(v), byte(v>>8)
									}
									what := func() string {
										return fmt.Sprintf("header length %d instead of %d, checksums made to fit in way %d", hl, right, mode)
									}
									c.Step(1)
									c.State(x.HB(1, w))
									reject(c, what, w)
									if mode < 8 {
										hs = append(hs, hostile{what(), w})
									}
									if len(hs) == 64 {
										refuse(c, "header-length", hs)
										hs = nil
									}
								}
							}
							if len(hs) > 0 {
								refuse(c, "header-length", hs)
							}
							c.Trace()
						})
					}
				}
			}
		}
	})
}
