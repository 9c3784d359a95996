package codec

import (
	"fmt"

	"github.com/ElectroUnion/egts-gate/libs/egts"
	"verif.local/mc/ref"
	"verif.local/mc/x"
)

// samples gives two different well-filled samples of every subrecord type.
func samples() (out []pair) {
	ls := layouts()
	for _, l := range ls {
		bgs := backgrounds(l.bits)
		for _, k := range []int{3, 1} {
			v := append([]uint64(nil), bgs[k]...)
			if l.typ == 16 && k == 1 {
				v[6], v[7] = 1, 0x55
			}
			if l.typ == 27 && k == 1 {
				v[0] = 0x7F
			}
			out = append(out, mkPair(l, v))
		}
	}
	p := plusRec{num: 7, tm: 8, status: 9, reasons: []uint64{11}}
	for m := range plusMsgs {
		p.subs = append(p.subs, fullSub(m, 4))
	}
	q := plusRec{num: 1 << 31, tm: 1, status: 0}
	out = append(out, plusPair(p), plusPair(q))
	return
}

func mkPair(l layout, v []uint64) pair {
	w, want, lib := l.mk(v)
	return pair{l.typ, w, want, lib, func() string { return fmt.Sprintf("%s %x", l.name, v) }}
}

func plusPair(p plusRec) pair {
	w := p.wire()
	return pair{15, w, w, p.lib(), func() string { return fmt.Sprintf("EGTS_PLUS_DATA % x", clipb(w)) }}
}

// enumSubs walks every enumerated subrecord; each group is one case.
func enumSubs(r *x.R, check func(c *x.C, p pair)) {
	one := func(name string, each func(yield func(p pair))) {
		r.Case(x.HS("sub", name), func() string { return name }, func(c *x.C) {
			n := 0
			each(func(p pair) {
				n++
				c.State(x.HB(uint64(p.typ), p.wire))
				check(c, p)
			})
			c.Step(n)
			c.Trace()
			c.R.AddCount("subrecords", n)
		})
	}
	for _, l := range layouts() {
		groups(l, true, true, func(name string, vs func(yield func(v []uint64))) {
			one(name, func(yield func(p pair)) { vs(func(v []uint64) { yield(mkPair(l, v)) }) })
		})
	}
	plusGroups(func(name string, each func(yield func(p plusRec))) {
		one(name, func(yield func(p pair)) { each(func(p plusRec) { yield(plusPair(p)) }) })
	})
}

// recBits: RN flags OID EVID TM SST RST
var recBits = []int{16, 8, 32, 32, 32, 8, 8}

func mkRec(v []uint64, subs ...pair) rec {
	return rec{rn: uint16(v[0]), flags: byte(v[1]), oid: u(v[2]), evid: u(v[3]), tm: u(v[4]), sst: byte(v[5]), rst: byte(v[6]), subs: subs}
}

// hdrBits: PRV SKID flags HE PID PRA RCA TTL
var hdrBits = []int{8, 8, 8, 8, 16, 16, 16, 8}

func mkHdr(pt byte, v []uint64) ref.Pkt {
	f := byte(v[2])
	return ref.Pkt{PT: pt, PRV: byte(v[0]), SKID: byte(v[1]), PRF: f >> 6, RTE: f >> 5 & 1, ENA: f >> 3 & 3, CMP: f >> 2 & 1, PR: f & 3, HE: byte(v[3]), PID: uint16(v[4]), PRA: uint16(v[5]), RCA: uint16(v[6]), TTL: byte(v[7])}
}

// enumPkgs walks every enumerated packet.
func enumPkgs(r *x.R, check func(c *x.C, p pkg, name func() string)) {
	ss := samples()
	one := func(name string, each func(yield func(p pkg, name func() string))) {
		r.Case(x.HS("pkg", name), func() string { return name }, func(c *x.C) {
			n := 0
			each(func(p pkg, name func() string) {
				n++
				c.State(x.HB(3, p.ref().Bytes()))
				check(c, p, name)
			})
			c.Step(n)
			c.Trace()
			c.R.AddCount("packets", n)
		})
	}
	plain := ref.Pkt{PT: 1, PRV: 1, PID: 7}
	rv := []uint64{5, 1, 77, 88, 99, 2, 2}
	bodies := [][]rec{{mkRec(rv, ss[0])}, {mkRec(rv, ss[1], ss[4]), mkRec(backgrounds(recBits)[3], ss[9])}}

	// transport header
	for _, pt := range []byte{0, 1} {
		pt := pt
		l := layout{name: fmt.Sprintf("header of packet type %d", pt), bits: hdrBits, skip: func([]uint64) bool { return false }}
		groups(l, true, r.Thorough, func(name string, vs func(yield func(v []uint64))) {
			one(name, func(yield func(p pkg, name func() string)) {
				i := 0
				vs(func(v []uint64) {
					i++
					yield(pkg{h: mkHdr(pt, v), rpid: uint16(v[4] * 3), pr: byte(v[0]), recs: bodies[i%2]}, func() string { return fmt.Sprintf("%s %x", name, v) })
				})
			})
		})
	}
	// response header
	groups(layout{name: "response", bits: []int{16, 8, 1, 2}, skip: func([]uint64) bool { return false }}, true, r.Thorough, func(name string, vs func(yield func(v []uint64))) {
		one(name, func(yield func(p pkg, name func() string)) {
			vs(func(v []uint64) {
				p := pkg{h: ref.Pkt{PT: 0, PRV: 1, PID: 9, RTE: byte(v[2]), PRA: 1, RCA: 2, TTL: 3}, rpid: uint16(v[0]), pr: byte(v[1])}
				if v[3] > 0 {
					for k := 0; k < int(v[3]); k++ {
						p.recs = append(p.recs, mkRec(rv, ss[22], ss[23]))
					}
				}
				yield(p, func() string { return fmt.Sprintf("%s %x", name, v) })
			})
		})
	})
	// service record header
	for k := 0; k < 3; k++ {
		groups(layout{name: fmt.Sprintf("record with %d subrecords", k), bits: recBits, skip: func([]uint64) bool { return false }}, true, r.Thorough, func(name string, vs func(yield func(v []uint64))) {
			one(name, func(yield func(p pkg, name func() string)) {
				vs(func(v []uint64) {
					a := mkRec(v, ss[:k]...)
					yield(pkg{h: plain, recs: []rec{a}}, func() string { return fmt.Sprintf("%s %x", name, v) })
				})
				bg := backgrounds(recBits)
				vs(func(v []uint64) {
					if v[0]%7 != 0 {
						return
					}
					a, b := mkRec(v, ss[:k]...), mkRec(bg[3], ss[10])
					yield(pkg{h: plain, recs: []rec{b, a, b}}, func() string { return fmt.Sprintf("%s %x between two others", name, v) })
				})
			})
		})
	}
	// every byte of the body decides the checksum: each value at each place of the longest sample
	one("checksums", func(yield func(p pkg, name func() string)) {
		for i := 0; i < 64; i++ {
			for v := 0; v < 256; v++ {
				b := make([]byte, 64)
				b[i] = byte(v)
				s := pair{typ: 5, wire: append([]byte{1, 2, 3, 4, 5}, b...)}
				s.want = s.wire
				s.lib = dispOf(s.wire)
				yield(pkg{h: plain, recs: []rec{mkRec(rv, s)}}, func() string { return fmt.Sprintf("body byte %d = %d", i, v) })
			}
		}
		for n := 0; n < 600; n++ {
			b := make([]byte, 5+n)
			for i := range b {
				b[i] = byte(i*i + n)
			}
			s := pair{typ: 5, wire: b, want: b, lib: dispOf(b)}
			yield(pkg{h: plain, recs: []rec{mkRec(rv, s)}}, func() string { return fmt.Sprintf("body with %d bytes of text", n) })
		}
	})
	// sequences of subrecords of all types
	depth := 2
	if r.Thorough {
		depth = 3
	}
	for a := range ss {
		one(fmt.Sprintf("subrecord sequences starting with %s", ss[a].name()), func(yield func(p pkg, name func() string)) {
			x.Seqs(len(ss), 0, depth, func(q []int) {
				subs := []pair{ss[a]}
				for _, i := range q {
					subs = append(subs, ss[i])
				}
				name := func() string {
					s := "subrecords:"
					for _, p := range subs {
						s += " " + p.name() + ";"
					}
					return s
				}
				yield(pkg{h: plain, recs: []rec{mkRec(rv, subs...)}}, name)
				if len(q) > 0 && len(q) < 3 { // the same, one record each, in a response too
					var rs []rec
					for i, s := range subs {
						w := append([]uint64(nil), rv...)
						w[0], w[1] = uint64(100+i), uint64(i*37)
						rs = append(rs, mkRec(w, s))
					}
					yield(pkg{h: plain, recs: rs}, func() string { return name() + " one record each" })
					if len(q) == 1 {
						yield(pkg{h: ref.Pkt{PT: 0, PRV: 1, PID: 3}, rpid: 4, recs: rs}, func() string { return name() + " in a response" })
					}
				}
			})
		})
	}
	// many subrecords and many records
	one("many", func(yield func(p pkg, name func() string)) {
		for _, n := range []int{1, 2, 3, 10, 100, 1000, 2000} {
			var many []pair
			var rs []rec
			for i := 0; i < n; i++ {
				many = append(many, ss[i%len(ss)])
				w := append([]uint64(nil), rv...)
				w[0] = uint64(i)
				rs = append(rs, mkRec(w, ss[12+i%3]))
			}
			p := pkg{h: plain, recs: []rec{mkRec(rv, many...)}}
			if len(p.body()) <= 65535 {
				yield(p, func() string { return fmt.Sprintf("a record of %d subrecords", n) })
			}
			p = pkg{h: plain, recs: rs}
			if len(p.body()) <= 65535 {
				yield(p, func() string { return fmt.Sprintf("%d records", n) })
			}
		}
		// subrecords of few bytes in numbers up to the greatest frame
		tiny := func(k byte, i int) pair {
			switch k {
			case 0:
				return pair{typ: 9, wire: []byte{byte(i)}, want: []byte{byte(i)}, lib: &egts.SrResultCode{ResultCode: byte(i)}}
			case 1:
				return pair{typ: 7, wire: []byte{0, 0}, want: []byte{0, 0}, lib: &egts.SrAuthInfo{}}
			}
			b := ref.RecResp{CRN: uint16(i), RST: byte(i >> 8)}.Body()
			return pair{typ: 0, wire: b, want: b, lib: &egts.SrResponse{ConfirmedRecordNumber: uint16(i), RecordStatus: byte(i >> 8)}}
		}
		for k := byte(0); k < 3; k++ {
			for _, n := range []int{255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 10920, 10921, 13000, 13105, 16000, 16381} {
				var many []pair
				for i := 0; i < n; i++ {
					many = append(many, tiny(k, i))
				}
				p := pkg{h: plain, recs: []rec{mkRec([]uint64{1, 0, 0, 0, 0, 2, 2}, many...)}}
				if len(p.body()) <= 65535 {
					yield(p, func() string { return fmt.Sprintf("a record of %d subrecords of %d bytes", n, len(many[0].wire)) })
				}
				var rs []rec
				for i := 0; i < n; i++ {
					rs = append(rs, mkRec([]uint64{uint64(i), 0, 0, 0, 0, 2, 2}, tiny(k, i)))
				}
				p = pkg{h: plain, recs: rs}
				if len(p.body()) <= 65535 {
					yield(p, func() string { return fmt.Sprintf("%d records of one subrecord of %d bytes", n, len(many[0].wire)) })
				}
			}
		}
		for l := 65500; l <= 65517; l++ { // up to the greatest frame
			b := make([]byte, l)
			for i := range b {
				b[i] = byte(i)
			}
			s := pair{typ: 5, wire: b, want: b, lib: dispOf(b)}
			p := pkg{h: plain, recs: []rec{mkRec([]uint64{1, 0, 0, 0, 0, 2, 2}, s)}}
			if len(p.body()) <= 65535 {
				yield(p, func() string { return fmt.Sprintf("a subrecord of %d bytes, frame of %d", l, len(p.body())) })
			}
		}
	})
}
