package gate

import (
	"fmt"

	"verif.local/mc/ref"
)

// shape is a form of data packet: what varies is everything but its content.
type shape struct {
	name string
	mk   func(pid, rn uint16) Msg
}

// shapes are the forms in which a packet with these subrecords can arrive: all transport header flags,
// all record flags and optional fields, all pairs of service types that matter, every place among
// several records and subrecords, and records whose numbers repeat or go down.
func shapes(of string, content func() []item) (out []shape) {
	add := func(mk func(pid, rn uint16) Msg, f string, a ...any) {
		out = append(out, shape{of + ", " + fmt.Sprintf(f, a...), mk})
	}
	for i := 0; i < 256; i++ {
		add(func(pid, rn uint16) Msg {
			h := ref.Pkt{PRF: byte(i >> 6), RTE: byte(i >> 5 & 1), ENA: byte(i >> 3 & 3), CMP: byte(i >> 2 & 1), PR: byte(i & 3), SKID: byte(7 * i), HE: byte(255 - i), PRA: 0x0102, RCA: 0x0304, TTL: byte(i)}
			return DataMsgH(of, h, pid, TRec{RN: rn, OID: u32(12), SST: 2, Items: content()})
		}, "transport header flags %08b", i)
		for _, fill := range []byte{0, 255, 1, 128} {
			add(func(pid, rn uint16) Msg {
				h := ref.Pkt{PRF: byte(i >> 6), RTE: byte(i >> 5 & 1), ENA: byte(i >> 3 & 3), CMP: byte(i >> 2 & 1), PR: byte(i & 3), SKID: fill, HE: fill, PRA: uint16(fill) * 257, RCA: uint16(fill) * 257, TTL: fill}
				return DataMsgH(of, h, pid, TRec{RN: rn, OID: u32(12), SST: 2, Items: content()})
			}, "transport header flags %08b, the other fields all %d", i, fill)
		}
	}
	// each routing field over its values, alone
	for f := 0; f < 5; f++ {
		for _, v := range []uint16{0, 1, 2, 3, 5, 16, 64, 127, 128, 129, 254, 255, 256, 257, 0x7FFF, 0x8000, 0xFF00, 0xFFFE, 0xFFFF} {
			if v > 255 && f > 1 {
				continue
			}
			for rte := byte(0); rte < 2; rte++ {
				if rte == 0 && f < 3 {
					continue
				}
				add(func(pid, rn uint16) Msg {
					h := ref.Pkt{RTE: rte, PRA: 2, RCA: 3, TTL: 9}
					switch f {
					case 0:
						h.PRA = v
					case 1:
						h.RCA = v
					case 2:
						h.TTL = byte(v)
					case 3:
						h.SKID = byte(v)
					case 4:
						h.HE = byte(v)
					}
					return DataMsgH(of, h, pid, TRec{RN: rn, OID: u32(12), SST: 2, Items: content()})
				}, "%s %d, route %d", []string{"peer address", "recipient address", "time to live", "key", "header encoding"}[f], v, rte)
			}
		}
	}
	// the service types of two records
	sv := []byte{0, 1, 2, 4, 255}
	for i := 0; i < 625; i++ {
		add(func(pid, rn uint16) Msg {
			q := func(k int) byte { return sv[k%5] }
			d1, d2 := q(i/5), q(i/125)
			return DataMsg(of, pid, TRec{RN: rn, OID: u32(13), SST: q(i), RST: &d1, Items: content()}, TRec{RN: rn + 1, OID: u32(13), SST: q(i / 25), RST: &d2, Items: items(liq(5))})
		}, "two records from/to services %d/%d and %d/%d", sv[i%5], sv[i/5%5], sv[i/25%5], sv[i/125])
	}
	for i := 0; i < 256; i++ {
		add(func(pid, rn uint16) Msg {
			t := TRec{RN: rn, SST: byte(1 + i%2), Items: content(), Flags: ref.Rec{SSOD: byte(i >> 7), RSOD: byte(i >> 6 & 1), GRP: byte(i >> 5 & 1), RPP: byte(i >> 3 & 3)}}
			if i&1 != 0 {
				t.OID = u32(0x01020304)
			}
			if i&2 != 0 {
				t.EVID = u32(0x11121314)
			}
			if i&4 != 0 {
				t.TM = u32(0x21222324)
			}
			return DataMsg(of, pid, t)
		}, "record flags %08b", i)
	}
	for s := 0; s < 256; s++ {
		for _, d := range []byte{0, 1, 2, 3, 4, 9, 255} {
			if s > 16 && s < 250 && s%16 != 0 && d != 2 {
				continue
			}
			add(func(pid, rn uint16) Msg {
				return DataMsg(of, pid, TRec{RN: rn, OID: u32(13), SST: byte(s), RST: &d, Items: content()})
			}, "from service %d to service %d", s, d)
		}
	}
	// the content in record k of n, and as subrecord k of n, among others of every kind
	for n := 2; n <= 9; n++ {
		for k := 0; k < n; k++ {
			add(func(pid, rn uint16) Msg {
				var rs []TRec
				for i := 0; i < n; i++ {
					t := TRec{RN: rn + uint16(i), OID: u32(14), SST: byte(1 + (i+k)%4)}
					if i == k {
						t.Items = content()
					} else {
						t.Items = items(plain[(i+k)%len(plain)](uint32(i)))
					}
					rs = append(rs, t)
				}
				return DataMsg(of, pid, rs...)
			}, "in record %d of %d", k+1, n)
			add(func(pid, rn uint16) Msg {
				var is []item
				for i := 0; i < n; i++ {
					if i == k {
						is = append(is, content()...)
					} else {
						is = append(is, plain[(i+2*k)%len(plain)](uint32(i)))
					}
				}
				return DataMsg(of, pid, TRec{RN: rn, OID: u32(15), SST: 2, Items: is})
			}, "as subrecord %d of %d", k+1, n)
		}
	}
	// record numbers that repeat, go down or wrap
	vals := []uint16{0, 1, 65535, 700}
	var rec func(p []uint16)
	rec = func(p []uint16) {
		if len(p) > 1 {
			q := append([]uint16(nil), p...)
			add(func(pid, rn uint16) Msg {
				var rs []TRec
				for i, v := range q {
					t := TRec{RN: v, OID: u32(16), SST: 2, Items: items(liq(uint32(i)))}
					if i == len(q)/2 {
						t.Items = content()
					}
					rs = append(rs, t)
				}
				return DataMsg(of, pid, rs...)
			}, "record numbers %v", q)
		}
		if len(p) < 4 {
			for _, v := range vals {
				rec(append(p, v))
			}
		}
	}
	rec(nil)
	return
}

// plain are subrecords that call for no result code and no save.
var plain = []func(n uint32) item{
	func(n uint32) item { return liq(n) },
	func(n uint32) item { return ads(n) },
	func(n uint32) item { return ref.State{ST: 2, MPSV: byte(n), BBV: 3} },
	func(n uint32) item { return ref.Cnt{CFE: 3, CN: [8]uint32{n, 7}} },
	func(n uint32) item { return ref.AbsAn{N: byte(17 + n), V: 4000 + n} },
	func(n uint32) item { return ref.Ext{Flags: 0x1F, VDOP: 1, HDOP: 2, PDOP: 3, SAT: byte(n), NS: 1} },
	func(n uint32) item { return ref.AbsCntr{N: byte(100 + n%10), V: 0x0A0B0C + n} },
}

// big is a packet with one position and as much else that its length is at least n.
func big(name string, pid uint16, n int) Msg { return DataMsg(name, pid, bigRecs(pid, n)...) }

func bigPkt(pid uint16, n int) ref.Pkt {
	var rs []ref.Rec
	for _, t := range bigRecs(pid, n) {
		rs = append(rs, t.Rec())
	}
	return ref.Appdata(pid, rs...)
}

func bigRecs(pid uint16, n int) []TRec {
	recs := []TRec{{RN: 1, OID: u32(9), SST: 2, Items: items(pos(uint32(pid)))}}
	size := 11 + 2 + 7 + 4 + 24
	for size < n {
		t := TRec{RN: uint16(len(recs) + 1), OID: u32(9), SST: 2}
		size += 11
		for k := 0; k < 400 && (size < n || k == 0); k++ {
			t.Items = append(t.Items, ref.State{ST: 2, MPSV: byte(k), BBV: byte(k * 7), IBV: byte(k * 13)})
			size += 8
		}
		recs = append(recs, t)
	}
	return recs
}
