package gate

import (
	"fmt"
	"testing"

	"verif.local/mc/ref"
	"verif.local/mc/x"
)

// bits32 is every value with one bit set or one bit cleared, and the ends.
func bits32(width int) (out []uint32) {
	mask := uint32(1)<<width - 1
	if width == 32 {
		mask = 0xFFFFFFFF
	}
	out = append(out, 0, mask)
	for i := 0; i < width; i++ {
		out = append(out, 1<<i, mask&^(1<<i))
	}
	return
}

// subKinds are the subrecords a telemetry packet is assembled from; n makes values distinct.
var subKinds = []struct {
	name string
	mk   func(n uint32) item
}{
	{"pos", func(n uint32) item { return pos(n) }},
	{"pos-alt-sw", func(n uint32) item {
		p := pos(n + 5)
		p.Flags, p.Alt = 0xE3, 0x030201+n
		return p
	}},
	{"ads", func(n uint32) item { return ads(n) }},
	{"liquid", func(n uint32) item { return liq(n) }},
	{"abs-an", func(n uint32) item { return ref.AbsAn{N: byte(17 + n), V: 4000 + n} }},
	{"abs-cntr-other", func(n uint32) item { return ref.AbsCntr{N: byte(100 + n%10), V: 0x0A0B0C + n} }},
	{"abs-cntr-110", func(n uint32) item { return ref.AbsCntr{N: 110, V: 0xABCD00 + n} }},
	{"ext", func(n uint32) item { return ref.Ext{Flags: 0x1F, VDOP: 1, HDOP: 2, PDOP: 3, SAT: byte(n), NS: 1} }},
	{"counters", func(n uint32) item { return ref.Cnt{CFE: 3, CN: [8]uint32{n, 7}} }},
	{"state", func(n uint32) item { return ref.State{ST: 2, MPSV: byte(n), BBV: 3} }},
	{"term", func(n uint32) item { return term(n) }},
	{"auth", func(n uint32) item { return ref.Auth{UNM: "u", UPSW: "p"} }},
	{"liquid-litres", func(n uint32) item { return ref.Liq{LLSVU: 2, LLSN: byte(n % 8), MADDR: uint16(n), LLSD: 1001 + n} }},
	{"ads-digital-only", func(n uint32) item { return ref.Ads{DIOE: 0xFF, DOUT: 3, ADIO: [8]byte{1, 2, 3, 4, 5, 6, 7, byte(n)}} }},
}

func TestC05(t *testing.T) {
	run(t, func(r *x.R) {
		one := func(h uint64, name string, ms ...Msg) {
			r.Case(h, func() string {
				return name + fmt.Sprintf(": % x", Stream(ms))
			}, func(c *x.C) { converse(c, ms, false, true) })
		}
		batch := func(h uint64, name string, n int, mk func(i int) []TRec) {
			per := 64
			for lo := 0; lo < n; lo += per {
				if !r.Mine() {
					r.Case(0, nil, nil)
					continue
				}
				var ms []Msg
				for i := lo; i < min(lo+per, n); i++ {
					ms = append(ms, DataMsg(fmt.Sprintf("%s[%d]", name, i), uint16(i*31+7), mk(i)...))
				}
				r.Case(x.HI(h, uint64(lo)), func() string { return fmt.Sprintf("%s, values %d to %d", name, lo, lo+per-1) }, func(c *x.C) { converse(c, ms, false, true) })
			}
		}
		rec := func(is ...item) []TRec { return []TRec{{RN: 1, OID: u32(4711), SST: 2, Items: is}} }

		// structure: every sequence of subrecords in one record, and split over two
		depth := 4
		if r.Thorough {
			depth = 5
		}
		x.Seqs(len(subKinds), 1, depth, func(q []int) {
			for split := 0; split < len(q); split++ { // 0: one record
				if !r.Mine() {
					r.Case(0, nil, nil)
					continue
				}
				h := x.HI(1, uint64(split))
				var a, b []item
				for i, k := range q {
					h = x.HI(h, uint64(k))
					it := subKinds[k].mk(uint32(i))
					if split == 0 || i < split {
						a = append(a, it)
					} else {
						b = append(b, it)
					}
				}
				// a counter 110 speaks for the record it is in; what it means across records is not defined
				recs := []TRec{{RN: 1, OID: u32(4711), SST: 2, Items: a}}
				if split > 0 {
					recs = append(recs, TRec{RN: 2, OID: u32(4711), SST: 2, Items: b})
					if split%2 == 0 {
						recs[1].OID = nil
					} else if len(q) == 2 {
						recs[0].OID = nil
					}
				}
				one(h, fmt.Sprintf("subrecords %v split at %d, then a plain position", q, split), DataMsg("mix", 513, recs...), DataMsg("plain", 514, TRec{RN: 7, SST: 2, Items: items(pos(9))}))
			}
		})
		// nothing leaks from one packet into the next: every sequence of three packets
		x.Seqs(len(kinds), 2, 3, func(q []int) {
			if !r.Mine() {
				r.Case(0, nil, nil)
				return
			}
			var ms []Msg
			h := uint64(2)
			for i, k := range q {
				ms = append(ms, kinds[k].mk(uint16(1000+13*i), uint16(i)))
				h = x.HI(h, uint64(k))
			}
			r.Case(h, func() string { return "one connection receives: " + Names(ms) }, func(c *x.C) { converse(c, ms, len(q) == 3, true) })
		})
		// contents that coincide: the same subrecords with equal values, in one record and split
		x.Seqs(len(subKinds), 2, depth, func(q []int) {
			if !r.Mine() {
				r.Case(0, nil, nil)
				return
			}
			h := uint64(3)
			var is []item
			for _, k := range q {
				h = x.HI(h, uint64(k))
				is = append(is, subKinds[k].mk(4))
			}
			m := DataMsg("equal", 513, rec(is...)...)
			sp := DataMsg("equal, split", 514, TRec{RN: 1, OID: u32(4711), SST: 2, Items: is[:1]}, TRec{RN: 1, OID: u32(4711), SST: 2, Items: is[1:]})
			if has110(is[:1]) != has110(is[1:]) || has110(is[:1]) {
				sp = kinds[0].mk(514, 1)
			}
			one(h, fmt.Sprintf("subrecords %v with equal values, then split over two records, then repeated", q), m, sp, m, m)
		})
		// two positions of a packet that differ in any set of fields and agree in the others
		base := pos(3)
		posDiff := func(i int, down bool) ref.Pos {
			p := base
			d := uint32(1)
			if down {
				d = ^uint32(0)
			}
			if i&1 != 0 {
				p.TM += d
			}
			if i&2 != 0 {
				p.Lat += 1000 * d
			}
			if i&4 != 0 {
				p.Lon += 1000 * d
			}
			if i&8 != 0 {
				p.Flags ^= 0x60
			}
			if i&16 != 0 {
				p.Spd += uint16(d)
			}
			if i&32 != 0 {
				p.Dir += byte(d)
			}
			if i&64 != 0 {
				p.Odm += d
			}
			if i&128 != 0 {
				p.Src += 5
			}
			if i&256 != 0 {
				p.Din ^= 0x41
			}
			return p
		}
		batch(40, "positions that differ in some fields", 3*1024, func(i int) []TRec {
			p := posDiff(i&511, i>>9&1 != 0)
			switch i >> 10 {
			case 0:
				return rec(base, p)
			case 1:
				return []TRec{{RN: 1, OID: u32(4711), SST: 2, Items: items(base)}, {RN: 2, OID: u32(4711), SST: 2, Items: items(p)}}
			}
			return rec(base, p, base)
		})
		batch(41, "valid and invalid positions together", 3*256, func(i int) []TRec {
			p := pos(4)
			p.Flags = byte(i)
			switch i >> 8 {
			case 0:
				return rec(base, p)
			case 1:
				return rec(p, base)
			}
			return rec(base, p, pos(5))
		})
		// the same for sensors
		batch(42, "liquid sensors that differ in some fields", 64, func(i int) []TRec {
			l := ref.Liq{LLSEF: 0, LLSVU: 1, LLSN: 2, MADDR: 5, LLSD: 77}
			m := l
			if i&1 != 0 {
				m.LLSEF = 1
			}
			if i&2 != 0 {
				m.LLSVU = 2
			}
			if i&4 != 0 {
				m.LLSN = 3
			}
			if i&8 != 0 {
				m.MADDR = 6
			}
			if i&16 != 0 {
				m.LLSD = 78
			}
			if i&32 != 0 {
				return rec(pos(1), m, l)
			}
			return rec(pos(1), l, m)
		})
		batch(43, "analog sensors with equal numbers or values", 8*8*3, func(i int) []TRec {
			a := ref.Ads{ASFE: byte(1 << (i % 8))}
			for j := range a.ANS {
				a.ANS[j] = 500
			}
			v := []uint32{500, 501, 0}[i/64]
			return rec(a, ref.AbsAn{N: byte(i/8%8 + 1), V: v}, pos(1), ref.AbsAn{N: byte(i/8%8 + 1), V: v}, a)
		})
		// positions: every flag byte, every speed, every direction, every bit of the coordinates and the time
		batch(10, "position flags", 256, func(i int) []TRec {
			p := pos(3)
			p.Flags, p.Alt = byte(i), 0x0F0E0D
			return rec(p)
		})
		batch(11, "speed", 16384, func(i int) []TRec {
			p := pos(3)
			p.Spd, p.ALTS, p.DIRH = uint16(i), byte(i&1), byte(i>>1&1)
			return rec(p)
		})
		batch(12, "direction", 512, func(i int) []TRec {
			p := pos(3)
			p.Dir, p.DIRH = byte(i), byte(i>>8)
			return rec(p)
		})
		v32 := bits32(32)
		batch(13, "latitude and hemisphere", 4*len(v32), func(i int) []TRec {
			p := pos(3)
			p.Lat, p.Flags = v32[i/4], byte(1|i%4<<5)
			return rec(p)
		})
		batch(14, "longitude and hemisphere", 4*len(v32), func(i int) []TRec {
			p := pos(3)
			p.Lon, p.Flags = v32[i/4], byte(1|i%4<<5)
			return rec(p)
		})
		// two positions, each anywhere that matters
		co := []uint32{0, 1, 0x40000000, 0x7FFFFFFF, 0x80000000, 0xC0000000, 0xFD27D27D, 0xFFFFFFFE, 0xFFFFFFFF}
		batch(47, "two positions", 4*4*len(co)*len(co)*4, func(i int) []TRec {
			a, b := pos(1), pos(2)
			a.Flags, b.Flags = byte(1|i&3<<5), byte(1|i>>2&3<<5)
			i >>= 4
			k := i % 4
			i /= 4
			u, v := co[i%len(co)], co[i/len(co)]
			switch k {
			case 0:
				a.Lat, b.Lat = u, v
			case 1:
				a.Lon, b.Lon = u, v
			case 2:
				a.Lat, b.Lon = u, v
			case 3:
				a.Lat, a.Lon, b.Lat, b.Lon = u, v, u, v
			}
			return rec(a, b)
		})
		// pairs of fields of a position
		batch(48, "time, speed, course and coordinates together", 5*6*6*4*4, func(i int) []TRec {
			a := pos(1)
			a.TM = []uint32{0, 1, 300000000, 0x7FFFFFFF, 0xFFFFFFFF}[i%5]
			i /= 5
			a.Spd = []uint16{0, 1, 10, 2000, 9999, 16383}[i%6]
			i /= 6
			a.Lat = co[i%6]
			i /= 6
			a.Lon = co[i%4]
			i /= 4
			a.Flags = []byte{1, 0x61, 0x13, 0x6F}[i]
			return rec(a)
		})
		ends := []uint32{0, 1, 0x9ECD7B51, 0xFFFFFFFF}
		batch(49, "position fields at their ends", 4*4*4*4*4*4*3, func(i int) []TRec {
			d := func(n int) int { v := i % n; i /= n; return v }
			p := pos(3)
			p.TM, p.Lat, p.Lon = ends[d(4)], ends[d(4)], ends[d(4)]
			p.Spd = []uint16{0, 1, 1234, 16383}[d(4)]
			p.Flags = []byte{1, 0x61, 0xFF, 0x9E}[d(4)]
			p.Dir = []byte{0, 1, 90, 127}[d(4)]
			switch d(3) {
			case 1:
				p.Odm, p.Din, p.Src, p.Alt = 0, 0, 0, 0
			case 2:
				p.Odm, p.Din, p.Src, p.Alt = 0xFFFFFF, 0xFF, 0xFF, 0xFFFFFF
			}
			return rec(p)
		})
		batch(15, "latitude, upper half", 65536, func(i int) []TRec {
			p := pos(3)
			p.Lat, p.Lon = uint32(i)<<16|uint32(i), uint32(i)<<16|uint32(65535-i)
			p.Flags = byte(1 | i%4<<5)
			return rec(p)
		})
		batch(16, "time", len(v32), func(i int) []TRec {
			p := pos(3)
			p.TM = v32[i]
			return rec(p)
		})
		// days over the whole range, at changing times of day
		batch(17, "day", 49710, func(i int) []TRec {
			p := pos(3)
			p.TM = uint32(i)*86400 + uint32(i*7919%86400)
			return rec(p)
		})
		batch(18, "other position fields", 65536, func(i int) []TRec {
			p := pos(3)
			p.Odm, p.Din, p.Src, p.Flags, p.Alt = uint32(i)<<8|uint32(i>>8), byte(i), byte(i>>8), 0x81, uint32(i)<<8
			return rec(p)
		})
		// analog and digital sensors
		var dio []int
		for i := 0; i < 256; i++ {
			dio = append(dio, i)
		}
		batch(20, "sensor presence", 256*len(dio), func(i int) []TRec {
			a := ads(1)
			a.ASFE, a.DIOE = byte(i), byte(dio[i>>8])
			return rec(pos(3), a)
		})
		v24 := bits32(24)
		batch(21, "sensor value", 8*len(v24), func(i int) []TRec {
			a := ads(1)
			a.ASFE = 0xFF
			a.ANS[i%8] = v24[i/8]
			return rec(a, pos(3))
		})
		batch(22, "absolute analog sensor", 256*len(v24), func(i int) []TRec {
			return rec(ref.AbsAn{N: byte(i), V: v24[i>>8]}, pos(3))
		})
		// liquid level
		batch(23, "liquid flags", 2*3*8*len(v32), func(i int) []TRec {
			l := ref.Liq{LLSEF: byte(i & 1), LLSN: byte(i >> 1 & 7), MADDR: 0x1234}
			i >>= 4
			l.LLSVU, l.LLSD = byte(i%3), v32[i/3]
			return rec(pos(3), l)
		})
		batch(24, "liquid module", 65536, func(i int) []TRec {
			return rec(pos(3), ref.Liq{LLSVU: byte(i % 3), LLSN: 2, MADDR: uint16(i), LLSD: uint32(i) * 7})
		})
		// packet numbers
		batch(30, "counter number", 256, func(i int) []TRec {
			if i == 111 { // alone, its meaning is not defined
				return rec(pos(3))
			}
			return rec(pos(3), ref.AbsCntr{N: byte(i), V: 0x00C0FFEE})
		})
		batch(46, "counter 110 alone", 3*len(v24), func(i int) []TRec {
			a := ref.AbsCntr{N: 110, V: v24[i/3]}
			switch i % 3 {
			case 0:
				return rec(pos(3), a)
			case 1:
				return rec(a, pos(3))
			}
			return rec(pos(3), a, pos(4))
		})
		batch(31, "counters 110 and 111", 256*len(v24), func(i int) []TRec {
			a, b := ref.AbsCntr{N: 110, V: v24[i>>8]}, ref.AbsCntr{N: 111, V: uint32(byte(i))}
			switch i % 3 {
			case 0:
				return rec(pos(3), a, b)
			case 1:
				return rec(a, b, pos(3))
			}
			return rec(a, pos(3), b)
		})
		// several counters 110 and 111 in a record: the last of each counts
		cs := []item{ref.AbsCntr{N: 110, V: 0xABCD01}, ref.AbsCntr{N: 110, V: 0x123402}, ref.AbsCntr{N: 111, V: 0x43}, ref.AbsCntr{N: 111, V: 0x84}, ref.AbsCntr{N: 109, V: 0x55}, pos(8), ref.AbsCntr{N: 112, V: 0x66}}
		x.Seqs(len(cs), 2, 5, func(q []int) {
			// an 111 needs a 110 before it, and what a 110 after an 111 means is not defined
			seen, low := false, false
			for _, k := range q {
				if k < 2 && low || (k == 2 || k == 3) && !seen {
					return
				}
				seen = seen || k < 2
				low = low || k == 2 || k == 3
			}
			if !r.Mine() {
				r.Case(0, nil, nil)
				return
			}
			h := uint64(44)
			var is []item
			for _, k := range q {
				h = x.HI(h, uint64(k))
				is = append(is, cs[k])
			}
			one(h, fmt.Sprintf("counters %v", is), DataMsg("counters", 513, rec(append(is, pos(2))...)...), kinds[0].mk(514, 1))
		})
		batch(32, "object identifier", len(v32), func(i int) []TRec {
			return []TRec{{RN: 1, OID: u32(v32[i]), EVID: u32(3), TM: u32(4), SST: 2, Items: items(pos(1))}}
		})
		for pid := 0; pid < 65536; pid += 64 {
			if !r.Mine() {
				r.Case(0, nil, nil)
				continue
			}
			var ms []Msg
			for i := 0; i < 64; i++ {
				ms = append(ms, DataMsg("pid", uint16(pid+i), rec(pos(uint32(i)))...))
			}
			r.Case(x.HI(33, uint64(pid)), func() string { return fmt.Sprintf("packet identifiers %d..%d", pid, pid+63) }, func(c *x.C) { converse(c, ms, false, true) })
		}
		// record header: all flag combinations and optional fields
		batch(34, "record flags", 256, func(i int) []TRec {
			t := TRec{RN: 9, SST: 2, Items: items(pos(2)), Flags: ref.Rec{SSOD: byte(i >> 7), RSOD: byte(i >> 6 & 1), GRP: byte(i >> 5 & 1), RPP: byte(i >> 3 & 3)}}
			if i&1 != 0 {
				t.OID = u32(0x01020304)
			}
			if i&2 != 0 {
				t.EVID = u32(0x11121314)
			}
			if i&4 != 0 {
				t.TM = u32(0x21222324)
			}
			return []TRec{t}
		})
		// transport header forms
		for i := 0; i < 256; i++ {
			h := ref.Pkt{PRF: byte(i >> 6), RTE: byte(i >> 5 & 1), ENA: byte(i >> 3 & 3), CMP: byte(i >> 2 & 1), PR: byte(i & 3), SKID: byte(i), HE: byte(255 - i), PRA: 0x0102, RCA: 0x0304, TTL: byte(i)}
			one(x.HI(35, uint64(i)), fmt.Sprintf("header flags %08b", i), DataMsgH("header", h, 700, rec(pos(1))...), kinds[0].mk(5, 5))
		}
		// number of positions in a packet
		var ns []int
		for n := 1; n <= 1000; n++ {
			ns = append(ns, n)
		}
		ns = append(ns, 200, 254, 255, 256, 257, 258, 300, 400, 500, 511, 512, 513, 600, 682, 683, 767, 768, 1000, 1023, 1024, 1025, 1100)
		for _, n := range ns {
			if !r.Mine() {
				r.Case(0, nil, nil)
				continue
			}
			var is []item
			var rs []TRec
			for i := 0; i < n; i++ {
				is = append(is, pos(uint32(i)))
				rs = append(rs, TRec{RN: uint16(i), OID: u32(5), SST: 2, Items: items(pos(uint32(i)), liq(uint32(i)))})
			}
			one(x.HI(36, uint64(n)), fmt.Sprintf("%d positions in one record and %d in as many", n, n), DataMsg("one record", 1, rec(is...)...), DataMsg("many records", 2, rs...))
		}
		// the longest packets, with positions alone and with sensors alone
		for i, n := range []int{1500, 1800, 1871, 2000, 2047, 2048, 2049, 2300, 2339, 2340, 2400, 2500, 3000, 4000, 5000, 6000, 6500, 8000, 9000, 9361} {
			var p, a, l []item
			for k := 0; k < n; k++ {
				p, a, l = append(p, pos(uint32(k))), append(a, ref.AbsAn{N: byte(k), V: uint32(k)}), append(l, liq(uint32(k)))
			}
			var ms []Msg
			if 24*n+7 < 65000 {
				ms = append(ms, DataMsg("positions", 1, rec(p...)...))
			}
			if 7*n < 65000 {
				ms = append(ms, DataMsg("sensors", 2, rec(append(a, pos(1))...)...))
			}
			if 10*n < 65000 {
				ms = append(ms, DataMsg("liquid sensors", 3, rec(append(l, pos(1))...)...))
			}
			one(x.HI(45, uint64(i)), fmt.Sprintf("%d positions or sensors in one record", n), append(ms, kinds[0].mk(4, 4))...)
		}
		// identities: every ASCII byte at the ends and in the middle, blanks and zeros of every extent
		batch(44, "identity texts", 128*4+16*4, func(i int) []TRec {
			b := []byte(imei)
			if i < 512 {
				at := []int{0, 7, 14, 3}[i/128]
				b[at] = byte(i % 128)
			} else {
				i -= 512
				for k := 0; k < i/4 && k < 15; k++ {
					switch i % 4 {
					case 0:
						b[k] = ' '
					case 1:
						b[14-k] = ' '
					case 2:
						b[k] = '0'
					case 3:
						b[14-k] = 0
					}
				}
			}
			return rec(ref.Term{TID: uint32(i), Flags: 2, IMEI: string(b)}, pos(1))
		})
		// terminal identity: all presence flags; the IMEI and the positions of the same packet
		for f := 0; f < 256; f++ {
			one(x.HI(37, uint64(f)), fmt.Sprintf("identity flags %08b with a position", f),
				DataMsg("identity", 1, rec(ref.Term{TID: 1, Flags: byte(f), HDID: 2, IMEI: imei, IMSI: "2500123456789012", LNGC: "rus", NID: [3]byte{1, 2, 3}, BS: 9, MSISDN: "79991234567"}, pos(1))...), kinds[0].mk(3, 3))
		}
		// a packet with positions of two objects (a known finding: one record can name one object only)
		for a := 0; a < 3; a++ {
			for b := 0; b < 3; b++ {
				ia, ib := items(pos(1), liq(1)), items(pos(2))
				if a == 1 {
					ia = items(pos(1), pos(5))
				} else if a == 2 {
					ia = items(ads(1), pos(1))
				}
				if b == 1 {
					ib = items(liq(2), pos(2))
				} else if b == 2 {
					ib = items(pos(2), pos(3), ads(2))
				}
				m := DataMsg("two objects", 77, TRec{RN: 1, OID: u32(10), SST: 2, Items: ia}, TRec{RN: 2, OID: u32(20), SST: 2, Items: ib})
				r.Case(x.HI(38, uint64(a), uint64(b)), func() string { return fmt.Sprintf("positions of objects 10 and 20 in one packet: % x", m.Wire) }, func(c *x.C) { twoObjects(c, m) })
			}
		}
	})
}

func has110(is []item) bool {
	for _, it := range is {
		if c, ok := it.(ref.AbsCntr); ok && c.N == 110 {
			return true
		}
	}
	return false
}

// twoObjects: a packet whose records name different objects must not report one object's positions as
// the other's.
func twoObjects(c *x.C, m Msg) {
	st := &Store{Name: "a"}
	var n int
	var same bool
	res := Exec(ttl, []*Store{st}, func(s *Sim) {
		k := s.Conn()
		k.Send(m.Wire)
		s.Wait()
		sv := s.Saves("a")
		n = len(sv)
		same = n == 1 && checkExport(sv[0].Data, m.Exp, sv[0].At) == ""
	})
	states(c, []Msg{m})
	if len(res.Fatal) > 0 {
		c.Fail("crash", "%s", res.Fatal[0])
	}
	if same {
		c.Fail("two-objects-merged", "one record holds the positions of both objects under the last one's identifier")
	}
	if n != 2 { // one record names one object, whichever
		c.Fail("two-objects", "%d records saved", n)
	}
}
