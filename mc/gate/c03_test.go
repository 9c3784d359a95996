package gate

import (
	"fmt"
	"testing"
	"time"

	"verif.local/mc/ref"
	"verif.local/mc/x"
)

func run(t *testing.T, body func(r *x.R)) {
	testT = t
	x.Run(t, body)
}

const ttl = 10 * time.Second

func TestC03(t *testing.T) {
	run(t, func(r *x.R) {
		depth := 5
		if r.Thorough {
			depth = 6
		}
		// every sequence of message kinds
		x.Seqs(len(kinds), 1, depth, func(q []int) {
			if !r.Mine() {
				r.Case(0, nil, nil)
				return
			}
			var ms []Msg
			h := uint64(3)
			for i, k := range q {
				ms = append(ms, kinds[k].mk(uint16(100+7*i), uint16(10*i+1)))
				h = x.HI(h, uint64(k))
			}
			desc := func() string { return "one connection receives: " + Names(ms) }
			r.Case(h, desc, func(c *x.C) { conversation(c, ms, len(q)%2 == 1) })
		})
		// every pair of kinds at the ends of the identifier ranges
		ids := []uint16{0, 1, 254, 255, 256, 32767, 32768, 65534, 65535}
		for a := range kinds {
			for b := range kinds {
				for _, pid := range ids {
					for _, rn := range ids {
						ms := []Msg{kinds[a].mk(pid, rn), kinds[b].mk(rn, pid), kinds[a].mk(pid+1, rn)}
						r.Case(x.HI(4, uint64(a), uint64(b), uint64(pid), uint64(rn)), func() string {
							return fmt.Sprintf("packets %s with PIDs %d %d %d, record numbers %d %d %d", Names(ms), pid, rn, pid+1, rn, pid, rn)
						}, func(c *x.C) { conversation(c, ms, false) })
					}
				}
			}
		}
		// every packet identifier and every record number
		step := 64
		for lo := 0; lo < 65536; lo += step {
			r.Case(x.HI(5, uint64(lo)), func() string {
				return fmt.Sprintf("positions with packet identifiers %d..%d and record numbers 65535 minus that", lo, lo+step-1)
			}, func(c *x.C) {
				var ms []Msg
				for i := lo; i < lo+step; i++ {
					ms = append(ms, kinds[(i%2)*9].mk(uint16(i), uint16(65535-i)))
				}
				conversation(c, ms, false)
			})
		}
		// every number of records up to a full packet, with and without positions
		most := 1000
		var counts []int
		for n := 1; n <= most; n++ {
			counts = append(counts, n)
		}
		for _, n := range []int{254, 255, 256, 257, 258, 300, 511, 512, 513, 682, 683, 1000, 1022, 1023, 1024, 1025, 1500, 2000, 2047, 1871, 1872, 2048, 2049, 2340, 3119, 3120} {
			if n > most {
				counts = append(counts, n)
			}
		}
		for n := 2050; n < 3120; n += 10 {
			counts = append(counts, n)
		}
		for _, n := range counts {
			for _, withPos := range []bool{false, true} {
				var recs []TRec
				for i := 0; i < n; i++ {
					q := TRec{RN: uint16(i * 251), OID: u32(55), SST: byte(1 + i%4)}
					if withPos {
						q.Items = append(q.Items, pos(uint32(i)))
					} else {
						q.Items = append(q.Items, liq(uint32(i)))
					}
					recs = append(recs, q)
				}
				if withPos && n > 65535/35 { // does not fit into a packet
					continue
				}
				r.Case(x.HI(6, uint64(n), b2i(withPos)), func() string {
					return fmt.Sprintf("a packet of %d records (positions: %v), then one position", n, withPos)
				}, func(c *x.C) {
					conversation(c, []Msg{DataMsg("many", uint16(n), recs...), kinds[0].mk(9, 9)}, false)
				})
			}
		}
		// every kind of small subrecord in numbers up to what fits into a packet, around one position
		for _, n := range []int{1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4000, 4094, 4095, 4096, 4097, 8000, 8191, 8192, 8193, 10000, 16000, 16363} {
			for k, mk := range []func(i int) item{
				func(i int) item { return ref.ResCode{RCD: byte(i)} },
				func(i int) item { return ref.AbsAn{N: byte(i%200 + 1), V: uint32(i)} },
				func(i int) item { return ref.AbsCntr{N: byte(i % 100), V: uint32(i)} },
				func(i int) item { return ref.State{ST: 1, MPSV: byte(i)} },
				func(i int) item { return ref.Ext{} },
				func(i int) item { return ref.Auth{UNM: "", UPSW: ""} },
				func(i int) item { return ref.Cnt{} },
			} {
				size := len(mk(0).Sub().Bytes())
				for _, last := range []bool{false, true} {
					if n*size > 65535-80 {
						continue
					}
					n, k, mk, last := n, k, mk, last
					r.Case(x.HI(16, uint64(n), uint64(k), b2i(last)), func() string {
						return fmt.Sprintf("a record with a position (last: %v) and %d small subrecords of kind %d, then one position", last, n, k)
					}, func(c *x.C) {
						var is []item
						if !last {
							is = append(is, pos(4))
						}
						for i := 0; i < n; i++ {
							is = append(is, mk(i))
						}
						if last {
							is = append(is, pos(4))
						}
						conversation(c, []Msg{DataMsg("small", uint16(n), TRec{RN: 5, OID: u32(55), SST: 2, Items: is}, TRec{RN: 6, OID: u32(55), SST: 2, Items: items(pos(5))}), kinds[0].mk(9, 9)}, false)
					})
				}
			}
		}
		// every service type
		for a := 0; a < 256; a++ {
			for _, b := range []int{0, 1, 2, 255, a} {
				r.Case(x.HI(7, uint64(a), uint64(b)), func() string { return fmt.Sprintf("records of service types %d, %d", a, b) }, func(c *x.C) {
					conversation(c, []Msg{DataMsg("services", 1, TRec{RN: 1, SST: byte(a), Items: items(pos(1))}, TRec{RN: 2, SST: byte(b), Items: items(liq(1))})}, false)
				})
			}
		}
		// every idle limit: none, the least, and large ones
		for ti, limit := range []time.Duration{0, time.Second, 2 * time.Second, 5 * time.Second, 60 * time.Second, 255 * time.Second, time.Hour, 65536 * time.Second, 1 << 31 * time.Second} {
			x.Seqs(len(kinds), 1, 2, func(q []int) {
				q = append([]int(nil), q...)
				for each := 0; each < 2; each++ {
					r.Case(x.HI(10, uint64(ti), uint64(each), x.HS(fmt.Sprint(q))), func() string {
						return fmt.Sprintf("idle limit %v, packets of kinds %v (each on its own: %d)", limit, q, each)
					}, func(c *x.C) {
						var ms []Msg
						for i, k := range q {
							ms = append(ms, kinds[k].mk(uint16(100+7*i), uint16(10*i+1)))
						}
						converseTTL(c, limit, ms, each == 1, false)
					})
				}
			})
		}
		// every form of a packet, one after another and before others
		for gi, g := range [][]shape{
			shapes("position", func() []item { return items(pos(3)) }),
			shapes("no position", func() []item { return items(liq(3)) }),
		} {
			for i, sh := range g {
				for _, other := range []int{-1, 0, 1, 9} {
					r.Case(x.HI(9, uint64(gi), uint64(i), uint64(other+1)), func() string {
						return fmt.Sprintf("%s; preceded and followed by %s", sh.name, kinds[max(other, 0)].name)
					}, func(c *x.C) {
						ms := []Msg{sh.mk(40, 30)}
						if other >= 0 {
							ms = []Msg{kinds[other].mk(39, 20), sh.mk(40, 30), kinds[other].mk(41, 50), g[(i+1)%len(g)].mk(42, 60)}
						}
						conversation(c, ms, other == 0)
					})
				}
			}
		}
		// long histories on one connection: one kind over and over, two kinds in turns, all in turns
		length := 1500
		if r.Thorough {
			length = 66000
		}
		var cycles [][]int
		var all []int
		for a := range kinds {
			if kinds[a].name == "not-egts" {
				continue
			}
			all = append(all, a)
			cycles = append(cycles, []int{a}, []int{a, (a*5 + 3) % (len(kinds) - 1)})
		}
		for i := range all {
			cycles = append(cycles, append(append([]int(nil), all[i:]...), all[:i]...))
			if !r.Thorough && i > 2 {
				break
			}
		}
		for ci, cyc := range cycles {
			for _, paced := range []bool{false, true} {
				n := length
				if paced {
					n = min(n, 5000)
				}
				r.Case(x.HI(8, uint64(ci), b2i(paced)), func() string {
					return fmt.Sprintf("one connection receives %d packets of kinds %v in turns (each on its own: %v)", n, cyc, paced)
				}, func(c *x.C) {
					var ms []Msg
					for i := 0; i < n; i++ {
						ms = append(ms, kinds[cyc[i%len(cyc)]].mk(uint16(i+1), uint16(3*i)))
					}
					conversation(c, ms, paced)
				})
			}
		}
	})
}
