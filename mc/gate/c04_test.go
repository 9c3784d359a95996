package gate

import (
	"fmt"
	"testing"

	"verif.local/mc/ref"
	"verif.local/mc/x"
)

// messages that ask, or only seem to ask, for a result code
var authKinds = []struct {
	name string
	mk   func(pid, rn uint16) Msg
}{
	{"auth", func(p, n uint16) Msg {
		return DataMsg("auth", p, TRec{RN: n, SST: 1, Items: items(ref.Auth{UNM: "u", UPSW: "p"})})
	}},
	{"auth-sequence", func(p, n uint16) Msg {
		return DataMsg("auth-sequence", p, TRec{RN: n, SST: 1, Items: items(ref.Auth{UNM: "user1", UPSW: "", SS: "seq"})})
	}},
	{"term", func(p, n uint16) Msg { return DataMsg("term", p, TRec{RN: n, SST: 1, Items: items(term(1))}) }},
	{"term-no-imei", func(p, n uint16) Msg {
		return DataMsg("term-no-imei", p, TRec{RN: n, SST: 1, Items: items(ref.Term{TID: 0, Flags: 0x10})})
	}},
	{"auth,auth", func(p, n uint16) Msg {
		return DataMsg("auth,auth", p, TRec{RN: n, SST: 1, Items: items(ref.Auth{UNM: "u", UPSW: "p"}, ref.Auth{UNM: "v", UPSW: "q"})})
	}},
	{"auth;term", func(p, n uint16) Msg {
		return DataMsg("auth;term", p, TRec{RN: n, SST: 1, Items: items(ref.Auth{UNM: "u", UPSW: "p"})}, TRec{RN: n + 1, SST: 1, Items: items(term(2))})
	}},
	{"pos;auth", func(p, n uint16) Msg {
		return DataMsg("pos;auth", p, TRec{RN: n, OID: u32(8), SST: 2, Items: items(pos(1))}, TRec{RN: n + 1, SST: 1, Items: items(ref.Auth{UNM: "u", UPSW: "p"})})
	}},
	{"term;pos", func(p, n uint16) Msg {
		return DataMsg("term;pos", p, TRec{RN: n, SST: 1, Items: items(term(3))}, TRec{RN: n + 1, OID: u32(8), SST: 2, Items: items(pos(1))})
	}},
	{"pos,term,liquid", func(p, n uint16) Msg {
		return DataMsg("pos,term,liquid", p, TRec{RN: n, OID: u32(8), SST: 2, Items: items(pos(1), term(4), liq(1))})
	}},
	{"dispatcher", func(p, n uint16) Msg {
		return DataMsg("dispatcher", p, TRec{RN: n, SST: 1, Items: items(ref.Disp{DT: 1, DID: 77, DSCR: "x"})})
	}},
	{"pos", kinds[0].mk},
	{"response", kinds[6].mk},
	{"result-code", func(p, n uint16) Msg {
		return DataMsg("result-code", p, TRec{RN: n, SST: 1, Items: items(ref.ResCode{RCD: 0})})
	}},
	{"auth+confirmation", func(p, n uint16) Msg {
		return DataMsg("auth+confirmation", p, TRec{RN: n, SST: 1, Items: items(ref.Auth{UNM: "u", UPSW: "p"})}, TRec{RN: n + 1, SST: 1, Items: items(ref.RecResp{CRN: 1})})
	}},
	{"auth-bad-crc", func(p, n uint16) Msg {
		q := ref.Appdata(p, TRec{RN: n, SST: 1, Items: items(ref.Auth{UNM: "u", UPSW: "p"})}.Rec())
		q.CCX = 1
		return BadMsg("auth-bad-crc", q)
	}},
	{"term-then-garbage", func(p, n uint16) Msg {
		q := ref.Appdata(p, TRec{RN: n, SST: 1, Items: items(term(5))}.Rec(), ref.Rec{RN: n + 1, SST: 1, RST: 1, Subs: []ref.Sub{{T: 200, Body: []byte{1}}}})
		return BadMsg("term-then-garbage", q)
	}},
	{"service-1-no-auth", func(p, n uint16) Msg {
		return DataMsg("service-1-no-auth", p, TRec{RN: n, SST: 1, Items: items(liq(1))})
	}},
	{"auth-on-service-2", func(p, n uint16) Msg {
		return DataMsg("auth-on-service-2", p, TRec{RN: n, SST: 2, Items: items(ref.Auth{UNM: "u", UPSW: "p"})})
	}},
}

func TestC04(t *testing.T) {
	run(t, func(r *x.R) {
		depth := 4
		if r.Thorough {
			depth = 5
		}
		x.Seqs(len(authKinds), 1, depth, func(q []int) {
			if !r.Mine() {
				r.Case(0, nil, nil)
				return
			}
			var ms []Msg
			h := uint64(4)
			for i, k := range q {
				ms = append(ms, authKinds[k].mk(uint16(200+11*i), uint16(3*i+1)))
				h = x.HI(h, uint64(k))
			}
			for i, each := range []bool{false, true} {
				if i == 1 {
					break
				}
				r.Case(h, func() string { return "one connection receives: " + Names(ms) }, func(c *x.C) { conversation(c, ms, each || len(q)%2 == 0) })
			}
		})
		// every packet identifier and every record number
		for lo := 0; lo < 65536; lo += 32 {
			r.Case(x.HI(5, uint64(lo)), func() string { return fmt.Sprintf("auth and term packets with identifiers %d..%d", lo, lo+31) }, func(c *x.C) {
				var ms []Msg
				for i := lo; i < lo+32; i++ {
					ms = append(ms, authKinds[i%8].mk(uint16(i), uint16(i)))
				}
				conversation(c, ms, false)
			})
		}
		// every form of a packet that asks for a result code, or does not
		for gi, g := range [][]shape{
			shapes("auth", func() []item { return items(ref.Auth{UNM: "u", UPSW: "p"}) }),
			shapes("term", func() []item { return items(term(3)) }),
			shapes("term and position", func() []item { return items(term(3), pos(3)) }),
			shapes("position", func() []item { return items(pos(3)) }),
			shapes("dispatcher", func() []item { return items(ref.Disp{DT: 1, DID: 77, DSCR: "x"}) }),
			shapes("result code", func() []item { return items(ref.ResCode{RCD: 0}) }),
		} {
			for i, sh := range g {
				for _, other := range []int{-1, 0, 2} {
					r.Case(x.HI(9, uint64(gi), uint64(i), uint64(other+1)), func() string {
						return fmt.Sprintf("%s; preceded and followed by %s", sh.name, authKinds[max(other, 0)].name)
					}, func(c *x.C) {
						ms := []Msg{sh.mk(40, 30)}
						if other >= 0 {
							ms = []Msg{authKinds[other].mk(39, 20), sh.mk(40, 30), kinds[0].mk(41, 50)}
						}
						conversation(c, ms, other == 0)
					})
				}
			}
		}
		// every flag byte of the terminal identity
		for f := 0; f < 256; f++ {
			r.Case(x.HI(6, uint64(f)), func() string { return fmt.Sprintf("terminal identity with flags %08b, then a position", f) }, func(c *x.C) {
				m := DataMsg("term", 9, TRec{RN: 1, SST: 1, Items: items(ref.Term{TID: 5, Flags: byte(f), IMEI: imei, IMSI: "2500123456789012", LNGC: "rus", MSISDN: "79991234567"})})
				conversation(c, []Msg{m, kinds[0].mk(10, 2)}, false)
			})
		}
		// every pair of name and password lengths, with and without the server sequence
		for u := 0; u <= 32; u++ {
			for p := 0; p <= 32; p++ {
				for s := 0; s < 2; s++ {
					a := ref.Auth{UNM: text(u, 'a'), UPSW: text(p, 'A'), SS: text(s*20, '0')}
					r.Case(x.HI(7, uint64(u), uint64(p), uint64(s)), func() string { return fmt.Sprintf("auth %+v", a) }, func(c *x.C) {
						conversation(c, []Msg{DataMsg("auth", 9, TRec{RN: 1, SST: 1, Items: items(a)}), kinds[0].mk(10, 2)}, false)
					})
				}
			}
		}
	})
}

func text(n int, first byte) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = first + byte(i%9)
	}
	return string(b)
}
