package gate

import "verif.local/mc/ref"

// Sample values. Positions differ by their argument, so mixing up packets shows.
func pos(n uint32) ref.Pos {
	return ref.Pos{TM: 300000000 + 61*n, Lat: 0x9ECD7B51 + 7777*n, Lon: 0x35A1C0DE + 9999*n, Flags: byte(1 | 2 | n%4<<5), Spd: uint16(200+37*n) % 16384, Dir: byte(10 + n), Odm: 4000 + n, Din: byte(n), Src: 0}
}

func ads(n uint32) ref.Ads {
	a := ref.Ads{DIOE: 5, DOUT: byte(n), ASFE: byte(0x25 + n)}
	for i := range a.ANS {
		a.ANS[i] = 0x010203*uint32(i+1) + n
	}
	a.ADIO[0], a.ADIO[2] = 0xAA, 0x55
	return a
}

func liq(n uint32) ref.Liq {
	return ref.Liq{LLSEF: byte(n & 1), LLSVU: byte(n % 3), LLSN: byte(n % 8), MADDR: uint16(3 + n), LLSD: 70000 + n}
}

const imei = "353173069480147"

func term(n uint32) ref.Term { return ref.Term{TID: 13552 + n, Flags: 2, IMEI: imei} }

// kinds builds one message of every kind with the given packet and first record number.
var kinds = []struct {
	name string
	mk   func(pid, rn uint16) Msg
}{
	{"pos", func(pid, rn uint16) Msg {
		return DataMsg("pos", pid, TRec{RN: rn, OID: ref.U32(9000 + uint32(pid)), SST: 2, Items: []interface{ Sub() ref.Sub }{pos(uint32(pid))}})
	}},
	{"three", func(pid, rn uint16) Msg {
		n := uint32(pid)
		return DataMsg("three", pid,
			TRec{RN: rn, OID: ref.U32(77 + n), SST: 2, Items: []interface{ Sub() ref.Sub }{pos(n), ads(n)}},
			TRec{RN: rn + 40, EVID: ref.U32(5), TM: ref.U32(1000), SST: 2, Items: []interface{ Sub() ref.Sub }{liq(n), ref.State{ST: 2}}},
			TRec{RN: rn + 3, OID: ref.U32(77 + n), SST: 4, Items: []interface{ Sub() ref.Sub }{pos(n + 1)}})
	}},
	{"auth", func(pid, rn uint16) Msg {
		return DataMsg("auth", pid, TRec{RN: rn, SST: 1, Items: []interface{ Sub() ref.Sub }{ref.Auth{UNM: "user", UPSW: "secret"}}})
	}},
	{"term", func(pid, rn uint16) Msg {
		return DataMsg("term", pid, TRec{RN: rn, OID: ref.U32(uint32(pid)), SST: 1, Items: []interface{ Sub() ref.Sub }{term(uint32(pid))}})
	}},
	{"term+pos", func(pid, rn uint16) Msg {
		return DataMsg("term+pos", pid, TRec{RN: rn, SST: 1, Items: []interface{ Sub() ref.Sub }{term(1)}},
			TRec{RN: rn + 1, OID: ref.U32(31), SST: 2, Items: []interface{ Sub() ref.Sub }{pos(uint32(pid)), ref.AbsCntr{N: 110, V: 0x123456}, ref.AbsCntr{N: 111, V: 0x78}}})
	}},
	{"sensors", func(pid, rn uint16) Msg {
		return DataMsg("sensors", pid, TRec{RN: rn, OID: ref.U32(42), SST: 2, Items: []interface{ Sub() ref.Sub }{ads(3), liq(2), ref.AbsAn{N: 9, V: 70001}}})
	}},
	{"response", func(pid, rn uint16) Msg {
		return Msg{Name: "response", Kind: Ignored, PID: pid, Wire: ref.Response(pid, rn, 0, ref.Rec{RN: 1, SST: 2, RST: 2, Subs: []ref.Sub{ref.RecResp{CRN: rn}.Sub()}}).Bytes()}
	}},
	{"response-empty", func(pid, rn uint16) Msg {
		return Msg{Name: "response-empty", Kind: Ignored, PID: pid, Wire: ref.Response(pid, rn, 133).Bytes()}
	}},
	{"confirmations-in-data", func(pid, rn uint16) Msg {
		return DataMsg("confirmations-in-data", pid, TRec{RN: rn, SST: 2, Items: []interface{ Sub() ref.Sub }{ref.RecResp{CRN: 5}}})
	}},
	{"bad-body-crc", func(pid, rn uint16) Msg {
		p := ref.Appdata(pid, TRec{RN: rn, OID: ref.U32(6), SST: 2, Items: []interface{ Sub() ref.Sub }{pos(6)}}.Rec())
		p.CCX = 0x0100
		return BadMsg("bad-body-crc", p)
	}},
	{"bad-header-crc", func(pid, rn uint16) Msg {
		p := ref.Appdata(pid, TRec{RN: rn, OID: ref.U32(7), SST: 2, Items: []interface{ Sub() ref.Sub }{pos(7)}}.Rec())
		p.HCX = 0x01
		return BadMsg("bad-header-crc", p)
	}},
	{"unknown-type", func(pid, rn uint16) Msg {
		p := ref.Appdata(pid, TRec{RN: rn, OID: ref.U32(8), SST: 2, Items: []interface{ Sub() ref.Sub }{pos(8)}}.Rec())
		p.PT = 2
		return BadMsg("unknown-type", p)
	}},
	{"bad-second-record", func(pid, rn uint16) Msg {
		good := TRec{RN: rn, OID: ref.U32(9), SST: 2, Items: []interface{ Sub() ref.Sub }{pos(9), term(9)}}.Rec()
		bad := TRec{RN: rn + 1, OID: ref.U32(9), SST: 2, Items: []interface{ Sub() ref.Sub }{pos(10)}}.Rec()
		bad.Subs = append(bad.Subs, ref.Sub{T: 99, Body: []byte{1, 2}})
		return BadMsg("bad-second-record", ref.Appdata(pid, good, bad))
	}},
	{"empty-body", func(pid, rn uint16) Msg {
		return BadMsg("empty-body", ref.Appdata(pid))
	}},
	{"not-egts", func(pid, rn uint16) Msg {
		p := ref.Appdata(pid, TRec{RN: rn, SST: 2, Items: []interface{ Sub() ref.Sub }{pos(1)}}.Rec())
		p.PRV = 2
		return Msg{Name: "not-egts", Kind: NotEGTS, PID: pid, Wire: p.Bytes()}
	}},
}

func u32(v uint32) *uint32 { return &v }
func b2i(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

type item = interface{ Sub() ref.Sub }

func items(is ...item) []item { return is }
