// Package bases holds one well-formed sample of every kind of packet and subrecord, built by the
// independent wire implementation, as the starting points of mutations.
package bases

import (
	"encoding/hex"

	"verif.local/mc/ref"
)

// NamedSub is a subrecord with a name.
type NamedSub struct {
	Name string
	ref.Sub
}

// NamedPkt is a packet with a name.
type NamedPkt struct {
	Name string
	ref.Pkt
}

// Wire of the packet.
func (p NamedPkt) Wire() []byte { return p.Pkt.Bytes() }

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

// Plus is a StorageRecord in protobuf form.
var Plus = unhex("08fbd403153b465f5c25000000008201040801304f8a01020801")

// Subs are samples of every supported subrecord.
func Subs() []NamedSub {
	p := ref.Pos{TM: 300000000, Lat: 0x9ECD7B51, Lon: 0x35A1C0DE, Flags: 0x1B, Spd: 605, Dir: 77, Odm: 0x010203, Din: 2, Src: 1}
	pa := p
	pa.Flags, pa.Alt = 0xE3, 0x0A0B0C
	ps := p
	ps.SRCD = []byte{7, 9}
	ads := ref.Ads{DIOE: 0xA5, DOUT: 3, ASFE: 0x5A}
	adsf := ref.Ads{DIOE: 0xFF, DOUT: 0x81, ASFE: 0xFF}
	cnt := ref.Cnt{CFE: 0xFF}
	for i := 0; i < 8; i++ {
		ads.ADIO[i], adsf.ADIO[i] = byte(0x10+i), byte(0x80+i)
		ads.ANS[i], adsf.ANS[i] = 0x010203*uint32(i+1), 0x0F1E2D+uint32(i)
		cnt.CN[i] = 0x111111 + uint32(i)*0x10203
	}
	term := ref.Term{TID: 0x01020304, Flags: 0xFF, HDID: 0x0506, IMEI: "353173069480147", IMSI: "2500173069480147", LNGC: "rus", NID: [3]byte{1, 2, 3}, BS: 1024, MSISDN: "79001234567"}
	termI := term
	termI.Flags = 2
	termB := term
	termB.Flags = 0
	return []NamedSub{
		{"pos", p.Sub()}, {"pos+alt", pa.Sub()}, {"pos+srcd", ps.Sub()},
		{"ext-none", ref.Ext{}.Sub()}, {"ext-all", ref.Ext{Flags: 31, VDOP: 100, HDOP: 200, PDOP: 300, SAT: 14, NS: 0x102}.Sub()},
		{"ads-none", ref.Ads{}.Sub()}, {"ads", ads.Sub()}, {"ads-all", adsf.Sub()},
		{"cnt-none", ref.Cnt{}.Sub()}, {"cnt-all", cnt.Sub()},
		{"state", ref.State{ST: 2, MPSV: 120, BBV: 110, IBV: 41, Flags: 5}.Sub()},
		{"state-20", ref.Sub{T: 20, Body: ref.State{ST: 1, MPSV: 121, BBV: 111, IBV: 42, Flags: 2}.Body()}},
		{"absan", ref.AbsAn{N: 7, V: 0x00ABCD}.Sub()},
		{"abscntr-110", ref.AbsCntr{N: 110, V: 0x123456}.Sub()}, {"abscntr-111", ref.AbsCntr{N: 111, V: 0x78}.Sub()}, {"abscntr", ref.AbsCntr{N: 5, V: 0x00FFEE}.Sub()},
		{"liq", ref.Liq{LLSEF: 1, LLSVU: 2, LLSN: 3, MADDR: 9, LLSD: 70001}.Sub()},
		{"liq-raw", ref.Liq{RDF: 1, LLSN: 1, MADDR: 1, LLSD: 0x01020304}.Sub()},
		{"term-all", term.Sub()}, {"term-imei", termI.Sub()}, {"term", termB.Sub()},
		{"auth", ref.Auth{UNM: "user", UPSW: "secret"}.Sub()}, {"auth-ss", ref.Auth{UNM: "u", UPSW: "p", SS: "seq"}.Sub()},
		{"disp", ref.Disp{DT: 1, DID: 0x01020304, DSCR: "disp"}.Sub()}, {"disp-bare", ref.Disp{DT: 0, DID: 7}.Sub()},
		{"recresp", ref.RecResp{CRN: 0x0A0B, RST: 0}.Sub()}, {"rescode", ref.ResCode{RCD: 0}.Sub()},
		{"plus", ref.Sub{T: 15, Body: Plus}},
	}
}

// Pkts are samples of every kind of packet.
func Pkts() []NamedPkt {
	var out []NamedPkt
	subs := Subs()
	by := map[string]ref.Sub{}
	for i, s := range subs {
		by[s.Name] = s.Sub
		out = append(out, NamedPkt{"data/" + s.Name, ref.Appdata(uint16(0x1200+i), ref.Rec{RN: uint16(0x3400 + i), OID: ref.U32(0x05060708), SST: 2, RST: 2, Subs: []ref.Sub{s.Sub}})})
	}
	full := ref.Rec{RN: 5, SSOD: 1, RSOD: 1, GRP: 1, RPP: 3, OID: ref.U32(1), EVID: ref.U32(2), TM: ref.U32(3), SST: 2, RST: 2, Subs: []ref.Sub{by["pos"], by["ext-all"], by["ads"], by["liq"]}}
	bare := ref.Rec{RN: 6, SST: 1, RST: 1, Subs: []ref.Sub{by["term-imei"]}}
	third := ref.Rec{RN: 7, EVID: ref.U32(9), SST: 4, RST: 4, Subs: []ref.Sub{by["pos+alt"], by["abscntr-110"], by["abscntr-111"], by["state"]}}
	none := ref.Rec{RN: 8, OID: ref.U32(1), SST: 2, RST: 2}
	out = append(out, NamedPkt{"data/three records", ref.Appdata(0xFFFE, full, bare, third)})
	out = append(out, NamedPkt{"data/empty record first", ref.Appdata(9, none, full)})
	out = append(out, NamedPkt{"data/empty record only", ref.Appdata(10, none)})
	rt := ref.Appdata(11, bare, third)
	rt.RTE, rt.PRA, rt.RCA, rt.TTL, rt.SKID, rt.PRF, rt.ENA, rt.CMP, rt.PR, rt.HE = 1, 0x0102, 0x0304, 5, 6, 2, 1, 1, 2, 3
	out = append(out, NamedPkt{"data/routed", rt})
	out = append(out, NamedPkt{"data/no body", ref.Appdata(12)})
	rr := ref.Rec{RN: 1, SST: 2, RST: 2, Subs: []ref.Sub{ref.RecResp{CRN: 1}.Sub(), ref.RecResp{CRN: 2, RST: 3}.Sub()}}
	out = append(out, NamedPkt{"response/bare", ref.Response(13, 12, 0)})
	out = append(out, NamedPkt{"response/records", ref.Response(14, 12, 0, rr)})
	r2 := ref.Response(15, 12, 133, rr, bare)
	r2.RTE, r2.PRA, r2.RCA, r2.TTL = 1, 1, 2, 3
	out = append(out, NamedPkt{"response/routed", r2})
	return out
}
