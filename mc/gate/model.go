package gate

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/ElectroUnion/egts-gate/libs/egts"
	"verif.local/mc/ref"
)

// Kind of message, as the model sees it.
type Kind int

const (
	Data    Kind = iota // accepted data packet
	Ignored             // response packet, or data packet that carries confirmations
	Bad                 // answered negatively
	NotEGTS             // closes the connection
)

// Msg is one complete packet with what the gateway must do about it.
type Msg struct {
	Name string
	Wire []byte
	Kind Kind
	PID  uint16
	SST  byte
	RNs  []uint16
	Auth bool
	Exp  *Export
}

// TRec is a service record with typed subrecords.
type TRec struct {
	RN       uint16
	OID      *uint32
	EVID, TM *uint32
	SST      byte
	RST      *byte   // SST when nil
	Flags    ref.Rec // SSOD, RSOD, GRP, RPP are taken from here
	Items    []interface{ Sub() ref.Sub }
}

// Rec is the wire record.
func (t TRec) Rec() ref.Rec {
	r := ref.Rec{RN: t.RN, SSOD: t.Flags.SSOD, RSOD: t.Flags.RSOD, GRP: t.Flags.GRP, RPP: t.Flags.RPP, OID: t.OID, EVID: t.EVID, TM: t.TM, SST: t.SST, RST: t.SST}
	if t.RST != nil {
		r.RST = *t.RST
	}
	for _, i := range t.Items {
		r.Subs = append(r.Subs, i.Sub())
	}
	return r
}

// Loc, An, Liq and Export are the exported record as the documentation defines it.
type Loc struct {
	Lat, Lon float64
	Speed    uint16
	At       time.Time
}
type An struct {
	N byte
	V uint32
}
type Liq struct {
	N     byte
	M     uint16
	Err   string
	Unit  string
	Mm    uint32
	L     float64
	Units byte
}
type Export struct {
	IMEI     string
	ClientID uint32
	PacketID uint32
	Locs     []Loc
	Ans      []An
	Liqs     []Liq
	OIDs     []uint32 // distinct identifiers of the packet's records, in order
}

var epoch = time.Date(2010, 1, 1, 0, 0, 0, 0, time.UTC)

// DataMsg is an accepted data packet with these records, and its meaning.
func DataMsg(name string, pid uint16, recs ...TRec) Msg {
	return DataMsgH(name, ref.Pkt{}, pid, recs...)
}

// DataMsgH is DataMsg with a given header.
func DataMsgH(name string, h ref.Pkt, pid uint16, recs ...TRec) Msg {
	var rr []ref.Rec
	m := Msg{Name: name, PID: pid, Kind: Data}
	e := &Export{PacketID: uint32(pid)}
	for _, t := range recs {
		rr = append(rr, t.Rec())
		m.RNs = append(m.RNs, t.RN)
		m.SST = t.SST
		if t.OID != nil {
			e.ClientID = *t.OID
			if len(e.OIDs) == 0 || e.OIDs[len(e.OIDs)-1] != *t.OID {
				e.OIDs = append(e.OIDs, *t.OID)
			}
		}
		low := uint32(0)
		for _, i := range t.Items {
			switch v := i.(type) {
			case ref.Auth:
				m.Auth = true
			case ref.Term:
				m.Auth = true
				if v.Flags&2 != 0 {
					e.IMEI = v.IMEI
				}
			case ref.RecResp:
				m.Kind = Ignored
			case ref.Pos:
				l := Loc{Lat: float64(v.Lat) * 90 / 0xFFFFFFFF, Lon: float64(v.Lon) * 180 / 0xFFFFFFFF, Speed: v.Spd / 10, At: epoch.Add(time.Duration(v.TM) * time.Second)}
				if v.Flags&0x20 != 0 {
					l.Lat = -l.Lat
				}
				if v.Flags&0x40 != 0 {
					l.Lon = -l.Lon
				}
				e.Locs = append(e.Locs, l)
			case ref.Ads:
				for k := 0; k < 8; k++ {
					if v.ASFE>>k&1 == 1 {
						e.Ans = append(e.Ans, An{byte(k + 1), v.ANS[k] & 0xFFFFFF})
					}
				}
			case ref.AbsAn:
				e.Ans = append(e.Ans, An{v.N, v.V & 0xFFFFFF})
			case ref.AbsCntr:
				switch v.N {
				case 110:
					low = v.V & 0xFFFFFF
					e.PacketID = low
				case 111:
					e.PacketID = low | v.V<<24
				}
			case ref.Liq:
				l := Liq{N: v.LLSN, M: v.MADDR, Err: fmt.Sprint(v.LLSEF), Unit: fmt.Sprintf("%02b", v.LLSVU)}
				switch v.LLSVU {
				case 0, 1:
					l.Mm = v.LLSD
				case 2:
					l.L = float64(v.LLSD) / 10
				}
				e.Liqs = append(e.Liqs, l)
			}
		}
	}
	if len(e.Locs) > 0 && m.Kind == Data {
		m.Exp = e
	}
	p := h
	p.PRV, p.PID, p.PT = 1, pid, ref.PtAppdata
	for _, r := range rr {
		p.Body = append(p.Body, r.Bytes()...)
	}
	m.Wire = p.Bytes()
	return m
}

// BadMsg is a packet the decoder must reject.
func BadMsg(name string, p ref.Pkt) Msg {
	return Msg{Name: name, PID: p.PID, Kind: Bad, Wire: p.Bytes()}
}

// wantCode is the decoder's verdict on a packet.
func wantCode(wire []byte) (byte, error) {
	p := egts.Package{}
	return p.Decode(append([]byte(nil), wire...))
}

// checkReplies compares everything sent on a connection with what the messages call for.
// It returns "" or what is wrong.
func checkReplies(out []byte, msgs []Msg) string {
	rs, rest, err := ref.ParseReplies(out)
	if err != nil {
		return "unparsable reply: " + err.Error()
	}
	if len(rest) > 0 {
		return fmt.Sprintf("incomplete reply % x", rest)
	}
	i := 0
	next := func() *ref.Reply {
		if i < len(rs) {
			i++
			return &rs[i-1]
		}
		return nil
	}
	for k, m := range msgs {
		if m.Kind == Ignored || m.Kind == NotEGTS {
			continue
		}
		r := next()
		if s := checkResponse(r, m); s != "" {
			return fmt.Sprintf("packet %d (%s): %s", k, m.Name, s)
		}
		if m.Kind == Data && m.Auth {
			if s := checkResult(next()); s != "" {
				return fmt.Sprintf("packet %d (%s): %s", k, m.Name, s)
			}
		}
	}
	if i != len(rs) {
		return fmt.Sprintf("%d replies too many, first: %s", len(rs)-i, showReply(rs[i]))
	}
	return ""
}

func checkResponse(r *ref.Reply, m Msg) string {
	if r == nil {
		return "no transport response"
	}
	if r.PT != ref.PtResponse {
		return "want a transport response, got " + showReply(*r)
	}
	if r.RPID != m.PID {
		return fmt.Sprintf("response names packet %d, not %d", r.RPID, m.PID)
	}
	if len(r.Results) > 0 || r.OtherSub > 0 {
		return "response holds other subrecords: " + showReply(*r)
	}
	if m.Kind == Bad {
		if r.PR == 0 {
			return "undecodable packet is answered with result 0"
		}
		if code, err := wantCode(m.Wire); err == nil || code == 0 {
			return fmt.Sprintf("decoder accepts the packet (code %d, err %v)", code, err)
		} else if r.PR != code {
			return fmt.Sprintf("answered with result %d, decoder says %d", r.PR, code)
		}
		if len(r.Recs) > 0 {
			return "undecodable packet is answered with records: " + showReply(*r)
		}
		return ""
	}
	if r.PR != 0 {
		return fmt.Sprintf("accepted packet is answered with result %d", r.PR)
	}
	if len(r.Conf) != len(m.RNs) {
		return fmt.Sprintf("%d confirmations for %d records: %s", len(r.Conf), len(m.RNs), showReply(*r))
	}
	for j, c := range r.Conf {
		if c.RN != m.RNs[j] || c.Status != 0 {
			return fmt.Sprintf("confirmation %d is for record %d with status %d, want record %d, status 0", j, c.RN, c.Status, m.RNs[j])
		}
	}
	for _, rec := range r.Recs {
		if rec.SST != m.SST {
			return fmt.Sprintf("confirmations are in a record of service %d, want %d", rec.SST, m.SST)
		}
	}
	return ""
}

func checkResult(r *ref.Reply) string {
	if r == nil {
		return "no result code packet"
	}
	if r.PT != ref.PtAppdata {
		return "want a result code packet, got " + showReply(*r)
	}
	if len(r.Recs) != 1 || len(r.Results) != 1 || r.Results[0] != 0 || len(r.Conf) > 0 || r.OtherSub > 0 {
		return "result code packet holds " + showReply(*r)
	}
	if r.Recs[0].SST != 1 {
		return fmt.Sprintf("result code is sent in a record of service %d", r.Recs[0].SST)
	}
	return ""
}

func showReply(r ref.Reply) string {
	return fmt.Sprintf("{PT=%d PID=%d RPID=%d PR=%d records=%d confirmations=%v results=%v other=%d}", r.PT, r.PID, r.RPID, r.PR, len(r.Recs), r.Conf, r.Results, r.OtherSub)
}

// jsRecord is the exported JSON object; pointers tell missing keys.
type jsRecord struct {
	ServerID  *string  `json:"server_id"`
	IMEI      *string  `json:"IMEI"`
	ClientID  *uint32  `json:"client_id"`
	Received  *string  `json:"received_dt"`
	PacketID  *uint32  `json:"packet_id"`
	NavTS     *int64   `json:"navigation_unix_time"`
	AnSensors *[]jsAn  `json:"an_sensors"`
	LiqSens   *[]jsLiq `json:"liquid_sensors"`
	Locs      *[]jsLoc `json:"loc_states"`
	LocsN     *int32   `json:"loc_states_count"`
}
type jsAn struct {
	N *byte   `json:"sensor_number"`
	V *uint32 `json:"value"`
}
type jsLiq struct {
	N    *byte    `json:"sensor_number"`
	M    *uint16  `json:"module_number"`
	Err  *string  `json:"error_flag"`
	Unit *string  `json:"value_unit"`
	Mm   *uint32  `json:"value_mm"`
	L    *float64 `json:"value_l"`
}
type jsLoc struct {
	Lat   *float64 `json:"lat"`
	Lon   *float64 `json:"lng"`
	Speed *uint16  `json:"speed"`
	At    *string  `json:"navigation_dt"`
}

// checkExport compares a saved record with what the packet reported. at is when the packet was complete.
func checkExport(js []byte, e *Export, at time.Time) string {
	var r jsRecord
	d := json.NewDecoder(bytes.NewReader(js))
	if err := d.Decode(&r); err != nil {
		return fmt.Sprintf("saved record is not the documented JSON: %v: %s", err, js)
	}
	if r.ClientID == nil || r.PacketID == nil || r.Received == nil || r.NavTS == nil || r.LocsN == nil || r.IMEI == nil || r.Locs == nil {
		return fmt.Sprintf("keys missing: %s", js)
	}
	var bad []string
	ck := func(name string, got, want any) {
		if got != want {
			bad = append(bad, fmt.Sprintf("%s is %v, want %v", name, got, want))
		}
	}
	ck("IMEI", *r.IMEI, e.IMEI)
	ck("client_id", *r.ClientID, e.ClientID)
	ck("packet_id", *r.PacketID, e.PacketID)
	ck("received_dt", *r.Received, at.UTC().Format(time.RFC3339))
	ck("loc_states_count", int(*r.LocsN), len(e.Locs))
	ck("number of loc_states", len(*r.Locs), len(e.Locs))
	if len(*r.Locs) == len(e.Locs) {
		for i, l := range *r.Locs {
			w := e.Locs[i]
			if l.Lat == nil || l.Lon == nil || l.Speed == nil || l.At == nil {
				return fmt.Sprintf("keys missing in loc_states: %s", js)
			}
			if math.Abs(*l.Lat-w.Lat) > 1e-9 || math.Abs(*l.Lon-w.Lon) > 1e-9 {
				bad = append(bad, fmt.Sprintf("position %d is %v,%v, want %v,%v", i, *l.Lat, *l.Lon, w.Lat, w.Lon))
			}
			ck(fmt.Sprintf("speed %d", i), *l.Speed, w.Speed)
			ck(fmt.Sprintf("navigation_dt %d", i), *l.At, w.At.Format(time.RFC3339))
		}
		ck("navigation_unix_time", *r.NavTS, e.Locs[len(e.Locs)-1].At.Unix())
	}
	var ans []jsAn
	if r.AnSensors != nil {
		ans = *r.AnSensors
	}
	ck("number of an_sensors", len(ans), len(e.Ans))
	if len(ans) == len(e.Ans) {
		for i, a := range ans {
			if a.N == nil || a.V == nil {
				return fmt.Sprintf("keys missing in an_sensors: %s", js)
			}
			ck(fmt.Sprintf("an_sensors[%d]", i), An{*a.N, *a.V}, e.Ans[i])
		}
	}
	var liqs []jsLiq
	if r.LiqSens != nil {
		liqs = *r.LiqSens
	}
	ck("number of liquid_sensors", len(liqs), len(e.Liqs))
	if len(liqs) == len(e.Liqs) {
		for i, a := range liqs {
			if a.N == nil || a.M == nil || a.Err == nil || a.Unit == nil || a.Mm == nil || a.L == nil {
				return fmt.Sprintf("keys missing in liquid_sensors: %s", js)
			}
			w := e.Liqs[i]
			got := Liq{N: *a.N, M: *a.M, Err: *a.Err, Unit: *a.Unit, Mm: *a.Mm, L: w.L}
			ck(fmt.Sprintf("liquid_sensors[%d]", i), got, w)
			if math.Abs(*a.L-w.L) > 1e-6 {
				ck(fmt.Sprintf("liquid_sensors[%d].value_l", i), *a.L, w.L)
			}
		}
	}
	if len(bad) > 0 {
		return strings.Join(bad, "; ")
	}
	return ""
}

// Stream joins the wires.
func Stream(ms []Msg) (b []byte) {
	for _, m := range ms {
		b = append(b, m.Wire...)
	}
	return
}

// Names lists message names.
func Names(ms []Msg) string {
	var s []string
	for _, m := range ms {
		s = append(s, m.Name)
	}
	return strings.Join(s, " ")
}
