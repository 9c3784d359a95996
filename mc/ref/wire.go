// Package ref is an implementation of the EGTS wire format (GOST R 54619-2011, Order No. 285)
// written independently of the library under test. It knows nothing of libs/egts.
package ref

import (
	"encoding/binary"
	"errors"
	"fmt"
)

// CRC8 is the header checksum: polynomial 0x31, initial value 0xFF, MSB first.
func CRC8(b []byte) byte {
	c := byte(0xFF)
	for _, x := range b {
		c = crc8tab[c^x]
	}
	return c
}

// CRC16 is the body checksum: polynomial 0x1021, initial value 0xFFFF, MSB first.
func CRC16(b []byte) uint16 {
	c := uint16(0xFFFF)
	for _, x := range b {
		c = c<<8 ^ crc16tab[byte(c>>8)^x]
	}
	return c
}

var crc8tab [256]byte
var crc16tab [256]uint16

func init() {
	for i := 0; i < 256; i++ {
		c8, c16 := byte(i), uint16(i)<<8
		for k := 0; k < 8; k++ {
			hi8, hi16 := c8>>7 == 1, c16>>15 == 1
			c8 <<= 1
			c16 <<= 1
			if hi8 {
				c8 ^= 0x31
			}
			if hi16 {
				c16 ^= 0x1021
			}
		}
		crc8tab[i], crc16tab[i] = c8, c16
	}
}

func le(n int, v uint64) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v >> (8 * i))
	}
	return b
}
func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

// Sub is one raw subrecord.
type Sub struct {
	T    byte
	Body []byte
	LenD int // added to the written SRL (0 in well-formed packets)
}

// Bytes of the subrecord.
func (s Sub) Bytes() []byte { return cat([]byte{s.T}, le(2, uint64(len(s.Body)+s.LenD)), s.Body) }

// Rec is one service data record.
type Rec struct {
	RN       uint16
	SSOD     byte
	RSOD     byte
	GRP      byte
	RPP      byte
	OID      *uint32
	EVID     *uint32
	TM       *uint32
	SST, RST byte
	Subs     []Sub
	LenD     int // added to the written RL
}

// U32 gives a pointer to v.
func U32(v uint32) *uint32 { return &v }

// Bytes of the record.
func (r Rec) Bytes() []byte {
	var rd []byte
	for _, s := range r.Subs {
		rd = append(rd, s.Bytes()...)
	}
	f := r.SSOD<<7 | r.RSOD<<6 | r.GRP<<5 | r.RPP<<3
	var opt []byte
	if r.OID != nil {
		f |= 1
		opt = append(opt, le(4, uint64(*r.OID))...)
	}
	if r.EVID != nil {
		f |= 2
		opt = append(opt, le(4, uint64(*r.EVID))...)
	}
	if r.TM != nil {
		f |= 4
		opt = append(opt, le(4, uint64(*r.TM))...)
	}
	return cat(le(2, uint64(len(rd)+r.LenD)), le(2, uint64(r.RN)), []byte{f}, opt, []byte{r.SST, r.RST}, rd)
}

// Packet types.
const (
	PtResponse = 0
	PtAppdata  = 1
)

// Pkt is one transport packet.
type Pkt struct {
	PRV, SKID byte
	PRF       byte // 2 bits
	RTE       byte // 1 bit
	ENA       byte // 2 bits
	CMP       byte // 1 bit
	PR        byte // 2 bits
	HE        byte
	PID       uint16
	PT        byte
	PRA, RCA  uint16
	TTL       byte
	Body      []byte // frame data, without its checksum

	HLD  int    // added to the written HL
	FDLD int    // added to the written FDL
	HCX  byte   // xored into the header checksum
	CCX  uint16 // xored into the body checksum
}

// Header bytes including checksum.
func (p Pkt) Header() []byte {
	hl := 11
	if p.RTE == 1 {
		hl = 16
	}
	h := cat([]byte{p.PRV, p.SKID, p.PRF<<6 | p.RTE<<5 | p.ENA<<3 | p.CMP<<2 | p.PR, byte(hl + p.HLD), p.HE},
		le(2, uint64(len(p.Body)+p.FDLD)), le(2, uint64(p.PID)), []byte{p.PT})
	if p.RTE == 1 {
		h = cat(h, le(2, uint64(p.PRA)), le(2, uint64(p.RCA)), []byte{p.TTL})
	}
	return append(h, CRC8(h)^p.HCX)
}

// Bytes of the whole packet.
func (p Pkt) Bytes() []byte {
	h := p.Header()
	if len(p.Body) == 0 {
		return h
	}
	return cat(h, p.Body, le(2, uint64(CRC16(p.Body)^p.CCX)))
}

// Appdata makes a well-formed data packet.
func Appdata(pid uint16, recs ...Rec) Pkt {
	p := Pkt{PRV: 1, PID: pid, PT: PtAppdata}
	for _, r := range recs {
		p.Body = append(p.Body, r.Bytes()...)
	}
	return p
}

// Response makes a well-formed response packet.
func Response(pid, rpid uint16, pr byte, recs ...Rec) Pkt {
	p := Pkt{PRV: 1, PID: pid, PT: PtResponse, Body: cat(le(2, uint64(rpid)), []byte{pr})}
	for _, r := range recs {
		p.Body = append(p.Body, r.Bytes()...)
	}
	return p
}

// ErrShort means the bytes end before the packet does.
var ErrShort = errors.New("incomplete packet")

// ParsePkt strictly parses one packet from the front of b and returns its size.
func ParsePkt(b []byte) (p Pkt, n int, err error) {
	if len(b) < 10 {
		return p, 0, ErrShort
	}
	p.PRV, p.SKID = b[0], b[1]
	f := b[2]
	p.PRF, p.RTE, p.ENA, p.CMP, p.PR = f>>6, f>>5&1, f>>3&3, f>>2&1, f&3
	p.HE = b[4]
	hl := 11 + 5*int(p.RTE)
	if int(b[3]) != hl {
		return p, 0, fmt.Errorf("header length %d, want %d", b[3], hl)
	}
	fdl := int(binary.LittleEndian.Uint16(b[5:]))
	p.PID = binary.LittleEndian.Uint16(b[7:])
	p.PT = b[9]
	n = hl
	if fdl > 0 {
		n += fdl + 2
	}
	if len(b) < n {
		return p, 0, ErrShort
	}
	if p.RTE == 1 {
		p.PRA, p.RCA, p.TTL = binary.LittleEndian.Uint16(b[10:]), binary.LittleEndian.Uint16(b[12:]), b[14]
	}
	if b[hl-1] != CRC8(b[:hl-1]) {
		return p, 0, errors.New("header checksum")
	}
	if fdl > 0 {
		p.Body = append([]byte(nil), b[hl:hl+fdl]...)
		if binary.LittleEndian.Uint16(b[hl+fdl:]) != CRC16(p.Body) {
			return p, 0, errors.New("body checksum")
		}
	}
	return p, n, nil
}

// ParseRecs strictly parses service data records.
func ParseRecs(b []byte) ([]Rec, error) {
	var rs []Rec
	for len(b) > 0 {
		if len(b) < 7 {
			return nil, errors.New("short record header")
		}
		rl := int(binary.LittleEndian.Uint16(b))
		r := Rec{RN: binary.LittleEndian.Uint16(b[2:])}
		f := b[4]
		r.SSOD, r.RSOD, r.GRP, r.RPP = f>>7, f>>6&1, f>>5&1, f>>3&3
		b = b[5:]
		opt := func(bit byte) *uint32 {
			if f&bit == 0 {
				return nil
			}
			if len(b) < 4 {
				b = nil
				return nil
			}
			v := binary.LittleEndian.Uint32(b)
			b = b[4:]
			return &v
		}
		r.OID = opt(1)
		r.EVID = opt(2)
		r.TM = opt(4)
		if len(b) < 2+rl {
			return nil, errors.New("record longer than data")
		}
		r.SST, r.RST = b[0], b[1]
		d := b[2 : 2+rl]
		b = b[2+rl:]
		for len(d) > 0 {
			if len(d) < 3 {
				return nil, errors.New("short subrecord header")
			}
			sl := int(binary.LittleEndian.Uint16(d[1:]))
			if len(d) < 3+sl {
				return nil, errors.New("subrecord longer than record")
			}
			r.Subs = append(r.Subs, Sub{T: d[0], Body: append([]byte(nil), d[3:3+sl]...)})
			d = d[3+sl:]
		}
		rs = append(rs, r)
	}
	return rs, nil
}

// Reply is the meaning of one packet sent by the gateway.
type Reply struct {
	PT       byte
	PID      uint16
	RPID     uint16 // response packets
	PR       byte
	Recs     []Rec
	Conf     []Conf // record confirmations, in order, over all records
	Results  []byte // result codes, in order
	OtherSub int    // subrecords of any other kind
}

// Conf is one record confirmation.
type Conf struct {
	RN     uint16
	Status byte
}

// ParseReplies parses everything the gateway sent on a connection. rest holds an incomplete tail.
func ParseReplies(b []byte) (out []Reply, rest []byte, err error) {
	for len(b) > 0 {
		p, n, err := ParsePkt(b)
		if err == ErrShort {
			return out, b, nil
		}
		if err != nil {
			return out, b, fmt.Errorf("reply %d: %v (% x)", len(out), err, b)
		}
		b = b[n:]
		if p.PRV != 1 {
			return out, b, fmt.Errorf("reply %d: protocol version %d", len(out), p.PRV)
		}
		r := Reply{PT: p.PT, PID: p.PID}
		body := p.Body
		if p.PT == PtResponse {
			if len(body) < 3 {
				return out, b, fmt.Errorf("reply %d: response body % x", len(out), body)
			}
			r.RPID = binary.LittleEndian.Uint16(body)
			r.PR = body[2]
			body = body[3:]
		} else if p.PT != PtAppdata {
			return out, b, fmt.Errorf("reply %d: packet type %d", len(out), p.PT)
		}
		if r.Recs, err = ParseRecs(body); err != nil {
			return out, b, fmt.Errorf("reply %d: %v (% x)", len(out), err, body)
		}
		for _, rec := range r.Recs {
			for _, s := range rec.Subs {
				switch {
				case s.T == 0 && len(s.Body) == 3:
					r.Conf = append(r.Conf, Conf{binary.LittleEndian.Uint16(s.Body), s.Body[2]})
				case s.T == 9 && len(s.Body) == 1:
					r.Results = append(r.Results, s.Body[0])
				default:
					r.OtherSub++
				}
			}
		}
		out = append(out, r)
	}
	return out, nil, nil
}
