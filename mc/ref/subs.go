package ref

import "encoding/binary"

// Typed subrecord bodies. Each builds its wire body; bits and widths are written out from the standard.

// Pos is EGTS_SR_POS_DATA.
type Pos struct {
	TM       uint32 // seconds since 2010-01-01 00:00:00 UTC
	Lat, Lon uint32 // scaled magnitude
	Flags    byte   // ALTE LOHS LAHS MV BB CS FIX VLD, from bit 7
	Spd      uint16 // 14 bits, 0.1 km/h
	ALTS     byte
	DIRH     byte
	Dir      byte // low 8 bits of direction
	Odm      uint32
	Din, Src byte
	Alt      uint32 // when ALTE
	SRCD     []byte // 0 or 2 bytes
}

// Body bytes.
func (p Pos) Body() []byte {
	b := cat(le(4, uint64(p.TM)), le(4, uint64(p.Lat)), le(4, uint64(p.Lon)), []byte{p.Flags},
		le(2, uint64(p.Spd&0x3FFF|uint16(p.ALTS)<<14|uint16(p.DIRH)<<15)), []byte{p.Dir}, le(3, uint64(p.Odm)), []byte{p.Din, p.Src})
	if p.Flags&0x80 != 0 {
		b = cat(b, le(3, uint64(p.Alt)))
	}
	return cat(b, p.SRCD)
}
func (p Pos) Sub() Sub { return Sub{T: 16, Body: p.Body()} }

// ParsePos reads a body of 21 or 24 bytes (plus 2 bytes of source data).
func ParsePos(b []byte) (p Pos, ok bool) {
	if len(b) < 21 {
		return
	}
	p = Pos{TM: binary.LittleEndian.Uint32(b), Lat: binary.LittleEndian.Uint32(b[4:]), Lon: binary.LittleEndian.Uint32(b[8:]), Flags: b[12]}
	w := binary.LittleEndian.Uint16(b[13:])
	p.Spd, p.ALTS, p.DIRH = w&0x3FFF, byte(w>>14&1), byte(w>>15)
	p.Dir, p.Odm, p.Din, p.Src = b[15], u24(b[16:]), b[19], b[20]
	b = b[21:]
	if p.Flags&0x80 != 0 {
		if len(b) < 3 {
			return p, false
		}
		p.Alt = u24(b)
		b = b[3:]
	}
	if len(b) != 0 && len(b) != 2 {
		return p, false
	}
	p.SRCD = b
	return p, true
}
func u24(b []byte) uint32 { return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 }

// Ext is EGTS_SR_EXT_POS_DATA.
type Ext struct {
	Flags            byte // NSFE SFE PFE HFE VFE from bit 4
	VDOP, HDOP, PDOP uint16
	SAT              byte
	NS               uint16
}

func (e Ext) Body() []byte {
	b := []byte{e.Flags}
	if e.Flags&1 != 0 {
		b = cat(b, le(2, uint64(e.VDOP)))
	}
	if e.Flags&2 != 0 {
		b = cat(b, le(2, uint64(e.HDOP)))
	}
	if e.Flags&4 != 0 {
		b = cat(b, le(2, uint64(e.PDOP)))
	}
	if e.Flags&8 != 0 {
		b = append(b, e.SAT)
	}
	if e.Flags&16 != 0 {
		b = cat(b, le(2, uint64(e.NS)))
	}
	return b
}
func (e Ext) Sub() Sub { return Sub{T: 17, Body: e.Body()} }

// Ads is EGTS_SR_AD_SENSORS_DATA.
type Ads struct {
	DIOE, DOUT, ASFE byte
	ADIO             [8]byte
	ANS              [8]uint32
}

func (a Ads) Body() []byte {
	b := []byte{a.DIOE, a.DOUT, a.ASFE}
	for i := 0; i < 8; i++ {
		if a.DIOE>>i&1 == 1 {
			b = append(b, a.ADIO[i])
		}
	}
	for i := 0; i < 8; i++ {
		if a.ASFE>>i&1 == 1 {
			b = cat(b, le(3, uint64(a.ANS[i])))
		}
	}
	return b
}
func (a Ads) Sub() Sub { return Sub{T: 18, Body: a.Body()} }

// Cnt is EGTS_SR_COUNTERS_DATA.
type Cnt struct {
	CFE byte
	CN  [8]uint32
}

func (c Cnt) Body() []byte {
	b := []byte{c.CFE}
	for i := 0; i < 8; i++ {
		if c.CFE>>i&1 == 1 {
			b = cat(b, le(3, uint64(c.CN[i])))
		}
	}
	return b
}
func (c Cnt) Sub() Sub { return Sub{T: 19, Body: c.Body()} }

// State is EGTS_SR_STATE_DATA.
type State struct {
	ST, MPSV, BBV, IBV byte
	Flags              byte // NMS IBU BBU from bit 2
}

func (s State) Body() []byte { return []byte{s.ST, s.MPSV, s.BBV, s.IBV, s.Flags} }
func (s State) Sub() Sub     { return Sub{T: 21, Body: s.Body()} }

// AbsAn is EGTS_SR_ABS_AN_SENS_DATA, AbsCntr EGTS_SR_ABS_CNTR_DATA.
type AbsAn struct {
	N byte
	V uint32
}

func (a AbsAn) Body() []byte { return cat([]byte{a.N}, le(3, uint64(a.V))) }
func (a AbsAn) Sub() Sub     { return Sub{T: 24, Body: a.Body()} }

type AbsCntr struct {
	N byte
	V uint32
}

func (a AbsCntr) Body() []byte { return cat([]byte{a.N}, le(3, uint64(a.V))) }
func (a AbsCntr) Sub() Sub     { return Sub{T: 25, Body: a.Body()} }

// Liq is EGTS_SR_LIQUID_LEVEL_SENSOR with parsed (not raw) data.
type Liq struct {
	LLSEF byte
	LLSVU byte // 2 bits
	RDF   byte
	LLSN  byte // 3 bits
	MADDR uint16
	LLSD  uint32
}

func (l Liq) Body() []byte {
	return cat([]byte{l.LLSEF<<6 | l.LLSVU<<4 | l.RDF<<3 | l.LLSN}, le(2, uint64(l.MADDR)), le(4, uint64(l.LLSD)))
}
func (l Liq) Sub() Sub { return Sub{T: 27, Body: l.Body()} }

// Term is EGTS_SR_TERM_IDENTITY.
type Term struct {
	TID    uint32
	Flags  byte // MNE BSE NIDE SSRA LNGCE IMSIE IMEIE HDIDE from bit 7
	HDID   uint16
	IMEI   string // 15
	IMSI   string // 16
	LNGC   string // 3
	NID    [3]byte
	BS     uint16
	MSISDN string // 15
}

func pad(s string, n int) []byte {
	b := make([]byte, n)
	copy(b, s)
	return b
}
func (t Term) Body() []byte {
	b := cat(le(4, uint64(t.TID)), []byte{t.Flags})
	if t.Flags&1 != 0 {
		b = cat(b, le(2, uint64(t.HDID)))
	}
	if t.Flags&2 != 0 {
		b = cat(b, pad(t.IMEI, 15))
	}
	if t.Flags&4 != 0 {
		b = cat(b, pad(t.IMSI, 16))
	}
	if t.Flags&8 != 0 {
		b = cat(b, pad(t.LNGC, 3))
	}
	if t.Flags&32 != 0 {
		b = cat(b, t.NID[:])
	}
	if t.Flags&64 != 0 {
		b = cat(b, le(2, uint64(t.BS)))
	}
	if t.Flags&128 != 0 {
		b = cat(b, pad(t.MSISDN, 15))
	}
	return b
}
func (t Term) Sub() Sub { return Sub{T: 1, Body: t.Body()} }

// Auth is EGTS_SR_AUTH_INFO.
type Auth struct{ UNM, UPSW, SS string }

func (a Auth) Body() []byte {
	b := cat([]byte(a.UNM), []byte{0}, []byte(a.UPSW), []byte{0})
	if a.SS != "" {
		b = cat(b, []byte(a.SS), []byte{0})
	}
	return b
}
func (a Auth) Sub() Sub { return Sub{T: 7, Body: a.Body()} }

// Disp is EGTS_SR_DISPATCHER_IDENTITY.
type Disp struct {
	DT   byte
	DID  uint32
	DSCR string
}

func (d Disp) Body() []byte { return cat([]byte{d.DT}, le(4, uint64(d.DID)), []byte(d.DSCR)) }
func (d Disp) Sub() Sub     { return Sub{T: 5, Body: d.Body()} }

// RecResp is EGTS_SR_RECORD_RESPONSE.
type RecResp struct {
	CRN uint16
	RST byte
}

func (r RecResp) Body() []byte { return cat(le(2, uint64(r.CRN)), []byte{r.RST}) }
func (r RecResp) Sub() Sub     { return Sub{T: 0, Body: r.Body()} }

// ResCode is EGTS_SR_RESULT_CODE.
type ResCode struct{ RCD byte }

func (r ResCode) Body() []byte { return []byte{r.RCD} }
func (r ResCode) Sub() Sub     { return Sub{T: 9, Body: r.Body()} }

// MinLen is the smallest body that holds every field the layout requires for these bytes,
// or -1 when the layout does not fix a size (protobuf, raw liquid data) or the type is unknown.
// A body too short to tell needs at least the length up to its own flags.
func MinLen(t byte, b []byte) int {
	bits := func(x byte) (n int) {
		for ; x != 0; x &= x - 1 {
			n++
		}
		return
	}
	switch t {
	case 0:
		return 3
	case 1:
		if len(b) < 5 {
			return 5
		}
		n := 5
		for i, w := range []int{2, 15, 16, 3, 0, 3, 2, 15} {
			if b[4]>>i&1 == 1 {
				n += w
			}
		}
		return n
	case 5:
		return 5
	case 7:
		z := 0
		for _, x := range b {
			if x == 0 {
				z++
			}
		}
		if z < 2 {
			return len(b) + 2 - z
		}
		return 2
	case 9:
		return 1
	case 16:
		if len(b) < 13 || b[12]&0x80 == 0 {
			return 21
		}
		return 24
	case 17:
		if len(b) < 1 {
			return 1
		}
		n := 1
		for i, w := range []int{2, 2, 2, 1, 2} {
			if b[0]>>i&1 == 1 {
				n += w
			}
		}
		return n
	case 18:
		if len(b) < 3 {
			return 3
		}
		return 3 + bits(b[0]) + 3*bits(b[2])
	case 19:
		if len(b) < 1 {
			return 1
		}
		return 1 + 3*bits(b[0])
	case 20, 21:
		return 5
	case 24, 25:
		return 4
	case 27:
		if len(b) > 0 && b[0]&8 != 0 {
			return 3 // the raw data behind has no fixed size
		}
		return 7
	}
	return -1
}

// Known tells the supported subrecord types.
func Known(t byte) bool {
	switch t {
	case 0, 1, 5, 7, 9, 15, 16, 17, 18, 19, 20, 21, 24, 25, 27:
		return true
	}
	return false
}

// WellFormed tells whether a frame body of a packet of type pt is exactly in layout: 1 yes, 0 no,
// -1 it depends on parts this implementation does not model (protobuf, raw liquid data, text).
func WellFormed(pt byte, body []byte) int {
	if pt == PtResponse {
		if len(body) < 3 {
			return 0
		}
		body = body[3:]
	} else if pt != PtAppdata {
		return 0
	}
	recs, err := ParseRecs(body)
	if err != nil {
		return 0
	}
	res := 1
	for _, r := range recs {
		for _, s := range r.Subs {
			if !Known(s.T) {
				return 0
			}
			n, l := MinLen(s.T, s.Body), len(s.Body)
			switch {
			case n < 0:
				res = -1
			case l < n:
				return 0
			case s.T == 27 && l == 3:
				res = -1
			case s.T == 5 || s.T == 16 && l == n+2:
			case s.T == 7:
				// two or three zero-terminated strings
				z := 0
				for _, x := range s.Body {
					if x == 0 {
						z++
					}
				}
				if s.Body[l-1] != 0 || z > 3 || z == 3 && s.Body[l-2] == 0 {
					res = -1
				}
			case s.T == 20 && l != 5:
				return 0
			case l > n:
				res = -1 // trailing bytes
			}
		}
	}
	return res
}

// HeaderOnlyLast tells whether the frame body ends right after the header of a record that claims data.
func HeaderOnlyLast(pt byte, b []byte) bool {
	if pt == PtResponse {
		if len(b) < 3 {
			return false
		}
		b = b[3:]
	}
	for len(b) >= 7 {
		rl := int(b[0]) | int(b[1])<<8
		n := 7
		for _, bit := range []byte{1, 2, 4} {
			if b[4]&bit != 0 {
				n += 4
			}
		}
		if len(b) == n && rl > 0 {
			return true
		}
		if len(b) < n+rl {
			return false
		}
		b = b[n+rl:]
	}
	return false
}

// ProtoWire tells whether b is a sequence of complete protobuf fields.
func ProtoWire(b []byte) bool {
	varint := func() (v uint64, ok bool) {
		for i := 0; i < 10; i++ {
			if len(b) == 0 {
				return 0, false
			}
			x := b[0]
			b = b[1:]
			v |= uint64(x&0x7F) << (7 * i)
			if x < 0x80 {
				return v, true
			}
		}
		return 0, false
	}
	for len(b) > 0 {
		k, ok := varint()
		if !ok {
			return false
		}
		n := uint64(0)
		switch k & 7 {
		case 0:
			if _, ok := varint(); !ok {
				return false
			}
		case 1:
			n = 8
		case 5:
			n = 4
		case 2:
			if n, ok = varint(); !ok {
				return false
			}
		default:
			return false
		}
		if n > uint64(len(b)) {
			return false
		}
		b = b[n:]
	}
	return true
}

// LengthsFit decides only what lengths claim: 0 when the body claims bytes that are not there or holds a
// subrecord shorter than its layout, 1 when every length fits, -1 when it cannot be told.
func LengthsFit(pt byte, body []byte) int {
	if pt == PtResponse {
		if len(body) < 3 {
			return 0
		}
		body = body[3:]
	} else if pt != PtAppdata {
		return -1
	}
	recs, err := ParseRecs(body)
	if err != nil {
		return 0
	}
	for _, r := range recs {
		for _, s := range r.Subs {
			if s.T == 15 && !ProtoWire(s.Body) {
				return 0
			}
			if n := MinLen(s.T, s.Body); n > len(s.Body) {
				return 0
			}
		}
	}
	return 1
}
