package codec

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"

	"github.com/ElectroUnion/egts-gate/libs/egts"

	"verif.local/mc/ref"
)

// equal compares two library values of one subrecord type; tol is the tolerance for coordinates in wire units.
func equal(got, want egts.BinaryData, tol float64) string {
	if reflect.TypeOf(got) != reflect.TypeOf(want) {
		return fmt.Sprintf("a %T, want a %T", got, want)
	}
	switch want.(type) {
	case *egts.SrPosData:
		return samePos(got, want, tol)
	case *egts.SrTermIdentity:
		return sameTerm(got, want)
	case *egts.StorageRecord:
		return samePlus(got, want)
	}
	return same(got, want)
}

// sameBody compares the bytes of a subrecord, coordinates up to one unit.
func sameBody(typ byte, got, want []byte) string {
	if bytes.Equal(got, want) {
		return ""
	}
	if typ == 16 && len(got) == len(want) && len(got) >= 12 {
		a, b := append([]byte(nil), got...), want
		for _, o := range []int{4, 8} {
			d := int64(binary.LittleEndian.Uint32(a[o:])) - int64(binary.LittleEndian.Uint32(b[o:]))
			if d >= -1 && d <= 1 {
				copy(a[o:o+4], b[o:o+4])
			}
		}
		if bytes.Equal(a, b) {
			return ""
		}
	}
	return fmt.Sprintf("% x, want % x", clipb(got), clipb(want))
}

func clipb(b []byte) []byte {
	if len(b) > 400 {
		return b[:400]
	}
	return b
}

// rec is a service record: its fields and subrecords.
type rec struct {
	rn            uint16
	flags         byte // SSOD RSOD GRP RPP RPP TMFE EVFE OBFE
	oid, evid, tm uint32
	sst, rst      byte
	subs          []pair
}

func (r rec) ref() ref.Rec {
	o := ref.Rec{RN: r.rn, SSOD: r.flags >> 7, RSOD: r.flags >> 6 & 1, GRP: r.flags >> 5 & 1, RPP: r.flags >> 3 & 3, SST: r.sst, RST: r.rst}
	if r.flags&1 != 0 {
		o.OID = &r.oid
	}
	if r.flags&2 != 0 {
		o.EVID = &r.evid
	}
	if r.flags&4 != 0 {
		o.TM = &r.tm
	}
	for _, s := range r.subs {
		o.Subs = append(o.Subs, ref.Sub{T: s.typ, Body: s.wire})
	}
	return o
}

// want is the record the library writes for it.
func (r rec) want() rec {
	q := r
	q.subs = nil
	for _, s := range r.subs {
		s.wire = s.want
		q.subs = append(q.subs, s)
	}
	return q
}

// lib makes the library's value; filled says whether lengths are filled in, as decoding does.
func (r rec) lib(filled bool) egts.ServiceDataRecord {
	o := egts.ServiceDataRecord{RecordNumber: r.rn, SourceServiceOnDevice: bit(r.flags, 7), RecipientServiceOnDevice: bit(r.flags, 6), Group: bit(r.flags, 5), RecordProcessingPriority: two(r.flags >> 3),
		TimeFieldExists: bit(r.flags, 2), EventIDFieldExists: bit(r.flags, 1), ObjectIDFieldExists: bit(r.flags, 0), SourceServiceType: r.sst, RecipientServiceType: r.rst}
	if r.flags&1 != 0 {
		o.ObjectIdentifier = r.oid
	}
	if r.flags&2 != 0 {
		o.EventIdentifier = r.evid
	}
	if r.flags&4 != 0 {
		o.Time = r.tm
	}
	n := 0
	for _, s := range r.subs {
		d := egts.RecordData{SubrecordType: s.typ, SubrecordData: s.lib}
		if filled {
			d.SubrecordLength = uint16(len(s.wire))
		}
		n += 3 + len(s.wire)
		o.RecordDataSet = append(o.RecordDataSet, d)
	}
	if filled {
		o.RecordLength = uint16(n)
	}
	return o
}

// pkg is a packet: transport fields and records, behind a response header or not.
type pkg struct {
	h    ref.Pkt // without body
	rpid uint16
	pr   byte
	recs []rec
}

func (p pkg) body() (b []byte) {
	if p.h.PT == ref.PtResponse {
		b = append(binary.LittleEndian.AppendUint16(nil, p.rpid), p.pr)
	}
	for _, r := range p.recs {
		b = append(b, r.ref().Bytes()...)
	}
	return
}

func (p pkg) ref() ref.Pkt {
	q := p.h
	q.Body = p.body()
	return q
}

func (p pkg) want() pkg {
	q := p
	q.recs = nil
	for _, r := range p.recs {
		q.recs = append(q.recs, r.want())
	}
	return q
}

func (p pkg) lib(filled bool) *egts.Package {
	f := p.h.PRF<<6 | p.h.RTE<<5 | p.h.ENA<<3 | p.h.CMP<<2 | p.h.PR
	o := &egts.Package{ProtocolVersion: p.h.PRV, SecurityKeyID: p.h.SKID, Prefix: two(f >> 6), Route: bit(f, 5), EncryptionAlg: two(f >> 3), Compression: bit(f, 2), Priority: two(f),
		HeaderEncoding: p.h.HE, PacketIdentifier: p.h.PID, PacketType: p.h.PT}
	if p.h.RTE == 1 {
		o.PeerAddress, o.RecipientAddress, o.TimeToLive = p.h.PRA, p.h.RCA, p.h.TTL
	}
	var sds *egts.ServiceDataSet
	if p.recs != nil {
		sds = &egts.ServiceDataSet{}
		for _, r := range p.recs {
			*sds = append(*sds, r.lib(filled))
		}
	}
	if p.h.PT == ref.PtResponse {
		r := &egts.PtResponse{ResponsePacketID: p.rpid, ProcessingResult: p.pr}
		if sds != nil {
			r.SDR = sds
		}
		o.ServicesFrameData = r
	} else {
		o.ServicesFrameData = sds
	}
	if filled {
		w := p.ref().Bytes()
		hl := 11 + 5*int(p.h.RTE)
		n := len(w) - hl - 2
		o.HeaderLength, o.HeaderCheckSum = byte(hl), ref.CRC8(w[:hl-1])
		o.FrameDataLength, o.ServicesFrameDataCheckSum = uint16(n), ref.CRC16(w[hl:hl+n])
	}
	return o
}

func sameRecs(got, want egts.ServiceDataSet, tol float64, lengths bool) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d records, want %d", len(got), len(want))
	}
	for i := range want {
		a, b := got[i], want[i]
		x, y := a.RecordDataSet, b.RecordDataSet
		a.RecordDataSet, b.RecordDataSet = nil, nil
		if !lengths {
			a.RecordLength, b.RecordLength = 0, 0
		}
		if !reflect.DeepEqual(a, b) {
			return fmt.Sprintf("record %d: %+v, want %+v", i, a, b)
		}
		if len(x) != len(y) {
			return fmt.Sprintf("record %d: %d subrecords, want %d", i, len(x), len(y))
		}
		for j := range y {
			if x[j].SubrecordType != y[j].SubrecordType || lengths && x[j].SubrecordLength != y[j].SubrecordLength {
				return fmt.Sprintf("record %d subrecord %d: type %d length %d, want %d and %d", i, j, x[j].SubrecordType, x[j].SubrecordLength, y[j].SubrecordType, y[j].SubrecordLength)
			}
			if e := equal(x[j].SubrecordData, y[j].SubrecordData, tol); e != "" {
				return fmt.Sprintf("record %d subrecord %d (type %d): %s", i, j, y[j].SubrecordType, e)
			}
		}
	}
	return ""
}

func sds(d egts.BinaryData) (egts.ServiceDataSet, string) {
	switch s := d.(type) {
	case nil:
		return nil, ""
	case *egts.ServiceDataSet:
		if s == nil {
			return nil, ""
		}
		return *s, ""
	}
	return nil, fmt.Sprintf("a %T instead of service records", d)
}

// samePkg compares packets; lengths includes the fields decoding fills in.
func samePkg(got, want *egts.Package, tol float64, lengths bool) string {
	a, b := *got, *want
	x, y := a.ServicesFrameData, b.ServicesFrameData
	a.ServicesFrameData, b.ServicesFrameData = nil, nil
	if !lengths {
		for _, p := range []*egts.Package{&a, &b} {
			p.HeaderLength, p.FrameDataLength, p.HeaderCheckSum, p.ServicesFrameDataCheckSum = 0, 0, 0, 0
		}
	}
	if !reflect.DeepEqual(a, b) {
		return fmt.Sprintf("header %+v, want %+v", a, b)
	}
	if r, ok := y.(*egts.PtResponse); ok {
		g, ok := x.(*egts.PtResponse)
		if !ok {
			return fmt.Sprintf("a %T, want a response", x)
		}
		if g.ResponsePacketID != r.ResponsePacketID || g.ProcessingResult != r.ProcessingResult {
			return fmt.Sprintf("response %d result %d, want %d and %d", g.ResponsePacketID, g.ProcessingResult, r.ResponsePacketID, r.ProcessingResult)
		}
		x, y = g.SDR, r.SDR
	}
	p, e := sds(x)
	if e != "" {
		return e
	}
	q, e := sds(y)
	if e != "" {
		return e
	}
	return sameRecs(p, q, tol, lengths)
}

// sameWire compares whole packets as written, coordinates up to one unit, by the independent parser; both
// must be exactly one well-formed packet.
func sameWire(got, want []byte) string {
	if bytes.Equal(got, want) {
		return ""
	}
	a, n, err := ref.ParsePkt(got)
	if err != nil || n != len(got) {
		return fmt.Sprintf("% x is not one well-formed packet (%v, %d of %d bytes)", clipb(got), err, n, len(got))
	}
	b, _, err := ref.ParsePkt(want)
	if err != nil {
		return "oracle: " + err.Error()
	}
	x, y := a.Body, b.Body
	a.Body, b.Body = nil, nil
	if !reflect.DeepEqual(a, b) {
		return fmt.Sprintf("header % x, want % x", clipb(got), clipb(want))
	}
	if b.PT == ref.PtResponse {
		if len(x) < 3 || !bytes.Equal(x[:3], y[:3]) {
			return fmt.Sprintf("response % x, want % x", clipb(got), clipb(want))
		}
		x, y = x[3:], y[3:]
	}
	return sameRecBytes(x, y)
}

func sameRecBytes(got, want []byte) string {
	if bytes.Equal(got, want) {
		return ""
	}
	p, err := ref.ParseRecs(got)
	if err != nil {
		return fmt.Sprintf("% x is not a set of records: %v", clipb(got), err)
	}
	q, err := ref.ParseRecs(want)
	if err != nil {
		return "oracle: " + err.Error()
	}
	if len(p) == len(q) {
		for i := range p {
			if len(p[i].Subs) != len(q[i].Subs) {
				break
			}
			for j := range p[i].Subs {
				s, t := p[i].Subs[j], q[i].Subs[j]
				if s.T != t.T {
					return fmt.Sprintf("record %d subrecord %d has type %d, want %d", i, j, s.T, t.T)
				}
				if e := sameBody(t.T, s.Body, t.Body); e != "" {
					return fmt.Sprintf("record %d subrecord %d (type %d): %s", i, j, t.T, e)
				}
				p[i].Subs[j] = t
			}
		}
	}
	if !reflect.DeepEqual(p, q) {
		return fmt.Sprintf("% x, want % x", clipb(got), clipb(want))
	}
	return ""
}
