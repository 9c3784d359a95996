package codec

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"testing"
	"time"

	"github.com/ElectroUnion/egts-gate/libs/egts"

	"verif.local/mc/bases"
	"verif.local/mc/ref"
	"verif.local/mc/x"
)

func dispOf(b []byte) egts.BinaryData {
	return &egts.SrDispatcherIdentity{DispatcherType: b[0], DispatcherID: binary.LittleEndian.Uint32(b[1:]), Description: string(b[5:])}
}

func zero(typ byte) egts.BinaryData {
	if typ == 15 {
		return &egts.StorageRecord{}
	}
	for _, l := range layouts() {
		if l.typ == typ {
			return l.zero()
		}
	}
	panic("type")
}

var zeros = map[byte]func() egts.BinaryData{}

func init() {
	for _, l := range layouts() {
		zeros[l.typ] = l.zero
	}
	zeros[15] = func() egts.BinaryData { return &egts.StorageRecord{} }
}

func TestC10(t *testing.T) {
	x.Run(t, func(r *x.R) {
		published(r)
		enumSubs(r, func(c *x.C, p pair) {
			d := zeros[p.typ]()
			if err := d.Decode(append([]byte(nil), p.wire...)); err != nil {
				c.Fail("decode", "%s: decoding % x fails: %v", p.name(), clipb(p.wire), err)
			}
			if e := equal(d, p.lib, 0.001); e != "" {
				c.Fail("decode", "%s: % x decodes to %s", p.name(), clipb(p.wire), e)
			}
			b, err := p.lib.Encode()
			if err != nil {
				c.Fail("encode", "%s: encoding %+v fails: %v", p.name(), p.lib, err)
			}
			if e := sameBody(p.typ, b, p.want); e != "" {
				c.Fail("encode", "%s: %+v encodes to %s", p.name(), p.lib, e)
			}
		})
		enumPkgs(r, func(c *x.C, p pkg, name func() string) {
			w := p.ref().Bytes()
			var g egts.Package
			code, err := g.Decode(append([]byte(nil), w...))
			if err != nil || code != 0 {
				c.Fail("decode packet", "%s: decoding % x fails with %d: %v", name(), clipb(w), code, err)
			}
			if e := samePkg(&g, p.lib(true), 0.001, true); e != "" {
				c.Fail("decode packet", "%s: % x decodes to %s", name(), clipb(w), e)
			}
			l := p.lib(false)
			b, err := l.Encode()
			if err != nil {
				c.Fail("encode packet", "%s: encoding fails: %v", name(), err)
			}
			if e := sameWire(b, p.want().ref().Bytes()); e != "" {
				c.Fail("encode packet", "%s: encodes to %s", name(), e)
			}
		})
	})
}

// published are packets of the standard's and the protocol documents' examples and of real devices, with
// what they mean; they tie the independent layout to the world outside.
func published(r *x.R) {
	for _, h := range []string{
		"0100030b002300" + "8a000149" + "18006100" + "99b0090200" + "0202" + "101500" + "d53f0110" + "6f1c059e" + "7ab53c35" + "01d087" + "2c" + "010000" + "0000" + "cc27",
	} {
		r.Case(x.HS(h), func() string { return "captured packet " + h }, func(c *x.C) {
			w, _ := hex.DecodeString(h)
			p, n, err := ref.ParsePkt(w)
			if err != nil || n != len(w) {
				c.Fail("oracle", "%v", err)
			}
			recs, err := ref.ParseRecs(p.Body)
			if err != nil || len(recs) != 1 || len(recs[0].Subs) != 1 {
				c.Fail("oracle", "%v", err)
			}
			v, ok := ref.ParsePos(recs[0].Subs[0].Body)
			// 2018-07-05 20:08:53 UTC, 55.5538940 N 37.4323670 E, 200 km/h, 300 degrees
			if !ok || v.TM != uint32(time.Date(2018, 7, 5, 20, 8, 53, 0, time.UTC).Unix()-epoch.Unix()) || v.Spd != 2000 || v.DIRH != 1 || v.Dir != 44 || *recs[0].OID != 133552 ||
				!near(float64(v.Lat)*90/0xFFFFFFFF, 55.55389399769574, 90, 1) || !near(float64(v.Lon)*180/0xFFFFFFFF, 37.43236696287812, 180, 1) {
				c.Fail("oracle", "%+v", v)
			}
			if e := sameWire(p.Bytes(), w); e != "" {
				c.Fail("oracle", "%s", e)
			}
		})
	}
	// the checksum parameters of Order No. 285: CRC-8 0x31/0xFF over "123456789" is 0xF7, CRC-16 0x1021/0xFFFF is 0x29B1
	r.Case(1, func() string { return "check values of the checksums" }, func(c *x.C) {
		if v := ref.CRC8([]byte("123456789")); v != 0xF7 {
			c.Fail("oracle", "CRC-8 %x", v)
		}
		if v := ref.CRC16([]byte("123456789")); v != 0x29B1 {
			c.Fail("oracle", "CRC-16 %x", v)
		}
	})
}

func TestC09(t *testing.T) {
	x.Run(t, func(r *x.R) {
		enumSubs(r, func(c *x.C, p pair) {
			// from the wire
			d := zeros[p.typ]()
			if err := d.Decode(append([]byte(nil), p.wire...)); err != nil {
				c.Fail("decode", "%s: decoding % x fails: %v", p.name(), clipb(p.wire), err)
			}
			b, err := d.Encode()
			if err != nil {
				c.Fail("reencode", "%s: encoding what % x decodes to fails: %v", p.name(), clipb(p.wire), err)
			}
			if e := sameBody(p.typ, b, p.want); e != "" {
				c.Fail("reencode", "%s: % x decodes and encodes to %s", p.name(), clipb(p.wire), e)
			}
			// from the value
			b, err = p.lib.Encode()
			if err != nil {
				c.Fail("encode", "%s: encoding %+v fails: %v", p.name(), p.lib, err)
			}
			d = zeros[p.typ]()
			if err = d.Decode(b); err != nil {
				c.Fail("redecode", "%s: decoding % x, the encoding of %+v, fails: %v", p.name(), clipb(b), p.lib, err)
			}
			if e := equal(d, p.lib, 1.001); e != "" {
				c.Fail("redecode", "%s: encodes and decodes to %s", p.name(), e)
			}
		})
		enumPkgs(r, func(c *x.C, p pkg, name func() string) {
			w := p.ref().Bytes()
			var g egts.Package
			if code, err := g.Decode(append([]byte(nil), w...)); err != nil {
				c.Fail("decode packet", "%s: decoding % x fails with %d: %v", name(), clipb(w), code, err)
			}
			b, err := g.Encode()
			if err != nil {
				c.Fail("reencode packet", "%s: encoding what % x decodes to fails: %v", name(), clipb(w), err)
			}
			if e := sameWire(b, p.want().ref().Bytes()); e != "" {
				c.Fail("reencode packet", "%s: decodes and encodes to %s", name(), e)
			}
			l := p.lib(false)
			if b, err = l.Encode(); err != nil {
				c.Fail("encode packet", "%s: encoding fails: %v", name(), err)
			}
			var h egts.Package
			if code, err := h.Decode(b); err != nil {
				c.Fail("redecode packet", "%s: decoding the encoding % x fails with %d: %v", name(), clipb(b), code, err)
			}
			if e := samePkg(&h, l, 1.001, false); e != "" {
				c.Fail("redecode packet", "%s: encodes and decodes to %s", name(), e)
			}
		})
		// details of the wire the library has no place for: known findings when they corrupt the packet
		for _, s := range bases.Subs() {
			key := ""
			var mk func(n int) ref.Sub
			switch s.Name {
			case "pos+srcd":
				key = "position-source-data"
				mk = func(n int) ref.Sub {
					return ref.Sub{T: 16, Body: append(append([]byte(nil), s.Body[:21]...), byte(n), byte(n>>8))}
				}
			case "liq-raw":
				key = "raw-liquid-data"
				mk = func(n int) ref.Sub {
					b := append([]byte(nil), s.Body[:3]...)
					for i := 0; i < n%513; i++ {
						b = append(b, byte(i+n))
					}
					return ref.Sub{T: 27, Body: b}
				}
			default:
				continue
			}
			r.Case(x.HS(key), func() string { return s.Name }, func(c *x.C) {
				for n := 0; n < 1026; n++ {
					sub := mk(n)
					if sub.T == 27 && len(sub.Body) == 7 {
						continue
					}
					c.Step(1)
					w := ref.Appdata(9, ref.Rec{RN: 1, OID: ref.U32(5), SST: 2, RST: 2, Subs: []ref.Sub{sub, {T: 9, Body: []byte{1}}}}).Bytes()
					var g egts.Package
					code, err := g.Decode(append([]byte(nil), w...))
					if err != nil {
						k := key
						if len(sub.Body) != 3 {
							k += "-other"
						}
						c.Note(k, "% x is refused with %d: %v", clipb(w), code, err)
						continue
					}
					b, err := g.Encode()
					if err != nil {
						c.Note(key+"-other", "encoding what % x decodes to fails: %v", clipb(w), err)
						continue
					}
					e := sameWire(b, w)
					if e == "" {
						continue
					}
					// what is known to go wrong: the data behind is dropped (or filled up) and the lengths stay
					k := key
					if !bytes.Equal(b, stale(sub)) {
						k += "-other"
					}
					c.Note(k, "% x decodes and encodes to %s", clipb(w), e)
				}
			})
		}
	})
}

// stale is the packet with sub when the data the library does not keep is dropped, or filled up with zeros,
// but the lengths of the record and the subrecord are left.
func stale(sub ref.Sub) []byte {
	kept := append(append([]byte(nil), sub.Body...), make([]byte, 4)...)
	if sub.T == 27 {
		kept = kept[:7]
	} else {
		q, _ := ref.ParsePos(sub.Body)
		q.SRCD, q.Spd = nil, q.Spd/10*10
		kept = q.Body()
	}
	d := len(sub.Body) - len(kept)
	return ref.Appdata(9, ref.Rec{RN: 1, OID: ref.U32(5), SST: 2, RST: 2, LenD: d, Subs: []ref.Sub{{T: sub.T, Body: kept, LenD: d}, {T: 9, Body: []byte{1}}}}).Bytes()
}
