package codec

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/ElectroUnion/egts-gate/libs/egts"

	"verif.local/mc/ref"
	"verif.local/mc/x"
)

// alien is content no subrecord type stands for.
type alien struct{}

func (alien) Decode([]byte) error     { return nil }
func (alien) Encode() ([]byte, error) { return []byte{1}, nil }
func (alien) Length() uint16          { return 1 }

// clone copies what is behind the pointers of a library value.
func clone(d egts.BinaryData) egts.BinaryData {
	if d == nil || reflect.ValueOf(d).Kind() != reflect.Ptr || reflect.ValueOf(d).IsNil() {
		return d
	}
	v := reflect.New(reflect.TypeOf(d).Elem())
	v.Elem().Set(reflect.ValueOf(d).Elem())
	if t, ok := v.Interface().(*egts.SrTermIdentity); ok && t.NetworkIdentifier != nil {
		t.NetworkIdentifier = append([]byte{}, t.NetworkIdentifier...)
	}
	return v.Interface().(egts.BinaryData)
}

// twice encodes d repeatedly, with other encodings in between, and compares the bytes, the reported length
// and the value before and after.
func twice(c *x.C, name func() string, d egts.BinaryData, between func()) []byte {
	before := clone(d)
	n0 := d.Length()
	a, err := d.Encode()
	if err != nil {
		c.Fail("encode", "%s: encoding fails: %v", name(), err)
	}
	a0 := append([]byte(nil), a...)
	if between != nil {
		between()
	}
	b, err := d.Encode()
	if err != nil {
		c.Fail("repeat", "%s: encoding again fails: %v", name(), err)
	}
	if !bytes.Equal(a0, b) {
		c.Fail("repeat", "%s: encodes to % x and then to % x", name(), clipb(a0), clipb(b))
	}
	if between != nil {
		between()
	}
	if !bytes.Equal(a0, a) {
		c.Fail("repeat", "%s: the bytes of an encoding change later from % x to % x", name(), clipb(a0), clipb(a))
	}
	if n := d.Length(); int(n) != len(a0) || int(n0) != len(a0) {
		c.Fail("length", "%s: reported length %d and %d, encoding of %d bytes", name(), n0, n, len(a0))
	}
	if _, plus := d.(*egts.StorageRecord); !plus {
		if e := equal(d, before, 0); e != "" {
			c.Fail("repeat", "%s: encoding changes the value: %s", name(), e)
		}
	}
	return a0
}

func TestC19(t *testing.T) {
	x.Run(t, func(r *x.R) {
		ss := samples()
		other := func() {
			for _, s := range []pair{ss[2], ss[16], ss[25]} {
				s.lib.Encode()
			}
		}
		enumSubs(r, func(c *x.C, p pair) { twice(c, p.name, p.lib, nil) })
		enumPkgs(r, func(c *x.C, p pkg, name func() string) {
			l := p.lib(false)
			n := l.ServicesFrameData.Length()
			a, err := l.Encode()
			if err != nil {
				c.Fail("encode packet", "%s: encoding fails: %v", name(), err)
			}
			a0 := append([]byte(nil), a...)
			q, m, err := ref.ParsePkt(a)
			if err != nil || m != len(a) {
				c.Fail("lengths", "%s: % x is not one well-formed packet: %v, %d of %d bytes", name(), clipb(a), err, m, len(a))
			}
			if int(l.FrameDataLength) != len(q.Body) || int(n) != len(q.Body) || int(l.HeaderLength) != 11+5*int(q.RTE) || int(l.ServicesFrameData.Length()) != len(q.Body) {
				c.Fail("lengths", "%s: data length %d, section length %d, header length %d for % x", name(), l.FrameDataLength, n, l.HeaderLength, clipb(a))
			}
			body := q.Body
			if q.PT == ref.PtResponse {
				if len(body) < 3 {
					c.Fail("lengths", "%s: response of %d bytes", name(), len(body))
				}
				body = body[3:]
			}
			recs, err := ref.ParseRecs(body)
			if err != nil {
				c.Fail("lengths", "%s: the lengths in % x do not fit: %v", name(), clipb(a), err)
			}
			if len(recs) != len(p.recs) {
				c.Fail("lengths", "%s: %d records in % x, want %d", name(), len(recs), clipb(a), len(p.recs))
			}
			s, _ := sds(p.lib(false).ServicesFrameData)
			if p.h.PT == ref.PtResponse {
				s, _ = sds(p.lib(false).ServicesFrameData.(*egts.PtResponse).SDR)
			}
			for i, rc := range recs {
				if len(rc.Subs) != len(p.recs[i].subs) {
					c.Fail("lengths", "%s: record %d has %d subrecords in % x, want %d", name(), i, len(rc.Subs), clipb(a), len(p.recs[i].subs))
				}
				rd := s[i].RecordDataSet
				size := 0
				for _, sub := range rc.Subs {
					size += 3 + len(sub.Body)
				}
				if len(recs) < 20 && int(rd.Length()) != size {
					c.Fail("length", "%s: record data %d reports %d bytes, encodes to %d", name(), i, rd.Length(), size)
				}
			}
			b, err := l.Encode()
			if err != nil || !bytes.Equal(a0, b) {
				c.Fail("repeat", "%s: encodes to % x and then to % x (%v)", name(), clipb(a0), clipb(b), err)
			}
			if !bytes.Equal(a0, a) {
				c.Fail("repeat", "%s: the bytes of an encoding change later", name())
			}
		})
		// encodings of other values in between
		for i := range ss {
			r.Case(x.HI(5, uint64(i)), func() string { return ss[i].name() + " with other encodings in between" }, func(c *x.C) {
				for j := range ss {
					twice(c, ss[i].name, ss[i].lib, func() { ss[j].lib.Encode(); other() })
					c.Step(1)
				}
			})
		}
		// the type is selected by the content
		for a := range ss {
			r.Case(x.HI(6, uint64(a)), func() string { return ss[a].name() + " and others without type" }, func(c *x.C) {
				x.Seqs(len(ss), 0, 2, func(q []int) {
					for mask := 0; mask < 2; mask++ {
						var set egts.RecordDataSet
						var types []byte
						for k, i := range append([]int{a}, q...) {
							d := egts.RecordData{SubrecordData: ss[i].lib}
							ty := ss[i].typ
							if k%2 == mask { // others keep their type
								if ty == 20 {
									ty = 21
								}
							} else {
								d.SubrecordType = ty
							}
							set = append(set, d)
							types = append(types, ty)
						}
						b, err := set.Encode()
						if err != nil {
							c.Fail("type", "%v without type: %v", types, err)
						}
						b2, _ := set.Encode()
						if !bytes.Equal(b, b2) || int(set.Length()) != len(b) {
							c.Fail("repeat", "%v: encodes to % x and then % x, reported length %d", types, clipb(b), clipb(b2), set.Length())
						}
						rest := b
						for k, ty := range types {
							if len(rest) < 3 || rest[0] != ty {
								c.Fail("type", "subrecord %d of %v has type %d: % x", k, types, rest[:min(1, len(rest))], clipb(b))
							}
							n := 3 + (int(rest[1]) | int(rest[2])<<8)
							if n > len(rest) {
								c.Fail("lengths", "subrecord %d of %v claims %d bytes: % x", k, types, n-3, clipb(b))
							}
							rest = rest[n:]
						}
						c.Step(1)
						c.State(x.HB(6, b))
					}
				})
			})
		}
		// content of no known kind
		for i, d := range []egts.BinaryData{alien{}, &alien{}, nil, &egts.PtResponse{}, &egts.ServiceDataSet{}, &egts.RecordDataSet{}} {
			r.Case(x.HI(7, uint64(i)), func() string { return fmt.Sprintf("a %T as subrecord without type", d) }, func(c *x.C) {
				for k := 0; k <= len(ss); k++ {
					set := egts.RecordDataSet{{SubrecordData: d}}
					if k < len(ss) {
						set = append(egts.RecordDataSet{{SubrecordData: ss[k].lib}}, set...)
					}
					for _, b := range []egts.BinaryData{&set, &egts.ServiceDataSet{recLib(set)}, &egts.PtResponse{SDR: &egts.ServiceDataSet{recLib(set)}}} {
						if w, err := b.Encode(); err == nil {
							c.Fail("type", "a %T is encoded as % x", d, w)
						}
					}
					p := plainLib(&egts.ServiceDataSet{recLib(set)})
					if w, err := p.Encode(); err == nil {
						c.Fail("type", "a %T is encoded as % x", d, w)
					}
					c.Step(4)
				}
			})
		}
		// flag fields
		bad := []string{"2", "9", "x", "-", "+", " ", "\x00", "a", "_", ".", "٣", "O", "l", "1x", "0b", "01 "}
		check := func(name string, field string, enc func(v string) ([]byte, error), width int) {
			r.Case(x.HS(name, field), func() string { return name + "." + field + " holding other than binary digits" }, func(c *x.C) {
				for _, v := range bad {
					for k := 0; k < width; k++ {
						w := strings.Repeat("0", k) + v + strings.Repeat("1", max(0, width-1-k))
						c.Step(1)
						if b, err := enc(w); err == nil {
							c.Fail("flags", "%s.%s = %q is encoded as % x", name, field, w, clipb(b))
						}
					}
				}
			})
		}
		text := map[string]bool{"IMEI": true, "IMSI": true, "LanguageCode": true, "MobileNumber": true, "UserName": true, "UserPassword": true, "ServerSequence": true, "Description": true}
		for _, l := range layouts() {
			for bi, bg := range backgrounds(l.bits) {
				_, _, proto := l.mk(bg)
				pv := reflect.ValueOf(proto).Elem()
				for i := 0; i < pv.NumField(); i++ {
					f := pv.Type().Field(i)
					if f.Type.Kind() != reflect.String || text[f.Name] {
						continue
					}
					for wrap := 0; wrap < 4; wrap++ {
						check(fmt.Sprintf("%s %d wrapped %d times", l.name, bi, wrap), f.Name, func(v string) ([]byte, error) {
							_, _, d := l.mk(bg)
							reflect.ValueOf(d).Elem().FieldByName(f.Name).SetString(v)
							set := egts.RecordDataSet{{SubrecordType: l.typ, SubrecordData: ss[0].lib}, {SubrecordType: l.typ, SubrecordData: d}}
							switch wrap {
							case 0:
								return d.Encode()
							case 1:
								return set.Encode()
							case 2:
								return (&egts.PtResponse{SDR: &egts.ServiceDataSet{recLib(set)}}).Encode()
							}
							return plainLib(&egts.ServiceDataSet{recLib(set)}).Encode()
						}, pv.Field(i).Len())
					}
				}
			}
		}
		for _, f := range []string{"SourceServiceOnDevice", "RecipientServiceOnDevice", "Group", "RecordProcessingPriority", "TimeFieldExists", "EventIDFieldExists", "ObjectIDFieldExists"} {
			w := 1
			if f == "RecordProcessingPriority" {
				w = 2
			}
			check("record", f, func(v string) ([]byte, error) {
				rc := recLib(egts.RecordDataSet{{SubrecordData: ss[0].lib}})
				reflect.ValueOf(&rc).Elem().FieldByName(f).SetString(v)
				return (&egts.ServiceDataSet{recLib(nil), rc}).Encode()
			}, w)
		}
		for _, f := range []string{"Prefix", "Route", "EncryptionAlg", "Compression", "Priority"} {
			w := 1
			if strings.Contains("Prefix EncryptionAlg Priority", f) {
				w = 2
			}
			check("packet", f, func(v string) ([]byte, error) {
				p := plainLib(&egts.ServiceDataSet{recLib(egts.RecordDataSet{{SubrecordData: ss[0].lib}})})
				reflect.ValueOf(p).Elem().FieldByName(f).SetString(v)
				return p.Encode()
			}, w)
		}
		tooLarge(r)
		reuse(r, ss)
	})
}

// reuse encodes one value again and again while it is changed: what an encoding filled in must not stay
// behind in the next one, which has to equal that of a value made afresh.
func reuse(r *x.R, ss []pair) {
	type val struct {
		recs  [][]int
		route bool
		pid   uint16
	}
	sub := func(k int) egts.RecordData { return egts.RecordData{SubrecordData: clone(ss[k%len(ss)].lib)} }
	fresh := func(v val, resp bool) (*egts.Package, *egts.ServiceDataSet) {
		set := &egts.ServiceDataSet{}
		for _, q := range v.recs {
			var rd egts.RecordDataSet
			for _, k := range q {
				rd = append(rd, sub(k))
			}
			*set = append(*set, recLib(rd))
		}
		p := plainLib(set)
		if resp {
			p.PacketType, p.ServicesFrameData = 0, &egts.PtResponse{ResponsePacketID: 5, SDR: set}
		}
		if v.route {
			p.Route = "1"
		}
		p.PacketIdentifier = v.pid
		return p, set
	}
	names := []string{"add a subrecord", "drop a subrecord", "replace a subrecord", "add a record", "drop a record", "change the routing", "change the identifier", "encode the records alone"}
	depth := 4
	if r.Thorough {
		depth = 5
	}
	x.Seqs(len(names), 1, depth, func(q []int) {
		for resp := 0; resp < 2; resp++ {
			ops := append([]int(nil), q...)
			h := x.HI(20, uint64(resp))
			for _, o := range ops {
				h = x.HI(h, uint64(o))
			}
			r.Case(h, func() string {
				var v []string
				for _, o := range ops {
					v = append(v, names[o])
				}
				return fmt.Sprintf("encode a packet of type %d, then before every next encoding: %s", 1-resp, strings.Join(v, "; "))
			}, func(c *x.C) {
				v := val{recs: [][]int{{2}, {16, 9}}, pid: 1}
				p, set := fresh(v, resp == 1)
				for i := -1; i < len(ops); i++ {
					k := 3*i + 5
					if i >= 0 {
						a := *set
						switch ops[i] {
						case 0:
							v.recs[0] = append(append([]int(nil), v.recs[0]...), k)
							a[0].RecordDataSet = append(a[0].RecordDataSet, sub(k))
						case 1:
							if n := len(v.recs[0]); n > 1 {
								v.recs[0] = v.recs[0][:n-1]
								a[0].RecordDataSet = a[0].RecordDataSet[:n-1]
							}
						case 2:
							v.recs[0] = append([]int{k}, v.recs[0][1:]...)
							a[0].RecordDataSet[0].SubrecordData = sub(k).SubrecordData
						case 3:
							v.recs = append(v.recs, []int{k, 2})
							*set = append(*set, recLib(egts.RecordDataSet{sub(k), sub(2)}))
						case 4:
							if n := len(v.recs); n > 1 {
								v.recs, *set = v.recs[:n-1], a[:n-1]
							}
						case 5:
							v.route = !v.route
							p.Route = map[bool]string{true: "1", false: "0"}[v.route]
						case 6:
							v.pid += 255
							p.PacketIdentifier = v.pid
						case 7:
							set.Encode()
							a[0].RecordDataSet.Encode()
							a[0].RecordDataSet.Length()
						}
					}
					w, _ := fresh(v, resp == 1)
					want, err := w.Encode()
					if err != nil {
						c.Fail("encode packet", "%v", err)
					}
					got, err := p.Encode()
					if err != nil || !bytes.Equal(got, want) {
						c.Fail("reuse", "after %d changes the packet is encoded as % x (%v), a new one with the same content as % x", i+1, clipb(got), err, clipb(want))
					}
					if q, n, err := ref.ParsePkt(got); err != nil || n != len(got) || int(p.FrameDataLength) != len(q.Body) {
						c.Fail("lengths", "after %d changes: % x is not one well-formed packet: %v", i+1, clipb(got), err)
					}
					c.Step(1)
					c.State(x.HB(20, got))
				}
				c.Trace()
			})
		}
	})
	// every kind of content replaced by every other
	for i := range ss {
		for j := range ss {
			r.Case(x.HI(21, uint64(i), uint64(j)), func() string { return ss[i].name() + " encoded, replaced by " + ss[j].name() + " and encoded" }, func(c *x.C) {
				set := egts.RecordDataSet{sub(i)}
				sd := egts.ServiceDataSet{recLib(set)}
				for _, k := range []int{i, j, i} {
					set[0].SubrecordData = sub(k).SubrecordData
					n := set.Length()
					got, err := set.Encode()
					f := egts.RecordDataSet{sub(k)}
					want, err2 := f.Encode()
					if err != nil || err2 != nil || !bytes.Equal(got, want) || int(n) != len(want) {
						c.Fail("reuse", "% x (%v, reported length %d), a new one with the same content % x (%v)", clipb(got), err, n, clipb(want), err2)
					}
					got, err = sd.Encode()
					fr := egts.ServiceDataSet{recLib(f)}
					want, err2 = fr.Encode()
					if err != nil || err2 != nil || !bytes.Equal(got, want) {
						c.Fail("reuse", "record % x (%v), a new one with the same content % x (%v)", clipb(got), err, clipb(want), err2)
					}
					c.Step(2)
				}
			})
		}
	}
}

func recLib(set egts.RecordDataSet) egts.ServiceDataRecord {
	return egts.ServiceDataRecord{RecordNumber: 1, SourceServiceOnDevice: "0", RecipientServiceOnDevice: "0", Group: "0", RecordProcessingPriority: "00", TimeFieldExists: "0", EventIDFieldExists: "0", ObjectIDFieldExists: "0", SourceServiceType: 2, RecipientServiceType: 2, RecordDataSet: set}
}

func plainLib(d egts.BinaryData) *egts.Package {
	return &egts.Package{ProtocolVersion: 1, Prefix: "00", Route: "0", EncryptionAlg: "00", Compression: "0", Priority: "00", PacketIdentifier: 3, PacketType: 1, ServicesFrameData: d}
}

// tooLarge puts every kind of section at and around the limit of its length field.
func tooLarge(r *x.R) {
	text := func(n int) string { return strings.Repeat("s", n) }
	// subrecords with content of n bytes
	mk := map[string]func(n int) egts.BinaryData{
		"description": func(n int) egts.BinaryData { return &egts.SrDispatcherIdentity{Description: text(n - 5)} },
		"user name":   func(n int) egts.BinaryData { return &egts.SrAuthInfo{UserName: text(n - 3), UserPassword: "p"} },
		"password":    func(n int) egts.BinaryData { return &egts.SrAuthInfo{UserName: "u", UserPassword: text(n - 3)} },
		"sequence":    func(n int) egts.BinaryData { return &egts.SrAuthInfo{ServerSequence: text(n - 3)} },
		"protobuf": func(n int) egts.BinaryData {
			k := uint32(1)
			// 2+5+5 bytes of required fields, 2+3+1+3 around the data
			return &egts.StorageRecord{RecordNumber: &k, TimeStamp: &k, StatusFlags: &k, SensBufferData: []*egts.SensBufferData{{Data: make([]byte, n-12-9)}}}
		},
	}
	sizes := func(lim int) (out []int) {
		for d := -40; d <= 40; d++ {
			out = append(out, lim+d)
		}
		for _, k := range []int{2, 3, 16} {
			for d := -3; d <= 3; d++ {
				out = append(out, k*65536+d)
			}
		}
		return append(out, 70000, 100000, 1<<20)
	}
	try := func(c *x.C, what string, size int, enc func() ([]byte, error), parse func(b []byte) string) {
		c.Step(1)
		b, err := enc()
		if size > 65535 {
			if err == nil {
				c.Fail("too large", "%s of %d bytes is encoded in %d bytes", what, size, len(b))
			}
			return
		}
		if err != nil {
			c.Fail("refused", "%s of %d bytes is refused: %v", what, size, err)
		}
		if e := parse(b); e != "" {
			c.Fail("lengths", "%s of %d bytes: %s", what, size, e)
		}
	}
	for _, k := range x.Keys(mk) {
		for _, n := range sizes(65535) {
			r.Case(x.HI(8, x.HS(k), uint64(n)), func() string { return fmt.Sprintf("%s of %d bytes", k, n) }, func(c *x.C) {
				d := mk[k](n)
				own, err := d.Encode()
				if err != nil {
					c.Fail("encode", "%v", err)
				}
				if len(own) != n && k != "protobuf" {
					c.Fail("oracle", "%s: %d bytes, want %d", k, len(own), n)
				}
				n := len(own)
				set := func() egts.RecordDataSet { return egts.RecordDataSet{{SubrecordData: mk[k](n + 0)}} }
				if k == "protobuf" {
					set = func() egts.RecordDataSet { return egts.RecordDataSet{{SubrecordData: d}} }
				}
				s := set()
				try(c, "a subrecord", n, s.Encode, func(b []byte) string {
					if len(b) != 3+n || int(b[1])|int(b[2])<<8 != n || !bytes.Equal(b[3:], own) {
						return fmt.Sprintf("encoded in %d bytes as % x...", len(b), clipb(b))
					}
					return ""
				})
				// as a record: record data is 3 bytes longer
				sd := egts.ServiceDataSet{recLib(set())}
				try(c, "a record", n+3, sd.Encode, func(b []byte) string {
					recs, err := ref.ParseRecs(b)
					if err != nil || len(recs) != 1 || len(recs[0].Subs) != 1 || !bytes.Equal(recs[0].Subs[0].Body, own) {
						return fmt.Sprintf("% x... : %v", clipb(b)[:20], err)
					}
					return ""
				})
				// as a packet: 7 bytes of record header more, as a response 3 more
				try(c, "a frame", n+10, plainLib(&egts.ServiceDataSet{recLib(set())}).Encode, whole(own))
				p := plainLib(&egts.PtResponse{SDR: &egts.ServiceDataSet{recLib(set())}})
				p.PacketType = 0
				try(c, "a response frame", n+13, p.Encode, whole(own))
			})
		}
	}
	// records and packets of many parts
	for _, n := range []int{2729, 2730, 2731, 2732, 2733, 4096, 5461, 5462, 8192} {
		r.Case(x.HI(9, uint64(n)), func() string { return fmt.Sprintf("a record of %d positions, and as many records", n) }, func(c *x.C) {
			d := &egts.SrPosData{NavigationTime: epoch, ALTE: "0", LOHS: "0", LAHS: "0", MV: "0", BB: "0", CS: "0", FIX: "0", VLD: "1"}
			var set egts.RecordDataSet
			var rs egts.ServiceDataSet
			for i := 0; i < n; i++ {
				set = append(set, egts.RecordData{SubrecordData: d})
				rs = append(rs, recLib(egts.RecordDataSet{{SubrecordData: d}}))
			}
			try(c, "a record", 24*n, (&egts.ServiceDataSet{recLib(set)}).Encode, func(b []byte) string {
				recs, err := ref.ParseRecs(b)
				if err != nil || len(recs) != 1 || len(recs[0].Subs) != n {
					return fmt.Sprint(err)
				}
				return ""
			})
			try(c, "a packet", 24*n+7, plainLib(&egts.ServiceDataSet{recLib(set)}).Encode, whole(nil))
			try(c, "a packet", 31*n, plainLib(&rs).Encode, whole(nil))
			p := plainLib(&egts.PtResponse{SDR: &rs})
			p.PacketType = 0
			try(c, "a response", 31*n+3, p.Encode, whole(nil))
		})
	}
}

func whole(own []byte) func(b []byte) string {
	return func(b []byte) string {
		p, n, err := ref.ParsePkt(b)
		if err != nil || n != len(b) {
			return fmt.Sprintf("not one well-formed packet: %v", err)
		}
		body := p.Body
		if p.PT == 0 {
			body = body[3:]
		}
		recs, err := ref.ParseRecs(body)
		if err != nil || own != nil && !bytes.Equal(recs[0].Subs[0].Body, own) {
			return fmt.Sprintf("not the records encoded: %v", err)
		}
		return ""
	}
}
