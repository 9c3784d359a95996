// Package codec checks libs/egts against the independent layout in mc/ref.
package codec

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/ElectroUnion/egts-gate/libs/egts"

	"verif.local/mc/ref"
)

// pair is one subrecord: its bytes on the wire, the library value it stands for, and the bytes the library
// writes for that value (want differs from wire where the library has no place for a detail).
type pair struct {
	typ  byte
	wire []byte
	want []byte
	lib  egts.BinaryData
	name func() string
}

// layout describes one subrecord type as a vector of fields.
type layout struct {
	name string
	typ  byte
	bits []int // width of every field; negative: index into as many texts
	mk   func(v []uint64) (body, want []byte, lib egts.BinaryData)
	skip func(v []uint64) bool
	mkeq func(a, b egts.BinaryData) string
	zero func() egts.BinaryData
}

func bit(b byte, i int) string {
	if b>>i&1 == 1 {
		return "1"
	}
	return "0"
}
func two(b byte) string { return bit(b, 1) + bit(b, 0) }

var epoch = time.Date(2010, 1, 1, 0, 0, 0, 0, time.UTC)

// texts of every interesting length below n
func texts(n int) []string {
	full := "0123456789ABCDEFGHIJ"[:n]
	return []string{full, full[:n-1], full[:1], "", strings.Repeat("9", n), "\xFF\xFE" + full[2:], "я" + full[2:], full[:n-1] + " ", " " + full[1:]}
}

// fewTexts is how many texts at the front of a list are combined with those of other fields.
const fewTexts = 9

// every appends s with each byte value from lo at its start, middle and end.
func every(ss []string, s string, lo int) []string {
	for len(ss) < fewTexts {
		ss = append(ss, ss[len(ss)-1]) // (only so that the combinations stay the ones meant)
	}
	for v := lo; v < 256; v++ {
		for _, i := range []int{0, len(s) / 2, len(s) - 1} {
			b := []byte(s)
			b[i] = byte(v)
			ss = append(ss, string(b))
		}
	}
	return ss
}

// lengths appends a text of every length up to n.
func lengths(ss []string, n int) []string {
	for l := 0; l <= n; l++ {
		b := make([]byte, l)
		for i := range b {
			b[i] = byte('A' + (i+l)%26)
		}
		ss = append(ss, string(b))
	}
	return ss
}

var (
	imeis  = every(texts(15), "356938035643809", 1)
	imsis  = every(texts(16), "2500123456789012", 1)
	langs  = every([]string{"rus", "eng", "\x01\xFF~", "   "}, "rus", 1)
	phones = every(texts(15), "79991234567\x00\x00\x00\x00", 1)
	names  = []string{"user", "", "u", "я", strings.Repeat("n", 32), "\xFF\x01", strings.Repeat("k", 300)}
	namesX = lengths(every(names, "user", 1), 300)
	seqsX  = lengths(every(seqs, "sequence", 1), 300)
	descsX = lengths(every(descs, "some text", 0), 300)
	seqs   = []string{"", "seq", "s", "\xFE", strings.Repeat("q", 255), strings.Repeat("q", 256)}
	descs  = []string{"", "disp", "d", "\x00", "a\x00b", "\xFF", strings.Repeat("d", 127), strings.Repeat("d", 1000)}
)

func same(a, b egts.BinaryData) string {
	if reflect.DeepEqual(a, b) {
		return ""
	}
	return fmt.Sprintf("%+v, want %+v", reflect.Indirect(reflect.ValueOf(a)).Interface(), reflect.Indirect(reflect.ValueOf(b)).Interface())
}

// near compares coordinates within tol units of the wire resolution.
func near(got, want, span float64, tol float64) bool {
	return math.Abs(got-want) <= tol*span/0xFFFFFFFF
}

func samePos(a, b egts.BinaryData, tol float64) string {
	x, y := *a.(*egts.SrPosData), *b.(*egts.SrPosData)
	if !x.NavigationTime.Equal(y.NavigationTime) {
		return fmt.Sprintf("navigation time %v, want %v", x.NavigationTime, y.NavigationTime)
	}
	if !near(x.Latitude, y.Latitude, 90, tol) {
		return fmt.Sprintf("latitude %.10f, want %.10f", x.Latitude, y.Latitude)
	}
	if !near(x.Longitude, y.Longitude, 180, tol) {
		return fmt.Sprintf("longitude %.10f, want %.10f", x.Longitude, y.Longitude)
	}
	x.NavigationTime, x.Latitude, x.Longitude = y.NavigationTime, y.Latitude, y.Longitude
	if x != y {
		return fmt.Sprintf("%+v, want %+v", x, y)
	}
	return ""
}

func sameTerm(a, b egts.BinaryData) string {
	x, y := *a.(*egts.SrTermIdentity), *b.(*egts.SrTermIdentity)
	for _, p := range []*egts.SrTermIdentity{&x, &y} {
		p.IMEI, p.IMSI, p.MobileNumber = strings.TrimRight(p.IMEI, "\x00"), strings.TrimRight(p.IMSI, "\x00"), strings.TrimRight(p.MobileNumber, "\x00")
		if len(p.NetworkIdentifier) == 0 {
			p.NetworkIdentifier = nil
		}
	}
	return same(&x, &y)
}

func u(n uint64) uint32 { return uint32(n) }

// layouts of every supported subrecord type. Type 20 stands for both its uses.
func layouts() []layout {
	ls := []layout{
		{name: "POS_DATA", typ: 16, bits: []int{32, 32, 32, 8, 14, 1, 1, 8, 24, 8, 8, 24},
			skip: func(v []uint64) bool { return v[6] == 1 && v[7] > 0x7F }, // more than 359 degrees
			zero: func() egts.BinaryData { return &egts.SrPosData{} },
			mk: func(v []uint64) ([]byte, []byte, egts.BinaryData) {
				p := ref.Pos{TM: u(v[0]), Lat: u(v[1]), Lon: u(v[2]), Flags: byte(v[3]), Spd: uint16(v[4]), ALTS: byte(v[5]), DIRH: byte(v[6]), Dir: byte(v[7]), Odm: u(v[8]), Din: byte(v[9]), Src: byte(v[10]), Alt: u(v[11])}
				q := p
				q.Spd = p.Spd / 10 * 10
				l := &egts.SrPosData{NavigationTime: epoch.Add(time.Duration(p.TM) * time.Second), Latitude: float64(p.Lat) * 90 / 0xFFFFFFFF, Longitude: float64(p.Lon) * 180 / 0xFFFFFFFF,
					ALTE: bit(p.Flags, 7), LOHS: bit(p.Flags, 6), LAHS: bit(p.Flags, 5), MV: bit(p.Flags, 4), BB: bit(p.Flags, 3), CS: bit(p.Flags, 2), FIX: bit(p.Flags, 1), VLD: bit(p.Flags, 0),
					DirectionHighestBit: p.DIRH, AltitudeSign: p.ALTS, Speed: p.Spd / 10, Direction: p.Dir | p.DIRH<<7, Odometer: p.Odm, DigitalInputs: p.Din, Source: p.Src}
				if p.Flags&0x80 != 0 {
					l.Altitude = p.Alt
				}
				return p.Body(), q.Body(), l
			},
			mkeq: func(a, b egts.BinaryData) string { return samePos(a, b, 0.001) }},
		{name: "EXT_POS_DATA", typ: 17, bits: []int{8, 16, 16, 16, 8, 16},
			zero: func() egts.BinaryData { return &egts.SrExtPosData{} },
			mk: func(v []uint64) ([]byte, []byte, egts.BinaryData) {
				e := ref.Ext{Flags: byte(v[0]), VDOP: uint16(v[1]), HDOP: uint16(v[2]), PDOP: uint16(v[3]), SAT: byte(v[4]), NS: uint16(v[5])}
				q := e
				q.Flags &= 31
				l := &egts.SrExtPosData{NavigationSystemFieldExists: bit(e.Flags, 4), SatellitesFieldExists: bit(e.Flags, 3), PdopFieldExists: bit(e.Flags, 2), HdopFieldExists: bit(e.Flags, 1), VdopFieldExists: bit(e.Flags, 0)}
				if e.Flags&1 != 0 {
					l.VerticalDilutionOfPrecision = e.VDOP
				}
				if e.Flags&2 != 0 {
					l.HorizontalDilutionOfPrecision = e.HDOP
				}
				if e.Flags&4 != 0 {
					l.PositionDilutionOfPrecision = e.PDOP
				}
				if e.Flags&8 != 0 {
					l.Satellites = e.SAT
				}
				if e.Flags&16 != 0 {
					l.NavigationSystem = e.NS
				}
				return e.Body(), q.Body(), l
			}},
		{name: "AD_SENSORS_DATA", typ: 18, bits: []int{8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 24, 24, 24, 24, 24, 24, 24, 24},
			zero: func() egts.BinaryData { return &egts.SrAdSensorsData{} },
			mk: func(v []uint64) ([]byte, []byte, egts.BinaryData) {
				a := ref.Ads{DIOE: byte(v[0]), ASFE: byte(v[1]), DOUT: byte(v[2])}
				l := &egts.SrAdSensorsData{DigitalOutputs: a.DOUT}
				r := reflect.ValueOf(l).Elem()
				for i := 0; i < 8; i++ {
					a.ADIO[i], a.ANS[i] = byte(v[3+i]), u(v[11+i])
					r.FieldByName(fmt.Sprint("DigitalInputsOctetExists", i+1)).SetString(bit(a.DIOE, i))
					r.FieldByName(fmt.Sprint("AnalogSensorFieldExists", i+1)).SetString(bit(a.ASFE, i))
					if a.DIOE>>i&1 == 1 {
						r.FieldByName(fmt.Sprint("AdditionalDigitalInputsOctet", i+1)).SetUint(v[3+i])
					}
					if a.ASFE>>i&1 == 1 {
						r.FieldByName(fmt.Sprint("AnalogSensor", i+1)).SetUint(v[11+i])
					}
				}
				return a.Body(), a.Body(), l
			}},
		{name: "COUNTERS_DATA", typ: 19, bits: []int{8, 24, 24, 24, 24, 24, 24, 24, 24},
			zero: func() egts.BinaryData { return &egts.SrCountersData{} },
			mk: func(v []uint64) ([]byte, []byte, egts.BinaryData) {
				a := ref.Cnt{CFE: byte(v[0])}
				l := &egts.SrCountersData{}
				r := reflect.ValueOf(l).Elem()
				for i := 0; i < 8; i++ {
					a.CN[i] = u(v[1+i])
					r.FieldByName(fmt.Sprint("CounterFieldExists", i+1)).SetString(bit(a.CFE, i))
					if a.CFE>>i&1 == 1 {
						r.FieldByName(fmt.Sprint("Counter", i+1)).SetUint(v[1+i])
					}
				}
				return a.Body(), a.Body(), l
			}},
		{name: "STATE_DATA", typ: 21, bits: []int{8, 8, 8, 8, 8},
			zero: func() egts.BinaryData { return &egts.SrStateData{} },
			mk: func(v []uint64) ([]byte, []byte, egts.BinaryData) {
				s := ref.State{ST: byte(v[0]), MPSV: byte(v[1]), BBV: byte(v[2]), IBV: byte(v[3]), Flags: byte(v[4])}
				q := s
				q.Flags &= 7
				return s.Body(), q.Body(), &egts.SrStateData{State: s.ST, MainPowerSourceVoltage: s.MPSV, BackUpBatteryVoltage: s.BBV, InternalBatteryVoltage: s.IBV, NMS: bit(s.Flags, 2), IBU: bit(s.Flags, 1), BBU: bit(s.Flags, 0)}
			}},
		{name: "ABS_AN_SENS_DATA", typ: 24, bits: []int{8, 24},
			zero: func() egts.BinaryData { return &egts.SrAbsAnSensData{} },
			mk: func(v []uint64) ([]byte, []byte, egts.BinaryData) {
				b := ref.AbsAn{N: byte(v[0]), V: u(v[1])}.Body()
				return b, b, &egts.SrAbsAnSensData{SensorNumber: byte(v[0]), Value: u(v[1])}
			}},
		{name: "ABS_CNTR_DATA", typ: 25, bits: []int{8, 24},
			zero: func() egts.BinaryData { return &egts.SrAbsCntrData{} },
			mk: func(v []uint64) ([]byte, []byte, egts.BinaryData) {
				b := ref.AbsCntr{N: byte(v[0]), V: u(v[1])}.Body()
				return b, b, &egts.SrAbsCntrData{CounterNumber: byte(v[0]), CounterValue: u(v[1])}
			}},
		{name: "LIQUID_LEVEL_SENSOR", typ: 27, bits: []int{8, 16, 32},
			zero: func() egts.BinaryData { return &egts.SrLiquidLevelSensor{} },
			mk: func(v []uint64) ([]byte, []byte, egts.BinaryData) {
				f := byte(v[0])
				l := ref.Liq{LLSEF: f >> 6 & 1, LLSVU: f >> 4 & 3, RDF: f >> 3 & 1, LLSN: f & 7, MADDR: uint16(v[1]), LLSD: u(v[2])}
				want := l.Body()
				wire := append([]byte(nil), want...)
				wire[0] = f // with the reserved bit
				return wire, want, &egts.SrLiquidLevelSensor{LiquidLevelSensorErrorFlag: bit(f, 6), LiquidLevelSensorValueUnit: two(f >> 4), RawDataFlag: bit(f, 3), LiquidLevelSensorNumber: f & 7, ModuleAddress: l.MADDR, LiquidLevelSensorData: l.LLSD}
			}},
		{name: "TERM_IDENTITY", typ: 1, bits: []int{32, 8, 16, -len(imeis), -len(imsis), -len(langs), 24, 16, -len(phones)},
			zero: func() egts.BinaryData { return &egts.SrTermIdentity{} },
			mkeq: sameTerm,
			mk: func(v []uint64) ([]byte, []byte, egts.BinaryData) {
				t := ref.Term{TID: u(v[0]), Flags: byte(v[1]), HDID: uint16(v[2]), IMEI: imeis[v[3]], IMSI: imsis[v[4]], LNGC: langs[v[5]], NID: [3]byte{byte(v[6]), byte(v[6] >> 8), byte(v[6] >> 16)}, BS: uint16(v[7]), MSISDN: phones[v[8]]}
				f := t.Flags
				l := &egts.SrTermIdentity{TerminalIdentifier: t.TID, MNE: bit(f, 7), BSE: bit(f, 6), NIDE: bit(f, 5), SSRA: bit(f, 4), LNGCE: bit(f, 3), IMSIE: bit(f, 2), IMEIE: bit(f, 1), HDIDE: bit(f, 0)}
				if f&1 != 0 {
					l.HomeDispatcherIdentifier = t.HDID
				}
				if f&2 != 0 {
					l.IMEI = t.IMEI
				}
				if f&4 != 0 {
					l.IMSI = t.IMSI
				}
				if f&8 != 0 {
					l.LanguageCode = t.LNGC
				}
				if f&32 != 0 {
					l.NetworkIdentifier = append([]byte(nil), t.NID[:]...)
				}
				if f&64 != 0 {
					l.BufferSize = t.BS
				}
				if f&128 != 0 {
					l.MobileNumber = t.MSISDN
				}
				return t.Body(), t.Body(), l
			}},
		{name: "AUTH_INFO", typ: 7, bits: []int{-len(namesX), -len(namesX), -len(seqsX)},
			zero: func() egts.BinaryData { return &egts.SrAuthInfo{} },
			mk: func(v []uint64) ([]byte, []byte, egts.BinaryData) {
				a := ref.Auth{UNM: namesX[v[0]], UPSW: namesX[v[1]], SS: seqsX[v[2]]}
				return a.Body(), a.Body(), &egts.SrAuthInfo{UserName: a.UNM, UserPassword: a.UPSW, ServerSequence: a.SS}
			}},
		{name: "DISPATCHER_IDENTITY", typ: 5, bits: []int{8, 32, -len(descsX)},
			zero: func() egts.BinaryData { return &egts.SrDispatcherIdentity{} },
			mk: func(v []uint64) ([]byte, []byte, egts.BinaryData) {
				d := ref.Disp{DT: byte(v[0]), DID: u(v[1]), DSCR: descsX[v[2]]}
				return d.Body(), d.Body(), &egts.SrDispatcherIdentity{DispatcherType: d.DT, DispatcherID: d.DID, Description: d.DSCR}
			}},
		{name: "RECORD_RESPONSE", typ: 0, bits: []int{16, 8},
			zero: func() egts.BinaryData { return &egts.SrResponse{} },
			mk: func(v []uint64) ([]byte, []byte, egts.BinaryData) {
				b := ref.RecResp{CRN: uint16(v[0]), RST: byte(v[1])}.Body()
				return b, b, &egts.SrResponse{ConfirmedRecordNumber: uint16(v[0]), RecordStatus: byte(v[1])}
			}},
		{name: "RESULT_CODE", typ: 9, bits: []int{8},
			zero: func() egts.BinaryData { return &egts.SrResultCode{} },
			mk: func(v []uint64) ([]byte, []byte, egts.BinaryData) {
				b := ref.ResCode{RCD: byte(v[0])}.Body()
				return b, b, &egts.SrResultCode{ResultCode: byte(v[0])}
			}},
	}
	st := ls[4]
	st.name, st.typ = "STATE_DATA as type 20", 20
	ls = append(ls, st)
	for i := range ls {
		if ls[i].mkeq == nil {
			ls[i].mkeq = same
		}
		if ls[i].skip == nil {
			ls[i].skip = func([]uint64) bool { return false }
		}
	}
	return ls
}

// backgrounds: what the fields not being enumerated hold
func backgrounds(bits []int) [][]uint64 {
	mk := func(f func(i, w int) uint64) []uint64 {
		v := make([]uint64, len(bits))
		for i, w := range bits {
			if w < 0 {
				v[i] = f(i, 8) % uint64(min(-w, fewTexts))
			} else {
				v[i] = f(i, w) & (1<<w - 1)
			}
		}
		return v
	}
	return [][]uint64{
		mk(func(i, w int) uint64 { return 0 }),
		mk(func(i, w int) uint64 { return 1<<w - 1 }),
		mk(func(i, w int) uint64 { return 0x9E3779B97F4A7C15 * uint64(i+1) >> 17 }),
		// different in every field with every optional field present
		mk(func(i, w int) uint64 {
			if w == 8 && i <= 3 {
				return 0xFF
			}
			return 0x0123456789ABCDEF * uint64(2*i+3) >> 11
		}),
	}
}

// domain of one field: all values up to 8 bits (16 when wide), for wider fields every value of every byte
// over two fillings, and the edges.
func domain(w int, wide bool) (out []uint64) {
	if w < 0 {
		for i := 0; i < -w; i++ {
			out = append(out, uint64(i))
		}
		return
	}
	if w <= 8 || wide && w <= 16 || w == 14 {
		for i := uint64(0); i < 1<<w; i++ {
			out = append(out, i)
		}
		return
	}
	seen := map[uint64]bool{}
	put := func(x uint64) {
		x &= 1<<w - 1
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	for _, fill := range []uint64{0, 1<<w - 1, 0xA5C3E796} {
		for b := 0; b < w; b += 8 {
			for x := uint64(0); x < 256; x++ {
				put(fill&^(0xFF<<b) | x<<b)
			}
		}
	}
	for _, x := range edges(w) {
		put(x)
	}
	return
}

// edges of one field.
func edges(w int) (out []uint64) {
	if w < 0 {
		return domain(max(w, -fewTexts), false)
	}
	seen := map[uint64]bool{}
	put := func(x uint64) {
		x &= 1<<w - 1
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	put(0)
	put(1)
	for i := 0; i < w; i++ {
		put(1 << i)
	}
	put(1<<w - 1)
	put(1<<w - 2)
	put(1<<(w-1) - 1)
	put(0x5A5A5A5A)
	put(0xC3C3C3C3)
	return
}

// groups calls f with a batch of vectors, together one case.
func groups(l layout, wide, pairs bool, f func(name string, vs func(yield func(v []uint64)))) {
	for bi, bg := range backgrounds(l.bits) {
		for i, w := range l.bits {
			f(fmt.Sprintf("%s background %d field %d", l.name, bi, i), func(yield func(v []uint64)) {
				for _, x := range domain(w, wide && (pairs || bi == 3)) {
					v := append([]uint64(nil), bg...)
					v[i] = x
					if !l.skip(v) {
						yield(v)
					}
				}
			})
		}
		// three fields at a time at their ends
		small := func(w int) []uint64 {
			switch {
			case w < 0:
				return []uint64{0, 2}
			case w == 1:
				return []uint64{0, 1}
			}
			return []uint64{0, 1, 1<<w - 1}
		}
		n := len(l.bits)
		for i := 0; i < n; i++ {
			f(fmt.Sprintf("%s background %d field %d with two others", l.name, bi, i), func(yield func(v []uint64)) {
				v := make([]uint64, n)
				for j := i + 1; j < n; j++ {
					for k := j + 1; k < n; k++ {
						if n > 10 && !pairs && (i*7+j*3+k)%3 != bi%3 { // every triple on some background
							continue
						}
						for _, x := range small(l.bits[i]) {
							for _, y := range small(l.bits[j]) {
								for _, z := range small(l.bits[k]) {
									copy(v, bg)
									v[i], v[j], v[k] = x, y, z
									if !l.skip(v) {
										yield(append([]uint64(nil), v...))
									}
								}
							}
						}
					}
				}
			})
		}
		if !pairs && bi != 3 {
			for i, wi := range l.bits {
				for j := i + 1; j < n; j++ {
					wj := l.bits[j]
					f(fmt.Sprintf("%s background %d fields %d and %d, few values", l.name, bi, i, j), func(yield func(v []uint64)) {
						for _, x := range append(small(wi), edges(wi)[1:min(len(edges(wi)), 6)]...) {
							for _, y := range append(small(wj), edges(wj)[1:min(len(edges(wj)), 6)]...) {
								v := append([]uint64(nil), bg...)
								v[i], v[j] = x, y
								if !l.skip(v) {
									yield(v)
								}
							}
						}
					})
				}
			}
			continue
		}
		for i, wi := range l.bits {
			for j := i + 1; j < len(l.bits); j++ {
				wj := l.bits[j]
				f(fmt.Sprintf("%s background %d fields %d and %d", l.name, bi, i, j), func(yield func(v []uint64)) {
					di, dj := edges(wi), edges(wj)
					if wi == 8 && (pairs || i == 0 && j < 2 || i == 1 && l.typ == 1) {
						di = domain(8, false)
					}
					if wj == 8 && (pairs || i == 0 && j < 2) {
						dj = domain(8, false)
					}
					for _, x := range di {
						for _, y := range dj {
							v := append([]uint64(nil), bg...)
							v[i], v[j] = x, y
							if !l.skip(v) {
								yield(v)
							}
						}
					}
				})
			}
		}
	}
}
