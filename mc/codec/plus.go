package codec

import (
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"sort"

	"github.com/ElectroUnion/egts-gate/libs/egts"
)

// The protobuf content of EGTS_SR_EGTS_PLUS_DATA, written down from docs/egts_sr_egtsplus_data.proto.

type pfield struct {
	num  int
	kind string // u: uint32, b: bool, y: bytes, s: sint32, f: float, x: sfixed32
	name string
}

type pmsg struct {
	num  int
	name string
	fs   []pfield
}

func fs(kinds string, names ...string) (out []pfield) {
	out = append(out, pfield{1, "u", "SensNum"})
	for i, n := range names {
		out = append(out, pfield{i + 2, kinds[i : i+1], n})
	}
	return
}

var plusMsgs = []pmsg{
	{18, "SensAccelerometerData", fs("yuuuuu", "Buf", "Atm", "Frequency", "Range", "Format", "Zlib")},
	{9, "SensAinAinValue", fs("u", "Mv")},
	{20, "SensBufferData", fs("yb", "Data", "IsPacked")},
	{14, "SensButtonPressCounter", fs("b", "State")},
	{16, "SensCanLogData", fs("uuuusuuuuuuuuu", "FlagSecurityState", "FlagAlarm", "EngineTimeAll", "EngineTurnSpeed", "EngineTemperature", "FuelConsumptionAll", "FuelLevel", "TrackAll", "Speed",
		"PressureAxis_1", "PressureAxis_2", "PressureAxis_3", "PressureAxis_4", "PressureAxis_5")},
	{17, "SensCanLogTmpDataExt", fs("uu", "FlagsHigh", "FlagsLow")},
	{11, "SensCounterCount", fs("u", "Value")},
	{24, "SensCrashData", fs("ub", "Energy", "IsOverturned")},
	{10, "SensDinsFlags", fs("uu", "Device", "External")},
	{19, "SensDoutsFlags", fs("uu", "Device", "External")},
	{12, "SensFmeterFrequency", fs("u", "Value")},
	{8, "SensFuelLevel", fs("fuuuu", "Value", "Parrots", "Unit", "T", "Status")},
	{13, "SensGsmCellMonotoringCellMonitoring", fs("uuyyyy", "Mcc", "Mnc", "Lac", "Cid", "Rssi", "TimeAdv")},
	{7, "SensNdNavData", fs("xxuuuuuuu", "Longitude", "Latitude", "Altitude", "Speed", "Course", "SatCount", "Pdop", "Track", "Odometer")},
	{21, "SensStorInfo", fs("uuuuuu", "IdMax", "IdMin", "TmOldest", "TmOldestUnack", "CntUnack", "CntUnackLosted")},
	{15, "SensTermoData", fs("us", "Status", "Temperature")},
	{23, "SensTestEraTests", fs("bbbbbbbbbb", "MicConFailure", "MicFailure", "IgnitionFailure", "UimFailure", "BatFailure", "BatVoltLow", "CrashSensFailure", "RaimProblem", "GnssAntennaFailure", "EventsMemoryOverflow")},
	{22, "SensTrackerInfo", fs("uuuu", "CntAck", "CntAckRealtime", "CntNoack", "CntConnect")},
}

// pval is a value of one field: a number (bits of a float) or bytes.
type pval struct {
	n uint64
	y []byte
}

// psub is one submessage: values of some of its fields.
type psub struct {
	m  int // index into plusMsgs
	vs map[int]pval
}

// plusRec is a StorageRecord.
type plusRec struct {
	num, tm, status uint32
	reasons         []uint64
	subs            []psub // ascending by field number
}

func varint(b []byte, v uint64) []byte {
	for ; v > 127; v >>= 7 {
		b = append(b, byte(v)|128)
	}
	return append(b, byte(v))
}

func (p plusRec) wire() []byte {
	b := varint([]byte{1 << 3}, uint64(p.num))
	b = binary.LittleEndian.AppendUint32(append(b, 2<<3|5), p.tm)
	for _, r := range p.reasons {
		b = varint(append(b, 3<<3), r)
	}
	b = binary.LittleEndian.AppendUint32(append(b, 4<<3|5), p.status)
	ss := append([]psub(nil), p.subs...)
	sort.SliceStable(ss, func(i, j int) bool { return plusMsgs[ss[i].m].num < plusMsgs[ss[j].m].num })
	for _, s := range ss {
		var in []byte
		m := plusMsgs[s.m]
		for _, f := range m.fs {
			v, ok := s.vs[f.num]
			if !ok {
				continue
			}
			switch f.kind {
			case "u", "b":
				in = varint(varint(in, uint64(f.num)<<3), v.n)
			case "s":
				x := int32(v.n)
				in = varint(varint(in, uint64(f.num)<<3), uint64(uint32(x<<1^x>>31)))
			case "f", "x":
				in = binary.LittleEndian.AppendUint32(varint(in, uint64(f.num)<<3|5), uint32(v.n))
			case "y":
				in = append(varint(varint(in, uint64(f.num)<<3|2), uint64(len(v.y))), v.y...)
			}
		}
		b = append(varint(varint(b, uint64(m.num)<<3|2), uint64(len(in))), in...)
	}
	return b
}

// lib is the library's value for it.
func (p plusRec) lib() *egts.StorageRecord {
	l := &egts.StorageRecord{RecordNumber: &p.num, TimeStamp: &p.tm, StatusFlags: &p.status}
	for _, r := range p.reasons {
		l.RecordReason = append(l.RecordReason, egts.StorageRecordReason(r))
	}
	lv := reflect.ValueOf(l).Elem()
	for _, s := range p.subs {
		m := plusMsgs[s.m]
		f := lv.FieldByName(m.name)
		e := reflect.New(f.Type().Elem().Elem())
		for _, fd := range m.fs {
			v, ok := s.vs[fd.num]
			if !ok {
				continue
			}
			g := e.Elem().FieldByName(fd.name)
			if fd.kind == "y" {
				g.SetBytes(append([]byte{}, v.y...))
				continue
			}
			x := reflect.New(g.Type().Elem())
			switch fd.kind {
			case "u":
				x.Elem().SetUint(v.n)
			case "b":
				x.Elem().SetBool(v.n == 1)
			case "s", "x":
				x.Elem().SetInt(int64(int32(v.n)))
			case "f":
				x.Elem().SetFloat(float64(math.Float32frombits(uint32(v.n))))
			}
			g.Set(x)
		}
		f.Set(reflect.Append(f, e))
	}
	return l
}

// samePlus compares field by field, over the documented fields only.
func samePlus(a, b egts.BinaryData) string {
	x, y := reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem()
	eq := func(p, q reflect.Value) bool {
		if p.Kind() == reflect.Ptr {
			if p.IsNil() != q.IsNil() {
				return false
			}
			if p.IsNil() {
				return true
			}
			p, q = p.Elem(), q.Elem()
			if p.Kind() == reflect.Float32 {
				return math.Float32bits(float32(p.Float())) == math.Float32bits(float32(q.Float()))
			}
			return p.Interface() == q.Interface()
		}
		return string(p.Bytes()) == string(q.Bytes()) && p.IsNil() == q.IsNil()
	}
	for _, n := range []string{"RecordNumber", "TimeStamp", "StatusFlags"} {
		if !eq(x.FieldByName(n), y.FieldByName(n)) {
			return fmt.Sprintf("%s differs: %+v, want %+v", n, a, b)
		}
	}
	if fmt.Sprint(x.FieldByName("RecordReason").Interface()) != fmt.Sprint(y.FieldByName("RecordReason").Interface()) {
		return fmt.Sprintf("RecordReason differs: %+v, want %+v", a, b)
	}
	for _, m := range plusMsgs {
		p, q := x.FieldByName(m.name), y.FieldByName(m.name)
		if p.Len() != q.Len() {
			return fmt.Sprintf("%d %s, want %d", p.Len(), m.name, q.Len())
		}
		for i := 0; i < p.Len(); i++ {
			for _, f := range m.fs {
				if !eq(p.Index(i).Elem().FieldByName(f.name), q.Index(i).Elem().FieldByName(f.name)) {
					return fmt.Sprintf("%s.%s differs: %+v, want %+v", m.name, f.name, a, b)
				}
			}
		}
	}
	return ""
}

func kindValues(k string) (out []pval) {
	switch k {
	case "b":
		return []pval{{n: 0}, {n: 1}}
	case "y":
		return []pval{{y: []byte{}}, {y: []byte{0}}, {y: []byte("\xFF\x00\x80")}, {y: make([]byte, 127)}, {y: make([]byte, 128)}, {y: make([]byte, 300)}}
	case "f":
		for _, f := range []float32{0, 1, -1, 0.1, 123456.78, math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.Copysign(0, -1))} {
			out = append(out, pval{n: uint64(math.Float32bits(f))})
		}
		return
	}
	for _, e := range edges(32) {
		out = append(out, pval{n: e})
	}
	for i := uint64(0); i < 256; i++ {
		out = append(out, pval{n: i}, pval{n: i << 7}, pval{n: i << 14}, pval{n: i << 21}, pval{n: i << 24})
	}
	return
}

// fullSub has every field of message m set, values depending on seed.
func fullSub(m int, seed uint64) psub {
	s := psub{m, map[int]pval{}}
	for i, f := range plusMsgs[m].fs {
		x := (seed*0x9E3779B1 + uint64(i+1)*0x85EBCA77) & 0xFFFFFFFF
		switch f.kind {
		case "b":
			s.vs[f.num] = pval{n: x >> 7 & 1}
		case "y":
			s.vs[f.num] = pval{y: []byte{byte(x), byte(x >> 8), 0}}
		case "f":
			s.vs[f.num] = pval{n: uint64(math.Float32bits(float32(x) / 1000))}
		default:
			s.vs[f.num] = pval{n: x}
		}
	}
	return s
}

// plusGroups enumerates StorageRecords.
func plusGroups(f func(name string, each func(yield func(p plusRec)))) {
	base := plusRec{num: 60027, tm: 0x5C5F463B, status: 0x25}
	f("EGTS_PLUS_DATA required fields", func(yield func(p plusRec)) {
		for _, v := range kindValues("u") {
			for i := 0; i < 3; i++ {
				p := base
				*[]*uint32{&p.num, &p.tm, &p.status}[i] = uint32(v.n)
				yield(p)
			}
		}
	})
	f("EGTS_PLUS_DATA reasons", func(yield func(p plusRec)) {
		for a := uint64(1); a <= 39; a++ {
			if a == 39 {
				a = 99
			}
			p := base
			p.reasons = []uint64{a}
			yield(p)
			for b := uint64(1); b <= 38; b++ {
				p.reasons = []uint64{a, b}
				yield(p)
				p.reasons = []uint64{a, b, a}
				yield(p)
			}
		}
	})
	for m, pm := range plusMsgs {
		for fi, fd := range pm.fs {
			f(fmt.Sprintf("EGTS_PLUS_DATA %s.%s", pm.name, fd.name), func(yield func(p plusRec)) {
				for _, v := range kindValues(fd.kind) {
					p := base
					p.subs = []psub{{m, map[int]pval{fd.num: v}}}
					yield(p)
					full := fullSub(m, uint64(fi))
					full.vs[fd.num] = v
					p.subs = []psub{full}
					yield(p)
				}
			})
		}
		f("EGTS_PLUS_DATA "+pm.name+" presence of fields", func(yield func(p plusRec)) {
			n := len(pm.fs)
			for mask := 0; mask < 1<<n; mask++ {
				s := fullSub(m, 5)
				for i, fd := range pm.fs {
					if mask>>i&1 == 0 {
						delete(s.vs, fd.num)
					}
				}
				p := base
				p.subs = []psub{s}
				yield(p)
			}
		})
		for m2 := range plusMsgs {
			f(fmt.Sprintf("EGTS_PLUS_DATA %s and %s", pm.name, plusMsgs[m2].name), func(yield func(p plusRec)) {
				p := base
				p.reasons = []uint64{11, 99}
				p.subs = []psub{fullSub(m, 1), fullSub(m2, 2)}
				yield(p)
				p.subs = []psub{fullSub(m, 1), fullSub(m2, 2), fullSub(m, 3)}
				yield(p)
			})
		}
	}
	f("EGTS_PLUS_DATA everything", func(yield func(p plusRec)) {
		p := base
		for k := uint64(1); k <= 3; k++ {
			for m := range plusMsgs {
				p.subs = append(p.subs, fullSub(m, k))
			}
			yield(p)
		}
	})
}
