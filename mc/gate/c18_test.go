package gate

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	log "github.com/sirupsen/logrus"
	"verif.local/mc/ref"
	"verif.local/mc/vnet"
	"verif.local/mc/x"
)

// jval is a JSON value that keeps number texts and refuses duplicate keys.
type jval struct {
	kind byte // o a s n b 0
	obj  map[string]jval
	arr  []jval
	s    string
}

func parseJSON(b []byte) (jval, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	v, err := jread(d)
	if err != nil {
		return v, err
	}
	if _, err := d.Token(); err != io.EOF {
		return v, fmt.Errorf("something follows the object")
	}
	return v, nil
}

func jread(d *json.Decoder) (v jval, err error) {
	t, err := d.Token()
	if err != nil {
		return v, err
	}
	switch t := t.(type) {
	case json.Delim:
		if t == '{' {
			v.kind, v.obj = 'o', map[string]jval{}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return v, err
				}
				e, err := jread(d)
				if err != nil {
					return v, err
				}
				if _, dup := v.obj[k.(string)]; dup {
					return v, fmt.Errorf("key %q twice", k)
				}
				v.obj[k.(string)] = e
			}
		} else {
			v.kind = 'a'
			for d.More() {
				e, err := jread(d)
				if err != nil {
					return v, err
				}
				v.arr = append(v.arr, e)
			}
		}
		_, err = d.Token()
	case string:
		v.kind, v.s = 's', t
	case json.Number:
		v.kind, v.s = 'n', string(t)
	case bool:
		v.kind, v.s = 'b', fmt.Sprint(t)
	case nil:
		v.kind = '0'
	}
	return
}

// sameRecord compares the serialised form with the record, key by key.
func sameRecord(b []byte, n *storage.NavRecord) string {
	v, err := parseJSON(b)
	if err != nil {
		return fmt.Sprintf("not one JSON object: %v: %s", err, b)
	}
	var bad []string
	keys := func(where string, v jval, want string) bool {
		if v.kind != 'o' {
			bad = append(bad, where+" is not an object")
			return false
		}
		if got := strings.Join(x.Keys(v.obj), " "); got != want {
			bad = append(bad, fmt.Sprintf("%s has the keys %s, want %s", where, got, want))
			return false
		}
		return true
	}
	str := func(where string, v jval, want string) {
		if v.kind != 's' || v.s != want {
			bad = append(bad, fmt.Sprintf("%s is %c %q, want %q", where, v.kind, v.s, want))
		}
	}
	num := func(where string, v jval, want int64) {
		g, err := strconv.ParseInt(v.s, 10, 64)
		if v.kind != 'n' || err != nil || g != want {
			bad = append(bad, fmt.Sprintf("%s is %c %q, want %d", where, v.kind, v.s, want))
		}
	}
	flt := func(where string, v jval, want float64) {
		g, err := strconv.ParseFloat(v.s, 64)
		if v.kind != 'n' || err != nil || math.Float64bits(g) != math.Float64bits(want) && !(g == 0 && want == 0) {
			bad = append(bad, fmt.Sprintf("%s is %c %q, want %v", where, v.kind, v.s, want))
		}
	}
	list := func(where string, v jval, n int) bool {
		if v.kind == '0' && n == 0 {
			return false
		}
		if v.kind != 'a' || len(v.arr) != n {
			bad = append(bad, fmt.Sprintf("%s is %c with %d elements, want %d", where, v.kind, len(v.arr), n))
			return false
		}
		return true
	}
	if !keys("the record", v, "IMEI an_sensors client_id liquid_sensors loc_states loc_states_count navigation_unix_time packet_id received_dt server_id") {
		return strings.Join(bad, "; ")
	}
	str("server_id", v.obj["server_id"], n.ServerID)
	str("IMEI", v.obj["IMEI"], n.IMEI)
	num("client_id", v.obj["client_id"], int64(n.ClientID))
	str("received_dt", v.obj["received_dt"], n.ReceivedDt)
	num("packet_id", v.obj["packet_id"], int64(n.PacketID))
	num("navigation_unix_time", v.obj["navigation_unix_time"], n.NavigationTimestamp)
	num("loc_states_count", v.obj["loc_states_count"], int64(n.LocStatesCount))
	if list("an_sensors", v.obj["an_sensors"], len(n.AnSensors)) {
		for i, e := range v.obj["an_sensors"].arr {
			if w := fmt.Sprintf("an_sensors[%d]", i); keys(w, e, "sensor_number value") {
				num(w+".sensor_number", e.obj["sensor_number"], int64(n.AnSensors[i].SensorNumber))
				num(w+".value", e.obj["value"], int64(n.AnSensors[i].Value))
			}
		}
	}
	if list("liquid_sensors", v.obj["liquid_sensors"], len(n.LiquidSensors)) {
		for i, e := range v.obj["liquid_sensors"].arr {
			l := n.LiquidSensors[i]
			if w := fmt.Sprintf("liquid_sensors[%d]", i); keys(w, e, "error_flag module_number sensor_number value_l value_mm value_unit") {
				num(w+".sensor_number", e.obj["sensor_number"], int64(l.SensorNumber))
				num(w+".module_number", e.obj["module_number"], int64(l.ModuleNumber))
				str(w+".error_flag", e.obj["error_flag"], l.ErrorFlag)
				str(w+".value_unit", e.obj["value_unit"], l.ValueUnit)
				num(w+".value_mm", e.obj["value_mm"], int64(l.ValueMm))
				flt(w+".value_l", e.obj["value_l"], l.ValueL)
			}
		}
	}
	if list("loc_states", v.obj["loc_states"], len(n.LocStates)) {
		for i, e := range v.obj["loc_states"].arr {
			l := n.LocStates[i]
			if w := fmt.Sprintf("loc_states[%d]", i); keys(w, e, "lat lng navigation_dt speed") {
				flt(w+".lat", e.obj["lat"], l.Latitude)
				flt(w+".lng", e.obj["lng"], l.Longitude)
				num(w+".speed", e.obj["speed"], int64(l.Speed))
				str(w+".navigation_dt", e.obj["navigation_dt"], l.NavigationDt)
			}
		}
	}
	return strings.Join(bad, "; ")
}

func clone(n *storage.NavRecord) *storage.NavRecord {
	m := *n
	m.AnSensors, m.LiquidSensors, m.LocStates = slices.Clone(n.AnSensors), slices.Clone(n.LiquidSensors), slices.Clone(n.LocStates)
	return &m
}

func equalRec(a, b *storage.NavRecord) bool {
	return reflect.DeepEqual(a, b)
}

var (
	logMu  sync.Mutex
	logBuf bytes.Buffer
)

type lockedWriter struct{}

func (lockedWriter) Write(b []byte) (int, error) {
	logMu.Lock()
	defer logMu.Unlock()
	return logBuf.Write(b)
}

func captureLog(fn func()) string {
	logMu.Lock()
	logBuf.Reset()
	logMu.Unlock()
	x.OnCase = nil
	log.SetOutput(lockedWriter{})
	log.SetFormatter(&log.JSONFormatter{})
	log.SetLevel(log.InfoLevel)
	defer func() {
		log.SetLevel(log.PanicLevel)
		log.SetOutput(io.Discard)
	}()
	fn()
	logMu.Lock()
	defer logMu.Unlock()
	return logBuf.String()
}

// loggedRecords finds the serialised records in log output, wherever in an entry they are.
func loggedRecords(out string) (recs []string) {
	for _, line := range strings.Split(out, "\n") {
		var m map[string]any
		if json.Unmarshal([]byte(line), &m) != nil {
			continue
		}
		for _, v := range m {
			switch v := v.(type) {
			case string:
				if i := strings.Index(v, "{"); i >= 0 && strings.Contains(v, `"server_id"`) {
					j := strings.LastIndex(v, "}")
					recs = append(recs, v[i:j+1])
				}
			case map[string]any:
				if _, ok := v["server_id"]; ok {
					b, _ := json.Marshal(v)
					recs = append(recs, string(b))
				}
			}
		}
	}
	return
}

func oneRecord(c *x.C, n *storage.NavRecord, alsoLog bool) {
	keep := clone(n)
	b, err := n.ToBytes()
	if err != nil {
		c.Fail("error", "ToBytes fails: %v (%+v)", err, *n)
	}
	b = append([]byte(nil), b...)
	c.State(x.HB(18, b))
	c.Step(1)
	if s := sameRecord(b, keep); s != "" {
		c.Fail("content", "%s\n%s\n%+v", s, b, *keep)
	}
	if !equalRec(n, keep) {
		c.Fail("changed", "serialising changed the record: %+v, was %+v", *n, *keep)
	}
	b2, err := n.ToBytes()
	if err != nil || !bytes.Equal(b, b2) {
		c.Fail("unstable", "the second serialisation differs: %s, first %s (%v)", b2, b, err)
	}
	if alsoLog {
		var err error
		out := captureLog(func() { err = storage.LogConnector{}.Save(n) })
		if err != nil {
			c.Fail("log", "the log store fails: %v", err)
		}
		recs := loggedRecords(out)
		if len(recs) != 1 {
			c.Fail("log", "the log store writes the record %d times: %s", len(recs), out)
		}
		if s := sameRecord([]byte(recs[0]), keep); s != "" {
			c.Fail("log", "logged record: %s\n%s", s, recs[0])
		}
		if !equalRec(n, keep) {
			c.Fail("changed", "logging changed the record")
		}
		c.Count("records logged")
	}
}

func TestC18(t *testing.T) {
	time.Local = time.FixedZone("test", 5*3600+1800)
	run(t, func(r *x.R) {
		base := func() *storage.NavRecord {
			return &storage.NavRecord{ServerID: "S", IMEI: imei, ClientID: 12, ReceivedDt: "2000-01-01T00:00:00Z", PacketID: 34, NavigationTimestamp: 1262304000,
				AnSensors:     []storage.AnSensor{{SensorNumber: 1, Value: 70000}, {SensorNumber: 8, Value: 1}},
				LiquidSensors: []storage.LiquidSensor{{SensorNumber: 3, ModuleNumber: 300, ErrorFlag: "1", ValueUnit: "10", ValueMm: 5, ValueL: 7.7}},
				LocStates:     []storage.LocState{{Latitude: 55.5, Longitude: -37.25, Speed: 60, NavigationDt: "2010-01-01T00:00:00Z"}, {Latitude: -1.5, Longitude: 2.5, Speed: 6, NavigationDt: "2010-01-01T00:01:00Z"}}, LocStatesCount: 2}
		}
		texts := []string{"", "0", "null", "a b", "\"", "\\", "\\\"}{", "/", "<a href='&'>", "\u0000", "\u0001\u001f\u007f", "\n\r\t\b\f", "ёжик", "\u2028\u2029", "\U0001F600", "\u0080\u00ff\ufffd", strings.Repeat("9", 15), strings.Repeat("x", 5000), "353173069480147", "{\"server_id\":1}"}
		u32s := []uint32{0, 1, 9, 10, 127, 128, 255, 256, 65535, 65536, 0xFFFFFF, 0x1000000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF}
		i64s := []int64{0, 1, -1, 1262304000, 1262304000 + 0xFFFFFFFF, 1<<53 - 1, 1 << 53, 1<<53 + 1, -1 << 53, math.MaxInt64, math.MinInt64}
		flts := []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 55.75, 90, -90, 180, -180, 1e-7, 1e-6, 9.999999e-7, 1e-9, 1e20, 1e21, 1e22, 123456789.123456789, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Nextafter(55.5, 56), 90.0 / 0xFFFFFFFF, 180.0 / 0xFFFFFFFF, 429496729.5}
		type set = func(n *storage.NavRecord)
		fields := map[string][]set{}
		put := func(f string, s set) { fields[f] = append(fields[f], s) }
		for _, v := range texts {
			put("ServerID", func(n *storage.NavRecord) { n.ServerID = v })
			put("IMEI", func(n *storage.NavRecord) { n.IMEI = v })
			put("ReceivedDt", func(n *storage.NavRecord) { n.ReceivedDt = v })
			put("NavigationDt", func(n *storage.NavRecord) { n.LocStates[1].NavigationDt = v })
			put("ErrorFlag", func(n *storage.NavRecord) { n.LiquidSensors[0].ErrorFlag = v })
			put("ValueUnit", func(n *storage.NavRecord) { n.LiquidSensors[0].ValueUnit = v })
		}
		for _, v := range u32s {
			put("ClientID", func(n *storage.NavRecord) { n.ClientID = v })
			put("PacketID", func(n *storage.NavRecord) { n.PacketID = v })
			put("AnValue", func(n *storage.NavRecord) { n.AnSensors[1].Value = v })
			put("ValueMm", func(n *storage.NavRecord) { n.LiquidSensors[0].ValueMm = v })
			put("LocStatesCount", func(n *storage.NavRecord) { n.LocStatesCount = int32(v) })
			put("Speed", func(n *storage.NavRecord) { n.LocStates[0].Speed = uint16(v) })
			put("Module", func(n *storage.NavRecord) { n.LiquidSensors[0].ModuleNumber = uint16(v) })
			put("AnNumber", func(n *storage.NavRecord) { n.AnSensors[0].SensorNumber = uint8(v) })
			put("LiqNumber", func(n *storage.NavRecord) { n.LiquidSensors[0].SensorNumber = uint8(v) })
		}
		for _, v := range i64s {
			put("NavigationTimestamp", func(n *storage.NavRecord) { n.NavigationTimestamp = v })
		}
		for _, v := range flts {
			put("Latitude", func(n *storage.NavRecord) { n.LocStates[0].Latitude = v })
			put("Longitude", func(n *storage.NavRecord) { n.LocStates[1].Longitude = v })
			put("ValueL", func(n *storage.NavRecord) { n.LiquidSensors[0].ValueL = v })
		}
		names := x.Keys(fields)
		// every pair of values of every two fields
		for i, f := range names {
			for j := i; j < len(names); j++ {
				g := names[j]
				r.Case(x.HS("pair", f, g), func() string { return "every pair of values of " + f + " and " + g }, func(c *x.C) {
					for a, s := range fields[f] {
						for b, u := range fields[g] {
							n := base()
							s(n)
							if f != g {
								u(n)
							} else if a != b {
								continue
							}
							oneRecord(c, n, f == g)
						}
					}
				})
			}
		}
		// sizes of the lists
		x.Seqs(6, 3, 3, func(q []int) {
			s := append([]int(nil), q...)
			r.Case(x.HI(3, uint64(s[0]), uint64(s[1]), uint64(s[2])), func() string { return fmt.Sprintf("list sizes %v (5: nil)", s) }, func(c *x.C) {
				n := base()
				n.AnSensors, n.LiquidSensors, n.LocStates = nil, nil, nil
				if s[0] < 5 {
					n.AnSensors = make([]storage.AnSensor, s[0])
					for i := range n.AnSensors {
						n.AnSensors[i] = storage.AnSensor{SensorNumber: uint8(i + 1), Value: uint32(i) << 8}
					}
				}
				if s[1] < 5 {
					n.LiquidSensors = make([]storage.LiquidSensor, s[1])
					for i := range n.LiquidSensors {
						n.LiquidSensors[i] = storage.LiquidSensor{SensorNumber: uint8(i), ModuleNumber: uint16(i), ErrorFlag: "0", ValueUnit: "01", ValueMm: uint32(i)}
					}
				}
				if s[2] < 5 {
					n.LocStates = make([]storage.LocState, s[2])
					for i := range n.LocStates {
						n.LocStates[i] = storage.LocState{Latitude: float64(i), Longitude: -float64(i), Speed: uint16(i), NavigationDt: epoch.Add(time.Duration(i) * time.Second).Format(time.RFC3339)}
					}
					n.LocStatesCount = int32(s[2])
				}
				oneRecord(c, n, true)
			})
		})
		// long lists and long texts
		for _, size := range []int{10, 31, 32, 33, 60, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1024, 2048, 3000, 4096} {
			for which := 0; which < 8; which++ {
				r.Case(x.HI(8, uint64(size), uint64(which)), func() string { return fmt.Sprintf("lists or texts (choice %d) of length %d", which, size) }, func(c *x.C) {
					n := base()
					if which == 0 || which == 3 {
						n.AnSensors = nil
						for i := 0; i < size; i++ {
							n.AnSensors = append(n.AnSensors, storage.AnSensor{SensorNumber: uint8(size - i), Value: uint32(i) * 7})
						}
					}
					if which == 1 || which == 3 {
						n.LiquidSensors = nil
						for i := 0; i < size; i++ {
							n.LiquidSensors = append(n.LiquidSensors, storage.LiquidSensor{SensorNumber: uint8(size - i), ModuleNumber: uint16(i), ErrorFlag: "0", ValueUnit: "10", ValueL: float64(i) / 10})
						}
					}
					if which == 2 || which == 3 {
						n.LocStates, n.LocStatesCount = nil, int32(size)
						for i := 0; i < size; i++ {
							n.LocStates = append(n.LocStates, storage.LocState{Latitude: float64(i) / 100, Longitude: -float64(i) / 10, Speed: uint16(i), NavigationDt: epoch.Add(time.Duration(i) * time.Second).Format(time.RFC3339)})
						}
					}
					switch which {
					case 4:
						n.ServerID = strings.Repeat("ж", size)
					case 5:
						n.IMEI = strings.Repeat("5", size)
					case 6:
						n.ReceivedDt = strings.Repeat("<", size)
					case 7:
						n.LocStates[1].NavigationDt = strings.Repeat("\x00", size)
					}
					oneRecord(c, n, true)
				})
			}
		}
		// coordinates over the wire's domain: every value of its upper 16 (thorough 20) bits, and characters one by one
		bits := 16
		if r.Thorough {
			bits = 22
		}
		for hi := 0; hi < 256; hi++ {
			r.Case(x.HI(4, uint64(hi)), func() string { return fmt.Sprintf("coordinates from %02x000000", hi) }, func(c *x.C) {
				for k := 0; k < 1<<(bits-8); k++ {
					v := uint32(hi)<<24 | uint32(k)<<(32-bits) | uint32(k*hi)&(1<<(32-bits)-1)
					n := base()
					n.LocStates = n.LocStates[:1]
					n.LocStates[0].Latitude = float64(v) * 90 / 0xFFFFFFFF
					n.LocStates[0].Longitude = -float64(v) * 180 / 0xFFFFFFFF
					n.LiquidSensors[0].ValueL = float64(v) / 10
					oneRecord(c, n, false)
				}
			})
			r.Case(x.HI(5, uint64(hi)), func() string { return fmt.Sprintf("characters from %x00", hi) }, func(c *x.C) {
				for k := 0; k < 256; k++ {
					cp := rune(hi<<8 | k)
					if cp >= 0xD800 && cp < 0xE000 {
						continue
					}
					n := base()
					n.IMEI = "a" + string(cp) + "b"
					oneRecord(c, n, k == 0)
				}
			})
		}
		// the log store writes every record it is given, equal to an earlier one or not: every sequence of
		// three records, through one value of the store and through several
		x.Seqs(3, 2, 6, func(q []int) {
			for _, several := range []bool{false, true} {
				r.Case(x.HI(14, b2i(several), x.HS(fmt.Sprint(q))), func() string { return fmt.Sprintf("records %v into the log store, several: %v", q, several) }, func(c *x.C) {
					rs := []*storage.NavRecord{base(), base(), base()}
					rs[1].PacketID++
					rs[2].LocStates = nil
					one := &storage.LogConnector{}
					var want []*storage.NavRecord
					out := captureLog(func() {
						for _, k := range q {
							st := one
							if several {
								st = &storage.LogConnector{}
							}
							if err := st.Save(rs[k]); err != nil {
								c.Fail("log", "the log store fails: %v", err)
							}
							want = append(want, rs[k])
						}
					})
					recs := loggedRecords(out)
					if len(recs) != len(want) {
						c.Fail("log", "the log store wrote %d records of %d: %s", len(recs), len(want), out)
					}
					for i := range recs {
						if s := sameRecord([]byte(recs[i]), want[i]); s != "" {
							c.Fail("log", "record %d: %s: %s", i, s, recs[i])
						}
					}
					c.Step(len(q))
					c.Count("sequences of records logged")
				})
			}
		})
		// records with a number that JSON has no form for are an error, everywhere
		for _, v := range []float64{math.NaN(), math.Inf(1), math.Inf(-1)} {
			for _, k := range []int{1, 2, 3, 40} {
				for at := 0; at < k; at++ {
					for f := 0; f < 3; f++ {
						r.Case(x.HI(11, math.Float64bits(v), uint64(k), uint64(at), uint64(f)), func() string { return fmt.Sprintf("%v in field %d of entry %d of %d", v, f, at, k) }, func(c *x.C) {
							n := base()
							n.LocStates = make([]storage.LocState, k)
							n.LiquidSensors = make([]storage.LiquidSensor, k)
							n.LocStatesCount = int32(k)
							switch f {
							case 0:
								n.LocStates[at].Latitude = v
							case 1:
								n.LocStates[at].Longitude = v
							case 2:
								n.LiquidSensors[at].ValueL = v
							}
							if b, err := n.ToBytes(); err == nil {
								c.Fail("error", "serialised as %s", b)
							}
							var err error
							out := captureLog(func() { err = storage.LogConnector{}.Save(n) })
							if recs := loggedRecords(out); err == nil || len(recs) > 0 {
								c.Fail("log", "the log store returns %v and writes %d records", err, len(recs))
							}
							c.Step(2)
							c.Count("records that cannot be serialised")
						})
					}
				}
			}
		}
		// records made by the gateway: receive time over dates, reported time over its domain, in another time zone
		dates := []string{"2000-01-01T00:00:01Z", "2000-02-29T23:59:59Z", "2000-12-31T23:59:59Z", "2009-12-31T18:29:59Z", "2016-02-29T12:00:00Z", "2026-03-29T01:30:00Z", "2026-10-25T01:30:00Z", "2038-01-19T03:14:08Z", "2099-12-31T20:00:00Z", "2100-02-28T23:59:59Z", "2106-02-07T06:28:16Z", "2262-04-11T00:00:00Z"}
		tms := []uint32{0, 1, 59, 86399, 86400, 5097599, 5097600, 31535999, 31536000, 66 * 86400 * 30, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF}
		for _, d := range dates {
			at, err := time.Parse(time.RFC3339, d)
			if err != nil {
				panic(err)
			}
			for _, tm := range tms {
				for _, frac := range []time.Duration{0, time.Nanosecond, 499 * time.Millisecond, 999999999} {
					r.Case(x.HS(d, fmt.Sprint(tm, frac)), func() string { return fmt.Sprintf("received at %s + %v, reported time %d", d, frac, tm) }, func(c *x.C) {
						st := &Store{Name: "a"}
						p := pos(tm % 7)
						p.TM = tm
						p2 := p
						p2.TM = tm ^ 0x10000
						m := DataMsg("pos", 9, TRec{RN: 1, OID: u32(5), SST: 2, Items: items(p, p2, ref.AbsAn{N: 3, V: 7}, liq(tm%3))})
						var saves []vnet.Event
						res := Exec(0, []*Store{st}, func(s *Sim) {
							k := s.Conn()
							s.Sleep(time.Until(at.Add(frac)))
							k.Send(m.Wire)
							s.Wait()
							saves = s.Saves("a")
						})
						c.Step(2)
						c.Trace()
						if len(res.Fatal) > 0 {
							c.Fail("crash", "%s", res.Fatal[0])
						}
						if len(saves) != 1 {
							c.Fail("gateway", "%d records saved", len(saves))
						}
						c.State(x.HB(19, saves[0].Data))
						if s := checkExport(saves[0].Data, m.Exp, at); s != "" {
							c.Fail("gateway", "%s", s)
						}
						if s := gatewayKeys(saves[0].Data); s != "" {
							c.Fail("gateway", "%s", s)
						}
					})
				}
			}
		}
		// the gateway with the log store: every record is logged once, in order, with the content the first store got
		for n := 1; n <= 6; n++ {
			r.Case(x.HI(7, uint64(n)), func() string { return fmt.Sprintf("gateway with the log store, %d packets", n) }, func(c *x.C) {
				st := &Store{Name: "a"}
				var saves []vnet.Event
				var res Res
				out := captureLog(func() {
					res = execWith(ttl, []*Store{st}, []storage.Saver{storage.LogConnector{}}, func(s *Sim) {
						k := s.Conn()
						for i := 0; i < n; i++ {
							k.Send(kinds[[]int{0, 1, 4, 5}[i%4]].mk(uint16(i), uint16(i)).Wire)
							s.Sleep(time.Second)
						}
						saves = s.Saves("a")
					})
				})
				if len(res.Fatal) > 0 {
					c.Fail("crash", "%s", res.Fatal[0])
				}
				recs := loggedRecords(out)
				c.Step(n)
				if len(recs) != len(saves) {
					c.Fail("log", "%d records logged, %d saved", len(recs), len(saves))
				}
				for i := range recs {
					a, e1 := parseJSON([]byte(recs[i]))
					b, e2 := parseJSON(saves[i].Data)
					if e1 != nil || e2 != nil || !reflect.DeepEqual(a, b) {
						c.Fail("log", "logged %s, saved %s", recs[i], saves[i].Data)
					}
				}
			})
		}
	})
}

// gatewayKeys checks that a saved record has exactly the documented keys.
func gatewayKeys(b []byte) string {
	var n storage.NavRecord
	if err := json.Unmarshal(b, &n); err != nil {
		return err.Error()
	}
	return sameRecord(b, &n)
}
