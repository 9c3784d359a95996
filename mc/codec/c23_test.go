package codec

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"sync"
	"testing"

	"github.com/ElectroUnion/egts-gate/libs/egts"

	"verif.local/mc/ref"
	"verif.local/mc/x"
)

func likeSub(a, b egts.BinaryData) string {
	if _, plus := a.(*egts.StorageRecord); plus {
		return equal(a, b, 0)
	}
	if !reflect.DeepEqual(a, b) {
		return fmt.Sprintf("%+v instead of %+v", a, b)
	}
	return ""
}

func flip(b []byte) {
	for i := range b {
		b[i] = ^b[i]
	}
}

// outcome is what one decoding gave.
type outcome struct {
	p    egts.Package
	code uint8
	bad  bool
}

func decodePkg(b []byte) (o outcome) {
	code, err := o.p.Decode(b)
	o.code, o.bad = uint8(code), err != nil
	return
}

func (o outcome) differs(w outcome) string {
	switch {
	case o.bad != w.bad || o.code != w.code:
		return fmt.Sprintf("result %d, error %v instead of result %d, error %v", o.code, o.bad, w.code, w.bad)
	case w.bad:
		return ""
	}
	return samePkg(&o.p, &w.p, 0, true)
}

// letter is one packet, well-formed or damaged, of the histories of decodings.
type letter struct {
	name string
	wire []byte
}

func letters() (out []letter) {
	ss := samples()
	rv := []uint64{5, 1, 77, 88, 99, 2, 2}
	add := func(name string, h ref.Pkt, rpid uint16, recs ...rec) []byte {
		b := pkg{h: h, rpid: rpid, recs: recs}.ref().Bytes()
		out = append(out, letter{name, b})
		return b
	}
	plain := ref.Pkt{PT: 1, PRV: 1, PID: 7}
	var all []pair
	for i, s := range ss {
		if i%2 == 0 {
			all = append(all, s)
		}
	}
	var rest []pair
	for i, s := range ss {
		if i%2 == 1 {
			rest = append(rest, s)
		}
	}
	a := add("every kind", plain, 0, mkRec(rv, all...))
	add("every kind, other values", ref.Pkt{PT: 1, PRV: 1, PID: 8, RTE: 1, PRA: 1, RCA: 2, TTL: 3}, 0, mkRec([]uint64{6, 0, 0, 0, 0, 2, 2}, rest...), mkRec(rv, all[0]))
	add("response", ref.Pkt{PT: 0, PRV: 1, PID: 9}, 4, mkRec(rv, ss[22], ss[23]))
	add("bare response", ref.Pkt{PT: 0, PRV: 1, PID: 10}, 5)
	add("one", plain, 0, mkRec([]uint64{6, 0, 0, 0, 0, 2, 2}, all[0]))
	var many []rec
	for i := range 24 {
		many = append(many, mkRec([]uint64{uint64(i), 1, 77, 88, 99, 2, 2}, rest[0], rest[1]))
	}
	add("many", plain, 0, many...)
	bad := func(name string, f func(b []byte) []byte) {
		out = append(out, letter{name, f(append([]byte(nil), a...))})
	}
	bad("half", func(b []byte) []byte { return b[:len(b)/2] })
	bad("header only", func(b []byte) []byte { return b[:11] })
	bad("nothing", func(b []byte) []byte { return b[:0] })
	bad("wrong body checksum", func(b []byte) []byte { b[len(b)-1] ^= 1; return b })
	bad("wrong header checksum", func(b []byte) []byte { b[10] ^= 1; return b })
	q := ref.Appdata(3, ref.Rec{RN: 1, SST: 2, RST: 2, Subs: []ref.Sub{{T: 16, Body: all[0].wire}, {T: 99, Body: []byte{1, 2}}}})
	out = append(out, letter{"unknown kind last", q.Bytes()})
	q = ref.Appdata(3, ref.Rec{RN: 1, SST: 2, RST: 2, Subs: []ref.Sub{{T: 18, Body: []byte{1, 0, 0xFF}}}})
	out = append(out, letter{"short content", q.Bytes()})
	return
}

func TestC23(t *testing.T) {
	x.Run(t, func(r *x.R) {
		ss := samples()
		r.Case(x.HS("race"), func() string { return "decoding and encoding at once, every pair of kinds, under the race detector" }, func(c *x.C) { c.Race("TestRace", "VMC_RACE=1") })
		ls := letters()
		others := func() {
			for _, l := range ls {
				decodePkg(append([]byte(nil), l.wire...))
			}
		}
		dirty := map[byte][][]byte{}
		for _, s := range ss {
			dirty[s.typ] = append(dirty[s.typ], s.wire, s.wire[:len(s.wire)/2])
		}
		m := 0
		enumSubs(r, func(c *x.C, p pair) {
			a := zero(p.typ)
			if a == nil {
				return
			}
			in := append([]byte(nil), p.wire...)
			err := a.Decode(in)
			if !bytes.Equal(in, p.wire) {
				c.Fail("input", "%s: decoding changes the bytes % x to % x", p.name(), clipb(p.wire), clipb(in))
			}
			if m++; m%64 == 0 {
				for _, d := range dirty[p.typ] {
					zero(p.typ).Decode(append([]byte(nil), d...))
				}
			}
			flip(in)
			b := zero(p.typ)
			if err2 := b.Decode(append([]byte(nil), p.wire...)); (err == nil) != (err2 == nil) {
				c.Fail("repeat", "%s: decoding % x gives %v and then %v", p.name(), clipb(p.wire), err, err2)
			}
			if err != nil {
				return
			}
			e := likeSub(a, b)
			if e == "" && (m%16 == 0 || r.Thorough) {
				scramble(reflect.ValueOf(a))
				e = likeSub(b, again(p))
			}
			if e != "" {
				c.Fail("alias", "%s: what was decoded from % x depends on these bytes afterwards, or on other decodings: %s", p.name(), clipb(p.wire), e)
			}
		})
		n := 0
		enumPkgs(r, func(c *x.C, p pkg, name func() string) {
			w := p.ref().Bytes()
			in := append([]byte(nil), w...)
			a := decodePkg(in)
			if !bytes.Equal(in, w) {
				c.Fail("input", "%s: decoding changes the bytes % x to % x", name(), clipb(w), clipb(in))
			}
			if n++; n%64 == 0 {
				others()
			}
			flip(in)
			decodePkg(in)
			b := decodePkg(append([]byte(nil), w...))
			e := a.differs(b)
			if e == "" {
				scramble(reflect.ValueOf(&a.p))
				e = b.differs(decodePkg(append([]byte(nil), w...)))
			}
			if e == "" && !b.bad {
				e = samePkg(&b.p, p.lib(true), 0.001, true)
			}
			if e != "" {
				c.Fail("alias", "%s: what was decoded from % x depends on these bytes afterwards, or on other decodings: %s", name(), clipb(w), e)
			}
		})
		twins(r, func(a, b pkg, name string) {
			r.Case(x.HS("twins", name), func() string { return "packets that are much alike: " + name }, func(c *x.C) {
				c.Trace()
				for _, q := range []string{"ab", "ba", "aab", "aba", "axb", "abab"} {
					for i, k := range q {
						p := map[rune]pkg{'a': a, 'b': b, 'x': a}[k]
						w := p.ref().Bytes()
						if k == 'x' {
							w[len(w)-1] ^= 1
							decodePkg(w)
							continue
						}
						o := decodePkg(w)
						c.State(x.HI(x.HB(9, w), uint64(o.code)))
						e := "an error"
						if !o.bad {
							e = samePkg(&o.p, p.lib(true), 0.001, true)
						}
						if e != "" {
							c.Fail("twins", "%s: decoding %q: number %d gives %s", name, q, i, e)
						}
					}
					c.Step(len(q))
				}
			})
		})
		// every history of decodings: each gives what it gives at first, and keeps it
		depth := 3
		if r.Thorough {
			depth = 4
		}
		x.Seqs(len(ls), 2, depth, func(q []int) {
			if !r.Mine() {
				r.Case(0, nil, nil)
				return
			}
			q = append([]int(nil), q...)
			h := x.HI(5)
			for _, k := range q {
				h = x.HI(h, uint64(k))
			}
			r.Case(h, func() string {
				s := "decoding"
				for _, k := range q {
					s += ", " + ls[k].name
				}
				return s
			}, func(c *x.C) {
				buf := make([]byte, 0, 70000) // one buffer for all, as a reader would use it
				var got []outcome
				for i, k := range q {
					buf = append(buf[:0], ls[k].wire...)
					o := decodePkg(buf)
					if !bytes.Equal(buf, ls[k].wire) {
						c.Fail("input", "decoding %d changes its bytes", i)
					}
					got = append(got, o)
					c.State(x.HI(h, uint64(i), uint64(o.code)))
				}
				flip(buf)
				for i, k := range q {
					if e := got[i].differs(first(ls, k)); e != "" {
						c.Fail("history", "decoding %d (%s): %s", i, ls[k].name, e)
					}
				}
				c.Step(len(q))
				c.Trace()
			})
		})
	})
}

var firsts = map[int]outcome{}

// first is what decoding the letter gave the first time.
func first(ls []letter, k int) outcome {
	o, ok := firsts[k]
	if !ok {
		o = decodePkg(append([]byte(nil), ls[k].wire...))
		firsts[k] = o
	}
	return o
}

// TestRace decodes the same bytes, and encodes values of their own, in two goroutines that have exchanged
// nothing, for every pair of kinds.
func TestRace(t *testing.T) {
	if os.Getenv("VMC_RACE") == "" {
		t.Skip()
	}
	type job struct {
		name string
		run  func()
	}
	jobs := func() (out []job) {
		for _, s := range samples() {
			if zero(s.typ) == nil {
				continue
			}
			wire := s.wire
			out = append(out, job{s.name(), func() { zero(s.typ).Decode(wire); s.lib.Length(); s.lib.Encode() }})
		}
		return
	}
	two := [2][]job{jobs(), jobs()}
	ls := letters()
	for _, l := range ls {
		for k := range two {
			two[k] = append(two[k], job{"packet: " + l.name, func() {
				p := egts.Package{}
				if _, err := p.Decode(l.wire); err == nil {
					p.Encode()
				}
			}})
		}
	}
	for i := range two[0] {
		for j := range two[1] {
			fmt.Printf("RACE-CASE %s and %s\n", two[0][i].name, two[1][j].name)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for _, f := range []func(){two[0][i].run, two[1][j].run} {
				wg.Add(1)
				go func() { defer wg.Done(); <-start; f() }()
			}
			close(start)
			wg.Wait()
		}
	}
	fmt.Println("RACE-DONE")
}

// again decodes the subrecord once more.
func again(p pair) egts.BinaryData {
	d := zero(p.typ)
	d.Decode(append([]byte(nil), p.wire...))
	return d
}

// scramble changes whatever can be reached from the value.
func scramble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			if v.Kind() == reflect.Interface && v.Elem().Kind() != reflect.Pointer {
				return
			}
			scramble(v.Elem())
		}
	case reflect.Struct:
		for i := range v.NumField() {
			if v.Type().Field(i).IsExported() {
				scramble(v.Field(i))
			}
		}
	case reflect.Slice, reflect.Array:
		for i := range v.Len() {
			scramble(v.Index(i))
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		if v.CanSet() {
			v.SetUint(^v.Uint() & (1<<(8*v.Type().Size()) - 1))
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		if v.CanSet() {
			v.SetInt(^v.Int())
		}
	case reflect.Float32, reflect.Float64:
		if v.CanSet() {
			v.SetFloat(v.Float() + 1)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "!")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}

// twins gives pairs of packets of the same length that differ in one field of a subrecord, and in a counter
// which is chosen so that the checksums of their bodies are equal, or not.
func twins(r *x.R, f func(a, b pkg, name string)) {
	var cntr layout
	for _, l := range layouts() {
		if l.typ == 25 {
			cntr = l
		}
	}
	sum := func(p pkg) uint16 {
		w := p.ref().Bytes()
		return uint16(w[len(w)-2]) | uint16(w[len(w)-1])<<8
	}
	rv := []uint64{5, 1, 77, 88, 99, 2, 2}
	mk := func(subject pair, place int, count uint64, resp byte) pkg {
		fix := mkPair(cntr, []uint64{3, count})
		other := samples()[8]
		var subs []pair
		switch place {
		case 0:
			subs = []pair{fix, other, subject}
		case 1:
			subs = []pair{other, fix, subject}
		default:
			subs = []pair{subject, other, fix}
		}
		return pkg{h: ref.Pkt{PT: resp, PRV: 1, PID: 7}, rpid: 4, recs: []rec{mkRec(rv, subs...)}}
	}
	for _, l := range layouts() {
		for fi := range l.bits {
			for _, bit := range []uint{0, uint(max(l.bits[fi], 1) - 1)} {
				bg := backgrounds(l.bits)[3]
				v, w := append([]uint64(nil), bg...), append([]uint64(nil), bg...)
				if l.bits[fi] < 0 {
					w[fi] = (w[fi] + 1) % uint64(-l.bits[fi])
				} else {
					w[fi] ^= 1 << bit
				}
				if l.skip != nil && (l.skip(v) || l.skip(w)) {
					continue
				}
				a, b := mkPair(l, v), mkPair(l, w)
				if len(a.wire) != len(b.wire) || bytes.Equal(a.wire, b.wire) {
					continue
				}
				for place := range 3 {
					for resp := range byte(2) {
						first := mk(a, place, 0x123456, resp)
						f(first, mk(b, place, 0x123456, resp), fmt.Sprintf("%s field %d bit %d, place %d, type %d, other sums", l.name, fi, bit, place, resp))
						// the checksum is linear in the bits of the counter
						base, want := sum(mk(b, place, 0x123456, resp)), sum(first)
						var effect [24]uint16
						for i := range effect {
							effect[i] = sum(mk(b, place, 0x123456^1<<i, resp)) ^ base
						}
						for k := range uint64(1 << 24) {
							d := base
							for i := range effect {
								if k>>i&1 == 1 {
									d ^= effect[i]
								}
							}
							if d == want {
								second := mk(b, place, 0x123456^k, resp)
								if sum(second) != want {
									panic("twins: sums differ")
								}
								f(first, second, fmt.Sprintf("%s field %d bit %d, place %d, type %d, equal sums", l.name, fi, bit, place, resp))
								break
							}
						}
					}
				}
			}
		}
	}
}
