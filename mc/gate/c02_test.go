package gate

import (
	"errors"
	"fmt"
	"io"
	"syscall"
	"testing"
	"time"

	"verif.local/mc/ref"
	"verif.local/mc/vnet"
	"verif.local/mc/x"
)

// streams to cut: between them they hold every message kind, both header forms, and packets that end
// exactly at and one past the first ten bytes.
func cutStreams(thorough bool) (out [][]Msg) {
	k := func(name string, pid, rn uint16) Msg {
		for _, d := range kinds {
			if d.name == name {
				return d.mk(pid, rn)
			}
		}
		panic(name)
	}
	routed := DataMsgH("routed", ref.Pkt{RTE: 1, PRA: 5, RCA: 6, TTL: 3}, 300, TRec{RN: 5, OID: u32(4), SST: 2, Items: items(pos(2))})
	out = [][]Msg{
		{k("auth", 1, 1), k("pos", 2, 2)},
		{k("pos", 257, 1), k("bad-body-crc", 258, 2), k("pos", 259, 3)},
		{k("response", 3, 1), k("term", 4, 2)},
		{routed, k("empty-body", 301, 6), k("confirmations-in-data", 302, 7)},
		{k("bad-header-crc", 11, 1), k("term+pos", 12, 2)},
		{k("unknown-type", 21, 1), k("pos", 22, 1), k("not-egts", 23, 2), k("pos", 24, 3)},
	}
	if thorough {
		out = append(out, []Msg{k("three", 31, 1), k("sensors", 32, 1)}, []Msg{k("bad-second-record", 41, 1), k("pos", 42, 9), k("response-empty", 43, 1)})
	}
	return
}

// cutRun delivers the segments with pauses and compares with what the stream as a whole calls for.
func cutRun(c *x.C, ms []Msg, segs [][]byte, pause time.Duration, end error, failWrites bool) {
	total := 0
	for _, s := range segs {
		total += len(s)
	}
	var comp []Msg // complete in the prefix delivered
	n := 0
	for _, m := range ms {
		if n += len(m.Wire); n > total {
			break
		}
		comp = append(comp, m)
	}
	live, _ := alive(comp)
	st := &Store{Name: "a"}
	var out []byte
	var saves []vnet.Event
	closed := false
	res := Exec(ttl, []*Store{st}, func(s *Sim) {
		k := s.Conn()
		if failWrites {
			k.FailWrites(syscall.EPIPE)
		}
		for i, g := range segs {
			if i > 0 && pause > 0 {
				s.Sleep(pause)
			}
			k.Send(g)
			if !failWrites {
				s.Wait()
			}
		}
		k.End(end)
		s.Sleep(ttl + time.Second)
		out, saves = k.Out(), s.Saves("a")
		closed, _ = k.Closed()
	})
	h := x.HI(2, uint64(len(live)), uint64(total))
	for i, g := range segs {
		h = x.HI(h, uint64(i), uint64(len(g)))
		c.State(h)
	}
	c.Step(len(segs))
	c.Trace()
	if len(res.Fatal) > 0 {
		c.Fail("crash", "%s", res.Fatal[0])
	}
	if !failWrites {
		if s := checkReplies(out, live); s != "" {
			c.Fail("reply", "%s", s)
		}
	}
	if s := checkSaves(saves, live, true); s != "" {
		c.Fail("save", "%s", s)
	}
	if !closed {
		c.Fail("close", "connection not released")
	}
}

func cut(b []byte, at ...int) (out [][]byte) {
	p := 0
	for _, a := range at {
		out = append(out, b[p:a])
		p = a
	}
	return append(out, b[p:])
}

var errReset = errors.New("connection reset by peer")

func TestC02(t *testing.T) {
	run(t, func(r *x.R) {
		for si, ms := range cutStreams(r.Thorough) {
			b := Stream(ms)
			d := func(f string, a ...any) func() string {
				return func() string {
					return fmt.Sprintf("stream %d [%s] of %d bytes, %s", si, Names(ms), len(b), fmt.Sprintf(f, a...))
				}
			}
			pauses := []time.Duration{0, 700 * time.Millisecond, ttl - time.Millisecond}
			// one segment per byte
			for _, p := range pauses {
				r.Case(x.HI(1, uint64(si), uint64(p)), d("byte by byte, pause %v", p), func(c *x.C) {
					var g [][]byte
					for i := range b {
						g = append(g, b[i:i+1])
					}
					cutRun(c, ms, g, p, io.EOF, false)
				})
			}
			// every size of equal segments
			for n := 2; n < len(b); n++ {
				r.Case(x.HI(2, uint64(si), uint64(n)), d("segments of %d bytes", n), func(c *x.C) {
					var g [][]byte
					for i := 0; i < len(b); i += n {
						g = append(g, b[i:min(i+n, len(b))])
					}
					cutRun(c, ms, g, 0, io.EOF, false)
				})
			}
			// every one and every two cuts
			for i := 1; i < len(b); i++ {
				for _, p := range pauses {
					r.Case(x.HI(3, uint64(si), uint64(i), uint64(p)), d("cut at %d, pause %v", i, p), func(c *x.C) { cutRun(c, ms, cut(b, i), p, io.EOF, false) })
				}
				for j := i + 1; j < len(b); j++ {
					p := pauses[(i+j)%3]
					r.Case(x.HI(4, uint64(si), uint64(i), uint64(j)), d("cut at %d and %d, pause %v", i, j, p), func(c *x.C) { cutRun(c, ms, cut(b, i, j), p, io.EOF, false) })
					if r.Thorough && (si == 0 || si == 4) {
						for l := j + 1; l < len(b); l++ {
							r.Case(x.HI(5, uint64(si), uint64(i), uint64(j), uint64(l)), d("cut at %d, %d and %d", i, j, l), func(c *x.C) { cutRun(c, ms, cut(b, i, j, l), 0, io.EOF, false) })
						}
					}
				}
			}
			// every prefix, ending in a close, a reset, or silence; in one piece, cut once, and with the peer gone for replies
			for n := 0; n <= len(b); n++ {
				for ei, end := range []error{io.EOF, syscall.ECONNRESET, nil} {
					r.Case(x.HI(6, uint64(si), uint64(n), uint64(ei)), d("only its first %d bytes, then %v", n, end), func(c *x.C) { cutRun(c, ms, [][]byte{b[:n]}, 0, end, false) })
					r.Case(x.HI(7, uint64(si), uint64(n), uint64(ei)), d("only its first %d bytes, then %v, replies cannot be sent", n, end), func(c *x.C) { cutRun(c, ms, [][]byte{b[:n]}, 0, end, true) })
					step := 5
					if r.Thorough {
						step = 1
					}
					for i := 1; i < n; i += step {
						r.Case(x.HI(8, uint64(si), uint64(n), uint64(i), uint64(ei)), d("only its first %d bytes, cut at %d, then %v", n, i, end), func(c *x.C) {
							cutRun(c, ms, cut(b[:n], i), 0, end, false)
						})
					}
				}
			}
		}
		// every form of a packet between two others, cut once
		for i, sh := range shapes("position", func() []item { return items(pos(3)) }) {
			ms := []Msg{kinds[0].mk(1, 1), sh.mk(2, 2), kinds[2].mk(3, 3)}
			b := Stream(ms)
			lo, hi := len(ms[0].Wire)-1, len(b)-len(ms[2].Wire)+1
			for at := lo; at <= hi; at++ {
				if !r.Thorough && (at+i)%5 != 0 {
					continue
				}
				r.Case(x.HI(9, uint64(i), uint64(at)), func() string { return fmt.Sprintf("%s, between others, cut at %d", sh.name, at) }, func(c *x.C) { cutRun(c, ms, cut(b, at), 0, io.EOF, false) })
			}
		}
		// large packets: sizes around the buffer sizes in use, whole, in equal segments, cut once, and cut short
		sizes := []int{500, 512, 1000, 1024, 1460, 1500, 2048, 4080, 4096, 4110, 8192, 16384, 32768, 50000, 65000, 65530}
		for zi, z := range sizes {
			ms := []Msg{kinds[0].mk(1, 1), big("big", 2, z), kinds[2].mk(3, 3), big("big too", 4, z+5), kinds[1].mk(5, 5)}
			if z > 65500 {
				ms[3] = big("big too", 4, z-3000)
			}
			b := Stream(ms)
			name := func(f string, a ...any) func() string {
				return func() string { return fmt.Sprintf("packets of %d bytes among others, %s", z, fmt.Sprintf(f, a...)) }
			}
			for _, seg := range []int{1, 2, 7, 10, 11, 53, 128, 256, 511, 512, 513, 536, 1000, 1023, 1024, 1025, 1400, 1448, 1460, 1500, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 65535, 65536, 1 << 20} {
				if seg < 10 && len(b) > 20000 && !r.Thorough {
					continue
				}
				r.Case(x.HI(10, uint64(zi), uint64(seg)), name("segments of %d bytes", seg), func(c *x.C) {
					var g [][]byte
					for i := 0; i < len(b); i += seg {
						g = append(g, b[i:min(i+seg, len(b))])
					}
					cutRun(c, ms, g, 0, io.EOF, false)
				})
			}
			var at []int
			for p := 64; p < len(b); p *= 2 {
				for d := -12; d <= 12; d++ {
					at = append(at, p+d)
				}
			}
			for _, m := range []int{1, 2, 3, 4} { // around the ends of the packets
				e := len(Stream(ms[:m]))
				for d := -12; d <= 17; d++ {
					at = append(at, e+d)
				}
			}
			for _, p := range at {
				if p <= 0 || p >= len(b) {
					continue
				}
				r.Case(x.HI(11, uint64(zi), uint64(p)), name("cut at %d", p), func(c *x.C) { cutRun(c, ms, cut(b, p), 0, io.EOF, false) })
				r.Case(x.HI(12, uint64(zi), uint64(p)), name("cut at %d, pause", p), func(c *x.C) { cutRun(c, ms, cut(b, p), ttl-time.Millisecond, io.EOF, false) })
				r.Case(x.HI(13, uint64(zi), uint64(p)), name("only the first %d bytes", p), func(c *x.C) { cutRun(c, ms, [][]byte{b[:p]}, 0, io.EOF, false) })
				r.Case(x.HI(14, uint64(zi), uint64(p)), name("only the first %d bytes, then a reset", p), func(c *x.C) { cutRun(c, ms, [][]byte{b[:p]}, 0, syscall.ECONNRESET, false) })
			}
		}
		// many packets in one segment, and in segments that end anywhere
		for _, n := range []int{10, 60, 100, 130, 500, 1300, 2000} {
			var ms []Msg
			for i := 0; i < n; i++ {
				ms = append(ms, kinds[[]int{0, 2, 5, 9, 8, 4}[i%6]].mk(uint16(i), uint16(3*i)))
			}
			b := Stream(ms)
			for _, seg := range []int{1 << 20, 65536, 65535, 4096, 4095, 4097, 1024, 1000, 1460, 61, 37} {
				if seg < 100 && n > 500 && !r.Thorough {
					continue
				}
				r.Case(x.HI(15, uint64(n), uint64(seg)), func() string { return fmt.Sprintf("%d packets, %d bytes, in segments of %d bytes", n, len(b), seg) }, func(c *x.C) {
					var g [][]byte
					for i := 0; i < len(b); i += seg {
						g = append(g, b[i:min(i+seg, len(b))])
					}
					cutRun(c, ms, g, 0, io.EOF, false)
				})
			}
			for d := 0; d < 70; d++ { // what is complete is done, wherever the segment ends
				p := len(b) - 1 - d
				r.Case(x.HI(16, uint64(n), uint64(d)), func() string { return fmt.Sprintf("the first %d of the %d bytes of %d packets", p, len(b), n) }, func(c *x.C) {
					cutRun(c, ms, [][]byte{b[:p]}, 0, io.EOF, false)
				})
			}
		}
		// every way for a connection to end, at every place
		ends := oddErrs()
		ms := []Msg{kinds[0].mk(1, 1), kinds[2].mk(2, 2)}
		b := Stream(ms)
		for n := 0; n <= len(b); n++ {
			for ei, e := range ends {
				r.Case(x.HI(17, uint64(n), uint64(ei)), func() string {
					return fmt.Sprintf("a position and an auth packet, only the first %d bytes, then %s", n, e.name)
				}, func(c *x.C) {
					cutRun(c, ms, [][]byte{b[:n]}, 0, e.err, false)
				})
			}
		}
	})
}
