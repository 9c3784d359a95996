// Package gen checks the packet generator: the real program, built from the repository, against a
// scripted server on the loopback network.
package gen

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"net"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"verif.local/mc/ref"
	"verif.local/mc/x"
)

var bin = os.Getenv("VMC_BIN") + "/packet-gen"

// step is one segment of the server's answer.
type step struct {
	wait time.Duration
	data []byte
}

// script is what the server does once it has the request.
type script struct {
	steps      []step
	end        string // "close", "reset", "hold"
	early      bool   // answer at once instead of after the request
	listen, as string // address of the server, and how the program is given it
}

func (s script) String() string {
	var b strings.Builder
	for _, t := range s.steps {
		if t.wait > 0 {
			fmt.Fprintf(&b, "wait %v; ", t.wait)
		}
		if len(t.data) > 200 {
			fmt.Fprintf(&b, "send %d bytes % x...; ", len(t.data), t.data[:60])
		} else {
			fmt.Fprintf(&b, "send % x; ", t.data)
		}
	}
	return b.String() + s.end
}

type outcome struct {
	code    int
	out     string
	sent    []byte // everything the program sent
	conns   int
	took    time.Duration
	stopped bool // had to be killed
}

// run runs the program with args plus -server against the script.
func run(s script, args ...string) outcome {
	listen, as := s.listen, s.as
	if listen == "" {
		listen, as = "127.0.0.1", "127.0.0.1"
	}
	ln, err := net.Listen("tcp", listen+":0")
	if err != nil {
		panic(err)
	}
	var mu sync.Mutex
	var o outcome
	var wg sync.WaitGroup
	done := make(chan struct{})
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			k, err := ln.Accept()
			if err != nil {
				return
			}
			mu.Lock()
			o.conns++
			mu.Unlock()
			wg.Add(1)
			go func() {
				defer wg.Done()
				serve(k.(*net.TCPConn), s, &mu, &o.sent, done)
			}()
		}
	}()
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, append([]string{"-server", fmt.Sprintf("%s:%d", as, ln.Addr().(*net.TCPAddr).Port)}, args...)...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	t0 := time.Now()
	err = cmd.Run()
	o.took = time.Since(t0)
	close(done)
	// a connection made just before the end may still be in the queue
	ln.(*net.TCPListener).SetDeadline(time.Now().Add(2 * time.Millisecond))
	wg.Wait()
	ln.Close()
	o.out, o.code = out.String(), cmd.ProcessState.ExitCode()
	o.stopped = ctx.Err() != nil
	return o
}

func serve(k *net.TCPConn, s script, mu *sync.Mutex, sent *[]byte, done chan struct{}) {
	defer k.Close()
	var fin sync.WaitGroup
	whole := make(chan struct{})
	fin.Add(1)
	go func() {
		defer fin.Done()
		var got []byte
		open := true
		b := make([]byte, 4096)
		for {
			n, err := k.Read(b)
			got = append(got, b[:n]...)
			if open && len(got) >= 11 && len(got) >= int(got[3])+int(got[5])+int(got[6])<<8+2 {
				close(whole)
				open = false
			}
			if err != nil {
				break
			}
		}
		mu.Lock()
		*sent = append(*sent, got...)
		mu.Unlock()
	}()
	if !s.early {
		select {
		case <-whole:
		case <-done:
		}
	}
	for _, t := range s.steps {
		if t.wait > 0 {
			select {
			case <-time.After(t.wait):
			case <-done:
			}
		}
		k.Write(t.data)
	}
	switch s.end {
	case "close":
		k.CloseWrite()
	case "reset":
		k.SetLinger(0)
		k.Close()
	}
	<-done
	fin.Wait()
}

// args of an ordinary run.
type want struct {
	pid    uint16
	oid    uint32
	tm     uint32
	lat    float64
	lon    float64
	liquid uint32
}

var plain = []string{"-pid", "1", "-oid", "12", "-time", "2021-12-16T09:12:00Z", "-lat", "45", "-lon", "60.344", "-liquid", "77"}

var epoch = time.Date(2010, 1, 1, 0, 0, 0, 0, time.UTC)

func secs(s string) uint32 {
	t, err := time.Parse(time.RFC3339, s)
	if err != nil {
		panic(err)
	}
	return uint32(math.Floor(t.Sub(epoch).Seconds()))
}

// checkSent compares what the program sent with what was asked for.
func checkSent(b []byte, w want) string {
	p, n, err := ref.ParsePkt(b)
	if err != nil {
		return fmt.Sprintf("not a valid packet: %v: % x", err, b)
	}
	if n != len(b) {
		return fmt.Sprintf("%d bytes after the packet: % x", len(b)-n, b)
	}
	if p.PRV != 1 || p.PT != ref.PtAppdata || p.PRF != 0 || p.ENA != 0 || p.CMP != 0 || p.HE != 0 {
		return fmt.Sprintf("not a plain data packet: % x", b)
	}
	if p.PID != w.pid {
		return fmt.Sprintf("packet identifier %d, asked for %d", p.PID, w.pid)
	}
	if ref.WellFormed(p.PT, p.Body) != 1 {
		return fmt.Sprintf("malformed body: % x", p.Body)
	}
	recs, _ := ref.ParseRecs(p.Body)
	var pos []ref.Pos
	var liq [][]byte
	for _, r := range recs {
		if r.SST != 2 || r.RST != 2 {
			return fmt.Sprintf("service types %d and %d of a telemetry record", r.SST, r.RST)
		}
		if r.OID == nil || *r.OID != w.oid {
			return fmt.Sprintf("object identifier missing or other than %d: % x", w.oid, p.Body)
		}
		for _, s := range r.Subs {
			switch s.T {
			case 16:
				q, ok := ref.ParsePos(s.Body)
				if !ok {
					return fmt.Sprintf("position % x", s.Body)
				}
				pos = append(pos, q)
			case 27:
				liq = append(liq, s.Body)
			default:
				return fmt.Sprintf("subrecord of type %d", s.T)
			}
		}
	}
	if len(pos) != 1 || len(liq) != 1 {
		return fmt.Sprintf("%d positions and %d liquid levels", len(pos), len(liq))
	}
	q := pos[0]
	if q.TM != w.tm {
		return fmt.Sprintf("navigation time %d, asked for %d", q.TM, w.tm)
	}
	near := func(got uint32, v, scale float64) bool {
		return math.Abs(float64(got)-v/scale*0xFFFFFFFF) <= 1.001
	}
	if !near(q.Lat, math.Abs(w.lat), 90) || !near(q.Lon, math.Abs(w.lon), 180) {
		return fmt.Sprintf("latitude %d longitude %d, asked for %v %v", q.Lat, q.Lon, w.lat, w.lon)
	}
	if q.Lat > 1 && (q.Flags>>5&1 == 1) != (w.lat < 0) || q.Lon > 1 && (q.Flags>>6&1 == 1) != (w.lon < 0) {
		return fmt.Sprintf("hemisphere flags %08b for %v %v", q.Flags, w.lat, w.lon)
	}
	if q.Flags&1 != 1 {
		return "the position is marked invalid"
	}
	l := liq[0]
	if got := uint32(l[3]) | uint32(l[4])<<8 | uint32(l[5])<<16 | uint32(l[6])<<24; got != w.liquid || l[0]&8 != 0 {
		return fmt.Sprintf("liquid level % x, asked for %d", l, w.liquid)
	}
	return ""
}

func crashed(o outcome) bool {
	return o.code < 0 || strings.Contains(o.out, "panic:") || strings.Contains(o.out, "goroutine ") || strings.Contains(o.out, "fatal error:")
}

// positive tells what the first packet in b means for the request pid: 1 a positive answer, 0 not, -1 undecided.
func positive(b []byte, pid uint16) int {
	p, _, err := ref.ParsePkt(b)
	if err != nil || p.PT != ref.PtResponse || len(p.Body) < 3 {
		return 0
	}
	switch ref.WellFormed(p.PT, p.Body) {
	case 0:
		return 0
	case -1:
		return -1
	}
	if uint16(p.Body[0])|uint16(p.Body[1])<<8 != pid || p.Body[2] != 0 {
		return 0
	}
	recs, _ := ref.ParseRecs(p.Body[3:])
	for _, r := range recs {
		for _, s := range r.Subs {
			if s.T == 0 && s.Body[2] != 0 {
				return 0
			}
		}
	}
	return 1
}

func headerOnly(b []byte) bool {
	p, _, err := ref.ParsePkt(b)
	return err == nil && ref.HeaderOnlyLast(p.PT, p.Body)
}

// verdict compares one run with the expected one.
func verdict(c *x.C, o outcome, ok bool, w *want) {
	c.Step(1)
	c.Trace()
	c.Count(map[bool]string{true: "acknowledged", false: "refused"}[ok])
	c.State(x.HB(uint64(o.code), o.sent))
	if o.stopped {
		c.Fail("hang", "the program did not end")
	}
	if crashed(o) {
		c.Fail("crash", "status %d: %s", o.code, o.out)
	}
	if ok != (o.code == 0) {
		c.Fail("status", "exit status %d (output %q)", o.code, o.out)
	}
	if w != nil {
		if o.conns != 1 {
			c.Fail("sent", "%d connections", o.conns)
		}
		if s := checkSent(o.sent, *w); s != "" {
			c.Fail("sent", "%s", s)
		}
	} else if len(o.sent) != 0 {
		c.Fail("sent", "sent % x", o.sent)
	}
}

func rec(rn uint16, subs ...ref.Sub) ref.Rec { return ref.Rec{RN: rn, SST: 2, RST: 2, Subs: subs} }
func conf(crn uint16, st byte) ref.Sub       { return ref.RecResp{CRN: crn, RST: st}.Sub() }

func good(pid uint16) []byte { return ref.Response(9, pid, 0, rec(1, conf(1, 0))).Bytes() }

func TestC17(t *testing.T) {
	x.Run(t, func(r *x.R) {
		pw := want{1, 12, secs("2021-12-16T09:12:00Z"), 45, 60.344, 77}
		// one reply, sent in the given segments, then the end
		reply := func(name string, s script, pid uint16) {
			var all []byte
			for _, t := range s.steps {
				all = append(all, t.data...)
			}
			exp := positive(all, pid)
			if exp < 0 {
				return
			}
			r.Case(x.HS("reply", name, s.String(), fmt.Sprint(pid)), func() string { return fmt.Sprintf("%s: packet %d, answer: %v", name, pid, s) }, func(c *x.C) {
				a := append([]string(nil), plain...)
				a[1] = strconv.Itoa(int(pid))
				w := pw
				w.pid = pid
				o := run(s, a...)
				if exp == 0 && o.code == 0 && !crashed(o) && headerOnly(all) {
					c.Fail("last-record-without-data", "exit status 0 for an answer whose last record has no data behind its header")
				}
				verdict(c, o, exp == 1, &w)
			})
		}
		one := func(name string, b []byte, pid uint16) {
			reply(name, script{steps: []step{{0, b}}, end: "close"}, pid)
		}
		timeRuns(r, pw)
		segments(r, reply)
		// the result, the acknowledged packet and the record statuses
		for v := 0; v < 256; v++ {
			one("result", ref.Response(3, 1, byte(v), rec(1, conf(1, 0))).Bytes(), 1)
			one("result without records", ref.Response(3, 1, byte(v)).Bytes(), 1)
			one("status", ref.Response(3, 1, 0, rec(1, conf(1, byte(v)))).Bytes(), 1)
			one("packet type", func() []byte { p := ref.Response(3, 1, 0, rec(1, conf(1, 0))); p.PT = byte(v); return p.Bytes() }(), 1)
		}
		for _, pid := range []uint16{1, 2, 0x00FF, 0x0100, 0x0102, 0x7FFF, 0x8000, 0xFFFF} {
			others := map[uint16]bool{pid: true, pid + 1: true, pid - 1: true, pid<<8 | pid>>8: true, pid & 0xFF: true, pid & 0xFF00: true, 0: true, 9: true, ^pid: true}
			for i := 0; i < 16; i++ {
				others[pid^1<<i] = true
			}
			for o := 0; o < 65536; o++ {
				if others[uint16(o)] {
					one("acknowledged packet", good(uint16(o)), pid)
					one("own number of the answer", ref.Response(uint16(o), pid, 0, rec(1, conf(1, 0))).Bytes(), pid)
				}
			}
		}
		// every assignment of statuses to the confirmations of up to three records with up to two each
		sts := []byte{0, 1, 128, 255}
		shapes := [][]int{{0}, {1}, {2}, {1, 1}, {0, 1}, {1, 0}, {2, 1}, {1, 2}, {1, 1, 1}}
		if r.Thorough {
			shapes = append(shapes, []int{3}, []int{2, 2}, []int{4}, []int{1, 0, 1}, []int{2, 1, 1})
		}
		for _, sh := range shapes {
			n := 0
			for _, k := range sh {
				n += k
			}
			x.Seqs(len(sts), n, n, func(s []int) {
				i := 0
				var recs []ref.Rec
				for j, k := range sh {
					var subs []ref.Sub
					for ; k > 0; k-- {
						subs = append(subs, conf(uint16(i+1), sts[s[i]]))
						i++
					}
					recs = append(recs, rec(uint16(j+1), subs...))
				}
				one("statuses", ref.Response(3, 1, 0, recs...).Bytes(), 1)
				one("statuses, negative result", ref.Response(3, 1, 153, recs...).Bytes(), 1)
				p := ref.Response(3, 1, 0, recs...)
				p.RTE, p.PRA, p.RCA, p.TTL = 1, 2, 3, 4
				one("routed", p.Bytes(), 1)
				d := ref.Appdata(1, recs...)
				if len(d.Body) > 0 {
					one("data packet instead", d.Bytes(), 1)
				}
			})
		}
		// every form of record header, of the record with a status and of one beside it
		for f := 0; f < 256; f++ {
			form := func(r ref.Rec, f int) ref.Rec {
				r.SSOD, r.RSOD, r.GRP, r.RPP = byte(f>>7), byte(f>>6&1), byte(f>>5&1), byte(f>>3&3)
				for i, p := range []**uint32{&r.OID, &r.EVID, &r.TM} {
					if f>>i&1 == 1 {
						*p = ref.U32(uint32(f)<<i + 1)
					}
				}
				return r
			}
			for _, st := range []byte{0, 1} {
				one("record form", ref.Response(3, 1, 0, form(rec(1, conf(1, st)), f)).Bytes(), 1)
				one("record form", ref.Response(3, 1, 0, form(rec(1, conf(1, 0)), f), rec(2, conf(1, st))).Bytes(), 1)
				if f%3 == 0 {
					one("record form", ref.Response(3, 1, 0, rec(1, conf(1, 0)), form(rec(2, conf(2, st)), f)).Bytes(), 1)
				}
				a, b := rec(1, conf(1, 0)), rec(2, conf(2, st))
				b.SST, b.RST = byte(f), 1
				one("service types", ref.Response(3, 1, 0, a, b).Bytes(), 1)
				b.SST, b.RST = 3, byte(f)
				one("service types", ref.Response(3, 1, 0, a, b).Bytes(), 1)
				b.RN, a.SST = uint16(f)*257, byte(f)
				one("record numbers", ref.Response(3, 1, 0, b, a).Bytes(), 1)
				one("confirmed record", ref.Response(3, 1, 0, rec(1, conf(uint16(f)*257, st))).Bytes(), 1)
			}
		}
		// statuses after other subrecords, and other subrecords alone
		for _, st := range sts {
			one("mixed", ref.Response(3, 1, 0, rec(1, ref.ResCode{RCD: 0}.Sub(), conf(1, st))).Bytes(), 1)
			one("mixed", ref.Response(3, 1, 0, rec(1, conf(1, st), ref.ResCode{RCD: 0}.Sub())).Bytes(), 1)
			one("mixed", ref.Response(3, 1, 0, rec(1, ref.AbsAn{N: 1, V: 2}.Sub()), rec(2, conf(1, st))).Bytes(), 1)
		}
		one("no confirmation", ref.Response(3, 1, 0, rec(1, ref.ResCode{RCD: 0}.Sub())).Bytes(), 1)
		// answers of every size class
		for _, n := range []int{1, 10, 100, 165, 166, 167, 168, 169, 170, 171, 172, 200, 341, 342, 1000, 5000, 10000, 10921} {
			for _, bad := range []int{-1, 0, n / 2, n - 1} {
				var subs []ref.Sub
				for i := 0; i < n; i++ {
					st := byte(0)
					if i == bad {
						st = 1
					}
					subs = append(subs, conf(uint16(i), st))
				}
				var recs []ref.Rec
				for i := 0; len(subs) > 0; i++ {
					k := min(len(subs), 5000)
					recs = append(recs, rec(uint16(i), subs[:k]...))
					subs = subs[k:]
				}
				p := ref.Response(3, 1, 0, recs...)
				if len(p.Body) > 0xFFFF {
					continue
				}
				b := p.Bytes()
				one("large", b, 1)
				reply("large in two", script{steps: []step{{0, b[:len(b)/2]}, {20 * time.Millisecond, b[len(b)/2:]}}, end: "close"}, 1)
			}
		}
		// damage: every byte of the answer replaced, with and without repaired checksums, and every truncation
		g := ref.Response(9, 1, 0, rec(1, conf(1, 0)))
		gb := g.Bytes()
		var vals []byte
		for i := 0; i < 8; i++ {
			vals = append(vals, 1<<i)
		}
		vals = append(vals, 0xFF, 0x55, 3, 7)
		if r.Thorough {
			vals = vals[:0]
			for i := 1; i < 256; i++ {
				vals = append(vals, byte(i))
			}
		}
		for i := range gb {
			for _, v := range vals {
				b := append([]byte(nil), gb...)
				b[i] ^= v
				one("damaged", b, 1)
			}
		}
		for i := range g.Body {
			for _, v := range vals {
				q := g
				q.Body = append([]byte(nil), g.Body...)
				q.Body[i] ^= v
				one("changed body", q.Bytes(), 1)
			}
		}
		for n := 0; n < len(gb); n++ {
			one("truncated", gb[:n], 1)
			reply("truncated, reset", script{steps: []step{{0, gb[:n]}}, end: "reset"}, 1)
			if n > 0 {
				one("first byte missing", gb[n:], 1)
			}
			// the body cut with lengths and checksums repaired
			if n < len(g.Body) {
				q := g
				q.Body = g.Body[:n]
				one("short body", q.Bytes(), 1)
			}
		}
		// sequences of packets: only the first one counts
		alt := [][]byte{good(1), good(2), ref.Response(4, 1, 1).Bytes(), ref.Appdata(1, rec(1, ref.ResCode{}.Sub())).Bytes(), {0xFF, 0, 1}, bytes.Repeat([]byte{0}, 40)}
		x.Seqs(len(alt), 2, 3, func(s []int) {
			if len(s) == 3 && !r.Thorough {
				return
			}
			var all []byte
			var st []step
			for _, i := range s {
				all = append(all, alt[i]...)
				st = append(st, step{0, alt[i]})
			}
			one("several packets at once", all, 1)
			st[1].wait = 20 * time.Millisecond
			reply("several packets", script{steps: st, end: "close"}, 1)
		})
		arguments(r, pw)
	})
}

// segments cuts positive and negative answers at every place, and at every two places.
func segments(r *x.R, reply func(string, script, uint16)) {
	answers := [][]byte{good(1), ref.Response(9, 1, 0).Bytes(), ref.Response(9, 1, 0, rec(1, conf(1, 0), conf(2, 7))).Bytes(), ref.Response(9, 2, 0).Bytes()}
	routed := ref.Response(9, 1, 0, rec(1, conf(1, 0)))
	routed.RTE, routed.PRA, routed.RCA, routed.TTL = 1, 2, 3, 4
	answers = append(answers, routed.Bytes())
	const gap = 15 * time.Millisecond
	for ai, b := range answers {
		for _, end := range []string{"close", "hold"} {
			for i := 1; i < len(b); i++ {
				reply("one cut", script{steps: []step{{0, b[:i]}, {gap, b[i:]}}, end: end}, 1)
			}
		}
		if ai > 0 && !r.Thorough {
			continue
		}
		for i := 1; i < len(b); i++ {
			for j := i + 1; j < len(b); j++ {
				reply("two cuts", script{steps: []step{{0, b[:i]}, {gap, b[i:j]}, {gap, b[j:]}}, end: "hold"}, 1)
			}
		}
	}
	for _, b := range answers {
		var st []step
		for i := range b {
			st = append(st, step{3 * time.Millisecond, b[i : i+1]})
		}
		reply("bytewise", script{steps: st, end: "hold"}, 1)
	}
}

// timeRuns relates the answer to the waiting time; the runs of one case wait side by side.
func timeRuns(r *x.R, pw want) {
	type tr struct {
		name string
		s    script
		args []string
		ok   bool
		min  time.Duration // earliest and latest end, when positive
		max  time.Duration
	}
	g := good(1)
	lim := func(n int) []string { return []string{"-timeout", strconv.Itoa(n)} }
	half := len(g) / 2
	sec := time.Second
	var runs []tr
	add := func(name string, s script, args []string, ok bool, min, max time.Duration) {
		runs = append(runs, tr{name, s, args, ok, min, max})
	}
	for _, L := range []int{1, 2, 3, 0} {
		args, d := lim(L), time.Duration(L)*sec
		if L == 0 {
			args, d = nil, 5*sec
		}
		for q := time.Duration(0); q <= 12; q++ {
			w := d * q / 8
			if w > d-400*time.Millisecond && w < d+400*time.Millisecond {
				continue
			}
			ok := w < d
			add(fmt.Sprintf("limit %v, answer after %v", d, w), script{steps: []step{{w, g}}, end: "hold"}, args, ok, min(w, d), min(w, d)+2*sec)
			add(fmt.Sprintf("limit %v, second half after %v", d, w), script{steps: []step{{0, g[:half]}, {w, g[half:]}}, end: "hold"}, args, ok, min(w, d), min(w, d)+2*sec)
			if q%3 == 0 {
				add(fmt.Sprintf("limit %v, negative answer after %v", d, w), script{steps: []step{{w, ref.Response(1, 1, 1).Bytes()}}, end: "hold"}, args, false, 0, min(w, d)+2*sec)
				add(fmt.Sprintf("limit %v, close after %v", d, w), script{steps: []step{{w, nil}}, end: "close"}, args, false, 0, min(w, d)+2*sec)
			}
		}
		add(fmt.Sprintf("limit %v, silence", d), script{end: "hold"}, args, false, d, d+2*sec)
		for n := 1; n < len(g); n += 5 {
			add(fmt.Sprintf("limit %v, silence after %d bytes", d, n), script{steps: []step{{0, g[:n]}}, end: "hold"}, args, false, d, d+2*sec)
		}
		// bytes trickle in for longer than the limit
		var st []step
		for i := range g {
			st = append(st, step{(d + sec) / time.Duration(len(g)), g[i : i+1]})
		}
		add(fmt.Sprintf("limit %v, bytes up to %v", d, d+sec), script{steps: st, end: "hold"}, args, false, 0, d+2*sec)
	}
	// no time to wait at all: a packet is never acknowledged within it, and the program ends at once
	for _, L := range []int{0, -1, -5, math.MinInt32} {
		name := fmt.Sprintf("limit %ds", L)
		a := []string{"-timeout=" + strconv.Itoa(L)}
		add(name+", silence", script{end: "hold"}, a, false, 0, 2*sec)
		add(name+", silence after half", script{steps: []step{{0, g[:half]}}, end: "hold"}, a, false, 0, 2*sec)
		add(name+", close", script{end: "close"}, a, false, 0, 2*sec)
		add(name+", answer after 1s", script{steps: []step{{sec, g}}, end: "hold"}, a, false, 0, 2*sec)
	}
	// long limits do not delay a positive answer
	for _, L := range []int{60, 3600, 86400, math.MaxInt32, 9223372036} {
		add(fmt.Sprintf("limit %ds, answer after 1s", L), script{steps: []step{{sec, g}}, end: "hold"}, lim(L), true, sec, 3*sec)
		add(fmt.Sprintf("limit %ds, close after 1s", L), script{steps: []step{{sec, nil}}, end: "close"}, lim(L), false, sec, 3*sec)
	}
	for i := 0; i < len(runs); i += 16 {
		batch := runs[i:min(i+16, len(runs))]
		r.Case(x.HS("time", batch[0].name), func() string {
			var s []string
			for _, b := range batch {
				s = append(s, b.name)
			}
			return strings.Join(s, " | ")
		}, func(c *x.C) {
			outs := make([]outcome, len(batch))
			var wg sync.WaitGroup
			for j, b := range batch {
				wg.Add(1)
				go func() {
					defer wg.Done()
					outs[j] = run(b.s, append(append([]string(nil), plain...), b.args...)...)
				}()
			}
			wg.Wait()
			for j, b := range batch {
				o := outs[j]
				c.Eval(x.HS("time", b.name))
				c.Step(1)
				c.Trace()
				switch {
				case o.stopped:
					c.Note("hang", "%s: the program did not end", b.name)
				case crashed(o):
					c.Note("crash", "%s: %s", b.name, o.out)
				case b.ok != (o.code == 0):
					c.Note("status", "%s: exit status %d after %v (%q)", b.name, o.code, o.took, o.out)
				case o.took < b.min-50*time.Millisecond || o.took > b.max:
					c.Note("time", "%s: ended after %v", b.name, o.took)
				}
				if s := checkSent(o.sent, pw); s != "" && !o.stopped {
					c.Note("sent", "%s: %s", b.name, s)
				}
			}
		})
	}
}

// arguments checks what is sent for every value of each argument in its classes, and refused ones.
func arguments(r *x.R, pw want) {
	send := func(what string, args []string, w want, ok bool) {
		r.Case(x.HS(append([]string{"args"}, args...)...), func() string { return what + ": " + strings.Join(args, " ") }, func(c *x.C) {
			s := script{steps: []step{{0, good(w.pid)}}, end: "close"}
			if !ok {
				s.steps[0].data = good(1)
			}
			o := run(s, args...)
			if ok {
				verdict(c, o, true, &w)
			} else {
				verdict(c, o, false, nil)
			}
		})
	}
	with := func(i int, v string) []string {
		a := append([]string(nil), plain...)
		a[2*i+1] = v
		return a
	}
	// server addresses
	for _, a := range [][2]string{{"127.0.0.1", "127.0.0.1"}, {"127.5.6.7", "127.5.6.7"}, {"[::1]", "[::1]"}, {"[::1]", "[0:0::1]"}, {"127.0.0.1", "[::ffff:127.0.0.1]"}, {"[::]", "[::1]"}, {"[::]", "127.0.0.1"}} {
		r.Case(x.HS("server", a[0], a[1]), func() string { return fmt.Sprintf("server %s, given as %s", a[0], a[1]) }, func(c *x.C) {
			if l, err := net.Listen("tcp", a[0]+":0"); err != nil {
				c.Count("addresses this machine does not have")
				return
			} else {
				l.Close()
			}
			verdict(c, run(script{steps: []step{{0, good(1)}}, end: "close", listen: a[0], as: a[1]}, plain...), true, &pw)
		})
	}
	// packet identifiers
	stepPid := 257
	if r.Thorough {
		stepPid = 7
	}
	pids := map[int]bool{1: true, 2: true, 255: true, 256: true, 32767: true, 32768: true, 65534: true, 65535: true}
	for p := 3; p < 65536; p += stepPid {
		pids[p] = true
	}
	for i := 0; i < 16; i++ {
		pids[1<<i] = true
		pids[65535^1<<i] = true
	}
	for p := 1; p < 65536; p++ {
		if pids[p] {
			w := pw
			w.pid = uint16(p)
			send("packet identifier", with(0, strconv.Itoa(p)), w, true)
		}
	}
	// object identifiers and liquid levels: every bit, neighbours of the powers of two
	vs := map[uint64]bool{1: true, 0xFFFFFFFF: true, 0x01020304: true, 0xFFFFFFFE: true}
	for i := 0; i < 32; i++ {
		for _, d := range []uint64{0, 1} {
			vs[1<<i-d] = true
			vs[0xFFFFFFFF^1<<i] = true
		}
	}
	for v := range vsSorted(vs) {
		v := v
		w := pw
		w.oid = uint32(v)
		if v != 0 {
			send("object identifier", with(1, strconv.FormatUint(v, 10)), w, true)
		}
		w = pw
		w.liquid = uint32(v)
		send("liquid level", with(5, strconv.FormatUint(v, 10)), w, true)
	}
	// times
	stamps := []string{"2010-01-01T00:00:00Z", "2010-01-01T00:00:01Z", "2010-01-01T03:00:00+03:00", "2009-12-31T19:00:00-05:00", "2012-02-29T12:00:00Z", "2020-12-31T23:59:59Z", "2021-02-20T00:30:40Z", "2021-06-15T10:00:00+05:30", "2021-06-15T23:59:59-11:45", "2024-02-29T23:59:59.999Z", "2038-01-19T03:14:08Z", "2078-01-19T03:14:07Z", "2078-01-19T03:14:08Z", "2146-02-07T06:28:15Z"}
	for y := 2010; y < 2146; y += 3 {
		for _, md := range []string{"01-01T00:00:00Z", "03-01T00:00:00+14:00", "07-31T23:59:60Z", "12-31T23:59:59-12:00", "10-09T08:07:06.5+00:01"} {
			s := fmt.Sprintf("%d-%s", y, md)
			if _, err := time.Parse(time.RFC3339, s); err == nil && (y > 2010 || !strings.Contains(s, "+14")) {
				stamps = append(stamps, s)
			}
		}
	}
	for _, s := range stamps {
		w := pw
		w.tm = secs(s)
		send("time", with(2, s), w, true)
	}
	// coordinates
	lats := []float64{0, 1e-7, 0.5, 1, 12.345678, 45, 55.751244, 59.999999, 89.999999, 90}
	lons := []float64{0, 1e-7, 0.5, 37.618423, 90, 90.000001, 123.456789, 179.999999, 180}
	sign := []float64{1, -1}
	for _, a := range lats {
		for _, o := range lons {
			for _, sa := range sign {
				for _, so := range sign {
					w := pw
					w.lat, w.lon = a*sa, o*so
					args := with(3, strconv.FormatFloat(w.lat, 'g', -1, 64))
					args[9] = strconv.FormatFloat(w.lon, 'g', -1, 64)
					send("coordinates", args, w, true)
				}
			}
		}
	}
	n := 360
	if r.Thorough {
		n = 3600
	}
	for i := -n; i <= n; i++ {
		w := pw
		w.lat, w.lon = 90*float64(i)/float64(n), 180*float64(-i)/float64(n)
		args := with(3, strconv.FormatFloat(w.lat, 'f', 7, 64))
		args[9] = strconv.FormatFloat(w.lon, 'f', 7, 64)
		send("coordinates", args, w, true)
	}
	// every subset of the options, in both orders
	for m := 0; m < 64; m++ {
		var args, rev []string
		w := want{}
		for i := 0; i < 6; i++ {
			if m>>i&1 == 0 {
				continue
			}
			args = append(args, plain[2*i], plain[2*i+1])
			rev = append([]string{"-" + plain[2*i] + "=" + plain[2*i+1]}, rev...)
			switch i {
			case 0:
				w.pid = pw.pid
			case 1:
				w.oid = pw.oid
			case 2:
				w.tm = pw.tm
			case 3:
				w.lat = pw.lat
			case 4:
				w.lon = pw.lon
			case 5:
				w.liquid = pw.liquid
			}
		}
		ok := m&7 == 7
		send("options", args, w, ok)
		send("options", rev, w, ok)
	}
	// refused values
	bad := [6][]string{
		{"0", "-1", "65536", "65537", "131073", "4294967297", "-65535", "x", "", "1.5", "99999999999999999999", "1 2"},
		{"0", "-1", "4294967296", "4294967308", "-4294967284", "x", "", "12.0", "99999999999999999999"},
		{"", "x", "2021-12-16", "2021-12-16 09:12:00", "2021-12-16T09:12:00", "2021-13-16T09:12:00Z", "2021-02-30T09:12:00Z", "2021-12-16T25:12:00Z", "1639645920", "2009-12-31T23:59:59Z", "2010-01-01T02:59:59+03:00", "1970-01-01T00:00:00Z", "0001-01-01T00:00:00Z", "2146-02-07T06:28:16Z", "2300-01-01T00:00:00Z", "9999-12-31T23:59:59Z"},
		{"x", "", "90.1", "-90.1", "91", "1e300", "NaN", "Inf", "-Inf", "45,0"},
		{"x", "", "180.1", "-180.1", "181", "1e300", "NaN", "Inf", "-Inf", "60,3"},
		{"x", "", "-1", "4294967296", "4294967373", "1.5", "99999999999999999999"},
	}
	for i, l := range bad {
		for _, v := range l {
			send("refused", with(i, v), pw, false)
		}
	}
	send("refused", append([]string{"-timeout", "x"}, plain...), pw, false)
	send("refused", append([]string{"-unknown", "1"}, plain...), pw, false)
	// servers that cannot be reached
	for _, addr := range []string{"", "x", "127.0.0.1", "127.0.0.1:x", "127.0.0.1:99999", "127.0.0.1:1", "[::1", "no.such.host.invalid:5555"} {
		r.Case(x.HS("server", addr), func() string { return "server " + addr }, func(c *x.C) {
			o := run(script{end: "close"}, append(append([]string(nil), plain...), "-server", addr)...)
			verdict(c, o, false, nil)
		})
	}
}

func vsSorted(m map[uint64]bool) func(func(uint64) bool) {
	return func(yield func(uint64) bool) {
		var ks []uint64
		for k := range m {
			ks = append(ks, k)
		}
		for i := range ks {
			for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
				ks[j], ks[j-1] = ks[j-1], ks[j]
			}
		}
		for _, k := range ks {
			if !yield(k) {
				return
			}
		}
	}
}
