package gate

import (
	"fmt"
	"io"
	"strings"
	"syscall"
	"testing"
	"time"

	"verif.local/mc/bases"
	"verif.local/mc/ref"
	"verif.local/mc/vgo"
	"verif.local/mc/vnet"
	"verif.local/mc/vsched"
	"verif.local/mc/x"
)

// raw lets a sample subrecord take part in a typed record; it means nothing for the export.
type rawItem struct{ s ref.Sub }

func (r rawItem) Sub() ref.Sub { return r.s }

// everything is a packet with every kind of subrecord; its values depend on n.
func everything(pid uint16) Msg {
	n := uint32(pid)
	var extra []item
	for _, s := range bases.Subs() {
		switch s.Name {
		case "ext-all", "cnt-all", "state", "state-20", "disp", "plus", "rescode":
			extra = append(extra, rawItem{s.Sub})
		}
	}
	return DataMsg(fmt.Sprintf("everything(%d)", pid), pid,
		TRec{RN: 5 * pid, OID: u32(100 + n), SST: 2, Items: append(items(pos(n), ads(n), ref.Ads{ASFE: 0xFF, ANS: [8]uint32{n, 2 * n, 3 * n, 4 * n, 5 * n, 6 * n, 7 * n, 8 * n}}, liq(n), ref.AbsAn{N: byte(n), V: n}), extra...)},
		TRec{RN: 5*pid + 1, EVID: u32(n), TM: u32(n), SST: 1, Items: items(ref.Term{TID: n, Flags: 0xFF, IMEI: fmt.Sprintf("%015d", n), IMSI: "1234567890123456", LNGC: "rus", MSISDN: "79991112233"}, ref.Auth{UNM: fmt.Sprint("u", n), UPSW: "p", SS: "s"})},
		TRec{RN: 5*pid + 2, OID: u32(100 + n), SST: 4, Items: items(pos(n+1), ref.AbsCntr{N: 110, V: 0x010000 + n}, ref.AbsCntr{N: 111, V: n & 0xFF}, liq(n+1))})
}

// twinFields is the number of groups of fields in which twins can agree.
const twinFields = 11

// twin is a packet of connection n, with the groups of fields in same as on any other connection.
func twin(n uint32, same int) Msg {
	f := func(i int) uint32 {
		if same>>i&1 == 1 {
			return 5
		}
		return 5 + n
	}
	return DataMsg(fmt.Sprintf("twin(%d,%b)", n, same), uint16(100+f(0)),
		TRec{RN: uint16(f(1)), OID: u32(4000 + f(2)), EVID: u32(f(3)), SST: 1, Items: items(ref.Term{TID: 70 + f(4), Flags: 2, IMEI: fmt.Sprintf("35317306948%04d", f(5))}, ref.Auth{UNM: fmt.Sprint("u", f(6)), UPSW: "p"})},
		TRec{RN: uint16(f(1)) + 9, OID: u32(4000 + f(2)), EVID: u32(f(3)), TM: u32(1000 + f(3)), SST: 2, Items: items(pos(f(7)), ads(f(8)), liq(f(9)), ref.AbsCntr{N: 110, V: 0x770000 + f(10)})})
}

// side is what one connection sends.
type side struct {
	ms   []Msg
	segs [][]byte
}

// checkSides compares what every connection got, and everything saved, with each connection on its own.
func checkSides(sides []side, outs [][]byte, saves []vnet.Event) string {
	var want [][]Msg
	for i, s := range sides {
		live, _ := alive(s.ms)
		if e := checkReplies(outs[i], live); e != "" {
			return fmt.Sprintf("connection %d: %s", i+1, e)
		}
		var q []Msg
		for _, m := range live {
			if m.Exp != nil {
				q = append(q, m)
			}
		}
		want = append(want, q)
	}
	for _, s := range saves {
		found := false
		var why []string
		for i := range want {
			if len(want[i]) > 0 {
				e := checkExport(s.Data, want[i][0].Exp, s.At)
				if e == "" {
					want[i] = want[i][1:]
					found = true
					break
				}
				why = append(why, fmt.Sprintf("connection %d (%s): %s", i+1, want[i][0].Name, e))
			}
		}
		if !found {
			return fmt.Sprintf("the saved record %s is none that a connection's next packet calls for: %s", s.Data, strings.Join(why, "; "))
		}
	}
	for i := range want {
		if len(want[i]) > 0 {
			return fmt.Sprintf("connection %d: the record of %s was not saved", i+1, want[i][0].Name)
		}
	}
	return ""
}

func sidesName(ss []side) string {
	var v []string
	for _, s := range ss {
		v = append(v, fmt.Sprintf("[%s, %d segments]", Names(s.ms), len(s.segs)))
	}
	return strings.Join(v, " ")
}

// interleave delivers the segments of the sides in the given order (side numbers).
func interleave(c *x.C, sides []side, order []int, late bool) {
	st := &Store{Name: "a"}
	outs := make([][]byte, len(sides))
	var saves []vnet.Event
	h := x.HI(13)
	res := Exec(ttl, []*Store{st}, func(s *Sim) {
		ks := make([]*vnet.VConn, len(sides))
		if !late {
			for i := range sides {
				ks[i] = s.Conn()
			}
		}
		at := make([]int, len(sides))
		for _, i := range order {
			if ks[i] == nil {
				ks[i] = s.Conn()
			}
			b := sides[i].segs[at[i]]
			ks[i].Send(b)
			at[i]++
			s.Wait()
			h = x.HI(h, uint64(i), x.HB(1, b))
			c.State(h)
		}
		for i, k := range ks {
			outs[i] = k.Out()
			k.End(io.EOF)
		}
		s.Sleep(ttl + time.Second)
		for i, k := range ks {
			if cl, _ := k.Closed(); !cl {
				outs[i] = append(outs[i], "connection not released"...)
			} else {
				outs[i] = k.Out()
			}
		}
		saves = s.Saves("a")
	})
	c.Step(len(order))
	c.Trace()
	if len(res.Fatal) > 0 {
		c.Fail("crash", "%s", res.Fatal[0])
	}
	if e := checkSides(sides, outs, saves); e != "" {
		c.Fail("mixed", "%s", e)
	}
	c.Count("segment interleavings")
}

// orders calls f with every interleaving of counts[i] items of each side.
func orders(counts []int, f func(o []int)) {
	left := append([]int(nil), counts...)
	var o []int
	var rec func()
	rec = func() {
		done := true
		for i := range left {
			if left[i] > 0 {
				done = false
				left[i]--
				o = append(o, i)
				rec()
				o = o[:len(o)-1]
				left[i]++
			}
		}
		if done {
			f(append([]int(nil), o...))
		}
	}
	rec()
}

func cutAt(b []byte, at ...int) (out [][]byte) {
	from := 0
	for _, a := range at {
		if a > from && a < len(b) {
			out = append(out, b[from:a])
			from = a
		}
	}
	return append(out, b[from:])
}

// stalls

type stallKind struct {
	name string
	n    int // sent bytes of the stalled connection's packet, -1: all
	hold int // the save with this number is held, -1: none
	wr   bool
}

type kindT = struct {
	name string
	mk   func(pid, rn uint16) Msg
}

// bigKinds are packets of several orders of size.
var bigKinds = func() (out []kindT) {
	for _, n := range []int{45, 700, 2600} {
		out = append(out, kindT{fmt.Sprintf("%d positions", n), func(pid, rn uint16) Msg {
			var rs []TRec
			for i := 0; i < n; i += 50 {
				var is []item
				for k := i; k < min(i+50, n); k++ {
					is = append(is, pos(uint32(k)+uint32(pid)))
				}
				rs = append(rs, TRec{RN: rn + uint16(i), OID: u32(5), SST: 2, Items: is})
			}
			return DataMsg("big", pid, rs...)
		}})
	}
	return
}()

// kindAt is a kind, or behind them a big one.
func kindAt(i int) kindT {
	if i < len(kinds) {
		return kindT(kinds[i])
	}
	return bigKinds[i-len(kinds)]
}

// stallRun keeps connection A stalled in some way while others go on.
func stallRun(c *x.C, k stallKind, kindA, kindB int, nStalled, nOthers int, storeCount int) {
	var stores []*Store
	held := nStalled
	for i := 0; i < storeCount; i++ {
		st := &Store{Name: fmt.Sprint("s", i)}
		if k.hold >= 0 && i == k.hold {
			st.Script = func(call int) Outcome {
				if call < held {
					return Hold
				}
				return OK
			}
		}
		stores = append(stores, st)
	}
	var fail string
	res := Exec(ttl, stores, func(s *Sim) {
		var as []*vnet.VConn
		var ams []Msg
		for i := 0; i < nStalled; i++ {
			a := s.Conn()
			m := kindAt(kindA).mk(uint16(10+i), uint16(20+i))
			ams = append(ams, m)
			as = append(as, a)
			a.Stall(k.wr)
			w := m.Wire
			if k.n >= 0 && k.n < len(w) {
				w = w[:k.n]
			}
			a.Send(w)
			s.Wait()
		}
		for i := 0; i < nOthers; i++ {
			before := len(s.Saves("s0"))
			b := s.Conn()
			if !b.Accepted() {
				fail = fmt.Sprintf("connection %d is not accepted while another is stalled", b.ID)
				return
			}
			var ms []Msg
			for j := 0; j < 2; j++ {
				m := kindAt(kindB).mk(uint16(100+10*i+j), uint16(7+j))
				ms = append(ms, m)
				b.Send(m.Wire)
				s.Wait()
				live, _ := alive(ms)
				if e := checkReplies(b.Out(), live); e != "" {
					fail = fmt.Sprintf("while another connection is stalled, connection %d: %s", b.ID, e)
					return
				}
			}
			live, _ := alive(ms)
			for _, st := range stores {
				all := s.Saves(st.Name)
				if st.Name != "s0" {
					continue
				}
				if e := checkSaves(all[before:], live, true); e != "" {
					fail = fmt.Sprintf("while another connection is stalled, store %s: %s", st.Name, e)
					return
				}
			}
		}
		// the stall ends: the stalled connections are served too
		for i, a := range as {
			a.Stall(false)
			if k.n >= 0 && k.n < len(ams[i].Wire) {
				a.Send(ams[i].Wire[k.n:])
			}
		}
		for _, st := range stores {
			st.Release()
		}
		s.Wait()
		for i, a := range as {
			live, _ := alive(ams[i : i+1])
			if e := checkReplies(a.Out(), live); e != "" {
				fail = fmt.Sprintf("after the stall: %s", e)
			}
		}
	})
	c.Step(nStalled + 2*nOthers)
	c.State(x.HI(uint64(kindA), uint64(kindB), uint64(k.n+1), uint64(k.hold+1), b2i(k.wr), uint64(nStalled), uint64(nOthers), uint64(storeCount)))
	c.Trace()
	if len(res.Fatal) > 0 {
		c.Fail("crash", "%s", res.Fatal[0])
	}
	if fail != "" {
		c.Fail("delayed", "%s", fail)
	}
	c.Count("stalls")
}

// connEnds are the ways in which a connection ends.
var connEnds = []string{"closes", "resets", "falls silent", "closes in the middle of a packet", "closes unread", "is never closed", "any of these"}

// sequential serves n connections one after the other.
func sequential(c *x.C, n, kind, end int) {
	st := &Store{Name: "a"}
	fail := ""
	res := Exec(ttl, []*Store{st}, func(s *Sim) {
		saved := 0
		for i := 0; i < n && fail == ""; i++ {
			e := end
			if e == len(connEnds)-1 {
				e = i % (len(connEnds) - 1)
			}
			k := s.Conn()
			if !k.Accepted() {
				fail = fmt.Sprintf("connection %d is not accepted", k.ID)
				return
			}
			m := kinds[kind].mk(uint16(i), uint16(i+1))
			switch e {
			case 3:
				k.Send(m.Wire)
				k.Send(kinds[0].mk(7, 7).Wire[:9+i%20])
			case 4:
				k.Stall(true)
				k.Send(m.Wire)
			default:
				k.Send(m.Wire)
			}
			s.Wait()
			live, _ := alive([]Msg{m})
			if e != 4 {
				if x := checkReplies(k.Out(), live); x != "" {
					fail = fmt.Sprintf("connection %d: %s", k.ID, x)
				}
			}
			if m.Exp != nil {
				if all := st.calls; all != saved+1 {
					fail = fmt.Sprintf("connection %d: %d records saved in all, want %d", k.ID, all, saved+1)
				}
				saved++
			}
			switch e {
			case 0, 3:
				k.End(io.EOF)
			case 1:
				k.End(syscall.ECONNRESET)
			case 2:
				s.Sleep(ttl + time.Second)
			case 4:
				k.End(io.EOF)
				s.Wait()
				k.Stall(false)
			}
			s.Wait()
		}
	})
	c.Step(n)
	c.State(x.HI(uint64(n), uint64(kind), uint64(end)))
	c.Trace()
	if len(res.Fatal) > 0 {
		c.Fail("crash", "%s", res.Fatal[0])
	}
	if fail != "" {
		c.Fail("delayed", "%s", fail)
	}
	c.Count("connections one after the other")
}

// schedules

type schedRes struct {
	points []vsched.Point
	steps  int
	fail   string
}

// schedRun executes the gateway with all streams delivered, one goroutine at a time, as the plan decides.
func schedRun(c *x.C, sides []side, plan []int) schedRes {
	st := &Store{Name: "a"}
	outs := make([][]byte, len(sides))
	var saves []vnet.Event
	var r schedRes
	var sc *vsched.S
	sc = vsched.New(plan)
	vgo.Hook = vsched.Hook
	vnet.Block = vsched.Block
	defer func() { vgo.Hook, vnet.Block = nil, nil }()
	res := Exec(ttl, []*Store{st}, func(s *Sim) {
		defer func() {
			vgo.Hook, vnet.Block = nil, nil
			sc.Stop()
		}()
		for _, d := range sides {
			k := s.NewConn()
			for _, b := range d.segs {
				k.Send(b)
			}
			s.L.Push(k)
		}
		sc.Run()
		for i, k := range s.Conns {
			outs[i] = k.Out()
		}
		saves = s.Saves("a")
	})
	r.points, r.steps = sc.Points, sc.Steps
	switch {
	case len(res.Fatal) > 0:
		r.fail = "crash: " + res.Fatal[0]
	case sc.Over:
		r.fail = fmt.Sprintf("more than %d statements executed", sc.MaxSteps)
	default:
		r.fail = checkSides(sides, outs, saves)
	}
	return r
}

func deviations(plan []int) (n int) {
	for _, d := range plan {
		if d > 0 {
			n++
		}
	}
	return
}

// explore runs every schedule that extends plan, with at most bound deviations in all from "the running
// thread goes on; when it cannot, the first that can".
func explore(c *x.C, sides []side, plan []int, bound int) {
	exploreWith(c, "race", sidesName(sides), func(p []int) schedRes { return schedRun(c, sides, p) }, plan, bound)
}

func exploreWith(c *x.C, key, name string, exec func(plan []int) schedRes, plan []int, bound int) {
	r := exec(plan)
	h := x.HI(33)
	for _, d := range plan {
		h = x.HI(h, uint64(d))
	}
	c.State(x.HI(h, x.HS(name)))
	c.Step(r.steps)
	c.Trace()
	c.Count("schedules")
	if r.fail != "" {
		c.Fail(key, "schedule %v (%d scheduling points): %s", compact(plan), len(r.points), r.fail)
	}
	if deviations(plan) >= bound {
		return
	}
	for i := len(plan); i < len(r.points); i++ {
		p := r.points[i]
		for d := 1; d < p.N; d++ {
			next := make([]int, i+1)
			copy(next, plan)
			next[i] = d
			exploreWith(c, key, name, exec, next, bound)
			if c.R.Stopped() {
				return
			}
		}
	}
}

func compact(plan []int) string {
	var v []string
	for i, d := range plan {
		if d > 0 {
			v = append(v, fmt.Sprintf("point %d: choice %d", i, d))
		}
	}
	return "{" + strings.Join(v, ", ") + "}"
}

func TestC13(t *testing.T) {
	run(t, func(r *x.R) {
		whole := func(ms ...Msg) side {
			s := side{ms: ms}
			for _, m := range ms {
				s.segs = append(s.segs, m.Wire)
			}
			return s
		}
		// 1. two connections, every pair of kinds, each stream in four segments
		for a := range kinds {
			for b := range kinds {
				ma, mb := []Msg{kinds[a].mk(3, 1), kinds[b].mk(4, 2)}, []Msg{kinds[b].mk(5, 3), kinds[a].mk(6, 4)}
				sa := side{ms: ma, segs: cutAt(Stream(ma), 7, len(ma[0].Wire)-1, len(ma[0].Wire)+12)}
				sb := side{ms: mb, segs: cutAt(Stream(mb), 10, len(mb[0].Wire), len(mb[0].Wire)+len(mb[1].Wire)/2)}
				sides := []side{sa, sb}
				orders([]int{len(sa.segs), len(sb.segs)}, func(o []int) {
					r.Case(x.HI(1, uint64(a), uint64(b), x.HS(fmt.Sprint(o))), func() string { return fmt.Sprintf("%s in the order %v", sidesName(sides), o) }, func(c *x.C) { interleave(c, sides, o, len(o)%2 == 1) })
				})
			}
		}
		// 2. three connections, two segments each
		trio := []int{0, 1, 4, 5, 6, 9, 13}
		for _, a := range trio {
			for _, b := range trio {
				for _, d := range trio {
					if !r.Thorough && (a > b || b > d) {
						continue
					}
					ms := []Msg{kinds[a].mk(3, 1), kinds[b].mk(4, 2), kinds[d].mk(5, 3)}
					var sides []side
					for _, m := range ms {
						sides = append(sides, side{ms: []Msg{m}, segs: cutAt(m.Wire, 10)})
					}
					var counts []int
					for _, s := range sides {
						counts = append(counts, len(s.segs))
					}
					orders(counts, func(o []int) {
						r.Case(x.HI(2, uint64(a), uint64(b), uint64(d), x.HS(fmt.Sprint(o))), func() string { return fmt.Sprintf("%s in the order %v", sidesName(sides), o) }, func(c *x.C) { interleave(c, sides, o, true) })
					})
				}
			}
		}
		// 2a. connections whose packets agree in some of their fields only
		for same := range 1 << twinFields {
			for k, o := range [][]int{{0, 1, 0, 1}, {0, 0, 1, 1}, {0, 1, 1, 0}} {
				if !r.Mine() {
					r.Case(0, nil, nil)
					continue
				}
				a, b := whole(twin(1, same), twin(1, same)), whole(twin(2, same), twin(1, same))
				r.Case(x.HI(17, uint64(same), uint64(k)), func() string {
					return fmt.Sprintf("packets of two terminals that agree in the fields %011b in the order %v", same, o)
				}, func(c *x.C) { interleave(c, []side{a, b}, o, k == 1) })
			}
		}
		// 3. stalls
		var ks []stallKind
		for _, n := range []int{0, 1, 5, 9, 10, 11, 12, 20, 30} {
			ks = append(ks, stallKind{fmt.Sprintf("silent after %d bytes", n), n, -1, false})
		}
		ks = append(ks, stallKind{"does not read", -1, -1, true}, stallKind{"save held by the first store", -1, 0, false}, stallKind{"save held by the second store", -1, 1, false})
		for _, k := range ks {
			for a := range kinds {
				for b := range kinds {
					for _, ns := range []int{1, 3} {
						for _, stores := range []int{1, 2} {
							if k.hold >= stores {
								continue
							}
							if k.hold >= 0 && kinds[a].mk(1, 1).Exp == nil {
								continue
							}
							if !r.Thorough && ns == 3 && (a+b)%3 != 0 {
								continue
							}
							r.Case(x.HI(3, x.HS(k.name), uint64(a), uint64(b), uint64(ns), uint64(stores)), func() string {
								return fmt.Sprintf("%d connections with %s: %s; others send %s; %d stores", ns, kinds[a].name, k.name, kinds[b].name, stores)
							}, func(c *x.C) { stallRun(c, k, a, b, ns, 3, stores) })
						}
					}
				}
			}
		}
		// many connections stalled at once, and many one after the other
		counts := []int{10, 32, 64, 65, 100, 128, 200, 256, 257, 400, 512, 513, 1024, 1100, 2100}
		if r.Thorough {
			counts = append(counts, 500, 1000, 1023, 1025, 2048, 4000, 4097)
		}
		for _, k := range ks {
			for _, ns := range counts {
				if k.n > 0 && k.n%5 != 0 || ns > 400 && k.n > 5 {
					continue
				}
				for _, a := range []int{0, 4} {
					if ns > 400 && a != 0 {
						continue
					}
					stores := max(k.hold, 0) + 1
					for _, from := range []int{0, 1, 3} {
						if from > 0 && a != 0 {
							continue
						}
						r.Case(x.HI(7, x.HS(k.name), uint64(ns), uint64(a), uint64(from)), func() string {
							return fmt.Sprintf("%d connections with %s: %s; others send a position; %d stores, addressing %d", ns, kinds[a].name, k.name, stores, from)
						}, func(c *x.C) {
							peers = from
							stallRun(c, k, a, 0, ns, 2, stores)
						})
					}
				}
			}
		}
		for big := range bigKinds {
			a := len(kinds) + big
			size := len(kindAt(a).mk(10, 20).Wire)
			for _, n := range []int{5, 11, 600, size / 2, size - 1, -1} {
				k := stallKind{fmt.Sprintf("silent after %d of %d bytes", n, size), n, -1, false}
				if n < 0 {
					k = stallKind{"save held", -1, 0, false}
				}
				for _, ns := range []int{1, 3, 10, 33, 130, 520} {
					if ns*size > 8<<20 {
						continue
					}
					for _, b := range []int{0, len(kinds), len(kinds) + 2} {
						r.Case(x.HI(10, uint64(big), uint64(n+1), uint64(ns), uint64(b)), func() string {
							return fmt.Sprintf("%d connections with %s: %s; others send %s", ns, kindAt(a).name, k.name, kindAt(b).name)
						}, func(c *x.C) { stallRun(c, k, a, b, ns, 2, 1) })
					}
				}
			}
		}
		for e := range connEnds {
			for _, kind := range []int{0, 4, 9, 14} {
				n := 700
				if r.Thorough {
					n = 5000
				}
				for from := 0; from < 5; from++ {
					if kind != 0 && from != 1 {
						continue
					}
					r.Case(x.HI(8, uint64(e), uint64(kind), uint64(from)), func() string {
						return fmt.Sprintf("%d connections one after the other, each sends %s and %s; addressing %d", n, kinds[kind].name, connEnds[e], from)
					}, func(c *x.C) {
						peers = from
						sequential(c, n, kind, e)
					})
				}
			}
		}
		// executions under the race detector
		for a := range kinds {
			r.Case(x.HI(9, uint64(a)), func() string {
				return fmt.Sprintf("under the race detector: two connections, %s against every kind in four orders, three sets of stores", kinds[a].name)
			}, func(c *x.C) {
				c.State(x.HI(9, uint64(a)))
				c.Race("TestRace", fmt.Sprint("VMC_RACE=", a))
			})
		}
		// 4. schedules: statement-level preemption
		scen := [][]side{
			{whole(everything(3)), whole(everything(8))},
			{whole(kinds[0].mk(3, 1), kinds[0].mk(4, 2)), whole(kinds[0].mk(5, 3), kinds[0].mk(6, 4))},
			{whole(kinds[2].mk(3, 1), kinds[0].mk(4, 2)), whole(kinds[3].mk(5, 3))},
			{whole(kinds[4].mk(3, 1)), whole(kinds[4].mk(5, 3)), whole(kinds[9].mk(7, 7))},
			{whole(kinds[1].mk(3, 1)), whole(kinds[5].mk(5, 3))},
			{whole(kinds[9].mk(3, 1), kinds[0].mk(4, 2)), whole(kinds[12].mk(5, 3), kinds[0].mk(6, 4))},
			{whole(kinds[6].mk(3, 1), kinds[0].mk(4, 2)), whole(kinds[0].mk(5, 3), kinds[7].mk(6, 4))},
			{whole(kinds[0].mk(3, 1)), whole(kinds[0].mk(5, 3)), whole(kinds[2].mk(7, 7))},
		}
		for _, sides := range scen[:len(scen):len(scen)] { // the other way round: the later connection is the one that is interrupted
			if len(sides) == 2 {
				scen = append(scen, []side{sides[1], sides[0]})
			}
		}
		for si, sides := range scen {
			root := schedRun(nil, sides, nil)
			r.Extra(fmt.Sprintf("scheduling points of scenario %d", si), len(root.points))
			r.Case(x.HI(4, uint64(si)), func() string { return sidesName(sides) + ", no preemption" }, func(c *x.C) {
				c.Step(root.steps)
				c.Trace()
				if root.fail != "" {
					c.Fail("race", "without preemption: %s", root.fail)
				}
			})
			if root.fail != "" {
				continue
			}
			for i, p := range root.points {
				for d := 1; d < p.N; d++ {
					plan := make([]int, i+1)
					plan[i] = d
					r.Case(x.HI(5, uint64(si), uint64(i), uint64(d)), func() string { return fmt.Sprintf("%s, schedule %s", sidesName(sides), compact(plan)) }, func(c *x.C) { explore(c, sides, plan, 1) })
				}
			}
		}
		if r.Thorough {
			two := [][]side{
				{whole(kinds[0].mk(3, 1)), whole(kinds[0].mk(5, 3))},
				{whole(kinds[2].mk(3, 1)), whole(kinds[4].mk(5, 3))},
			}
			for si, sides := range two {
				root := schedRun(nil, sides, nil)
				r.Extra(fmt.Sprintf("scheduling points of scenario %d with two deviations", si), len(root.points))
				for i, p := range root.points {
					for d := 1; d < p.N; d++ {
						plan := make([]int, i+1)
						plan[i] = d
						r.Case(x.HI(6, uint64(si), uint64(i), uint64(d)), func() string {
							return fmt.Sprintf("%s, schedule %s and one deviation more", sidesName(sides), compact(plan))
						}, func(c *x.C) { explore(c, sides, plan, 2) })
					}
				}
			}
		}
	})
}
