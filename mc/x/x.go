// Package x runs one exhaustive enumeration as one shard of a set of processes. Every process walks the
// same numbered list of cases and executes those that fall to it; the number of the case being executed
// is kept in a shared file, so that the parent (run.py) can tell which case ended or hung the process.
package x

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

// Viol is one violation.
type Viol struct {
	Case int64  `json:"case"`
	Key  string `json:"key"`  // identifies what failed, for the list of known findings
	Desc string `json:"desc"` // the case
	Msg  string `json:"msg"`  // what went wrong
}

// OnCase, when set, is called with the number of every case before it runs.
var OnCase func(i int64)

// R is the run of one shard.
type R struct {
	Thorough bool
	Seed     int64
	T        *testing.T

	shard, shards int64
	from, only    int64
	deadline      time.Time
	stopped       bool
	idx           int64
	progress      []byte
	busy          atomic.Int64 // start of the current case, unix nanoseconds, 0 between cases

	evals, transitions, traces int64
	cases                      int64
	hashes                     map[uint64]struct{}
	states                     map[uint64]struct{}
	capped                     bool
	counts                     map[string]int64
	samples                    []string
	viols                      []Viol
	perKey                     map[string]int
	extra                      map[string]any
}

const maxHashes = 4 << 20

type result struct {
	Done        bool             `json:"done"`
	Exhaustive  bool             `json:"exhaustive"`
	Cases       int64            `json:"cases"`
	Total       int64            `json:"total"`
	Evals       int64            `json:"evals"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	Capped      bool             `json:"capped"`
	Counts      map[string]int64 `json:"counts"`
	Samples     []string         `json:"samples"`
	Viols       []Viol           `json:"viols"`
	Extra       map[string]any   `json:"extra"`
}

func env(k string, d int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return v
	}
	return d
}

// Run executes body as this process's shard.
func Run(t *testing.T, body func(r *R)) {
	r := &R{T: t, Thorough: os.Getenv("VERIF_TIER") == "thorough", Seed: env("VERIF_SEED", 1),
		shard: env("VMC_SHARD", 0), shards: env("VMC_SHARDS", 1), from: env("VMC_FROM", 0), only: env("VMC_ONLY", -1),
		hashes: map[uint64]struct{}{}, states: map[uint64]struct{}{}, counts: map[string]int64{}, perKey: map[string]int{}, extra: map[string]any{}}
	if d := env("VMC_DEADLINE", 0); d > 0 {
		r.deadline = time.Now().Add(time.Duration(d) * time.Second)
	}
	if p := os.Getenv("VMC_PROGRESS"); p != "" {
		f, err := os.OpenFile(p, os.O_RDWR|os.O_CREATE, 0o600)
		if err != nil {
			t.Fatal(err)
		}
		f.Truncate(4096)
		if r.progress, err = syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err != nil {
			t.Fatal(err)
		}
	}
	limit := time.Duration(env("VMC_CASE_MAX", 40)) * time.Second
	idleOK := env("VMC_REALTIME", 0) != 0
	go func() {
		// a case that does not end, and one that waits for something outside its virtual world, hang
		cpu := func() time.Duration {
			var u syscall.Rusage
			syscall.Getrusage(syscall.RUSAGE_SELF, &u)
			return time.Duration(u.Utime.Nano() + u.Stime.Nano())
		}
		var last int64
		var from time.Duration
		idle := 0
		for {
			time.Sleep(time.Second)
			s := r.busy.Load()
			if s == 0 || s != last || cpu()-from > 50*time.Millisecond {
				last, idle, from = s, 0, cpu()
			}
			idle++
			if s != 0 && (time.Since(time.Unix(0, s)) > limit || idle > 10 && !idleOK) {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "VMC-HANG case %d\n%s\n", r.idx, buf)
				os.Exit(3)
			}
		}
	}()
	body(r)
	r.write(true)
	if len(r.viols) > 0 {
		t.Logf("%d violations", len(r.viols))
	}
}

func (r *R) write(done bool) {
	out := os.Getenv("VMC_OUT")
	if out == "" {
		fmt.Printf("cases=%d evals=%d distinct=%d states=%d transitions=%d counts=%v viols=%d\n", r.cases, r.evals, len(r.hashes), len(r.states), r.transitions, r.counts, len(r.viols))
		for _, v := range r.viols {
			fmt.Printf("VIOL %d %s\n  %s\n  %s\n", v.Case, v.Key, v.Desc, v.Msg)
		}
		return
	}
	for k, m := range map[string]map[uint64]struct{}{".hashes": r.hashes, ".states": r.states} {
		b := make([]byte, 0, 8*len(m))
		for h := range m {
			b = binary.LittleEndian.AppendUint64(b, h)
		}
		if err := os.WriteFile(out+k, b, 0o600); err != nil {
			r.T.Fatal(err)
		}
	}
	j, err := json.Marshal(result{Done: done, Exhaustive: !r.stopped, Cases: r.cases, Total: r.idx, Evals: r.evals, Transitions: r.transitions, Traces: r.traces,
		Capped: r.capped, Counts: r.counts, Samples: r.samples, Viols: r.viols, Extra: r.extra})
	if err != nil {
		r.T.Fatal(err)
	}
	if err := os.WriteFile(out, j, 0o600); err != nil {
		r.T.Fatal(err)
	}
}

// C is one case being executed.
type C struct {
	R     *R
	idx   int64
	desc  func() string
	evald bool
}

type abort struct{}

// Case executes fn as the next case, when it falls to this shard. hash identifies the case among all
// cases; a zero hash marks a trivial case.
func (r *R) Case(hash uint64, desc func() string, fn func(c *C)) {
	i := r.idx
	r.idx++
	if r.stopped || i < r.from || (r.only >= 0 && i != r.only) || (r.only < 0 && i%r.shards != r.shard) {
		return
	}
	if r.progress != nil {
		binary.LittleEndian.PutUint64(r.progress, uint64(i+1))
	}
	r.cases++
	c := &C{R: r, idx: i, desc: desc}
	if OnCase != nil {
		OnCase(i)
	}
	r.busy.Store(time.Now().UnixNano())
	r.exec(c, fn)
	r.busy.Store(0)
	if !c.evald {
		c.Eval(hash)
	}
	if len(r.samples) < 3 && hash != 0 {
		r.samples = append(r.samples, clip(desc(), 600))
	}
	if !r.deadline.IsZero() && time.Now().After(r.deadline) {
		r.stopped = true
	}
	if len(r.viols) >= 60 {
		r.stopped = true
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (r *R) exec(c *C, fn func(c *C)) {
	defer func() {
		switch e := recover(); e.(type) {
		case nil, abort:
		default:
			st := string(debug.Stack())
			c.add("panic", fmt.Sprintf("panic: %v\n%s", e, clip(st, 4000)))
		}
	}()
	fn(c)
}

func (c *C) add(key, msg string) {
	r := c.R
	if r.perKey[key]++; r.perKey[key] > 3 {
		return
	}
	r.viols = append(r.viols, Viol{Case: c.idx, Key: key, Desc: clip(c.desc(), 4000), Msg: clip(msg, 6000)})
}

// Fail records a violation and ends the case.
func (c *C) Fail(key, format string, a ...any) {
	c.add(key, fmt.Sprintf(format, a...))
	panic(abort{})
}

// Note records a violation and goes on.
func (c *C) Note(key, format string, a ...any) { c.add(key, fmt.Sprintf(format, a...)) }

// Eval counts one evaluation inside a case that makes several.
func (c *C) Eval(hash uint64) {
	c.evald = true
	r := c.R
	r.evals++
	if hash == 0 {
		return
	}
	if len(r.hashes) < maxHashes {
		r.hashes[hash] = struct{}{}
	} else if _, ok := r.hashes[hash]; !ok {
		r.capped = true
	}
}

// State counts a model state reached.
func (c *C) State(h uint64) {
	if len(c.R.states) < maxHashes {
		c.R.states[h] = struct{}{}
	} else {
		c.R.capped = true
	}
}

// Step counts n model transitions.
func (c *C) Step(n int) { c.R.transitions += int64(n) }

// Trace counts one model trace compared with the implementation.
func (c *C) Trace() { c.R.traces++ }

// Count counts outcomes by name.
func (c *C) Count(name string) { c.R.counts[name]++ }

// AddCount counts n outcomes by name.
func (r *R) AddCount(name string, n int) { r.counts[name] += int64(n) }

// Extra puts a fact into the evidence.
func (r *R) Extra(k string, v any) { r.extra[k] = v }

// Stopped reports that the time is up.
func (r *R) Stopped() bool { return r.stopped }

// Mine reports whether the next case would be executed.
func (r *R) Mine() bool {
	i := r.idx
	return !(r.stopped || i < r.from || (r.only >= 0 && i != r.only) || (r.only < 0 && i%r.shards != r.shard))
}

// HB hashes bytes (FNV-1a), never 0.
func HB(seed uint64, bs ...[]byte) uint64 {
	h := uint64(14695981039346656037) ^ seed*0x9E3779B97F4A7C15
	for _, b := range bs {
		for _, x := range b {
			h = (h ^ uint64(x)) * 1099511628211
		}
		h = (h ^ 0x1FF) * 1099511628211
	}
	if h == 0 {
		h = 1
	}
	return h
}

// HS hashes strings.
func HS(ss ...string) uint64 {
	h := uint64(14695981039346656037)
	for _, s := range ss {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		h = (h ^ 0x1FF) * 1099511628211
	}
	if h == 0 {
		h = 1
	}
	return h
}

// HI hashes integers.
func HI(vs ...uint64) uint64 {
	h := uint64(14695981039346656037)
	for _, v := range vs {
		h = (h ^ v) * 0x9E3779B97F4A7C15
		h ^= h >> 29
	}
	if h == 0 {
		h = 1
	}
	return h
}

// Keys sorts the keys of a map.
func Keys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Seqs calls f with every sequence of length lo..hi over 0..n-1, shortest first. The slice is reused.
func Seqs(n, lo, hi int, f func(s []int)) {
	for l := lo; l <= hi; l++ {
		s := make([]int, l)
		for {
			f(s)
			i := l - 1
			for ; i >= 0; i-- {
				if s[i]++; s[i] < n {
					break
				}
				s[i] = 0
			}
			if i < 0 {
				break
			}
		}
	}
}
