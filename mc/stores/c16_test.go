package stores

import (
	"errors"
	"fmt"
	"io"
	"log"
	"maps"
	"os"
	"slices"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/nats"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/nsq"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/postgresql"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/rabbitmq"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/redis"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/tarantool_queue"
	"github.com/sirupsen/logrus"

	"verif.local/mc/x"
)

func connector(kind string) storage.Store {
	switch kind {
	case "redis":
		return &redis.Connector{}
	case "nats":
		return &nats.Connector{}
	case "nsq":
		return &nsq.Connector{}
	case "postgresql":
		return &postgresql.Connector{}
	case "rabbitmq":
		return &rabbitmq.Connector{}
	}
	return &tarantool_queue.Connector{}
}

type msg struct {
	body string
	err  error
}

func (m *msg) ToBytes() ([]byte, error) { return []byte(m.body), m.err }

var errSerial = errors.New("cannot be serialised")

// save saves and turns a panic into an error of its own.
func save(st storage.Saver, m interface{ ToBytes() ([]byte, error) }) (err error, crash any) {
	defer func() { crash = recover() }()
	return st.Save(m), nil
}

func initStore(st storage.Store, c map[string]string) (err error, crash any) {
	defer func() { crash = recover() }()
	return st.Init(c), nil
}

// closeStore closes the store and tells what is wrong with that.
func closeStore(st storage.Store) string {
	done := make(chan string)
	go func() {
		defer func() {
			p := ""
			if e := recover(); e != nil {
				p = fmt.Sprintf("Close panics: %v", e)
			}
			select {
			case done <- p:
			case <-time.After(time.Minute):
			}
		}()
		st.Close()
	}()
	select {
	case p := <-done:
		return p
	case <-time.After(6 * time.Second):
		return "Close takes more than 6 seconds"
	}
}

// item is one execution inside a case.
type item struct {
	name string
	run  func() (problem string, states []string)
}

// group runs items side by side, up to 16 per case.
func group(r *x.R, kind, what string, items []item, n int) {
	for i := 0; i < len(items); i += n {
		b := items[i:min(i+n, len(items))]
		var hs []string
		for _, it := range b {
			hs = append(hs, it.name)
		}
		r.Case(x.HS(append([]string{kind, what}, hs...)...), func() string { return kind + ", " + what + ": " + strings.Join(hs, " | ") }, func(c *x.C) {
			type res struct {
				p string
				s []string
			}
			rs := make([]res, len(b))
			var wg sync.WaitGroup
			for j, it := range b {
				wg.Add(1)
				go func() {
					defer wg.Done()
					p, s := it.run()
					rs[j] = res{p, s}
				}()
			}
			wg.Wait()
			for j, it := range b {
				c.Eval(x.HS(kind, what, it.name))
				c.Trace()
				c.Step(len(rs[j].s))
				for _, s := range rs[j].s {
					c.State(x.HS(kind, s))
				}
				c.Count(kind + ", " + what)
				if rs[j].p != "" {
					c.Note(kind+" "+what, "%s: %s", it.name, rs[j].p)
				}
			}
		})
	}
}

var hmodes = []string{"accept", "reject", "drop", "drop-once", "cut", "down", "lose", "lose-once", "mute", "late", "late-no"}

// plain is the number of modes without losses of answers and mute servers
const plain = 6

// history runs one history of saves.
func history(kind string, h []int, pgSalt byte, size int) (string, []string) {
	return lateHistory(kind, h, pgSalt, size, 0)
}

func lateHistory(kind string, h []int, pgSalt byte, size int, late time.Duration) (string, []string) {
	s := NewServer(kind)
	defer s.Stop()
	s.late = late
	set := Usual[kind]
	s.User, s.Pass, s.Salt = set.User, set.Pass, pgSalt
	st := connector(kind)
	if err, crash := initStore(st, Config(s, set)); err != nil || crash != nil {
		return fmt.Sprintf("Init fails: %v %v (%s)", err, crash, s.Bad()), nil
	}
	defer closeStore(st)
	var states []string
	healthy := true
	up := true
	results := make([]error, len(h))
	pad := strings.Repeat(" ", size)
	body := func(i int) string { return fmt.Sprintf("{\"record\":%d,\"of\":%v%s}", i, h, pad) }
	broken := make([]bool, len(h))
	for i, m := range h {
		if !up && hmodes[m] != "down" {
			s.Up()
			up = true
		}
		s.SetMode(Accept)
		switch hmodes[m] {
		case "reject":
			s.SetMode(Reject)
		case "drop":
			s.SetMode(Drop)
		case "drop-once":
			s.SetMode(DropOnce)
		case "lose":
			s.SetMode(Lose)
		case "lose-once":
			s.SetMode(LoseOnce)
		case "mute":
			s.SetMode(Mute)
		case "late":
			s.SetMode(Late)
		case "late-no":
			s.SetMode(LateNo)
		case "cut":
			s.Cut()
		case "down":
			if up {
				s.Down()
			}
			up = false
		}
		err, crash := save(st, &msg{body: body(i)})
		if crash != nil {
			return fmt.Sprintf("save %d panics: %v", i, crash), states
		}
		results[i] = err
		n := 0
		for _, g := range s.Stored() {
			if g.Body == body(i) {
				n++
			}
		}
		states = append(states, fmt.Sprint(hmodes[m], healthy, err == nil, n, len(s.Stored())))
		switch hmodes[m] {
		case "accept":
			if err != nil && healthy {
				return fmt.Sprintf("save %d of %v fails: %v (%s)", i, names(h), err, s.Bad()), states
			}
		case "reject", "drop", "down", "mute", "late-no":
			if err == nil {
				return fmt.Sprintf("save %d of %v succeeds although the server is in mode %q", i, names(h), hmodes[m]), states
			}
		}
		if err == nil && n != 1 {
			return fmt.Sprintf("save %d of %v succeeds, and the server stored the record %d times", i, names(h), n), states
		}
		broken[i] = hmodes[m] == "cut" || strings.HasSuffix(hmodes[m], "-once") || hmodes[m] == "lose" || hmodes[m] == "late" || !healthy
		if hmodes[m] != "accept" && hmodes[m] != "reject" {
			healthy = false
		}
		if n, _ := s.Counts(); kind == "rabbitmq" && hmodes[m] == "reject" && n%2 == 0 {
			healthy = false // refused by closing the channel
		}
	}
	return finish(s, set, len(h), body, func(i int) error { return results[i] }, func(i int) bool { return broken[i] }), states
}

func names(h []int) []string {
	var s []string
	for _, m := range h {
		s = append(s, hmodes[m])
	}
	return s
}

// finish compares everything the server stored with the results of the saves.
func finish(s *Server, set Set, n int, body func(int) string, result func(int) error, broken func(int) bool) string {
	count := map[string]int{}
	for _, g := range s.Stored() {
		if g != Expected(set, g.Body) {
			return fmt.Sprintf("the server stored %+v under settings %+v", clipGot(g), set)
		}
		count[g.Body]++
	}
	for i := 0; i < n; i++ {
		k := count[body(i)]
		delete(count, body(i))
		switch {
		case result(i) == nil && k != 1:
			return fmt.Sprintf("save %d succeeded, and the server has the record %d times", i, k)
		case result(i) != nil && k > 1 || result(i) != nil && k > 0 && !broken(i):
			return fmt.Sprintf("save %d failed (%v), and the server has the record %d times", i, result(i), k)
		}
	}
	for b := range count {
		return fmt.Sprintf("the server stored %.200q, which was never saved", b)
	}
	return ""
}

func clipGot(g Got) Got {
	if len(g.Body) > 200 {
		g.Body = g.Body[:200] + "..."
	}
	return g
}

// withServer runs f with a connected connector.
func withServer(kind string, set Set, f func(s *Server, st storage.Store) string) string {
	s := NewServer(kind)
	defer s.Stop()
	s.User, s.Pass = set.User, set.Pass
	st := connector(kind)
	if err, crash := initStore(st, Config(s, set)); err != nil || crash != nil {
		return fmt.Sprintf("Init fails: %v %v", err, crash)
	}
	defer closeStore(st)
	return f(s, st)
}

func TestC16(t *testing.T) {
	logrus.SetOutput(io.Discard)
	log.SetOutput(io.Discard)
	os.Unsetenv("PGPASSWORD")
	for _, e := range os.Environ() {
		if k, _, _ := strings.Cut(e, "="); strings.HasPrefix(k, "PG") {
			os.Unsetenv(k)
		}
	}
	x.Run(t, func(r *x.R) {
		depth := 4
		if r.Thorough {
			depth = 5
		}
		for i, kind := range Kinds {
			r.Case(x.HS("race", kind), func() string {
				return kind + ": saves side by side under the race detector, three rounds, every pair of server behaviours"
			}, func(c *x.C) { c.Race("TestRace", fmt.Sprint("VMC_RACE=", i)) })
		}
		for _, kind := range Kinds {
			if o := os.Getenv("VMC_KIND"); o != "" && o != kind {
				continue
			}
			var hs []item
			x.Seqs(plain+2, 1, depth, func(q []int) {
				h := append([]int(nil), q...)
				hs = append(hs, item{fmt.Sprint(names(h)), func() (string, []string) { return history(kind, h, 'm', 0) }})
			})
			for _, size := range []int{1, 100, 200, 256, 1000, 4000, 16000, 65500, 65536, 131060, 500000, 900000} {
				x.Seqs(plain+2, 1, 2, func(q []int) {
					h := append([]int(nil), q...)
					hs = append(hs, item{fmt.Sprintf("%v, records of %d bytes", names(h), size), func() (string, []string) { return history(kind, h, 'm', size) }})
				})
			}
			// a server that takes the record and says nothing
			MuteFor = 4500 * time.Millisecond
			if r.Thorough {
				MuteFor = 12 * time.Second
			}
			var mute []item
			for _, h := range [][]int{{8}, {0, 8}, {8, 0}, {1, 8}, {8, 1}, {0, 0, 8, 0}} {
				mute = append(mute, item{fmt.Sprint(names(h)), func() (string, []string) { return history(kind, h, 'm', 0) }})
			}
			for _, size := range []int{5000, 70000} {
				mute = append(mute, item{fmt.Sprintf("mute, %d bytes", size), func() (string, []string) { return history(kind, []int{8, 0}, 'm', size) }})
			}
			group(r, kind, "mute server", mute, 16)
			// answers that come late, maybe when nobody waits for them any more
			var late []item
			x.Seqs(4, 1, 3, func(q []int) {
				var h []int
				n := 0
				for _, k := range q {
					h = append(h, []int{0, 1, 9, 10}[k])
					if k > 1 {
						n++
					}
				}
				for _, d := range []time.Duration{1600 * time.Millisecond, 3400 * time.Millisecond} {
					if n == 0 || n > 1 && len(q) > 2 && !r.Thorough {
						continue
					}
					late = append(late, item{fmt.Sprintf("%v, late by %v", names(h), d), func() (string, []string) { return lateHistory(kind, h, 'm', 0, d) }})
				}
			})
			group(r, kind, "late answers", late, 16)
			// many saves before the one that does not succeed
			for _, n := range []int{8, 20, 70, 260} {
				for m := 1; m < plain+2; m++ {
					h := append(make([]int, n), m, 0, m, m, 0)
					hs = append(hs, item{fmt.Sprintf("%d saves, then %v", n, names(h[n:])), func() (string, []string) { return history(kind, h, 'm', 0) }})
				}
				h := make([]int, n)
				for i := range h {
					h[i] = i % 2
				}
				hs = append(hs, item{fmt.Sprintf("%d saves, every second refused", n), func() (string, []string) { return history(kind, h, 'm', 0) }})
			}
			group(r, kind, "history", hs, 16)
			refused(r, kind)
			contents(r, kind)
			settings(r, kind)
			missing(r, kind)
			concurrent(r, kind)
			breaks(r, kind, 1, false)
			notices(r, kind)
			denials(r, kind)
		}
	})
}

// refused runs every sequence of accepted and refused saves under every way to refuse.
func refused(r *x.R, kind string) {
	n := 3
	if r.Thorough {
		n = 5
	}
	var items []item
	for fi, f := range Refusals[kind] {
		x.Seqs(2, 1, n, func(q []int) {
			for _, size := range []int{0, 100, 5000, 70000, 300000} {
				if size > 0 && (len(q) > 2 || size != 70000 && (fi+len(q))%2 == 0) {
					continue
				}
				pad := strings.Repeat(" ", size)
				q := append([]int(nil), q...)
				items = append(items, item{fmt.Sprintf("%s %v, %d bytes", f, q, size), func() (p string, states []string) {
					p = withServer(kind, Usual[kind], func(s *Server, st storage.Store) string {
						s.mu.Lock()
						s.refuse = f
						s.mu.Unlock()
						body := func(i int) string { return fmt.Sprintf("{\"n\":%d%s}", i, pad) }
						errs := make([]error, len(q))
						healthy := true
						broken := make([]bool, len(q))
						for i, refuse := range q {
							s.SetMode(Mode(refuse)) // Accept or Reject
							err, crash := save(st, &msg{body: body(i)})
							if crash != nil {
								return fmt.Sprintf("save %d panics: %v", i, crash)
							}
							errs[i] = err
							states = append(states, fmt.Sprint(f, q[:i+1], healthy, err == nil))
							if refuse == 1 && err == nil {
								return fmt.Sprintf("save %d of %v succeeds although the server answered %q", i, q, f)
							}
							if refuse == 0 && err != nil && healthy {
								return fmt.Sprintf("save %d of %v fails: %v (%s)", i, q, err, s.Bad())
							}
							broken[i] = !healthy
							if refuse == 1 && f.Close {
								healthy = false
							}
						}
						return finish(s, Usual[kind], len(q), body, func(i int) error { return errs[i] }, func(i int) bool { return broken[i] })
					})
					return
				}})
			}
		})
	}
	group(r, kind, "refusal", items, 16)
}

// contents delivers records of every size class and content, and refuses those that are none.
func contents(r *x.R, kind string) {
	set := Usual[kind]
	var all []byte
	for i := 0; i < 256; i++ {
		all = append(all, byte(i))
	}
	bodies := []string{"{}", "", "x", string(all), strings.Repeat("a\r\n", 50), "\x00", "'; DROP TABLE points; --", "$1", "%s%d", "\\x41", "Ж€😀", "\xff\xfe", "1", "null", "\"", "\n", "PUB x 1\r\n"}
	for _, n := range []int{255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 4097, 8192, 32767, 32768, 65535, 65536, 70000, 131063, 131064, 131065, 131072, 262144, 1000000} {
		bodies = append(bodies, strings.Repeat("q", n))
	}
	rec := storage.NavRecord{ServerID: "srv", IMEI: "353173069480147", ClientID: 5, PacketID: 7, LocStates: []storage.LocState{{Latitude: -55.7, Longitude: 37.6}}}
	var items []item
	one := func(name string, ms ...interface{ ToBytes() ([]byte, error) }) {
		items = append(items, item{name, func() (p string, states []string) {
			p = withServer(kind, set, func(s *Server, st storage.Store) string {
				var want []string
				for i, m := range ms {
					err, crash := save(st, m)
					if crash != nil {
						return fmt.Sprintf("save %d panics: %v", i, crash)
					}
					ok := false
					if m != nil {
						if b, e := m.ToBytes(); e == nil {
							ok = true
							want = append(want, string(b))
						}
					}
					states = append(states, fmt.Sprint(ok, err == nil))
					if ok != (err == nil) {
						return fmt.Sprintf("save %d returns %v (%s)", i, err, s.Bad())
					}
				}
				got := s.Stored()
				if len(got) != len(want) {
					return fmt.Sprintf("the server stored %d records instead of %d", len(got), len(want))
				}
				for i, g := range got {
					if g != Expected(set, want[i]) {
						return fmt.Sprintf("the server stored %+v instead of %.200q to %+v", clipGot(g), want[i], set)
					}
				}
				if n, _ := s.Counts(); n != len(want) {
					return fmt.Sprintf("the server received %d records instead of %d", n, len(want))
				}
				return ""
			})
			return
		}})
	}
	for i, b := range bodies {
		one(fmt.Sprintf("content %d", i), &msg{body: b})
	}
	one("export record", &rec)
	alpha := []interface{ ToBytes() ([]byte, error) }{&msg{body: "{\"a\":1}"}, &msg{body: "{\"b\":2}"}, &msg{body: "partial", err: errSerial}, nil, &rec}
	names := []string{"a", "b", "unserialisable", "nil", "export"}
	x.Seqs(len(alpha), 1, 3, func(q []int) {
		var ms []interface{ ToBytes() ([]byte, error) }
		name := ""
		for _, i := range q {
			ms = append(ms, alpha[i])
			name += names[i] + " "
		}
		one(name, ms...)
	})
	// a long run on one connection
	var long []interface{ ToBytes() ([]byte, error) }
	for i := 0; i < 300; i++ {
		long = append(long, &msg{body: strings.Repeat(strconv.Itoa(i), 1+i%40)})
	}
	one("300 records", long...)
	for _, n := range []int{1<<20 - 100, 1 << 20, 1<<20 + 1, 1<<21 + 5, 1 << 24} {
		if kind != "nats" || n <= 1<<20 {
			one(fmt.Sprintf("%d bytes", n), &msg{body: strings.Repeat("q", n-1) + "z"}, &msg{body: "after"})
		}
	}
	group(r, kind, "content", items, 16)
}

// settings checks that credentials and destinations arrive as configured, and that wrong credentials fail.
func settings(r *x.R, kind string) {
	var items []item
	try := func(name string, set Set, salt byte) {
		items = append(items, item{name, func() (string, []string) {
			s := NewServer(kind)
			defer s.Stop()
			s.User, s.Pass, s.Salt = set.User, set.Pass, salt
			st := connector(kind)
			c := Config(s, set)
			c["plugin"] = "ignored.so"
			if err, crash := initStore(st, c); err != nil || crash != nil {
				return fmt.Sprintf("Init with %+v fails: %v %v (%s)", set, err, crash, s.Bad()), nil
			}
			defer closeStore(st)
			for i := 0; i < 2; i++ {
				if err, crash := save(st, &msg{body: "rec" + strconv.Itoa(i)}); err != nil || crash != nil {
					return fmt.Sprintf("save with %+v fails: %v %v (%s)", set, err, crash, s.Bad()), nil
				}
			}
			got := s.Stored()
			if len(got) != 2 || got[0] != Expected(set, "rec0") || got[1] != Expected(set, "rec1") {
				return fmt.Sprintf("the server stored %+v under settings %+v", got, set), nil
			}
			return "", []string{fmt.Sprint(set)}
		}})
	}
	wrong := func(name string, set Set, user, pass string) {
		items = append(items, item{name, func() (string, []string) {
			s := NewServer(kind)
			defer s.Stop()
			s.User, s.Pass = user, pass
			st := connector(kind)
			err, crash := initStore(st, Config(s, set))
			if crash != nil {
				return fmt.Sprintf("Init panics: %v", crash), nil
			}
			if err == nil {
				defer closeStore(st)
				err, crash = save(st, &msg{body: "rec"})
				if crash != nil {
					return fmt.Sprintf("save panics: %v", crash), nil
				}
				if err == nil {
					return fmt.Sprintf("save succeeds with credentials %+v where %q %q are wanted", set, user, pass), nil
				}
				if kind != "redis" {
					return "Init succeeds with wrong credentials", nil
				}
			}
			if len(s.Stored()) > 0 {
				return "the record was stored", nil
			}
			return "", []string{"wrong " + user}
		}})
	}
	texts := []string{"plain", "with space", "quo'te", "dou\"ble", "back\\slash", "a@b", "a/b", "a:b", "%41", "a#b", "a?b=c&d", "=", "a=b", "пароль", "+", "[x]", "a%zz", "$HOME", "'", "\\", " lead", "trail ", "sslmode=require"}
	for _, n := range []int{1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 71, 72, 73, 99, 100, 101, 127, 128, 129, 200} {
		texts = append(texts, strings.Repeat("0123456789abcdef", 16)[:n])
	}
	base := Usual[kind]
	if base.User != "" || kind == "nats" {
		for _, t := range texts {
			for _, salt := range []byte{'m', 'c'} {
				if salt == 'c' && kind != "postgresql" {
					continue
				}
				set := base
				set.User, set.Pass = "user", t
				try(fmt.Sprintf("password %s %d", t, salt), set, salt)
				set.User, set.Pass = t, "pass"
				try(fmt.Sprintf("user %s %d", t, salt), set, salt)
				set.User, set.Pass = t, t
				try(fmt.Sprintf("both %s %d", t, salt), set, salt)
			}
		}
		set := base
		set.User, set.Pass = "user", "right"
		for _, p := range []string{"", "wrong", "Right", "right ", "righ", "rightx"} {
			w := set
			w.Pass = p
			wrong("password "+p, w, "user", "right")
		}
		w := set
		w.User = "other"
		wrong("user other", w, "user", "right")
		set.Pass = ""
		if kind != "nats" {
			try("empty password", set, 'm')
		}
	}
	if kind == "redis" {
		for _, t := range texts {
			set := base
			set.Pass = t
			try("password "+t, set, 0)
			set.DB = "3"
			try("password and db "+t, set, 0)
		}
		for _, db := range []string{"0", "1", "2", "15", "255"} {
			set := base
			set.DB = db
			try("db "+db, set, 0)
		}
		for _, p := range []string{"", "wrong", "Right"} {
			w := base
			w.Pass = p
			wrong("password "+p, w, "", "right")
		}
	}
	if kind == "postgresql" {
		for _, t := range texts {
			set := base
			set.DB = t
			try("database "+t, set, 'm')
		}
	}
	dests := []string{"points", "p", "UPPER", "a_b", "a.b", "a-b", "x1", strings.Repeat("l", 60)}
	switch kind {
	case "postgresql":
		dests = []string{"points", "p", "UPPER", "public.points", "\"Quoted\"", "a_b1", strings.Repeat("l", 60)}
	case "redis":
		dests = append(dests, "with space", "очередь", "a:b", "*", "\r\n")
	case "rabbitmq":
		dests = nil
		for _, e := range []string{"", "receiver", "amq.topic", "a b", strings.Repeat("e", 100)} {
			for _, k := range []string{"", "key", "a.b.c", "#", "egts key", " key ", "\tkey\n", "Key"} {
				dests = append(dests, e+"|"+k)
			}
		}
	}
	for _, d := range dests {
		set := base
		set.Dest = d
		try("destination "+d, set, 'm')
	}
	if kind == "nats" {
		// several servers, some of them down
		for m := 1; m < 8; m++ {
			items = append(items, item{fmt.Sprintf("servers up %03b", m), func() (string, []string) {
				var urls []string
				var ss []*Server
				for i := 0; i < 3; i++ {
					s := NewServer(kind)
					defer s.Stop()
					if m>>i&1 == 0 {
						s.Down()
					}
					urls = append(urls, "nats://"+s.Addr())
					ss = append(ss, s)
				}
				for _, sep := range []string{",", ", "} {
					st := connector(kind)
					if err, crash := initStore(st, map[string]string{"servers": strings.Join(urls, sep), "topic": "receiver"}); err != nil || crash != nil {
						return fmt.Sprintf("Init fails: %v %v", err, crash), nil
					}
					if err, crash := save(st, &msg{body: "rec" + sep}); err != nil || crash != nil {
						return fmt.Sprintf("save fails: %v %v", err, crash), nil
					}
					closeStore(st)
					n := 0
					for _, s := range ss {
						for _, g := range s.Stored() {
							if g == Expected(Usual[kind], "rec"+sep) {
								n++
							}
						}
					}
					if n != 1 {
						return fmt.Sprintf("%d servers stored the record", n), nil
					}
				}
				return "", []string{fmt.Sprint(m)}
			}})
		}
	}
	group(r, kind, "settings", items, 16)
}

// missing checks Init with every subset of the settings absent, unusable values and unreachable servers.
func missing(r *x.R, kind string) {
	required := map[string][]string{
		"redis": {"server", "queue"}, "nats": {"servers", "topic"}, "nsq": {"server", "topic"}, "postgresql": {"host", "port", "table"},
		"rabbitmq": {"host", "port"}, "tarantool_queue": {"host", "port", "queue", "max_recons", "timeout", "reconnect"},
	}[kind]
	var items []item
	must := func(name string, change func(c map[string]string, s *Server) map[string]string) {
		items = append(items, item{name, func() (string, []string) {
			s := NewServer(kind)
			defer s.Stop()
			set := Usual[kind]
			s.User, s.Pass = set.User, set.Pass
			c := change(Config(s, set), s)
			st := connector(kind)
			err, crash := initStore(st, c)
			if crash != nil {
				return fmt.Sprintf("Init(%v) panics: %v", c, crash), nil
			}
			if err == nil {
				closeStore(st)
				return fmt.Sprintf("Init(%v) succeeds", c), nil
			}
			if n, _ := s.Counts(); n != 0 {
				return "the server received a record", nil
			}
			return "", []string{name}
		}})
	}
	must("nil", func(map[string]string, *Server) map[string]string { return nil })
	must("empty", func(map[string]string, *Server) map[string]string { return map[string]string{} })
	for m := 1; m < 1<<len(required); m++ {
		name := ""
		for i, k := range required {
			if m>>i&1 == 1 {
				name += " " + k
			}
		}
		must("without"+name, func(c map[string]string, s *Server) map[string]string {
			for i, k := range required {
				if m>>i&1 == 1 {
					delete(c, k)
				}
			}
			return c
		})
	}
	set1 := func(k string, vs ...string) {
		for _, v := range vs {
			must(k+"="+v, func(c map[string]string, s *Server) map[string]string { c[k] = v; return c })
		}
	}
	atStart := kind != "redis" && kind != "nsq"
	switch kind {
	case "redis":
		set1("db", "x", "1.5", " 1", "1x", "")
	case "nats":
		set1("servers", "nats://127.0.0.1:1", "nats://no.such.host.invalid:4222", "nats://[::1", "127.0.0.1:99999")
	case "postgresql":
		set1("port", "x", "1", "99999")
		set1("host", "no.such.host.invalid", "127.0.0.1")
		set1("sslmode", "require", "bogus")
	case "rabbitmq":
		set1("port", "x", "1", "99999")
		set1("host", "no.such.host.invalid", "127.0.0.1")
	case "tarantool_queue":
		set1("port", "x", "1", "99999")
		set1("host", "no.such.host.invalid", "127.0.0.1")
		set1("max_recons", "x", "", "1.5")
		set1("timeout", "x", "", "1s")
		set1("reconnect", "x", "", "0.5")
	}
	if atStart {
		must("server down", func(c map[string]string, s *Server) map[string]string { s.Down(); return c })
	} else {
		// the connection is made by the first save
		items = append(items, item{"server down at the first save", func() (string, []string) {
			s := NewServer(kind)
			defer s.Stop()
			s.Down()
			st := connector(kind)
			if err, crash := initStore(st, Config(s, Usual[kind])); err != nil || crash != nil {
				if crash != nil {
					return fmt.Sprint("Init panics: ", crash), nil
				}
				return "", nil
			}
			defer closeStore(st)
			if err, crash := save(st, &msg{body: "a"}); err == nil || crash != nil {
				return fmt.Sprintf("save returns %v %v", err, crash), nil
			}
			s.Up()
			if err, crash := save(st, &msg{body: "b"}); crash != nil || err == nil && len(s.Stored()) != 1 {
				return fmt.Sprintf("the server is up: save returns %v %v, stored %v", err, crash, s.Stored()), nil
			}
			return "", []string{"down first"}
		}})
	}
	// optional settings absent: the rest is used
	optional := map[string][]string{"redis": {"db", "password"}, "rabbitmq": {"key"}}[kind]
	for m := 1; m < 1<<len(optional); m++ {
		items = append(items, item{fmt.Sprintf("optional %b", m), func() (string, []string) {
			return withServerConfig(kind, Usual[kind], func(c map[string]string) {
				for i, k := range optional {
					if m>>i&1 == 1 {
						delete(c, k)
					}
				}
			}), []string{"optional"}
		}})
	}
	group(r, kind, "start", items, 8)
}

func withServerConfig(kind string, set Set, change func(map[string]string)) string {
	s := NewServer(kind)
	defer s.Stop()
	s.User, s.Pass = set.User, set.Pass
	st := connector(kind)
	c := maps.Clone(Config(s, set))
	change(c)
	if err, crash := initStore(st, c); err != nil || crash != nil {
		return fmt.Sprintf("Init(%v) fails: %v %v", c, err, crash)
	}
	defer closeStore(st)
	if err, crash := save(st, &msg{body: "rec"}); err != nil || crash != nil {
		return fmt.Sprintf("save fails: %v %v", err, crash)
	}
	if g := s.Stored(); len(g) != 1 || g[0] != Expected(set, "rec") {
		return fmt.Sprintf("the server stored %+v", g)
	}
	return ""
}

// concurrent runs saves side by side: every assignment of answers to them, every order of the answers.
func concurrent(r *x.R, kind string) {
	set := Usual[kind]
	var items []item
	for n := 2; n <= 3; n++ {
		perms := permutations(n)
		for _, p := range perms {
			for m := 0; m < 1<<n; m++ {
				items = append(items, item{fmt.Sprintf("%d saves, answers %v, accepted %03b", n, p, m), func() (string, []string) {
					problem := withServer(kind, set, func(s *Server, st storage.Store) string {
						s.mu.Lock()
						for i := 0; i < n; i++ {
							b := fmt.Sprintf("rec%d", i)
							if m>>i&1 == 0 {
								s.by[b] = Reject
							}
							s.wait[b] = time.Duration(p[i]) * 4 * time.Millisecond
						}
						s.mu.Unlock()
						errs := make([]error, n)
						crashes := make([]any, n)
						var wg sync.WaitGroup
						for i := 0; i < n; i++ {
							wg.Add(1)
							go func() {
								defer wg.Done()
								errs[i], crashes[i] = save(st, &msg{body: fmt.Sprintf("rec%d", i)})
							}()
						}
						wg.Wait()
						all := 1<<n - 1
						for i := 0; i < n; i++ {
							if crashes[i] != nil {
								return fmt.Sprintf("save %d panics: %v", i, crashes[i])
							}
							// a refusal may cost rabbitmq its channel, and with it the other saves
							if ok := m>>i&1 == 1; errs[i] == nil && !ok || errs[i] != nil && ok && (kind != "rabbitmq" || m == all) {
								return fmt.Sprintf("save %d returns %v", i, errs[i])
							}
						}
						return finish(s, set, n, func(i int) string { return fmt.Sprintf("rec%d", i) }, func(i int) error { return errs[i] }, func(int) bool { return false })
					})
					return problem, []string{fmt.Sprint("concurrent ", n, m)}
				}})
			}
		}
	}
	group(r, kind, "side by side", items, 16)
}

func permutations(n int) [][]int {
	var out [][]int
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == n {
			out = append(out, append([]int(nil), p...))
			return
		}
		for i := 0; i < n; i++ {
			if used>>i&1 == 0 {
				rec(append(p, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return out
}

// dialogue is a bound on the bytes of a start and three saves: those the server writes and those it reads.
var dialogue = map[string][2]int{"redis": {50, 150}, "nats": {320, 350}, "nsq": {120, 460}, "postgresql": {450, 540}, "rabbitmq": {340, 820}, "tarantool_queue": {420, 310}}

// breaking starts the connector and saves three records of the size while the connection breaks at a byte;
// with resume, saving goes on until it succeeds again.
func breaking(kind string, out, in int, refuse [3]bool, size int, resume bool) (string, []string) {
	s := NewServer(kind)
	defer s.Stop()
	set := Usual[kind]
	s.User, s.Pass, s.Salt = set.User, set.Pass, 'm'
	s.Break(out, in)
	st := connector(kind)
	cfg := Config(s, set)
	if resume && kind == "tarantool_queue" {
		cfg["max_recons"] = "1000"
	}
	err, crash := initStore(st, cfg)
	if crash != nil {
		return fmt.Sprintf("Init panics: %v", crash), nil
	}
	if err != nil {
		if !s.Broken() {
			return fmt.Sprintf("Init fails: %v (%s)", err, s.Bad()), nil
		}
		if n, _ := s.Counts(); n > 0 {
			return "Init delivers a record", nil
		}
		return "", []string{"Init fails"}
	}
	defer closeStore(st)
	pad := strings.Repeat(" ", size)
	var states []string
	var results []error
	body := func(i int) string { return fmt.Sprintf("{\"record\":%d%s}", i, pad) }
	one := func(refused bool) string {
		i := len(results)
		s.SetMode(Accept)
		if refused {
			s.SetMode(Reject)
		}
		was := s.Broken()
		t0 := time.Now()
		err, crash := save(st, &msg{body: body(i)})
		if crash != nil {
			return fmt.Sprintf("save %d panics: %v", i, crash)
		}
		if d := time.Since(t0); resume && d > slow {
			return fmt.Sprintf("save %d takes %v", i, d)
		}
		results = append(results, err)
		states = append(states, fmt.Sprint(i, refused, was, s.Broken(), err == nil))
		switch {
		case refused && err == nil:
			return fmt.Sprintf("save %d succeeds although the server refused or never had it", i)
		case !refused && err != nil && !s.Broken() && kind != "rabbitmq":
			return fmt.Sprintf("save %d fails although nothing broke: %v (%s)", i, err, s.Bad())
		}
		return ""
	}
	for _, refused := range refuse {
		if p := one(refused); p != "" {
			return p, states
		}
	}
	if resume {
		back := time.Now()
		for row := 0; row < 3; {
			if p := one(false); p != "" {
				return p, states[:1]
			}
			if results[len(results)-1] == nil {
				row++
				continue
			}
			row = 0
			if time.Since(back) > recovery {
				return fmt.Sprintf("%v after the connection broke a save still fails: %v", recovery, results[len(results)-1]), states[:1]
			}
			time.Sleep(50 * time.Millisecond)
		}
		states = states[:3]
	}
	broken := s.Broken()
	return finish(s, set, len(results), body, func(i int) error { return results[i] }, func(i int) bool { return broken && !(i < 3 && refuse[i]) }), states
}

// breaks lets the connection break at every byte of the dialogue, in either direction.
func breaks(r *x.R, kind string, step int, resume bool) {
	var items []item
	add := func(out, in int, refuse [3]bool, size int) {
		dir, n := "written", out
		if out < 0 {
			dir, n = "read", in
		}
		items = append(items, item{fmt.Sprintf("break after %d bytes %s by the server, refused %v, records of %d bytes", n, dir, refuse, size), func() (string, []string) {
			return breaking(kind, out, in, refuse, size, resume)
		}})
	}
	patterns := [][3]bool{{}, {true}}
	if r.Thorough {
		patterns = nil
		for i := range 8 {
			patterns = append(patterns, [3]bool{i&1 != 0, i&2 != 0, i&4 != 0})
		}
	}
	d := dialogue[kind]
	for k, p := range patterns {
		for n := k % step; n <= d[0]; n += step {
			add(n, -1, p, 0)
		}
		for n := k % step; n <= d[1]; n += step {
			add(-1, n, p, 0)
		}
	}
	for n := 0; n < 220000; n += 997 * step {
		add(-1, n, [3]bool{}, 70000)
	}
	group(r, kind, "break", items, 64)
}

// noticed plays a history in which the server speaks on its own, between the saves and ahead of its answers.
func noticed(kind string, q []string, ahead string) (string, []string) {
	s := NewServer(kind)
	defer s.Stop()
	set := Usual[kind]
	s.User, s.Pass, s.Salt = set.User, set.Pass, 'm'
	st := connector(kind)
	if err, crash := initStore(st, Config(s, set)); err != nil || crash != nil {
		return fmt.Sprintf("Init fails: %v %v (%s)", err, crash, s.Bad()), nil
	}
	defer closeStore(st)
	s.Ahead(ahead)
	var results []error
	var states []string
	body := func(i int) string { return fmt.Sprintf("{\"record\":%d}", i) }
	shaken := false // a dismissal was not yet followed by a save that worked
	ever := false
	one := func(refused bool) string {
		i := len(results)
		s.SetMode(Accept)
		if refused {
			s.SetMode(Reject)
		}
		t0 := time.Now()
		err, crash := save(st, &msg{body: body(i)})
		results = append(results, err)
		states = append(states, fmt.Sprint(q[:min(i, len(q))], ahead, refused, shaken, err == nil))
		switch {
		case crash != nil:
			return fmt.Sprintf("save %d panics: %v", i, crash)
		case time.Since(t0) > slow:
			return fmt.Sprintf("save %d takes %v", i, time.Since(t0))
		case refused && err == nil:
			return fmt.Sprintf("save %d succeeds although the server refused or never had it", i)
		case !refused && err != nil && !shaken:
			return fmt.Sprintf("save %d fails although the server accepts: %v (%s)", i, err, s.Bad())
		}
		if err == nil || refused && kind == "rabbitmq" && s.denied() == "" {
			shaken = false
		}
		return ""
	}
	if p := one(false); p != "" {
		return p, states
	}
	for _, l := range q {
		switch l {
		case "accept", "reject":
			if p := one(l == "reject"); p != "" {
				return p, states
			}
		default:
			if !slices.Contains(Notices[kind], l) {
				shaken, ever = true, true
			}
			if how, ok := strings.CutPrefix(l, "deny "); ok {
				s.Deny(how)
			} else if l == "allow" {
				s.Deny("")
			} else {
				s.Say(l)
			}
			time.Sleep(15 * time.Millisecond)
		}
	}
	s.Deny("")
	for end, row := time.Now().Add(recovery), 0; row < 2; {
		if p := one(false); p != "" {
			return p, states
		}
		if row++; results[len(results)-1] != nil {
			if row = 0; time.Now().After(end) {
				return fmt.Sprintf("%v after it was dismissed a save still fails: %v", recovery, results[len(results)-1]), states
			}
			time.Sleep(50 * time.Millisecond)
		}
	}
	if !settle(2*time.Second, func() bool { return s.Owed() == 0 || ever }) {
		return fmt.Sprintf("%d of the server's notices that want an answer have none", s.Owed()), states
	}
	return finish(s, set, len(results), body, func(i int) error { return results[i] }, func(int) bool { return ever }), states
}

// notices plays every short history of saves and what the server says on its own.
func notices(r *x.R, kind string) {
	if len(Notices[kind]) == 0 {
		return
	}
	var items []item
	add := func(q []string, ahead string) {
		items = append(items, item{fmt.Sprintf("%v, ahead of answers %q", q, ahead), func() (string, []string) { return noticed(kind, q, ahead) }})
	}
	saves := []string{"accept", "reject"}
	all := append(append(append([]string(nil), Notices[kind]...), saves...), Dismissals[kind]...)
	x.Seqs(len(all), 1, 3, func(q []int) {
		var l []string
		for _, k := range q {
			l = append(l, all[k])
		}
		add(l, "")
	})
	depth := 4
	if r.Thorough {
		depth = 6
	}
	mild := append(append([]string(nil), Notices[kind]...), saves...)
	if r.Thorough && len(mild) > 5 {
		depth = 5
	}
	x.Seqs(len(mild), 4, depth, func(q []int) {
		var l []string
		for _, k := range q {
			l = append(l, mild[k])
		}
		add(l, "")
	})
	for _, n := range Notices[kind] {
		x.Seqs(len(saves), 1, depth, func(q []int) {
			var l []string
			for _, k := range q {
				l = append(l, saves[k])
			}
			add(l, n)
		})
		for _, m := range Notices[kind] {
			x.Seqs(len(saves), 1, depth-1, func(q []int) {
				var l []string
				for _, k := range q {
					l = append(l, m, saves[k])
				}
				add(l, n)
			})
		}
	}
	group(r, kind, "notices", items, 64)
}

// denials plays every short history of saves while the server refuses the connections, at some step of setting
// one up, and while it no longer does.
func denials(r *x.R, kind string) {
	var items []item
	for _, d := range Denials[kind] {
		letters := []string{"accept", "reject", "deny " + d, "allow"}
		depth := 3
		if r.Thorough {
			depth = 4
		}
		x.Seqs(len(letters), 1, depth, func(q []int) {
			var l []string
			for _, k := range q {
				l = append(l, letters[k])
			}
			if slices.Contains(l, letters[2]) {
				items = append(items, item{fmt.Sprint(l), func() (string, []string) { return noticed(kind, l, "") }})
			}
		})
	}
	group(r, kind, "denials", items, 64)
}
