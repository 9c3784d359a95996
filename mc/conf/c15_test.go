package conf

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"maps"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
	"unsafe"

	"github.com/ElectroUnion/egts-gate/cli/receiver/config"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	"github.com/sirupsen/logrus"

	"verif.local/mc/ref"
	"verif.local/mc/stores"
	"verif.local/mc/vmap"
	"verif.local/mc/x"
)

func TestC15(t *testing.T) {
	logrus.SetOutput(io.Discard)
	log.SetOutput(io.Discard)
	for _, e := range os.Environ() {
		if k, _, _ := strings.Cut(e, "="); strings.HasPrefix(k, "PG") {
			os.Unsetenv(k)
		}
	}
	x.Run(t, func(r *x.R) {
		only := os.Getenv("VMC_PART")
		for _, p := range []struct {
			name string
			f    func(*x.R)
		}{{"files", files}, {"malformed", malformed}, {"shipped", shipped}, {"load", load}, {"program", program}} {
			if only == "" || only == p.name {
				p.f(r)
			}
		}
	})
}

// expectation about a file that is read.
type want struct {
	addr  string
	ttl   time.Duration
	level logrus.Level
	store map[string]map[string]string
}

func (f file) want() want {
	w := want{addr: f.host.s + ":" + f.port.s, level: logrus.InfoLevel, store: map[string]map[string]string{}}
	if n, err := strconv.ParseInt(f.ttl.s, 10, 64); err == nil {
		w.ttl = time.Duration(n) * time.Second
	}
	switch f.level.s {
	case "DEBUG":
		w.level = logrus.DebugLevel
	case "WARN":
		w.level = logrus.WarnLevel
	case "ERROR":
		w.level = logrus.ErrorLevel
	}
	for _, s := range f.sections {
		m := map[string]string{}
		for _, e := range s.kv {
			m[e[0]] = e[1]
		}
		w.store[s.name] = m
	}
	return w
}

var scratch = sync.OnceValue(func() string {
	d, err := os.MkdirTemp("", "conf")
	if err != nil {
		panic(err)
	}
	return d
})

var fileNo atomic.Int64

func put(text string) string {
	p := filepath.Join(scratch(), fmt.Sprintf("c%d.yaml", fileNo.Add(1)))
	if err := os.WriteFile(p, []byte(text), 0o600); err != nil {
		panic(err)
	}
	return p
}

// check reads the text and compares.
func check(c *x.C, text string, w want) {
	p := put(text)
	s, err := config.New(p)
	os.Remove(p)
	if err != nil {
		c.Fail("file", "New fails: %v\n%s", err, text)
	}
	if a := s.GetListenAddress(); a != w.addr {
		c.Fail("file", "listen address %q, want %q\n%s", a, w.addr, text)
	}
	if d := s.GetEmptyConnTTL(); d != w.ttl {
		c.Fail("file", "idle limit %v, want %v\n%s", d, w.ttl, text)
	}
	if l := s.GetLogLevel(); l != w.level {
		c.Fail("file", "log level %v, want %v\n%s", l, w.level, text)
	}
	if len(s.Store) != len(w.store) {
		c.Fail("file", "storage sections %v, want %v\n%s", s.Store, w.store, text)
	}
	for k, m := range w.store {
		got, ok := s.Store[k]
		if !ok || !maps.Equal(got, m) {
			c.Fail("file", "storage section %s: %v, want %v\n%s", k, s.Store, m, text)
		}
	}
	c.State(x.HS(w.addr, w.ttl.String(), w.level.String(), fmt.Sprint(w.store)))
	c.Step(1)
	c.Trace()
}

var (
	none  = value{absent: true}
	hosts = []value{none, {null: true}, str(""), str("127.0.0.1"), str("0.0.0.0"), str("localhost"), str("gate.example.org"), str("[::1]")}
	ports = []value{none, str(""), str("6000"), {s: "6000", number: true}, str("0"), str("65535"), str("08080"), str("http")}
	ttls  = []value{none, {null: true}, {s: "0", number: true}, {s: "1", number: true}, {s: "10", number: true}, {s: "59", number: true}, {s: "3600", number: true}, {s: "86400", number: true}, {s: "2147483647", number: true}, {s: "2147483648", number: true}, {s: "4294967297", number: true}, {s: "9223372036", number: true}}
	// every level logrus knows, and what is none
	levels = []value{none, {null: true}, str(""), str("DEBUG"), str("INFO"), str("WARN"), str("ERROR"), str("debug"), str("error"), str("warn"), str("WARNING"), str("TRACE"), str("FATAL"), str("PANIC"), str("Error"), str("ERROR "), str(" DEBUG"), str("4"), str("verbose")}
	full   = []section{
		{name: "rabbitmq", kv: [][2]string{{"host", "localhost"}, {"port", "5672"}, {"user", "guest"}, {"password", "p: a#s's \"w\""}, {"exchange", "receiver"}, {"key", ""}}},
		{name: "postgresql", kv: [][2]string{{"host", "h"}, {"port", "5432"}, {"password", "a\\b"}, {"table", "points"}, {"sslmode", "disable"}}},
		{name: "redis", kv: [][2]string{{"server", "redis:6379"}, {"queue", "egts"}, {"password", ""}, {"db", "0"}}},
		{name: "nats", kv: [][2]string{{"servers", "nats://localhost:1222, nats://localhost:1223"}, {"topic", "receiver"}}},
		{name: "tarantool_queue", kv: [][2]string{{"max_recons", "5"}, {"timeout", "1"}, {"queue", "точки"}}},
		{name: "nsq", kv: [][2]string{{"topic", "nsq.egts.raw"}, {"server", "127.0.0.1:4150"}}},
	}
	storages = []struct {
		n    int
		secs []section
	}{{0, nil}, {1, nil}, {2, nil}, {2, full[2:3]}, {2, []section{{name: "redis", null: true}}}, {2, []section{{name: "mystore", kv: [][2]string{{"a", "b"}}}}}, {2, full}}
)

// files reads every combination of settings in the plain styles, and every order of the settings in
// every style.
func files(r *x.R) {
	styles := []style{{quote: "double", indent: 2}, {quote: "single", indent: 2}, {quote: "plain", indent: 2}}
	for _, h := range hosts {
		for _, p := range ports {
			r.Case(x.HS("files", fmt.Sprint(h, p)), func() string { return fmt.Sprintf("files with host %+v and port %+v", h, p) }, func(c *x.C) {
				for _, tl := range ttls {
					for _, l := range levels {
						for _, s := range storages {
							f := file{host: h, port: p, ttl: tl, level: l, storage: s.n, sections: s.secs}
							w := f.want()
							for _, st := range styles {
								c.Eval(x.HS("f", fmt.Sprint(h, p, tl, l, s.n, len(s.secs), st.quote)))
								check(c, f.render(st), w)
							}
						}
					}
				}
				c.Count("settings by quoting")
			})
		}
	}
	f := file{host: str("127.0.0.1"), port: value{s: "6000", number: true}, ttl: value{s: "10", number: true}, level: str("WARN"), storage: 2, sections: full}
	for _, q := range []string{"double", "single", "plain"} {
		for _, ind := range []int{1, 2, 4, 8} {
			for _, eol := range []string{"\n", "\r\n"} {
				for flags := 0; flags < 6; flags++ {
					r.Case(x.HS("styles", q, fmt.Sprint(ind, eol, flags)), func() string {
						return fmt.Sprintf("files quoted %s, indented by %d, line end %q, form %d, in every order", q, ind, eol, flags)
					}, func(c *x.C) {
						for _, o := range perms(5) {
							st := style{quote: q, indent: ind, eol: eol, comment: flags&1 == 1, start: flags&2 == 2, flow: flags >= 4, order: o}
							for n := 0; n < 2; n++ {
								g := f
								if n == 1 {
									g.sections = slices.Clone(full)
									slices.Reverse(g.sections)
									g.level, g.host = none, none
								}
								c.Eval(x.HS("s", fmt.Sprint(st, n)))
								check(c, g.render(st), g.want())
							}
						}
						c.Count("orders by style")
					})
				}
			}
		}
	}
	// values that a reader might take for something else: variables, templates, escapes, other types
	words := []string{"$HOME", "${HOME}", "$USER", "$$", "$", "${", "pa$$word", "a$b", "$1", "%HOME%", "%s%d", "{{.Env}}", "{{ HOME }}", "#", "a#b", "a #b", "&a", "*a", "~", "~/egts", "null", "true", "No", "0x1F", "010", "1e3", "1_000", "3.0", "+5", "-1", ".5", "2021-12-16", "12:30:45", "\\n", "\\x41", "\\", "\\\\", "\"", "'", "''", "a'b", "a\"b", "a\nb", "tab\tin", " lead", "trail ", "  ", "a  b", "!tag", "@at", "`b`", "|", ">", "-", "- a", "?", ": ", "a: b", "[a]", "{a}", "a,b", ",", "пароль", "Пароль№", "😀", "é", "\u00a0", "env:HOME", "file:///etc/passwd", "@/etc/passwd", "!!str x", "<<", "vault:x", "UPPER", "MiXed", "a;b", "a=b", "a|b", "a&b", "a?b", "a*b", "$(id)", "`id`", "../x", "a/b", "a\\b", "\ufeffx", "x\u200b", "0", "00", "1.10", "1.0", "yes", "off"}
	for _, v := range words {
		r.Case(x.HS("words", v), func() string { return fmt.Sprintf("the value %q in every place", v) }, func(c *x.C) {
			place := []func(g *file){
				func(g *file) { g.host = str(v) },
				func(g *file) { g.port = str(v) },
				func(g *file) { g.sections = []section{{name: "redis", kv: [][2]string{{"password", v}}}} },
				func(g *file) {
					g.sections = []section{{name: "redis", kv: [][2]string{{"a", "b"}, {"password", v}, {"c", v}}}, {name: "nats", kv: [][2]string{{"password", v}}}}
				},
				func(g *file) { g.host, g.port = str(v), str(v) },
				func(g *file) {
					g.host, g.port, g.sections = str(v), str(v), []section{{name: "nsq", kv: [][2]string{{"topic", v}, {"server", v + v}}}}
				},
				func(g *file) {
					g.sections = []section{{name: "redis", kv: [][2]string{{"password", "a" + v}, {"user", v + "a"}, {"queue", "a" + v + "a"}}}}
				},
				func(g *file) { g.level = str(v) },
			}
			for m, pl := range place {
				for _, q := range []string{"double", "single", "plain"} {
					for _, flow := range []bool{false, true} {
						for _, comment := range []bool{false, true} {
							g := file{host: str("127.0.0.1"), port: str("6000"), ttl: ttls[3], level: str("WARN"), storage: 2, sections: full[:2]}
							pl(&g)
							c.Eval(x.HS("w", v, q, fmt.Sprint(m, flow, comment)))
							check(c, g.render(style{quote: q, indent: 2, flow: flow, comment: comment && !flow}), g.want())
						}
					}
				}
			}
		})
	}
	// every printable character at the ends and in the middle of host, port and a storage value
	for ch := 32; ch < 127; ch++ {
		r.Case(x.HI(8, uint64(ch)), func() string { return fmt.Sprintf("the character %q in host, port and storage values", ch) }, func(c *x.C) {
			z := string(rune(ch))
			for _, v := range []string{z, z + "gate.example.org", "gate.example.org" + z, "gate" + z + "example", "10.0.0.1" + z, z + "60", "60" + z, z + z, z + "a" + z, "[::1" + z + "]", "[fe80::1%" + z + "]"} {
				for place := 0; place < 4; place++ {
					g := file{host: str("127.0.0.1"), port: str("6000"), ttl: ttls[3], level: str("WARN"), storage: 2, sections: full[:2]}
					switch place {
					case 0:
						g.host = str(v)
					case 1:
						g.port = str(v)
					case 2:
						g.level = str(v)
					case 3:
						g.sections = []section{{name: "redis", kv: [][2]string{{"server", v}, {"queue", v + v}}}}
					}
					for _, q := range []string{"double", "single"} {
						c.Eval(x.HS("c", v, q, fmt.Sprint(place)))
						check(c, g.render(style{quote: q, indent: 2}), g.want())
					}
				}
			}
		})
	}
	// settings it does not know have no effect
	for i, extra := range []string{"metrics: 1", "metrics: off", "name: gate", "HOST: 10.9.8.7", "Port: 1", "connttl: 99", "conn_TTL: 99", "loglevel: DEBUG", "logLevel: DEBUG", "store:\n  redis:\n    server: x", "storages: []", "settings:\n  host: other\n  port: 1\n  conn_ttl: 3", "list:\n- host: a\n- port: b", "x: {host: a, port: b, log_level: DEBUG}", "hosts: [a, b]", "_host: a", "host_: a", "'host ': a", "5: 6"} {
		r.Case(x.HI(9, uint64(i)), func() string { return "an unknown setting: " + extra }, func(c *x.C) {
			for _, lv := range levels {
				for _, s := range storages {
					for _, q := range []string{"double", "single", "plain"} {
						g := file{host: str("127.0.0.1"), port: str("6000"), ttl: ttls[4], level: lv, storage: s.n, sections: s.secs}
						text := g.render(style{quote: q, indent: 2})
						c.Eval(x.HS("x", extra, q, text))
						check(c, text+extra+"\n", g.want())
						check(c, extra+"\n"+text, g.want())
					}
				}
			}
		})
	}
	for l := 0; l <= 12; l++ {
		// every length of every setting up to what fits a line
		r.Case(x.HI(7, uint64(l)), func() string { return fmt.Sprintf("values of length 2^%d", l) }, func(c *x.C) {
			v := strings.Repeat("a", 1<<l)
			g := file{host: str(v), port: str("1" + v), ttl: ttls[3], level: str("DEBUG"), storage: 2, sections: []section{{name: v, kv: [][2]string{{v, v}, {"b", v + v}}}}}
			for _, q := range []string{"double", "single", "plain"} {
				if l < 10 || q != "none" {
					c.Eval(x.HS("l", fmt.Sprint(l), q))
					if l > 9 { // a plain key may not be longer
						g.sections = []section{{name: "s", kv: [][2]string{{"a", v}, {"b", v + v}}}}
					}
					check(c, g.render(style{quote: q, indent: 2}), g.want())
				}
			}
		})
	}
}

func perms(n int) [][]int {
	var out [][]int
	var rec func(p []int)
	rec = func(p []int) {
		if len(p) == n {
			out = append(out, slices.Clone(p))
			return
		}
		for i := 0; i < n; i++ {
			if !slices.Contains(p, i) {
				rec(append(p, i))
			}
		}
	}
	rec(nil)
	return out
}

// bad are files that must be refused.
func bad() map[string]string {
	out := map[string]string{}
	good := []string{`host: "127.0.0.1"`, `port: "6000"`, `conn_ttl: 10`, `log_level: "DEBUG"`, `storage:`, `  redis:`, `    server: "redis:6379"`, `    queue: "egts"`}
	for name, l := range map[string]string{"tab": "\thost: a", "no value": "hostname", "open double quote": `x: "abc`, "open single quote": `x: 'abc`, "open list": "x: [1, 2", "open map": "x: {a: 1",
		"stray bracket": "x: ]", "two colons": "a: b: c", "bad escape": `x: "\z"`, "at": "@x: 1", "backquote": "x: `a`", "percent": "x: %a", "unknown alias": "x: *none", "control": "x: \x01",
		"bad utf-8": "x: \xff\xfe"} {
		for i := 0; i <= len(good); i++ {
			ls := slices.Insert(slices.Clone(good), i, l)
			out[fmt.Sprintf("%s at line %d", name, i+1)] = strings.Join(ls, "\n") + "\n"
		}
	}
	for i, l := range []string{"- a\n- b\n", "abc\n", "\"abc\"\n", "host: [a]\n", "host: {a: b}\n", "host:\n  a: b\n", "port: [1]\n", "port: {a: 1}\n", "conn_ttl: abc\n", "conn_ttl: [1]\n", "conn_ttl: {a: 1}\n",
		"conn_ttl: 10s\n", "conn_ttl: 99999999999999999999\n", "conn_ttl: \"\"\n", "conn_ttl: \"10 s\"\n", "conn_ttl: true\n", "log_level: [DEBUG]\n", "log_level: {DEBUG: 1}\n", "storage: abc\n", "storage: [redis]\n",
		"storage: 1\n", "storage:\n  redis: abc\n", "storage:\n  redis: [a]\n", "storage:\n  redis:\n    server: [a]\n", "storage:\n  redis:\n    server: {a: b}\n", "storage:\n  redis: {server: a}\n  nats: 7\n",
		"storage:\n- redis\n"} {
		out[fmt.Sprintf("type %d alone: %q", i, l)] = l
		out[fmt.Sprintf("type %d behind good settings: %q", i, l)] = "unknown: 1\n" + l
		k, _, _ := strings.Cut(l, ":")
		var ls []string
		for _, g := range good {
			if !strings.HasPrefix(g, k) && !(k == "storage" && strings.HasPrefix(g, " ")) {
				ls = append(ls, g)
			}
		}
		if strings.Contains(l, ":") {
			out[fmt.Sprintf("type %d before the rest: %q", i, l)] = l + strings.Join(ls, "\n") + "\n"
			out[fmt.Sprintf("type %d after the rest: %q", i, l)] = strings.Join(ls, "\n") + "\n" + l
		}
	}
	return out
}

func malformed(r *x.R) {
	b := bad()
	for _, k := range x.Keys(b) {
		r.Case(x.HS("bad", k), func() string { return "malformed file: " + k }, func(c *x.C) {
			p := put(b[k])
			defer os.Remove(p)
			if s, err := config.New(p); err == nil {
				c.Fail("malformed", "New accepts\n%s\nas %+v", b[k], s)
			}
			c.State(x.HS("refused"))
			c.Step(1)
			c.Trace()
			c.Count("malformed")
		})
	}
	for _, p := range []string{"", scratch(), scratch() + "/none.yaml", scratch() + "/none/none.yaml", "/dev/null/x", strings.Repeat("a", 5000)} {
		r.Case(x.HS("unreadable", p), func() string { return "unreadable file " + p }, func(c *x.C) {
			if s, err := config.New(p); err == nil {
				c.Fail("unreadable", "New(%q) succeeds with %+v", p, s)
			}
			c.Step(1)
			c.Trace()
			c.Count("unreadable")
		})
	}
}

// ---- shipped configuration

var repo = os.Getenv("VMC_REPO")

type shippedFile struct {
	f        file
	examples []section
}

// readShipped reads the example without a YAML parser: it is made of "key: value" lines.
func readShipped() (string, shippedFile) {
	b, err := os.ReadFile(repo + "/configs/receiver.yaml")
	if err != nil {
		panic(err)
	}
	var sf shippedFile
	sf.f.host, sf.f.port, sf.f.ttl, sf.f.level = none, none, none, none
	re := regexp.MustCompile(`^(#?)( *)([a-z_]+):\s*"?([^"]*)"?\s*$`)
	for _, l := range strings.Split(string(b), "\n") {
		m := re.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		if m[1] == "" {
			switch m[3] {
			case "host":
				sf.f.host = str(m[4])
			case "port":
				sf.f.port = str(m[4])
			case "conn_ttl":
				sf.f.ttl = value{s: m[4], number: true}
			case "log_level":
				sf.f.level = str(m[4])
			case "storage":
				sf.f.storage = 1
			}
			continue
		}
		switch len(m[2]) {
		case 2:
			sf.examples = append(sf.examples, section{name: m[3]})
		case 4:
			e := &sf.examples[len(sf.examples)-1]
			e.kv = append(e.kv, [2]string{m[3], m[4]})
		}
	}
	return string(b), sf
}

func shipped(r *x.R) {
	text, sf := readShipped()
	r.Case(x.HS("shipped"), func() string { return "the shipped example" }, func(c *x.C) {
		if sf.f.host.absent || sf.f.port.absent || sf.f.ttl.absent || sf.f.level.absent {
			c.Fail("shipped", "the example does not give every setting:\n%s", text)
		}
		check(c, text, sf.f.want())
		c.Count("shipped example")
	})
	// every subset of its commented sections, with the addresses of servers of that kind
	for m := 1; m < 1<<len(sf.examples); m++ {
		var names []string
		for i, e := range sf.examples {
			if m>>i&1 == 1 {
				names = append(names, e.name)
			}
		}
		r.Case(x.HS("shipped", fmt.Sprint(names)), func() string { return fmt.Sprint("the shipped example with sections ", names) }, func(c *x.C) {
			var lines []string
			servers := map[string]*stores.Server{}
			defer func() {
				for _, s := range servers {
					s.Stop()
				}
			}()
			dest := map[string]string{}
			cur := ""
			in := false
			re := regexp.MustCompile(`^#( *)([a-z_]+):(.*)$`)
			for _, l := range strings.Split(text, "\n") {
				if w := re.FindStringSubmatch(l); w != nil {
					if len(w[1]) == 2 {
						in = slices.Contains(names, w[2])
						cur = w[2]
						if in {
							servers[cur] = stores.NewServer(cur)
						}
					}
					if !in {
						lines = append(lines, l)
						continue
					}
					s := servers[cur]
					v := strings.Trim(strings.TrimSpace(w[3]), `"`)
					switch w[2] {
					case "host":
						v = s.Host
					case "port":
						v = s.Port
					case "server":
						v = s.Addr()
					case "servers":
						v = "nats://" + s.Addr()
					case "user":
						s.User = v
					case "password":
						s.Pass = v
					case "topic", "queue", "table", "exchange":
						dest[cur] = v
					}
					if len(w[1]) == 2 {
						l = w[1] + w[2] + ":"
					} else {
						l = w[1] + w[2] + ": \"" + v + "\""
					}
				}
				lines = append(lines, l)
			}
			p := put(strings.Join(lines, "\n"))
			defer os.Remove(p)
			cfg, err := config.New(p)
			if err != nil {
				c.Fail("shipped", "New fails: %v", err)
			}
			repository := storage.NewRepository()
			if err := repository.LoadStorages(cfg.Store); err != nil {
				c.Fail("shipped", "LoadStorages fails: %v", err)
			}
			defer closeAll(repository)
			if err := repository.Save(rec("a")); err != nil {
				c.Fail("shipped", "Save fails: %v", err)
			}
			for k, s := range servers {
				got := s.Stored()
				if len(got) != 1 || got[0].Body != "a" || !strings.HasPrefix(got[0].Dest, dest[k]) || dest[k] == "" {
					c.Fail("shipped", "%s received %+v", k, got)
				}
			}
			c.Step(len(names))
			c.Trace()
			c.State(x.HS("shipped", fmt.Sprint(names)))
			c.Count("shipped sections")
		})
	}
}

type rec string

func (r rec) ToBytes() ([]byte, error) { return []byte(r), nil }

// closeAll closes the connectors of a repository, as far as they are found in it.
func closeAll(repository *storage.Repository) {
	v := reflect.ValueOf(repository).Elem()
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() != reflect.Slice {
			continue
		}
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		for j := 0; j < f.Len(); j++ {
			if k, ok := f.Index(j).Interface().(interface{ Close() error }); ok {
				func() {
					defer func() { recover() }()
					k.Close()
				}()
			}
		}
	}
}

// ---- selection of the storages

// states of a section
const (
	absent   = iota
	valid    // a server of that kind answers
	empty    // the section has no settings
	unusable // the settings cannot work
	nStates
)

var unknownNames = []string{"mystore", "Redis", "log", ""}

func load(r *x.R) {
	// every state of every kind, in sorted and reversed order
	n := 1
	for range stores.Kinds {
		n *= nStates
	}
	for v := 0; v < n; v++ {
		var st []int
		for i, k := 0, v; i < len(stores.Kinds); i, k = i+1, k/nStates {
			st = append(st, k%nStates)
		}
		cnt := 0
		for _, s := range st {
			if s != absent {
				cnt++
			}
		}
		for u := 0; u < 2; u++ {
			var orders [][]int
			switch {
			case cnt+u <= 3 || r.Thorough && cnt+u <= 5:
				orders = perms(cnt + u)
			default:
				for k := 0; k < cnt+u; k++ {
					var o []int
					for i := 0; i < cnt+u; i++ {
						o = append(o, (i+k)%(cnt+u))
					}
					if k == 0 || k == (cnt+u)/2 || r.Thorough {
						orders = append(orders, o)
						o = slices.Clone(o)
						slices.Reverse(o)
						orders = append(orders, o)
					}
				}
			}
			r.Case(x.HS("load", fmt.Sprint(st, u)), func() string {
				s := fmt.Sprintf("sections (%v): %v", stores.Kinds, st)
				if u == 1 {
					s += " and one of an unknown kind"
				}
				return s
			}, func(c *x.C) {
				for i, o := range orders {
					c.Eval(x.HS("load", fmt.Sprint(st, u, o)))
					unknown := ""
					if u == 1 {
						unknown = unknownNames[(v+i)%len(unknownNames)]
					}
					if p := loadOne(c, st, u == 1, unknown, o); p != "" {
						c.Fail("load", "order %v: %s", o, p)
					}
				}
				c.Count(fmt.Sprintf("%d sections", cnt+u))
			})
		}
	}
	for _, m := range []map[string]map[string]string{nil, {}} {
		r.Case(x.HS("load", "none", fmt.Sprint(m == nil)), func() string { return fmt.Sprintf("no sections: %#v", m) }, func(c *x.C) {
			repository := storage.NewRepository()
			if err := repository.LoadStorages(m); err == nil {
				c.Fail("load", "LoadStorages(%#v) succeeds", m)
			}
			c.Step(1)
			c.Trace()
		})
	}
}

// breakIt makes settings that cannot work.
func breakIt(kind string, s *stores.Server, cfg map[string]string) {
	switch kind {
	case "redis":
		cfg["db"] = "first"
	case "nsq":
		delete(cfg, "topic")
	case "nats":
		s.Down()
	default:
		cfg["port"] = "1"
	}
}

func loadOne(c *x.C, st []int, hasUnknown bool, unknown string, order []int) string {
	cfg := map[string]map[string]string{}
	servers := map[string]*stores.Server{}
	defer func() {
		for _, s := range servers {
			s.Stop()
		}
	}()
	fails := hasUnknown
	for i, k := range stores.Kinds {
		switch st[i] {
		case absent:
			continue
		case empty:
			cfg[k] = nil
			if i%2 == 0 {
				cfg[k] = map[string]string{}
			}
			fails = true
		default:
			s := stores.NewServer(k)
			set := stores.Usual[k]
			s.User, s.Pass = set.User, set.Pass
			servers[k] = s
			cfg[k] = stores.Config(s, set)
			if st[i] == unusable {
				breakIt(k, s, cfg[k])
				fails = true
			}
		}
	}
	if hasUnknown {
		cfg[unknown] = map[string]string{"host": "127.0.0.1"}
	}
	vmap.SetOrder(order)
	defer vmap.SetOrder(nil)
	repository := storage.NewRepository()
	defer closeAll(repository)
	err := repository.LoadStorages(cfg)
	if (err != nil) != (fails || len(cfg) == 0) {
		return fmt.Sprintf("LoadStorages returns %v", err)
	}
	if vmap.Used() > 0 {
		c.Count("iterations in a chosen order")
	}
	// the stores that were loaded receive what is saved, once each
	for i := 0; i < 2; i++ {
		if err := repository.Save(rec(fmt.Sprint("rec", i))); err != nil {
			return fmt.Sprintf("Save fails: %v", err)
		}
	}
	for i, k := range stores.Kinds {
		s := servers[k]
		if s == nil {
			continue
		}
		got := s.Stored()
		if st[i] == valid {
			set := stores.Usual[k]
			if len(got) != 2 || got[0] != stores.Expected(set, "rec0") || got[1] != stores.Expected(set, "rec1") {
				return fmt.Sprintf("storage %s received %+v", k, got)
			}
		} else if len(got) != 0 {
			return fmt.Sprintf("the unusable storage %s received %+v", k, got)
		}
	}
	c.State(x.HS("load", fmt.Sprint(st, hasUnknown)))
	c.Step(len(cfg) + 2)
	c.Trace()
	return ""
}

// ---- the program

var bin = os.Getenv("VMC_BIN") + "/receiver"

var addrNo atomic.Int64

// freeAddr is an address no other process uses.
func freeAddr() (host, port string) {
	n := addrNo.Add(1)
	pid := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d", 128+pid>>7&0x7E, pid<<1&0xFE|int(n>>15&1), 1+2*(n%120)), strconv.Itoa(10500 + int(n>>3)%9000)
}

// ownPort is a port that few others use at any address of this machine.
func ownPort() string {
	return strconv.Itoa(19600 + int(uint(os.Getpid())*7+uint(addrNo.Add(1)))%12000)
}

// busy says that something else on this machine has taken the address of a receiver, which says nothing about the
// receiver.
const busy = "the address is taken"

// tryAddrs repeats a run whose address was taken at another one.
func tryAddrs(run func() string) string {
	p := ""
	for i := 0; i < 10; i++ {
		if p = run(); p != busy {
			break
		}
	}
	return p
}

func (p *proc) judge(problem *string) {
	if *problem != "" && strings.Contains(p.out.String(), "address already in use") {
		*problem = busy
	}
	p.stop()
}

// proc is a running receiver.
type proc struct {
	cmd  *exec.Cmd
	out  lockedBuffer
	done chan struct{}
}

type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *lockedBuffer) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

func start(args ...string) *proc {
	p := &proc{cmd: exec.Command(bin, args...), done: make(chan struct{})}
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out
	p.cmd.Dir = scratch()
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	go func() { p.cmd.Wait(); close(p.done) }()
	return p
}

func (p *proc) stop() {
	p.cmd.Process.Kill()
	<-p.done
}

func (p *proc) ended() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// dial waits until the program listens.
func (p *proc) dial(addr string) (net.Conn, error) {
	end := time.Now().Add(15 * time.Second)
	for {
		k, err := net.DialTimeout("tcp", addr, time.Second)
		if err == nil || p.ended() || time.Now().After(end) {
			return k, err
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// exchange sends a packet and returns the answer.
func exchange(k net.Conn, b []byte) (ref.Reply, error) {
	k.SetDeadline(time.Now().Add(10 * time.Second))
	if _, err := k.Write(b); err != nil {
		return ref.Reply{}, err
	}
	var got []byte
	buf := make([]byte, 4096)
	for {
		n, err := k.Read(buf)
		got = append(got, buf[:n]...)
		rs, rest, perr := ref.ParseReplies(got)
		if perr != nil {
			return ref.Reply{}, perr
		}
		if len(rs) > 0 && len(rest) == 0 {
			return rs[0], nil
		}
		if err != nil {
			return ref.Reply{}, err
		}
	}
}

func telemetry(pid uint16) []byte {
	pos := ref.Pos{TM: 300000000, Lat: 0x9ECD7B51, Lon: 0x35A1C0DE, Flags: 0x1B, Spd: 605, Dir: 77}
	return ref.Appdata(pid, ref.Rec{RN: pid + 1, OID: ref.U32(77), SST: 2, RST: 2, Subs: []ref.Sub{pos.Sub()}}).Bytes()
}

// logged are the export records in the program's output, by packet number.
func logged(out string) map[int]int {
	m := map[int]int{}
	for _, q := range regexp.MustCompile(`"(?:[^"\\]|\\.)*"`).FindAllString(out, -1) {
		s, err := strconv.Unquote(q)
		if err != nil {
			continue
		}
		var d struct {
			Client *int `json:"client_id"`
			Packet *int `json:"packet_id"`
		}
		if json.Unmarshal([]byte(s), &d) == nil && d.Packet != nil && d.Client != nil && *d.Client == 77 {
			m[*d.Packet]++
		}
	}
	return m
}

type scene struct {
	name  string
	secs  map[string]int // state by kind
	other string         // an unknown section
	none  int            // 0: absent, 1: null, 2: {}
}

func program(r *x.R) {
	if _, err := os.Stat(bin); err != nil {
		panic(err)
	}
	scenes := []scene{{name: "no storage"}, {name: "empty storage", none: 1}, {name: "storage without sections", none: 2}, {name: "unknown kind", other: "mystore"},
		{name: "redis", secs: map[string]int{"redis": valid}}, {name: "redis without settings", secs: map[string]int{"redis": empty}},
		{name: "redis and an unknown kind", secs: map[string]int{"redis": valid}, other: "mystore"}, {name: "postgresql unreachable", secs: map[string]int{"postgresql": unusable}},
		{name: "nats, nsq", secs: map[string]int{"nats": valid, "nsq": valid}}, {name: "rabbitmq, tarantool unusable, nsq empty", secs: map[string]int{"rabbitmq": valid, "tarantool_queue": unusable, "nsq": empty}},
		{name: "all", secs: map[string]int{"redis": valid, "nats": valid, "nsq": valid, "postgresql": valid, "rabbitmq": valid, "tarantool_queue": valid}}}
	lv := []value{none, str("DEBUG"), str("INFO"), str("WARN"), str("ERROR"), str("trace")}
	for _, s := range scenes {
		for _, l := range lv {
			r.Case(x.HS("program", s.name, fmt.Sprint(l)), func() string { return fmt.Sprintf("receiver with storage %s, level %+v", s.name, l) }, func(c *x.C) {
				if p := tryAddrs(func() string { return serve(s, l) }); p != "" {
					c.Fail("program", "%s", p)
				}
				c.State(x.HS("program", s.name, l.s))
				c.Step(3)
				c.Trace()
				c.Count("program, storages")
			})
		}
	}
	for _, h := range []string{"own", "0.0.0.0", "", "localhost"} {
		r.Case(x.HS("bind", h), func() string { return fmt.Sprintf("receiver listening at host %q", h) }, func(c *x.C) {
			if p := tryAddrs(func() string { return bind(h) }); p != "" {
				c.Fail("program", "%s", p)
			}
			c.Step(1)
			c.Trace()
			c.Count("program, address")
		})
	}
	limits := []string{"1", "2"}
	if r.Thorough {
		limits = []string{"1", "2", "3", "5", "8"}
	}
	for _, tl := range limits {
		for k := 0; k < 3; k++ { // silent from the start, after part of a packet, after a packet
			r.Case(x.HS("idle", tl, fmt.Sprint(k)), func() string { return fmt.Sprintf("receiver with conn_ttl %s, peer silent from stage %d", tl, k) }, func(c *x.C) {
				if p := tryAddrs(func() string { return idle(tl, k) }); p != "" {
					c.Fail("program", "%s", p)
				}
				c.Step(1)
				c.Trace()
				c.Count("program, idle limit")
			})
		}
	}
	b := bad()
	keys := x.Keys(b)
	for i, k := range keys {
		if i%9 != 0 && !r.Thorough && !strings.HasPrefix(k, "type") {
			continue
		}
		r.Case(x.HS("refuse", k), func() string { return "receiver with malformed file: " + k }, func(c *x.C) {
			p := put(b[k])
			defer os.Remove(p)
			if m := refuse("-c", p); m != "" {
				c.Fail("program", "%s\n%s", m, b[k])
			}
			c.Step(1)
			c.Trace()
			c.Count("program, malformed")
		})
	}
	for _, a := range [][]string{{}, {"-c", ""}, {"-c", "/nonexistent/a.yaml"}, {"-c", "."}, {"-c"}, {"-x"}} {
		r.Case(x.HS("refuse", fmt.Sprint(a)), func() string { return fmt.Sprintf("receiver with arguments %q", a) }, func(c *x.C) {
			if m := refuse(a...); m != "" {
				c.Fail("program", "%s", m)
			}
			c.Step(1)
			c.Trace()
			c.Count("program, arguments")
		})
	}
}

// refuse checks that the program ends with a status other than 0 and does not crash.
func refuse(args ...string) string {
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = scratch()
	out, _ := cmd.CombinedOutput()
	if ctx.Err() != nil {
		return "the receiver keeps running: " + clip(string(out))
	}
	if cmd.ProcessState.ExitCode() == 0 || bytes.Contains(out, []byte("panic:")) || len(out) == 0 {
		return fmt.Sprintf("status %d, output %s", cmd.ProcessState.ExitCode(), clip(string(out)))
	}
	return ""
}

func clip(s string) string {
	if len(s) > 2500 {
		s = s[:2500] + "..."
	}
	return s
}

// serve runs the receiver with the storages and judges what becomes of three packets.
func serve(s scene, l value) (problem string) {
	host, port := freeAddr()
	f := file{host: str(host), port: str(port), ttl: value{s: "60", number: true}, level: l, storage: s.none}
	servers := map[string]*stores.Server{}
	defer func() {
		for _, v := range servers {
			v.Stop()
		}
	}()
	fails := s.other != "" || len(s.secs) == 0
	for _, k := range x.Keys(s.secs) {
		f.storage = 2
		sec := section{name: k}
		if s.secs[k] == empty {
			sec.null = true
			fails = true
		} else {
			v := stores.NewServer(k)
			set := stores.Usual[k]
			v.User, v.Pass = set.User, set.Pass
			servers[k] = v
			cfg := stores.Config(v, set)
			if s.secs[k] == unusable {
				breakIt(k, v, cfg)
				fails = true
			}
			for _, kk := range x.Keys(cfg) {
				sec.kv = append(sec.kv, [2]string{kk, cfg[kk]})
			}
		}
		f.sections = append(f.sections, sec)
	}
	if s.other != "" {
		f.storage = 2
		f.sections = append(f.sections, section{name: s.other, kv: [][2]string{{"a", "b"}}})
	}
	p := put(f.render(style{quote: "double", indent: 2}))
	defer os.Remove(p)
	rc := start("-c", p)
	defer rc.judge(&problem)
	k, err := rc.dial(net.JoinHostPort(host, port))
	if err != nil {
		return fmt.Sprintf("the receiver does not listen: %v\n%s", err, clip(rc.out.String()))
	}
	defer k.Close()
	for pid := uint16(1); pid <= 3; pid++ {
		rep, err := exchange(k, telemetry(pid))
		if err != nil {
			return fmt.Sprintf("packet %d is not answered: %v\n%s", pid, err, clip(rc.out.String()))
		}
		if rep.PT != ref.PtResponse || rep.RPID != pid || rep.PR != 0 {
			return fmt.Sprintf("packet %d is answered with %+v\n%s", pid, rep, clip(rc.out.String()))
		}
	}
	// what is no packet raises a warning
	k2, err := net.Dial("tcp", net.JoinHostPort(host, port))
	if err == nil {
		k2.Write(bytes.Repeat([]byte{'G'}, 20))
		k2.SetReadDeadline(time.Now().Add(5 * time.Second))
		io.Copy(io.Discard, k2)
		k2.Close()
	}
	broken := telemetry(9)
	broken[len(broken)-1] ^= 1
	if rep, err := exchange(k, broken); err != nil || rep.PR == 0 {
		return fmt.Sprintf("a broken packet is answered with %+v %v", rep, err)
	}
	for kind, v := range servers {
		got := v.Stored()
		n := 0
		for i, g := range got {
			var d struct {
				Packet int `json:"packet_id"`
			}
			if json.Unmarshal([]byte(g.Body), &d) == nil && d.Packet == i+1 && g == stores.Expected(stores.Usual[kind], g.Body) {
				n++
			}
		}
		if want := map[bool]int{true: 3}[s.secs[kind] == valid]; n != want || len(got) != want {
			return fmt.Sprintf("storage %s received %+v, want %d records", kind, got, want)
		}
	}
	rc.stop()
	out := rc.out.String()
	lvl := l.s
	if !slices.Contains([]string{"DEBUG", "WARN", "ERROR"}, lvl) {
		lvl = "INFO"
	}
	show := lvl == "DEBUG" || lvl == "INFO"
	if fails {
		if !strings.Contains(out, "level=error") && !strings.Contains(out, "level=fatal") {
			return "the failed storages are not reported:\n" + clip(out)
		}
		if m := logged(out); show && (m[1] != 1 || m[2] != 1 || m[3] != 1 || len(m) != 3) {
			return fmt.Sprintf("the records were not logged once each: %v\n%s", m, clip(out))
		}
	}
	for i, name := range []string{"debug", "info", "warning"} {
		above := map[string]int{"DEBUG": 0, "INFO": 1, "WARN": 2, "ERROR": 3}[lvl] <= i
		if has := strings.Contains(out, "level="+name); has && !above {
			return fmt.Sprintf("messages of level %s at level %s:\n%s", name, lvl, clip(out))
		} else if above && !has {
			return fmt.Sprintf("no message of level %s at level %s:\n%s", name, lvl, clip(out))
		}
	}
	return ""
}

// bind checks where the receiver listens.
func bind(h string) (problem string) {
	host, _ := freeAddr()
	port := ownPort()
	at, beside := []string{host}, []string{"127.1.1.1", "localhost"}
	switch h {
	case "own":
		h = host
	case "localhost":
		at, beside = []string{"localhost"}, []string{host}
	default:
		at, beside = []string{host, "127.1.1.1", "localhost"}, nil
	}
	f := file{host: str(h), port: str(port), ttl: value{s: "60", number: true}, level: none}
	p := put(f.render(style{quote: "plain", indent: 2}))
	defer os.Remove(p)
	rc := start("-c", p)
	defer rc.judge(&problem)
	for _, a := range at {
		k, err := rc.dial(net.JoinHostPort(a, port))
		if err != nil {
			return fmt.Sprintf("host %q: not listening at %s: %v\n%s", h, a, err, clip(rc.out.String()))
		}
		k.Close()
	}
	for _, a := range beside {
		if k, err := net.DialTimeout("tcp", net.JoinHostPort(a, port), time.Second); err == nil {
			k.Close()
			return fmt.Sprintf("host %q: listening at %s, too", h, a)
		}
	}
	return ""
}

// idle checks when a silent connection is closed.
func idle(tl string, stage int) (problem string) {
	host, port := freeAddr()
	f := file{host: str(host), port: str(port), ttl: value{s: tl, number: true}, level: none}
	p := put(f.render(style{quote: "plain", indent: 2}))
	defer os.Remove(p)
	rc := start("-c", p)
	defer rc.judge(&problem)
	k, err := rc.dial(net.JoinHostPort(host, port))
	if err != nil {
		return fmt.Sprintf("not listening: %v", err)
	}
	defer k.Close()
	t0 := time.Now()
	switch stage {
	case 1:
		k.Write(telemetry(1)[:7])
	case 2:
		if rep, err := exchange(k, telemetry(1)); err != nil || rep.PR != 0 {
			return fmt.Sprintf("answer %+v %v", rep, err)
		}
	}
	n, _ := strconv.Atoi(tl)
	k.SetReadDeadline(t0.Add(time.Duration(n)*time.Second + 5*time.Second))
	_, err = k.Read(make([]byte, 1))
	took := time.Since(t0)
	if ne, ok := err.(net.Error); err == nil || ok && ne.Timeout() {
		return fmt.Sprintf("the connection is not closed: %v after %v", err, took)
	}
	if took < time.Duration(n)*time.Second-50*time.Millisecond {
		return fmt.Sprintf("the connection is closed after %v: %v", took, err)
	}
	return ""
}
