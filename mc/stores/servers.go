// Package stores checks the store connectors against scripted servers that speak the wire protocols of
// redis, nats, nsq, postgresql, rabbitmq and tarantool on the loopback network.
package stores

import (
	"bufio"
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Mode is what a server does with a record it receives.
type Mode int

const (
	Accept   Mode = iota // stores and confirms it
	Reject               // refuses it
	Drop                 // closes the connection without an answer
	DropOnce             // Drop for the first record, Accept afterwards
	Lose                 // store the record and close the connection instead of answering
	LoseOnce             // Lose for the first record, Accept afterwards
	Mute                 // store nothing, answer nothing, close the connection after MuteFor
	Late                 // Accept, after some time
	LateNo               // Reject, after some time
)

// Got is one record as the server received it.
type Got struct {
	Dest, User, Pass, DB string
	Body                 string
}

// Refusal is one way to refuse a record.
type Refusal struct {
	Code  string
	Text  string
	Close bool // the connection (for rabbitmq, the channel) is closed with it
}

func (f Refusal) String() string {
	return strings.TrimSpace(fmt.Sprintf("%s %s %v", f.Code, f.Text, f.Close))
}

// Refusals are the ways the servers refuse records.
var Refusals = map[string][]Refusal{
	"redis": refusals(false, "ERR not now", "ERR", "NOPERM this user has no permissions to access the channel", "NOAUTH Authentication required.", "OOM command not allowed when used memory > 'maxmemory'.", "READONLY You can't write against a read only replica.", "LOADING Redis is loading the dataset in memory", "MASTERDOWN Link with MASTER is down", "BUSY Redis is busy running a script.", "CLUSTERDOWN The cluster is down", "TRYAGAIN Multiple keys request during rehashing of slot", "MISCONF Redis is configured to save RDB snapshots", "EXECABORT Transaction discarded", "WRONGTYPE Operation against a key", "NOREPLICAS Not enough good replicas to write.", "ERR max number of clients reached", "MOVED 3999 127.0.0.1:1", "ASK 3999 127.0.0.1:1", "UNKILLABLE x", "ERR timeout", "ERR EOF", "ERR nil", "ERR connection reset", "ERR already exists", "nil", "redis: nil", "OK", "BUSYKEY exists", "ERR i/o timeout", "ERR context deadline exceeded"),
	"nats":  append(refusals(false, "Permissions Violation for Publish to \"receiver\"", "Permissions Violation", "permissions violation for publish to \"receiver\""), refusals(true, "Maximum Payload Violation", "Unknown Protocol Operation", "Invalid Subject", "Parser Error", "Slow Consumer", "Maximum Connections Exceeded", "Stale Connection", "User Authentication Expired", "Authorization Violation", "Authentication Timeout", "Secure Connection - TLS Required")...),
	"nsq":   append(refusals(false, "E_PUB_FAILED PUB failed", "E_PUB_FAILED", "E_BAD_TOPIC PUB topic name is not valid", "E_BAD_MESSAGE PUB invalid message body size", "E_UNAUTHORIZED AUTH failed", "E_AUTH_FAILED", "E_INVALID cannot PUB in current state", "E_PUB_FAILED PUB failed exiting", "OK not", "ok", "E_", "", "E_TOUCH_FAILED timeout", "E_PUB_FAILED PUB failed duplicate", "E_PUB_FAILED already published", "E_PUB_FAILED timeout", "error", "EOF"), refusals(true, "E_BAD_TOPIC PUB topic name is not valid", "E_BAD_MESSAGE PUB message too big", "E_INVALID")...),
	"postgresql": append(texts(false, map[string]string{"22P02": "invalid input syntax for type json", "23505": "duplicate key value violates unique constraint \"points_pkey\"", "23502": "null value in column \"id\" violates not-null constraint", "23514": "new row for relation \"points\" violates check constraint", "42P01": "relation \"points\" does not exist", "42703": "column \"point\" of relation \"points\" does not exist", "42501": "permission denied for table points", "53100": "could not extend file: No space left on device", "53200": "out of memory", "54000": "index row size exceeds maximum", "57014": "canceling statement due to statement timeout", "40001": "could not serialize access due to concurrent update", "40P01": "deadlock detected", "25006": "cannot execute INSERT in a read-only transaction", "55P03": "canceling statement due to lock timeout", "XX000": "unexpected EOF on client connection", "22021": "invalid byte sequence for encoding", "08006": "connection reset by peer", "0A000": "cached plan must not change result type", "25P02": "current transaction is aborted", "00000": "successful completion", "01000": "warning", "02000": "no data", "P0001": "already exists", "P0002": "OK"}),
		texts(true, map[string]string{"57P01": "terminating connection due to administrator command", "57P02": "terminating connection because of crash of another server process", "57P03": "the database system is shutting down", "53300": "sorry, too many clients already", "XX001": "data corrupted", "08P01": "protocol violation"})...),
	"rabbitmq":        append(append(refusals(false, "nack"), coded(true, "404", "403", "405", "406", "311", "313")...), Refusal{"320", "connection", true}, Refusal{"501", "connection", true}, Refusal{"541", "connection", true}),
	"tarantool_queue": append(texts(false, map[string]string{"0": "Unknown error", "1": "Illegal parameters", "2": "Failed to allocate 128 bytes", "3": "Duplicate key exists in unique index 'task_id' in space 'points'", "7": "Can't modify data because this instance is in read-only mode.", "10": "Space 'points' already exists", "20": "Unsupported feature", "32": "no such tube", "33": "Procedure 'queue.tube.points:put' is not defined", "36": "Space 'points' does not exist", "42": "Execute access to function is denied", "47": "Incorrect password", "77": "Connection is not established", "78": "Timeout exceeded", "86": "Session is closed", "128": "deadlock", "10000": "EOF"}), coded(false, "4", "32")...),
}

// texts are coded refusals with the text a real server gives.
func texts(close bool, m map[string]string) (out []Refusal) {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, Refusal{Code: k, Text: m[k], Close: close})
	}
	return
}

func refusals(close bool, texts ...string) (out []Refusal) {
	for _, t := range texts {
		out = append(out, Refusal{Text: t, Close: close})
	}
	return
}

func coded(close bool, codes ...string) (out []Refusal) {
	for _, t := range codes {
		out = append(out, Refusal{Code: t, Text: "refused", Close: close})
	}
	return
}

func (s *Server) refusal(usual Refusal) Refusal {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.refuse == (Refusal{}) {
		return usual
	}
	return s.refuse
}

// Server is one scripted server.
type Server struct {
	Kind string
	Host string
	Port string
	User string // credentials it wants; an empty User wants none
	Pass string
	Salt byte // postgresql: 'm' md5, 'c' clear text

	mu     sync.Mutex
	ln     net.Listener
	conns  map[net.Conn]bool
	mode   Mode
	refuse Refusal                  // how Reject answers; the zero value is the usual way
	by     map[string]Mode          // per record content
	wait   map[string]time.Duration // answer a record later
	late   time.Duration            // how late Late and LateNo are
	stored []Got
	all    int
	dials  int
	slam   bool // close every new connection at once
	out    int  // the connection breaks after so many bytes written by the server; -1: never
	in     int  // the connection breaks after so many bytes read by the server; -1: never
	broken bool // it did
	voices map[*wire]func(what string)
	room   int    // so many connections at a time; 0: any number
	deny   string // how connections are refused
	ahead  string // a notice sent before each answer to a record
	owed   int    // notices that want an answer and have none
	bad    string // protocol error, for diagnosis
	wg     sync.WaitGroup
}

var hostCounter atomic.Int64

// NewServer starts a server of the kind on a loopback address of its own.
func NewServer(kind string) *Server {
	n := hostCounter.Add(1)
	pid := os.Getpid()
	s := &Server{Kind: kind, conns: map[net.Conn]bool{}, by: map[string]Mode{}, wait: map[string]time.Duration{}, out: -1, in: -1, voices: map[*wire]func(string){}}
	s.Host = fmt.Sprintf("127.%d.%d.%d", 1+pid>>7&0x7F, pid<<1&0xFE|int(n>>15&1), 1+n%250)
	s.Port = strconv.Itoa(21000 + int(n>>3)%9000)
	s.Up()
	return s
}

// Addr is host:port.
func (s *Server) Addr() string { return s.Host + ":" + s.Port }

// Up listens.
func (s *Server) Up() {
	var ln net.Listener
	var err error
	for i := 0; i < 100; i++ {
		if ln, err = net.Listen("tcp", s.Addr()); err == nil {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	if err != nil {
		panic(err)
	}
	s.mu.Lock()
	s.ln = ln
	s.mu.Unlock()
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		for {
			k, err := ln.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			if s.ln != ln {
				s.mu.Unlock()
				k.Close()
				continue
			}
			s.dials++
			if s.slam || s.room > 0 && len(s.conns) >= s.room {
				s.mu.Unlock()
				k.Close()
				continue
			}
			s.conns[k] = true
			s.mu.Unlock()
			s.wg.Add(1)
			go func() {
				defer s.wg.Done()
				var err error
				w := &wire{k, s}
				switch s.Kind {
				case "redis":
					err = s.redis(w)
				case "nats":
					err = s.nats(w)
				case "nsq":
					err = s.nsq(w)
				case "postgresql":
					err = s.postgres(w)
				case "rabbitmq":
					err = s.rabbit(w)
				case "tarantool_queue":
					err = s.tarantool(w)
				}
				k.Close()
				s.mu.Lock()
				delete(s.conns, k)
				delete(s.voices, w)
				var ne net.Error
				if err != nil && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) && !errors.Is(err, net.ErrClosed) && !errors.As(err, &ne) && s.bad == "" {
					s.bad = err.Error()
				}
				s.mu.Unlock()
			}()
		}
	}()
}

// wire is a connection that can break at a given byte.
type wire struct {
	net.Conn
	s *Server
}

func (w *wire) Write(b []byte) (int, error) {
	w.s.mu.Lock()
	n, stop := len(b), false
	if w.s.out >= 0 {
		if stop = n > w.s.out; stop {
			n = w.s.out
			w.s.out, w.s.broken = -1, true
		} else {
			w.s.out -= n
		}
	}
	w.s.mu.Unlock()
	if !stop {
		return w.Conn.Write(b)
	}
	if n > 0 {
		w.Conn.Write(b[:n])
	}
	w.Conn.Close()
	return n, net.ErrClosed
}

func (w *wire) Read(b []byte) (int, error) {
	w.s.mu.Lock()
	limit := w.s.in
	w.s.mu.Unlock()
	if limit > 0 && len(b) > limit {
		b = b[:limit]
	}
	n, err := 0, error(nil)
	if limit != 0 {
		n, err = w.Conn.Read(b)
	}
	w.s.mu.Lock()
	stop := false
	if w.s.in >= 0 {
		w.s.in = max(0, w.s.in-n)
		if stop = w.s.in == 0 && n == 0 && err == nil; stop {
			w.s.in, w.s.broken = -1, true
		}
	}
	w.s.mu.Unlock()
	if stop {
		w.Conn.Close()
		return 0, net.ErrClosed
	}
	return n, err
}

// Break lets the connection break after so many bytes in one direction; -1 is never.
func (s *Server) Break(out, in int) {
	s.mu.Lock()
	s.out, s.in, s.broken = out, in, false
	s.mu.Unlock()
}

// Broken tells whether the connection broke as Break said.
func (s *Server) Broken() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.broken
}

// Cut closes every connection.
func (s *Server) Cut() {
	s.mu.Lock()
	for k := range s.conns {
		k.Close()
	}
	s.mu.Unlock()
}

// Notices are what a server may send at any time and that means nothing for the records; those that want an
// answer get it. Dismissals end the connection, or what it serves for, on the initiative of the server.
var (
	Notices = map[string][]string{
		"nats":       {"PING", "INFO", "lame duck", "+OK"},
		"nsq":        {"heartbeat"},
		"postgresql": {"notice", "parameter", "notification", "warning"},
		"rabbitmq":   {"heartbeat", "blocked"},
	}
	Dismissals = map[string][]string{
		"nats":       {"Stale Connection", "Maximum Connections Exceeded", "User Authentication Expired", "Server Shutdown", "Slow Consumer"},
		"postgresql": {"57P01", "57P02", "57P05", "25P03"},
		"rabbitmq":   {"channel 406", "channel 541", "connection 320", "connection 541"},
	}
	// Denials are the steps of setting a connection up at which a server may refuse it, and how. Unless the server
	// closes what it refuses, it leaves that to the other end.
	Denials = map[string][]string{
		"redis":           {"auth"},
		"nats":            {"Authorization Violation", "Maximum Connections Exceeded"},
		"nsq":             {"E_INVALID"},
		"postgresql":      {"57P03", "53300", "welcome 53300"},
		"rabbitmq":        {"start", "tune 530", "channel 504", "channel only 504", "confirm 540", "confirm only 540"},
		"tarantool_queue": {"47", "42"},
	}
)

// Deny refuses every connection, the ones there are and new ones, until it is told "".
func (s *Server) Deny(how string) {
	s.mu.Lock()
	s.deny = how
	s.mu.Unlock()
	if how != "" {
		s.Cut()
	}
}

func (s *Server) denied() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.deny
}

// voice sets how the server says something on the connection on its own.
func (s *Server) voice(k net.Conn, say func(what string)) {
	s.mu.Lock()
	s.voices[k.(*wire)] = say
	s.mu.Unlock()
}

// Say sends a notice or a dismissal on every connection and returns the number of these.
func (s *Server) Say(what string) int {
	s.mu.Lock()
	var all []func(string)
	for _, f := range s.voices {
		all = append(all, f)
	}
	s.mu.Unlock()
	for _, f := range all {
		f(what)
	}
	return len(all)
}

// Ahead makes the server send a notice before each answer to a record.
func (s *Server) Ahead(what string) {
	s.mu.Lock()
	s.ahead = what
	s.mu.Unlock()
}

func (s *Server) owe(n int) {
	s.mu.Lock()
	s.owed += n
	s.mu.Unlock()
}

// Owed is the number of notices that want an answer and have none.
func (s *Server) Owed() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.owed
}

// Slam closes every connection, and from now on (or no more) every new one at once.
func (s *Server) Slam(on bool) {
	s.mu.Lock()
	s.slam = on
	s.mu.Unlock()
	if on {
		s.Cut()
	}
}

// Room limits the number of connections at a time.
func (s *Server) Room(n int) {
	s.mu.Lock()
	s.room = n
	s.mu.Unlock()
}

// Down stops listening and closes every connection.
func (s *Server) Down() {
	s.mu.Lock()
	if s.ln != nil {
		s.ln.Close()
		s.ln = nil
	}
	s.mu.Unlock()
	s.Cut()
}

// Stop ends the server.
func (s *Server) Stop() {
	s.Down()
	s.wg.Wait()
}

// SetMode sets what happens to the records that follow.
func (s *Server) SetMode(m Mode) {
	s.mu.Lock()
	s.mode = m
	s.mu.Unlock()
}

// Stored returns what was stored so far.
func (s *Server) Stored() []Got {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Got(nil), s.stored...)
}

// Forget drops what was stored so far.
func (s *Server) Forget() {
	s.mu.Lock()
	s.stored = nil
	s.mu.Unlock()
}

// Counts returns the numbers of records received and of connections.
func (s *Server) Counts() (records, dials int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.all, s.dials
}

// Open is the number of connections that are open.
func (s *Server) Open() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.conns)
}

// Bad is the first protocol error seen.
func (s *Server) Bad() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.bad
}

func (s *Server) take(g Got) Mode {
	s.mu.Lock()
	s.all++
	m, ok := s.by[g.Body]
	if !ok {
		m = s.mode
	}
	if m == DropOnce {
		s.mode = Accept
		m = Drop
	}
	if m == LoseOnce {
		s.mode = Accept
		m = Lose
	}
	if m == Lose {
		s.stored = append(s.stored, g)
		m = Drop
	}
	if m == Accept || m == Late {
		s.stored = append(s.stored, g)
	}
	w := s.wait[g.Body]
	ahead := s.ahead
	switch m {
	case Late:
		w, m = s.late, Accept
	case LateNo:
		w, m = s.late, Reject
	}
	s.mu.Unlock()
	if ahead != "" {
		s.Say(ahead)
	}
	if w > 0 {
		time.Sleep(w)
	}
	if m == Mute {
		time.Sleep(MuteFor)
		m = Drop
	}
	return m
}

// MuteFor is how long a mute server keeps the connection.
var MuteFor = 4500 * time.Millisecond

var errDropped = net.ErrClosed

// ---- redis

func (s *Server) redis(k net.Conn) error {
	r := bufio.NewReader(k)
	line := func() (string, error) {
		l, err := r.ReadString('\n')
		return strings.TrimSuffix(l, "\r\n"), err
	}
	g := Got{DB: "0"}
	authed := s.Pass == ""
	for {
		l, err := line()
		if err != nil {
			return err
		}
		n, err := strconv.Atoi(strings.TrimPrefix(l, "*"))
		if err != nil || l[0] != '*' {
			return fmt.Errorf("redis: %q", l)
		}
		var a []string
		for i := 0; i < n; i++ {
			l, err := line()
			if err != nil {
				return err
			}
			z, err := strconv.Atoi(strings.TrimPrefix(l, "$"))
			if err != nil || l[0] != '$' {
				return fmt.Errorf("redis: %q", l)
			}
			b := make([]byte, z+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return err
			}
			a = append(a, string(b[:z]))
		}
		ans := "+OK\r\n"
		switch cmd := strings.ToLower(a[0]); {
		case cmd == "auth":
			g.Pass = a[len(a)-1]
			if authed = g.Pass == s.Pass && len(a) == 2 && s.denied() == ""; !authed {
				ans = "-WRONGPASS invalid username-password pair\r\n"
			}
		case !authed:
			ans = "-NOAUTH Authentication required.\r\n"
		case cmd == "select":
			g.DB = a[1]
		case cmd == "publish" && len(a) == 3:
			g.Dest, g.Body = a[1], a[2]
			switch s.take(g) {
			case Accept:
				ans = ":1\r\n"
			case Reject:
				ans = "-" + s.refusal(Refusal{Text: "ERR not now"}).Text + "\r\n"
			default:
				return errDropped
			}
		case cmd == "ping":
			ans = "+PONG\r\n"
		default:
			ans = "-ERR unknown command\r\n"
		}
		if _, err := io.WriteString(k, ans); err != nil {
			return err
		}
	}
}

// ---- nats

func (s *Server) nats(k net.Conn) error {
	fmt.Fprintf(k, "INFO {\"server_id\":\"T\",\"version\":\"2.7.0\",\"proto\":1,\"host\":%q,\"port\":%s,\"headers\":true,\"auth_required\":%v,\"max_payload\":1048576}\r\n", s.Host, s.Port, s.User != "")
	r := bufio.NewReader(k)
	var g Got
	for {
		l, err := r.ReadString('\n')
		if err != nil {
			return err
		}
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		switch strings.ToUpper(f[0]) {
		case "CONNECT":
			var c struct {
				User, Pass string
			}
			if err := json.Unmarshal([]byte(strings.TrimSpace(l)[len("CONNECT"):]), &c); err != nil {
				return err
			}
			g.User, g.Pass = c.User, c.Pass
			s.voice(k, func(what string) {
				switch what {
				case "PING":
					s.owe(1)
					io.WriteString(k, "PING\r\n")
				case "+OK":
					io.WriteString(k, "+OK\r\n")
				case "INFO", "lame duck":
					fmt.Fprintf(k, "INFO {\"server_id\":\"T\",\"version\":\"2.7.0\",\"proto\":1,\"host\":%q,\"port\":%s,\"headers\":true,\"auth_required\":%v,\"max_payload\":1048576,\"ldm\":%v}\r\n", s.Host, s.Port, s.User != "", what != "INFO")
				default:
					fmt.Fprintf(k, "-ERR '%s'\r\n", what)
					k.Close()
				}
			})
			if how := s.denied(); how != "" {
				fmt.Fprintf(k, "-ERR '%s'\r\n", how)
				return nil
			}
			if s.User != "" && (c.User != s.User || c.Pass != s.Pass) {
				io.WriteString(k, "-ERR 'Authorization Violation'\r\n")
				return nil
			}
		case "PING":
			if _, err := io.WriteString(k, "PONG\r\n"); err != nil {
				return err
			}
		case "PONG":
			if s.Owed() > 0 {
				s.owe(-1)
			}
		case "PUB":
			n, err := strconv.Atoi(f[len(f)-1])
			if err != nil {
				return fmt.Errorf("nats: %q", l)
			}
			b := make([]byte, n+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return err
			}
			g.Dest, g.Body = f[1], string(b[:n])
			switch s.take(g) {
			case Accept:
			case Reject:
				f := s.refusal(Refusal{Text: fmt.Sprintf("Permissions Violation for Publish to %q", f[1])})
				fmt.Fprintf(k, "-ERR '%s'\r\n", f.Text)
				if f.Close {
					return errDropped
				}
			default:
				return errDropped
			}
		default:
			return fmt.Errorf("nats: %q", l)
		}
	}
}

// ---- nsq

func (s *Server) nsq(k net.Conn) error {
	r := bufio.NewReader(k)
	magic := make([]byte, 4)
	if _, err := io.ReadFull(r, magic); err != nil {
		return err
	}
	if string(magic) != "  V2" {
		return fmt.Errorf("nsq: %q", magic)
	}
	frame := func(t uint32, d string) error {
		b := binary.BigEndian.AppendUint32(nil, uint32(4+len(d)))
		b = binary.BigEndian.AppendUint32(b, t)
		_, err := k.Write(append(b, d...))
		return err
	}
	sized := func() ([]byte, error) {
		var n uint32
		if err := binary.Read(r, binary.BigEndian, &n); err != nil {
			return nil, err
		}
		b := make([]byte, n)
		_, err := io.ReadFull(r, b)
		return b, err
	}
	for {
		l, err := r.ReadString('\n')
		if err != nil {
			return err
		}
		f := strings.Fields(l)
		switch {
		case len(f) == 1 && f[0] == "IDENTIFY":
			if _, err := sized(); err != nil {
				return err
			}
			if how := s.denied(); how != "" {
				frame(1, how)
				return nil
			}
			if err := frame(0, "OK"); err != nil {
				return err
			}
			s.voice(k, func(string) {
				s.owe(1)
				frame(0, "_heartbeat_")
			})
		case len(f) == 2 && f[0] == "PUB":
			b, err := sized()
			if err != nil {
				return err
			}
			switch s.take(Got{Dest: f[1], Body: string(b)}) {
			case Accept:
				err = frame(0, "OK")
			case Reject:
				f := s.refusal(Refusal{Text: "E_PUB_FAILED PUB failed"})
				if err = frame(1, f.Text); f.Close && err == nil {
					err = errDropped
				}
			default:
				err = errDropped
			}
			if err != nil {
				return err
			}
		case len(f) == 1 && f[0] == "NOP":
			if s.Owed() > 0 {
				s.owe(-1)
			}
		case len(f) == 1 && f[0] == "CLS":
			if err := frame(0, "CLOSE_WAIT"); err != nil {
				return err
			}
		default:
			return fmt.Errorf("nsq: %q", l)
		}
	}
}

// ---- postgresql

var insertRe = regexp.MustCompile(`(?is)^\s*insert\s+into\s+(\S+)\s*\(\s*"?point"?\s*\)\s*values\s*\(\s*\$1\s*(?:::jsonb?)?\s*\)\s*;?\s*$`)

func (s *Server) postgres(k net.Conn) error {
	r := bufio.NewReader(k)
	msg := func(t byte, d ...[]byte) []byte {
		p := bytes.Join(d, nil)
		b := binary.BigEndian.AppendUint32([]byte{t}, uint32(4+len(p)))
		return append(b, p...)
	}
	u32 := func(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }
	ready := msg('Z', []byte("I"))
	fail := func(code, text string) []byte {
		return msg('E', []byte("SERROR\x00C"+code+"\x00M"+text+"\x00\x00"))
	}
	fatal := func(code, text string) []byte {
		return msg('E', []byte("SFATAL\x00C"+code+"\x00M"+text+"\x00\x00"))
	}
	var g Got
	// startup
	for {
		var n uint32
		if err := binary.Read(r, binary.BigEndian, &n); err != nil {
			return err
		}
		if n < 8 || n > 10000 {
			return fmt.Errorf("postgresql: startup of %d bytes", n)
		}
		b := make([]byte, n-4)
		if _, err := io.ReadFull(r, b); err != nil {
			return err
		}
		if v := binary.BigEndian.Uint32(b); v == 80877103 {
			k.Write([]byte("N"))
			continue
		} else if v != 196608 {
			return fmt.Errorf("postgresql: startup version %d", v)
		}
		f := strings.Split(string(b[4:]), "\x00")
		for i := 0; i+1 < len(f); i += 2 {
			switch f[i] {
			case "user":
				g.User = f[i+1]
			case "database":
				g.DB = f[i+1]
			}
		}
		break
	}
	if how := s.denied(); how != "" && !strings.HasPrefix(how, "welcome ") {
		k.Write(fatal(how, "not now"))
		return nil
	}
	if s.User != "" {
		want := s.Pass
		if s.Salt == 'm' {
			salt := []byte{1, 2, 3, 4}
			k.Write(msg('R', u32(5), salt))
			h1 := md5.Sum([]byte(s.Pass + s.User))
			h2 := md5.Sum(append([]byte(hex.EncodeToString(h1[:])), salt...))
			want = "md5" + hex.EncodeToString(h2[:])
		} else {
			k.Write(msg('R', u32(3)))
		}
		t, b, err := pgMsg(r)
		if err != nil {
			return err
		}
		if t != 'p' {
			return fmt.Errorf("postgresql: message %q", t)
		}
		if g.User != s.User || strings.TrimSuffix(string(b), "\x00") != want {
			k.Write(fatal("28P01", "password authentication failed"))
			return nil
		}
		g.Pass = s.Pass
	}
	k.Write(msg('R', u32(0)))
	if _, how, ok := strings.Cut(s.denied(), "welcome "); ok {
		k.Write(fatal(how, "not now"))
		return nil
	}
	k.Write(msg('S', []byte("server_version\x0014.1\x00")))
	k.Write(msg('K', u32(1), u32(2)))
	k.Write(ready)
	s.voice(k, func(what string) {
		switch what {
		case "notice":
			k.Write(msg('N', []byte("SNOTICE\x00C00000\x00Mhello\x00\x00")))
		case "warning":
			k.Write(msg('N', []byte("SWARNING\x00C01000\x00Mhello\x00\x00")))
		case "parameter":
			k.Write(msg('S', []byte("TimeZone\x00Europe/Moscow\x00")))
		case "notification":
			k.Write(msg('A', u32(7), []byte("points\x00x\x00")))
		default:
			k.Write(fatal(what, "terminating connection"))
			k.Close()
		}
	})
	failed := false // skip until Sync
	stmt := map[string]string{}
	bound := ""
	for {
		t, b, err := pgMsg(r)
		if err != nil {
			return err
		}
		str := func() string {
			i := bytes.IndexByte(b, 0)
			if i < 0 {
				i = len(b)
			}
			v := string(b[:i])
			b = b[min(i+1, len(b)):]
			return v
		}
		if failed && t != 'S' && t != 'X' {
			continue
		}
		switch t {
		case 'X':
			return nil
		case 'S':
			failed = false
			k.Write(ready)
		case 'Q':
			if q := strings.Trim(str(), " ;\n"); q == "" {
				k.Write(msg('I'))
			} else if u := strings.ToUpper(q); u == "BEGIN" || u == "COMMIT" || u == "ROLLBACK" {
				k.Write(msg('C', []byte(u+"\x00")))
			} else if strings.HasPrefix(u, "SELECT ") { // a ping
				k.Write(msg('T', []byte{0, 1}, []byte("c\x00"), u32(0), []byte{0, 0}, u32(25), []byte{0xFF, 0xFF}, u32(0xFFFFFFFF), []byte{0, 0}))
				k.Write(msg('D', []byte{0, 1}, u32(1), []byte("x")))
				k.Write(msg('C', []byte("SELECT 1\x00")))
			} else {
				k.Write(fail("0A000", "unexpected query"))
			}
			k.Write(ready)
		case 'P':
			name := str()
			q := str()
			if !insertRe.MatchString(q) {
				k.Write(fail("42601", "syntax error at or near \""+q+"\""))
				failed = true
				continue
			}
			stmt[name] = q
			k.Write(msg('1'))
		case 'D':
			k.Write(msg('t', []byte{0, 1}, u32(3802)))
			k.Write(msg('n'))
		case 'B':
			str()
			q := stmt[str()]
			be := func() int {
				if len(b) < 2 {
					return 0
				}
				v := int(binary.BigEndian.Uint16(b))
				b = b[2:]
				return v
			}
			nf := be()
			bin := false
			for i := 0; i < nf; i++ {
				bin = be() == 1
			}
			if np := be(); np != 1 || len(b) < 4 {
				return fmt.Errorf("postgresql: %d parameters", np)
			}
			z := int32(binary.BigEndian.Uint32(b))
			if z < 0 || int(z)+4 > len(b) {
				k.Write(fail("23502", "null value"))
				failed = true
				continue
			}
			body := string(b[4 : 4+z])
			if bin {
				body = strings.TrimPrefix(body, "\x01")
			}
			g.Dest, g.Body = insertRe.FindStringSubmatch(q)[1], body
			bound = q
			k.Write(msg('2'))
		case 'E':
			if bound == "" {
				return fmt.Errorf("postgresql: execute without bind")
			}
			switch s.take(g) {
			case Accept:
				k.Write(msg('C', []byte("INSERT 0 1\x00")))
			case Reject:
				f := s.refusal(Refusal{Code: "22P02", Text: "invalid input syntax for type json"})
				if f.Close {
					k.Write(fatal(f.Code, f.Text))
					return errDropped
				}
				k.Write(fail(f.Code, f.Text))
				failed = true
			default:
				return errDropped
			}
		case 'C':
			k.Write(msg('3'))
		case 'H':
		default:
			return fmt.Errorf("postgresql: message %q", t)
		}
	}
}

func pgMsg(r *bufio.Reader) (byte, []byte, error) {
	t, err := r.ReadByte()
	if err != nil {
		return 0, nil, err
	}
	var n uint32
	if err := binary.Read(r, binary.BigEndian, &n); err != nil {
		return 0, nil, err
	}
	if n < 4 || n > 1<<26 {
		return 0, nil, fmt.Errorf("postgresql: message of %d bytes", n)
	}
	b := make([]byte, n-4)
	_, err = io.ReadFull(r, b)
	return t, b, err
}

// ---- rabbitmq (AMQP 0-9-1)

func (s *Server) rabbit(k net.Conn) error {
	r := bufio.NewReader(k)
	var wmu sync.Mutex
	frame := func(t byte, ch uint16, p []byte) error {
		b := []byte{t}
		b = binary.BigEndian.AppendUint16(b, ch)
		b = binary.BigEndian.AppendUint32(b, uint32(len(p)))
		wmu.Lock()
		defer wmu.Unlock()
		_, err := k.Write(append(append(b, p...), 0xCE))
		return err
	}
	method := func(ch, class, id uint16, args ...any) error {
		var b bytes.Buffer
		binary.Write(&b, binary.BigEndian, class)
		binary.Write(&b, binary.BigEndian, id)
		for _, a := range args {
			switch a := a.(type) {
			case string: // short string
				b.WriteByte(byte(len(a)))
				b.WriteString(a)
			case []byte: // long string or table
				binary.Write(&b, binary.BigEndian, uint32(len(a)))
				b.Write(a)
			default:
				binary.Write(&b, binary.BigEndian, a)
			}
		}
		return frame(1, ch, b.Bytes())
	}
	read := func() (t byte, ch uint16, p []byte, err error) {
		h := make([]byte, 7)
		if _, err = io.ReadFull(r, h); err != nil {
			return
		}
		p = make([]byte, binary.BigEndian.Uint32(h[3:])+1)
		if _, err = io.ReadFull(r, p); err != nil {
			return
		}
		return h[0], binary.BigEndian.Uint16(h[1:]), p[:len(p)-1], nil
	}
	hdr := make([]byte, 8)
	if _, err := io.ReadFull(r, hdr); err != nil {
		return err
	}
	if string(hdr) != "AMQP\x00\x00\x09\x01" {
		return fmt.Errorf("rabbitmq: %q", hdr)
	}
	method(0, 10, 10, byte(0), byte(9), []byte(nil), []byte("PLAIN AMQPLAIN"), []byte("en_US"))
	var g Got
	type pending struct {
		exchange, key string
		size          uint64
		body          []byte
	}
	pend := map[uint16]*pending{}
	tag := map[uint16]uint64{}
	confirm := map[uint16]bool{}
	closed := map[uint16]bool{}
	var cmu sync.Mutex // of closed
	publish := func(ch uint16, p *pending) error {
		delete(pend, ch)
		g.Dest, g.Body = p.exchange+"|"+p.key, string(p.body)
		tag[ch]++
		n := tag[ch]
		switch s.take(g) {
		case Accept:
			if confirm[ch] {
				return method(ch, 60, 80, n, byte(0))
			}
		case Reject:
			f := s.refusal(Refusal{})
			if confirm[ch] && (f.Text == "nack" || f.Text == "" && n%2 == 1) {
				return method(ch, 60, 120, n, byte(0))
			}
			code, _ := strconv.Atoi(f.Code)
			if f.Text == "connection" {
				method(0, 10, 50, uint16(code), "refused", uint16(60), uint16(40))
				return errDropped
			}
			cmu.Lock()
			closed[ch] = true
			cmu.Unlock()
			if code == 0 {
				code = 404
			}
			return method(ch, 20, 40, uint16(code), "NOT_FOUND - no exchange", uint16(60), uint16(40))
		default:
			return errDropped
		}
		return nil
	}
	refuse := func(step string, ch uint16) (bool, error) {
		f := strings.Fields(s.denied())
		if len(f) == 0 || f[0] != step {
			return false, nil
		}
		c, _ := strconv.Atoi(f[len(f)-1])
		if step == "start" { // no Close by the protocol before the connection is open
			return true, errDropped
		}
		if len(f) == 3 {
			cmu.Lock()
			closed[ch] = true
			cmu.Unlock()
			return true, method(ch, 20, 40, uint16(c), "not now", uint16(0), uint16(0))
		}
		return true, method(0, 10, 50, uint16(c), "not now", uint16(0), uint16(0))
	}
	for {
		t, ch, p, err := read()
		if err != nil {
			return err
		}
		switch t {
		case 8:
			continue
		case 2:
			if q := pend[ch]; q != nil && len(p) >= 14 {
				q.size = binary.BigEndian.Uint64(p[4:])
				if q.size == 0 {
					if err := publish(ch, q); err != nil {
						return err
					}
				}
			}
			continue
		case 3:
			if q := pend[ch]; q != nil {
				q.body = append(q.body, p...)
				if uint64(len(q.body)) >= q.size {
					if err := publish(ch, q); err != nil {
						return err
					}
				}
			}
			continue
		case 1:
		default:
			return fmt.Errorf("rabbitmq: frame %d", t)
		}
		if len(p) < 4 {
			return fmt.Errorf("rabbitmq: short method")
		}
		class, id := binary.BigEndian.Uint16(p), binary.BigEndian.Uint16(p[2:])
		p = p[4:]
		short := func() string {
			if len(p) == 0 || len(p) <= int(p[0]) {
				return ""
			}
			n := int(p[0])
			v := string(p[1 : 1+n])
			p = p[1+n:]
			return v
		}
		long := func() string {
			if len(p) < 4 {
				return ""
			}
			n := int(binary.BigEndian.Uint32(p))
			if len(p) < 4+n {
				return ""
			}
			v := string(p[4 : 4+n])
			p = p[4+n:]
			return v
		}
		cmu.Lock()
		shut := closed[ch]
		cmu.Unlock()
		if shut && !(class == 20 && (id == 41 || id == 10)) {
			continue
		}
		switch {
		case class == 10 && id == 11: // start-ok
			long()
			mech := short()
			resp := strings.Split(long(), "\x00")
			if mech != "PLAIN" || len(resp) != 3 {
				return fmt.Errorf("rabbitmq: mechanism %q", mech)
			}
			g.User, g.Pass = resp[1], resp[2]
			if s.User != "" && (g.User != s.User || g.Pass != s.Pass) {
				method(0, 10, 50, uint16(403), "ACCESS_REFUSED", uint16(0), uint16(0))
				return nil
			}
			no, err := refuse("start", 0)
			if !no && err == nil {
				err = method(0, 10, 30, uint16(2047), uint32(131072), uint16(10))
			}
			if err != nil {
				return err
			}
		case class == 10 && id == 31:
		case class == 10 && id == 40:
			g.DB = short()
			no, err := refuse("tune", 0)
			if !no && err == nil {
				err = method(0, 10, 41, "")
			}
			if err != nil {
				return err
			}
		case class == 10 && id == 50:
			err = method(0, 10, 51)
		case class == 10 && id == 51:
			return nil
		case class == 20 && id == 10:
			cmu.Lock()
			closed[ch] = false
			cmu.Unlock()
			tag[ch], confirm[ch] = 0, false
			if no, err := refuse("channel", ch); no {
				if err != nil {
					return err
				}
				continue
			}
			err = method(ch, 20, 11, []byte(nil))
		case class == 20 && id == 40:
			err = method(ch, 20, 41)
		case class == 20 && id == 41:
		case class == 85 && id == 10:
			if no, err := refuse("confirm", ch); no {
				if err != nil {
					return err
				}
				continue
			}
			confirm[ch] = true
			err = method(ch, 85, 11)
			s.voice(k, func(what string) {
				to, code, _ := strings.Cut(what, " ")
				c, _ := strconv.Atoi(code)
				switch to {
				case "heartbeat":
					frame(8, 0, nil)
				case "blocked":
					method(0, 10, 60, "low on memory")
					method(0, 10, 61)
				case "channel":
					cmu.Lock()
					closed[ch] = true
					cmu.Unlock()
					method(ch, 20, 40, uint16(c), "PRECONDITION_FAILED", uint16(0), uint16(0))
				case "connection":
					method(0, 10, 50, uint16(c), "CONNECTION_FORCED", uint16(0), uint16(0))
				}
			})
		case class == 60 && id == 40:
			p = p[2:]
			q := &pending{exchange: short()}
			q.key = short()
			pend[ch] = q
		case class == 40 && id == 10:
			err = method(ch, 40, 11)
		default:
			return fmt.Errorf("rabbitmq: method %d.%d", class, id)
		}
		if err != nil {
			return err
		}
	}
}

// ---- tarantool

func (s *Server) tarantool(k net.Conn) error {
	salt := bytes.Repeat([]byte{7}, 32)
	gr := []byte(fmt.Sprintf("%-63s\n%-63s\n", "Tarantool 2.8.1 (Binary) 00000000-0000-0000-0000-000000000000", base64.StdEncoding.EncodeToString(salt)))
	if _, err := k.Write(gr); err != nil {
		return err
	}
	r := bufio.NewReader(k)
	answer := func(sync uint64, code uint32, body []byte) error {
		p := []byte{0x83, 0x00, 0xCE}
		p = binary.BigEndian.AppendUint32(p, code)
		p = append(p, 0x01, 0xCF)
		p = binary.BigEndian.AppendUint64(p, sync)
		p = append(p, 0x05, 0xCE, 0, 0, 0, 1)
		p = append(p, body...)
		_, err := k.Write(append(binary.BigEndian.AppendUint32([]byte{0xCE}, uint32(len(p))), p...))
		return err
	}
	str := func(v string) []byte {
		return append(binary.BigEndian.AppendUint32([]byte{0xDB}, uint32(len(v))), v...)
	}
	data := func(items ...[]byte) []byte { // one map entry 0x30: array
		b := append([]byte{0x81, 0x30}, 0x90|byte(len(items)))
		return append(b, bytes.Join(items, nil)...)
	}
	errBody := func(text string) []byte { return append([]byte{0x81, 0x31}, str(text)...) }
	var g Got
	authed := s.User == ""
	task := byte(0)
	for {
		l := make([]byte, 5)
		if _, err := io.ReadFull(r, l); err != nil {
			return err
		}
		if l[0] != 0xCE {
			return fmt.Errorf("tarantool: % x", l)
		}
		p := make([]byte, binary.BigEndian.Uint32(l[1:]))
		if _, err := io.ReadFull(r, p); err != nil {
			return err
		}
		d := &mp{b: p}
		h, _ := d.value().(map[any]any)
		body, _ := d.value().(map[any]any)
		if d.bad || h == nil {
			return fmt.Errorf("tarantool: % x", p)
		}
		code, _ := h[int64(0)].(int64)
		sy, _ := h[int64(1)].(int64)
		var err error
		switch {
		case code == 7:
			user, _ := body[int64(0x23)].(string)
			tup, _ := body[int64(0x21)].([]any)
			h1 := sha1.Sum([]byte(s.Pass))
			h2 := sha1.Sum(h1[:])
			h3 := sha1.Sum(append(append([]byte(nil), salt[:20]...), h2[:]...))
			for i := range h3 {
				h3[i] ^= h1[i]
			}
			ok := false
			if len(tup) == 2 {
				scr, _ := tup[1].(string)
				ok = tup[0] == "chap-sha1" && scr == string(h3[:]) && user == s.User
			}
			if how := s.denied(); how != "" {
				c, _ := strconv.Atoi(how)
				if err = answer(uint64(sy), 0x8000|uint32(c), errBody("not now")); err != nil {
					return err
				}
				continue
			}
			if !ok {
				answer(uint64(sy), 0x8000|47, errBody("Incorrect password supplied"))
				return nil
			}
			authed = true
			g.User, g.Pass = user, s.Pass
			err = answer(uint64(sy), 0, []byte{0x80})
		case code == 1:
			err = answer(uint64(sy), 0, data())
		case code == 64:
			err = answer(uint64(sy), 0, []byte{0x80})
		case !authed:
			err = answer(uint64(sy), 0x8000|42, errBody("access denied"))
		case code == 6 || code == 10:
			fn, _ := body[int64(0x22)].(string)
			args, _ := body[int64(0x21)].([]any)
			name := strings.TrimSuffix(strings.TrimPrefix(fn, "queue.tube."), ":put")
			if fn != "queue.tube."+name+":put" || len(args) < 1 {
				err = answer(uint64(sy), 0x8000|33, errBody("procedure is not defined"))
				break
			}
			v, ok := args[0].(string)
			if !ok {
				v = fmt.Sprintf("not bytes: %v", args[0])
			}
			g.Dest, g.Body = name, v
			switch s.take(g) {
			case Accept:
				t := append([]byte{0x93, task}, str("r")...)
				task = (task + 1) & 0x7F
				t = append(t, str(v)...)
				err = answer(uint64(sy), 0, data(t))
			case Reject:
				f := s.refusal(Refusal{Code: "32", Text: "no such tube"})
				code, _ := strconv.Atoi(f.Code)
				err = answer(uint64(sy), 0x8000|uint32(code), errBody(f.Text))
			default:
				err = errDropped
			}
		default:
			err = answer(uint64(sy), 0x8000|48, errBody("unknown request"))
		}
		if err != nil {
			return err
		}
	}
}

// mp decodes msgpack.
type mp struct {
	b   []byte
	bad bool
}

func (d *mp) n(n int) []byte {
	if n < 0 || n > len(d.b) {
		d.bad = true
		d.b = nil
		return make([]byte, min(max(n, 0), 64))
	}
	v := d.b[:n]
	d.b = d.b[n:]
	return v
}
func (d *mp) be(n int) int64 {
	var v uint64
	for _, x := range d.n(n) {
		v = v<<8 | uint64(x)
	}
	return int64(v)
}
func (d *mp) arr(n int) any {
	v := []any{}
	for i := 0; i < n && !d.bad; i++ {
		v = append(v, d.value())
	}
	return v
}
func (d *mp) obj(n int) any {
	v := map[any]any{}
	for i := 0; i < n && !d.bad; i++ {
		k := d.value()
		x := d.value()
		switch k.(type) {
		case int64, string:
			v[k] = x
		default:
			d.bad = true
		}
	}
	return v
}
func (d *mp) value() any {
	t := d.n(1)[0]
	switch {
	case t < 0x80:
		return int64(t)
	case t < 0x90:
		return d.obj(int(t & 15))
	case t < 0xA0:
		return d.arr(int(t & 15))
	case t < 0xC0:
		return string(d.n(int(t & 31)))
	case t >= 0xE0:
		return int64(int8(t))
	}
	switch t {
	case 0xC0:
		return nil
	case 0xC2, 0xC3:
		return t == 0xC3
	case 0xC4, 0xD9:
		return string(d.n(int(d.be(1))))
	case 0xC5, 0xDA:
		return string(d.n(int(d.be(2))))
	case 0xC6, 0xDB:
		return string(d.n(int(d.be(4))))
	case 0xCA:
		return float64(math.Float32frombits(uint32(d.be(4))))
	case 0xCB:
		return math.Float64frombits(uint64(d.be(8)))
	case 0xCC:
		return d.be(1)
	case 0xCD:
		return d.be(2)
	case 0xCE:
		return d.be(4)
	case 0xCF:
		return d.be(8)
	case 0xD0:
		return int64(int8(d.be(1)))
	case 0xD1:
		return int64(int16(d.be(2)))
	case 0xD2:
		return int64(int32(d.be(4)))
	case 0xD3:
		return d.be(8)
	case 0xDC:
		return d.arr(int(d.be(2)))
	case 0xDD:
		return d.arr(int(d.be(4)))
	case 0xDE:
		return d.obj(int(d.be(2)))
	case 0xDF:
		return d.obj(int(d.be(4)))
	}
	d.bad = true
	return nil
}
