// Package gate explores the receiver (server, storage, codec) built from /repo with its network replaced
// by scripted in-memory connections and its clock by a virtual one (a synctest bubble per execution).
package gate

import (
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/server"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	log "github.com/sirupsen/logrus"
	"verif.local/mc/vgo"
	"verif.local/mc/vnet"
	"verif.local/mc/vsched"
	"verif.local/mc/x"
)

const addr = "vmc:1"

func init() {
	log.SetOutput(io.Discard)
	log.SetLevel(log.PanicLevel)
	// what the gateway does must not depend on how much it logs: the level varies from case to case
	x.OnCase = func(i int64) {
		log.SetLevel([]log.Level{log.PanicLevel, log.DebugLevel, log.PanicLevel, log.InfoLevel, log.PanicLevel, log.ErrorLevel, log.WarnLevel}[uint64(i/8+i)%7])
		peers = int(uint64(i/16+i/3) % 5)
	}
	log.StandardLogger().ExitFunc = func(code int) {
		vgo.Record(fmt.Sprintf("the process exits with status %d", code))
		runtime.Goexit()
	}
}

// Outcome of one save.
type Outcome int

const (
	OK Outcome = iota
	Fail
	Hold // until Release
)

// Store is a scripted store.
type Store struct {
	Name   string
	Script func(call int) Outcome
	Err    error // what a failing save returns; errStore when nil

	HeldFails bool // a held save fails when it is released

	tr    *vnet.Trace
	mu    sync.Mutex
	cond  *sync.Cond
	open  bool
	dead  bool
	calls int
	Inits int
}

func (s *Store) setup(tr *vnet.Trace) {
	s.tr, s.cond = tr, sync.NewCond(&s.mu)
	s.calls, s.open, s.dead = 0, false, false
}

// Init as the interface wants it.
func (s *Store) Init(map[string]string) error { s.Inits++; return nil }

// Close as the interface wants it.
func (s *Store) Close() error { return nil }

var errStore = errors.New("store failure (scripted)")

// Save records the serialised record and does what the script says.
func (s *Store) Save(m interface{ ToBytes() ([]byte, error) }) error {
	b, err := m.ToBytes()
	if err != nil {
		b = []byte("unserialisable: " + err.Error())
	}
	s.mu.Lock()
	n := s.calls
	s.calls++
	o := OK
	if s.Script != nil {
		o = s.Script(n)
	}
	s.mu.Unlock()
	s.tr.Add(vnet.Event{Kind: "save", Conn: -1, Name: s.Name, Data: append([]byte(nil), b...)})
	if o == Hold {
		if vsched.Active() {
			vsched.Block(func() bool { s.mu.Lock(); defer s.mu.Unlock(); return s.open || s.dead })
		} else {
			s.mu.Lock()
			for !s.open && !s.dead {
				s.cond.Wait()
			}
			s.mu.Unlock()
		}
		s.mu.Lock()
		dead := s.dead
		s.mu.Unlock()
		if dead {
			runtime.Goexit()
		}
		if s.HeldFails {
			o = Fail
		}
	}
	if o == Fail {
		s.tr.Add(vnet.Event{Kind: "failed", Conn: -1, Name: s.Name})
		if s.Err != nil {
			return s.Err
		}
		return errStore
	}
	s.tr.Add(vnet.Event{Kind: "saved", Conn: -1, Name: s.Name})
	return nil
}

// Release lets held saves go on.
func (s *Store) Release() { s.mu.Lock(); s.open = true; s.cond.Broadcast(); s.mu.Unlock() }
func (s *Store) kill()    { s.mu.Lock(); s.dead = true; s.cond.Broadcast(); s.mu.Unlock() }

// Sim is one running gateway.
type Sim struct {
	Tr      *vnet.Trace
	L       *vnet.VListener
	Stores  []*Store
	Conns   []*vnet.VConn
	RunDone bool
	Stop    func() error
	Start   time.Time
}

// Conn opens connection number len(Conns)+1 and lets the gateway accept it.
func (s *Sim) Conn() *vnet.VConn {
	c := s.NewConn()
	s.L.Push(c)
	synctest.Wait()
	return c
}

// peers is how the peers are addressed: hosts of their own, all behind one address, IPv6, or a mixture. It
// varies from case to case, for nothing may depend on it.
var peers int

func peer(n int) net.Addr {
	a := &net.TCPAddr{IP: net.IPv4(10, byte(n>>8), 3, byte(n)), Port: 1024 + n%60000}
	if k := peers; k == 1 || k == 4 && n%4 == 1 {
		a.IP = net.IPv4(192, 168, 0, 1).To4()
	} else if k == 2 || k == 4 && n%4 == 2 {
		a.IP = net.ParseIP(fmt.Sprintf("2001:db8::%x:1", n))
	} else if k == 3 || k == 4 && n%4 == 3 {
		a.IP, a.Zone = net.ParseIP("fe80::1"), "eth0"
	}
	return a
}

// NewConn makes a connection that is not offered yet.
func (s *Sim) NewConn() *vnet.VConn {
	c := vnet.NewConn(len(s.Conns)+1, s.Tr)
	c.Peer = peer(c.ID)
	s.Conns = append(s.Conns, c)
	return c
}

// Wait lets everything happen that can without time passing.
func (s *Sim) Wait() { synctest.Wait() }

// Sleep lets virtual time pass.
func (s *Sim) Sleep(d time.Duration) { time.Sleep(d); synctest.Wait() }

// Saves lists what the store received.
func (s *Sim) Saves(name string) (out []vnet.Event) {
	for _, e := range s.Tr.Events() {
		if e.Kind == "save" && e.Name == name {
			out = append(out, e)
		}
	}
	return
}

var testT *testing.T

// Res is what an execution ended with.
type Res struct {
	Fatal []string // the process would have ended
	Leak  bool     // goroutines were left blocked for ever
}

// Exec runs the gateway in a bubble of its own.
func Exec(ttl time.Duration, stores []*Store, script func(s *Sim)) (res Res) {
	return execWith(ttl, stores, nil, script)
}

// execWith adds more stores behind the scripted ones.
func execWith(ttl time.Duration, stores []*Store, more []storage.Saver, script func(s *Sim)) (res Res) {
	vgo.Take()
	defer func() {
		res.Fatal = append(res.Fatal, vgo.Take()...)
		vnet.Unregister(addr)
	}()
	defer func() {
		if e := recover(); e != nil {
			if t := fmt.Sprint(e); strings.Contains(t, "deadlock") {
				res.Leak = true
				return
			}
			panic(e)
		}
	}()
	var inner any
	var stack string
	synctest.Test(testT, func(t *testing.T) {
		defer func() { // a panic of the script must not cross the bubble
			if e := recover(); e != nil {
				inner = e
				b := make([]byte, 4096)
				stack = string(b[:runtime.Stack(b, false)])
			}
		}()
		s := &Sim{Tr: &vnet.Trace{}, Stores: stores, Start: time.Now()}
		s.L = vnet.Register(addr, s.Tr)
		repo := storage.NewRepository()
		for _, st := range stores {
			st.setup(s.Tr)
			repo.AddStore(st)
		}
		for _, st := range more {
			repo.AddStore(st)
		}
		srv := server.New(addr, ttl, repo)
		s.Stop = srv.Stop
		go vgo.Spawn(func() { srv.Run(); s.RunDone = true })()
		defer func() {
			s.L.Teardown()
			for _, c := range s.Conns {
				c.Teardown()
			}
			for _, st := range stores {
				st.kill()
			}
			synctest.Wait()
		}()
		synctest.Wait()
		script(s)
	})
	if inner != nil {
		if _, ok := inner.(fmt.Stringer); !ok {
			if e, ok := inner.(error); ok {
				inner = e.Error()
			}
		}
		_ = stack
		panic(inner)
	}
	return
}
