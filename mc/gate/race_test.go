package gate

import (
	"errors"
	"fmt"
	"net"
	"os"
	"strconv"
	"sync/atomic"
	"testing"
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/server"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	log "github.com/sirupsen/logrus"

	"verif.local/mc/vnet"
)

// The race run executes the gateway under the race detector with a network that adds no order between
// connections: everything a connection reads is there before it starts, and its end is looked at only
// when all have ended. One execution thus stands for all interleavings that synchronise alike.

var errEnd = errors.New("connection reset by peer (scripted)")

type rconn struct {
	id    int
	segs  [][]byte
	pause []time.Duration // before the segment
	left  *atomic.Int32
}

func (c *rconn) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if len(c.segs) == 0 {
		return 0, errEnd
	}
	if len(c.pause) > 0 && c.pause[0] > 0 {
		time.Sleep(c.pause[0])
		c.pause[0] = 0
	}
	n := copy(b, c.segs[0])
	if c.segs[0] = c.segs[0][n:]; len(c.segs[0]) == 0 {
		c.segs, c.pause = c.segs[1:], c.pause[1:]
	}
	return n, nil
}

func (c *rconn) Write(b []byte) (int, error) {
	if c.id%3 == 0 {
		return 0, errEnd
	}
	return len(b), nil
}

func (c *rconn) Close() error {
	c.left.Add(-1)
	return nil
}

func (c *rconn) LocalAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }
func (c *rconn) RemoteAddr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(10, 0, 0, byte(c.id)), Port: c.id}
}
func (c *rconn) SetDeadline(t time.Time) error      { return nil }
func (c *rconn) SetReadDeadline(t time.Time) error  { return nil }
func (c *rconn) SetWriteDeadline(t time.Time) error { return nil }

type rlistener struct {
	conns []*rconn
	end   chan struct{}
}

func (l *rlistener) Accept() (net.Conn, error) {
	if len(l.conns) > 0 {
		c := l.conns[0]
		l.conns = l.conns[1:]
		return c, nil
	}
	<-l.end
	return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.Addr(), Err: net.ErrClosed}
}

func (l *rlistener) Close() error   { return nil }
func (l *rlistener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }

// rstore keeps nothing, so that it orders nothing.
type rstore struct{ fail bool }

func (s rstore) Init(map[string]string) error { return nil }
func (s rstore) Close() error                 { return nil }
func (s rstore) Save(m interface{ ToBytes() ([]byte, error) }) error {
	if _, err := m.ToBytes(); err != nil || s.fail {
		return errStore
	}
	return nil
}

// TestRace runs every kind of packet against kind VMC_RACE in three orders of their processing.
func TestRace(t *testing.T) {
	a, err := strconv.Atoi(os.Getenv("VMC_RACE"))
	if err != nil {
		t.Skip()
	}
	step := 2 * time.Millisecond
	n := 0
	for b := range kinds {
		for order := 0; order < 4; order++ {
			mode := n % 3
			log.SetLevel([]log.Level{log.PanicLevel, log.PanicLevel, log.DebugLevel, log.ErrorLevel}[(n/4+order)%4])
			fmt.Printf("RACE-CASE %s, %s, order %d, stores %d\n", kinds[a].name, kinds[b].name, order, mode)
			n++
			var left atomic.Int32
			left.Store(2)
			mk := func(id int, first, second int, p1, p2 time.Duration) *rconn {
				c := &rconn{id: id, left: &left}
				for i, k := range []int{first, second} {
					c.segs = append(c.segs, kinds[k].mk(uint16(10*id+i), uint16(20*id+i)).Wire)
					c.pause = append(c.pause, []time.Duration{p1, p2}[i])
				}
				c.segs = append(c.segs, everything(uint16(30+id)).Wire)
				c.pause = append(c.pause, 0)
				return c
			}
			var ca, cb *rconn
			switch order {
			case 0: // side by side
				ca, cb = mk(1, a, b, 0, 0), mk(2, b, a, 0, 0)
			case 1: // one after the other
				ca, cb = mk(1, a, b, 0, 0), mk(2, b, a, 2*step, 0)
			case 2: // the other way round
				ca, cb = mk(1, a, b, 2*step, 0), mk(2, b, a, 0, 0)
			case 3: // in turns, the second without anyone to read its answers
				ca, cb = mk(1, a, b, 0, 2*step), mk(3, b, a, step, 2*step)
			}
			l := &rlistener{conns: []*rconn{ca, cb}, end: make(chan struct{})}
			addr := fmt.Sprint("race:", n)
			vnet.Give(addr, l)
			repo := storage.NewRepository()
			switch mode {
			case 0:
				repo.AddStore(rstore{})
			case 1:
				repo.AddStore(rstore{fail: true})
				repo.AddStore(rstore{})
			case 2:
				repo.AddStore(rstore{})
				repo.AddStore(storage.LogConnector{})
			}
			srv := server.New(addr, 0, repo)
			ended := make(chan struct{})
			go func() {
				srv.Run()
				close(ended)
			}()
			for i := 0; left.Load() > 0; i++ {
				if i > 10000 {
					t.Fatal("the connections do not end")
				}
				time.Sleep(time.Millisecond)
			}
			close(l.end)
			<-ended
		}
	}
	fmt.Printf("RACE-DONE %d\n", n)
}
