// Package vnet stands in for package net in instrumented code. It re-exports all of net, but a
// Listen on an address registered by the harness yields an in-memory listener whose connections
// deliver exactly the scripted bytes, errors and pauses, and record everything the code does.
package vnet

import (
	"context"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sync"
	"syscall"
	"time"
)

// Event is one observation, in the order it happened.
type Event struct {
	Kind string // save, saved, savefail, write, close, accept
	Conn int
	Name string
	Data []byte
	At   time.Time
}

// Trace collects events.
type Trace struct {
	Off bool // nothing is kept, neither here nor by the connections
	mu  sync.Mutex
	ev  []Event
}

// Add appends an event.
func (t *Trace) Add(e Event) {
	if t.Off {
		return
	}
	e.At = time.Now()
	t.mu.Lock()
	t.ev = append(t.ev, e)
	t.mu.Unlock()
}

// Events returns the events so far.
func (t *Trace) Events() []Event {
	t.mu.Lock()
	defer t.mu.Unlock()
	return append([]Event(nil), t.ev...)
}

// Block, when set by a scheduler, waits until ready reports true (it is called without locks held).
var Block func(ready func() bool)

var (
	regMu sync.Mutex
	reg   = map[string]*VListener{}
	given = map[string]net.Listener{}
)

// Give makes Listen(addr) return l.
func Give(addr string, l net.Listener) {
	regMu.Lock()
	given[addr] = l
	regMu.Unlock()
}

type acc struct {
	c   *VConn
	err error
}

// VListener is an in-memory listener.
type VListener struct {
	Tr          *Trace
	addr        string
	mu          sync.Mutex
	cond        *sync.Cond
	q           []acc
	listening   bool
	closed      bool
	torn        bool
	Accepts     int // calls to Accept
	AfterClose  int // calls to Accept after Close
	Closes      int
	Spin        bool // Accept was called over and over after Close
	AcceptedAny bool
}

// Register makes Listen(addr) return a new in-memory listener.
func Register(addr string, tr *Trace) *VListener {
	l := &VListener{Tr: tr, addr: addr}
	l.cond = sync.NewCond(&l.mu)
	regMu.Lock()
	reg[addr] = l
	regMu.Unlock()
	return l
}

// Unregister forgets the address.
func Unregister(addr string) {
	regMu.Lock()
	delete(reg, addr)
	regMu.Unlock()
}

// Listen is net.Listen.
func Listen(network, address string) (net.Listener, error) {
	regMu.Lock()
	l, g := reg[address], given[address]
	regMu.Unlock()
	if g != nil {
		return g, nil
	}
	if l == nil {
		return net.Listen(network, address)
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.listening {
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l.listening = true
	return l, nil
}

// ListenConfig is net.ListenConfig.
type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
}

// Listen listens.
func (c *ListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	return Listen(network, address)
}

func (l *VListener) wait(ready func() bool) {
	if Block != nil {
		l.mu.Unlock()
		defer l.mu.Lock()
		Block(func() bool { l.mu.Lock(); defer l.mu.Unlock(); return ready() })
		return
	}
	for !ready() {
		l.cond.Wait()
	}
}

// Accept waits for the next scripted connection or error.
func (l *VListener) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.Accepts++
	l.wait(func() bool { return len(l.q) > 0 || l.closed || l.torn })
	if l.torn {
		runtime.Goexit()
	}
	if l.closed {
		if l.AfterClose++; l.AfterClose > 200 {
			l.Spin = true
			runtime.Goexit()
		}
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.Addr(), Err: net.ErrClosed}
	}
	a := l.q[0]
	l.q = l.q[1:]
	if a.err != nil {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.Addr(), Err: a.err}
	}
	l.Tr.Add(Event{Kind: "accept", Conn: a.c.ID})
	a.c.mu.Lock()
	a.c.accepted = true
	a.c.mu.Unlock()
	return a.c, nil
}

// Close closes the listener.
func (l *VListener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.Closes++
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.Addr(), Err: net.ErrClosed}
	}
	l.closed = true
	l.cond.Broadcast()
	return nil
}

// Addr is the address.
func (l *VListener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }

// Teardown ends the goroutine blocked in Accept.
func (l *VListener) Teardown() {
	l.mu.Lock()
	l.torn = true
	l.cond.Broadcast()
	l.mu.Unlock()
}

// Closed reports whether the code closed the listener.
func (l *VListener) Closed() bool { l.mu.Lock(); defer l.mu.Unlock(); return l.closed }

// Listening reports whether the code listens.
func (l *VListener) Listening() bool { l.mu.Lock(); defer l.mu.Unlock(); return l.listening }

// Accepting reports whether the code has begun to accept.
func (l *VListener) Accepting() bool { l.mu.Lock(); defer l.mu.Unlock(); return l.Accepts > 0 }

// PushErr makes one Accept fail.
func (l *VListener) PushErr(err error) {
	l.mu.Lock()
	l.q = append(l.q, acc{err: err})
	l.cond.Broadcast()
	l.mu.Unlock()
}

// Push offers a connection.
func (l *VListener) Push(c *VConn) {
	l.mu.Lock()
	l.q = append(l.q, acc{c: c})
	l.cond.Broadcast()
	l.mu.Unlock()
}

// VConn is the gateway's end of an in-memory connection.
type VConn struct {
	ID       int
	Peer     net.Addr // the address of the peer, when not the usual one
	tr       *Trace
	mu       sync.Mutex
	cond     *sync.Cond
	in       [][]byte
	end      error // after in is drained
	rdl, wdl time.Time
	rtm, wtm *time.Timer
	out      []byte
	writes   int
	writeErr error
	stall    bool // writes block
	closed   bool
	closedAt time.Time
	torn     bool
	accepted bool
	endReads int
	Spin     bool // kept reading after the end
	reads    int
}

// NewConn makes a connection.
func NewConn(id int, tr *Trace) *VConn {
	c := &VConn{ID: id, tr: tr}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *VConn) op(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.LocalAddr(), Addr: c.RemoteAddr(), Err: err}
}

func (c *VConn) wait(ready func() bool) {
	if ready() {
		return
	}
	if Block != nil {
		c.mu.Unlock()
		defer c.mu.Lock()
		Block(func() bool { c.mu.Lock(); defer c.mu.Unlock(); return ready() })
		return
	}
	for !ready() {
		c.cond.Wait()
	}
}

func past(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

// Read reads at most one delivered segment.
func (c *VConn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.reads++
	if len(b) == 0 {
		return 0, nil
	}
	c.wait(func() bool { return c.torn || c.closed || past(c.rdl) || len(c.in) > 0 || c.end != nil })
	switch {
	case c.torn:
		runtime.Goexit()
	case c.closed:
		c.spin()
		return 0, c.op("read", net.ErrClosed)
	case past(c.rdl):
		c.spin()
		return 0, c.op("read", os.ErrDeadlineExceeded)
	case len(c.in) > 0:
		n := copy(b, c.in[0])
		if n == len(c.in[0]) {
			c.in = c.in[1:]
		} else {
			c.in[0] = c.in[0][n:]
		}
		return n, nil
	}
	c.spin()
	if c.end == io.EOF {
		return 0, io.EOF
	}
	return 0, c.op("read", c.end)
}

func (c *VConn) spin() {
	if c.endReads++; c.endReads > 2000 {
		c.Spin = true
		runtime.Goexit()
	}
}

// Write records what the gateway sends.
func (c *VConn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.wait(func() bool { return c.torn || c.closed || c.writeErr != nil || !c.stall || past(c.wdl) })
	switch {
	case c.torn:
		runtime.Goexit()
	case c.closed:
		return 0, c.op("write", net.ErrClosed)
	case past(c.wdl):
		return 0, c.op("write", os.ErrDeadlineExceeded)
	case c.writeErr != nil:
		return 0, c.op("write", c.writeErr)
	}
	c.writes++
	if c.tr.Off {
		return len(b), nil
	}
	c.out = append(c.out, b...)
	c.tr.Add(Event{Kind: "write", Conn: c.ID, Data: append([]byte(nil), b...)})
	return len(b), nil
}

// Close closes the gateway's end.
func (c *VConn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return c.op("close", net.ErrClosed)
	}
	c.closed = true
	c.closedAt = time.Now()
	for _, t := range []*time.Timer{c.rtm, c.wtm} {
		if t != nil {
			t.Stop()
		}
	}
	c.tr.Add(Event{Kind: "close", Conn: c.ID})
	c.cond.Broadcast()
	return nil
}

// LocalAddr and RemoteAddr are fixed.
func (c *VConn) LocalAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }

// RemoteAddr of the peer.
func (c *VConn) RemoteAddr() net.Addr {
	if c.Peer != nil {
		return c.Peer
	}
	return &net.TCPAddr{IP: net.IPv4(10, 0, 0, byte(c.ID)), Port: 1000 + c.ID}
}

// SetDeadline sets both.
func (c *VConn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}

func (c *VConn) arm(tm **time.Timer, t time.Time) {
	if *tm != nil {
		(*tm).Stop()
		*tm = nil
	}
	if !t.IsZero() && Block == nil {
		if d := time.Until(t); d > 0 {
			*tm = time.AfterFunc(d, func() { c.mu.Lock(); c.cond.Broadcast(); c.mu.Unlock() })
		}
	}
	c.cond.Broadcast()
}

// SetReadDeadline as net.Conn.
func (c *VConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return c.op("set", net.ErrClosed)
	}
	c.rdl = t
	c.arm(&c.rtm, t)
	return nil
}

// SetWriteDeadline as net.Conn.
func (c *VConn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return c.op("set", net.ErrClosed)
	}
	c.wdl = t
	c.arm(&c.wtm, t)
	return nil
}

// Below: the peer's side.

// Send delivers one segment.
func (c *VConn) Send(b []byte) {
	if len(b) == 0 {
		return
	}
	c.mu.Lock()
	c.in = append(c.in, append([]byte(nil), b...))
	c.cond.Broadcast()
	c.mu.Unlock()
}

// End makes reads fail with err once everything sent is read (io.EOF: orderly close).
func (c *VConn) End(err error) {
	c.mu.Lock()
	c.end = err
	c.cond.Broadcast()
	c.mu.Unlock()
}

// FailWrites makes writes fail.
func (c *VConn) FailWrites(err error) {
	c.mu.Lock()
	c.writeErr = err
	c.cond.Broadcast()
	c.mu.Unlock()
}

// Stall makes writes block, or go on.
func (c *VConn) Stall(on bool) { c.mu.Lock(); c.stall = on; c.cond.Broadcast(); c.mu.Unlock() }

// Out returns what the gateway sent.
func (c *VConn) Out() []byte { c.mu.Lock(); defer c.mu.Unlock(); return append([]byte(nil), c.out...) }

// Closed reports whether and when the gateway closed the connection.
func (c *VConn) Closed() (bool, time.Time) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed, c.closedAt
}

// Accepted reports whether the gateway took the connection.
func (c *VConn) Accepted() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.accepted }

// Pending is the number of sent bytes the gateway has not read.
func (c *VConn) Pending() (n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, b := range c.in {
		n += len(b)
	}
	return
}

// Teardown ends the goroutine that uses the connection at its next call.
func (c *VConn) Teardown() {
	c.mu.Lock()
	c.torn = true
	for _, t := range []*time.Timer{c.rtm, c.wtm} {
		if t != nil {
			t.Stop()
		}
	}
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *VConn) String() string { return fmt.Sprintf("conn%d", c.ID) }
