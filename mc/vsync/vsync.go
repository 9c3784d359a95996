// Package vsync stands in for package sync in instrumented code: blocking on a lock is visible to a
// synctest bubble (and to the scheduler), so a goroutine that waits for a lock counts as blocked.
package vsync

import (
	"sync"

	"verif.local/mc/vsched"
)

type (
	// Map and Pool never block.
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Locker    = sync.Locker
)

// NewCond is sync.NewCond.
var NewCond = sync.NewCond

// Pool is a deterministic sync.Pool: last in, first out.
type Pool struct {
	New func() any
	mu  sync.Mutex
	xs  []any
}

func (p *Pool) Get() any {
	p.mu.Lock()
	if n := len(p.xs); n > 0 {
		x := p.xs[n-1]
		p.xs = p.xs[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.xs = append(p.xs, x)
	p.mu.Unlock()
}

type core struct {
	mu   sync.Mutex
	cond *sync.Cond
}

func (c *core) wait(ready func() bool) {
	if ready() {
		return
	}
	if vsched.Active() {
		for !ready() {
			c.mu.Unlock()
			vsched.Block(func() bool { c.mu.Lock(); defer c.mu.Unlock(); return ready() })
			c.mu.Lock()
		}
		return
	}
	if c.cond == nil {
		c.cond = sync.NewCond(&c.mu)
	}
	for !ready() {
		c.cond.Wait()
	}
}

func (c *core) wake() {
	if c.cond != nil {
		c.cond.Broadcast()
	}
}

// Mutex is sync.Mutex.
type Mutex struct {
	c    core
	held bool
}

func (m *Mutex) Lock() {
	vsched.P()
	m.c.mu.Lock()
	m.c.wait(func() bool { return !m.held })
	m.held = true
	m.c.mu.Unlock()
}

func (m *Mutex) TryLock() bool {
	m.c.mu.Lock()
	defer m.c.mu.Unlock()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	m.c.mu.Lock()
	if !m.held {
		m.c.mu.Unlock()
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	m.c.wake()
	m.c.mu.Unlock()
	vsched.P()
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	c       core
	w       bool
	r, want int
}

func (m *RWMutex) Lock() {
	vsched.P()
	m.c.mu.Lock()
	m.want++
	m.c.wait(func() bool { return !m.w && m.r == 0 })
	m.want--
	m.w = true
	m.c.mu.Unlock()
}

func (m *RWMutex) TryLock() bool {
	m.c.mu.Lock()
	defer m.c.mu.Unlock()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	m.c.mu.Lock()
	if !m.w {
		m.c.mu.Unlock()
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.c.wake()
	m.c.mu.Unlock()
	vsched.P()
}

func (m *RWMutex) RLock() {
	vsched.P()
	m.c.mu.Lock()
	m.c.wait(func() bool { return !m.w && m.want == 0 })
	m.r++
	m.c.mu.Unlock()
}

func (m *RWMutex) TryRLock() bool {
	m.c.mu.Lock()
	defer m.c.mu.Unlock()
	if m.w || m.want > 0 {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	m.c.mu.Lock()
	if m.r == 0 {
		m.c.mu.Unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	m.c.wake()
	m.c.mu.Unlock()
	vsched.P()
}

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc, OnceValue and OnceValues.
func OnceFunc(f func()) func() { var o Once; return func() { o.Do(f) } }
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}
