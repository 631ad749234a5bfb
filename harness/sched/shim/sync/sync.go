// Package sync stands in for the standard package in instrumented builds:
// locks are modelled on top of the controller's scheduling points so that a
// goroutine may be preempted while holding one.
package sync

import (
	"sync"
	"sync/atomic"

	"verif/sched"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Map       = sync.Map
)

// Mutex is a scheduler-aware mutex.
type Mutex struct{ state int32 }

func (m *Mutex) TryLock() bool {
	sched.Y()
	return atomic.CompareAndSwapInt32(&m.state, 0, 1)
}

func (m *Mutex) Lock() {
	sched.Y()
	for !atomic.CompareAndSwapInt32(&m.state, 0, 1) {
		sched.BlockUntil(func() bool { return atomic.LoadInt32(&m.state) == 0 })
	}
}

func (m *Mutex) Unlock() {
	if !atomic.CompareAndSwapInt32(&m.state, 1, 0) {
		panic("sync: unlock of unlocked mutex")
	}
}

// RWMutex is a scheduler-aware read-write mutex: -1 write locked, n readers.
type RWMutex struct {
	state   int32
	waiting int32
}

func (m *RWMutex) TryLock() bool {
	sched.Y()
	return atomic.CompareAndSwapInt32(&m.state, 0, -1)
}

func (m *RWMutex) Lock() {
	sched.Y()
	atomic.AddInt32(&m.waiting, 1)
	for !atomic.CompareAndSwapInt32(&m.state, 0, -1) {
		sched.BlockUntil(func() bool { return atomic.LoadInt32(&m.state) == 0 })
	}
	atomic.AddInt32(&m.waiting, -1)
}

func (m *RWMutex) Unlock() {
	if !atomic.CompareAndSwapInt32(&m.state, -1, 0) {
		panic("sync: Unlock of unlocked RWMutex")
	}
}

func (m *RWMutex) TryRLock() bool {
	sched.Y()
	for {
		s := atomic.LoadInt32(&m.state)
		if s < 0 || atomic.LoadInt32(&m.waiting) > 0 {
			return false
		}
		if atomic.CompareAndSwapInt32(&m.state, s, s+1) {
			return true
		}
	}
}

func (m *RWMutex) RLock() {
	sched.Y()
	for {
		s := atomic.LoadInt32(&m.state)
		// A waiting writer keeps new readers out, as the real lock does.
		if s >= 0 && atomic.LoadInt32(&m.waiting) == 0 {
			if atomic.CompareAndSwapInt32(&m.state, s, s+1) {
				return
			}
			continue
		}
		sched.BlockUntil(func() bool {
			return atomic.LoadInt32(&m.state) >= 0 && atomic.LoadInt32(&m.waiting) == 0
		})
	}
}

func (m *RWMutex) RUnlock() {
	for {
		s := atomic.LoadInt32(&m.state)
		if s <= 0 {
			panic("sync: RUnlock of unlocked RWMutex")
		}
		if atomic.CompareAndSwapInt32(&m.state, s, s-1) {
			return
		}
	}
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is a scheduler-aware once.
type Once struct {
	done int32
	m    Mutex
}

func (o *Once) Do(f func()) {
	sched.Y()
	if atomic.LoadInt32(&o.done) == 1 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done == 0 {
		defer atomic.StoreInt32(&o.done, 1)
		f()
	}
}

// OnceFunc mirrors sync.OnceFunc for callbacks that do not panic.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue mirrors sync.OnceValue for callbacks that do not panic.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// Cond is a scheduler-aware condition variable.
type Cond struct {
	L    Locker
	tick int64
	wait []*int32
	mu   sync.Mutex
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	f := new(int32)
	c.mu.Lock()
	c.wait = append(c.wait, f)
	c.mu.Unlock()
	c.L.Unlock()
	sched.BlockUntil(func() bool { return atomic.LoadInt32(f) == 1 })
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.mu.Lock()
	if len(c.wait) > 0 {
		atomic.StoreInt32(c.wait[0], 1)
		c.wait = c.wait[1:]
	}
	c.mu.Unlock()
}

func (c *Cond) Broadcast() {
	c.mu.Lock()
	for _, f := range c.wait {
		atomic.StoreInt32(f, 1)
	}
	c.wait = nil
	c.mu.Unlock()
}

// Pool hands out what was put last in this execution, whoever put it; sync.Pool
// may do so too.
type Pool struct {
	New func() interface{}

	mu    sync.Mutex
	gen   int64
	items []interface{}
}

func (p *Pool) Get() interface{} {
	sched.Y()
	p.mu.Lock()
	if g := sched.Generation(); g != p.gen {
		p.gen, p.items = g, nil
	}
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	sched.Y()
	if x == nil {
		return
	}
	p.mu.Lock()
	if g := sched.Generation(); g != p.gen {
		p.gen, p.items = g, nil
	}
	p.items = append(p.items, x)
	p.mu.Unlock()
}
