// Package ants stands in for github.com/panjf2000/ants/v2 in the controlled
// builds: the same goroutine pool contract (capacity, non-blocking mode, panic
// isolation) with a fresh goroutine per task, so that every task belongs to the
// execution that submitted it.
package ants

import (
	"errors"
	"fmt"
	"os"
	"runtime/debug"
	"sync"
	"time"

	"verif/sched"
)

var (
	ErrInvalidPoolSize   = errors.New("invalid size for pool")
	ErrLackPoolFunc      = errors.New("must provide function for pool")
	ErrInvalidPoolExpiry = errors.New("invalid expiry for pool")
	ErrPoolClosed        = errors.New("this pool has been closed")
	ErrPoolOverload      = errors.New("too many goroutines blocked on submit or Nonblocking is set")
)

// Logger is used for logging formatted messages.
type Logger interface {
	Printf(format string, args ...interface{})
}

type Option func(opts *Options)

type Options struct {
	ExpiryDuration   time.Duration
	PreAlloc         bool
	MaxBlockingTasks int
	Nonblocking      bool
	PanicHandler     func(interface{})
	Logger           Logger
}

func WithOptions(o Options) Option                { return func(p *Options) { *p = o } }
func WithExpiryDuration(d time.Duration) Option   { return func(p *Options) { p.ExpiryDuration = d } }
func WithPreAlloc(b bool) Option                  { return func(p *Options) { p.PreAlloc = b } }
func WithMaxBlockingTasks(n int) Option           { return func(p *Options) { p.MaxBlockingTasks = n } }
func WithNonblocking(b bool) Option               { return func(p *Options) { p.Nonblocking = b } }
func WithPanicHandler(f func(interface{})) Option { return func(p *Options) { p.PanicHandler = f } }
func WithLogger(l Logger) Option                  { return func(p *Options) { p.Logger = l } }

// Pool runs tasks on goroutines, at most its capacity at once.
type Pool struct {
	mu      sync.Mutex
	cap     int
	running int
	waiting int
	closed  bool
	gen     int64
	opts    Options
}

// NewPool creates a pool; a size <= 0 means unlimited.
func NewPool(size int, options ...Option) (*Pool, error) {
	p := &Pool{cap: size}
	for _, o := range options {
		o(&p.opts)
	}
	if size <= 0 {
		p.cap = -1
		if p.opts.PreAlloc {
			return nil, ErrInvalidPoolSize
		}
	}
	return p, nil
}

func (p *Pool) take() (ok bool, err error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	// A controlled execution that ended early must not hold the pool's slots.
	if g := sched.Generation(); g != p.gen {
		p.gen, p.running, p.waiting = g, 0, 0
	}
	if p.closed {
		return false, ErrPoolClosed
	}
	if p.cap < 0 || p.running < p.cap {
		p.running++
		return true, nil
	}
	if p.opts.Nonblocking || (p.opts.MaxBlockingTasks > 0 && p.waiting >= p.opts.MaxBlockingTasks) {
		return false, ErrPoolOverload
	}
	return false, nil
}

// Submit runs the task, waiting for a free worker if necessary.
func (p *Pool) Submit(task func()) error {
	ok, err := p.take()
	if err != nil {
		return err
	}
	for !ok {
		p.mu.Lock()
		p.waiting++
		p.mu.Unlock()
		sched.BlockUntil(func() bool {
			p.mu.Lock()
			defer p.mu.Unlock()
			return p.closed || p.cap < 0 || p.running < p.cap
		})
		p.mu.Lock()
		p.waiting--
		p.mu.Unlock()
		if ok, err = p.take(); err != nil {
			return err
		}
	}
	gen := sched.Generation()
	go func() {
		defer func() {
			p.mu.Lock()
			if p.gen == gen {
				p.running--
			}
			p.mu.Unlock()
			if r := recover(); r != nil {
				if h := p.opts.PanicHandler; h != nil {
					h(r)
					return
				}
				if os.Getenv("VERIF_VERBOSE") != "" {
					fmt.Fprintf(os.Stderr, "worker exits from a panic: %v\n%s\n", r, debug.Stack())
				}
			}
		}()
		task()
	}()
	return nil
}

func (p *Pool) Running() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.running
}
func (p *Pool) Cap() int { p.mu.Lock(); defer p.mu.Unlock(); return p.cap }
func (p *Pool) Free() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.cap < 0 {
		return -1
	}
	return p.cap - p.running
}
func (p *Pool) Waiting() int { p.mu.Lock(); defer p.mu.Unlock(); return p.waiting }
func (p *Pool) Tune(size int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if size > 0 && p.cap > 0 {
		p.cap = size
	}
}
func (p *Pool) IsClosed() bool { p.mu.Lock(); defer p.mu.Unlock(); return p.closed }
func (p *Pool) Release()       { p.mu.Lock(); p.closed = true; p.mu.Unlock() }
func (p *Pool) Reboot()        { p.mu.Lock(); p.closed = false; p.mu.Unlock() }

// PoolWithFunc runs one function on many arguments.
type PoolWithFunc struct {
	*Pool
	f func(interface{})
}

func NewPoolWithFunc(size int, f func(interface{}), options ...Option) (*PoolWithFunc, error) {
	if f == nil {
		return nil, ErrLackPoolFunc
	}
	p, err := NewPool(size, options...)
	if err != nil {
		return nil, err
	}
	return &PoolWithFunc{p, f}, nil
}

// Invoke submits one argument.
func (p *PoolWithFunc) Invoke(arg interface{}) error {
	return p.Pool.Submit(func() { p.f(arg) })
}

const DefaultAntsPoolSize = 1<<31 - 1

var defaultPool, _ = NewPool(DefaultAntsPoolSize)

func Submit(task func()) error { return defaultPool.Submit(task) }
func Running() int             { return defaultPool.Running() }
func Cap() int                 { return defaultPool.Cap() }
func Free() int                { return defaultPool.Free() }
func Release()                 { defaultPool.Release() }
func Reboot()                  { defaultPool.Reboot() }
