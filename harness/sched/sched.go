// Package sched runs instrumented code under a deterministic cooperative
// scheduler. The code under test is rebuilt with a call to Y inserted before
// every statement (and before every atomic or lock operation); while a
// controller is active each Y parks the calling goroutine, and the controller
// releases one parked goroutine at a time. Blocking operations on channels,
// contexts and wait groups are the real ones: testing/synctest tells the
// controller when every goroutine is parked or blocked.
package sched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
	_ "unsafe" // linkname
)

// Plan selects the interleaving. It is plain data so that it can be generated,
// shrunk and replayed.
type Plan struct {
	Mode string   `json:"mode"`           // "walk", "pct", "pre"; "free": uncontrolled, only waiting is observed
	Seed uint64   `json:"seed,omitempty"` // walk, pct
	D    int      `json:"d,omitempty"`    // pct: number of priority change points
	Pre  []Switch `json:"pre,omitempty"`  // pre: preemptions
}

// Switch forces a change of goroutine after Gap further steps.
type Switch struct {
	Gap  int `json:"gap"`
	Pick int `json:"pick"`
}

// Result describes one controlled execution.
type Result struct {
	Steps    int
	Switches int
	Threads  int
	Deadlock string // a registered thread can never finish
	Leaked   bool   // everything registered finished but some goroutine stays blocked
	Panics   []string
	Instr    bool // at least one instrumented scheduling point was hit
}

type waiter struct {
	g     uintptr
	ch    chan struct{}
	ready func() bool // nil: always
	idle  bool        // only when nothing else is enabled
}

// Ctl controls one execution.
type Ctl struct {
	mu      sync.Mutex
	parked  []*waiter
	nextID  int
	live    int
	panics  []string
	names   map[string]int
	clock   atomic.Int64
	instr   atomic.Bool
	stopped atomic.Bool
	free    bool
	kick    chan struct{}
	steps   atomic.Int64
}

var cur atomic.Pointer[Ctl]

var generation atomic.Int64

// Generation numbers the controlled executions.
func Generation() int64 { return generation.Load() }

// Active reports whether a controller is running.
func Active() bool { return cur.Load() != nil }

// Y is a scheduling point.
func Y() {
	c := cur.Load()
	if c == nil || c.free || c.stopped.Load() {
		return
	}
	if !c.instr.Load() {
		c.instr.Store(true)
	}
	c.park(nil, false)
}

// Point is a scheduling point in harness code.
func (c *Ctl) Point() {
	if c.free {
		runtime.Gosched()
		return
	}
	if c.stopped.Load() {
		return
	}
	c.park(nil, false)
}

// Steps is the number of steps taken so far.
func (c *Ctl) Steps() int64 { return c.steps.Load() }

// getg identifies the calling goroutine (implemented in assembly).
func getg() uintptr

func (c *Ctl) park(ready func() bool, idle bool) {
	w := &waiter{g: getg(), ch: make(chan struct{}), ready: ready, idle: idle}
	c.mu.Lock()
	c.nextID++
	c.parked = append(c.parked, w)
	c.mu.Unlock()
	select {
	case c.kick <- struct{}{}:
	default:
	}
	<-w.ch
}

// BlockUntil parks the caller until ready() holds; ready is evaluated while
// nothing else runs. Without a controller it spins politely.
func BlockUntil(ready func() bool) {
	c := cur.Load()
	if c == nil || c.stopped.Load() {
		for !ready() {
			runtime.Gosched()
		}
		return
	}
	c.park(ready, false)
}

// WaitIdle parks the calling thread until nothing else in the execution can
// take a step.
func (c *Ctl) WaitIdle() { c.park(nil, true) }

// Now returns a time stamp for ordering events. In free mode it reads the
// processor's clock, which orders nothing in the eyes of the race detector.
func (c *Ctl) Now() int64 {
	if c.free {
		return nanotime()
	}
	return c.clock.Add(1)
}

//go:linkname nanotime runtime.nanotime
func nanotime() int64

// Go starts a registered thread: the execution is deadlocked if it cannot end.
func (c *Ctl) Go(name string, f func()) {
	c.mu.Lock()
	c.live++
	c.names[name]++
	c.mu.Unlock()
	go func() {
		defer func() {
			if r := recover(); r != nil {
				c.mu.Lock()
				c.panics = append(c.panics, fmt.Sprintf("thread %s: panic: %v\n%s", name, r, debug.Stack()))
				c.mu.Unlock()
			}
			c.mu.Lock()
			c.live--
			if c.names[name]--; c.names[name] == 0 {
				delete(c.names, name)
			}
			c.mu.Unlock()
		}()
		if !c.free {
			c.park(nil, false)
		}
		f()
	}()
}

type rng uint64

func (r *rng) next() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// MaxSteps is far above what any case needs. After that many steps the
// goroutines run in fair turns, and if that does not end either, one of them
// loops for ever.
const MaxSteps = 60000

// Run executes body (as the first registered thread) under plan.
func Run(t *testing.T, plan Plan, body func(c *Ctl)) (res Result) {
	c := &Ctl{names: map[string]int{}, free: plan.Mode == "free"}
	if !cur.CompareAndSwap(nil, c) {
		panic("sched: nested controllers")
	}
	generation.Add(1)
	finished := false
	defer func() {
		r := recover()
		c.stopped.Store(true)
		cur.Store(nil)
		c.mu.Lock()
		res.Panics = append([]string(nil), c.panics...)
		c.mu.Unlock()
		res.Instr = c.instr.Load()
		if r != nil {
			s := fmt.Sprint(r)
			switch {
			case s == "deadlock: main bubble goroutine has exited but blocked goroutines remain":
				if finished {
					res.Leaked = true
				}
			default:
				panic(r)
			}
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		c.kick = make(chan struct{}, 1)
		c.Go("main", func() { body(c) })
		if c.free {
			c.observe(&res)
		} else {
			c.loop(plan, &res)
		}
		finished = res.Deadlock == ""
	})
	return
}

func (c *Ctl) loop(plan Plan, res *Result) {
	r := rng(plan.Seed)
	prio := map[uintptr]uint64{}
	seen := map[uintptr]bool{}
	var last uintptr
	ran := map[uintptr]int{}
	late := false
	sameRun, choice := 0, 0
	preIdx, gap := 0, -1
	if plan.Mode == "pre" && len(plan.Pre) > 0 {
		gap = plan.Pre[0].Gap
	}
	change := map[int]bool{}
	if plan.Mode == "pct" {
		span := []uint64{25, 80, 250}[plan.Seed%3]
		for i := 0; i < plan.D; i++ {
			change[int(r.next()%span)] = true
		}
	}
	low := uint64(1 << 20)
	var en []int
	for {
		synctest.Wait()
		c.mu.Lock()
		live, nparked := c.live, len(c.parked)
		en = en[:0]
		idleStep := false
		for i, w := range c.parked {
			if !w.idle && (w.ready == nil || w.ready()) {
				en = append(en, i)
			}
		}
		if len(en) == 0 {
			for i, w := range c.parked {
				if w.idle {
					en = append(en, i)
					idleStep = true
					break
				}
			}
		}
		nid := c.nextID
		c.mu.Unlock()
		if idleStep || len(en) == 0 {
			if live == 0 && nparked == 0 {
				return
			}
			// Let pending timers of the fake clock fire before declaring
			// idleness, one instant at a time.
			c.passTime()
			c.mu.Lock()
			changed := c.nextID != nid || c.live != live
			c.mu.Unlock()
			if changed {
				continue
			}
		}
		if len(en) == 0 {
			c.mu.Lock()
			if live > 0 {
				res.Deadlock = fmt.Sprintf("threads can never finish: %v", c.names)
			} else {
				res.Deadlock = "internal goroutines wait for a lock forever"
			}
			c.mu.Unlock()
			return
		}
		if res.Steps >= 6*MaxSteps {
			c.mu.Lock()
			res.Deadlock = fmt.Sprintf("endless loop: running for %d steps, at last in fair turns and with time passing: %v", res.Steps, c.names)
			c.mu.Unlock()
			return
		}
		fair := res.Steps >= MaxSteps
		if fair && res.Steps%1000 == 0 && !late {
			late = true
			c.passTime()
			continue
		}
		late = false
		pick, curPos := 0, -1
		for k, i := range en {
			if c.parked[i].g == last {
				curPos = k
			}
		}
		// Only steps at which there is a choice count.
		if len(en) > 1 {
			choice++
		}
		mode := plan.Mode
		if fair {
			mode = "fair"
		}
		switch mode {
		case "fair":
			for k, i := range en {
				if ran[c.parked[i].g] < ran[c.parked[en[pick]].g] {
					pick = k
				}
			}
		case "pct":
			if len(en) > 1 && change[choice] && curPos >= 0 {
				low--
				prio[last] = low
			}
			best := uint64(0)
			for k, i := range en {
				g := c.parked[i].g
				if _, ok := prio[g]; !ok {
					prio[g] = (1 << 30) + r.next()%(1<<30)
				}
				if prio[g] >= best {
					best, pick = prio[g], k
				}
			}
			if sameRun > 300 && len(en) > 1 {
				low--
				prio[c.parked[en[pick]].g] = low
				sameRun = 0
			}
		case "pre":
			if curPos >= 0 {
				pick = curPos
			}
			if len(en) == 1 {
				break
			}
			if gap == 0 {
				pick = (pick + 1 + abs(plan.Pre[preIdx].Pick)%(len(en)-1)) % len(en)
				preIdx++
				gap = -1
				if preIdx < len(plan.Pre) {
					gap = plan.Pre[preIdx].Gap
				}
			} else if gap > 0 {
				gap--
			}
			if sameRun > 300 && len(en) > 1 {
				pick = (pick + 1) % len(en)
				sameRun = 0
			}
		default:
			pick = int(r.next() % uint64(len(en)))
		}
		res.Steps++
		c.steps.Store(int64(res.Steps))
		idx := en[pick]
		c.mu.Lock()
		w := c.parked[idx]
		copy(c.parked[idx:], c.parked[idx+1:])
		c.parked = c.parked[:len(c.parked)-1]
		c.mu.Unlock()
		if fair {
			ran[w.g] = res.Steps
		}
		if w.g != last {
			res.Switches++
			sameRun = 0
			last = w.g
		} else {
			sameRun++
		}
		if !seen[w.g] {
			seen[w.g] = true
			res.Threads++
		}
		close(w.ch)
	}
}

// passTime advances the fake clock until a timer makes someone park again, or
// by an hour.
func (c *Ctl) passTime() {
	select {
	case <-c.kick:
	default:
	}
	tm := time.NewTimer(time.Hour)
	select {
	case <-c.kick:
	case <-tm.C:
	}
	tm.Stop()
	synctest.Wait()
}

// observe lets everything run freely and only releases explicit waits.
func (c *Ctl) observe(res *Result) {
	for {
		synctest.Wait()
		c.mu.Lock()
		live := c.live
		var keep, idle, rel []*waiter
		for _, w := range c.parked {
			switch {
			case w.idle:
				idle = append(idle, w)
			case w.ready == nil || w.ready():
				rel = append(rel, w)
			default:
				keep = append(keep, w)
			}
		}
		nid := c.nextID
		if len(rel) > 0 {
			c.parked = append(keep, idle...)
		}
		c.mu.Unlock()
		if len(rel) == 0 {
			if live == 0 && len(keep) == 0 && len(idle) == 0 {
				return
			}
			c.passTime()
			c.mu.Lock()
			changed := c.nextID != nid || c.live != live
			if !changed && len(idle) > 0 {
				rel = idle[:1]
				c.parked = append(keep, idle[1:]...)
			}
			c.mu.Unlock()
			if changed {
				continue
			}
		}
		if len(rel) == 0 {
			res.Deadlock = fmt.Sprintf("threads can never finish: %v", c.names)
			return
		}
		for _, w := range rel {
			close(w.ch)
		}
	}
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// V is a scheduling point between the read and the write of an operation
// assignment.
func V[T any](v T) T { Y(); return v }
