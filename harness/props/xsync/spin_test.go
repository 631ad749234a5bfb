package xsync

import (
	"fmt"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/chenquan/go-pkg/xsync"
	"pgregory.net/rapid"
	"verif/core"
	"verif/sched"
)

// LOp takes the lock (or tries to), holds it and gives it back.
type LOp struct {
	Try   bool `json:",omitempty"`
	Hold  int  `json:",omitempty"`
	Probe bool `json:",omitempty"` // while holding, have another caller try
}

// LCase is a concurrent program over one spinlock.
type LCase struct {
	Plan    sched.Plan
	Threads [][]LOp
	By      bool `json:",omitempty"` // another lock is held all the time
}

type lEvent struct {
	op        string // lock, try, unlock
	ok        bool
	call, ret int64
	who       int
}

var lModel = porcupine.Model{
	Init: func() interface{} { return false },
	Step: func(st, in, _ interface{}) (bool, interface{}) {
		held, e := st.(bool), in.(lEvent)
		switch {
		case e.op == "unlock":
			return held, false
		case e.op == "try" && !e.ok:
			return held, held
		}
		return !held, true
	},
}

func runSpin(t *testing.T, c LCase, r *core.Rec) error {
	free := c.Plan.Mode == "free"
	nt := len(c.Threads)
	evs := make([][]lEvent, 2*nt)
	in := make([]string, nt)   // what each thread is inside of (controlled runs only)
	since := make([]int64, nt) // and since which step
	inProbe, probeSince := false, int64(0)
	holder, freeSince := -1, int64(0)
	steps := func() int64 { return 0 }
	var lock, other xsync.Spinlock
	shared := 0 // protected by lock
	var order []int
	acquired := make([]int, nt)
	violated := ""
	decided, err := core.Concurrent(t, c.Plan, r, func(ctl *sched.Ctl) {
		steps = ctl.Steps
		if c.By {
			other.Lock()
		}
		done := make(chan struct{}, nt)
		for i := range c.Threads {
			i := i
			ctl.Go(fmt.Sprint("T", i), func() {
				defer func() { done <- struct{}{} }()
				for _, o := range c.Threads[i] {
					call := ctl.Now()
					got := true
					if !free {
						since[i] = ctl.Steps()
						in[i] = "lock"
						if o.Try {
							in[i] = "try"
						}
					}
					op := "lock"
					if o.Try {
						got, op = lock.TryLock(), "try"
					} else {
						lock.Lock()
					}
					evs[i] = append(evs[i], lEvent{op, got, call, ctl.Now(), i})
					if !free {
						in[i] = ""
					}
					if !got {
						continue
					}
					acquired[i]++
					if !free {
						if holder >= 0 {
							violated = fmt.Sprintf("threads %d and %d hold the lock at once", holder, i)
						}
						holder = i
					}
					before := shared
					for j := 0; j < o.Hold; j++ {
						ctl.Point()
					}
					shared = before + 1
					order = append(order, i)
					if o.Probe {
						res := make(chan bool, 1)
						if !free {
							inProbe, probeSince = true, ctl.Steps()
						}
						pc := ctl.Now()
						ctl.Go("probe", func() { res <- lock.TryLock() })
						ok := <-res
						if !free {
							inProbe = false
						}
						evs[nt+i] = append(evs[nt+i], lEvent{"try", ok, pc, ctl.Now(), nt + i})
						if ok {
							violated = "a try-lock succeeded while the lock was held"
						}
					}
					if !free {
						holder = -1
						freeSince = ctl.Steps()
					}
					call = ctl.Now()
					lock.Unlock()
					evs[i] = append(evs[i], lEvent{"unlock", true, call, ctl.Now(), i})
				}
			})
		}
		for range c.Threads {
			<-done
		}
		// Everyone has given the lock back: it must be free.
		call := ctl.Now()
		if lock.TryLock() {
			evs[0] = append(evs[0], lEvent{"try", true, call, ctl.Now(), 0})
		} else {
			violated = "a try-lock of the free lock failed"
		}
		if c.By {
			if other.TryLock() {
				violated = "another lock, held all the time, was given away"
			}
			other.Unlock()
			if !other.TryLock() {
				violated = "another lock, given back, is not free"
			}
		}
	})
	if violated != "" {
		return fmt.Errorf("%s", violated)
	}
	if err != nil {
		return err
	}
	const patience = 30000
	if !decided {
		now := steps()
		if inProbe && now-probeSince > patience {
			return fmt.Errorf("a try-lock did not return within %d steps while the lock was held", now-probeSince)
		}
		for i := range in {
			if in[i] == "try" && now-since[i] > patience {
				return fmt.Errorf("a try-lock did not return within %d steps", now-since[i])
			}
			from := since[i]
			if freeSince > from {
				from = freeSince
			}
			if in[i] == "lock" && holder < 0 && now-from > patience {
				return fmt.Errorf("thread %d did not get the free lock within %d steps", i, now-from)
			}
		}
		return nil
	}
	total, overlap := 0, 0
	var ops []porcupine.Operation
	var all []lEvent
	for i, l := range evs {
		if i < nt {
			total += acquired[i]
		}
		for _, e := range l {
			for _, f := range all {
				if f.who != e.who && e.call < f.ret && f.call < e.ret {
					overlap++
				}
			}
			all = append(all, e)
			ops = append(ops, porcupine.Operation{ClientId: e.who, Input: e, Call: e.call, Return: e.ret})
		}
	}
	if shared != total || len(order) != total {
		return fmt.Errorf("%d critical sections left %d updates", total, shared)
	}
	switch porcupine.CheckOperationsTimeout(lModel, ops, 4*time.Second) {
	case porcupine.Unknown:
		r.Inconclusive("linearizability")
		return nil
	case porcupine.Illegal:
		return fmt.Errorf("no one-at-a-time order explains the lock calls: %+v", all)
	}
	r.NonTrivial(nt >= 2 && overlap >= 2)
	r.LabelIf(overlap >= 2, "overlapping calls")
	return nil
}

func genSpin(t *rapid.T, free bool) LCase {
	c := LCase{Plan: core.Free}
	if !free {
		c.Plan = core.Plan(t)
	}
	nt := rapid.IntRange(1, 4).Draw(t, "threads")
	for i := 0; i < nt; i++ {
		var th []LOp
		for j, n := 0, rapid.IntRange(1, 4).Draw(t, "len"); j < n; j++ {
			o := LOp{Try: rapid.IntRange(0, 2).Draw(t, "try") == 2, Probe: rapid.IntRange(0, 5).Draw(t, "probe") == 5}
			if rapid.IntRange(0, 9).Draw(t, "long") == 9 {
				o.Hold = rapid.IntRange(0, 300).Draw(t, "hold")
			} else {
				o.Hold = rapid.IntRange(0, 6).Draw(t, "hold")
			}
			th = append(th, o)
		}
		c.Threads = append(c.Threads, th)
	}
	c.By = rapid.IntRange(0, 3).Draw(t, "by") == 3
	return c
}

const spinRule = "1-4 threads of 1-4 lock or try-lock calls with short and long critical sections, some of which have another caller try meanwhile; the calls must be linearizable against a lock, critical sections exclusive, updates made inside complete; non-trivial: two or more threads with overlapping calls"

func TestC06_S_Exclusion(t *testing.T) {
	core.Check(t, core.Prop[LCase]{
		Rule:  "controlled interleavings: " + spinRule,
		Quick: 20000, Thorough: 600000,
		Gen: func(t *rapid.T) LCase { return genSpin(t, false) },
		Run: runSpin,
	})
}

func TestC06_R_Exclusion(t *testing.T) {
	core.Check(t, core.Prop[LCase]{
		Rule:  "real parallelism under the race detector (plain writes inside the critical sections): " + spinRule,
		Quick: 6000, Thorough: 150000,
		Gen: func(t *rapid.T) LCase { return genSpin(t, true) },
		Run: runSpin,
	})
}
