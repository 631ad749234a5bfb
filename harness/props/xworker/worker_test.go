package xworker

import (
	"context"
	"fmt"
	"sync/atomic"
	"testing"
	"time"

	"github.com/chenquan/go-pkg/xworker"
	"pgregory.net/rapid"
	"verif/core"
	"verif/sched"
)

// Task is one submission.
type Task struct {
	Ctx     string // background, done, cancel, deadline
	At      int    `json:",omitempty"` // when the context ends, in ticks after the submission
	Points  int    `json:",omitempty"` // scheduling points of the task
	Sleep   int    `json:",omitempty"`
	Outlive bool   `json:",omitempty"` // waits for the end of everything (cancelled tasks only)
	CPoints int    `json:",omitempty"` // scheduling points of the cleanup
	CSleep  int    `json:",omitempty"`
}

// Case is a program over one worker.
type Case struct {
	Plan   sched.Plan
	Size   int
	Meet   bool // the first Size tasks wait for each other
	Submit [][]Task
	By     int `json:",omitempty"` // another worker of that size is busy all the time
}

const tick = 10 * time.Millisecond

type trace struct {
	runs, cleanups       int32
	runEnd, cleanupStart int64
	started              int64
	already              bool
	cancelled            bool
}

func run(t *testing.T, c Case, r *core.Rec) error {
	var traces [][]*trace
	for _, s := range c.Submit {
		l := make([]*trace, len(s))
		for i := range l {
			l[i] = &trace{}
		}
		traces = append(traces, l)
	}
	plain := true // no context ever ends
	for _, s := range c.Submit {
		for _, k := range s {
			plain = plain && k.Ctx == "background"
		}
	}
	var inProgress, maxProgress, returned, cleaned, over int32
	var waited atomic.Bool
	lateErr := ""
	decided, err := core.Concurrent(t, c.Plan, r, func(ctl *sched.Ctl) {
		w := xworker.NewWorker(c.Size)
		release := make(chan struct{})
		freed := make(chan struct{})
		var others, othersGone int32
		if c.By > 0 {
			other := xworker.NewWorker(c.By)
			for i := 0; i < c.By; i++ {
				other.Run(context.Background(), func() { atomic.AddInt32(&others, 1); <-freed }, func() { atomic.AddInt32(&othersGone, 1) })
			}
		}
		// meet submits Size tasks that all wait for each other.
		meet := func() {
			var n int32
			all := make(chan struct{})
			gone := make(chan struct{}, c.Size)
			for i := 0; i < c.Size; i++ {
				w.Run(context.Background(), func() {
					if atomic.AddInt32(&n, 1) == int32(c.Size) {
						close(all)
					}
					<-all
				}, func() { gone <- struct{}{} })
			}
			for i := 0; i < c.Size; i++ {
				<-gone
			}
		}
		if c.Meet {
			meet()
		}
		done := make(chan struct{}, len(c.Submit))
		for si := range c.Submit {
			si := si
			ctl.Go(fmt.Sprint("S", si), func() {
				for ti, k := range c.Submit[si] {
					k, tr := k, traces[si][ti]
					ctx := context.Background()
					switch k.Ctx {
					case "done":
						cc, cancel := context.WithCancel(ctx)
						cancel()
						ctx, tr.already, tr.cancelled = cc, true, true
					case "cancel":
						cc, cancel := context.WithCancel(ctx)
						ctx, tr.cancelled = cc, true
						ctl.Go("cancel", func() { time.Sleep(time.Duration(k.At) * tick); cancel() })
					case "deadline":
						cc, cancel := context.WithTimeout(ctx, time.Duration(k.At)*tick)
						ctx, tr.cancelled = cc, true
						ctl.Go("late", func() { <-release; cancel() })
					}
					if tr.cancelled && ctx.Err() != nil {
						tr.already = true
					}
					w.Run(ctx, func() {
						atomic.AddInt32(&tr.runs, 1)
						n := atomic.AddInt32(&inProgress, 1)
						for {
							m := atomic.LoadInt32(&maxProgress)
							if n <= m || atomic.CompareAndSwapInt32(&maxProgress, m, n) {
								break
							}
						}
						for i := 0; i < k.Points; i++ {
							ctl.Point()
						}
						if k.Sleep > 0 {
							time.Sleep(time.Duration(k.Sleep) * tick)
						}
						if k.Outlive && tr.cancelled {
							<-release
						}
						atomic.StoreInt64(&tr.runEnd, ctl.Now())
					}, func() {
						atomic.CompareAndSwapInt64(&tr.cleanupStart, 0, ctl.Now())
						for i := 0; i < k.CPoints; i++ {
							ctl.Point()
						}
						if k.CSleep > 0 {
							time.Sleep(time.Duration(k.CSleep) * tick)
						}
						if plain {
							atomic.AddInt32(&inProgress, -1)
						}
						atomic.AddInt32(&cleaned, 1)
						atomic.AddInt32(&tr.cleanups, 1)
					})
					if n := atomic.AddInt32(&returned, 1) - atomic.LoadInt32(&cleaned); n > int32(c.Size) {
						atomic.StoreInt32(&over, n)
					} else if n == int32(c.Size) {
						waited.Store(true)
					}
				}
				done <- struct{}{}
			})
		}
		for range c.Submit {
			<-done
		}
		ctl.WaitIdle()
		// Outlasting tasks of cancelled contexts still run, yet every slot is
		// free again: Size tasks can meet once more.
		total := int32(0)
		for _, s := range c.Submit {
			total += int32(len(s))
		}
		if n := atomic.LoadInt32(&cleaned); n != total {
			lateErr = fmt.Sprintf("%d of %d submissions were cleaned up although everything is idle", n, total)
		}
		meet()
		close(release)
		ctl.WaitIdle()
		if n, gone := atomic.LoadInt32(&others), atomic.LoadInt32(&othersGone); lateErr == "" && (int(n) != c.By || gone != 0) {
			lateErr = fmt.Sprintf("%d of %d tasks of another worker were started and %d cleaned up before they ended", n, c.By, gone)
		}
		close(freed)
		ctl.WaitIdle()
		if gone := atomic.LoadInt32(&othersGone); lateErr == "" && int(gone) != c.By {
			lateErr = fmt.Sprintf("%d of %d tasks of another worker were cleaned up", gone, c.By)
		}
	})
	if lateErr != "" {
		return fmt.Errorf("%s", lateErr)
	}
	if err != nil || !decided {
		return err
	}
	if n := over; n > 0 {
		return fmt.Errorf("%d submissions were accepted and not yet cleaned up with %d slots", n, c.Size)
	}
	if plain && maxProgress > int32(c.Size) {
		return fmt.Errorf("%d tasks in progress with size %d", maxProgress, c.Size)
	}
	n := 0
	for si, l := range traces {
		for ti, tr := range l {
			n++
			if tr.cleanups != 1 {
				return fmt.Errorf("submission %d/%d was cleaned up %d times", si, ti, tr.cleanups)
			}
			if tr.already && tr.runs != 0 {
				return fmt.Errorf("submission %d/%d ran although its context was done", si, ti)
			}
			if tr.runs > 1 || !tr.cancelled && tr.runs != 1 {
				return fmt.Errorf("submission %d/%d ran %d times", si, ti, tr.runs)
			}
			if !tr.cancelled && tr.cleanupStart < tr.runEnd {
				return fmt.Errorf("submission %d/%d was cleaned up before it ended", si, ti)
			}
		}
	}
	r.NonTrivial(n > c.Size && waited.Load())
	r.LabelIf(waited.Load(), "all slots taken")
	r.LabelIf(!plain, "with cancellations")
	return nil
}

func gen(t *rapid.T, free bool) Case {
	c := Case{Plan: core.Free}
	if !free {
		c.Plan = core.Plan(t)
	}
	c.Size = core.Int(t, "xworker", 1, 5, "size")
	c.Meet = rapid.Bool().Draw(t, "meet")
	if free && core.Uni(t, 0, 150, "wide") == 7 {
		// many slots
		c.Size = core.LongSize(t, "xworker", 1500, "size")
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "submitters"); i < n; i++ {
			l := make([]Task, core.Uni2(t, 1, c.Size, "tasks"))
			for k := range l {
				l[k].Ctx = "background"
				l[k].Sleep = k % 3
			}
			c.Submit = append(c.Submit, l)
		}
		return c
	}
	if rapid.IntRange(0, 3).Draw(t, "by") == 3 {
		c.By = rapid.IntRange(1, 3).Draw(t, "by size")
		if rapid.Bool().Draw(t, "alike") {
			c.By = c.Size
		}
	}
	plain := rapid.IntRange(0, 2).Draw(t, "plain") < 2
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "submitters"); i < n; i++ {
		var l []Task
		for j, m := 0, rapid.IntRange(1, 6).Draw(t, "tasks"); j < m; j++ {
			k := Task{Ctx: "background",
				Points:  rapid.IntRange(0, 4).Draw(t, "points"),
				Sleep:   max(0, rapid.IntRange(-3, 3).Draw(t, "sleep")),
				CPoints: rapid.IntRange(0, 3).Draw(t, "cp"),
				CSleep:  max(0, rapid.IntRange(-5, 2).Draw(t, "cs")),
			}
			if !plain {
				k.Ctx = rapid.SampledFrom([]string{"background", "done", "cancel", "cancel", "deadline"}).Draw(t, "ctx")
				k.At = rapid.IntRange(0, 4).Draw(t, "at")
				k.Outlive = rapid.Bool().Draw(t, "outlive")
			}
			l = append(l, k)
		}
		c.Submit = append(c.Submit, l)
	}
	return c
}

const rule = "1-3 submitters of 1-6 tasks each to a worker of size 1-5 (rarely up to 1500, with as many tasks), tasks and cleanups of drawn length, contexts never ending, done, cancelled or expiring, tasks outliving their cancellation; progress, accepted submissions, runs and cleanups counted, and size-many tasks must be able to meet before and after; non-trivial: more tasks than slots and all slots taken at some point"

func TestC12_S_Slots(t *testing.T) {
	core.Check(t, core.Prop[Case]{
		Rule:  "controlled interleavings: " + rule,
		Quick: 20000, Thorough: 500000,
		Gen: func(t *rapid.T) Case { return gen(t, false) }, Run: run,
	})
}

func TestC12_R_Slots(t *testing.T) {
	core.Check(t, core.Prop[Case]{
		Rule:  "real parallelism under the race detector: " + rule,
		Quick: 5000, Thorough: 100000,
		Gen: func(t *rapid.T) Case { return gen(t, true) }, Run: run,
	})
}
