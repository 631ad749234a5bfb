package xtask

import (
	"context"
	"errors"
	"fmt"
	"math"
	"strings"
	"testing"
	"time"

	"github.com/chenquan/go-pkg/xtask"
	"pgregory.net/rapid"
	"verif/core"
	"verif/sched"
)

const tick = 10 * time.Millisecond

// Call is one use of Do.
type Call struct {
	API    string        // do, nodefer, timeout
	Ctx    string        // background, cancel, deadline, done, expired, custom, shared
	At     int           // when the context ends, in ticks after the call (cancel, deadline, custom; timeout: the timeout)
	Far    time.Duration `json:",omitempty"` // instead of At: a timeout far away, or long gone
	Points int           `json:",omitempty"` // scheduling points before cancelling
	Delay  int           `json:",omitempty"` // ticks before the call
	Fn     Fn
	Defer  bool
	Slow   bool `json:",omitempty"` // the cleanup takes a while
}

// Fn is the behaviour of the function.
type Fn struct {
	Sleep  int
	Points int    `json:",omitempty"`
	Wait   string `json:",omitempty"` // ctx: also wait for the context; release: for the end of every call
	End    string // nil, err, panic
	Val    string `json:",omitempty"` // panic value: string, error, int, struct, pointer, runtime; error: "", canceled, deadline, wrapped, typed nil
}

// Case is a set of calls running concurrently.
type Case struct {
	Plan  sched.Plan
	Calls []Call
}

type payload struct {
	Name string
	Code int
}

type customErr struct{ n int }

func (e *customErr) Error() string { return fmt.Sprint("custom context error ", e.n) }

// custom is a context with an error of its own.
type custom struct {
	context.Context
	done chan struct{}
	err  error
}

func (c *custom) Done() <-chan struct{} { return c.done }
func (c *custom) Err() error {
	select {
	case <-c.done:
		return c.err
	default:
		return nil
	}
}

type outcome struct {
	err       error
	panicked  bool
	value     interface{}
	at        time.Duration // since the case began
	calledAt  time.Duration
	already   bool // context done before the call
	doneAtEnd bool
	ctxErr    error // of the context when the call returned
	cleanups  int   // when control returned

	starts     int
	ended      bool
	endedAt    time.Duration
	allCleanup int
	cancelAt   time.Duration
	cancelled  bool
}

func marker(i int) string { return fmt.Sprintf("marker-%d-%d", i, 7*i+5) }

func runDo(t *testing.T, c Case, r *core.Rec) error {
	outs := make([]*outcome, len(c.Calls))
	own := make([]error, len(c.Calls))
	early := ""
	decided, err := core.Concurrent(t, c.Plan, r, func(ctl *sched.Ctl) {
		start := time.Now()
		now := func() time.Duration { return time.Since(start) }
		release := make(chan struct{})
		sharedCtx, sharedCancel := context.WithCancel(context.Background())
		sharedAt := -1
		for _, cl := range c.Calls {
			if cl.Ctx == "shared" && cl.API != "timeout" && sharedAt < 0 {
				sharedAt = cl.At
			}
		}
		if sharedAt >= 0 {
			ctl.Go("cancel-shared", func() {
				time.Sleep(time.Duration(sharedAt) * tick)
				sharedCancel()
			})
		}
		cleanup := make([]func(), len(c.Calls))
		done := make(chan struct{}, len(c.Calls))
		for i := range c.Calls {
			i, cl := i, c.Calls[i]
			o := &outcome{}
			outs[i] = o
			switch cl.Fn.Val {
			default:
				own[i] = fmt.Errorf("own error %d", i)
			case "canceled":
				own[i] = context.Canceled
			case "deadline":
				own[i] = context.DeadlineExceeded
			case "wrapped":
				own[i] = fmt.Errorf("own error %d: %w", i, context.Canceled)
			case "typed nil":
				own[i] = (*customErr)(nil)
			}
			ctl.Go(fmt.Sprint("T", i), func() {
				defer func() { done <- struct{}{} }()
				if cl.Delay > 0 {
					time.Sleep(time.Duration(cl.Delay) * tick)
				}
				var ctx context.Context = context.Background()
				end := func() {}
				at := time.Duration(cl.At) * tick
				o.calledAt = now()
				switch {
				case cl.API == "timeout":
					o.cancelled, o.cancelAt = true, now()+at
					if cl.Far != 0 {
						at = cl.Far
						o.cancelled, o.cancelAt = at < 0, now()
					}
					o.already = at <= 0
				case cl.Ctx == "cancel":
					cc, cancel := context.WithCancel(ctx)
					ctx, end = cc, cancel
				case cl.Ctx == "custom":
					cc := &custom{ctx, make(chan struct{}), &customErr{i}}
					ctx, end = cc, func() { close(cc.done) }
				case cl.Ctx == "deadline":
					cc, cancel := context.WithTimeout(ctx, at)
					ctx, cleanup[i] = cc, cancel
					o.cancelled, o.cancelAt = true, now()+at
				case cl.Ctx == "done":
					cc, cancel := context.WithCancel(ctx)
					cancel()
					ctx = cc
				case cl.Ctx == "cause": // done for a reason that is not the context's error
					cc, cancel := context.WithCancelCause(ctx)
					ctx, end = cc, func() { cancel(fmt.Errorf("reason %d", i)) }
				case cl.Ctx == "derived":
					cc, cancel := context.WithCancel(context.WithValue(ctx, payload{}, i))
					dd, stop := context.WithTimeout(cc, time.Hour)
					ctx, end, cleanup[i] = context.WithValue(dd, payload{"x", 1}, i), cancel, stop
				case cl.Ctx == "expired":
					cc, cancel := context.WithDeadline(ctx, start.Add(-tick))
					ctx, cleanup[i] = cc, cancel
				case cl.Ctx == "shared":
					ctx = sharedCtx
					o.cancelled, o.cancelAt = true, time.Duration(sharedAt)*tick
				}
				if cl.API != "timeout" && (cl.Ctx == "cancel" || cl.Ctx == "custom" || cl.Ctx == "cause" || cl.Ctx == "derived") {
					o.cancelled, o.cancelAt = true, now()+at
					ctl.Go(fmt.Sprint("cancel", i), func() {
						if cl.At > 0 {
							time.Sleep(at)
						}
						for k := 0; k < cl.Points; k++ {
							ctl.Point()
						}
						end()
					})
				}
				fn := func() error {
					o.starts++
					for k := 0; k < cl.Fn.Points; k++ {
						ctl.Point()
					}
					if cl.Fn.Sleep > 0 {
						time.Sleep(time.Duration(cl.Fn.Sleep) * tick)
					}
					if cl.Fn.Wait == "ctx" && ctx.Done() != nil {
						<-ctx.Done()
					}
					if cl.Fn.Wait == "release" {
						<-release
					}
					o.ended, o.endedAt = true, now()
					switch cl.Fn.End {
					case "err":
						return own[i]
					case "panic":
						switch cl.Fn.Val {
						case "error":
							panic(errors.New(marker(i)))
						case "struct":
							panic(payload{marker(i), i})
						case "pointer":
							panic(&payload{marker(i), i})
						case "int":
							panic(700000 + i)
						case "runtime":
							_ = own[len(own)+i]
						}
						panic(marker(i))
					}
					return nil
				}
				var df func()
				if cl.Defer && cl.API != "nodefer" {
					df = func() {
						if cl.Slow {
							ctl.Point()
							time.Sleep(tick / 2)
						}
						o.allCleanup++
					}
				}
				if cl.API != "timeout" {
					o.already = ctx.Err() != nil
				}
				o.calledAt = now()
				o.value, o.panicked = core.Panics(func() {
					switch cl.API {
					case "do":
						o.err = xtask.Do(ctx, fn, df)
					case "nodefer":
						o.err = xtask.DoWithoutDefer(ctx, fn)
					case "timeout":
						o.err = xtask.DoWithTimeout(at, fn, df)
					}
				})
				o.at = now()
				o.cleanups = o.allCleanup
				o.ctxErr = ctx.Err()
			})
		}
		// Functions that wait for the release must not hold up calls whose
		// context ends.
		ctl.WaitIdle()
		close(release)
		for range c.Calls {
			<-done
		}
		ctl.WaitIdle()
		sharedCancel()
		for _, f := range cleanup {
			if f != nil {
				f()
			}
		}
	})
	if err != nil || !decided {
		return err
	}
	if early != "" {
		return fmt.Errorf("%s", early)
	}
	both := false
	for i, o := range outs {
		cl := c.Calls[i]
		fail := func(f string, a ...interface{}) error {
			return fmt.Errorf("call %d (%s, context %s at %d, function %+v): %s", i, cl.API, cl.Ctx, cl.At, cl.Fn, fmt.Sprintf(f, a...))
		}
		want := 0
		if cl.Defer && cl.API != "nodefer" {
			want = 1
		}
		if o.cleanups != want || o.allCleanup != want {
			return fail("the cleanup ran %d times before control returned, %d in all", o.cleanups, o.allCleanup)
		}
		if o.starts > 1 {
			return fail("the function was started %d times", o.starts)
		}
		isOwn := o.ended && o.endedAt <= o.at
		switch cl.Fn.End {
		case "panic":
			mark := marker(i)
			if cl.Fn.Val == "int" {
				mark = fmt.Sprint(700000 + i)
			}
			if cl.Fn.Val == "runtime" {
				mark = "index out of range"
			}
			if o.panicked && !strings.Contains(fmt.Sprintf("%+v", o.value), mark) {
				return fail("the panic does not carry the value: %v", o.value)
			}
			isOwn = isOwn && o.panicked
		case "err":
			isOwn = isOwn && !o.panicked && o.err == own[i]
		default:
			isOwn = isOwn && !o.panicked && o.err == nil
		}
		slack := time.Duration(0)
		if cl.Slow && want == 1 {
			slack = tick / 2
		}
		isCtx := false
		if !o.panicked && o.err != nil {
			switch {
			case cl.API == "timeout":
				isCtx = o.err == context.DeadlineExceeded && o.at >= o.cancelAt
			default:
				isCtx = o.ctxErr != nil && o.err == o.ctxErr
			}
		}
		if !isOwn && !isCtx {
			return fail("returned %v (panicked %v: %v): neither the function's outcome nor the context's error %v", o.err, o.panicked, o.value, o.ctxErr)
		}
		if o.already {
			if !isCtx || o.starts != 0 {
				return fail("with the context done: returned %v, the function was started %d times", o.err, o.starts)
			}
			if o.at > o.calledAt+slack {
				return fail("with the context done the call took %v", o.at-o.calledAt)
			}
			continue
		}
		switch {
		case o.ended && (!o.cancelled || o.endedAt < o.cancelAt):
			if !isOwn {
				return fail("the function ended at %v, before any cancellation, but the call returned %v", o.endedAt, o.err)
			}
			if o.at > o.endedAt+slack {
				return fail("the function ended at %v, the call returned only at %v", o.endedAt, o.at)
			}
		case o.cancelled && (!o.ended || o.cancelAt < o.endedAt):
			if !isCtx {
				return fail("the context was done at %v, the function ended at %v (%v), but the call returned %v", o.cancelAt, o.endedAt, o.ended, o.err)
			}
			at := o.cancelAt
			if at < o.calledAt {
				at = o.calledAt
			}
			if o.at > at+slack {
				return fail("the context was done at %v, the call returned only at %v", o.cancelAt, o.at)
			}
			both = both || o.starts == 1
		}
		if o.starts == 0 && !(o.cancelled && o.cancelAt <= o.calledAt) {
			return fail("the function was never started")
		}
		r.LabelIf(isCtx, "context first")
		r.LabelIf(isOwn, "function first")
		r.LabelIf(o.panicked, "panicked")
	}
	fns := 0
	for _, o := range outs {
		fns += o.starts
	}
	r.NonTrivial(fns > 0 && both)
	return nil
}

func genDo(t *rapid.T, free bool) Case {
	c := Case{Plan: core.Free}
	if !free {
		c.Plan = core.Plan(t)
	}
	n := rapid.IntRange(1, 3).Draw(t, "calls")
	for i := 0; i < n; i++ {
		cl := Call{
			API:    rapid.SampledFrom([]string{"do", "do", "nodefer", "timeout"}).Draw(t, "api"),
			At:     rapid.IntRange(0, 4).Draw(t, "at"),
			Points: rapid.IntRange(0, 6).Draw(t, "points"),
			Delay:  max(0, rapid.IntRange(-3, 3).Draw(t, "delay")),
			Defer:  rapid.IntRange(0, 3).Draw(t, "defer") > 0,
			Slow:   rapid.IntRange(0, 3).Draw(t, "slow") == 3,
		}
		if cl.API == "timeout" {
			cl.At = rapid.IntRange(-1, 4).Draw(t, "timeout")
			if rapid.IntRange(0, 5).Draw(t, "far") == 5 {
				cl.Far = rapid.SampledFrom([]time.Duration{math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 / 2, 1000 * time.Hour, math.MinInt64, -1000 * time.Hour}).Draw(t, "distance")
			}
		} else {
			cl.Ctx = rapid.SampledFrom([]string{"background", "cancel", "cancel", "cancel", "deadline", "done", "expired", "custom", "cause", "derived", "shared"}).Draw(t, "ctx")
		}
		cl.Fn = Fn{
			Sleep:  rapid.IntRange(0, 4).Draw(t, "sleep"),
			Points: rapid.IntRange(0, 6).Draw(t, "fp"),
			Wait:   rapid.SampledFrom([]string{"", "", "", "ctx", "release"}).Draw(t, "wait"),
			End:    rapid.SampledFrom([]string{"nil", "err", "err", "panic"}).Draw(t, "end"),
		}
		if cl.Fn.End == "panic" {
			cl.Fn.Val = rapid.SampledFrom([]string{"string", "error", "int", "struct", "pointer", "runtime"}).Draw(t, "val")
		}
		if cl.Fn.End == "err" {
			cl.Fn.Val = rapid.SampledFrom([]string{"", "", "canceled", "deadline", "wrapped", "typed nil"}).Draw(t, "own")
		}
		c.Calls = append(c.Calls, cl)
	}
	return c
}

const doRule = "1-3 concurrent calls with contexts that are done, cancelled, time out (also next to the largest duration), never end or have an error or a cause of their own, and functions that return, fail, panic, sleep, wait for the context or outlive the call, timed on a fake clock; outcome, return time, start and cleanup counts compared with the timeline (ties admit either outcome); non-trivial: a started function overtaken by its context"

func TestC09_S_Outcome(t *testing.T) {
	core.Check(t, core.Prop[Case]{
		Rule:  "controlled interleavings: " + doRule,
		Quick: 30000, Thorough: 800000,
		Gen: func(t *rapid.T) Case { return genDo(t, false) }, Run: runDo,
	})
}

func TestC09_R_Outcome(t *testing.T) {
	core.Check(t, core.Prop[Case]{
		Rule:  "real parallelism under the race detector: " + doRule,
		Quick: 6000, Thorough: 150000,
		Gen: func(t *rapid.T) Case { return genDo(t, true) }, Run: runDo,
	})
}
