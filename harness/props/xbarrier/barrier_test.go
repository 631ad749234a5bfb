package xbarrier

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/chenquan/go-pkg/xbarrier"
	"pgregory.net/rapid"
	"verif/core"
	"verif/sched"
)

// Thread reads or writes N items through its own barrier.
type Thread struct {
	Write bool
	N     int
	Ctx   int
	Pause int  `json:",omitempty"` // scheduling points before each operation
	Sleep int  `json:",omitempty"` // clock ticks before each operation
	Fresh bool `json:",omitempty"` // a new barrier for each operation
}

// Case is a program over one channel.
type Case struct {
	Plan    sched.Plan
	Cap     int      // -1: the channel is nil
	Pre     int      `json:",omitempty"` // items in the channel at the start
	Ctxs    []string // cancel, done, background, deadline, cause, child, value, own
	Threads []Thread
	By      bool     `json:",omitempty"` // someone waits at another channel all the time
	Main    []string // idle, point, cancel0, cancel1, close, tick
}

type item struct{ who, n int }

type record struct {
	write     bool
	v         interface{}
	ok        bool
	ctx       int
	call, ret int64
	at        time.Duration
	who       int
}

type ctxInfo struct {
	ctx          context.Context
	cancel       func()
	from, doneBy int64 // the cancellation happened within [from, doneBy]; 0: never
}

// value gives items different dynamic types; some are nil and can only be
// counted.
func value(who, n int) interface{} {
	switch n % 8 {
	case 0:
		return item{who, n}
	case 1:
		return &item{who, n}
	case 3:
		return nil
	case 4:
		return []interface{}{who, n}
	case 5:
		return fault{who, n}
	case 6:
		return func() (int, int) { return who, n }
	case 7:
		return map[int]int{who: n}
	}
	return [2]int{who, n}
}

type fault struct{ who, n int }

func (f fault) Error() string { return "fault" }

func ident(v interface{}) (int, int, bool) {
	switch x := v.(type) {
	case item:
		return x.who, x.n, x.n%8 == 0
	case *item:
		return x.who, x.n, x.n%8 == 1
	case [2]int:
		return x[0], x[1], x[1]%8 == 2
	case []interface{}:
		if len(x) == 2 {
			return x[0].(int), x[1].(int), x[1].(int)%8 == 4
		}
	case fault:
		return x.who, x.n, x.n%8 == 5
	case func() (int, int):
		w, n := x()
		return w, n, n%8 == 6
	case map[int]int:
		for w, n := range x {
			return w, n, len(x) == 1 && n%8 == 7
		}
	}
	return 0, 0, false
}

// own is a context of a foreign type.
type own struct {
	context.Context
	done chan struct{}
	once sync.Once
}

func (o *own) Done() <-chan struct{} { return o.done }
func (o *own) Err() error {
	select {
	case <-o.done:
		return errors.New("ended")
	default:
		return nil
	}
}
func (o *own) cancel() { o.once.Do(func() { close(o.done) }) }

const never = int64(1) << 62

func run(t *testing.T, c Case, r *core.Rec) error {
	recs := make([][]record, len(c.Threads))
	var infos []*ctxInfo
	var closedFrom = never
	var left []interface{}
	nt := len(c.Threads)
	blockedAtCancel := false
	stuck, after := "", ""
	decided, err := core.Concurrent(t, c.Plan, r, func(ctl *sched.Ctl) {
		var ch chan interface{}
		if c.Cap >= 0 {
			ch = make(chan interface{}, c.Cap)
		}
		for i := 0; i < c.Pre && i < c.Cap; i++ {
			ch <- value(100, i)
		}
		var otherCh chan interface{}
		otherGot := make(chan string, 1)
		if c.By {
			otherCh = make(chan interface{})
			ctl.Go("other", func() {
				v, ok := xbarrier.NewReadBarrier(context.Background(), otherCh).Read()
				otherGot <- fmt.Sprintf("%v %v", v, ok)
			})
		}
		start := time.Now()
		for _, k := range c.Ctxs {
			ci := &ctxInfo{from: never, doneBy: never}
			ctx, cancel := context.WithCancel(context.Background())
			switch k {
			case "done":
				cancel()
				ci.from, ci.doneBy = 0, 0
			case "background":
				ctx = context.Background()
				cancel = func() {}
			case "cause":
				var cc context.CancelCauseFunc
				ctx, cc = context.WithCancelCause(ctx)
				cancel = func() { cc(errors.New("cause")) }
			case "child":
				parent := cancel
				child, stop := context.WithCancel(ctx)
				ctx, cancel = child, func() { parent(); stop() }
			case "value":
				ctx = context.WithValue(ctx, item{}, 1)
			case "own":
				o := &own{Context: context.Background(), done: make(chan struct{})}
				ctx, cancel = o, o.cancel
			case "deadline":
				ctx, cancel = context.WithDeadline(context.Background(), start.Add(50*time.Millisecond))
			}
			ci.ctx, ci.cancel = ctx, cancel
			infos = append(infos, ci)
		}
		finished := make([]bool, nt)
		rounds := 100
		for _, th := range c.Threads {
			rounds += th.N
		}
		done := make(chan int, nt)
		for i := range c.Threads {
			i, th := i, c.Threads[i]
			ci := infos[th.Ctx]
			ctl.Go(fmt.Sprint("T", i), func() {
				defer func() { done <- i }()
				rb, wb := xbarrier.NewReadBarrier(ci.ctx, ch), xbarrier.NewWriteBarrier(ci.ctx, ch)
				for n := 0; n < th.N; n++ {
					if th.Fresh {
						rb, wb = xbarrier.NewReadBarrier(ci.ctx, ch), xbarrier.NewWriteBarrier(ci.ctx, ch)
					}
					for k := 0; k < th.Pause; k++ {
						ctl.Point()
					}
					if th.Sleep > 0 {
						time.Sleep(time.Duration(th.Sleep) * 10 * time.Millisecond)
					}
					call := ctl.Now()
					already := ci.ctx.Err() != nil
					rec := record{write: th.Write, ctx: th.Ctx, call: call, who: i}
					if th.Write {
						rec.v = value(i, n)
						rec.ok = wb.Write(rec.v)
					} else {
						rec.v, rec.ok = rb.Read()
					}
					rec.ret = ctl.Now()
					rec.at = time.Since(start)
					if already {
						rec.call = never // started when the context was done
					}
					recs[i] = append(recs[i], rec)
				}
			})
		}
		collect := func() {
			for {
				select {
				case i := <-done:
					finished[i] = true
				default:
					return
				}
			}
		}
		cancel := func(i int) {
			collect()
			for j, th := range c.Threads {
				if th.Ctx == i && !finished[j] {
					blockedAtCancel = true
				}
			}
			if ci := infos[i]; ci.doneBy == never && c.Ctxs[i] != "background" {
				ci.from = ctl.Now()
				ci.cancel()
				ci.doneBy = ctl.Now()
			}
		}
		writersDone := func() bool {
			collect()
			for i, th := range c.Threads {
				if th.Write && !finished[i] {
					return false
				}
			}
			return true
		}
		closeCh := func() {
			if ch != nil && closedFrom == never && writersDone() {
				closedFrom = ctl.Now()
				close(ch)
			}
		}
		for _, m := range c.Main {
			switch m {
			case "idle":
				ctl.WaitIdle()
			case "point":
				ctl.Point()
			case "tick":
				time.Sleep(20 * time.Millisecond)
			case "close":
				closeCh()
			case "cancel0":
				cancel(0)
			case "cancel1":
				cancel(len(infos) - 1)
			}
		}
		// Let everything that can proceed do so, then cancel what is left.
		ctl.WaitIdle()
		for i := range infos {
			cancel(i)
		}
		// Threads under a context that cannot be cancelled end like plain
		// channel users: someone on the other side, then the close.
		for round := 0; ; round++ {
			ctl.WaitIdle()
			collect()
			all := true
			for i, f := range finished {
				all = all && f
				if !f && c.Ctxs[c.Threads[i].Ctx] != "background" {
					stuck = fmt.Sprintf("thread %d stays blocked in a %s after its context is done", i, kind(c.Threads[i].Write))
				}
			}
			if all {
				break
			}
			if ch != nil && writersDone() {
				if closedFrom != never {
					break // a closed channel must not keep readers
				}
				closeCh()
				continue
			}
			select {
			case v := <-ch:
				left = append(left, v)
			default:
			}
			if round > rounds {
				break
			}
		}
		for i := range finished {
			if !finished[i] {
				finished[<-done] = true // a deadlock if it never comes
			}
		}
		for {
			select {
			case v, ok := <-ch:
				if ok {
					left = append(left, v)
					continue
				}
			default:
			}
			break
		}
		if ch != nil {
			after = afterClose(ch, closedFrom != never)
		}
		if c.By {
			early := len(otherGot) > 0
			ok := early || xbarrier.NewWriteBarrier(context.Background(), otherCh).Write("other")
			if got := <-otherGot; got != "other true" || !ok || early {
				after = fmt.Sprintf("a reader of another channel got %s (before anything was sent: %v), the write there returned %v", got, early, ok)
			}
		}
	})
	for _, ci := range infos {
		ci.cancel()
	}
	if stuck != "" {
		return fmt.Errorf("%s", stuck)
	}
	if err != nil || !decided {
		return err
	}
	if after != "" {
		return fmt.Errorf("%s", after)
	}
	sent, got := map[interface{}]bool{}, map[interface{}]int{}
	success, refused, nils := 0, 0, 0
	for i := 0; i < c.Pre && i < c.Cap; i++ {
		if value(100, i) == nil {
			nils++
			continue
		}
		sent[fmt.Sprint(100, "/", i)] = true
	}
	name := func(v interface{}) (string, bool) {
		w, n, ok := ident(v)
		return fmt.Sprint(w, "/", n), ok
	}
	for _, l := range recs {
		last := map[int]int{}
		for _, e := range l {
			ci := infos[e.ctx]
			if e.ok {
				success++
				if e.call == never || e.call > ci.doneBy {
					return fmt.Errorf("thread %d: a %s started after the context was done reports success", e.who, kind(e.write))
				}
			} else {
				refused++
				cancelled := ci.from < e.ret || c.Ctxs[e.ctx] == "deadline" && e.at >= 50*time.Millisecond || e.call == never
				if !cancelled && (e.write || closedFrom > e.ret) {
					return fmt.Errorf("thread %d: a %s failed although its context was not done (and the channel open)", e.who, kind(e.write))
				}
			}
			if e.v == nil && e.ok {
				if e.write {
					nils++
				} else {
					nils--
				}
				continue
			}
			if e.write {
				k, _ := name(e.v)
				if e.ok {
					sent[k] = true
				}
				continue
			}
			if !e.ok {
				continue
			}
			k, ok := name(e.v)
			if !ok {
				return fmt.Errorf("thread %d: a successful read returned %v (%T), never written", e.who, e.v, e.v)
			}
			got[k]++
			w, n, _ := ident(e.v)
			if prev, seen := last[w]; seen && n <= prev {
				return fmt.Errorf("thread %d: items of writer %d arrive out of order: %d after %d", e.who, w, n, prev)
			}
			last[w] = n
		}
	}
	for _, v := range left {
		if v == nil {
			nils--
			continue
		}
		k, ok := name(v)
		if !ok {
			return fmt.Errorf("the channel holds %v (%T), never written", v, v)
		}
		got[k]++
	}
	if nils != 0 {
		return fmt.Errorf("nil items written minus nil items received: %d", nils)
	}
	for k, n := range got {
		if n != 1 || !sent[k] {
			return fmt.Errorf("item %v arrived %d times; its write reported success: %v", k, n, sent[k])
		}
	}
	for k := range sent {
		if got[k] != 1 {
			return fmt.Errorf("item %v was written successfully but never arrived", k)
		}
	}
	r.LabelIf(c.Cap < 0, "nil channel")
	r.NonTrivial(success >= 1 && refused >= 1)
	r.LabelIf(blockedAtCancel, "cancelled with operations outstanding")
	r.LabelIf(closedFrom != never, "closed")
	return nil
}

// afterClose tells what is wrong with the behaviour at the closed, empty channel.
func afterClose(ch chan interface{}, closed bool) string {
	if !closed {
		close(ch)
	}
	ended, cancel := context.WithCancel(context.Background())
	cancel()
	for i, ctx := range []context.Context{context.Background(), ended} {
		v, ok := xbarrier.NewReadBarrier(ctx, ch).Read()
		if v != nil || ok {
			return fmt.Sprintf("a read from the closed, empty channel returned %v, %v", v, ok)
		}
		rec, did := core.Panics(func() { ok = xbarrier.NewWriteBarrier(ctx, ch).Write(1) })
		if i == 0 && !did {
			return fmt.Sprintf("a write to the closed channel returned %v instead of panicking as the channel does", ok)
		}
		if i == 1 && (did || ok) {
			return fmt.Sprintf("a write after the end of its context returned %v (panicked: %v)", ok, rec)
		}
	}
	return ""
}

func kind(w bool) string {
	if w {
		return "write"
	}
	return "read"
}

func gen(t *rapid.T, free bool) Case {
	c := Case{Plan: core.Free}
	if !free {
		c.Plan = core.Plan(t)
	}
	c.Cap = rapid.IntRange(0, 3).Draw(t, "cap")
	c.Pre = rapid.IntRange(0, c.Cap).Draw(t, "pre")
	if rapid.IntRange(0, 30).Draw(t, "nil") == 30 {
		c.Cap, c.Pre = -1, 0
	}
	nc := rapid.IntRange(1, 2).Draw(t, "ctxs")
	for i := 0; i < nc; i++ {
		k := rapid.SampledFrom([]string{"cancel", "cancel", "cancel", "done", "background", "deadline", "cause", "child", "value", "own"}).Draw(t, "ctx")
		if k == "background" && c.Cap < 0 {
			k = "cancel" // it would block forever
		}
		c.Ctxs = append(c.Ctxs, k)
	}
	many := 4
	if free && core.Uni(t, 0, 60, "many") == 7 {
		many = 2000
	}
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "threads"); i < n; i++ {
		c.Threads = append(c.Threads, Thread{
			Write: rapid.Bool().Draw(t, "write"),
			N:     rapid.IntRange(1, many).Draw(t, "n"),
			Ctx:   rapid.IntRange(0, nc-1).Draw(t, "c"),
			Pause: rapid.IntRange(0, 2).Draw(t, "pause"),
			Sleep: max(0, rapid.IntRange(-3, 4).Draw(t, "sleep")),
			Fresh: rapid.Bool().Draw(t, "fresh"),
		})
	}
	c.By = rapid.IntRange(0, 3).Draw(t, "by") == 3
	c.Main = rapid.SliceOfN(rapid.SampledFrom([]string{"idle", "point", "point", "cancel0", "cancel1", "close", "tick"}), 0, 6).Draw(t, "main")
	return c
}

const rule = "1-4 threads reading or writing 1-4 (with real parallelism rarely up to 2000) items through barriers on one channel (capacity 0-3, or nil) under 1-2 contexts that are cancelled, expire, are done from the start or never end, at drawn moments, with the channel closed in some (and tried when closed in all); every success transfers exactly its item, in order, no operation begun after the end of its context succeeds, none fails without cause, none stays blocked; non-trivial: both successes and refusals"

func TestC08_S_Transfers(t *testing.T) {
	core.Check(t, core.Prop[Case]{
		Rule:  "controlled interleavings: " + rule,
		Quick: 30000, Thorough: 800000,
		Gen: func(t *rapid.T) Case { return gen(t, false) }, Run: run,
	})
}

func TestC08_R_Transfers(t *testing.T) {
	core.Check(t, core.Prop[Case]{
		Rule:  "real parallelism under the race detector: " + rule,
		Quick: 6000, Thorough: 150000,
		Gen: func(t *rapid.T) Case { return gen(t, true) }, Run: run,
	})
}
