package xmapreduce

import (
	"context"
	"fmt"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/chenquan/go-pkg/xbarrier"
	"github.com/chenquan/go-pkg/xmapreduce"
	"pgregory.net/rapid"
	"verif/core"
	"verif/sched"
)

// Item is what the map function does for one generated item.
type Item struct {
	Writes int
	Points int  `json:",omitempty"`
	Sleep  int  `json:",omitempty"`
	Linger bool `json:",omitempty"` // wait for the release, then write once more
	Async  bool `json:",omitempty"` // write from two goroutines
	Nil    bool `json:",omitempty"` // the generated item is nil
	NilOut bool `json:",omitempty"` // the written values are nil
	In     int  `json:",omitempty"` // the dynamic type of the generated item
	Out    int  `json:",omitempty"` // the dynamic type of the written values
}

// Case is one parallel map.
type Case struct {
	Plan    sched.Plan
	Workers int // 0: the default
	Stream  bool
	Items   []Item
	Gate    bool   // all map functions stay in progress until nothing moves
	Cancel  string // "", before, points, idle, reads, time
	CPoints int    `json:",omitempty"`
	Reads   int    `json:",omitempty"` // values read before cancelling (reads)
	Slow    int    `json:",omitempty"` // scheduling points between reads
	By      bool   `json:",omitempty"` // another parallel map is under way all the time
	Hang    bool   `json:",omitempty"` // the generator stays until the end (cancelled cases)
}

const tick = 10 * time.Millisecond

type val struct{ item, k int }

type valErr struct{ val }

func (e *valErr) Error() string { return "an error" }

// kinds is the number of dynamic types of items and values.
const kinds = 9

// pack returns v as a value of another dynamic type.
func pack(v val, kind int) interface{} {
	switch kind {
	case 1:
		return []interface{}{v.item, v.k}
	case 2:
		return &v
	case 3:
		return func() val { return v }
	case 4:
		return &valErr{v}
	case 5:
		return map[string]int{"item": v.item, "k": v.k}
	case 6:
		ch := make(chan interface{}, 2)
		ch <- v.item
		ch <- v.k
		close(ch)
		return ch
	case 7:
		return fmt.Sprintf("%d/%d", v.item, v.k)
	case 8:
		return valErr{v}
	}
	return v
}

// unpack undoes pack; reports false for anything pack does not return.
func unpack(x interface{}) (v val, ok bool) {
	switch x := x.(type) {
	case val:
		return x, true
	case []interface{}:
		if len(x) != 2 {
			return v, false
		}
		a, oka := x[0].(int)
		b, okb := x[1].(int)
		return val{a, b}, oka && okb
	case *val:
		return *x, true
	case func() val:
		return x(), true
	case *valErr:
		return x.val, true
	case map[string]int:
		return val{x["item"], x["k"]}, len(x) == 2
	case chan interface{}:
		a, oka := (<-x).(int)
		b, okb := (<-x).(int)
		return val{a, b}, oka && okb
	case string:
		n, err := fmt.Sscanf(x, "%d/%d", &v.item, &v.k)
		return v, n == 2 && err == nil
	case valErr:
		return x.val, true
	}
	return v, false
}

// tidy unpacks a delivered value where that is possible.
func tidy(x interface{}) interface{} {
	if v, ok := unpack(x); ok {
		return v
	}
	return x
}

func run(t *testing.T, c Case, r *core.Rec) error {
	n := len(c.Items)
	var mu sync.Mutex
	calls := make([]int, n)
	active, maxActive := 0, 0
	var wrote, refused []val
	var got []interface{}
	generated := make([]bool, n)
	badItem := ""
	var nilItems []int // generated nil items whose map function has not started
	nilGot := 0
	lateWrites, lateOK := 0, 0
	closedOnCancel := ""
	cancelling := c.Cancel != ""
	cancelDone := false
	decided, err := core.Concurrent(t, c.Plan, r, func(ctl *sched.Ctl) {
		ctx, cancel := context.WithCancel(context.Background())
		if c.Cancel == "" && n%2 == 0 {
			ctx = context.Background()
		}
		stop, release, gate := make(chan struct{}), make(chan struct{}), make(chan struct{})
		doCancel := func() {
			cancel()
			mu.Lock()
			cancelDone = true
			mu.Unlock()
		}
		if c.Cancel == "before" {
			doCancel()
		}
		gen := func(source chan<- interface{}) {
			for i := range c.Items {
				mu.Lock()
				generated[i] = true
				item := pack(val{i, 0}, c.Items[i].In)
				if c.Items[i].Nil {
					item = nil
					nilItems = append(nilItems, i)
				}
				mu.Unlock()
				if c.Cancel == "" {
					source <- item
					continue
				}
				select {
				case source <- item:
				case <-stop:
					return
				}
			}
			if c.Hang {
				<-stop
			}
		}
		mapper := func(item interface{}, w xbarrier.Writer) {
			iv, ok := unpack(item)
			i := iv.item
			mu.Lock()
			if item == nil && len(nilItems) > 0 {
				i, ok = nilItems[0], true
				nilItems = nilItems[1:]
			}
			mu.Unlock()
			if !ok || i < 0 || i >= n {
				mu.Lock()
				badItem = fmt.Sprintf("the map function received %v (%T)", item, item)
				mu.Unlock()
				return
			}
			mu.Lock()
			calls[i]++
			active++
			if active > maxActive {
				maxActive = active
			}
			mu.Unlock()
			defer func() {
				mu.Lock()
				active--
				mu.Unlock()
			}()
			if c.Gate {
				<-gate
			}
			it := c.Items[i]
			for p := 0; p < it.Points; p++ {
				ctl.Point()
			}
			if it.Sleep > 0 {
				time.Sleep(time.Duration(it.Sleep) * tick)
			}
			write := func(k int, late bool) {
				mu.Lock()
				after := cancelDone
				mu.Unlock()
				out := pack(val{i, k}, it.Out)
				if it.NilOut {
					out = nil
				}
				ok := w.Write(out)
				mu.Lock()
				if ok {
					wrote = append(wrote, val{i, k})
				} else {
					refused = append(refused, val{i, k})
				}
				if after {
					lateWrites++
					if ok {
						lateOK++
					}
				}
				mu.Unlock()
			}
			if it.Async && it.Writes > 1 {
				var wg sync.WaitGroup
				wg.Add(1)
				go func() {
					defer wg.Done()
					write(0, false)
				}()
				for k := 1; k < it.Writes; k++ {
					write(k, false)
				}
				wg.Wait()
			} else {
				for k := 0; k < it.Writes; k++ {
					write(k, false)
				}
			}
			if it.Linger && cancelling {
				<-release
				write(100, true)
			}
		}
		var opts []xmapreduce.Option
		if c.Workers > 0 {
			opts = append(opts, xmapreduce.WithWorkerSize(c.Workers))
		}
		byGo := make(chan struct{})
		var other <-chan interface{}
		if c.By {
			other = xmapreduce.Map(context.Background(), func(source chan<- interface{}) {
				source <- "a"
				source <- "b"
			}, func(x interface{}, w xbarrier.Writer) {
				<-byGo
				w.Write(x)
			}, opts...)
		}
		defer func() {
			if !c.By {
				return
			}
			early := len(other) > 0
			close(byGo)
			var all []string
			for v := range other {
				all = append(all, fmt.Sprint(v))
			}
			sort.Strings(all)
			if fmt.Sprint(all) != "[a b]" || early {
				badItem = fmt.Sprintf("another parallel map of a and b delivers %v (early: %v)", all, early)
			}
		}()
		var out <-chan interface{}
		if c.Stream {
			out = xmapreduce.MapStream(ctx, gen, mapper, opts...).Chan()
		} else {
			out = xmapreduce.Map(ctx, gen, mapper, opts...)
		}
		if c.Gate {
			ctl.WaitIdle()
			close(gate)
		}
		if c.Cancel == "" {
			for v := range out {
				got = append(got, tidy(v))
				for p := 0; p < c.Slow; p++ {
					ctl.Point()
				}
			}
			cancel()
			return
		}
		for k := 0; k < c.Reads && c.Cancel == "reads"; k++ {
			ctl.WaitIdle()
			select {
			case v, ok := <-out:
				if ok {
					got = append(got, tidy(v))
				}
			default:
			}
		}
		switch c.Cancel {
		case "points":
			for k := 0; k < c.CPoints; k++ {
				ctl.Point()
			}
		case "idle", "reads":
			ctl.WaitIdle()
		case "time":
			time.Sleep(time.Duration(c.CPoints) * tick / 4)
		}
		if c.Cancel != "before" {
			doCancel()
		}
		// Nobody reads and map functions linger, yet the output gets closed.
		ctl.WaitIdle()
	drain:
		for {
			select {
			case v, ok := <-out:
				if !ok {
					break drain
				}
				got = append(got, tidy(v))
			default:
				closedOnCancel = "after the cancellation, with nobody reading, the output is not closed"
				break drain
			}
		}
		close(release)
		close(stop)
		ctl.WaitIdle()
	})
	if badItem != "" {
		return fmt.Errorf("%s", badItem)
	}
	if closedOnCancel != "" {
		return fmt.Errorf("%s", closedOnCancel)
	}
	if err != nil || !decided {
		return err
	}
	limit := c.Workers
	if limit == 0 {
		limit = 16
	}
	if c.Cancel == "" && maxActive > limit {
		return fmt.Errorf("%d map functions in progress at once, at most %d configured", maxActive, limit)
	}
	for i, k := range calls {
		if k > 1 || c.Cancel == "" && k != 1 {
			return fmt.Errorf("the map function ran %d times for item %d", k, i)
		}
		if k > 0 && !generated[i] {
			return fmt.Errorf("the map function ran for item %d, never generated", i)
		}
	}
	if lateOK > 0 {
		return fmt.Errorf("%d writes attempted after the cancellation report success", lateOK)
	}
	seen := map[val]int{}
	for _, g := range got {
		v, ok := g.(val)
		if g == nil {
			nilGot++
			continue
		}
		if !ok {
			return fmt.Errorf("the output delivers %v (%T), never written", g, g)
		}
		seen[v]++
		if seen[v] > 1 {
			return fmt.Errorf("the output delivers %v twice", v)
		}
	}
	written := map[val]bool{}
	nilWrote := 0
	for _, v := range wrote {
		if c.Items[v.item].NilOut {
			nilWrote++
			continue
		}
		written[v] = true
		if c.Cancel == "" && seen[v] != 1 {
			return fmt.Errorf("%v was written but not delivered", v)
		}
	}
	for v := range seen {
		if !written[v] {
			return fmt.Errorf("the output delivers %v, whose write did not report success", v)
		}
	}
	if nilGot > nilWrote || c.Cancel == "" && nilGot != nilWrote {
		return fmt.Errorf("the output delivers %d nil values, %d were written", nilGot, nilWrote)
	}
	if c.Cancel == "" && len(refused) > 0 {
		return fmt.Errorf("without a cancellation the write of %v was refused", refused[0])
	}
	if c.Cancel == "" {
		total := 0
		for _, it := range c.Items {
			total += it.Writes
		}
		if len(got) != total {
			return fmt.Errorf("%d of %d values delivered", len(got), total)
		}
		r.NonTrivial(total >= 2 && maxActive >= 2)
		r.LabelIf(maxActive == limit, "worker limit reached")
	} else {
		r.NonTrivial(lateWrites > 0 || len(refused) > 0)
		r.LabelIf(lateWrites > 0, "writes after the cancellation")
		r.LabelIf(len(refused) > 0, "refused writes")
		r.LabelIf(c.Hang, "generator still going")
		r.Label("cancelled")
	}
	return nil
}

func gen(t *rapid.T, free bool) Case {
	c := Case{Plan: core.Free}
	if !free {
		c.Plan = core.Plan(t)
	}
	c.Workers = rapid.IntRange(0, 4).Draw(t, "workers")
	c.Stream = rapid.IntRange(0, 2).Draw(t, "stream") == 2
	c.Gate = rapid.IntRange(0, 2).Draw(t, "gate") == 2
	if free && core.Uni(t, 0, 150, "wide") == 7 {
		// many workers, all of them busy at once
		c.Workers, c.Gate = core.LongSize(t, "xmapreduce", 1500, "workers"), true
		c.Items = make([]Item, c.Workers+rapid.IntRange(-3, 40).Draw(t, "more"))
		for i := range c.Items {
			c.Items[i].Writes = i % 3
		}
		if rapid.IntRange(0, 3).Draw(t, "wcancel") == 3 {
			c.Cancel, c.Reads = "reads", 3
		}
		return c
	}
	types := rapid.IntRange(0, 2).Draw(t, "types") == 2
	max := 7
	if c.Workers == 0 && c.Gate {
		max = 22
	}
	for i, n := 0, rapid.IntRange(0, max).Draw(t, "items"); i < n; i++ {
		it := Item{Writes: rapid.IntRange(0, 3).Draw(t, "writes")}
		if max < 10 {
			it.Points = rapid.IntRange(0, 3).Draw(t, "points")
			it.Sleep = rapid.IntRange(0, 2).Draw(t, "sleep")
		}
		it.Linger = rapid.IntRange(0, 2).Draw(t, "linger") == 2
		it.Async = rapid.IntRange(0, 5).Draw(t, "async") == 5
		it.Nil = rapid.IntRange(0, 7).Draw(t, "nil") == 7
		it.NilOut = rapid.IntRange(0, 7).Draw(t, "nilout") == 7
		if types {
			it.In, it.Out = core.Uni(t, 0, kinds-1, "in"), core.Uni(t, 0, kinds-1, "out")
		}
		c.Items = append(c.Items, it)
	}
	c.By = rapid.IntRange(0, 3).Draw(t, "by") == 3
	if rapid.Bool().Draw(t, "cancelled") {
		c.Cancel = rapid.SampledFrom([]string{"before", "points", "points", "idle", "reads", "time"}).Draw(t, "cancel")
		c.CPoints = rapid.IntRange(0, 40).Draw(t, "cp")
		c.Reads = rapid.IntRange(0, 5).Draw(t, "reads")
		c.Hang = rapid.IntRange(0, 3).Draw(t, "hang") == 3
	} else {
		c.Slow = rapid.IntRange(0, 3).Draw(t, "slow")
	}
	return c
}

const rule = "0-22 generated items of several dynamic types, nil among them, each written 0-3 times by its map function (some lingering past the cancellation), 1-4 workers (rarely up to 1500) or the default, read promptly, slowly, partly or not at all, cancelled at drawn moments (some while the generator stays in progress) or never, delivered on a channel or stream; delivered values, calls, concurrency and closing compared with what the map functions did; non-trivial: two or more values with two or more functions in progress, or writes refused after a cancellation"

func TestC13_S_Map(t *testing.T) {
	core.Check(t, core.Prop[Case]{
		Rule:  "controlled interleavings: " + rule,
		Quick: 16000, Thorough: 400000,
		Gen: func(t *rapid.T) Case { return gen(t, false) }, Run: run,
	})
}

func TestC13_R_Map(t *testing.T) {
	core.Check(t, core.Prop[Case]{
		Rule:  "real parallelism under the race detector: " + rule,
		Quick: 5000, Thorough: 100000,
		Gen: func(t *rapid.T) Case { return gen(t, true) }, Run: run,
	})
}
