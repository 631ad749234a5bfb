package xstream

import (
	"fmt"
	"sync/atomic"
	"testing"
	"time"

	"github.com/chenquan/go-pkg/xstream"
	"pgregory.net/rapid"
	"verif/core"
	"verif/sched"
)

// ------------------------------------------------------------------- C15

// Work is one parallel stage.
type Work struct {
	Stage       // walk, map, filter, flat (or finish, last)
	Points int  `json:",omitempty"`
	After  int  `json:",omitempty"` // points after the last emitted value
	Sleep  int  `json:",omitempty"`
	Gate   bool `json:",omitempty"` // invocations meet in groups of the worker count
}

type WorkCase struct {
	Plan sched.Plan
	Src  Src
	Work []Work
	Slow int `json:",omitempty"`
}

const tick = 10 * time.Millisecond

// probe watches the invocations of one stage's function.
type probe struct {
	e                  *env
	w                  Work
	inputs             []interface{}
	max, total, active int
	arrived            int
	meeting            chan struct{}
	done               atomic.Int64
}

// groups says how many invocations of the stage must meet.
func (p *probe) enter(x interface{}) {
	e := p.e
	e.mu.Lock()
	p.inputs = append(p.inputs, x)
	p.active++
	if p.active > p.max {
		p.max = p.active
	}
	var wait chan struct{}
	if p.w.Gate {
		p.arrived++
		if p.arrived%workers(p.w.Stage) == 0 || p.arrived == p.total {
			close(p.meeting)
			p.meeting = make(chan struct{})
		} else {
			wait = p.meeting
		}
	}
	e.mu.Unlock()
	if wait != nil {
		<-wait
	}
	for i := 0; i < p.w.Points; i++ {
		e.Point()
	}
	if p.w.Sleep > 0 {
		p.rest(p.w.Sleep * mod(num(x), 3))
	}
}

func (p *probe) rest(n int) {
	if p.e.real {
		for i := 0; i < 5*n; i++ {
			p.e.Point()
		}
		return
	}
	time.Sleep(time.Duration(n) * tick)
}

func (p *probe) leave() {
	for i := 0; i < p.w.After; i++ {
		p.e.Point()
	}
	if p.w.After > 1 && p.w.Sleep > 0 {
		p.rest(1)
	}
	p.e.mu.Lock()
	p.active--
	p.e.mu.Unlock()
	p.done.Add(1)
}

// inputsOf lists what the stage's function is called with.
func inputsOf(list []interface{}, s Stage) []interface{} {
	if s.Op != "flat" {
		return list
	}
	var r []interface{}
	for _, x := range list {
		r = append(r, flatten([]interface{}{expand(s.N, x)})...)
	}
	return r
}

func runWork(t *testing.T, c WorkCase, r *core.Rec) error {
	list := els(c.Src.Vals)
	wants := [][]interface{}{list}
	for _, w := range c.Work {
		if w.Op == "finish" {
			list = nil
		} else {
			list = apply(list, w.Stage)
		}
		wants = append(wants, list)
	}
	parallel := false
	full := 0
	decided, err := exec(t, c.Plan, r, func(e *env) {
		st := e.source(c.Src, false)
		var ps []*probe
		var finished int64 = -1
		var got []interface{}
		for i, w := range c.Work {
			in := inputsOf(wants[i], w.Stage)
			p := &probe{e: e, w: w, total: len(in), meeting: make(chan struct{})}
			ps = append(ps, p)
			o := opts(w.Stage)
			switch w.Op {
			case "walk":
				st = st.Walk(func(x interface{}, pipe chan<- interface{}) {
					p.enter(x)
					for _, y := range emits(w.N, x) {
						pipe <- y
						if w.Points > 0 {
							e.Point()
						}
					}
					p.leave()
				}, o...)
			case "map":
				st = st.Map(func(x interface{}) interface{} {
					p.enter(x)
					p.leave()
					return conv(w.N)(x)
				}, o...)
			case "filter":
				st = st.Filter(func(x interface{}) bool {
					p.enter(x)
					p.leave()
					return keep(w.N)(x)
				}, o...)
			case "flat":
				st = st.Map(func(x interface{}) interface{} { return expand(w.N, x) }).
					FlatMap(func(x interface{}) interface{} {
						p.enter(x)
						p.leave()
						return conv(w.N)(x)
					}, o...)
			case "finish":
				st.ParallelFinish(func(x interface{}) {
					p.enter(x)
					p.leave()
				}, o...)
				finished = p.done.Load()
			}
		}
		last := ps[len(ps)-1]
		if finished < 0 {
			for x := range st.Chan() {
				got = append(got, x)
				for i := 0; i < c.Slow; i++ {
					e.Point()
				}
			}
			finished = last.done.Load()
		}
		if int(finished) != last.total {
			e.fail("the stream ended with %d of %d invocations finished", finished, last.total)
		}
		e.finish()
		e.mu.Lock()
		defer e.mu.Unlock()
		for i, p := range ps {
			in := inputsOf(wants[i], p.w.Stage)
			if !sameBag(p.inputs, in) {
				e.bad = fmt.Sprintf("stage %d (%s) was invoked for %s instead of %s", i, p.w.Op, brief(p.inputs), brief(in))
				return
			}
			if k := workers(p.w.Stage); p.max > k {
				e.bad = fmt.Sprintf("stage %d (%s): %d invocations in progress, at most %d workers", i, p.w.Op, p.max, k)
				return
			}
			if p.max > 1 {
				parallel = true
			}
			if p.max == workers(p.w.Stage) {
				full++
			}
		}
		if !sameBag(got, wants[len(wants)-1]) {
			e.bad = fmt.Sprintf("delivered %s instead of (in any order) %s", brief(got), brief(wants[len(wants)-1]))
		}
	})
	if err != nil || !decided {
		return err
	}
	r.NonTrivial(parallel)
	r.LabelIf(full > 0, "all workers of a stage in progress at once")
	for _, w := range c.Work {
		r.Label("stage:%s", w.Op)
		r.LabelIf(w.Gate && workers(w.Stage) > 1, "invocations meet")
	}
	return nil
}

func genWork(mode string) func(t *rapid.T) WorkCase {
	return func(t *rapid.T) WorkCase {
		c := WorkCase{Plan: planFor(t, mode)}
		n, ws := 7, 4
		switch mode {
		case "p":
			n, ws = 60, 20
			if rapid.IntRange(0, 9).Draw(t, "long") == 9 {
				n, ws = 600, 100
			}
		case "r":
			n, ws = 14, 6
		}
		c.Src = genSrc(t, n)
		c.Slow = rapid.IntRange(0, 2).Draw(t, "slow")
		l := els(c.Src.Vals)
		k := core.Uni(t, 1, 2, "stages")
		gated := false
		for i := 0; i < k; i++ {
			ops := []string{"walk", "map", "filter", "flat"}
			if i == k-1 {
				ops = append(ops, "finish")
			}
			w := Work{}
			w.Op = rapid.SampledFrom(ops).Draw(t, "op")
			w.N = rapid.IntRange(0, 6).Draw(t, "n")
			w.Opt = rapid.SampledFrom([]string{"", "size", "size", "size", "last", "zero"}).Draw(t, "opt")
			if w.Opt == "size" || w.Opt == "last" {
				w.W = core.Uni(t, -3, ws, "w")
				if mode == "p" && ws == 100 && rapid.Bool().Draw(t, "fit") {
					w.W = max(1, len(l)+rapid.IntRange(-1, 1).Draw(t, "more"))
				}
			}
			w.Points = rapid.IntRange(0, 2).Draw(t, "points")
			w.After = rapid.IntRange(0, 3).Draw(t, "after")
			w.Sleep = rapid.IntRange(0, 1).Draw(t, "sleep")
			// The invocations of a flat-map stage within one element are
			// sequential, so only the others can all meet.
			if !gated && w.Op != "flat" && rapid.Bool().Draw(t, "gate") {
				w.Gate, gated = true, true
			}
			c.Work = append(c.Work, w)
			if w.Op == "finish" {
				break
			}
			l = apply(l, w.Stage)
		}
		return c
	}
}

const c15rule = "a finite source through one or two parallel stages (walk/map/filter/flat-map, possibly ending in parallel-finish) with -3..w workers, each function recording its invocations, some meeting in groups of the worker count; invocations, concurrency, delivered multiset and end of the stream compared with the list; non-trivial: two or more invocations in progress at once"

func TestC15_P_Work(t *testing.T) {
	core.Check(t, core.Prop[WorkCase]{
		Rule:  "real pool, up to 600 elements and as many workers: " + c15rule,
		Quick: 40000, Thorough: 1000000, Gen: genWork("p"), Run: runWork,
	})
}

func TestC15_S_Work(t *testing.T) {
	core.Check(t, core.Prop[WorkCase]{
		Rule:  "controlled interleavings: " + c15rule,
		Quick: 80000, Thorough: 1500000, Gen: genWork("s"), Run: runWork,
	})
}

func TestC15_R_Work(t *testing.T) {
	core.Check(t, core.Prop[WorkCase]{
		Rule:  "real parallelism under the race detector: " + c15rule,
		Quick: 12000, Thorough: 250000, Gen: genWork("r"), Run: runWork,
	})
}

// A flat-map stage: the items, not the elements inside them, run in parallel.
type FlatCase struct {
	Plan  sched.Plan
	Items [][]int
	W     int
}

func runFlat(t *testing.T, c FlatCase, r *core.Rec) error {
	var want []interface{}
	first := map[int]bool{}
	groups := 0
	var items []interface{}
	for i, it := range c.Items {
		var s []interface{}
		for k := range it {
			id := i*100 + k
			s = append(s, id)
			want = append(want, id)
			if k == 0 {
				first[id] = true
				groups++
			}
		}
		if len(it) == 1 && it[0] == 0 {
			items = append(items, s[0])
		} else {
			items = append(items, s)
		}
	}
	maxActive := 0
	decided, err := exec(t, c.Plan, r, func(e *env) {
		active, arrived := 0, 0
		meeting := make(chan struct{})
		st := xstream.Of(items...).FlatMap(func(x interface{}) interface{} {
			e.mu.Lock()
			active++
			if active > maxActive {
				maxActive = active
			}
			var wait chan struct{}
			if first[num(x)] {
				arrived++
				if arrived%c.W == 0 || arrived == groups {
					close(meeting)
					meeting = make(chan struct{})
				} else {
					wait = meeting
				}
			}
			e.mu.Unlock()
			if wait != nil {
				<-wait
			}
			e.mu.Lock()
			active--
			e.mu.Unlock()
			return x
		}, xstream.WithWorkSize(c.W))
		got := e.read(st, "chan", 0)
		if !sameBag(got, want) {
			e.fail("flat-map delivers %s instead of (in any order) %s", brief(got), brief(want))
		}
		if maxActive > c.W {
			e.fail("%d invocations in progress, at most %d workers", maxActive, c.W)
		}
		e.finish()
	})
	if err == nil && decided {
		r.NonTrivial(maxActive > 1)
	}
	return err
}

func genFlat(mode string) func(t *rapid.T) FlatCase {
	return func(t *rapid.T) FlatCase {
		c := FlatCase{Plan: planFor(t, mode), W: rapid.IntRange(1, 5).Draw(t, "w")}
		for i, n := 0, core.Uni(t, 0, 8, "items"); i < n; i++ {
			c.Items = append(c.Items, make([]int, rapid.IntRange(0, 3).Draw(t, "len")))
		}
		return c
	}
}

func TestC15_S_Flat(t *testing.T) {
	core.Check(t, core.Prop[FlatCase]{
		Rule:  "controlled interleavings of a flat-map over up to 8 slices with 1-5 workers whose first invocations meet in groups of the worker count; non-trivial: two or more invocations in progress at once",
		Quick: 8000, Thorough: 200000, Gen: genFlat("s"), Run: runFlat,
	})
}
