package xstream

import (
	"fmt"
	"testing"

	"github.com/chenquan/go-pkg/xstream"
	"pgregory.net/rapid"
	"verif/core"
	"verif/sched"
)

// PanicCase is a parallel stage whose function panics for some elements.
type PanicCase struct {
	Plan sched.Plan
	Op   string // walk, map, filter, flat, finish
	W    int
	Bad  []int // per element: -1 never panics, otherwise the number of values emitted before (walk)
	Then bool  `json:",omitempty"` // another stage behind it
	Slow int   `json:",omitempty"`
	Kind int   `json:",omitempty"`
}

func (c PanicCase) boom(x int) {
	switch (c.Kind + x) % 3 {
	case 0:
		panic(fmt.Errorf("element %d", x))
	case 1:
		_ = c.Bad[len(c.Bad)+x]
	}
	panic(x)
}

func runPanic(t *testing.T, c PanicCase, r *core.Rec) error {
	const emitted = 3
	var items, want []interface{}
	panics, maxActive := 0, 0
	for x, b := range c.Bad {
		items = append(items, x)
		if b >= 0 {
			panics++
		}
		for k := 0; k < emitted; k++ {
			switch {
			case c.Op == "walk" && (b < 0 || k < b):
				want = append(want, x*10+k)
			case k == 0 && b < 0 && c.Op != "walk" && c.Op != "finish":
				want = append(want, x)
			}
		}
	}
	decided, err := exec(t, c.Plan, r, func(e *env) {
		calls := make([]int, len(items))
		active := 0
		in := func(x interface{}) int {
			e.mu.Lock()
			defer e.mu.Unlock()
			calls[x.(int)]++
			if active++; active > maxActive {
				maxActive = active
			}
			return x.(int)
		}
		// out ends the invocation, by a panic if the element is a bad one.
		out := func(x int) {
			e.Point()
			e.mu.Lock()
			active--
			e.mu.Unlock()
			if c.Bad[x] >= 0 {
				c.boom(x)
			}
		}
		st := xstream.Of(items...)
		o := xstream.WithWorkSize(c.W)
		switch c.Op {
		case "walk":
			st = st.Walk(func(v interface{}, pipe chan<- interface{}) {
				x := in(v)
				n := emitted
				if c.Bad[x] >= 0 {
					n = c.Bad[x]
				}
				for k := 0; k < n; k++ {
					pipe <- x*10 + k
				}
				out(x)
			}, o)
		case "map":
			st = st.Map(func(v interface{}) interface{} { out(in(v)); return v }, o)
		case "filter":
			st = st.Filter(func(v interface{}) bool { out(in(v)); return true }, o)
		case "flat":
			st = st.FlatMap(func(v interface{}) interface{} { out(in(v)); return v }, o)
		case "finish":
			st.ParallelFinish(func(v interface{}) { out(in(v)) }, o)
		}
		var got []interface{}
		if c.Op != "finish" {
			if c.Then {
				st = st.Map(func(x interface{}) interface{} { return x }, xstream.WithWorkSize(2))
			}
			got = e.read(st, "chan", c.Slow)
		}
		e.finish()
		e.mu.Lock()
		defer e.mu.Unlock()
		for x, n := range calls {
			if n != 1 {
				e.bad = fmt.Sprintf("%s whose function panics for some elements was invoked %d times for element %d", c.Op, n, x)
				return
			}
		}
		if !sameBag(got, want) {
			e.bad = fmt.Sprintf("%s whose function panics for some elements delivers %s instead of (in any order) %s", c.Op, brief(got), brief(want))
		}
		if maxActive > c.W {
			e.bad = fmt.Sprintf("%d invocations in progress, at most %d workers", maxActive, c.W)
		}
	})
	if err == nil && decided {
		r.NonTrivial(panics > 0 && len(items) > panics)
		r.LabelIf(panics >= c.W, "as many panics as workers")
		r.Label("stage:%s", c.Op)
	}
	return err
}

func genPanic(mode string) func(t *rapid.T) PanicCase {
	return func(t *rapid.T) PanicCase {
		c := PanicCase{Plan: planFor(t, mode)}
		c.Op = rapid.SampledFrom([]string{"walk", "walk", "map", "filter", "flat", "finish"}).Draw(t, "op")
		c.W = rapid.IntRange(1, 4).Draw(t, "w")
		for i, n := 0, core.Uni(t, 1, 8, "items"); i < n; i++ {
			b := -1
			if core.Uni(t, 0, 1, "panics") == 1 {
				b = rapid.IntRange(0, 3).Draw(t, "emitted")
			}
			c.Bad = append(c.Bad, b)
		}
		c.Then = rapid.Bool().Draw(t, "then")
		c.Slow = rapid.IntRange(0, 2).Draw(t, "slow")
		c.Kind = rapid.IntRange(0, 2).Draw(t, "kind")
		return c
	}
}

const panicRule = "up to 8 elements through a walk/map/filter/flat-map/parallel-finish with 1-4 workers whose function panics for some of them, after emitting some values; the others' invocations and values and the end of the stream compared with the list; non-trivial: some elements panic and some do not"

func TestC15_S_Panics(t *testing.T) {
	core.Check(t, core.Prop[PanicCase]{
		Rule:  "controlled interleavings: " + panicRule,
		Quick: 5000, Thorough: 200000, Gen: genPanic("s"), Run: runPanic,
	})
}

func TestC15_R_Panics(t *testing.T) {
	core.Check(t, core.Prop[PanicCase]{
		Rule:  "real parallelism under the race detector: " + panicRule,
		Quick: 1500, Thorough: 40000, Gen: genPanic("r"), Run: runPanic,
	})
}
