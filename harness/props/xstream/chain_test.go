package xstream

import (
	"fmt"
	"reflect"
	"sort"
	"testing"

	"github.com/chenquan/go-pkg/xstream"
	"pgregory.net/rapid"
	"verif/core"
	"verif/sched"
)

// ------------------------------------------------------------------- C14

type ChainCase struct {
	Plan   sched.Plan
	Src    Src
	Stages []Stage
	Read   string // chan, foreach, collect, func
	Slow   int    `json:",omitempty"`
	Final  int    // -1, or the parameter of a last sort by a partial order
}

func (e *env) read(st *xstream.Stream, how string, slow int) (got []interface{}) {
	add := func(x interface{}) {
		got = append(got, x)
		for i := 0; i < slow; i++ {
			e.Point()
		}
	}
	switch how {
	case "foreach":
		st.Foreach(add)
	case "func":
		st.Collection(xstream.CollectorFunc(func(c <-chan interface{}) {
			for x := range c {
				add(x)
			}
		}))
	default:
		for x := range st.Chan() {
			add(x)
		}
	}
	return got
}

func runChain(t *testing.T, c ChainCase, r *core.Rec) error {
	want := els(c.Src.Vals)
	type peeked struct {
		at   int
		want []interface{}
	}
	var peeks []peeked
	for i, s := range c.Stages {
		if s.Op == "peek" {
			peeks = append(peeks, peeked{i, want})
		}
		want = apply(want, s)
	}
	decided, err := exec(t, c.Plan, r, func(e *env) {
		st := e.source(c.Src, false)
		for i, s := range c.Stages {
			st = e.stage(st, i, s)
		}
		if c.Final >= 0 {
			st = st.Sort(less(c.Final))
		}
		got := e.read(st, c.Read, c.Slow)
		switch {
		case c.Final >= 0:
			if !sameBag(got, want) {
				e.fail("sorting is not a permutation:\n got  %s\n want %s", brief(got), brief(want))
			}
			if !sort.SliceIsSorted(got, func(i, j int) bool { return less(c.Final)(got[i], got[j]) }) {
				e.fail("not sorted: %s", brief(got))
			}
		case !same(got, want):
			e.fail("the stream delivers\n      %s\nthe list operations give\n      %s", brief(got), brief(want))
		}
		e.finish()
		for _, p := range peeks {
			p := p
			e.eventually(func() bool {
				e.mu.Lock()
				defer e.mu.Unlock()
				return len(e.logs[p.at]) >= len(p.want)
			})
			e.mu.Lock()
			l := append([]interface{}(nil), e.logs[p.at]...)
			e.mu.Unlock()
			if !same(l, p.want) {
				e.fail("peek (stage %d) was called for\n      %s\ninstead of\n      %s", p.at, brief(l), brief(p.want))
			}
		}
	})
	if err != nil || !decided {
		return err
	}
	r.NonTrivial(len(c.Src.Vals) >= 2 && len(c.Stages) >= 1)
	for _, s := range c.Stages {
		r.Label("stage:%s", s.Op)
	}
	r.LabelIf(len(c.Stages) >= 3, "three or more stages")
	return nil
}

func genChain(mode string) func(t *rapid.T) ChainCase {
	return func(t *rapid.T) ChainCase {
		c := ChainCase{Plan: planFor(t, mode), Final: -1}
		limit, stages := 8, 4
		switch mode {
		case "p":
			limit, stages = 60, 8
			if rapid.IntRange(0, 9).Draw(t, "long") == 9 {
				limit = 2500
			}
			limit = core.LongEvery(t, 600, limit, 70000)
		case "r":
			limit, stages = 20, 5
		}
		c.Src = genSrc(t, limit)
		c.Stages, _ = genStages(t, els(c.Src.Vals), core.Uni(t, 0, stages, "stages"), listOps, true)
		if mode == "p" && len(c.Src.Vals) <= 12 {
			for i, s := range c.Stages {
				if n := core.LongEvery(t, 300, 0, 3000); s.Op == "flat" && n > 0 {
					c.Stages[i].N = max(100, core.LongSize(t, "xstream", n, "slice"))
					break
				}
			}
		}
		c.Read = rapid.SampledFrom([]string{"chan", "chan", "foreach", "func"}).Draw(t, "read")
		c.Slow = rapid.IntRange(0, 2).Draw(t, "slow")
		if rapid.IntRange(0, 7).Draw(t, "finalsort") == 7 {
			c.Final = rapid.IntRange(10, 11).Draw(t, "final")
		}
		return c
	}
}

const c14rule = "a finite source (Of, From, Range; nil and repeated elements) through a random chain of distinct/buffer/sort/tail/skip/limit/reverse/peek/filter/map/flat-map/walk stages with one worker; delivered list and peek calls compared with the same list operations; non-trivial: two or more elements and at least one stage"

func TestC14_P_Chain(t *testing.T) {
	core.Check(t, core.Prop[ChainCase]{
		Rule:  "real pool, up to 2500 elements and 8 stages: " + c14rule,
		Quick: 120000, Thorough: 4000000, Gen: genChain("p"), Run: runChain,
	})
}

func TestC14_S_Chain(t *testing.T) {
	core.Check(t, core.Prop[ChainCase]{
		Rule:  "controlled interleavings: " + c14rule,
		Quick: 60000, Thorough: 1500000, Gen: genChain("s"), Run: runChain,
	})
}

// ------------------------------------------------------------------- C17

type QueryCase struct {
	Plan   sched.Plan
	Src    Src
	Stages []Stage
	Query  string
	N      int
	Open   bool `json:",omitempty"` // the source stays open; the elements seen decide
}

func runQuery(t *testing.T, c QueryCase, r *core.Rec) error {
	list := els(c.Src.Vals)
	for _, s := range c.Stages {
		list = apply(list, s)
	}
	pred := func(x interface{}) bool { return mod(num(x), c.N+1) == c.N/2 }
	decisive := -1
	for i, x := range list {
		if c.Query == "first" || c.Query == "any" && pred(x) || c.Query == "all" && !pred(x) {
			decisive = i
			break
		}
	}
	open := c.Open && (decisive >= 0 || c.Query == "limit" && len(list) >= c.N)
	decided, err := exec(t, c.Plan, r, func(e *env) {
		st := e.source(c.Src, open)
		for i, s := range c.Stages {
			st = e.stage(st, i, s)
		}
		var calls []interface{}
		see := func(x interface{}) { e.Point(); calls = append(calls, x) }
		seen := list
		if decisive >= 0 {
			seen = list[:decisive+1]
		}
		switch c.Query {
		case "count":
			if n := st.Count(); n != len(list) {
				e.fail("count is %d, the stream has %d elements", n, len(list))
			}
		case "foreach":
			st.Foreach(see)
			if !same(calls, list) {
				e.fail("foreach visits %s, not %s", brief(calls), brief(list))
			}
		case "reverse":
			st.ForeachOrdered(see)
			if rev := apply(list, Stage{Op: "reverse"}); !same(calls, rev) {
				e.fail("reverse foreach visits %s, not %s", brief(calls), brief(rev))
			}
		case "any":
			got := st.AnyMach(func(x interface{}) bool { see(x); return pred(x) })
			if got != (decisive >= 0) {
				e.fail("any-match is %v on %s", got, brief(list))
			}
			if !same(calls, seen) {
				e.fail("any-match looks at %s, not %s", brief(calls), brief(seen))
			}
		case "all":
			got := st.AllMach(func(x interface{}) bool { see(x); return pred(x) })
			if got != (decisive < 0) {
				e.fail("all-match is %v on %s", got, brief(list))
			}
			if !same(calls, seen) {
				e.fail("all-match looks at %s, not %s", brief(calls), brief(seen))
			}
		case "first", "last":
			f := st.FindFirst
			i := 0
			if c.Query == "last" {
				f, i = st.FindLast, len(list)-1
			}
			got, err := f()
			if len(list) == 0 {
				if err != xstream.ErrNoElement {
					e.fail("find-%s on an empty stream gives %v, error %v", c.Query, got, err)
				}
			} else if err != nil || !reflect.DeepEqual(got, list[i]) {
				e.fail("find-%s gives %v, error %v, on %s", c.Query, got, err, brief(list))
			}
		case "group":
			g := xstream.GroupBy(keyOf(c.N))
			st.Collection(g)
			want := map[interface{}][]interface{}{}
			for _, x := range list {
				k := keyOf(c.N)(x)
				want[k] = append(want[k], x)
			}
			for i := 0; i < 2; i++ {
				if got := g.Map(); fmt.Sprint(got) != fmt.Sprint(want) || len(got) != len(want) {
					e.fail("the group collector gives %v, not %v", got, want)
				}
			}
		case "func", "chan":
			if got := e.read(st, c.Query, 0); !same(got, list) {
				e.fail("%s delivers %s, not %s", c.Query, brief(got), brief(list))
			}
		case "done":
			st.Done()
		case "limit":
			want := apply(list, Stage{Op: "limit", N: c.N})
			if got := e.read(st.Limit(c.N), "chan", 0); !same(got, want) {
				e.fail("limit(%d) delivers %s, not %s", c.N, brief(got), brief(want))
			}
		}
		close(e.release)
		e.finish()
	})
	if err != nil || !decided {
		return err
	}
	r.Label("query:%s", c.Query)
	r.LabelIf(open, "the source stays open")
	r.LabelIf(len(list) == 0, "empty stream")
	r.NonTrivial(len(list) >= 1 || c.Query == "any" || c.Query == "all" || c.Query == "first" || c.Query == "last")
	return nil
}

var passing = []string{"buffer", "skip", "peek", "filter", "map", "distinct", "walk", "flat"}

func genQuery(mode string) func(t *rapid.T) QueryCase {
	return func(t *rapid.T) QueryCase {
		c := QueryCase{Plan: planFor(t, mode)}
		limit, stages, ops := 6, 3, listOps
		switch mode {
		case "p":
			limit, stages = 40, 4
			if rapid.IntRange(0, 9).Draw(t, "long") == 9 {
				limit = 2500
			}
			limit = core.LongEvery(t, 600, limit, 70000)
		case "r":
			limit = 15
		}
		c.Src = genSrc(t, limit)
		c.Query = rapid.SampledFrom([]string{"count", "foreach", "reverse", "any", "any", "all", "all", "first", "first", "last", "group", "func", "chan", "done", "limit"}).Draw(t, "query")
		switch c.Query {
		case "any", "all", "first", "limit":
			c.Open = rapid.Bool().Draw(t, "open")
		}
		if c.Open {
			ops = passing
			if c.Src.Kind != "rangego" {
				c.Src.Kind = "from"
			}
		}
		var l []interface{}
		c.Stages, l = genStages(t, els(c.Src.Vals), core.Uni(t, 0, stages, "stages"), ops, true)
		c.N = rapid.IntRange(0, 8).Draw(t, "qn")
		switch c.Query {
		case "limit":
			c.N = vast(t, size(t, len(l), 0))
		case "group":
			c.N = manyKeys(t, l, c.N)
		}
		return c
	}
}

const c17rule = "a finite stream behind a random chain of stages, or one whose source stays open after the deciding element, and one terminal query; result, visited elements and errors compared with the list of elements; non-trivial: a non-empty stream, or a query whose answer on the empty stream is defined"

func TestC17_P_Query(t *testing.T) {
	core.Check(t, core.Prop[QueryCase]{
		Rule:  "real pool: " + c17rule,
		Quick: 200000, Thorough: 6000000, Gen: genQuery("p"), Run: runQuery,
	})
}

func TestC17_S_Query(t *testing.T) {
	core.Check(t, core.Prop[QueryCase]{
		Rule:  "controlled interleavings: " + c17rule,
		Quick: 60000, Thorough: 1500000, Gen: genQuery("s"), Run: runQuery,
	})
}
