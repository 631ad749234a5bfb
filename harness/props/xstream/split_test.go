package xstream

import (
	"fmt"
	"testing"

	"github.com/chenquan/go-pkg/xstream"
	"pgregory.net/rapid"
	"verif/core"
	"verif/sched"
)

// ------------------------------------------------------------------- C16

type Input struct {
	Src    Src
	Stages []Stage
}

type Copied struct {
	Buf    int
	Stages []Stage
	Slow   int `json:",omitempty"`
}

type SplitCase struct {
	Plan   sched.Plan
	In     Input
	Op     string // split, sub, group, merge, concat, copy, splitflat, subflat
	N      int
	Late   bool     `json:",omitempty"` // sub: read the sub-streams after the outer one ended
	Others []Input  `json:",omitempty"`
	Static bool     `json:",omitempty"` // concat through the package function
	Raw    bool     `json:",omitempty"` // concat without marking the elements
	Copies []Copied `json:",omitempty"`
	Slow   int      `json:",omitempty"`
}

type tag struct {
	src, pos int
	v        interface{}
}

func (i Input) list() []interface{} {
	l := els(i.Src.Vals)
	for _, s := range i.Stages {
		l = apply(l, s)
	}
	return l
}

func (e *env) input(i Input, at int) *xstream.Stream {
	st := e.source(i.Src, false)
	for k, s := range i.Stages {
		st = e.stage(st, at+k, s)
	}
	return st
}

func runSplit(t *testing.T, c SplitCase, r *core.Rec) error {
	list := c.In.list()
	decided, err := exec(t, c.Plan, r, func(e *env) {
		st := e.input(c.In, 0)
		slow := func() {
			for i := 0; i < c.Slow; i++ {
				e.Point()
			}
		}
		switch c.Op {
		case "split":
			want := chunks(list, c.N)
			var got [][]interface{}
			for x := range st.Split(c.N).Chan() {
				p, ok := x.([]interface{})
				if !ok {
					e.fail("split delivers a %T", x)
					continue
				}
				k := len(got)
				if k < len(want) && !same(p, want[k]) {
					e.fail("piece %d is %s instead of %s", k, brief(p), brief(want[k]))
				}
				got = append(got, p)
				slow()
			}
			if len(got) != len(want) {
				e.fail("%d pieces of %d for %d elements", len(got), c.N, len(list))
			}
			for k := 0; k < len(got) && k < len(want); k++ {
				if len(got[k]) == 0 || !same(got[k], want[k]) {
					e.fail("piece %d has become %s instead of %s", k, brief(got[k]), brief(want[k]))
				}
			}
		case "sub":
			want := chunks(list, c.N)
			var later []*xstream.Stream
			k := 0
			read := func(s *xstream.Stream) {
				got := e.read(s, "chan", c.Slow)
				if k >= len(want) || len(got) == 0 || !same(got, want[k]) {
					e.fail("sub-stream %d delivers %s; the list splits into %v", k, brief(got), want)
				}
				k++
			}
			for x := range st.SplitSteam(c.N).Chan() {
				s, ok := x.(*xstream.Stream)
				if !ok {
					e.fail("the split stream delivers a %T", x)
					continue
				}
				if c.Late {
					later = append(later, s)
				} else {
					read(s)
				}
			}
			for _, s := range later {
				read(s)
			}
			if k != len(want) {
				e.fail("%d sub-streams of %d for %d elements", k, c.N, len(list))
			}
		case "group":
			want := map[interface{}][]interface{}{}
			for _, g := range apply(list, Stage{Op: "group", N: c.N}) {
				g := g.([]interface{})
				want[keyOf(c.N)(g[0])] = g
			}
			seen := map[interface{}]bool{}
			var keys []interface{}
			var got [][]interface{}
			for x := range st.Group(keyOf(c.N)).Chan() {
				g, ok := x.([]interface{})
				if !ok || len(g) == 0 {
					e.fail("group delivers %T %v", x, x)
					continue
				}
				k := keyOf(c.N)(g[0])
				if seen[k] {
					e.fail("key %v is delivered twice", k)
				}
				seen[k] = true
				keys, got = append(keys, k), append(got, g)
				slow()
			}
			for i, k := range keys {
				if !same(got[i], want[k]) {
					e.fail("the group of key %v is %s instead of %s", k, brief(got[i]), brief(want[k]))
				}
			}
			if len(keys) != len(want) {
				e.fail("%d groups instead of %d", len(keys), len(want))
			}
		case "merge":
			n := 0
			for x := range st.Merge().Chan() {
				n++
				if g, ok := x.([]interface{}); !ok || !same(g, list) {
					e.fail("merge delivers %T %v instead of the slice %s", x, x, brief(list))
				}
			}
			if n != 1 {
				e.fail("merge delivers %d slices", n)
			}
		case "splitflat", "subflat":
			got := e.read(e.stage(st, 90, Stage{Op: c.Op, N: c.N}), "chan", c.Slow)
			if !same(got, list) {
				e.fail("splitting by %d and flattening gives %s instead of %s", c.N, brief(got), brief(list))
			}
		case "concat":
			lists := [][]interface{}{list}
			tagged := func(st *xstream.Stream, src int) *xstream.Stream {
				if c.Raw {
					return st
				}
				n := 0
				return st.Map(func(x interface{}) interface{} {
					n++
					return tag{src, n - 1, x}
				})
			}
			first := tagged(st, 0)
			var others []*xstream.Stream
			for i, o := range c.Others {
				others = append(others, tagged(e.input(o, 10*(i+1)), i+1))
				lists = append(lists, o.list())
			}
			var cat *xstream.Stream
			if c.Static {
				cat = xstream.Concat(first, others...)
			} else {
				cat = first.Concat(others...)
			}
			if c.Raw {
				var all []interface{}
				for _, l := range lists {
					all = append(all, l...)
				}
				if got := e.read(cat, "chan", c.Slow); !sameBag(got, all) {
					e.fail("the concatenation delivers %s instead of the elements %s", brief(got), brief(all))
				}
				break
			}
			next := make([]int, len(lists))
			for x := range cat.Chan() {
				g, ok := x.(tag)
				if !ok {
					e.fail("the concatenation delivers %T %v", x, x)
					continue
				}
				if g.pos != next[g.src] || g.pos >= len(lists[g.src]) || !same([]interface{}{g.v}, lists[g.src][g.pos:g.pos+1]) {
					e.fail("the concatenation delivers element %d (%v) of input %d after %d of its elements", g.pos, g.v, g.src, next[g.src])
				}
				next[g.src]++
				slow()
			}
			for i := range next {
				if next[i] != len(lists[i]) {
					e.fail("the concatenation delivers %d of %d elements of input %d", next[i], len(lists[i]), i)
				}
			}
		case "copy":
			param := map[string]int{}
			for i, k := range c.Copies {
				param[fmt.Sprint("c", i)] = k.Buf
			}
			m := st.Copy(param)
			if len(m) != len(param) {
				e.fail("%d copies instead of %d", len(m), len(param))
			}
			done := make(chan struct{}, len(c.Copies))
			for i, k := range c.Copies {
				i, k := i, k
				e.Go(fmt.Sprint("copy", i), func() {
					defer func() { done <- struct{}{} }()
					s := m[fmt.Sprint("c", i)]
					if s == nil {
						e.fail("copy c%d is missing", i)
						return
					}
					want := list
					for j, g := range k.Stages {
						s = e.stage(s, 100+10*i+j, g)
						want = apply(want, g)
					}
					if got := e.read(s, "chan", k.Slow); !same(got, want) {
						e.fail("copy %d delivers %s instead of %s", i, brief(got), brief(want))
					}
				})
			}
			for range c.Copies {
				<-done
			}
		}
		e.finish()
	})
	if err != nil || !decided {
		return err
	}
	r.Label("op:%s", c.Op)
	r.LabelIf(len(list) > 5000, "more than 5000 elements")
	r.LabelIf(len(c.Others) > 30 || len(c.Copies) > 30, "more than 30 inputs or copies")
	r.NonTrivial(len(list) >= 2)
	return nil
}

func genSplit(mode string) func(t *rapid.T) SplitCase {
	return func(t *rapid.T) SplitCase {
		c := SplitCase{Plan: planFor(t, mode)}
		limit, stages := 8, 2
		if mode == "p" {
			limit = 60
			if rapid.IntRange(0, 9).Draw(t, "long") == 9 {
				limit = 2500
			}
			limit = core.LongEvery(t, 600, limit, 70000)
		}
		input := func(limit int) Input {
			var i Input
			i.Src = genSrc(t, limit)
			i.Stages, _ = genStages(t, els(i.Src.Vals), rapid.IntRange(0, stages).Draw(t, "stages"), listOps, true)
			return i
		}
		c.In = input(limit)
		c.Op = rapid.SampledFrom([]string{"split", "sub", "group", "merge", "concat", "concat", "copy", "copy", "splitflat", "subflat"}).Draw(t, "splitop")
		c.Slow = rapid.IntRange(0, 2).Draw(t, "slow")
		n := len(c.In.list())
		switch c.Op {
		case "split", "sub", "splitflat", "subflat":
			c.N = vast(t, size(t, n, 1))
			c.Late = rapid.Bool().Draw(t, "late")
		case "group":
			c.N = manyKeys(t, c.In.list(), rapid.IntRange(0, 8).Draw(t, "gn"))
		case "concat":
			c.Static = rapid.Bool().Draw(t, "static")
			c.Raw = rapid.Bool().Draw(t, "raw")
			k := core.Uni(t, 0, 3, "others")
			if mode != "s" && core.Uni(t, 0, 60, "many") == 30 {
				k, limit = core.Uni(t, 4, 150, "others"), 4
			}
			for i := 0; i < k; i++ {
				c.Others = append(c.Others, input(limit))
			}
		case "copy":
			k := core.Uni(t, 0, 3, "copies")
			if mode != "s" && core.Uni(t, 0, 60, "many") == 30 && n <= 100 {
				k = core.Uni(t, 4, 150, "copies")
			}
			for i := 0; i < k; i++ {
				cp := Copied{Buf: size(t, n, 0), Slow: rapid.IntRange(0, 3).Draw(t, "slow")}
				cp.Stages, _ = genStages(t, c.In.list(), rapid.IntRange(0, 1).Draw(t, "copystages"), listOps, true)
				c.Copies = append(c.Copies, cp)
			}
		}
		return c
	}
}

const c16rule = "finite streams behind random stages, split (chunks, sub-streams read at once or late), grouped, merged, concatenated (up to 4, rarely 150 inputs) or copied (up to 3, rarely 150 copies of any buffer size, each with its own stages); delivered pieces compared with the list, also after everything has finished; non-trivial: two or more elements"

func TestC16_P_Split(t *testing.T) {
	core.Check(t, core.Prop[SplitCase]{
		Rule:  "real pool: " + c16rule,
		Quick: 100000, Thorough: 3000000, Gen: genSplit("p"), Run: runSplit,
	})
}

func TestC16_S_Split(t *testing.T) {
	core.Check(t, core.Prop[SplitCase]{
		Rule:  "controlled interleavings: " + c16rule,
		Quick: 50000, Thorough: 1000000, Gen: genSplit("s"), Run: runSplit,
	})
}

func TestC16_R_Split(t *testing.T) {
	core.Check(t, core.Prop[SplitCase]{
		Rule:  "real parallelism under the race detector: " + c16rule,
		Quick: 8000, Thorough: 200000, Gen: genSplit("r"), Run: runSplit,
	})
}
