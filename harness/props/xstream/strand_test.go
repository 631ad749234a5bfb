package xstream

import (
	"fmt"
	"testing"

	"github.com/chenquan/go-pkg/xstream"
	"pgregory.net/rapid"
	"verif/core"
	"verif/sched"
)

// ------------------------------------------------------------------- C18

// Pipe is a source, stages, and what consumes the result.
type Pipe struct {
	Src      Src
	Concat   []Input `json:",omitempty"` // further inputs, joined after the source
	Stages   []Stage
	Term     string
	N        int    `json:",omitempty"`
	Branches []Pipe `json:",omitempty"` // copies: only their stages and terminals
	Bufs     []int  `json:",omitempty"`
	Wait     bool   `json:",omitempty"` // let everything move before the terminal
}

type StrandCase struct {
	Plan  sched.Plan
	Pipes []Pipe
	Turn  bool `json:",omitempty"` // consume the streams one after another
}

func mustPanic(e *env, what string, f func()) {
	defer func() {
		if recover() == nil {
			e.fail("%s does not panic", what)
		}
	}()
	f()
}

func (e *env) consume(p Pipe, st *xstream.Stream) {
	pred := func(x interface{}) bool { e.Point(); return mod(num(x), p.N+2) == 0 }
	switch p.Term {
	case "chan":
		n := 0
		for x := range st.Chan() {
			if s, ok := x.(*xstream.Stream); ok && n%2 == p.N%2 {
				s.Done()
			}
			n++
		}
	case "count":
		st.Count()
	case "done":
		st.Done()
	case "foreach":
		st.Foreach(func(x interface{}) { e.Point() })
	case "reverse":
		st.ForeachOrdered(func(x interface{}) { e.Point() })
	case "first":
		_, _ = st.FindFirst()
	case "last":
		_, _ = st.FindLast()
	case "any":
		st.AnyMach(pred)
	case "all":
		st.AllMach(pred)
	case "finish":
		st.ParallelFinish(func(x interface{}) { e.Point() }, xstream.WithWorkSize(p.N))
	case "group":
		g := xstream.GroupBy(keyOf(p.N))
		st.Collection(g)
		g.Map()
	case "limit":
		st.Limit(p.N).Done()
	case "limit0":
		st.Limit(0).Done()
	case "tail0":
		st.Tail(0).Done()
	case "negskip":
		mustPanic(e, "a skip of a negative size", func() { st.Skip(-1 - p.N) })
	case "negtail":
		mustPanic(e, "a tail of a negative size", func() { st.Tail(-1 - p.N) })
	case "negsub":
		mustPanic(e, "a split into sub-streams of a size below one", func() { st.SplitSteam(-p.N) })
	case "copy":
		param := map[string]int{}
		for i := range p.Branches {
			param[fmt.Sprint(i)] = p.Bufs[i]
		}
		m := st.Copy(param)
		done := make(chan struct{}, len(p.Branches))
		for i, b := range p.Branches {
			i, b := i, b
			e.Go("copy", func() {
				defer func() { done <- struct{}{} }()
				s := m[fmt.Sprint(i)]
				for k, g := range b.Stages {
					s = e.stage(s, k, g)
				}
				e.consume(b, s)
			})
		}
		for range p.Branches {
			<-done
		}
	default:
		panic("terminal " + p.Term)
	}
}

func (e *env) build(p Pipe) *xstream.Stream {
	st := e.source(p.Src, false)
	if len(p.Concat) > 0 {
		var others []*xstream.Stream
		for _, o := range p.Concat {
			others = append(others, e.input(o, 0))
		}
		st = st.Concat(others...)
	}
	for i, s := range p.Stages {
		st = e.stage(st, i, s)
	}
	return st
}

func runStrand(t *testing.T, c StrandCase, r *core.Rec) error {
	producers := 0
	decided, err := exec(t, c.Plan, r, func(e *env) {
		if c.Turn {
			var sts []*xstream.Stream
			for _, p := range c.Pipes {
				sts = append(sts, e.build(p))
			}
			e.WaitIdle()
			for i, p := range c.Pipes {
				e.consume(p, sts[i])
			}
		} else {
			done := make(chan struct{}, len(c.Pipes))
			for _, p := range c.Pipes {
				p := p
				e.Go("consumer", func() {
					defer func() { done <- struct{}{} }()
					st := e.build(p)
					if p.Wait {
						e.WaitIdle()
					}
					e.consume(p, st)
				})
			}
			for range c.Pipes {
				<-done
			}
		}
		e.finish()
		producers = len(e.sent)
	})
	if err != nil || !decided {
		return err
	}
	short := false
	for _, p := range c.Pipes {
		r.Label("terminal:%s", p.Term)
		switch p.Term {
		case "first", "any", "all", "limit", "limit0", "tail0", "negskip", "negtail", "negsub":
			short = short || len(p.Src.Vals) > 1
		}
		short = short || len(p.Src.Vals) > 1 && shortCircuit(p.Stages)
	}
	r.LabelIf(len(c.Pipes) > 1, "several streams at once")
	r.LabelIf(producers > 0, "own producers")
	r.NonTrivial(short && producers > 0)
	return nil
}

var (
	termOps = []string{"chan", "chan", "count", "done", "foreach", "reverse", "first", "first", "last", "any", "any", "all", "all", "finish", "group", "limit", "limit0", "tail0", "negskip", "negtail", "negsub", "copy", "copy"}
	anyOps  = append([]string{"split", "splitflat", "subflat", "group", "merge", "limit", "limit"}, listOps...)
)

func genPipe(t *rapid.T, limit, stages int, depth int, src *Src, known []interface{}) Pipe {
	var p Pipe
	if src == nil {
		p.Src = genSrc(t, limit)
		known = els(p.Src.Vals)
		if core.Uni(t, 0, 4, "concat") == 4 {
			for i, n := 0, rapid.IntRange(1, 2).Draw(t, "inputs"); i < n; i++ {
				in := Input{Src: genSrc(t, limit)}
				in.Stages, _ = genStages(t, els(in.Src.Vals), rapid.IntRange(0, 2).Draw(t, "stages"), anyOps, false)
				p.Concat = append(p.Concat, in)
			}
		}
	}
	p.Stages, known = genStages(t, known, core.Uni(t, 0, stages, "stages"), anyOps, false)
	p.Term = rapid.SampledFrom(termOps).Draw(t, "term")
	p.N = rapid.IntRange(0, 6).Draw(t, "tn")
	if p.Term == "limit" {
		p.N = vast(t, size(t, len(known), 0))
	}
	if p.Term == "chan" && rapid.Bool().Draw(t, "subs") {
		p.Stages = append(p.Stages, Stage{Op: "sub", N: vast(t, size(t, len(known), 1))})
	}
	p.Wait = rapid.Bool().Draw(t, "wait")
	if p.Term == "copy" {
		if depth == 0 {
			p.Term = "first"
			return p
		}
		for i, n := 0, core.Uni(t, 0, 3, "copies"); i < n; i++ {
			p.Bufs = append(p.Bufs, size(t, len(known), 0))
			p.Branches = append(p.Branches, genPipe(t, limit, stages/2, depth-1, &p.Src, known))
		}
	}
	return p
}

func genStrand(mode string) func(t *rapid.T) StrandCase {
	return func(t *rapid.T) StrandCase {
		c := StrandCase{Plan: planFor(t, mode)}
		limit, stages, pipes := 6, 3, 3
		switch mode {
		case "p":
			limit, stages = 40, 5
			if rapid.IntRange(0, 9).Draw(t, "long") == 9 {
				limit = 2500
			}
			limit = core.LongEvery(t, 600, limit, 70000)
		case "r":
			limit = 12
		}
		n := 1
		if core.Uni(t, 0, 2, "many") == 2 {
			n = rapid.IntRange(2, pipes).Draw(t, "pipes")
		}
		for i := 0; i < n; i++ {
			c.Pipes = append(c.Pipes, genPipe(t, limit, stages, 2, nil, nil))
		}
		c.Turn = rapid.Bool().Draw(t, "turn")
		return c
	}
}

const c18rule = "one to three simultaneous streams - sources, optional concatenation, random chains of all stages with 1-4 workers, copies with their own chains - each ended by a random full, short-circuiting or (negative size) panicking consumer, at once or one after another; every producer must finish and nothing may stay blocked; non-trivial: something short-circuits a stream of two or more elements with its own producer"

func TestC18_S_Strand(t *testing.T) {
	core.Check(t, core.Prop[StrandCase]{
		Rule:  "controlled interleavings: " + c18rule,
		Quick: 100000, Thorough: 1500000, Gen: genStrand("s"), Run: runStrand,
	})
}

func TestC18_R_Strand(t *testing.T) {
	core.Check(t, core.Prop[StrandCase]{
		Rule:  "real parallelism under the race detector: " + c18rule,
		Quick: 14000, Thorough: 250000, Gen: genStrand("r"), Run: runStrand,
	})
}

func TestC18_P_Strand(t *testing.T) {
	core.Check(t, core.Prop[StrandCase]{
		Rule:  "real pool, sources of up to 2500 elements: " + c18rule,
		Quick: 40000, Thorough: 1500000, Gen: genStrand("p"), Run: runStrand,
	})
}

// ManyCase holds many unconsumed streams at once.
type ManyCase struct {
	Streams int
	Each    int
	Stages  []Stage
	Term    string
	Back    bool `json:",omitempty"` // consume the newest first
}

func TestC18_P_Many(t *testing.T) {
	core.Check(t, core.Prop[ManyCase]{
		Rule:  "real pool: up to 12000 streams are built before any is consumed, then all are, oldest or newest first, and every producer must finish; non-trivial: 100 streams or more",
		Quick: 160, Thorough: 4000,
		Gen: func(t *rapid.T) ManyCase {
			c := ManyCase{Each: rapid.IntRange(0, 6).Draw(t, "each"), Back: rapid.Bool().Draw(t, "back")}
			c.Streams = rapid.SampledFrom([]int{10, 100, 300, 1000, 1100, 2500, 5000, 12000}).Draw(t, "streams")
			for i, n := 0, core.Uni(t, 0, 2, "stages"); i < n; i++ {
				c.Stages = append(c.Stages, Stage{Op: rapid.SampledFrom([]string{"buffer", "map", "filter", "skip", "peek", "limit", "tail", "split", "distinct", "merge"}).Draw(t, "op"), N: rapid.IntRange(1, 4).Draw(t, "n")})
			}
			c.Term = rapid.SampledFrom([]string{"done", "count", "first", "limit", "any"}).Draw(t, "term")
			return c
		},
		Run: func(t *testing.T, c ManyCase, r *core.Rec) error {
			r.NonTrivial(c.Streams >= 100)
			r.Label("streams:%d", c.Streams)
			_, err := exec(t, sched.Plan{Mode: "plain"}, r, func(e *env) {
				src := Src{Kind: "from"}
				for i := 0; i < c.Each; i++ {
					src.Vals = append(src.Vals, i)
				}
				sts := make([]*xstream.Stream, c.Streams)
				for i := range sts {
					sts[i] = e.build(Pipe{Src: src, Stages: c.Stages})
				}
				for i := range sts {
					if c.Back {
						i = len(sts) - 1 - i
					}
					e.consume(Pipe{Term: c.Term, N: 1}, sts[i])
				}
				e.finish()
			})
			return err
		},
	})
}
