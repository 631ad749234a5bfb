package xring

import (
	"fmt"
	"math"
	"math/bits"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/chenquan/go-pkg/xring"
	"pgregory.net/rapid"
	"verif/core"
	"verif/sched"
)

// ------------------------------------------------- histories of one caller

// Op adds a number of elements, takes, or modifies what an earlier take gave.
type Op struct {
	Op string // add, take, scribble
	N  int    `json:",omitempty"` // additions; which take to modify
}

type SeqCase struct {
	Size int
	Ops  []Op
	Ints bool `json:",omitempty"` // elements are small numbers: cheap
	By   int  `json:",omitempty"` // another ring of that size
}

var numbers = func() (l [1021]interface{}) {
	for i := range l {
		l[i] = i
	}
	return l
}()

// value makes the i-th added element.
func value(i int) interface{} {
	switch i % 7 {
	case 3:
		return nil
	case 5:
		return fmt.Sprint("s", i)
	}
	return i
}

type taken struct{ got, want []interface{} }

func runSeq(t *testing.T, c SeqCase, r *core.Rec) error {
	if c.Size < 1 {
		if _, did := core.Panics(func() { xring.NewRing(c.Size) }); !did {
			return fmt.Errorf("NewRing(%d) does not panic", c.Size)
		}
		r.Label("rejected size")
		r.NonTrivial(true)
		return nil
	}
	ring := xring.NewRing(c.Size)
	var other *xring.Ring
	if c.By > 0 {
		other = xring.NewRing(c.By)
		for i := 0; i <= c.By; i++ {
			other.Add(-i)
		}
	}
	added := 0
	value := value
	if c.Ints {
		value = func(i int) interface{} { return numbers[i%len(numbers)] }
	}
	expect := func() []interface{} {
		k := added
		if k > c.Size {
			k = c.Size
		}
		l := make([]interface{}, 0, k)
		for i := added - k; i < added; i++ {
			l = append(l, value(i))
		}
		return l
	}
	var takes []taken
	for i, o := range c.Ops {
		switch o.Op {
		case "add":
			for k := 0; k < o.N; k++ {
				ring.Add(value(added))
				added++
			}
		case "take":
			got, want := ring.Take(), expect()
			if len(got) != len(want) || len(got) > 0 && !reflect.DeepEqual(got, want) {
				return fmt.Errorf("op %d: a ring of size %d takes %v after %d additions, expected %v", i, c.Size, short(got), added, short(want))
			}
			takes = append(takes, taken{got, want})
		case "scribble":
			if len(takes) > 0 {
				tk := takes[mod(o.N, len(takes))]
				full := tk.got[:cap(tk.got)]
				for k := range full {
					full[k] = "scribble"
				}
				for k := range tk.want {
					tk.want[k] = "scribble"
				}
			}
		}
	}
	for k, tk := range takes {
		if len(tk.got) > 0 && !reflect.DeepEqual(tk.got, tk.want) {
			return fmt.Errorf("what take %d returned has changed to %v, it was %v", k, short(tk.got), short(tk.want))
		}
	}
	if got, want := ring.Take(), expect(); len(got) != len(want) || len(got) > 0 && !reflect.DeepEqual(got, want) {
		return fmt.Errorf("in the end a ring of size %d takes %v after %d additions, expected %v", c.Size, short(got), added, short(want))
	}
	if c.By > 0 {
		got := other.Take()
		for i := range got {
			if len(got) != c.By || got[i] != -1-i {
				return fmt.Errorf("in the end another ring of size %d takes %v", c.By, short(got))
			}
		}
	}
	r.NonTrivial(added > c.Size && len(takes) > 0)
	r.LabelIf(added > 2*c.Size, "wrapped twice or more")
	r.LabelIf(added <= c.Size, "never wrapped")
	return nil
}

// long histories: counters in the ring pass 2^8, 2^16 and more.
func TestC19_P_Long(t *testing.T) {
	core.Check(t, core.Prop[SeqCase]{
		Rule:  "rings of size 1-300 (or near 2^8 and 2^16) that receive 2^8 to 2^18 (a few 2^26) additions, with takes around powers of two and after the last addition; non-trivial: more additions than the size",
		Quick: 150, Thorough: 6000,
		Gen: func(t *rapid.T) SeqCase {
			c := SeqCase{}
			switch core.Uni(t, 0, 4, "sizekind") {
			case 0:
				c.Size = 1<<8 + rapid.IntRange(-2, 2).Draw(t, "size")
			case 1:
				c.Size = 1<<16 + rapid.IntRange(-2, 2).Draw(t, "size")
			default:
				c.Size = core.Uni(t, 1, 300, "size")
			}
			lo, log := 4, core.Uni(t, 8, 18, "log")
			if core.LongEvery(t, 60, 0, 1) == 1 {
				lo, log, c.Ints = 10, core.Uni(t, 20, 26, "log"), true
				if core.Thorough() && core.Uni(t, 0, 3, "huge") == 0 {
					log = core.Uni(t, 30, 33, "log")
				}
				c.Size = min(c.Size, 300)
			}
			at, end := 0, 1<<log
			for at < end {
				o := Op{Op: "add", N: 1<<core.Uni(t, lo, max(16, log-3), "step") + rapid.IntRange(-2, 2).Draw(t, "near")}
				if up := bits.Len(uint(at)); at > 0 && rapid.Bool().Draw(t, "power") {
					o.N = 1<<up - at + rapid.IntRange(-1, 2).Draw(t, "around") // to about the next power of two
				}
				at += o.N
				c.Ops = append(c.Ops, o, Op{Op: "take"})
			}
			return c
		},
		Run: runSeq,
	})
}

func mod(a, m int) int { return ((a % m) + m) % m }

func short(l []interface{}) string {
	if len(l) > 40 {
		return fmt.Sprintf("%v...(%d)", l[:40], len(l))
	}
	return fmt.Sprint(l)
}

func TestC19_P_Sequence(t *testing.T) {
	core.Check(t, core.Prop[SeqCase]{
		Rule:  "additions, takes and modifications of taken slices on a ring of size 1-3000 (or a rejected size), compared with the list of the last additions, also after later operations; non-trivial: more additions than the size, and a take",
		Quick: 100000, Thorough: 3000000,
		Gen: func(t *rapid.T) SeqCase {
			c := SeqCase{}
			switch core.Uni(t, 0, 9, "sizekind") {
			case 0:
				c.Size = rapid.SampledFrom([]int{0, -1, -2, math.MinInt, math.MinInt32}).Draw(t, "size")
				return c
			case 1:
				c.Size = core.Int(t, "xring", 1, 3000, "size")
			case 2, 3:
				c.Size = rapid.IntRange(1, 70).Draw(t, "size")
			default:
				c.Size = core.Uni(t, 1, 9, "size")
			}
			if core.Uni(t, 0, 2, "by") == 2 {
				c.By = core.Uni(t, 1, 6, "by size")
				if rapid.Bool().Draw(t, "alike") {
					c.By = c.Size
				}
			}
			for i, n := 0, core.Uni(t, 1, 12, "ops"); i < n; i++ {
				o := Op{Op: rapid.SampledFrom([]string{"add", "add", "take", "take", "scribble"}).Draw(t, "op")}
				switch o.Op {
				case "add":
					switch core.Uni(t, 0, 3, "many") {
					case 0:
						o.N = c.Size + rapid.IntRange(-1, 1).Draw(t, "near")
					case 1:
						o.N = rapid.IntRange(0, 3*c.Size).Draw(t, "n")
					default:
						o.N = rapid.IntRange(1, 4).Draw(t, "n")
					}
				case "scribble":
					o.N = rapid.IntRange(0, 5).Draw(t, "which")
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Run: runSeq,
	})
}

// ------------------------------------------------- concurrent histories

type ConcCase struct {
	Plan    sched.Plan
	Size    int
	Before  int        // additions before the start
	Threads [][]string // add, take
}

type event struct {
	add  int
	take string
}

type state struct {
	size int
	last string // the last elements, comma separated
}

func (s state) push(v int) state {
	l := []string{}
	if s.last != "" {
		l = strings.Split(s.last, ",")
	}
	l = append(l, fmt.Sprint(v))
	if len(l) > s.size {
		l = l[1:]
	}
	s.last = strings.Join(l, ",")
	return s
}

func runConc(t *testing.T, c ConcCase, r *core.Rec) error {
	init := state{size: c.Size}
	for i := 0; i < c.Before; i++ {
		init = init.push(i)
	}
	var ops []porcupine.Operation
	takes, adds, overlaps := 0, 0, 0
	results := make([][]porcupine.Operation, len(c.Threads)+1)
	decided, err := core.Concurrent(t, c.Plan, r, func(ctl *sched.Ctl) {
		ring := xring.NewRing(c.Size)
		for i := 0; i < c.Before; i++ {
			ring.Add(i)
		}
		show := func(l []interface{}) string {
			var s []string
			for _, x := range l {
				s = append(s, fmt.Sprint(x))
			}
			return strings.Join(s, ",")
		}
		done := make(chan struct{}, len(c.Threads))
		for ti := range c.Threads {
			ti := ti
			ctl.Go(fmt.Sprint("T", ti), func() {
				defer func() { done <- struct{}{} }()
				for k, op := range c.Threads[ti] {
					call := ctl.Now()
					if op == "add" {
						v := (ti+1)*1000 + k
						ring.Add(v)
						results[ti] = append(results[ti], porcupine.Operation{ClientId: ti, Input: event{add: v}, Call: call, Return: ctl.Now()})
						continue
					}
					l := ring.Take()
					ret := ctl.Now()
					s := show(l)
					results[ti] = append(results[ti], porcupine.Operation{ClientId: ti, Input: event{add: -1, take: s}, Call: call, Return: ret})
					for i := range l {
						l[i] = "scribble"
					}
				}
			})
		}
		for range c.Threads {
			<-done
		}
		call := ctl.Now()
		s := show(ring.Take())
		results[len(c.Threads)] = append(results[len(c.Threads)], porcupine.Operation{ClientId: len(c.Threads), Input: event{add: -1, take: s}, Call: call, Return: ctl.Now()})
	})
	if err != nil || !decided {
		return err
	}
	for _, l := range results {
		ops = append(ops, l...)
	}
	for i, a := range ops {
		if a.Input.(event).add >= 0 {
			adds++
		} else {
			takes++
		}
		for _, b := range ops[:i] {
			if a.ClientId != b.ClientId && a.Call < b.Return && b.Call < a.Return {
				overlaps++
			}
		}
	}
	m := porcupine.Model{
		Init: func() interface{} { return init },
		Step: func(s, in, _ interface{}) (bool, interface{}) {
			e, st := in.(event), s.(state)
			if e.add >= 0 {
				return true, st.push(e.add)
			}
			return st.last == e.take, st
		},
	}
	switch porcupine.CheckOperationsTimeout(m, ops, 4*time.Second) {
	case porcupine.Unknown:
		r.Inconclusive("checker time")
		return nil
	case porcupine.Illegal:
		s := ""
		for _, o := range ops {
			s += fmt.Sprintf("\n  caller %d %d-%d %+v", o.ClientId, o.Call, o.Return, o.Input)
		}
		return fmt.Errorf("no order of the additions explains every take (size %d, before: %s):%s", c.Size, init.last, s)
	}
	r.NonTrivial(overlaps > 0 && takes > 1 && adds > 0)
	r.LabelIf(c.Before+adds > c.Size, "wrapped")
	return nil
}

func genConc(free bool) func(t *rapid.T) ConcCase {
	return func(t *rapid.T) ConcCase {
		c := ConcCase{Plan: core.Free, Size: core.Uni(t, 1, 5, "size")}
		if !free {
			c.Plan = core.Plan(t)
		}
		c.Before = core.Uni(t, 0, 2*c.Size, "before")
		for i, n := 0, core.Uni(t, 2, 4, "threads"); i < n; i++ {
			var l []string
			for k, m := 0, core.Uni(t, 1, 4, "ops"); k < m; k++ {
				l = append(l, rapid.SampledFrom([]string{"add", "take"}).Draw(t, "op"))
			}
			c.Threads = append(c.Threads, l)
		}
		return c
	}
}

const concRule = "2-4 callers with 1-4 additions or takes each on a ring of size 1-5; the history must be linearizable against the list of the last additions; non-trivial: overlapping calls, an addition and a take"

func TestC19_S_Concurrent(t *testing.T) {
	core.Check(t, core.Prop[ConcCase]{
		Rule:  "controlled interleavings: " + concRule,
		Quick: 60000, Thorough: 1500000, Gen: genConc(false), Run: runConc,
	})
}

func TestC19_R_Concurrent(t *testing.T) {
	core.Check(t, core.Prop[ConcCase]{
		Rule:  "real parallelism under the race detector: " + concRule,
		Quick: 10000, Thorough: 200000, Gen: genConc(true), Run: runConc,
	})
}
