package xonce

import (
	"errors"
	"fmt"
	"reflect"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/chenquan/go-pkg/xonce"
	"pgregory.net/rapid"
	"verif/core"
	"verif/sched"
)

// Val is a value of one of many dynamic types.
type Val struct {
	T string
	N int
}

var types = []string{"int", "int", "str", "nil", "nil", "f64", "bool", "struct", "ptr", "nilptr", "err", "slice", "map", "chan", "func", "nilslice", "emptystruct"}

type pair struct {
	A int
	B interface{}
}

var ptrs [32]*int

func init() {
	for i := range ptrs {
		ptrs[i] = new(int)
	}
}

func (v Val) Get() interface{} {
	switch v.T {
	case "int":
		return v.N
	case "str":
		return fmt.Sprint("s", v.N)
	case "f64":
		return float64(v.N)
	case "bool":
		return v.N%2 == 0
	case "struct":
		return pair{v.N, nil}
	case "emptystruct":
		return struct{}{}
	case "ptr":
		return ptrs[v.N%len(ptrs)]
	case "nilptr":
		return (*int)(nil)
	case "err":
		return errors.New("e")
	case "slice":
		return []int{v.N}
	case "nilslice":
		return []int(nil)
	case "map":
		return map[int]int{v.N: 1}
	case "chan":
		return make(chan int)
	case "func":
		return func() int { return v.N }
	}
	return nil
}

func same(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	ta := reflect.TypeOf(a)
	if ta != reflect.TypeOf(b) {
		return false
	}
	if ta.Comparable() {
		return a == b
	}
	return reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
}

// Seq is a sequence of writes by one caller.
type Seq struct {
	Chan   bool
	Writes []Val
	Take   int // when to receive from the channel: after this many writes
}

// others are cells that nobody but their creator touches.
type others struct {
	v [2]*xonce.Value
	c [2]*xonce.Chan
}

func bystanders() *others {
	o := &others{[2]*xonce.Value{xonce.NewValue(), xonce.NewValue()}, [2]*xonce.Chan{xonce.NewChan(), xonce.NewChan()}}
	o.v[1].Write("other")
	o.c[1].Write("other")
	return o
}

func (o *others) check() error {
	if v, w := o.v[0].Value(), o.v[1].Value(); v != nil || w != "other" {
		return fmt.Errorf("another, unwritten cell reads %v, one written before reads %v", v, w)
	}
	select {
	case v, ok := <-o.c[0].Chan():
		return fmt.Errorf("another, unwritten channel delivers %v, %v", v, ok)
	default:
	}
	if v, ok := <-o.c[1].Chan(); !ok || v != "other" {
		return fmt.Errorf("another channel, written before, delivers %v, %v", v, ok)
	}
	if o.v[1].Write(1) || o.c[1].Write(1) || !o.v[0].Write(1) || !o.c[0].Write(1) {
		return fmt.Errorf("writes to other cells have wrong results")
	}
	return nil
}

func runSeq(c Seq, r *core.Rec) (err error) {
	o := bystanders()
	defer func() {
		if err == nil {
			err = o.check()
		}
	}()
	vs := make([]interface{}, len(c.Writes))
	kinds := map[string]bool{}
	for i, w := range c.Writes {
		vs[i] = w.Get()
		kinds[w.T] = true
	}
	r.NonTrivial(len(vs) >= 2 && len(kinds) >= 2)
	r.LabelIf(len(vs) > 0 && vs[0] == nil, "nil written first")
	if !c.Chan {
		cell := xonce.NewValue()
		if v := cell.Value(); v != nil {
			return fmt.Errorf("a fresh cell reads %v", v)
		}
		for i, v := range vs {
			if ok := cell.Write(v); ok != (i == 0) {
				return fmt.Errorf("write %d (%T) = %v", i, v, ok)
			}
			for k := 0; k < 2; k++ {
				if got := cell.Value(); !same(got, vs[0]) {
					return fmt.Errorf("after write %d the cell reads %v (%T), the first write was %v (%T)", i, got, got, vs[0], vs[0])
				}
			}
		}
		return nil
	}
	cell := xonce.NewChan()
	select {
	case v, ok := <-cell.Chan():
		return fmt.Errorf("a fresh channel delivers %v, %v", v, ok)
	default:
	}
	taken := false
	take := func(n int) error {
		if n == 0 {
			select {
			case v, ok := <-cell.Chan():
				return fmt.Errorf("before any write the channel delivers %v, %v", v, ok)
			default:
				return nil
			}
		}
		v, ok := <-cell.Chan()
		if !taken && (!ok || !same(v, vs[0])) || taken && (ok || v != nil) {
			return fmt.Errorf("after %d writes the channel delivers %v (%T), %v; first write %v (%T), taken before %v", n, v, v, ok, vs[0], vs[0], taken)
		}
		taken = true
		return nil
	}
	for i, v := range vs {
		if i == c.Take {
			if err := take(i); err != nil {
				return err
			}
		}
		if ok := cell.Write(v); ok != (i == 0) {
			return fmt.Errorf("write %d (%T) = %v", i, v, ok)
		}
	}
	if len(vs) > 0 {
		for k := 0; k < 3; k++ {
			if err := take(len(vs)); err != nil {
				return err
			}
		}
	}
	return nil
}

func TestC07_P_Sequences(t *testing.T) {
	core.Check(t, core.Prop[Seq]{
		Rule:  "sequences of up to 8 writes of 16 dynamic types (nil, uncomparable and mixed included) to one cell, read back after each; non-trivial: two or more writes of different types",
		Quick: 40000, Thorough: 800000,
		Gen: func(t *rapid.T) Seq {
			c := Seq{Chan: rapid.Bool().Draw(t, "chan"), Take: rapid.IntRange(0, 9).Draw(t, "take")}
			for i, n := 0, rapid.IntRange(0, 8).Draw(t, "n"); i < n; i++ {
				c.Writes = append(c.Writes, Val{rapid.SampledFrom(types).Draw(t, "t"), rapid.IntRange(0, 9).Draw(t, "v")})
			}
			return c
		},
		Run: func(t *testing.T, c Seq, r *core.Rec) error { return runSeq(c, r) },
	})
}

// Conc is a concurrent program over one cell.
type Conc struct {
	Plan    sched.Plan
	Chan    bool
	Writers [][]Val
	Readers []int // reads per reader
}

type event struct {
	op        string
	arg       interface{}
	ok        bool
	call, ret int64
	who       int
}

type state struct {
	set bool
	v   interface{}
}

var model = porcupine.Model{
	Init: func() interface{} { return state{} },
	Step: func(st, in, _ interface{}) (bool, interface{}) {
		s, e := st.(state), in.(event)
		if e.op == "write" {
			if e.ok {
				return !s.set, state{true, e.arg}
			}
			return s.set, s
		}
		if s.set {
			return same(e.arg, s.v), s
		}
		return e.arg == nil, s
	},
	Equal: func(a, b interface{}) bool {
		x, y := a.(state), b.(state)
		return x.set == y.set && same(x.v, y.v)
	},
}

func runConc(t *testing.T, c Conc, r *core.Rec) error {
	cell, ch := xonce.NewValue(), (*xonce.Chan)(nil)
	n := len(c.Writers) + len(c.Readers)
	evs := make([][]event, n+1)
	violated := make([]string, n+1)
	got := make([][]interface{}, n)
	var winner interface{}
	wins := 0
	decided, err := core.Concurrent(t, c.Plan, r, func(ctl *sched.Ctl) {
		ch = xonce.NewChan() // inside the execution
		o := bystanders()
		defer func() {
			if e := o.check(); e != nil {
				violated[n] = e.Error()
			}
		}()
		done := make(chan struct{}, n)
		wdone := make(chan struct{}, n)
		for i, ws := range c.Writers {
			i, ws := i, ws
			ctl.Go(fmt.Sprint("W", i), func() {
				for _, w := range ws {
					v := w.Get()
					call := ctl.Now()
					var ok bool
					if c.Chan {
						ok = ch.Write(v)
					} else {
						ok = cell.Write(v)
					}
					evs[i] = append(evs[i], event{"write", v, ok, call, ctl.Now(), i})
				}
				wdone <- struct{}{}
			})
		}
		for j, reads := range c.Readers {
			i, reads := len(c.Writers)+j, reads
			ctl.Go(fmt.Sprint("R", j), func() {
				for k := 0; k < reads; k++ {
					if c.Chan {
						if k%2 == 1 { // sometimes without waiting
							select {
							case v, ok := <-ch.Chan():
								if ok {
									got[i] = append(got[i], v)
								}
							default:
							}
							continue
						}
						v, ok := <-ch.Chan()
						if ok {
							got[i] = append(got[i], v)
						}
						continue
					}
					call := ctl.Now()
					v := cell.Value()
					evs[i] = append(evs[i], event{"read", v, true, call, ctl.Now(), i})
				}
				done <- struct{}{}
			})
		}
		for range c.Writers {
			<-wdone
		}
		for range c.Readers {
			<-done
		}
		if c.Chan {
			// drained or not, the channel must now be closed
			for k := 0; k < 2; k++ {
				v, ok := <-ch.Chan()
				if ok {
					got[0] = append(got[0], v)
				} else if v != nil {
					violated[n] = fmt.Sprintf("the closed channel delivers %v", v)
				}
			}
		} else {
			call := ctl.Now()
			v := cell.Value()
			evs[n] = append(evs[n], event{"read", v, true, call, ctl.Now(), n})
		}
	})
	if err != nil || !decided {
		return err
	}
	var ops []porcupine.Operation
	var all []event
	overlap := 0
	writes := 0
	for _, l := range evs {
		for _, e := range l {
			if e.op == "write" {
				writes++
				if e.ok {
					wins++
					winner = e.arg
				}
			}
			for _, f := range all {
				if f.who != e.who && e.call < f.ret && f.call < e.ret {
					overlap++
				}
			}
			all = append(all, e)
			ops = append(ops, porcupine.Operation{ClientId: e.who, Input: e, Call: e.call, Return: e.ret})
		}
	}
	if violated[n] != "" {
		return fmt.Errorf("%s", violated[n])
	}
	if wins != 1 {
		return fmt.Errorf("%d of %d writes report success", wins, writes)
	}
	if c.Chan {
		var vs []interface{}
		for _, g := range got {
			vs = append(vs, g...)
		}
		if len(vs) != 1 || !same(vs[0], winner) {
			return fmt.Errorf("the channel delivered %v, the successful write was %v", vs, winner)
		}
		ops = ops[:0] // a loser may return before the value is in the channel
	}
	switch porcupine.CheckOperationsTimeout(model, ops, 4*time.Second) {
	case porcupine.Unknown:
		r.Inconclusive("linearizability")
		return nil
	case porcupine.Illegal:
		return fmt.Errorf("no one-at-a-time order explains: %+v", all)
	}
	r.NonTrivial(overlap >= 1 && writes >= 2)
	return nil
}

func genConc(t *rapid.T, free bool) Conc {
	c := Conc{Plan: core.Free, Chan: rapid.Bool().Draw(t, "chan")}
	if !free {
		c.Plan = core.Plan(t)
	}
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "writers"); i < n; i++ {
		var ws []Val
		for j, m := 0, rapid.IntRange(1, 3).Draw(t, "writes"); j < m; j++ {
			ws = append(ws, Val{rapid.SampledFrom(types).Draw(t, "t"), 3*i + j})
		}
		c.Writers = append(c.Writers, ws)
	}
	for i, n := 0, rapid.IntRange(0, 2).Draw(t, "readers"); i < n; i++ {
		c.Readers = append(c.Readers, rapid.IntRange(1, 3).Draw(t, "reads"))
	}
	return c
}

const concRule = "1-4 writers of 1-3 values of any type and up to 2 readers on one value cell (linearizable against a write-once register) or channel cell (winner's value delivered once, then closed); non-trivial: two or more writes, some overlapping calls"

func TestC07_S_Concurrent(t *testing.T) {
	core.Check(t, core.Prop[Conc]{
		Rule:  "controlled interleavings: " + concRule,
		Quick: 30000, Thorough: 600000,
		Gen: func(t *rapid.T) Conc { return genConc(t, false) }, Run: runConc,
	})
}

func TestC07_R_Concurrent(t *testing.T) {
	core.Check(t, core.Prop[Conc]{
		Rule:  "real parallelism under the race detector: " + concRule,
		Quick: 8000, Thorough: 150000,
		Gen: func(t *rapid.T) Conc { return genConc(t, true) }, Run: runConc,
	})
}
