package xsync

import (
	"fmt"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/chenquan/go-pkg/xsync"
	"pgregory.net/rapid"
	"verif/core"
	"verif/sched"
)

const maxKeys = 4

// COp is one operation of a concurrent history.
type COp struct {
	Op string
	K  int
	V  int   `json:",omitempty"`
	Y  bool  `json:",omitempty"` // the callback lets others run
	Ks []int `json:",omitempty"`
}

// ConcCase is a concurrent program over one map.
type ConcCase struct {
	Plan    sched.Plan
	Shards  int `json:",omitempty"` // 0: a Map
	Keys    int
	Setup   []COp
	Threads [][]COp
}

type absMap interface {
	Load(k int) (int64, bool)
	Store(k int, v int64)
	LoadOrStore(k int, v int64) (int64, bool)
	LoadAndDelete(k int) (int64, bool)
	Delete(k int)
	ComputeIfAbsent(k int, f func() int64) (int64, bool)
	ComputeIfPresent(k int, f func(int64) int64) (int64, bool)
	Clear()
	Range(f func(k int, v int64) bool)
	MStore(ks []int, v int64)
}

func i64(v interface{}) int64 {
	if v == nil {
		return 0
	}
	return v.(int64)
}

type plainMap struct{ m xsync.Map }

func (p *plainMap) Load(k int) (int64, bool) { v, ok := p.m.Load(k); return i64(v), ok }
func (p *plainMap) Store(k int, v int64)     { p.m.Store(k, v) }
func (p *plainMap) LoadOrStore(k int, v int64) (int64, bool) {
	a, l := p.m.LoadOrStore(k, v)
	return i64(a), l
}
func (p *plainMap) LoadAndDelete(k int) (int64, bool) {
	v, ok := p.m.LoadAndDelete(k)
	return i64(v), ok
}
func (p *plainMap) Delete(k int) { p.m.Delete(k) }
func (p *plainMap) ComputeIfAbsent(k int, f func() int64) (int64, bool) {
	a, l := p.m.ComputeIfAbsent(k, func(key interface{}) interface{} {
		if key != interface{}(k) {
			panic(fmt.Sprintf("harness: callback key %v for %v", key, k))
		}
		return f()
	})
	return i64(a), l
}
func (p *plainMap) ComputeIfPresent(k int, f func(int64) int64) (int64, bool) {
	a, l := p.m.ComputeIfPresent(k, func(_, v interface{}) interface{} { return f(i64(v)) })
	return i64(a), l
}
func (p *plainMap) Clear() { p.m.Clear() }
func (p *plainMap) Range(f func(int, int64) bool) {
	p.m.Range(func(k, v interface{}) bool { return f(k.(int), i64(v)) })
}
func (p *plainMap) MStore([]int, int64) { panic("harness: no bulk store") }

var sharedKeys = [maxKeys]string{"a", "b", "key-two", ""}

type sharedMap struct{ m *xsync.SharedMap }

func (p sharedMap) Load(k int) (int64, bool) { v, ok := p.m.Load(sharedKeys[k]); return i64(v), ok }
func (p sharedMap) Store(k int, v int64)     { p.m.Store(sharedKeys[k], v) }
func (p sharedMap) LoadOrStore(k int, v int64) (int64, bool) {
	return 0, !p.m.LoadOrStore(sharedKeys[k], v)
}
func (p sharedMap) LoadAndDelete(int) (int64, bool) { panic("harness: no load-and-delete") }
func (p sharedMap) Delete(k int)                    { p.m.Delete(sharedKeys[k]) }
func (p sharedMap) ComputeIfAbsent(k int, f func() int64) (int64, bool) {
	a, l := p.m.ComputeIfAbsent(sharedKeys[k], func(string) interface{} { return f() })
	return i64(a), l
}
func (p sharedMap) ComputeIfPresent(k int, f func(int64) int64) (int64, bool) {
	a, l := p.m.ComputeIfPresent(sharedKeys[k], func(_ string, v interface{}) interface{} { return f(i64(v)) })
	return i64(a), l
}
func (p sharedMap) Clear() { p.m.Clear() }
func (p sharedMap) Range(f func(int, int64) bool) {
	p.m.Range(func(k, v interface{}) bool {
		for i, s := range sharedKeys {
			if s == k.(string) {
				return f(i, i64(v))
			}
		}
		panic("harness: a range shows an unknown key")
	})
}
func (p sharedMap) MStore(ks []int, v int64) {
	m := map[string]interface{}{}
	for _, k := range ks {
		m[sharedKeys[k]] = v + int64(k)
	}
	p.m.MStore(m)
}

// event is one completed abstract operation.
type event struct {
	op        string
	k         int
	arg       int64
	out       int64
	ok        bool
	call, ret int64
	who       int
}

func (e event) String() string {
	return fmt.Sprintf("[%d,%d] thread %d %s(key %d, %d) = %d, %v", e.call, e.ret, e.who, e.op, e.k, e.arg, e.out, e.ok)
}

type state struct {
	v   [maxKeys]int64
	has [maxKeys]bool
}

func mix(old, id int64) int64 { return old*31 + id + 1 }

func step(s state, e event) (bool, state) {
	k := e.k
	switch e.op {
	case "load":
		return e.ok == s.has[k] && (!e.ok && e.out == 0 || e.ok && e.out == s.v[k]), s
	case "store":
		s.v[k], s.has[k] = e.arg, true
		return true, s
	case "los", "losb", "cia":
		if s.has[k] {
			return e.ok && (e.op == "losb" || e.out == s.v[k]), s
		}
		s.v[k], s.has[k] = e.arg, true
		return !e.ok && (e.op == "losb" || e.out == e.arg), s
	case "lad":
		ok := e.ok == s.has[k] && (!e.ok && e.out == 0 || e.ok && e.out == s.v[k])
		s.v[k], s.has[k] = 0, false
		return ok, s
	case "delete":
		s.v[k], s.has[k] = 0, false
		return true, s
	case "cip":
		if !s.has[k] {
			return !e.ok && e.out == 0, s
		}
		s.v[k] = mix(s.v[k], e.arg)
		return e.ok && e.out == s.v[k], s
	case "clear":
		return true, state{}
	}
	panic("harness: unknown event " + e.op)
}

var linModel = porcupine.Model{
	Init: func() interface{} { return state{} },
	Step: func(s, in, out interface{}) (bool, interface{}) {
		ok, n := step(s.(state), in.(event))
		return ok, n
	},
}

// linearizable decides a history; whole: all keys in one order, otherwise each
// key on its own.
func linearizable(evs []event, whole bool, keys int) (ok, known bool, bad []event) {
	check := func(evs []event) (bool, bool) {
		ops := make([]porcupine.Operation, len(evs))
		for i, e := range evs {
			ops[i] = porcupine.Operation{ClientId: e.who, Input: e, Call: e.call, Output: e, Return: e.ret}
		}
		switch porcupine.CheckOperationsTimeout(linModel, ops, 4*time.Second) {
		case porcupine.Ok:
			return true, true
		case porcupine.Illegal:
			return false, true
		}
		return false, false
	}
	if whole {
		ok, known = check(evs)
		return ok, known, evs
	}
	for k := 0; k < keys; k++ {
		var part []event
		for _, e := range evs {
			if e.k == k || e.op == "clear" {
				part = append(part, e)
			}
		}
		if ok, known := check(part); !ok || !known {
			return ok, known, part
		}
	}
	return true, true, nil
}

// thread runs operations and records what happened.
type thread struct {
	c    *sched.Ctl
	m    absMap
	id   int
	keys int
	evs  []event
	errs []string
}

func (th *thread) add(e event, call, ret int64) {
	e.who, e.call, e.ret = th.id, call, ret
	th.evs = append(th.evs, e)
}

func (th *thread) do(n int, o COp) {
	m, c := th.m, th.c
	id := int64(th.id*1000 + n*10)
	call := c.Now()
	switch o.Op {
	case "load":
		v, ok := m.Load(o.K)
		th.add(event{op: "load", k: o.K, out: v, ok: ok}, call, c.Now())
	case "store":
		m.Store(o.K, id)
		th.add(event{op: "store", k: o.K, arg: id}, call, c.Now())
	case "los":
		v, ok := m.LoadOrStore(o.K, id)
		op := "los"
		if _, shared := m.(sharedMap); shared {
			op = "losb"
		}
		th.add(event{op: op, k: o.K, arg: id, out: v, ok: ok}, call, c.Now())
	case "lad":
		v, ok := m.LoadAndDelete(o.K)
		th.add(event{op: "lad", k: o.K, out: v, ok: ok}, call, c.Now())
	case "delete":
		m.Delete(o.K)
		th.add(event{op: "delete", k: o.K}, call, c.Now())
	case "cia", "ciapanic":
		boom := o.Op == "ciapanic"
		called := 0
		var v int64
		var ok bool
		_, did := core.Panics(func() {
			v, ok = m.ComputeIfAbsent(o.K, func() int64 {
				called++
				// it may run only if the key was absent at some point so far
				th.add(event{op: "load", k: o.K}, call, c.Now())
				if o.Y {
					c.Point()
				}
				if boom {
					panic("boom")
				}
				return id
			})
		})
		if did != (boom && called > 0) {
			th.errs = append(th.errs, fmt.Sprintf("%v: panicked %v after %d callbacks", o, did, called))
		}
		if !did {
			if !ok && called == 0 {
				th.errs = append(th.errs, fmt.Sprintf("%v: computed without calling the function", o))
			}
			th.add(event{op: "cia", k: o.K, arg: id, out: v, ok: ok}, call, c.Now())
		}
	case "cip", "cippanic":
		boom := o.Op == "cippanic"
		called := 0
		var v int64
		var ok bool
		_, did := core.Panics(func() {
			v, ok = m.ComputeIfPresent(o.K, func(old int64) int64 {
				called++
				th.add(event{op: "load", k: o.K, out: old, ok: true}, call, c.Now())
				if o.Y {
					c.Point()
				}
				if boom {
					panic("boom")
				}
				return mix(old, id)
			})
		})
		if did != (boom && called > 0) {
			th.errs = append(th.errs, fmt.Sprintf("%v: panicked %v after %d callbacks", o, did, called))
		}
		if !did {
			th.add(event{op: "cip", k: o.K, arg: id, out: v, ok: ok}, call, c.Now())
		}
	case "clear":
		m.Clear()
		if _, shared := m.(sharedMap); shared {
			// one key at a time
			ret := c.Now()
			for k := 0; k < th.keys; k++ {
				th.add(event{op: "delete", k: k}, call, ret)
			}
			return
		}
		th.add(event{op: "clear"}, call, c.Now())
	case "mstore":
		m.MStore(o.Ks, id)
		ret := c.Now()
		done := map[int]bool{}
		for _, k := range o.Ks {
			if !done[k] {
				th.add(event{op: "store", k: k, arg: id + int64(k)}, call, ret)
			}
			done[k] = true
		}
	case "range":
		seen := [maxKeys]bool{}
		m.Range(func(k int, v int64) bool {
			if seen[k] {
				th.errs = append(th.errs, fmt.Sprintf("a range shows key %d twice", k))
			}
			seen[k] = true
			th.add(event{op: "load", k: k, out: v, ok: true}, call, c.Now())
			if o.Y {
				c.Point()
			}
			return true
		})
		ret := c.Now()
		for k := 0; k < th.keys; k++ {
			if !seen[k] {
				th.add(event{op: "load", k: k}, call, ret)
			}
		}
	default:
		panic("harness: operation " + o.Op)
	}
}

func runConc(t *testing.T, c ConcCase, r *core.Rec) error {
	var m absMap = &plainMap{}
	if c.Shards > 0 {
		m = sharedMap{xsync.NewSharedMap(xsync.WithShardBlockSize(c.Shards))}
	}
	ths := make([]*thread, len(c.Threads)+1)
	decided, err := core.Concurrent(t, c.Plan, r, func(ctl *sched.Ctl) {
		for i := range ths {
			ths[i] = &thread{c: ctl, m: m, id: i, keys: c.Keys}
		}
		for i, o := range c.Setup {
			ths[0].do(i+1, o)
		}
		done := make(chan struct{}, len(c.Threads))
		for i := range c.Threads {
			i := i
			ctl.Go(fmt.Sprint("T", i+1), func() {
				for n, o := range c.Threads[i] {
					ths[i+1].do(n+1, o)
				}
				done <- struct{}{}
			})
		}
		for range c.Threads {
			<-done
		}
		for k := 0; k < c.Keys; k++ {
			ths[0].do(50+k, COp{Op: "load", K: k})
		}
		ths[0].do(60, COp{Op: "range"})
	})
	if err != nil || !decided {
		return err
	}
	var evs []event
	overlap := 0
	for _, th := range ths {
		if len(th.errs) > 0 {
			return fmt.Errorf("%s", th.errs[0])
		}
		for _, e := range th.evs {
			for _, f := range evs {
				if e.who != f.who && e.call < f.ret && f.call < e.ret && (e.k == f.k || e.op == "clear" || f.op == "clear") && (e.op != "load" || f.op != "load") {
					overlap++
				}
			}
		}
		evs = append(evs, th.evs...)
	}
	ok, known, bad := linearizable(evs, c.Shards == 0, c.Keys)
	if !known {
		r.Inconclusive("linearizability")
		return nil
	}
	if !ok {
		s := ""
		for _, e := range bad {
			s += "\n  " + e.String()
		}
		return fmt.Errorf("no one-at-a-time order explains the results:%s", s)
	}
	r.NonTrivial(overlap >= 2)
	r.LabelIf(overlap >= 2, "overlapping conflicting calls")
	return nil
}

func genConc(t *rapid.T, shared, panics bool, free bool) ConcCase {
	var c ConcCase
	if free {
		c.Plan = core.Free
	} else {
		c.Plan = core.Plan(t)
	}
	ops := []string{"load", "load", "store", "store", "los", "los", "delete", "delete", "cia", "cia", "cip", "cip", "clear", "range"}
	if shared {
		c.Shards = rapid.IntRange(1, 5).Draw(t, "shards")
		ops = append(ops, "mstore", "mstore")
	} else {
		ops = append(ops, "lad", "lad", "lad")
	}
	if panics {
		ops = append(ops, "ciapanic", "ciapanic", "cippanic", "cippanic", "cia", "cip", "cia", "cip")
	}
	c.Keys = rapid.IntRange(1, 3).Draw(t, "keys")
	gen := func(label string) COp {
		o := COp{Op: rapid.SampledFrom(ops).Draw(t, label), K: rapid.IntRange(0, c.Keys-1).Draw(t, label+"k")}
		switch o.Op {
		case "cia", "cip", "range", "ciapanic", "cippanic":
			o.Y = rapid.Bool().Draw(t, label+"y")
		case "mstore":
			o.Ks = rapid.SliceOfN(rapid.IntRange(0, c.Keys-1), 1, 3).Draw(t, label+"ks")
		}
		return o
	}
	// The setup drives the two-level map into its various internal states: by
	// chance, or keys promoted, some of them deleted, then perhaps a new key.
	if rapid.IntRange(0, 2).Draw(t, "staged") == 2 {
		for k := 0; k < c.Keys; k++ {
			if rapid.IntRange(0, 3).Draw(t, "had") > 0 {
				c.Setup = append(c.Setup, COp{Op: "store", K: k})
			}
		}
		had := len(c.Setup)
		c.Setup = append(c.Setup, COp{Op: "range", Y: true})
		for _, o := range c.Setup[:had] {
			if rapid.Bool().Draw(t, "gone") {
				c.Setup = append(c.Setup, COp{Op: "delete", K: o.K})
			}
		}
		if rapid.IntRange(0, 2).Draw(t, "new") == 2 {
			c.Setup = append(c.Setup, COp{Op: "store", K: rapid.IntRange(0, c.Keys-1).Draw(t, "newk")})
		}
	} else {
		for i, n := 0, rapid.IntRange(0, 8).Draw(t, "setup"); i < n; i++ {
			o := gen("s")
			if rapid.IntRange(0, 3).Draw(t, "kind") > 0 {
				o = COp{Op: rapid.SampledFrom([]string{"store", "load", "delete", "range"}).Draw(t, "s2"), K: o.K}
			}
			c.Setup = append(c.Setup, o)
		}
	}
	nt := rapid.IntRange(2, 4).Draw(t, "threads")
	for i := 0; i < nt; i++ {
		var th []COp
		for j, n := 0, rapid.IntRange(1, 4).Draw(t, "len"); j < n; j++ {
			th = append(th, gen("o"))
		}
		c.Threads = append(c.Threads, th)
	}
	return c
}

const concRule = "2-4 threads of 1-4 map calls each on 1-3 keys after a sequential setup; the history with its real-time order must be linearizable against a dictionary; non-trivial: at least two pairs of conflicting calls overlap in time"

func TestC02_S_Linearizable(t *testing.T) {
	core.Check(t, core.Prop[ConcCase]{
		Rule:  "every statement of the package a scheduling point, interleaving drawn (few preemptions, priorities, random walk): " + concRule,
		Quick: 30000, Thorough: 1200000,
		Gen: func(t *rapid.T) ConcCase { return genConc(t, false, false, false) },
		Run: runConc,
	})
}

func TestC02_R_Linearizable(t *testing.T) {
	core.Check(t, core.Prop[ConcCase]{
		Rule:  "real parallelism under the race detector: " + concRule,
		Quick: 6000, Thorough: 200000,
		Gen: func(t *rapid.T) ConcCase { return genConc(t, false, false, true) },
		Run: runConc,
	})
}

func TestC03_S_PerKey(t *testing.T) {
	core.Check(t, core.Prop[ConcCase]{
		Rule:  "SharedMap of 1-5 shards, every statement a scheduling point, each key's history on its own: " + concRule,
		Quick: 16000, Thorough: 600000,
		Gen: func(t *rapid.T) ConcCase { return genConc(t, true, false, false) },
		Run: runConc,
	})
}

func TestC03_R_PerKey(t *testing.T) {
	core.Check(t, core.Prop[ConcCase]{
		Rule:  "SharedMap under the race detector, each key's history on its own: " + concRule,
		Quick: 4000, Thorough: 150000,
		Gen: func(t *rapid.T) ConcCase { return genConc(t, true, false, true) },
		Run: runConc,
	})
}

func TestC04_S_Callbacks(t *testing.T) {
	core.Check(t, core.Prop[ConcCase]{
		Rule:  "compute calls, some with panicking callbacks, among other calls on a Map or SharedMap; a callback counts as having seen the key absent (present with that value) at some moment of its call; " + concRule,
		Quick: 16000, Thorough: 600000,
		Gen: func(t *rapid.T) ConcCase { return genConc(t, rapid.IntRange(0, 2).Draw(t, "shared") == 2, true, false) },
		Run: runConc,
	})
}
