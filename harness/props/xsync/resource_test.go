package xsync

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/chenquan/go-pkg/xsync"
	"pgregory.net/rapid"
	"verif/core"
	"verif/sched"
)

// ROp is one call on a resource manager.
type ROp struct {
	Op    string // get, remove
	K     int
	Fail  bool  `json:",omitempty"` // the creation fails
	Both  bool  `json:",omitempty"` // ... but returns a resource as well
	Panic bool  `json:",omitempty"` // the creation panics
	Steps int   `json:",omitempty"` // how long the creation takes
	Bad   bool  `json:",omitempty"` // closing the created resource fails
	In    []ROp `json:",omitempty"` // calls the creation makes: gets of later keys, removes of any
}

// RCase is a concurrent program over one resource manager.
type RCase struct {
	Plan    sched.Plan
	Keys    int
	Mgrs    int `json:",omitempty"` // key k is key k/Mgrs of manager k%Mgrs
	Threads [][]ROp
	Closers int `json:",omitempty"` // further goroutines close the managers at the same time
}

// managers are the resource managers of a case.
type managers []*xsync.ResourceManager

func (m managers) at(k int) (*xsync.ResourceManager, string) {
	return m[k%len(m)], rkey(k / len(m))
}

type res struct {
	id     int
	key    int
	err    error
	closed int32
}

func (r *res) Close() error { atomic.AddInt32(&r.closed, 1); return r.err }

type rEvent struct {
	op        string // get, absent, remove
	k, id     int
	ok        bool
	call, ret int64
	who       int
}

func (e rEvent) String() string {
	return fmt.Sprintf("[%d,%d] thread %d %s(key %d) resource %d, %v", e.call, e.ret, e.who, e.op, e.k, e.id, e.ok)
}

type rState struct {
	cur  int
	used string
}

var rModel = porcupine.Model{
	Init: func() interface{} { return rState{} },
	Step: func(st, in, _ interface{}) (bool, interface{}) {
		s, e := st.(rState), in.(rEvent)
		switch e.op {
		case "absent":
			return s.cur == 0, s
		case "remove":
			was := s.cur != 0
			s.cur = 0
			return e.ok == was, s
		case "get":
			if s.cur == e.id {
				return true, s
			}
			mark := fmt.Sprintf(",%d,", e.id)
			if s.cur != 0 || strings.Contains(s.used, mark) {
				return false, s
			}
			return true, rState{e.id, s.used + mark}
		}
		panic("harness: event")
	},
}

type rThread struct {
	id     int
	evs    []rEvent
	errs   []string
	spans  []span  // creations run by this thread
	failed []fails // errors its creations returned or panicked with
	got    []errGot
	made   []*res
	nested int
	panics int
}

type span struct {
	k          int
	start, end int64
}
type fails struct {
	k         int
	err       error
	call, ret int64 // of the whole get
	panic     bool
}
type errGot struct {
	k         int
	err       error
	call, ret int64
	panic     bool
}

// carries: got is the error, wraps it or tells its message.
func carries(got, err error) bool {
	return errors.Is(got, err) || strings.Contains(got.Error(), err.Error())
}

// closing closes a manager that others close as well: a panic counts as a refusal.
func closing(m *xsync.ResourceManager) (err error) {
	defer func() { _ = recover() }()
	return m.Close()
}

func runResource(t *testing.T, c RCase, r *core.Rec) error {
	ths := make([]*rThread, len(c.Threads)+1)
	var m managers
	var closeErr []error
	early := false
	openBeforeClose := int32(0)
	decided, err := core.Concurrent(t, c.Plan, r, func(ctl *sched.Ctl) {
		for i := 0; i < max(1, c.Mgrs); i++ {
			m = append(m, xsync.NewResourceManager())
		}
		for i := range ths {
			ths[i] = &rThread{id: i}
		}
		done := make(chan struct{}, len(c.Threads))
		for i := range c.Threads {
			th, ops := ths[i+1], c.Threads[i]
			ctl.Go(fmt.Sprint("T", i+1), func() {
				for n, o := range ops {
					th.do(ctl, m, n, o)
				}
				done <- struct{}{}
			})
		}
		for range c.Threads {
			<-done
		}
		// What is still registered?
		for k := 0; k < c.Keys; k++ {
			ths[0].do(ctl, m, 50+k, ROp{Op: "get", K: k, Fail: true})
		}
		for _, th := range ths {
			for _, x := range th.made {
				openBeforeClose += x.closed
			}
		}
		for i := range m {
			i := i
			others := make(chan error, c.Closers)
			for n := 0; n < c.Closers; n++ {
				ctl.Go(fmt.Sprint("closer ", n), func() { others <- closing(m[i]) })
			}
			err := m[i].Close()
			for n := 0; n < c.Closers; n++ {
				if e := <-others; err == nil {
					err = e
				} else if e != nil {
					err = fmt.Errorf("%v\n%v", err, e)
				}
			}
			closeErr = append(closeErr, err)
			for _, th := range ths {
				for _, x := range th.made {
					early = early || x.key%len(m) > i && x.closed > 0
				}
			}
		}
	})
	if err != nil || !decided {
		return err
	}
	if openBeforeClose != 0 {
		return fmt.Errorf("a resource was closed before the manager was")
	}
	var all []*res
	for _, th := range ths {
		if len(th.errs) > 0 {
			return fmt.Errorf("%s", th.errs[0])
		}
		all = append(all, th.made...)
	}
	joined, removed := false, 0
	registered := map[int]bool{}
	for k := 0; k < c.Keys; k++ {
		var ops []porcupine.Operation
		var evs []rEvent
		for _, th := range ths {
			for _, e := range th.evs {
				if e.k == k {
					evs = append(evs, e)
					ops = append(ops, porcupine.Operation{ClientId: e.who, Input: e, Call: e.call, Output: nil, Return: e.ret})
					if e.op == "remove" && e.ok {
						removed++
					}
				}
			}
			for _, a := range th.spans {
				for _, o := range ths {
					for _, b := range o.spans {
						if o != th && a.k == k && b.k == k && a.start < b.end && b.start < a.end {
							return fmt.Errorf("two creations for key %d overlap: [%d,%d] and [%d,%d]", k, a.start, a.end, b.start, b.end)
						}
					}
				}
			}
			for _, g := range th.got {
				if g.k != k {
					continue
				}
				found := false
				for _, o := range ths {
					for _, f := range o.failed {
						if f.k == k && f.panic == g.panic && carries(g.err, f.err) && f.call < g.ret && g.call < f.ret {
							found = true
							joined = joined || o != th
						}
					}
				}
				if !found {
					return fmt.Errorf("get of key %d reports an error (panicked: %v) of no creation in progress: %v", k, g.panic, g.err)
				}
			}
		}
		// the last thing known about the key: the probe of thread 0
		for _, e := range ths[0].evs {
			if e.k == k && e.op == "get" {
				registered[e.id] = true
			}
		}
		switch porcupine.CheckOperationsTimeout(rModel, ops, 4*time.Second) {
		case porcupine.Unknown:
			r.Inconclusive("linearizability")
			return nil
		case porcupine.Illegal:
			s := ""
			for _, e := range evs {
				s += "\n  " + e.String()
			}
			return fmt.Errorf("no one-at-a-time order explains the gets and removes of key %d:%s", k, s)
		}
	}
	if early {
		return fmt.Errorf("closing a manager closed a resource of another")
	}
	msgs := make([][]string, len(m))
	several := false
	for _, x := range all {
		want := int32(0)
		if registered[x.id] {
			want = 1
			if x.err != nil {
				msgs[x.key%len(m)] = append(msgs[x.key%len(m)], x.err.Error())
			}
		}
		if x.closed != want {
			return fmt.Errorf("closing the manager closed resource %d of key %d %d times, want %d", x.id, x.key, x.closed, want)
		}
	}
	for i := range m {
		if (closeErr[i] != nil) != (len(msgs[i]) > 0) {
			return fmt.Errorf("Close = %v with close failures %q", closeErr[i], msgs[i])
		}
		for _, s := range msgs[i] {
			if !strings.Contains(closeErr[i].Error(), s) {
				return fmt.Errorf("Close = %q lacks %q", closeErr[i], s)
			}
		}
		several = several || len(msgs[i]) > 1
	}
	gets, nested, panics := 0, 0, 0
	for _, th := range ths[1:] {
		nested += th.nested
		panics += th.panics
		gets += len(th.evs)
	}
	r.NonTrivial(len(c.Threads) >= 2 && gets >= 3 && len(all) >= 1)
	r.LabelIf(nested > 0, "a creation uses the manager")
	r.LabelIf(panics > 0, "a creation panics")
	r.LabelIf(removed > 0, "removes a registered key")
	r.LabelIf(joined, "shared a failed creation")
	r.LabelIf(len(m) > 1, "two managers")
	r.LabelIf(c.Closers > 0, "closed by several")
	r.LabelIf(several, "several close failures")
	return nil
}

func (th *rThread) do(c *sched.Ctl, ms managers, n int, o ROp) {
	id := th.id*10000000 + n + 1
	call := c.Now()
	m, name := ms.at(o.K)
	if o.Op == "remove" {
		ok := m.Remove(name)
		th.evs = append(th.evs, rEvent{"remove", o.K, 0, ok, call, c.Now(), th.id})
		return
	}
	x := &res{id: id, key: o.K}
	if o.Bad {
		x.err = fmt.Errorf("<close %d failed>", id)
	}
	fail := fmt.Errorf("<creation %d failed>", id)
	calls := 0
	var v io.Closer
	var err error
	rec, did := core.Panics(func() {
		v, err = m.Get(name, func() (io.Closer, error) {
			calls++
			start := c.Now()
			th.evs = append(th.evs, rEvent{"absent", o.K, 0, true, call, start, th.id})
			for i := 0; i < o.Steps; i++ {
				c.Point()
			}
			for i, in := range o.In {
				th.do(c, ms, 1000*(n+1)+i, in)
				th.nested++
			}
			th.spans = append(th.spans, span{o.K, start, c.Now()})
			if o.Panic {
				panic(fail)
			}
			if o.Fail {
				if o.Both {
					return x, fail
				}
				return nil, fail
			}
			th.made = append(th.made, x)
			return x, nil
		})
	})
	ret := c.Now()
	if calls > 1 {
		th.errs = append(th.errs, fmt.Sprintf("one get ran its creation %d times", calls))
	}
	if calls == 1 && (o.Fail || o.Panic) {
		th.failed = append(th.failed, fails{o.K, fail, call, ret, o.Panic})
	}
	if did {
		th.panics++
		err = fmt.Errorf("%v", rec)
	}
	if calls == 1 && (o.Panic != did || (o.Panic || o.Fail) != (err != nil) || err == nil && v != io.Closer(x) || did && !carries(err, fail)) {
		th.errs = append(th.errs, fmt.Sprintf("a get that created %v (failing: %v, panicking: %v) returned %v, %v (panicked: %v)", x, o.Fail, o.Panic, v, err, did))
	}
	if err != nil {
		th.evs = append(th.evs, rEvent{"absent", o.K, 0, true, call, ret, th.id})
		th.got = append(th.got, errGot{o.K, err, call, ret, did})
		return
	}
	y, ok := v.(*res)
	if !ok || y == nil || y.key != o.K {
		th.errs = append(th.errs, fmt.Sprintf("get of key %d returned %v", o.K, v))
		return
	}
	th.evs = append(th.evs, rEvent{"get", o.K, y.id, true, call, ret, th.id})
}

func genResource(t *rapid.T, free bool) RCase {
	c := RCase{Plan: core.Free}
	if !free {
		c.Plan = core.Plan(t)
	}
	c.Keys = rapid.IntRange(1, 3).Draw(t, "keys")
	if rapid.IntRange(0, 7).Draw(t, "wide") == 7 {
		c.Keys = rapid.IntRange(20, 64).Draw(t, "wide keys")
	}
	if rapid.IntRange(0, 3).Draw(t, "two") == 3 {
		c.Mgrs, c.Keys = 2, c.Keys+1
	}
	if rapid.IntRange(0, 3).Draw(t, "several close") == 3 {
		c.Closers = rapid.IntRange(1, 3).Draw(t, "closers")
	}
	nt := rapid.IntRange(1, 4).Draw(t, "threads")
	max := 4
	if nt == 1 {
		max = 12
		if big := core.Long(t, 0, 300); big > 0 {
			// many keys
			c.Keys, max = core.LongSize(t, "xsync", big, "many"), 600
		}
	}
	for i := 0; i < nt; i++ {
		var th []ROp
		for j, n := 0, rapid.IntRange(1, max).Draw(t, "len"); j < n; j++ {
			o := ROp{Op: "get", K: rapid.IntRange(0, c.Keys-1).Draw(t, "k")}
			if rapid.IntRange(0, 3).Draw(t, "op") == 3 {
				o.Op = "remove"
			} else {
				o.Fail = rapid.IntRange(0, 3).Draw(t, "fail") == 3
				o.Panic = rapid.IntRange(0, 7).Draw(t, "panic") == 7
				o.Both = o.Fail && rapid.Bool().Draw(t, "both")
				o.Steps = rapid.IntRange(0, 3).Draw(t, "steps")
				o.Bad = rapid.Bool().Draw(t, "bad")
				if nt > 1 || max == 12 {
					o.In = genInner(t, c.Keys, o.K)
				}
			}
			th = append(th, o)
		}
		c.Threads = append(c.Threads, th)
	}
	return c
}

// genInner draws the calls a creation for key k makes on the manager itself.
// Gets are of later keys only, so that creations never wait for each other in
// a circle.
func genInner(t *rapid.T, keys, k int) []ROp {
	if rapid.IntRange(0, 2).Draw(t, "inner") != 2 {
		return nil
	}
	var in []ROp
	for i, n := 0, rapid.IntRange(1, 2).Draw(t, "inner len"); i < n; i++ {
		if k+1 >= keys || rapid.Bool().Draw(t, "inner remove") {
			in = append(in, ROp{Op: "remove", K: rapid.IntRange(0, keys-1).Draw(t, "k")})
			continue
		}
		in = append(in, ROp{
			Op: "get", K: rapid.IntRange(k+1, keys-1).Draw(t, "k"),
			Fail:  rapid.IntRange(0, 3).Draw(t, "fail") == 3,
			Bad:   rapid.Bool().Draw(t, "bad"),
			Panic: rapid.IntRange(0, 7).Draw(t, "panic") == 7,
		})
	}
	return in
}

const resRule = "1-4 threads getting (with slow, failing, panicking and close-failing creations, some of which get and remove other keys themselves) and removing 1-3 (or 20-64) keys of one or two managers, then closing them; per key the history must be linearizable with each resource registered once, creations must not overlap, errors must come from a creation in progress, closings are counted; non-trivial: two or more threads, three or more gets, something created"

func TestC05_S_Resources(t *testing.T) {
	core.Check(t, core.Prop[RCase]{
		Rule:  "controlled interleavings: " + resRule,
		Quick: 30000, Thorough: 1000000,
		Gen: func(t *rapid.T) RCase { return genResource(t, false) },
		Run: runResource,
	})
}

func TestC05_R_Resources(t *testing.T) {
	core.Check(t, core.Prop[RCase]{
		Rule:  "real parallelism under the race detector: " + resRule,
		Quick: 6000, Thorough: 200000,
		Gen: func(t *rapid.T) RCase { return genResource(t, true) },
		Run: runResource,
	})
}

// rkey names the keys: some differ only in case, space or form.
func rkey(k int) string {
	names := []string{"", "a", "A", "a ", "\xff", "0", "00"}
	if k < len(names) {
		return names[k]
	}
	return fmt.Sprint("k", k)
}
