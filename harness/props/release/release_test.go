// Package release checks that what was removed is not kept alive.
package release

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"sync"
	"testing"
	"time"
	"weak"

	"github.com/chenquan/go-pkg/xbarrier"
	"github.com/chenquan/go-pkg/xio"
	"github.com/chenquan/go-pkg/xmapreduce"
	"github.com/chenquan/go-pkg/xonce"
	"github.com/chenquan/go-pkg/xring"
	"github.com/chenquan/go-pkg/xstream"
	"github.com/chenquan/go-pkg/xsync"
	"github.com/chenquan/go-pkg/xtask"
	"github.com/chenquan/go-pkg/xworker"
	"pgregory.net/rapid"
	"verif/core"
)

// Step is one operation; K names a key.
type Step struct {
	Op   string
	K, N int `json:",omitempty"`
}

// Case is a sequence of operations, then a collection.
type Case struct{ Steps []Step }

type load struct {
	id  int
	pad [40]byte
}

// tracked is a value made for the case and where it went.
type tracked struct {
	p    weak.Pointer[load]
	what string
	dead bool // removed: nothing may keep it
}

type world struct {
	all   []*tracked
	m     *xsync.Map
	inM   map[int]*tracked
	sm    *xsync.SharedMap
	inS   map[int]*tracked
	ring  *xring.Ring
	inR   []*tracked
	res   *xsync.ResourceManager
	inRes map[int]*tracked
	work  *xworker.Worker
	keys  keyed
	step  int
	dead  int
}

const ringSize = 3

func (w *world) make(what string) (*load, *tracked) {
	v := &load{id: len(w.all)}
	t := &tracked{p: weak.Make(v), what: fmt.Sprintf("%s of operation %d", what, w.step)}
	w.all = append(w.all, t)
	return v, t
}

func (w *world) drop(t *tracked) {
	if t != nil && !t.dead {
		t.dead = true
		w.dead++
	}
}

type closer struct{ v *load }

func (c closer) Close() error { return nil }

type source struct {
	v *load
	r io.Reader
}

func (s *source) Read(p []byte) (int, error) { return s.r.Read(p) }

type sink struct {
	v *load
	b bytes.Buffer
}

func (s *sink) Write(p []byte) (int, error) { return s.b.Write(p) }

func key(k int) string { return fmt.Sprint("key", k) }

//go:noinline
func (w *world) do(st Step) {
	k := st.K
	switch st.Op {
	case "store":
		v, t := w.make("value")
		w.m.Store(k, v)
		w.drop(w.inM[k])
		w.inM[k] = t
	case "los":
		v, t := w.make("value")
		if _, loaded := w.m.LoadOrStore(k, v); loaded {
			w.drop(t)
		} else {
			w.inM[k] = t
		}
	case "lad":
		w.m.LoadAndDelete(k)
		w.drop(w.inM[k])
		delete(w.inM, k)
	case "delete":
		w.m.Delete(k)
		w.drop(w.inM[k])
		delete(w.inM, k)
	case "load":
		for i := 0; i < 12; i++ {
			w.m.Load(k) // promotes
		}
	case "range":
		w.m.Range(func(_, _ interface{}) bool { return true })
	case "cip":
		v, t := w.make("computed value")
		if _, ok := w.m.ComputeIfPresent(k, func(_, _ interface{}) interface{} { return v }); ok {
			w.drop(w.inM[k])
			w.inM[k] = t
		} else {
			w.drop(t)
		}
	case "cia":
		v, t := w.make("computed value")
		if _, loaded := w.m.ComputeIfAbsent(k, func(_ interface{}) interface{} { return v }); !loaded {
			w.inM[k] = t
		} else {
			w.drop(t)
		}
	case "clear":
		w.m.Clear()
		for _, t := range w.inM {
			w.drop(t)
		}
		w.inM = map[int]*tracked{}
	case "sstore":
		v, t := w.make("value")
		w.sm.Store(key(k), v)
		w.drop(w.inS[k])
		w.inS[k] = t
	case "sdelete":
		w.sm.Delete(key(k))
		w.drop(w.inS[k])
		delete(w.inS, k)
	case "sclear":
		w.sm.Clear()
		for _, t := range w.inS {
			w.drop(t)
		}
		w.inS = map[int]*tracked{}
	case "sload":
		w.sm.Load(key(k))
		w.sm.Has(key(k))
		w.sm.Range(func(_, _ interface{}) bool { return true })
	case "slos":
		v, t := w.make("value")
		if w.sm.LoadOrStore(key(k), v) {
			w.inS[k] = t
		} else {
			w.drop(t)
		}
	case "smstore":
		v, t := w.make("value")
		v2, t2 := w.make("value")
		w.sm.MStore(map[string]interface{}{key(k): v, key(k + 1): v2})
		w.drop(w.inS[k])
		w.drop(w.inS[k+1])
		w.inS[k], w.inS[k+1] = t, t2
	case "scip":
		v, t := w.make("computed value")
		if _, ok := w.sm.ComputeIfPresent(key(k), func(string, interface{}) interface{} { return v }); ok {
			w.drop(w.inS[k])
			w.inS[k] = t
		} else {
			w.drop(t)
		}
	case "scia":
		v, t := w.make("computed value")
		if _, loaded := w.sm.ComputeIfAbsent(key(k), func(string) interface{} { return v }); !loaded {
			w.inS[k] = t
		} else {
			w.drop(t)
		}
	case "ring":
		for i := 0; i <= st.N%5; i++ {
			v, t := w.make("element")
			w.ring.Add(v)
			w.inR = append(w.inR, t)
			if len(w.inR) > ringSize {
				w.drop(w.inR[0])
				w.inR = w.inR[1:]
			}
		}
		w.ring.Take()
	case "get":
		v, t := w.make("resource")
		made := false
		fails := st.N%4 == 3
		_, _ = w.res.Get(key(k), func() (io.Closer, error) {
			made = true
			if fails {
				return nil, errors.New("x")
			}
			return closer{v}, nil
		})
		if made && !fails {
			w.inRes[k] = t
		} else {
			w.drop(t)
		}
	case "remove":
		w.res.Remove(key(k))
		w.drop(w.inRes[k])
		delete(w.inRes, k)
	case "reader":
		v, t := w.make("stream")
		s := &source{v, bytes.NewReader(make([]byte, 100))}
		r := xio.GetBufferReaderSize(s, 16+st.N)
		if st.N%3 == 0 {
			r = xio.GetBufferReader(s)
		}
		_, _ = r.Read(make([]byte, 10))
		xio.PutBufferReader(r)
		w.drop(t)
	case "writer":
		v, t := w.make("stream")
		s := &sink{v: v}
		b := xio.GetBufferWriterSize(s, 16+st.N)
		if st.N%3 == 0 {
			b = xio.GetBufferWriter(s)
		}
		_, _ = b.Write(make([]byte, 10))
		if st.N%2 == 0 {
			_ = b.Flush()
		}
		xio.PutBufferWriter(b)
		w.drop(t)
	case "chan":
		v, t := w.make("value")
		c := xonce.NewChan()
		c.Write(v)
		v2, t2 := w.make("refused value")
		c.Write(v2)
		<-c.Chan()
		w.drop(t)
		w.drop(t2)
		w.hold(c)
	case "cell":
		v, _ := w.make("value")
		c := xonce.NewValue()
		c.Write(v)
		v2, t2 := w.make("refused value")
		c.Write(v2)
		w.drop(t2)
		w.hold(c)
	case "worker":
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			v, t := w.make("task")
			wg.Add(1)
			w.work.Run(context.Background(), func() { v.id++ }, func() { v.id--; wg.Done() })
			w.drop(t)
		}
		wg.Wait()
	case "do":
		v, t := w.make("task")
		_ = xtask.DoWithTimeout(time.Hour, func() error { v.id++; return nil }, func() { v.id-- })
		w.drop(t)
	case "retry":
		v, t := w.make("task")
		n := 0
		_ = xtask.DoWithRetry(func() error {
			v.id++
			if n++; n > st.N%3 {
				return nil
			}
			return errors.New("x")
		})
		w.drop(t)
	case "stream":
		keep := xstream.From(func(c chan<- interface{}) {
			for i := 0; i < 4; i++ {
				v, t := w.make("element")
				c <- v
				w.drop(t)
			}
		}).Distinct(func(x interface{}) interface{} { return x.(*load).id }).Buffer(st.N % 3).
			Map(func(x interface{}) interface{} { return x }).Reverse().Skip(1).Tail(2)
		keep.Done()
		w.hold(keep)
	case "streams":
		var l []interface{}
		for i := 0; i < 4; i++ {
			v, t := w.make("element")
			l = append(l, v)
			w.drop(t)
		}
		a := xstream.Of(l...).Sort(func(x, y interface{}) bool { return x.(*load).id > y.(*load).id }).Split(2)
		b := xstream.Of(l...).Group(func(x interface{}) interface{} { return x.(*load).id % 2 })
		c := xstream.Of(l...).Merge().Concat(a, b)
		c.Done()
		w.hold(a)
		w.hold(b)
		w.hold(c)
	case "cut": // a stage or query that takes only some elements
		ended := make(chan bool)
		st0 := xstream.From(func(c chan<- interface{}) {
			defer close(ended)
			for i := 0; i < 5; i++ {
				v, t := w.make("element")
				c <- v
				w.drop(t)
			}
		})
		switch st.N % 5 {
		case 0:
			cut := st0.Limit(2)
			cut.Done()
			w.hold(cut)
		case 1:
			_, _ = st0.FindFirst()
		case 2:
			st0.AnyMach(func(interface{}) bool { return true })
		case 3:
			st0.AllMach(func(interface{}) bool { return false })
		case 4:
			_, _ = st0.FindLast()
		}
		<-ended
		w.hold(st0)
	case "copy":
		var l []interface{}
		for i := 0; i < 3; i++ {
			v, t := w.make("element")
			l = append(l, v)
			w.drop(t)
		}
		src := xstream.Of(l...)
		for _, c := range src.Copy(map[string]int{"a": 3 + st.N%3, "b": 3, "c": 5}) {
			w.hold(c)
			defer c.Done()
		}
		w.hold(src)
	case "work":
		var l []interface{}
		for i := 0; i < 6; i++ {
			v, t := w.make("element")
			l = append(l, v)
			w.drop(t)
		}
		o := xstream.WithWorkSize(st.N % 4)
		a := xstream.Of(l...).Walk(func(x interface{}, c chan<- interface{}) { c <- x }, o).
			Filter(func(x interface{}) bool { return x.(*load).id%2 == 0 }, o).
			FlatMap(func(x interface{}) interface{} { return x }, o).Peek(func(interface{}) {})
		b := a.SplitSteam(1 + st.N%3)
		b.Foreach(func(x interface{}) { x.(*xstream.Stream).Done() })
		w.hold(a)
		w.hold(b)
		xstream.Of(l...).ParallelFinish(func(interface{}) {}, o)
		xstream.Of(l...).Collection(xstream.CollectorFunc(func(c <-chan interface{}) {
			for range c {
			}
		}))
	case "mapcancel":
		ctx, cancel := context.WithCancel(context.Background())
		stop, ended := make(chan bool), make(chan bool)
		out := xmapreduce.Map(ctx, func(c chan<- interface{}) {
			defer close(ended)
			for i := 0; i < 4; i++ {
				v, t := w.make("item")
				w.drop(t)
				select {
				case c <- v:
				case <-stop:
				}
			}
		}, func(x interface{}, b xbarrier.Writer) { b.Write(x) })
		<-out
		cancel()
		for range out {
		}
		close(stop)
		<-ended
		w.hold(out)
	case "cancelled":
		ctx, cancel := context.WithCancel(context.Background())
		v, t := w.make("task")
		release, ended := make(chan bool), make(chan bool)
		_ = xtask.Do(ctx, func() error {
			defer close(ended)
			cancel()
			<-release
			v.id++
			if st.N%2 == 0 {
				return fmt.Errorf("%d", v.id)
			}
			return nil
		}, func() { v.id-- })
		close(release)
		<-ended
		w.drop(t)
		w.hold(ctx)
	case "refused":
		ctx, cancel := context.WithCancel(context.Background())
		c := make(chan interface{}, 2)
		b, r := xbarrier.NewWriteBarrier(ctx, c), xbarrier.NewReadBarrier(ctx, c)
		v, t := w.make("item")
		b.Write(v)
		r.Read()
		w.drop(t)
		cancel()
		v2, t2 := w.make("refused item")
		b.Write(v2)
		r.Read()
		w.drop(t2)
		w.hold(b)
		w.hold(r)
	case "mapreduce":
		out := xmapreduce.Map(context.Background(), func(c chan<- interface{}) {
			for i := 0; i < 3; i++ {
				v, t := w.make("item")
				c <- v
				w.drop(t)
			}
		}, func(x interface{}, b xbarrier.Writer) { b.Write(x) })
		for range out {
		}
		w.hold(out)
	case "barrier":
		c := make(chan interface{}, 1)
		b, r := xbarrier.NewWriteBarrier(context.Background(), c), xbarrier.NewReadBarrier(context.Background(), c)
		v, t := w.make("item")
		b.Write(v)
		r.Read()
		w.drop(t)
		w.hold(b)
		w.hold(r)
	default:
		panic("harness: " + st.Op)
	}
}

// kept are the objects in use until the end of the case.
var kept []interface{}

func (w *world) hold(x interface{}) { kept = append(kept, x) }

//go:noinline
func (w *world) steps(c Case) {
	for i, st := range c.Steps {
		w.step = i
		if !w.doKey(st) {
			w.do(st)
		}
	}
	w.settle()
	// other values on the stack
	var junk [64]*load
	for i := range junk {
		junk[i] = &load{id: i}
	}
	runtime.KeepAlive(&junk)
}

func attempt(c Case, r *core.Rec) error {
	kept = nil
	w := &world{
		m: &xsync.Map{}, inM: map[int]*tracked{}, sm: xsync.NewSharedMap(xsync.WithShardBlockSize(2)), inS: map[int]*tracked{},
		ring: xring.NewRing(ringSize), res: xsync.NewResourceManager(), inRes: map[int]*tracked{}, work: xworker.NewWorker(2),
	}
	w.keys.init()
	done := make(chan bool)
	go func() { w.steps(c); close(done) }() // a stack of its own
	<-done
	runtime.GC()
	var alive []*tracked
	for _, t := range w.all {
		if t.dead && t.p.Value() != nil {
			alive = append(alive, t)
		}
	}
	r.NonTrivial(w.dead >= 2)
	runtime.KeepAlive(w)
	runtime.KeepAlive(kept)
	if len(alive) > 0 {
		return fmt.Errorf("%d of %d removed values are still kept alive, first the %s", len(alive), w.dead, alive[0].what)
	}
	return nil
}

func run(_ *testing.T, c Case, r *core.Rec) error {
	for _, st := range c.Steps {
		r.Label("call:%s", st.Op)
	}
	var err error
	// Goroutines of the case may still be ending.
	for i := 0; i < 6; i++ {
		if err = attempt(c, r); err == nil {
			return nil
		}
		time.Sleep(time.Duration(i) * time.Millisecond)
	}
	return err
}

var ops = []string{"store", "los", "lad", "delete", "load", "range", "cip", "cia", "clear", "sstore", "sdelete", "sclear", "ring", "get", "remove", "reader", "writer", "chan", "cell", "worker", "do", "retry", "stream", "streams", "mapreduce", "barrier", "cut", "copy", "work", "mapcancel", "cancelled", "refused"}

var sops = []string{"sstore", "sdelete", "sclear", "sload", "slos", "smstore", "scip", "scia"}

var groups = [][]string{keyOps[:8], keyOps[8:13], keyOps[13:], keyOps, ops[:9], ops[:9], ops[:9], sops, sops, ops[12:13], ops[13:15], ops[15:17], ops[17:], ops[17:], ops[17:], ops}

func gen(t *rapid.T) Case {
	var c Case
	g := groups[core.Uni(t, 0, len(groups)-1, "group")]
	keys := core.Uni(t, 0, 3, "keys")
	for k, m := 0, core.Uni(t, 1, 24, "steps"); k < m; k++ {
		c.Steps = append(c.Steps, Step{
			Op: g[core.Uni(t, 0, len(g)-1, "op")],
			K:  core.Uni(t, 0, keys, "k"),
			N:  core.Uni(t, 0, 12, "n"),
		})
	}
	return c
}

func TestC36_P_Release(t *testing.T) {
	core.Check(t, core.Prop[Case]{
		Rule:  "up to 24 operations that put values into containers, pools, streams and tasks and take them out, overwrite, evict, refuse or finish them, then one garbage collection with all containers still in use; every value taken out (and every key, once some more keys have come and gone) must have been collected (a failing sequence is run again up to five times); non-trivial: two or more values taken out",
		Quick: 20000, Thorough: 600000, Gen: gen, Run: run,
	})
}
