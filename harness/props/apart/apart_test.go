// Package apart checks that calls which share nothing do not meet.
package apart

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/chenquan/go-pkg/xbarrier"
	"github.com/chenquan/go-pkg/xbinary"
	"github.com/chenquan/go-pkg/xbytes"
	"github.com/chenquan/go-pkg/xerror"
	"github.com/chenquan/go-pkg/xio"
	"github.com/chenquan/go-pkg/xmapreduce"
	"github.com/chenquan/go-pkg/xmath"
	"github.com/chenquan/go-pkg/xonce"
	"github.com/chenquan/go-pkg/xring"
	"github.com/chenquan/go-pkg/xstream"
	"github.com/chenquan/go-pkg/xstring"
	"github.com/chenquan/go-pkg/xsync"
	"github.com/chenquan/go-pkg/xtask"
	"github.com/chenquan/go-pkg/xworker"
	"pgregory.net/rapid"
	"verif/core"
	"verif/sched"
)

// Step is one call on an object of the caller, or a call without an object.
type Step struct {
	Op   string
	S, T core.S `json:",omitempty"`
	A, B int    `json:",omitempty"`
}

// Case is a set of callers, each with objects of its own.
type Case struct {
	Plan    sched.Plan
	Scripts [][]Step
	Turns   []int `json:",omitempty"` // P: whose turn it is
}

// world is what one caller owns.
type world struct {
	id     int
	log    []string
	point  func()
	ring   *xring.Ring
	join   *xstring.Joiner
	batch  *xerror.BatchError
	m      *xsync.Map
	sm     *xsync.SharedMap
	lock   *xsync.Spinlock
	val    *xonce.Value
	ch     *xonce.Chan
	res    *xsync.ResourceManager
	closes int
	buf    bytes.Buffer
	held   [][]byte
	worker *xworker.Worker
	pipe   chan interface{}
}

type closer struct{ w *world }

func (c closer) Close() error { c.w.closes++; return nil }

func newWorld(id int, point func()) *world {
	return &world{
		id: id, point: point,
		ring:   xring.NewRing(3),
		join:   xstring.NewJoiner(xstring.WithJoiner("<", fmt.Sprint(",", id), ">")),
		batch:  &xerror.BatchError{},
		m:      &xsync.Map{},
		sm:     xsync.NewSharedMap(xsync.WithShardBlockSize(2)),
		lock:   &xsync.Spinlock{},
		val:    xonce.NewValue(),
		ch:     xonce.NewChan(),
		res:    xsync.NewResourceManager(),
		worker: xworker.NewWorker(2),
		pipe:   make(chan interface{}, 4),
	}
}

func sorted(l []string) string { sort.Strings(l); return strings.Join(l, ";") }

func bits(f float64) string { return fmt.Sprintf("%x", math.Float64bits(f)) }

// texts are the calls that own nothing.
var texts = map[string]func(s, t string, a, b int) string{
	"sub":    func(s, t string, a, b int) string { return xstring.Sub(s, a, b) },
	"leftr":  func(s, t string, a, b int) string { return xstring.Left(s, a) + "|" + xstring.Right(s, b) },
	"rotate": func(s, t string, a, b int) string { return xstring.Rotate(s, a) },
	"pad": func(s, t string, a, b int) string {
		return xstring.PadLeftChar(s, a, 'x') + xstring.PadRightSpace(s, b)
	},
	"center": func(s, t string, a, b int) string {
		return xstring.PadCenterChar(s, a, 'é') + xstring.PadCenterSpace(s, b)
	},
	"repeat":  func(s, t string, a, b int) string { return xstring.RepeatChar('ж', a) + xstring.RepeatChar('q', b) },
	"reverse": func(s, t string, a, b int) string { r, err := xstring.Reverse(s); return fmt.Sprint(r, err) },
	"shuffle": func(s, t string, a, b int) string { return sorted(strings.Split(xstring.Shuffle(s), "")) },
	"remove":  func(s, t string, a, b int) string { return xstring.RemoveString(s, t) + xstring.RemoveChar(s, 'a') },
	"white":   func(s, t string, a, b int) string { return xstring.DeleteWhitespace(s + " \t" + t) },
	"region":  func(s, t string, a, b int) string { return fmt.Sprint(xstring.RegionMatches(s, true, a, t, b, 1)) },
	"ignore": func(s, t string, a, b int) string {
		return fmt.Sprint(xstring.EqualsIgnoreCase(s, t), xstring.ContainsIgnoreCase(s, t), xstring.EndsWithIgnoreCase(s, t))
	},
	"ends": func(s, t string, a, b int) string {
		return fmt.Sprint(xstring.EndsWithCase(s, t), xstring.EndsWithAny(s+"e", t, "e"))
	},
	"diff": func(s, t string, a, b int) string {
		return fmt.Sprint(xstring.IndexOfDifference(s, t), xstring.Difference(s, t))
	},
	"prefix": func(s, t string, a, b int) string { return xstring.CommonPrefix(s, s+t, s) },
	"abbr": func(s, t string, a, b int) string {
		r, err := xstring.Abbreviate(s, "..", a, b)
		return fmt.Sprint(r, err)
	},
	"classes": func(s, t string, a, b int) string {
		return fmt.Sprint(xstring.IsAlpha(s), xstring.IsAlphanumeric(s), xstring.IsNumeric(s), xstring.IsNumerical(s), xstring.IsBlank(s), xstring.IsAnyBlank(s, t), xstring.IsNoneEmpty(s, t))
	},
	"number": func(s, t string, a, b int) string {
		return fmt.Sprint(xstring.IsNumerical(fmt.Sprint(a, ".", b)), xstring.IsNumerical(fmt.Sprint(b*b)))
	},
	"trim": func(s, t string, a, b int) string {
		return xstring.Trim(s, t) + "|" + xstring.TrimLeft(s, t) + "|" + xstring.TrimRight(s, t) + "|" + xstring.TrimSpace(" "+s)
	},
	"search": func(s, t string, a, b int) string {
		return fmt.Sprint(xstring.Index(s, t), xstring.IndexAny(s, t), xstring.Contains(s, t), xstring.ContainsAnySubstrings(s, []string{t, "b"}), xstring.EqualsAny(s, t, s), xstring.Len(s))
	},
	"defaults": func(s, t string, a, b int) string { return xstring.DefaultIfBlank(s, t) + xstring.DefaultIfEmpty(t, s) },
	"ints": func(s, t string, a, b int) string {
		return fmt.Sprint(xmath.MaxInt(a, b), xmath.MinInt(a, b), xmath.MaxInt64(int64(a)<<50, int64(b)), xmath.MinInt64(int64(a)<<50, int64(b)))
	},
	"floats": func(s, t string, a, b int) string {
		x, y := float64(a)/3, float64(b)/3
		return bits(xmath.MaxFloat64(x, y)) + bits(xmath.MinFloat64(x, y)) + bits(float64(xmath.MaxFloat32(float32(x), float32(y)))) + bits(float64(xmath.MinFloat32(float32(x), float32(y))))
	},
}

var objects = []string{"ring", "take", "write", "rune", "jread", "jreset", "jgrow", "add", "err", "store", "mload", "mdelete", "mcompute", "mrange", "mclear", "sstore", "sload", "sdelete", "srange", "once", "oncechan", "lock", "retry", "encode", "decode", "bytes", "frees", "reader", "writer", "stream", "parallel", "mapreduce", "worker", "barrier", "resource", "rremove", "do", "dofail"}

var ops = func() []string {
	var r []string
	for k := range texts {
		r = append(r, k)
	}
	sort.Strings(r)
	return append(r, objects...)
}()

// slow reads and writes let the other callers run.
type slow struct {
	w    *world
	data []byte
	pos  int
}

func (s *slow) Read(p []byte) (int, error) {
	s.w.point()
	if s.pos == len(s.data) {
		return 0, io.EOF
	}
	n := copy(p[:min(len(p), 7)], s.data[s.pos:])
	s.pos += n
	return n, nil
}

func (s *slow) Write(p []byte) (int, error) {
	s.w.point()
	s.data = append(s.data, p...)
	return len(p), nil
}

// do makes one call and notes all that it shows.
func (w *world) do(st Step) {
	s, t, a, b := string(st.S), string(st.T), st.A, st.B
	note := func(x ...interface{}) { w.log = append(w.log, st.Op+": "+fmt.Sprint(x...)) }
	if f := texts[st.Op]; f != nil {
		note(f(s, t, a, b))
		return
	}
	switch st.Op {
	case "ring":
		w.ring.Add(s)
		w.ring.Add(a)
	case "take":
		note(w.ring.Take())
	case "write":
		w.join.WriteString(s)
		w.join.Write([]byte(t))
	case "rune":
		w.join.WriteRune('ж')
		w.join.WriteByte('k')
	case "jread":
		note(w.join.String(), w.join.Len())
	case "jreset":
		w.join.Reset()
	case "jgrow":
		w.join.Grow(a * a)
	case "add":
		w.batch.Add(errors.New(s))
		if a%2 == 0 {
			w.batch.Add(nil)
		}
	case "err":
		note(w.batch.NotNil(), w.batch.Err())
	case "store":
		w.m.Store(s, a)
		v, l := w.m.LoadOrStore(t, b)
		note(v, l)
	case "mload":
		v, ok := w.m.Load(s)
		note(v, ok)
	case "mdelete":
		v, ok := w.m.LoadAndDelete(s)
		w.m.Delete(t)
		note(v, ok)
	case "mcompute":
		v, l := w.m.ComputeIfAbsent(s, func(interface{}) interface{} { w.point(); return a })
		u, ok := w.m.ComputeIfPresent(t, func(_, old interface{}) interface{} { w.point(); return fmt.Sprint(old, b) })
		note(v, l, u, ok)
	case "mrange":
		var l []string
		w.m.Range(func(k, v interface{}) bool { l = append(l, fmt.Sprint(k, "=", v)); return true })
		note(sorted(l))
	case "mclear":
		w.m.Clear()
	case "sstore":
		w.sm.MStore(map[string]interface{}{s: a, t: b})
		note(w.sm.LoadOrStore(s+"x", b))
	case "sload":
		v, ok := w.sm.Load(s)
		note(v, ok, w.sm.Has(t))
	case "sdelete":
		w.sm.Delete(s)
		v, ok := w.sm.ComputeIfPresent(t, func(_ string, old interface{}) interface{} { return fmt.Sprint(old) })
		u, l := w.sm.ComputeIfAbsent(t+"y", func(k string) interface{} { return k })
		note(v, ok, u, l)
	case "srange":
		var l []string
		w.sm.Range(func(k, v interface{}) bool { l = append(l, fmt.Sprint(k, "=", v)); return true })
		note(sorted(l))
	case "once":
		note(w.val.Write(s), w.val.Value())
	case "oncechan":
		if note(w.ch.Write(s)); len(w.ch.Chan()) > 0 {
			note(<-w.ch.Chan())
		}
	case "lock":
		w.lock.Lock()
		w.point()
		note(w.lock.TryLock())
		w.lock.Unlock()
		note(w.lock.TryLock())
		w.lock.Unlock()
	case "retry":
		n := 0
		fn := func() error {
			n++
			w.point()
			if n > b {
				return nil
			}
			return fmt.Errorf("%s%d", s, n)
		}
		var err error
		if a%3 == 0 {
			err = xtask.DoWithRetry(fn)
		} else {
			err = xtask.DoWithRetry(fn, xtask.WithRetry(a))
		}
		note(err, n)
	case "encode":
		d := &slow{w: w}
		err1 := xbinary.WriteUint32(d, uint32(a)<<20)
		err2 := xbinary.WriteBytes(d, []byte(s))
		err3 := xbinary.WriteUint16(d, uint16(b))
		err4 := xbinary.WriteBool(d, b%2 == 1)
		w.buf.Write(d.data)
		note(fmt.Sprintf("%x", d.data), err1, err2, err3, err4)
	case "decode":
		d := &slow{w: w, data: append([]byte(nil), w.buf.Bytes()...)}
		w.buf.Reset()
		for d.pos < len(d.data) {
			x, err := xbinary.ReadUint32(d)
			y, err2 := xbinary.ReadBytes(d)
			z, err3 := xbinary.ReadUint16(d)
			q, err4 := xbinary.ReadBool(d)
			note(x, string(y), z, q, err, err2, err3, err4)
			w.held = append(w.held, y)
		}
	case "bytes":
		x := xbytes.Malloc(a, b)
		note(len(x), cap(x) >= max(a, b))
		for i := range x {
			x[i] = byte(w.id)
		}
		w.held = append(w.held, x)
	case "frees":
		for _, x := range w.held {
			note(string(x))
			xbytes.Free(x)
		}
		w.held = nil
	case "reader":
		r := xio.GetBufferReader(&slow{w: w, data: []byte(s + t)})
		if a%2 == 0 {
			r = xio.GetBufferReaderSize(&slow{w: w, data: []byte(t + s)}, 20*b)
		}
		x := make([]byte, a)
		n, err := io.ReadFull(r, x)
		note(n, err, string(x[:n]))
		w.point()
		y, err := io.ReadAll(io.LimitReader(r, int64(b)))
		note(string(y), err)
		xio.PutBufferReader(r)
	case "writer":
		d := &slow{w: w}
		x := xio.GetBufferWriterSize(d, 16*b)
		if a%2 == 0 {
			x = xio.GetBufferWriter(d)
		}
		x.WriteString(s)
		w.point()
		x.WriteString(t)
		if b%2 == 0 {
			x.Flush()
			note(string(d.data))
		}
		xio.PutBufferWriter(x)
	case "stream":
		var got []interface{}
		xstream.From(func(c chan<- interface{}) {
			for i := 0; i < a; i++ {
				c <- i*7%5 + b
			}
		}).Map(func(x interface{}) interface{} { w.point(); return x.(int) * 2 }).
			Distinct(func(x interface{}) interface{} { return x }).Buffer(1).Skip(1).
			Sort(func(x, y interface{}) bool { return x.(int) < y.(int) }).
			Foreach(func(x interface{}) { got = append(got, x) })
		n := xstream.Of(1, 2, 3, 4, 5).Tail(a).Reverse().Split(2).Count()
		f, err := xstream.Of(s, t).Filter(func(x interface{}) bool { return x == t }).FindFirst()
		note(got, n, f, err)
	case "parallel":
		var mu sync.Mutex
		var got []string
		xstream.From(func(c chan<- interface{}) {
			for i := 0; i < a; i++ {
				c <- i
			}
		}).Walk(func(x interface{}, c chan<- interface{}) { w.point(); c <- x; c <- s }, xstream.WithWorkSize(2)).
			ParallelFinish(func(x interface{}) {
				mu.Lock()
				defer mu.Unlock()
				got = append(got, fmt.Sprint(x))
			}, xstream.WithWorkSize(2))
		note(sorted(got))
	case "mapreduce":
		var got []string
		for x := range xmapreduce.Map(context.Background(), func(c chan<- interface{}) {
			for i := 0; i < a; i++ {
				c <- i
			}
		}, func(x interface{}, out xbarrier.Writer) { out.Write(fmt.Sprint(x, s)) }, xmapreduce.WithWorkerSize(2)) {
			got = append(got, fmt.Sprint(x))
		}
		note(sorted(got))
	case "worker":
		var mu sync.Mutex
		var wg sync.WaitGroup
		n, busy, most := 0, 0, 0
		for i := 0; i < 3; i++ {
			wg.Add(1)
			w.worker.Run(context.Background(), func() {
				mu.Lock()
				busy++
				most = max(most, busy)
				mu.Unlock()
				w.point()
				mu.Lock()
				n++
				busy--
				mu.Unlock()
			}, wg.Done)
		}
		wg.Wait()
		note(n, most <= 2)
	case "barrier":
		ctx, cancel := context.WithCancel(context.Background())
		ok := xbarrier.NewWriteBarrier(ctx, w.pipe).Write(s)
		v, ok2 := xbarrier.NewReadBarrier(ctx, w.pipe).Read()
		cancel()
		ok3 := xbarrier.NewWriteBarrier(ctx, w.pipe).Write(t)
		note(ok, v, ok2, ok3)
	case "resource":
		made := false
		c, err := w.res.Get(s, func() (io.Closer, error) {
			made = true
			w.point()
			if a%5 == 4 {
				return nil, errors.New(t)
			}
			return closer{w}, nil
		})
		note(made, c == closer{w}, err)
	case "rremove":
		note(w.res.Remove(s), w.closes)
	case "do":
		n := 0
		err := xtask.DoWithTimeout(time.Hour, func() error { w.point(); return errors.New(s) }, func() { n++ })
		note(err, n)
	case "dofail":
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		note(xtask.Do(ctx, func() error { return nil }, func() {}))
		var p interface{}
		func() {
			defer func() { p = recover() }()
			_ = xtask.DoWithoutDefer(context.Background(), func() error { panic(s) })
		}()
		note(p != nil, strings.Contains(fmt.Sprint(p), s))
	default:
		panic("harness: " + st.Op)
	}
}

func (w *world) end() {
	w.log = append(w.log, fmt.Sprint("end: ", w.res.Close(), w.closes, w.join.String(), w.ring.Take(), w.batch.Err(), len(w.pipe)))
}

func compare(alone, together []*world, scripts [][]Step) error {
	for i := range alone {
		a, b := alone[i].log, together[i].log
		for k := range a {
			if k >= len(b) || a[k] != b[k] {
				got := "nothing"
				if k < len(b) {
					got = b[k]
				}
				return fmt.Errorf("caller %d: note %d is %q beside other callers and %q alone", i, k, got, a[k])
			}
		}
		if len(b) > len(a) {
			return fmt.Errorf("caller %d: %d notes beside other callers, %d alone", i, len(b), len(a))
		}
	}
	return nil
}

func run(t *testing.T, c Case, r *core.Rec) error {
	n := len(c.Scripts)
	alone, together := make([]*world, n), make([]*world, n)
	kinds := map[string]bool{}
	for _, s := range c.Scripts {
		for _, st := range s {
			kinds[st.Op] = true
		}
	}
	for k := range kinds {
		r.Label("call:%s", k)
	}
	r.NonTrivial(n >= 2 && len(kinds) >= 2)
	if c.Turns != nil {
		for i, s := range c.Scripts {
			alone[i] = newWorld(i, func() {})
			for _, st := range s {
				alone[i].do(st)
			}
			alone[i].end()
		}
		next := make([]int, n)
		for i := range together {
			together[i] = newWorld(i, func() {})
		}
		left := 1
		for k := 0; left > 0; k++ {
			i := c.Turns[k%len(c.Turns)] % n
			if k > 20*len(c.Turns) {
				i = k % n
			}
			if next[i] < len(c.Scripts[i]) {
				together[i].do(c.Scripts[i][next[i]])
				next[i]++
			}
			left = 0
			for j := range next {
				left += len(c.Scripts[j]) - next[j]
			}
		}
		for _, w := range together {
			w.end()
		}
		return compare(alone, together, c.Scripts)
	}
	decided, err := core.Concurrent(t, c.Plan, r, func(ctl *sched.Ctl) {
		for i, s := range c.Scripts {
			alone[i] = newWorld(i, func() {})
			for _, st := range s {
				alone[i].do(st)
			}
			alone[i].end()
		}
		done := make(chan bool, n)
		for i := range c.Scripts {
			w, s := newWorld(i, ctl.Point), c.Scripts[i]
			together[i] = w
			ctl.Go(fmt.Sprint("caller ", i), func() {
				defer func() { done <- true }()
				for _, st := range s {
					w.do(st)
				}
				w.end()
			})
		}
		for range c.Scripts {
			<-done
		}
	})
	if err != nil || !decided {
		return err
	}
	return compare(alone, together, c.Scripts)
}

func gen(mode string) func(t *rapid.T) Case {
	return func(t *rapid.T) Case {
		c := Case{Plan: core.Free}
		callers, steps := 4, 12
		if mode == "s" {
			c.Plan = core.Plan(t)
			callers, steps = 3, 4
		}
		al := core.Alphabet(t, "xstring")
		var few []string
		for i, n := 0, core.Uni(t, 1, 8, "kinds"); i < n; i++ {
			few = append(few, ops[core.Uni(t, 0, len(ops)-1, "kind")])
		}
		for i, n := 0, core.Uni(t, 2, callers, "callers"); i < n; i++ {
			var s []Step
			for k, m := 0, core.Uni(t, 1, steps, "steps"); k < m; k++ {
				s = append(s, Step{
					Op: few[core.Uni(t, 0, len(few)-1, "op")],
					S:  core.S(core.Text(t, "xstring", al, 12, "s")),
					T:  core.S(core.Text(t, "xstring", al, 5, "t")),
					A:  core.Uni(t, 0, 9, "a"),
					B:  core.Uni(t, 0, 9, "b"),
				})
			}
			c.Scripts = append(c.Scripts, s)
		}
		if mode == "p" {
			c.Turns = rapid.SliceOfN(rapid.IntRange(0, callers-1), 1, 12).Draw(t, "turns")
		}
		return c
	}
}

const rule = "2-4 callers, each with objects of its own (ring, joiner, batch error, maps, lock, write-once cells, worker, resource manager, streams, barriers, buffers) and calls without objects (text, numbers, retry, encoding); everything each caller sees compared with what it sees alone; non-trivial: two or more callers and two or more kinds of calls"

func TestC34_P_Turns(t *testing.T) {
	core.Check(t, core.Prop[Case]{
		Rule:  "taking turns on one goroutine: " + rule,
		Quick: 30000, Thorough: 800000, Gen: gen("p"), Run: run,
	})
}

func TestC34_S_Callers(t *testing.T) {
	core.Check(t, core.Prop[Case]{
		Rule:  "controlled interleavings: " + rule,
		Quick: 16000, Thorough: 400000, Gen: gen("s"), Run: run,
	})
}

func TestC34_R_Callers(t *testing.T) {
	core.Check(t, core.Prop[Case]{
		Rule:  "real parallelism under the race detector: " + rule,
		Quick: 16000, Thorough: 300000, Gen: gen("r"), Run: run,
	})
}
