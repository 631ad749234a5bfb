// Package keep checks that arguments and results stay as they are.
package keep

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/chenquan/go-pkg/xbarrier"
	"github.com/chenquan/go-pkg/xbinary"
	"github.com/chenquan/go-pkg/xbytes"
	"github.com/chenquan/go-pkg/xerror"
	"github.com/chenquan/go-pkg/xio"
	"github.com/chenquan/go-pkg/xmapreduce"
	"github.com/chenquan/go-pkg/xonce"
	"github.com/chenquan/go-pkg/xring"
	"github.com/chenquan/go-pkg/xstream"
	xs "github.com/chenquan/go-pkg/xstring"
	"github.com/chenquan/go-pkg/xsync"
	"github.com/chenquan/go-pkg/xtask"
	"pgregory.net/rapid"
	"verif/core"
)

// Step is one call with arguments that are remembered.
type Step struct {
	Op   string
	S, T core.S   `json:",omitempty"`
	L    []core.S `json:",omitempty"`
	A, B int      `json:",omitempty"`
}

// Case is a sequence of calls.
type Case struct{ Steps []Step }

// held is something that must not change any more.
type held struct {
	what string
	want string
	live func() string
}

type world struct {
	step int
	op   string
	held []held
	join *xs.Joiner
	ring *xring.Ring
	err  *xerror.BatchError
	m    *xsync.Map
	sm   *xsync.SharedMap
	res  *xsync.ResourceManager
	buf  bytes.Buffer
	opts []xs.JoinerOption
	fail error
	hits int
}

// hold remembers what live shows now.
func (w *world) hold(what string, live func() string) {
	w.held = append(w.held, held{fmt.Sprintf("%s of call %d (%s)", what, w.step, w.op), strings.Clone(live()), live})
}

func (w *world) check(when string) {
	for _, h := range w.held {
		if got := h.live(); got != h.want && w.fail == nil {
			w.fail = fmt.Errorf("%s the %s changed from %q to %q", when, h.what, h.want, got)
		}
	}
}

func (w *world) str(what, s string) { w.hold(what, func() string { return s }) }
func (w *world) bytes(what string, b []byte) {
	w.hold(what, func() string { return string(b) })
}

func (w *world) strs(what string, l []string) {
	full := l[:cap(l)]
	w.hold(what, func() string { return strings.Join(full, "\x00") })
}

func show(l []interface{}) string {
	var b strings.Builder
	for _, v := range l {
		if p, ok := v.(*int); ok {
			fmt.Fprintf(&b, "%p %d,", p, *p)
			continue
		}
		if s, ok := v.([]interface{}); ok {
			b.WriteString("[" + show(s) + "]")
			continue
		}
		fmt.Fprintf(&b, "%v,", v)
	}
	return b.String()
}

func (w *world) list(what string, l []interface{}) {
	w.hold(what, func() string { return show(l) })
}

// args holds a list passed in, with what lies behind its end.
func (w *world) args(what string, l []interface{}) { w.list(what, l[:cap(l)]) }

// funcs holds a list of functions passed in, with what lies behind its end.
func (w *world) funcs(what string, l interface{}) {
	v := reflect.ValueOf(l)
	full := v.Slice3(0, v.Cap(), v.Cap())
	w.hold(what, func() string {
		var b strings.Builder
		for i := 0; i < full.Len(); i++ {
			fmt.Fprintf(&b, "%x,", full.Index(i).Pointer())
		}
		return b.String()
	})
}

// written checks that a byte slice passed to a writer is as it was, up to its
// capacity, and overwrites it.
func (w *world) written(p []byte, s string, bad func(string, ...interface{})) {
	if string(p) != s {
		bad("the written bytes became %q, were %q", p, s)
	}
	for _, c := range p[len(p):cap(p)] {
		if c != spare {
			bad("the memory behind the written bytes became %q", p[len(p):cap(p)])
			break
		}
	}
	p = p[:cap(p)]
	for i := range p {
		p[i] ^= 0x55
	}
}

const spare = 0xA7

// room returns the bytes of s with room behind them.
func room(s string, n int) []byte {
	p := bytes.Repeat([]byte{spare}, len(s)+n)
	copy(p, s)
	return p[:len(s)]
}

// broken is a writer that fails, or panics.
type broken struct{ panics bool }

func (b broken) Write(p []byte) (int, error) {
	if b.panics {
		panic("broken")
	}
	return 0, io.ErrClosedPipe
}

// heap returns a copy that nobody else shares.
func heap(s core.S) string { return string(append([]byte(nil), s...)) }

// oneWay are the text functions; r takes all results.
var oneWay = map[string]func(s, t string, l []string, a, b int, r func(...string)){
	"pad": func(s, t string, l []string, a, b int, r func(...string)) {
		r(xs.PadLeftChar(s, a, 'x'), xs.PadRightChar(s, b, 'é'), xs.PadLeftSpace(s, b), xs.PadRightSpace(s, a))
	},
	"center": func(s, t string, l []string, a, b int, r func(...string)) {
		r(xs.PadCenterChar(s, a, 'x'), xs.PadCenterSpace(s, b), xs.RepeatChar('k', a), xs.RepeatChar('世', b))
	},
	"remove": func(s, t string, l []string, a, b int, r func(...string)) {
		r(xs.RemoveChar(s, 'a'), xs.RemoveString(s, t), xs.DeleteWhitespace(s))
	},
	"sub": func(s, t string, l []string, a, b int, r func(...string)) {
		r(xs.Sub(s, a, b), xs.Left(s, a), xs.Right(s, b), xs.Rotate(s, a))
	},
	"reverse": func(s, t string, l []string, a, b int, r func(...string)) { x, _ := xs.Reverse(s); r(x, xs.Shuffle(s)) },
	"must": func(s, t string, l []string, a, b int, r func(...string)) {
		defer func() { _ = recover() }()
		r(xs.MustReverse(s))
	},
	"lists": func(s, t string, l []string, a, b int, r func(...string)) {
		r(xs.CommonPrefix(l...))
		xs.IndexOfDifference(l...)
		xs.EqualsAny(s, l...)
		xs.EndsWithAny(s, l...)
		xs.ContainsAnySubstrings(s, l)
	},
	"lists2": func(s, t string, l []string, a, b int, r func(...string)) {
		xs.IsAnyEmpty(l...)
		xs.IsNoneEmpty(l...)
		xs.IsAnyBlank(l...)
		xs.IsNoneBlank(l...)
	},
	"diff": func(s, t string, l []string, a, b int, r func(...string)) {
		r(xs.Difference(s, t), xs.CommonPrefix(s, t))
		xs.IndexOfDifferenceWithTwoStr(s, t)
	},
	"trim": func(s, t string, l []string, a, b int, r func(...string)) {
		r(xs.Trim(s, t), xs.TrimLeft(s, t), xs.TrimRight(s, t), xs.TrimSpace(s))
	},
	"deflt": func(s, t string, l []string, a, b int, r func(...string)) {
		r(xs.DefaultIfBlank(s, t), xs.DefaultIfEmpty(s, t))
	},
	"abbr": func(s, t string, l []string, a, b int, r func(...string)) { x, _ := xs.Abbreviate(s, t, a, b); r(x) },
	"cmp": func(s, t string, l []string, a, b int, r func(...string)) {
		xs.EqualsIgnoreCase(s, t)
		xs.ContainsIgnoreCase(s, t)
		xs.EndsWithIgnoreCase(s, t)
		xs.EndsWithCase(s, t)
		xs.RegionMatches(s, true, a, t, b, a)
	},
	"ask": func(s, t string, l []string, a, b int, r func(...string)) {
		xs.IsAlpha(s)
		xs.IsAlphanumeric(s)
		xs.IsNumeric(s)
		xs.IsNumerical(s)
		xs.IsBlank(s)
		xs.Contains(s, t)
		xs.Index(s, t)
		xs.IndexAny(s, t)
		xs.Len(s)
	},
}

var objects = []string{"jwrite", "jbytes", "jread", "jreset", "jopts", "errors", "take", "store", "mload", "mstore", "range", "encode", "decode", "pool", "reader", "writer", "of", "sort", "split", "tail", "substreams", "merge", "group", "flat", "concat", "copy", "collect", "walkopts", "mapreduce", "resource", "once", "barrier", "retry", "panic"}

var ops = func() []string {
	var r []string
	for k := range oneWay {
		r = append(r, k)
	}
	sort.Strings(r)
	return append(r, objects...)
}()

func (w *world) do(st Step) {
	s, t := heap(st.S), heap(st.T)
	l := make([]string, len(st.L), len(st.L)+st.A%3)
	for i := range l {
		l[i] = heap(st.L[i])
	}
	a, b := st.A, st.B
	w.str("first text", s)
	w.str("second text", t)
	w.strs("list of texts", l)
	items := make([]interface{}, 0, len(l)+3)
	for i := range l {
		items = append(items, l[i])
	}
	n := a
	items = append(items, &n, nil, b)
	if f := oneWay[st.Op]; f != nil {
		f(s, t, l, a, b, func(rs ...string) {
			for i := range rs {
				w.str("result", rs[i])
				if rs[i] != "" {
					w.hits++
				}
			}
		})
		return
	}
	less := func(x, y interface{}) bool { return fmt.Sprint(x) < fmt.Sprint(y) }
	bad := func(f string, x ...interface{}) {
		if w.fail == nil {
			w.fail = fmt.Errorf("call %d (%s): %s", w.step, w.op, fmt.Sprintf(f, x...))
		}
	}
	switch st.Op {
	case "jwrite":
		w.join.WriteString(s)
		w.join.WriteRune('世')
		w.str("text", w.join.String())
	case "jbytes":
		p := room(s, b)
		w.join.Write(p)
		before := strings.Clone(w.join.String())
		w.written(p, s, bad)
		if w.join.String() != before {
			bad("after the caller reused its bytes the joiner shows %q, before %q", w.join.String(), before)
		}
	case "jread":
		w.str("text", w.join.String())
		w.hits++
	case "jreset":
		w.str("text", w.join.String())
		w.join.Reset()
	case "jopts":
		own := append(make([]xs.JoinerOption, 0, 3+b%3), w.opts...)
		w.funcs("options", own)
		xs.NewJoiner(own[:a%4]...).WriteString(s)
		x, y := xs.NewJoiner(w.opts...), xs.NewJoiner(w.opts...)
		x.WriteString(s)
		y.WriteString(t)
		x.WriteString(t)
		w.str("text", x.String())
		w.str("text", y.String())
		if x.String() != "<"+s+", "+t+">" || y.String() != "<"+t+">" {
			bad("joiners with the same options show %q and %q for %q and %q", x.String(), y.String(), s, t)
		}
	case "errors":
		w.err.Add(errors.New(s))
		e := w.err.Err()
		w.hold("error", func() string { return e.Error() })
	case "take":
		w.ring.Add(t)
		w.ring.Add(s)
		w.list("elements", w.ring.Take())
		w.hits++
	case "store":
		v := append([]interface{}(nil), items...)
		w.list("stored list", v)
		w.m.Store(s, &v)
		w.m.LoadOrStore(t, &v)
		w.m.ComputeIfPresent(s, func(_, old interface{}) interface{} { return old })
	case "mload":
		v, ok := w.m.Load(s)
		w.m.Range(func(k, v interface{}) bool { w.str("key", k.(string)); return true })
		if p, _ := v.(*[]interface{}); ok && p != nil {
			w.list("loaded list", *p)
		}
		w.m.Delete(t)
		if b == 0 {
			w.m.Clear()
		}
	case "mstore":
		m := map[string]interface{}{s: a, t: b}
		for _, x := range l {
			m[x] = x
		}
		want := len(m)
		sum := func() string {
			var r []string
			for k, v := range m {
				r = append(r, fmt.Sprintf("%q=%v", k, v))
			}
			sort.Strings(r)
			return strings.Join(r, ",")
		}
		before := sum()
		w.sm.MStore(m)
		if sum() != before || len(m) != want {
			bad("the map passed in became %s, was %s", sum(), before)
		}
		delete(m, s)
		m[t] = "changed"
		if v, ok := w.sm.Load(s); !ok || s != t && fmt.Sprint(v) == "changed" {
			bad("key %q is %v, %v after the caller changed its own map", s, v, ok)
		}
		if v, ok := w.sm.Load(t); !ok || v == "changed" {
			bad("key %q is %v, %v after the caller changed its own map", t, v, ok)
		}
		w.hits++
		sopts := append(make([]xsync.SharedMapOption, 0, 1+b%3), xsync.WithShardBlockSize(1+a))
		w.funcs("options", sopts)
		xsync.NewSharedMap(sopts[:(a+b)%2]...).MStore(m)
	case "range":
		w.sm.Range(func(k, v interface{}) bool { w.str("key", k.(string)); return true })
		w.sm.Delete(s)
	case "encode":
		p := room(s, b)
		if a%4 == 3 {
			func() {
				defer func() { _ = recover() }()
				_ = xbinary.WriteBytes(broken{a%8 == 7}, p)
			}()
			w.written(p, s, bad)
			break
		}
		if err := xbinary.WriteBytes(&w.buf, p); err != nil {
			bad("%v", err)
		}
		w.written(p, s, bad)
	case "decode":
		for w.buf.Len() > 0 {
			x, err := xbinary.ReadBytes(&w.buf)
			if err != nil {
				bad("%v", err)
				break
			}
			w.bytes("decoded bytes", x)
			w.hits++
		}
	case "pool":
		x := xbytes.Malloc(a, b)
		copy(x, s)
		w.bytes("allocation", x)
		y := xbytes.Malloc(len(s), a)
		copy(y, s)
		xbytes.Free(y)
	case "reader":
		r := xio.GetBufferReaderSize(strings.NewReader(s+t), 16+a)
		x := make([]byte, a, a+b)
		n, _ := io.ReadFull(r, x)
		w.bytes("bytes read", x[:n])
		y, _ := r.ReadString('b')
		w.str("text read", y)
		z, _ := r.ReadBytes('c')
		w.bytes("bytes read", z)
		xio.PutBufferReader(r)
		w.hits++
	case "writer":
		var d bytes.Buffer
		x := xio.GetBufferWriterSize(&d, 16+a)
		p := room(s, b)
		x.Write(p)
		w.written(p, s, bad)
		x.WriteString(t)
		x.Flush()
		xio.PutBufferWriter(x)
		w.bytes("bytes sent", d.Bytes())
		if d.String() != s+t {
			bad("%q was sent for %q", d.String(), s+t)
		}
	case "of":
		w.args("elements", items)
		xstream.Of(items...).Skip(a % 3).Done()
	case "sort":
		w.args("elements", items)
		var got []interface{}
		xstream.Of(items...).Sort(less).Reverse().Foreach(func(x interface{}) { got = append(got, x) })
		w.list("sorted elements", got)
	case "split":
		w.args("elements", items)
		xstream.Of(items...).Split(1 + a%4).Foreach(func(x interface{}) {
			w.list("piece", x.([]interface{}))
			w.hits++
		})
	case "tail":
		w.args("elements", items)
		var got []interface{}
		xstream.Of(items...).Tail(1 + a).Peek(func(interface{}) {}).Merge().Foreach(func(x interface{}) { got = x.([]interface{}) })
		w.list("last elements", got)
		var back []interface{}
		xstream.Of(items...).Reverse().Foreach(func(x interface{}) { back = append(back, x) })
		xstream.Of(items...).ForeachOrdered(func(x interface{}) { w.hits++ })
		w.list("reversed elements", back)
	case "substreams":
		w.args("elements", items)
		xstream.Of(items...).SplitSteam(1 + a%4).Foreach(func(x interface{}) {
			x.(*xstream.Stream).Merge().Foreach(func(x interface{}) { w.list("piece", x.([]interface{})) })
		})
	case "merge":
		w.args("elements", items)
		xstream.Of(items...).Merge().Foreach(func(x interface{}) { w.list("piece", x.([]interface{})) })
	case "group":
		w.args("elements", items)
		xstream.Of(items...).Group(func(x interface{}) interface{} { return len(fmt.Sprint(x)) % 2 }).Foreach(func(x interface{}) {
			w.list("group", x.([]interface{}))
			w.hits++
		})
	case "flat":
		var lists [][]interface{}
		for i := 0; i < 3; i++ {
			lists = append(lists, append(make([]interface{}, 0, len(items)+i), items...))
			w.args("inner list", lists[i])
		}
		xstream.Of(0, 1, 2).FlatMap(func(x interface{}) interface{} { return lists[x.(int)] }).Done()
	case "concat":
		others := make([]*xstream.Stream, 2, 3)
		others[0], others[1] = xstream.Of(items...), xstream.Of(1, 2)
		c := [2]*xstream.Stream{others[0], others[1]}
		w.args("elements", items)
		xstream.Of(items...).Concat(others...).Done()
		if others[0] != c[0] || others[1] != c[1] || others[:3][2] != nil {
			bad("the list of streams changed")
		}
	case "copy":
		p := map[string]int{"x": a, "y" + s: b}
		want := len(p)
		m := xstream.Of(items...).Copy(p)
		if len(p) != want || p["x"] != a || p["y"+s] != b {
			bad("the copy sizes became %v", p)
		}
		done := make(chan bool)
		for _, c := range m {
			c := c
			go func() { c.Done(); done <- true }()
		}
		for range m {
			<-done
		}
	case "collect":
		w.args("elements", items)
		g := xstream.GroupBy(func(x interface{}) interface{} { return len(fmt.Sprint(x)) % 3 })
		xstream.Of(items...).Collection(g)
		for _, x := range g.Map() {
			w.list("group", x)
		}
	case "walkopts":
		opts := make([]xstream.Option, 1, 3)
		opts[0] = xstream.WithWorkSize(1 + a%3)
		w.funcs("options", opts)
		xstream.Of(items...).Map(func(x interface{}) interface{} { return x }, opts...).Filter(func(interface{}) bool { return true }, opts...).Done()
		if b%3 == 0 {
			o := new(xstream.Options)
			was := fmt.Sprintf("%+v", *o)
			if b%2 == 0 {
				opts[0](o)
				was = fmt.Sprintf("%+v", *o)
			}
			more := append(make([]xstream.Option, 0, 3), xstream.WithOption(o), opts[0])
			w.hold("options value", func() string { return fmt.Sprintf("%+v", *o) })
			w.funcs("options", more)
			xstream.Of(items...).Map(func(x interface{}) interface{} { return x }, more[:1]...).Filter(func(interface{}) bool { return true }, more...).Done()
			if now := fmt.Sprintf("%+v", *o); now != was {
				bad("the options value became %s, was %s", now, was)
			}
		}
	case "mapreduce":
		w.args("elements", items)
		var got []interface{}
		opts := append(make([]xmapreduce.Option, 0, 3), xmapreduce.WithWorkerSize(1+a%3))
		w.funcs("options", opts)
		for x := range xmapreduce.Map(context.Background(), func(c chan<- interface{}) {
			for _, x := range items {
				c <- x
			}
		}, func(x interface{}, out xbarrier.Writer) { out.Write(x) }, opts[:b%2]...) {
			got = append(got, x)
		}
		w.list("mapped elements", got)
	case "resource":
		c, err := w.res.Get(s, func() (io.Closer, error) { return io.NopCloser(strings.NewReader(t)), nil })
		if err != nil || c == nil {
			bad("%v, %v", c, err)
		}
		w.res.Remove(t)
	case "once":
		v := xonce.NewValue()
		v.Write(items)
		w.list("stored list", v.Value().([]interface{}))
		c := xonce.NewChan()
		c.Write(items)
		w.list("sent list", (<-c.Chan()).([]interface{}))
	case "barrier":
		ch := make(chan interface{}, 1)
		xbarrier.NewWriteBarrier(context.Background(), ch).Write(items)
		x, _ := xbarrier.NewReadBarrier(context.Background(), ch).Read()
		w.list("passed list", x.([]interface{}))
	case "retry":
		k := 0
		opts := append(make([]xtask.RetryOption, 0, 1+b%3), xtask.WithRetry(a%4))
		w.funcs("options", opts)
		err := xtask.DoWithRetry(func() error { k++; return errors.New(s + fmt.Sprint(k)) }, opts[:(a+b)%2]...)
		w.hold("retry error", func() string { return err.Error() })
	case "panic":
		var p interface{}
		func() {
			defer func() { p = recover() }()
			_ = xtask.DoWithoutDefer(context.Background(), func() error { panic(s) })
		}()
		if strings.Contains(fmt.Sprint(p), s) {
			w.hold("panic value", func() string { return fmt.Sprint(p) })
		} else {
			bad("panic value %v", p)
		}
	default:
		panic("harness: " + st.Op)
	}
}

func run(_ *testing.T, c Case, r *core.Rec) error {
	w := &world{
		opts: append(make([]xs.JoinerOption, 0, 4), xs.WithJoinerPrefix("<"), xs.WithJoinerStep(", "), xs.WithJoinerSuffix(">")),
		ring: xring.NewRing(3), err: &xerror.BatchError{}, m: &xsync.Map{},
		sm: xsync.NewSharedMap(xsync.WithShardBlockSize(2)), res: xsync.NewResourceManager(),
	}
	w.join = xs.NewJoiner(w.opts...)
	kinds := map[string]bool{}
	for i, st := range c.Steps {
		w.step, w.op = i, st.Op
		kinds[st.Op] = true
		w.do(st)
		w.check(fmt.Sprintf("after call %d (%s)", i, st.Op))
		if w.fail != nil {
			return w.fail
		}
	}
	for k := range kinds {
		r.Label("call:%s", k)
	}
	r.NonTrivial(len(w.held) >= 6 && w.hits >= 2)
	return nil
}

func gen(t *rapid.T) Case {
	var c Case
	al := core.Alphabet(t, "xstring")
	var few []string
	for i, n := 0, core.Uni(t, 1, 6, "kinds"); i < n; i++ {
		few = append(few, ops[core.Uni(t, 0, len(ops)-1, "kind")])
	}
	text := func(n int, label string) core.S {
		if rapid.IntRange(0, 15).Draw(t, label+"bad") == 15 {
			return core.S(core.Malformed(t, "xstring", al, n, label))
		}
		return core.S(core.Text(t, "xstring", al, n, label))
	}
	for k, m := 0, core.Uni(t, 1, 8, "steps"); k < m; k++ {
		st := Step{
			Op: few[core.Uni(t, 0, len(few)-1, "op")],
			S:  text(core.Long(t, 30, 3000), "s"),
			T:  text(6, "t"),
			A:  core.Uni(t, 0, 12, "a"),
			B:  core.Uni(t, 0, 12, "b"),
		}
		for i, n := 0, core.Uni(t, 0, 4, "l"); i < n; i++ {
			st.L = append(st.L, text(6, "x"))
		}
		c.Steps = append(c.Steps, st)
	}
	return c
}

func TestC35_P_Keep(t *testing.T) {
	core.Check(t, core.Prop[Case]{
		Rule:  "up to 8 calls of any package with text, byte slices, lists, maps and options; every argument (up to its capacity) and every result (text, slices, pieces, groups, errors) is compared with a copy after each later call, and byte slices and maps are overwritten by the caller after the call; non-trivial: six or more things held and two or more results",
		Quick: 130000, Thorough: 3000000, Gen: gen, Run: run,
	})
}
