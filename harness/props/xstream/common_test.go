package xstream

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/chenquan/go-pkg/xstream"
	"pgregory.net/rapid"
	"verif/core"
	"verif/sched"
)

// Src is a finite source of integers; -1 stands for a nil element.
type Src struct {
	Kind string // of, from, range (pre-filled channel), rangego (fed by a goroutine), empty
	Vals []int
	Buf  int `json:",omitempty"`
}

// Stage is one operation on a stream.
type Stage struct {
	Op  string
	N   int    `json:",omitempty"`
	W   int    `json:",omitempty"` // workers
	Opt string `json:",omitempty"` // how the workers are configured: "", size, zero, last
}

// kinds is the number of dynamic types of elements: v%typed is the number of
// the element, v/typed its type.
const kinds, typed = 8, 1 << 24

type box struct{ n int }

func (b *box) Error() string { return "box" }

type pair struct {
	n int
	s string
}

func el(v int) interface{} {
	if v == -1 {
		return nil
	}
	n := v % typed
	switch v / typed {
	case 1:
		return strconv.Itoa(n)
	case 2:
		return &box{n} // an error as well
	case 3:
		return []int{n, n} // cannot be compared
	case 4:
		return float64(n)
	case 5:
		return pair{n, "x"}
	case 6:
		return map[string]int{"n": n}
	case 7:
		return (*int)(nil)
	}
	return n
}

func els(vs []int) []interface{} {
	r := make([]interface{}, len(vs))
	for i, v := range vs {
		r[i] = el(v)
	}
	return r
}

// num maps any element to an integer.
func num(x interface{}) int {
	switch v := x.(type) {
	case nil:
		return -1
	case int:
		return v
	case []interface{}:
		return 100 + len(v)
	case *xstream.Stream:
		return 50
	case string:
		n, _ := strconv.Atoi(v)
		return n
	case *box:
		return v.n
	case []int:
		return v[0]
	case float64:
		return int(v)
	case pair:
		return v.n
	case map[string]int:
		return v["n"]
	}
	return 77
}

// kindOf orders the types of elements.
func kindOf(x interface{}) int {
	for i, y := range []interface{}{nil, 0, "", (*box)(nil), []int(nil), 0., pair{}, map[string]int(nil), (*int)(nil)} {
		if reflect.TypeOf(x) == reflect.TypeOf(y) {
			return i
		}
	}
	return 99
}

func mod(a, m int) int { return ((a % m) + m) % m }

func keyOf(n int) func(x interface{}) interface{} {
	return func(x interface{}) interface{} {
		k := mod(num(x), n+2)
		switch {
		case k == 0 && n%2 == 1:
			return nil
		case k == 1 && n%3 == 2:
			return "one"
		case n >= 4 && k >= 3 && k < 6:
			// equal numbers of different types
			switch (k + n) % 5 {
			case 0:
				return int64(2)
			case 1:
				return float64(2)
			case 2:
				return "2"
			case 3:
				return [1]int{2}
			}
			return pair{2, ""}
		}
		return k
	}
}

func keep(n int) func(x interface{}) bool {
	return func(x interface{}) bool { return mod(num(x), n+2) != 0 }
}

func conv(n int) func(x interface{}) interface{} {
	return func(x interface{}) interface{} {
		k := num(x)
		if n%2 == 1 && mod(k, 7) == 6 {
			return nil
		}
		return mod(k*2+n, 100003)
	}
}

func emits(n int, x interface{}) []interface{} {
	k := num(x)
	r := make([]interface{}, mod(k+n, 4))
	for j := range r {
		if (k+j)%11 == 10 {
			continue // nil
		}
		r[j] = mod(k*4+j, 100003)
	}
	return r
}

// expand turns an element into what flat-map takes: a slice, or one non-nil value.
func expand(n int, x interface{}) interface{} {
	k := num(x)
	if n >= 100 && mod(k, 3) != 1 { // a long slice
		r := make([]interface{}, n-mod(k, 3))
		for i := range r {
			r[i] = mod(k+i, 100003)
		}
		return r
	}
	switch mod(k+n, 5) {
	case 0:
		return el(mod(k, 100003) + typed*mod(k, kinds))
	case 1:
		return []interface{}(nil)
	}
	return emits(n+1, k)
}

func less(n int) func(a, b interface{}) bool {
	return func(a, b interface{}) bool {
		x, y := num(a), num(b)
		if n >= 10 {
			x, y = mod(x, 3), mod(y, 3)
		}
		if x == y && n < 10 {
			x, y = kindOf(a), kindOf(b)
		}
		if n%2 == 1 {
			return y < x
		}
		return x < y
	}
}

func flatten(l []interface{}) []interface{} {
	var r []interface{}
	for _, x := range l {
		if s, ok := x.([]interface{}); ok {
			r = append(r, s...)
		} else {
			r = append(r, x)
		}
	}
	return r
}

func chunks(l []interface{}, n int) [][]interface{} {
	var r [][]interface{}
	for len(l) > n {
		r = append(r, l[:n:n])
		l = l[n:]
	}
	if len(l) > 0 {
		r = append(r, l)
	}
	return r
}

// apply is the list semantics of a stage.
func apply(l []interface{}, s Stage) []interface{} {
	var r []interface{}
	switch s.Op {
	case "distinct":
		seen := map[interface{}]bool{}
		for _, x := range l {
			k := keyOf(s.N)(x)
			if !seen[k] {
				seen[k] = true
				r = append(r, x)
			}
		}
	case "buffer", "peek", "splitflat", "subflat":
		return l
	case "sort":
		r = append(r, l...)
		sort.SliceStable(r, func(i, j int) bool { return less(s.N)(r[i], r[j]) })
	case "tail":
		if len(l) > s.N {
			return l[len(l)-s.N:]
		}
		return l
	case "skip":
		if len(l) <= s.N {
			return nil
		}
		return l[s.N:]
	case "limit":
		if len(l) > s.N {
			return l[:s.N]
		}
		return l
	case "reverse":
		for i := len(l) - 1; i >= 0; i-- {
			r = append(r, l[i])
		}
	case "filter":
		for _, x := range l {
			if keep(s.N)(x) {
				r = append(r, x)
			}
		}
	case "map":
		for _, x := range l {
			r = append(r, conv(s.N)(x))
		}
	case "flat":
		for _, x := range l {
			switch e := expand(s.N, x).(type) {
			case []interface{}:
				for _, y := range e {
					r = append(r, conv(s.N)(y))
				}
			default:
				r = append(r, conv(s.N)(e))
			}
		}
	case "walk":
		for _, x := range l {
			r = append(r, emits(s.N, x)...)
		}
	case "group":
		by := map[interface{}]int{}
		for _, x := range l {
			k := keyOf(s.N)(x)
			i, ok := by[k]
			if !ok {
				i = len(r)
				by[k] = i
				r = append(r, []interface{}(nil))
			}
			r[i] = append(r[i].([]interface{}), x)
		}
	case "split":
		for _, c := range chunks(l, s.N) {
			r = append(r, c)
		}
	case "merge":
		return []interface{}{l}
	default:
		panic("op " + s.Op)
	}
	return r
}

// ctl is the part of the controller that the bodies need.
type ctl interface {
	Point()
	WaitIdle()
	Go(name string, f func())
}

// plain runs on ordinary goroutines, with the real pool.
type plain struct{ wg sync.WaitGroup }

func (p *plain) Point()    { runtime.Gosched() }
func (p *plain) WaitIdle() {}
func (p *plain) Go(_ string, f func()) {
	p.wg.Add(1)
	go func() {
		defer p.wg.Done()
		f()
	}()
}

// env is one execution.
type env struct {
	ctl
	real    bool
	mu      sync.Mutex
	logs    map[int][]interface{}
	sent    []int // per producer: elements accepted
	want    []int
	prods   sync.WaitGroup
	release chan struct{} // open sources end when it closes
	bad     string
}

func (e *env) fail(format string, a ...interface{}) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.bad == "" {
		e.bad = fmt.Sprintf(format, a...)
	}
}

// finish waits until everything that runs on its own has come to rest.
func (e *env) finish() {
	e.prods.Wait()
	e.WaitIdle()
	e.mu.Lock()
	defer e.mu.Unlock()
	for i := range e.sent {
		if e.sent[i] != e.want[i] && e.bad == "" {
			e.bad = fmt.Sprintf("producer %d sent %d of its %d elements", i, e.sent[i], e.want[i])
		}
	}
}

// gaveUp is set by the first wait that comes to nothing: the run has failed
// by then, and looking for a smaller failure need not wait that long again.
var gaveUp atomic.Bool

// eventually waits for something that happens in the background.
func (e *env) eventually(f func() bool) bool {
	if !e.real {
		e.WaitIdle()
		return f()
	}
	limit := time.Minute
	if gaveUp.Load() {
		limit = 3 * time.Second
	}
	for i, start := 0, time.Now(); time.Since(start) < limit; i++ {
		if f() {
			return true
		}
		time.Sleep(time.Duration(min(1+i/10, 200)) * 100 * time.Microsecond)
	}
	if f() {
		return true
	}
	gaveUp.Store(true)
	return false
}

func exec(t *testing.T, plan sched.Plan, r *core.Rec, body func(e *env)) (bool, error) {
	e := &env{logs: map[int][]interface{}{}}
	if plan.Mode == "plain" {
		p := &plain{}
		e.ctl, e.real, e.release = p, true, make(chan struct{})
		body(e)
		p.wg.Wait()
		if e.bad != "" {
			return true, fmt.Errorf("%s", e.bad)
		}
		return true, nil
	}
	decided, err := core.Concurrent(t, plan, r, func(c *sched.Ctl) {
		e.ctl, e.release = c, make(chan struct{})
		body(e)
	})
	if e.bad != "" {
		return true, fmt.Errorf("%s", e.bad)
	}
	return decided, err
}

// source builds the stream; open keeps it from ending until the release.
func (e *env) source(s Src, open bool) *xstream.Stream {
	vals := els(s.Vals)
	producer := func() int {
		e.mu.Lock()
		defer e.mu.Unlock()
		e.sent = append(e.sent, 0)
		e.want = append(e.want, len(vals))
		e.prods.Add(1)
		return len(e.sent) - 1
	}
	feed := func(i int, c chan<- interface{}) {
		defer e.prods.Done()
		for _, v := range vals {
			c <- v
			e.mu.Lock()
			e.sent[i]++
			e.mu.Unlock()
		}
		if open {
			<-e.release
		}
	}
	switch s.Kind {
	case "empty":
		return xstream.Empty()
	case "of":
		return xstream.Of(vals...)
	case "range":
		c := make(chan interface{}, len(vals))
		for _, v := range vals {
			c <- v
		}
		close(c)
		return xstream.Range(c)
	case "rangego":
		c := make(chan interface{}, s.Buf)
		i := producer()
		e.Go("producer", func() {
			defer close(c)
			feed(i, c)
		})
		return xstream.Range(c)
	}
	i := producer()
	return xstream.From(func(c chan<- interface{}) { feed(i, c) })
}

func (e *env) log(at int, x interface{}) {
	e.mu.Lock()
	e.logs[at] = append(e.logs[at], x)
	e.mu.Unlock()
}

func opts(s Stage) []xstream.Option {
	switch s.Opt {
	case "size":
		return []xstream.Option{xstream.WithWorkSize(s.W)}
	case "zero":
		return []xstream.Option{xstream.WithOption(&xstream.Options{})}
	case "last":
		return []xstream.Option{xstream.WithWorkSize(s.W + 3), xstream.WithOption(&xstream.Options{}), xstream.WithWorkSize(s.W)}
	}
	return nil
}

func workers(s Stage) int {
	if (s.Opt == "size" || s.Opt == "last") && s.W > 1 {
		return s.W
	}
	return 1
}

// stage applies one operation to the real stream.
func (e *env) stage(st *xstream.Stream, at int, s Stage) *xstream.Stream {
	o := opts(s)
	switch s.Op {
	case "distinct":
		return st.Distinct(keyOf(s.N))
	case "buffer":
		return st.Buffer(s.N)
	case "sort":
		return st.Sort(less(s.N))
	case "tail":
		return st.Tail(s.N)
	case "skip":
		return st.Skip(s.N)
	case "limit":
		return st.Limit(s.N)
	case "reverse":
		return st.Reverse()
	case "peek":
		return st.Peek(func(x interface{}) { e.Point(); e.log(at, x) })
	case "filter":
		return st.Filter(func(x interface{}) bool { e.Point(); return keep(s.N)(x) }, o...)
	case "map":
		return st.Map(func(x interface{}) interface{} { e.Point(); return conv(s.N)(x) }, o...)
	case "flat":
		return st.Map(func(x interface{}) interface{} { return expand(s.N, x) }).
			FlatMap(func(x interface{}) interface{} { e.Point(); return conv(s.N)(x) }, o...)
	case "walk":
		return st.Walk(func(x interface{}, pipe chan<- interface{}) {
			for _, y := range emits(s.N, x) {
				e.Point()
				pipe <- y
			}
		}, o...)
	case "split":
		return st.Split(s.N)
	case "splitflat":
		return st.Split(s.N).FlatMap(func(x interface{}) interface{} { return x }, o...)
	case "subflat":
		return st.SplitSteam(s.N).Walk(func(x interface{}, pipe chan<- interface{}) {
			x.(*xstream.Stream).Foreach(func(y interface{}) { pipe <- y })
		}, o...)
	case "sub":
		return st.SplitSteam(s.N)
	case "group":
		return st.Group(keyOf(s.N))
	case "merge":
		return st.Merge()
	}
	panic("op " + s.Op)
}

func same(got, want []interface{}) bool {
	return len(got) == 0 && len(want) == 0 || reflect.DeepEqual(got, want)
}

func brief(l []interface{}) string {
	if len(l) > 60 {
		return fmt.Sprintf("%v... (%d elements)", l[:60], len(l))
	}
	return fmt.Sprintf("%v", l)
}

// multiset counts elements by a printable form.
func multiset(l []interface{}) map[string]int {
	m := map[string]int{}
	for _, x := range l {
		m[fmt.Sprintf("%T %v", x, x)]++
	}
	return m
}

func sameBag(a, b []interface{}) bool {
	return len(a) == len(b) && reflect.DeepEqual(multiset(a), multiset(b))
}

// ------------------------------------------------------------ generators

func genSrc(t *rapid.T, max int) Src {
	s := Src{Kind: rapid.SampledFrom([]string{"of", "from", "from", "range", "rangego", "empty"}).Draw(t, "source")}
	if s.Kind == "empty" && rapid.IntRange(0, 2).Draw(t, "reallyempty") > 0 {
		s.Kind = "of"
	}
	if s.Kind == "empty" {
		return s
	}
	n := 0
	if max > 5000 {
		n = core.LongSize(t, "xstream", max, "n")
	} else {
		n = core.Uni(t, 0, max, "n")
	}
	if max > 40 && rapid.IntRange(0, 2).Draw(t, "near") == 2 {
		n = core.Int(t, "xstream", 0, max, "len")
	}
	if n <= 40 {
		hi := rapid.SampledFrom([]int{1, 4, 12, 200}).Draw(t, "spread")
		for i := 0; i < n; i++ {
			s.Vals = append(s.Vals, rapid.IntRange(-1, hi).Draw(t, "v"))
		}
	} else {
		a, b, m := rapid.IntRange(1, 97).Draw(t, "a"), rapid.IntRange(0, 50).Draw(t, "b"), rapid.IntRange(2, 500).Draw(t, "m")
		if rapid.Bool().Draw(t, "different") {
			m = 2*n + 1 // mostly different elements
		}
		for i := 0; i < n; i++ {
			s.Vals = append(s.Vals, (i*a+b)%m-1)
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "typed") == 2 {
		// elements of one other type, or of all
		k := rapid.IntRange(1, kinds).Draw(t, "type")
		for i, v := range s.Vals {
			switch {
			case v == -1:
			case k == kinds:
				s.Vals[i] += typed * ((i*i + i/3) % kinds)
			default:
				s.Vals[i] += typed * k
			}
		}
	}
	if s.Kind == "rangego" {
		s.Buf = rapid.IntRange(0, 3).Draw(t, "buf")
	}
	return s
}

var listOps = []string{"distinct", "buffer", "sort", "tail", "skip", "limit", "reverse", "peek", "filter", "map", "flat", "walk"}

// size draws a size near what the stage will see.
func size(t *rapid.T, n, lo int) int {
	switch rapid.IntRange(0, 3).Draw(t, "sizekind") {
	case 0:
		return max(lo, rapid.IntRange(0, 4).Draw(t, "size"))
	case 1:
		return max(lo, n+rapid.IntRange(-2, 2).Draw(t, "size"))
	case 2:
		return max(lo, core.Int(t, "xstream", 0, n+3, "size"))
	}
	return rapid.IntRange(lo, max(lo, n+2)).Draw(t, "size")
}

// vast replaces a size, now and then, by one that no stream and no memory reaches.
func vast(t *rapid.T, n int) int {
	if rapid.IntRange(0, 40).Draw(t, "vast") == 40 {
		return rapid.SampledFrom([]int{math.MaxInt, math.MaxInt - 1, math.MaxInt / 2, 1<<48 + 1, 1<<60 + 3}).Draw(t, "vastsize")
	}
	return n
}

// genStages draws list stages; the list l of elements shows which sizes matter.
func genStages(t *rapid.T, l []interface{}, count int, ops []string, single bool) ([]Stage, []interface{}) {
	var r []Stage
	for i := 0; i < count; i++ {
		s := Stage{Op: rapid.SampledFrom(ops).Draw(t, "op")}
		switch s.Op {
		case "tail", "skip", "limit":
			s.N = vast(t, size(t, len(l), 0))
		case "split", "sub", "splitflat", "subflat":
			s.N = vast(t, size(t, len(l), 1))
		case "buffer":
			s.N = size(t, len(l), 0) - 1
		default:
			s.N = rapid.IntRange(0, 6).Draw(t, "n")
			if s.Op == "distinct" {
				s.N = manyKeys(t, l, s.N)
			}
		}
		if s.Op == "walk" || s.Op == "flat" {
			if len(l) > 3000 {
				s.Op = "map"
			}
		}
		switch s.Op {
		case "walk", "flat", "map", "filter":
			if single {
				s.Opt = rapid.SampledFrom([]string{"", "", "", "size", "zero", "last"}).Draw(t, "opt")
				s.W = rapid.IntRange(-9, 1).Draw(t, "w")
			} else {
				s.Opt = rapid.SampledFrom([]string{"", "size", "size", "last"}).Draw(t, "opt")
				s.W = rapid.IntRange(-4, 4).Draw(t, "w")
			}
			if s.Opt == "" || s.Opt == "zero" {
				s.W = 0
			}
		}
		r = append(r, s)
		if s.Op != "sub" {
			l = apply(l, s)
		}
	}
	return r, l
}

// manyKeys makes keys of a long list sometimes (nearly) all different.
func manyKeys(t *rapid.T, l []interface{}, n int) int {
	if len(l) > 40 {
		return rapid.SampledFrom([]int{n, n, len(l) / 2, len(l) - 10, 2 * len(l)}).Draw(t, "keys")
	}
	return n
}

func shortCircuit(ss []Stage) bool {
	for _, s := range ss {
		if s.Op == "limit" || s.Op == "tail" && s.N == 0 {
			return true
		}
	}
	return false
}

func planFor(t *rapid.T, mode string) sched.Plan {
	switch mode {
	case "p":
		return sched.Plan{Mode: "plain"}
	case "r":
		return core.Free
	}
	return core.Plan(t)
}
