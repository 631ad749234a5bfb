package xsync

import (
	"encoding/json"
	"fmt"
	"reflect"
	"testing"

	"github.com/chenquan/go-pkg/xsync"
	"pgregory.net/rapid"
	"verif/core"
)

// Val is a key or value of one of many dynamic types.
type Val struct {
	T string
	N int
}

type pair struct {
	A int
	B string
}

type named int

type empty struct{}

var ptrs [64]*int

func init() {
	for i := range ptrs {
		n := i
		ptrs[i] = &n
	}
}

var keyTypes = []string{"int", "int", "int", "str", "str", "nil", "i64", "f64", "bool", "struct", "arr", "ptr", "nilptr", "named", "rune", "iface", "empty"}
var valTypes = append([]string{"slice", "map", "func", "err"}, keyTypes...)

func (v Val) Get() interface{} {
	switch v.T {
	case "int":
		return v.N
	case "str":
		return fmt.Sprintf("k%d", v.N)
	case "i64":
		return int64(v.N)
	case "f64":
		return float64(v.N) / 2
	case "bool":
		return v.N%2 == 0
	case "struct":
		return pair{v.N, "x"}
	case "arr":
		return [2]interface{}{v.N, "y"}
	case "ptr":
		return ptrs[v.N%len(ptrs)]
	case "nilptr":
		return (*int)(nil)
	case "named":
		return named(v.N)
	case "rune":
		return rune(v.N)
	case "iface":
		return [1]interface{}{nil}
	case "empty":
		return empty{}
	case "slice":
		return []int{v.N}
	case "map":
		return map[string]int{"n": v.N}
	case "err":
		return fmt.Errorf("e%d", v.N)
	case "func":
		return func() int { return v.N }
	}
	return nil
}

func same(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	ta, tb := reflect.TypeOf(a), reflect.TypeOf(b)
	if ta != tb {
		return false
	}
	if ta.Comparable() {
		return a == b
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	return va.Pointer() == vb.Pointer()
}

// Op is one map operation.
type Op struct {
	Op string
	K  Val  `json:",omitempty"`
	V  Val  `json:",omitempty"`
	N  int  `json:",omitempty"`
	In []Op `json:",omitempty"` // what the callbacks of a range do, one each
}

// MapCase is a sequence of operations.
type MapCase struct {
	Keys []Val
	Ops  []Op
	By   bool `json:",omitempty"` // another map holds the same keys
}

var mapOps = []string{"load", "load", "store", "store", "store", "los", "los", "lad", "delete", "cia", "cia", "cip", "cip", "clear", "range", "stop", "fill", "probe", "drain", "remember", "within", "within"}

func genVal(t *rapid.T, types []string, label string) Val {
	return Val{rapid.SampledFrom(types).Draw(t, label), rapid.IntRange(0, 6).Draw(t, label+"n")}
}

func genMapCase(t *rapid.T, panics bool) MapCase {
	var c MapCase
	nk := rapid.IntRange(1, 10).Draw(t, "keys")
	for i := 0; i < nk; i++ {
		c.Keys = append(c.Keys, genVal(t, keyTypes, "key"))
	}
	ops := mapOps
	if panics {
		ops = append([]string{"ciapanic", "ciapanic", "cippanic", "cippanic", "rangepanic", "cia", "cip", "cia", "cip"}, ops...)
	}
	max := 30
	if rapid.IntRange(0, 4).Draw(t, "long") == 4 {
		max = 120
	}
	n := rapid.IntRange(1, max).Draw(t, "ops")
	var op func(deep bool) Op
	op = func(deep bool) Op {
		o := Op{Op: rapid.SampledFrom(ops).Draw(t, "op")}
		o.K = rapid.SampledFrom(c.Keys).Draw(t, "k")
		switch o.Op {
		case "within":
			if deep {
				o.Op = "range"
				break
			}
			for i, n := 0, rapid.IntRange(1, 4).Draw(t, "inner"); i < n; i++ {
				o.In = append(o.In, op(true))
			}
			o.N = rapid.IntRange(0, 8).Draw(t, "n") // 0: never stops
		case "store", "los", "cia", "cip":
			o.V = genVal(t, valTypes, "v")
		case "stop":
			o.N = rapid.IntRange(1, 6).Draw(t, "n")
		case "fill", "probe", "drain":
			o.N = core.Size(t, "xsync", 1, 70, 6000, "n")
		}
		return o
	}
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, op(false))
	}
	c.By = rapid.IntRange(0, 2).Draw(t, "by") == 2
	return c
}

type boom struct{ n int }

// boomFor is the value a callback of operation i panics with.
func boomFor(i int) interface{} {
	switch i % 4 {
	case 0:
		return &boom{i}
	case 1:
		return fmt.Errorf("boom %d", i)
	case 2:
		return fmt.Sprint("boom ", i)
	}
	return i
}

// runMap applies the operations to a Map and to a plain dictionary.
func runMap(c MapCase, r *core.Rec) (err error) {
	m := &xsync.Map{}
	d := map[interface{}]interface{}{}
	other, od := &xsync.Map{}, map[interface{}]interface{}{}
	if c.By {
		for i, k := range c.Keys {
			if i%3 != 2 {
				other.Store(k.Get(), "other")
				od[k.Get()] = "other"
			}
			if i == 1 {
				other.Range(func(k, v interface{}) bool { return true })
			}
		}
		other.Delete(c.Keys[0].Get())
		delete(od, c.Keys[0].Get())
	}
	universe := map[interface{}]bool{}
	for _, k := range c.Keys {
		universe[k.Get()] = true
	}
	hits, misses, deleted, maxLen, cleared, within := 0, 0, 0, 0, 0, 0
	var apply func(i int, o Op) error
	apply = func(i int, o Op) error {
		k := o.K.Get()
		cur, has := d[k]
		fail := func(f string, a ...interface{}) error {
			js, _ := json.Marshal(o)
			return fmt.Errorf("operation %d %s: %s", i, js, fmt.Sprintf(f, a...))
		}
		if has {
			hits++
		} else {
			misses++
		}
		switch o.Op {
		case "load":
			v, ok := m.Load(k)
			if ok != has || !same(v, cur) {
				return fail("Load = %v, %v; the dictionary says %v, %v", v, ok, cur, has)
			}
		case "store":
			v := o.V.Get()
			m.Store(k, v)
			d[k] = v
		case "los":
			v := o.V.Get()
			a, l := m.LoadOrStore(k, v)
			if l != has || (has && !same(a, cur)) || (!has && !same(a, v)) {
				return fail("LoadOrStore = %v, %v; the dictionary has %v, %v", a, l, cur, has)
			}
			if !has {
				d[k] = v
			}
		case "lad":
			v, ok := m.LoadAndDelete(k)
			if ok != has || !same(v, cur) {
				return fail("LoadAndDelete = %v, %v; the dictionary has %v, %v", v, ok, cur, has)
			}
			delete(d, k)
			deleted++
		case "delete":
			m.Delete(k)
			delete(d, k)
			deleted++
		case "cia":
			v := o.V.Get()
			calls := 0
			var got interface{}
			a, l := m.ComputeIfAbsent(k, func(key interface{}) interface{} {
				calls++
				got = key
				return v
			})
			if has && calls != 0 {
				return fail("ComputeIfAbsent called the function %d times for a present key", calls)
			}
			if !has && (calls != 1 || !same(got, k)) {
				return fail("ComputeIfAbsent called the function %d times (key %v) for an absent key", calls, got)
			}
			if l != has || (has && !same(a, cur)) || (!has && !same(a, v)) {
				return fail("ComputeIfAbsent = %v, %v; the dictionary has %v, %v", a, l, cur, has)
			}
			if !has {
				d[k] = v
			}
		case "cip":
			v := o.V.Get()
			calls := 0
			var gk, gv interface{}
			a, l := m.ComputeIfPresent(k, func(key, value interface{}) interface{} {
				calls++
				gk, gv = key, value
				return v
			})
			if !has && calls != 0 {
				return fail("ComputeIfPresent called the function %d times for an absent key", calls)
			}
			if has && (calls != 1 || !same(gk, k) || !same(gv, cur)) {
				return fail("ComputeIfPresent called the function %d times with %v, %v; the dictionary has %v", calls, gk, gv, cur)
			}
			if l != has || (has && !same(a, v)) || (!has && a != nil) {
				return fail("ComputeIfPresent = %v, %v; present: %v, computed %v", a, l, has, v)
			}
			if has {
				d[k] = v
			}
		case "ciapanic", "cippanic":
			calls := 0
			p := boomFor(i)
			rec, did := core.Panics(func() {
				if o.Op == "ciapanic" {
					m.ComputeIfAbsent(k, func(interface{}) interface{} { calls++; panic(p) })
				} else {
					m.ComputeIfPresent(k, func(_, _ interface{}) interface{} { calls++; panic(p) })
				}
			})
			due := has == (o.Op == "cippanic")
			if due != did || (due && calls != 1) || (!due && calls != 0) {
				return fail("due %v, panicked %v, calls %d", due, did, calls)
			}
			if did && rec != p {
				return fail("the panic value changed to %v", rec)
			}
			r.LabelIf(did, "callback panicked")
		case "rangepanic":
			n, p := 0, boomFor(i)
			rec, did := core.Panics(func() {
				m.Range(func(_, _ interface{}) bool {
					if n++; n > o.K.N {
						panic(p)
					}
					return true
				})
			})
			if due := len(d) > o.K.N; did != due || did && (rec != p || n != o.K.N+1) {
				return fail("a range over %d keys whose callback panics at number %d: panicked %v, %v after %d", len(d), o.K.N+1, did, rec, n)
			}
			r.LabelIf(did, "range callback panicked")
		case "clear":
			m.Clear()
			if len(d) > 0 {
				cleared++
			}
			d = map[interface{}]interface{}{}
		case "range":
			if err := rangeEq(m, d); err != nil {
				return fail("%v", err)
			}
		case "stop":
			n := 0
			seen := map[interface{}]bool{}
			var bad error
			m.Range(func(k, v interface{}) bool {
				n++
				if w, ok := d[k]; !ok || !same(v, w) || seen[k] {
					bad = fail("a range shows %v = %v; present: %v, value %v, seen before: %v", k, v, ok, w, seen[k])
				}
				seen[k] = true
				return n < o.N
			})
			if bad != nil {
				return bad
			}
			want := o.N
			if len(d) < want {
				want = len(d)
			}
			if n != want {
				return fail("a range stopped by its callback made %d callbacks, want %d", n, want)
			}
		case "fill":
			for j := 0; j < o.N; j++ {
				m.Store(j, -j)
				d[j] = -j
				universe[j] = true
			}
		case "drain":
			for j := 0; j < o.N; j += 2 {
				v, ok := m.LoadAndDelete(j)
				w, has := d[j]
				if ok != has || !same(v, w) {
					return fail("LoadAndDelete(%d) = %v, %v; the dictionary has %v, %v", j, v, ok, w, has)
				}
				delete(d, j)
				universe[j] = true
			}
			deleted++
		case "probe":
			for j := 0; j < o.N; j++ {
				v, ok := m.Load(j)
				w, has := d[j]
				if ok != has || !same(v, w) {
					return fail("Load(%d) = %v, %v; the dictionary has %v, %v", j, v, ok, w, has)
				}
			}
		case "remember": // loads of a key that never exists: misses
			for j := 0; j < 3; j++ {
				if v, ok := m.Load("never"); ok || v != nil {
					return fail("Load of a key never stored = %v, %v", v, ok)
				}
			}
		case "within":
			w := newWithin(d)
			m.Range(func(k, v interface{}) bool {
				n := w.visit(k, v)
				if w.err == nil && n <= len(o.In) {
					w.err = apply(i, o.In[n-1])
					w.update(d)
					within++
				}
				return w.err == nil && n != o.N
			})
			if err := w.finish(o.N); err != nil {
				return fail("%v", err)
			}
		}
		if len(d) > maxLen {
			maxLen = len(d)
		}
		return nil
	}
	for i, o := range c.Ops {
		if err := apply(i, o); err != nil {
			return err
		}
	}
	for k := range universe {
		v, ok := m.Load(k)
		w, has := d[k]
		if ok != has || !same(v, w) {
			return fmt.Errorf("finally Load(%v) = %v, %v; the dictionary has %v, %v", k, v, ok, w, has)
		}
	}
	if err := rangeEq(m, d); err != nil {
		return fmt.Errorf("finally %v", err)
	}
	if c.By {
		for k := range universe {
			v, ok := other.Load(k)
			w, has := od[k]
			if ok != has || !same(v, w) {
				return fmt.Errorf("finally in another map Load(%v) = %v, %v; it holds %v, %v", k, v, ok, w, has)
			}
		}
		if err := rangeEq(other, od); err != nil {
			return fmt.Errorf("finally in another map %v", err)
		}
	}
	r.LabelIf(c.By, "another map")
	r.NonTrivial(hits >= 1 && misses >= 1 && deleted+cleared >= 1 && maxLen >= 2)
	r.LabelIf(deleted > 0, "deletes")
	r.LabelIf(cleared > 0, "clears a non-empty map")
	r.LabelIf(maxLen > 16, "more than 16 keys")
	r.LabelIf(within > 0, "range callbacks use the map")
	return nil
}

// within follows a range whose callbacks use the map.
type within struct {
	had     map[interface{}][]interface{} // the values of each key during the range
	must    map[interface{}]bool          // keys present all the time
	seen    map[interface{}]bool
	n       int
	stopped bool
	err     error
}

func newWithin(d map[interface{}]interface{}) *within {
	w := &within{had: map[interface{}][]interface{}{}, must: map[interface{}]bool{}, seen: map[interface{}]bool{}}
	for k := range d {
		w.must[k] = true
	}
	w.update(d)
	return w
}

func (w *within) visit(k, v interface{}) int {
	w.n++
	ok := false
	for _, x := range w.had[k] {
		ok = ok || same(x, v)
	}
	if w.err == nil && (!ok || w.seen[k]) {
		w.err = fmt.Errorf("a range whose callbacks use the map shows %v = %v; shown before: %v, its values during the range: %v", k, v, w.seen[k], w.had[k])
	}
	w.seen[k] = true
	return w.n
}

func (w *within) update(d map[interface{}]interface{}) {
	for k, v := range d {
		if h := w.had[k]; len(h) == 0 || !same(h[len(h)-1], v) {
			w.had[k] = append(h, v)
		}
	}
	for k := range w.must {
		if _, ok := d[k]; !ok {
			delete(w.must, k)
		}
	}
}

// finish is called with the number of the callback that stopped the range.
func (w *within) finish(stop int) error {
	if w.err != nil {
		return w.err
	}
	if stop > 0 && w.n > stop {
		return fmt.Errorf("a range stopped by callback %d made %d callbacks", stop, w.n)
	}
	if stop > 0 && w.n == stop {
		return nil
	}
	for k := range w.must {
		if !w.seen[k] {
			return fmt.Errorf("a range whose callbacks use the map misses %v, present all the time", k)
		}
	}
	return nil
}

func rangeEq(m *xsync.Map, d map[interface{}]interface{}) error {
	seen := map[interface{}]bool{}
	var bad error
	m.Range(func(k, v interface{}) bool {
		w, ok := d[k]
		switch {
		case seen[k]:
			bad = fmt.Errorf("a range shows %v twice", k)
		case !ok:
			bad = fmt.Errorf("a range shows the absent key %v (%v)", k, v)
		case !same(v, w):
			bad = fmt.Errorf("a range shows %v = %v, the dictionary has %v", k, v, w)
		}
		seen[k] = true
		return true
	})
	if bad == nil && len(seen) != len(d) {
		bad = fmt.Errorf("a range shows %d keys, the dictionary has %d", len(seen), len(d))
	}
	return bad
}

func TestC01_P_Dictionary(t *testing.T) {
	core.Check(t, core.Prop[MapCase]{
		Rule:  "operation sequences (up to 120, with bulk fills and drains) on one Map with keys and values of 17+ dynamic types and ranges whose callbacks use the map themselves, mirrored on a Go map and compared after every call; non-trivial: both present and absent keys addressed, something removed, at least two keys held",
		Quick: 60000, Thorough: 2400000,
		Gen: func(t *rapid.T) MapCase { return genMapCase(t, false) },
		Run: func(t *testing.T, c MapCase, r *core.Rec) error { return runMap(c, r) },
	})
}

func TestC04_P_Callbacks(t *testing.T) {
	core.Check(t, core.Prop[MapCase]{
		Rule:  "operation sequences on one Map, rich in compute calls whose callback may panic, mirrored on a Go map with callback counts and arguments compared; non-trivial as for the dictionary",
		Quick: 40000, Thorough: 1500000,
		Gen: func(t *rapid.T) MapCase { return genMapCase(t, true) },
		Run: func(t *testing.T, c MapCase, r *core.Rec) error { return runMap(c, r) },
	})
}
