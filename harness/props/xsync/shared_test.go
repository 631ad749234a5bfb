package xsync

import (
	"encoding/json"
	"fmt"
	"sort"
	"testing"

	"github.com/chenquan/go-pkg/xsync"
	"pgregory.net/rapid"
	"verif/core"
)

// SharedCase is a sequence of operations on a SharedMap.
type SharedCase struct {
	Shards int // -1 stands for the default
	Keys   []core.S
	Ops    []SOp
	By     int `json:",omitempty"` // another map of that many shards holds the same keys
}

// SOp is one operation; K and Ks are key indexes.
type SOp struct {
	Op string
	K  int
	Ks []int `json:",omitempty"`
	V  Val   `json:",omitempty"`
	N  int   `json:",omitempty"`
	In []SOp `json:",omitempty"` // what the callbacks of a range do, one each
}

var sharedOps = []string{"load", "has", "store", "store", "mstore", "mstore", "los", "los", "delete", "delete", "cia", "cip", "cip", "clear", "range", "stop", "shard", "fill", "within", "within"}

func genShared(t *rapid.T, panics bool) SharedCase {
	var c SharedCase
	switch rapid.IntRange(0, 5).Draw(t, "shardk") {
	case 0:
		c.Shards = -1
	case 1:
		c.Shards = core.Size(t, "xsync", 1, 3000, 200000, "shards")
	default:
		c.Shards = rapid.IntRange(1, 70).Draw(t, "shards")
	}
	al := core.Alphabet(t, "xsync")
	n := rapid.IntRange(1, 12).Draw(t, "keys")
	for i := 0; i < n; i++ {
		if rapid.IntRange(0, 6).Draw(t, "mal") == 6 {
			c.Keys = append(c.Keys, core.S(core.Malformed(t, "xsync", al, 12, "key")))
		} else {
			c.Keys = append(c.Keys, core.S(core.Text(t, "xsync", al, core.Long(t, 60, 70000), "key")))
		}
	}
	ops := sharedOps
	if panics {
		ops = append([]string{"ciapanic", "ciapanic", "cippanic", "cippanic", "rangepanic", "cia", "cip", "cia", "cip"}, ops...)
	}
	m := rapid.IntRange(1, 40).Draw(t, "ops")
	var op func(deep bool) SOp
	op = func(deep bool) SOp {
		o := SOp{Op: rapid.SampledFrom(ops).Draw(t, "op"), K: rapid.IntRange(0, n-1).Draw(t, "k")}
		switch o.Op {
		case "within":
			if deep {
				o.Op = "range"
				break
			}
			for i, n := 0, rapid.IntRange(1, 4).Draw(t, "inner"); i < n; i++ {
				o.In = append(o.In, op(true))
			}
			o.N = rapid.IntRange(0, 8).Draw(t, "n") // 0: never stops
		case "store", "los", "cia", "cip":
			o.V = genVal(t, valTypes, "v")
		case "mstore":
			o.V = genVal(t, valTypes, "v")
			o.Ks = rapid.SliceOfN(rapid.IntRange(0, n-1), 0, 6).Draw(t, "ks")
		case "stop":
			o.N = rapid.IntRange(1, 6).Draw(t, "n")
		case "fill":
			o.N = core.Size(t, "xsync", 1, 80, 20000, "n")
		}
		return o
	}
	for i := 0; i < m; i++ {
		c.Ops = append(c.Ops, op(false))
	}
	if rapid.IntRange(0, 2).Draw(t, "by") == 2 {
		c.By = rapid.IntRange(1, 40).Draw(t, "by shards")
		if c.Shards > 0 && rapid.Bool().Draw(t, "alike") {
			c.By = min(c.Shards, 256)
		}
	}
	return c
}

func sharedRange(m *xsync.SharedMap, d map[string]interface{}) error {
	seen := map[string]bool{}
	var bad error
	m.Range(func(key, v interface{}) bool {
		k, ok := key.(string)
		if !ok {
			bad = fmt.Errorf("a range shows a key of type %T", key)
			return true
		}
		w, ok := d[k]
		switch {
		case seen[k]:
			bad = fmt.Errorf("a range shows %q twice", k)
		case !ok:
			bad = fmt.Errorf("a range shows the absent key %q (%v)", k, v)
		case !same(v, w):
			bad = fmt.Errorf("a range shows %q = %v, the dictionary has %v", k, v, w)
		}
		seen[k] = true
		return true
	})
	if bad == nil && len(seen) != len(d) {
		bad = fmt.Errorf("a range shows %d keys, the dictionary has %d", len(seen), len(d))
	}
	return bad
}

func runShared(c SharedCase, r *core.Rec) error {
	var m *xsync.SharedMap
	if c.Shards == -1 {
		m = xsync.NewSharedMap()
	} else {
		m = xsync.NewSharedMap(xsync.WithShardBlockSize(c.Shards))
	}
	var other *xsync.SharedMap
	od := map[string]interface{}{}
	if c.By > 0 {
		other = xsync.NewSharedMap(xsync.WithShardBlockSize(c.By))
		for i, k := range c.Keys {
			if i%3 != 2 {
				od[string(k)] = "other"
			}
		}
		other.MStore(od)
		other.Delete(string(c.Keys[0]))
		delete(od, string(c.Keys[0]))
	}
	d := map[string]interface{}{}
	home := map[string]*xsync.SharedBlockMap{}
	used := map[*xsync.SharedBlockMap]bool{}
	hits, removed, maxLen, within := 0, 0, 0, 0
	var apply func(i int, o SOp) error
	apply = func(i int, o SOp) error {
		k := string(c.Keys[o.K])
		cur, has := d[k]
		if has {
			hits++
		}
		fail := func(f string, a ...interface{}) error {
			js, _ := json.Marshal(o)
			return fmt.Errorf("operation %d %s key %q: %s", i, js, k, fmt.Sprintf(f, a...))
		}
		sh := m.GetShard(k)
		if sh == nil || (home[k] != nil && home[k] != sh) {
			return fail("the key's shard is missing or changed")
		}
		home[k] = sh
		used[sh] = true
		switch o.Op {
		case "load":
			v, ok := m.Load(k)
			if ok != has || !same(v, cur) {
				return fail("Load = %v, %v; the dictionary has %v, %v", v, ok, cur, has)
			}
		case "has":
			if ok := m.Has(k); ok != has {
				return fail("Has = %v, want %v", ok, has)
			}
		case "shard":
			if v, ok := sh.Load(k); ok != has || !same(v, cur) {
				return fail("the key's shard holds %v, %v; the dictionary has %v, %v", v, ok, cur, has)
			}
			for other := range used {
				if other != sh {
					if _, ok := other.Load(k); ok {
						return fail("the key also lives in another shard")
					}
				}
			}
		case "store":
			v := o.V.Get()
			m.Store(k, v)
			d[k] = v
		case "mstore":
			b := map[string]interface{}{}
			for j, x := range o.Ks {
				v := Val{o.V.T, o.V.N + j}.Get()
				b[string(c.Keys[x])] = v
				d[string(c.Keys[x])] = v
			}
			m.MStore(b)
		case "fill":
			b := map[string]interface{}{}
			for j := 0; j < o.N; j++ {
				b[fmt.Sprint("f", j)] = j
				d[fmt.Sprint("f", j)] = j
			}
			m.MStore(b)
		case "los":
			v := o.V.Get()
			if stored := m.LoadOrStore(k, v); stored == has {
				return fail("LoadOrStore = %v for a key with presence %v", stored, has)
			}
			if !has {
				d[k] = v
			}
		case "delete":
			m.Delete(k)
			if has {
				removed++
			}
			delete(d, k)
		case "cia", "ciapanic":
			v, calls, p := o.V.Get(), 0, boomFor(i)
			var got string
			var a interface{}
			var l bool
			rec, did := core.Panics(func() {
				a, l = m.ComputeIfAbsent(k, func(key string) interface{} {
					calls++
					got = key
					if o.Op == "ciapanic" {
						panic(p)
					}
					return v
				})
			})
			if has && calls != 0 || !has && (calls != 1 || got != k) {
				return fail("ComputeIfAbsent called the function %d times (key %q), present: %v", calls, got, has)
			}
			if o.Op == "ciapanic" && !has {
				if !did || rec != p {
					return fail("the callback's panic did not reach the caller: %v %v", did, rec)
				}
				break
			}
			if did {
				panic(rec)
			}
			if l != has || has && !same(a, cur) || !has && !same(a, v) {
				return fail("ComputeIfAbsent = %v, %v; the dictionary has %v, %v", a, l, cur, has)
			}
			if !has {
				d[k] = v
			}
		case "cip", "cippanic":
			v, calls, p := o.V.Get(), 0, boomFor(i)
			var gk string
			var gv, a interface{}
			var l bool
			rec, did := core.Panics(func() {
				a, l = m.ComputeIfPresent(k, func(key string, value interface{}) interface{} {
					calls++
					gk, gv = key, value
					if o.Op == "cippanic" {
						panic(p)
					}
					return v
				})
			})
			if !has && calls != 0 || has && (calls != 1 || gk != k || !same(gv, cur)) {
				return fail("ComputeIfPresent called the function %d times with %q, %v; the dictionary has %v, %v", calls, gk, gv, cur, has)
			}
			if o.Op == "cippanic" && has {
				if !did || rec != p {
					return fail("the callback's panic did not reach the caller: %v %v", did, rec)
				}
				break
			}
			if did {
				panic(rec)
			}
			if l != has || has && !same(a, v) || !has && a != nil {
				return fail("ComputeIfPresent = %v, %v; present: %v, computed %v", a, l, has, v)
			}
			if has {
				d[k] = v
			}
		case "rangepanic":
			n, p := 0, boomFor(i)
			rec, did := core.Panics(func() {
				m.Range(func(_, _ interface{}) bool {
					if n++; n > o.K {
						panic(p)
					}
					return true
				})
			})
			if due := len(d) > o.K; did != due || did && (rec != p || n != o.K+1) {
				return fail("a range over %d keys whose callback panics at number %d: panicked %v, %v after %d", len(d), o.K+1, did, rec, n)
			}
			r.LabelIf(did, "range callback panicked")
		case "clear":
			m.Clear()
			removed += len(d)
			d = map[string]interface{}{}
		case "range":
			if err := sharedRange(m, d); err != nil {
				return fail("%v", err)
			}
		case "stop":
			n := 0
			m.Range(func(k, v interface{}) bool { n++; return n < o.N })
			want := o.N
			if len(d) < want {
				want = len(d)
			}
			if n != want {
				return fail("a range stopped by its callback made %d callbacks, want %d", n, want)
			}
		case "within":
			w := newWithin(anyKeys(d))
			m.Range(func(k, v interface{}) bool {
				n := w.visit(k, v)
				if w.err == nil && n <= len(o.In) {
					w.err = apply(i, o.In[n-1])
					w.update(anyKeys(d))
					within++
				}
				return w.err == nil && n != o.N
			})
			if err := w.finish(o.N); err != nil {
				return fail("%v", err)
			}
		}
		if len(d) > maxLen {
			maxLen = len(d)
		}
		return nil
	}
	for i, o := range c.Ops {
		if err := apply(i, o); err != nil {
			return err
		}
	}
	for _, s := range c.Keys {
		k := string(s)
		v, ok := m.Load(k)
		w, has := d[k]
		if ok != has || !same(v, w) || m.Has(k) != has {
			return fmt.Errorf("finally Load(%q) = %v, %v (has %v); the dictionary has %v, %v", k, v, ok, m.Has(k), w, has)
		}
	}
	if err := sharedRange(m, d); err != nil {
		return fmt.Errorf("finally %v", err)
	}
	if c.By > 0 {
		for _, s := range c.Keys {
			v, ok := other.Load(string(s))
			w, has := od[string(s)]
			if ok != has || !same(v, w) {
				return fmt.Errorf("finally in another map Load(%q) = %v, %v; it holds %v, %v", s, v, ok, w, has)
			}
		}
		if err := sharedRange(other, od); err != nil {
			return fmt.Errorf("finally in another map %v", err)
		}
	}
	r.LabelIf(c.By > 0, "another map")
	r.NonTrivial(len(used) >= 2 && hits >= 1 && removed >= 1 || c.Shards == 1 && hits >= 1 && removed >= 1)
	r.LabelIf(len(used) >= 2, "several shards used")
	r.LabelIf(c.Shards&(c.Shards-1) != 0, "shard count not a power of two")
	r.LabelIf(maxLen > 30, "more than 30 keys")
	r.LabelIf(within > 0, "range callbacks use the map")
	return nil
}

func anyKeys(d map[string]interface{}) map[interface{}]interface{} {
	a := make(map[interface{}]interface{}, len(d))
	for k, v := range d {
		a[k] = v
	}
	return a
}

func TestC03_P_Dictionary(t *testing.T) {
	core.Check(t, core.Prop[SharedCase]{
		Rule:  "operation sequences on a SharedMap of 1..3000 shards (or the default) with short, long, multi-byte and malformed keys and ranges whose callbacks use the map themselves, mirrored on a Go map; non-trivial: at least two shards used (or one shard asked for), present keys addressed and something removed",
		Quick: 40000, Thorough: 1500000,
		Gen: func(t *rapid.T) SharedCase { return genShared(t, false) },
		Run: func(t *testing.T, c SharedCase, r *core.Rec) error { return runShared(c, r) },
	})
}

func TestC04_P_SharedCallbacks(t *testing.T) {
	core.Check(t, core.Prop[SharedCase]{
		Rule:  "operation sequences on a SharedMap rich in compute calls whose callback may panic, mirrored on a Go map with callback counts and arguments compared",
		Quick: 30000, Thorough: 1200000,
		Gen: func(t *rapid.T) SharedCase { return genShared(t, true) },
		Run: func(t *testing.T, c SharedCase, r *core.Rec) error { return runShared(c, r) },
	})
}

// SizeCase is a shard count.
type SizeCase struct{ N int }

func TestC03_P_Rejected(t *testing.T) {
	core.Check(t, core.Prop[SizeCase]{
		Rule:  "shard counts from the most negative to a few thousand: construction panics exactly for those below one, otherwise keys work; non-trivial: counts of at most one, or not a power of two",
		Quick: 4000, Thorough: 40000,
		Gen: func(t *rapid.T) SizeCase {
			switch rapid.IntRange(0, 3).Draw(t, "k") {
			case 0:
				return SizeCase{rapid.IntRange(-3, 5).Draw(t, "n")}
			case 1:
				return SizeCase{-int(rapid.Uint64Range(0, 1<<62).Draw(t, "n")) * 2}
			case 2:
				return SizeCase{-(1 << rapid.IntRange(0, 62).Draw(t, "p")) + rapid.IntRange(-1, 1).Draw(t, "d")}
			}
			return SizeCase{core.Int(t, "xsync", 1, 5000, "n")}
		},
		Run: func(t *testing.T, c SizeCase, r *core.Rec) error {
			var m *xsync.SharedMap
			_, did := core.Panics(func() { m = xsync.NewSharedMap(xsync.WithShardBlockSize(c.N)) })
			if did != (c.N < 1) {
				return fmt.Errorf("NewSharedMap with %d shards panicked: %v", c.N, did)
			}
			r.NonTrivial(c.N <= 1 || c.N&(c.N-1) != 0)
			if did {
				return nil
			}
			var got []string
			for i := 0; i < 40; i++ {
				m.Store(fmt.Sprint("key", i), i)
			}
			m.Range(func(k, v interface{}) bool { got = append(got, k.(string)); return true })
			sort.Strings(got)
			for i := 1; i < len(got); i++ {
				if got[i] == got[i-1] {
					return fmt.Errorf("with %d shards a range shows %q twice", c.N, got[i])
				}
			}
			if len(got) != 40 {
				return fmt.Errorf("with %d shards 40 stored keys appear as %d", c.N, len(got))
			}
			return nil
		},
	})
}
