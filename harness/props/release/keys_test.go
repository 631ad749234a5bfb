package release

import (
	"fmt"
	"io"
	"unsafe"

	"github.com/chenquan/go-pkg/xsync"
)

// keyed are containers whose keys are tracked: pointers in the map, text in
// the shared map and the manager. A removed key may stay for a while, but not
// when more keys have come and gone.
type keyed struct {
	m    *xsync.Map
	s    *xsync.SharedMap
	r    *xsync.ResourceManager
	inM  map[int]*tracked
	inS  map[int]*tracked
	inR  map[int]*tracked
	used bool
}

var keyOps = []string{
	"pstore", "pstore", "plos", "pcia", "plad", "pdelete", "pread", "pclear",
	"kstore", "klos", "kdelete", "kread", "kclear",
	"rget", "rget", "rfail", "rremove",
}

func (k *keyed) init() {
	k.m, k.s, k.r = &xsync.Map{}, xsync.NewSharedMap(xsync.WithShardBlockSize(2)), xsync.NewResourceManager()
	k.inM, k.inS, k.inR = map[int]*tracked{}, map[int]*tracked{}, map[int]*tracked{}
}

// text is text in the memory of v.
func text(v *load) string {
	copy(v.pad[:], fmt.Sprint("key number ", v.id))
	return unsafe.String(&v.pad[0], len(v.pad))
}

// keyOf returns the key number k of the container that holds in, a new one if it holds none.
func (w *world) keyOf(in map[int]*tracked, k int) *load {
	if t := in[k]; t != nil {
		if v := t.p.Value(); v != nil {
			return v
		}
	}
	v, t := w.make("key")
	in[k] = t
	return v
}

func (w *world) dropKey(in map[int]*tracked, k int) {
	w.drop(in[k])
	delete(in, k)
}

//go:noinline
func (w *world) doKey(st Step) bool {
	k, c := st.K, &w.keys
	one := func(interface{}) interface{} { return 1 }
	switch st.Op {
	case "pstore":
		c.m.Store(w.keyOf(c.inM, k), 1)
	case "plos":
		c.m.LoadOrStore(w.keyOf(c.inM, k), 1)
	case "pcia":
		c.m.ComputeIfAbsent(w.keyOf(c.inM, k), one)
	case "plad":
		c.m.LoadAndDelete(w.keyOf(c.inM, k))
		w.dropKey(c.inM, k)
	case "pdelete":
		c.m.Delete(w.keyOf(c.inM, k))
		w.dropKey(c.inM, k)
	case "pread":
		if st.N%2 == 0 {
			c.m.Range(func(_, _ interface{}) bool { return true })
		}
		for i := 0; i < st.N; i++ {
			c.m.Load(i)
		}
	case "pclear":
		c.m.Clear()
		for i := range c.inM {
			w.dropKey(c.inM, i)
		}
	case "kstore":
		c.s.Store(text(w.keyOf(c.inS, k)), 1)
	case "klos":
		c.s.LoadOrStore(text(w.keyOf(c.inS, k)), 1)
	case "kdelete":
		c.s.Delete(text(w.keyOf(c.inS, k)))
		w.dropKey(c.inS, k)
	case "kread":
		c.s.Has(text(w.keyOf(c.inS, k)))
		c.s.Range(func(_, _ interface{}) bool { return true })
		c.s.Store(text(w.keyOf(c.inS, k)), 1)
	case "kclear":
		c.s.Clear()
		for i := range c.inS {
			w.dropKey(c.inS, i)
		}
	case "rget":
		_, _ = c.r.Get(text(w.keyOf(c.inR, k)), func() (io.Closer, error) { return closer{}, nil })
	case "rfail":
		v, t := w.make("key")
		_, _ = c.r.Get(text(v), func() (io.Closer, error) { return nil, io.EOF })
		w.drop(t)
	case "rremove":
		c.r.Remove(text(w.keyOf(c.inR, k)))
		w.dropKey(c.inR, k)
	default:
		return false
	}
	c.used = true
	return true
}

// settle lets further keys come and go.
//
//go:noinline
func (w *world) settle() {
	c := &w.keys
	if !c.used {
		return
	}
	// in half the cases no range helps along
	all := func(_, _ interface{}) bool { return true }
	ranges := len(w.all)%2 == 0
	for i := 0; i < 64; i++ {
		c.m.Store(i, 1)
		if ranges {
			c.m.Range(all)
		}
		c.m.Load(i)
		c.m.Delete(i)
		s := fmt.Sprint(i)
		c.s.Store(s, 1)
		if ranges {
			c.s.Range(all)
		}
		c.s.Load(s)
		c.s.Delete(s)
		_, _ = c.r.Get(s, func() (io.Closer, error) { return closer{}, nil })
		c.r.Remove(s)
	}
}
