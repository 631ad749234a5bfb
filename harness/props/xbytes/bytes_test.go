package xbytes

import (
	"fmt"
	"math/bits"
	"runtime"
	"sync"
	"testing"
	"unsafe"

	"github.com/chenquan/go-pkg/xbytes"
	"pgregory.net/rapid"
	"verif/core"
	"verif/sched"
)

// Op is one step of a history of allocations.
type Op struct {
	Op   string // malloc, size, free, foreign, gc, append, zero
	Size int    `json:",omitempty"`
	Cap  int    `json:",omitempty"`
	At   int    `json:",omitempty"` // which buffer in use
	Cut  string `json:",omitempty"` // free: whole, empty, head, tail, clip, mid
	A, B int    `json:",omitempty"` // where to cut
	Keep bool   `json:",omitempty"` // keep using what was cut off
}

// held is memory in use: all of it up to the capacity, filled with a tag.
type held struct {
	b   []byte // full capacity
	tag byte
}

func (h *held) fill(tag byte) {
	h.tag = tag
	for i := range h.b {
		h.b[i] = tag + byte(i%3)
	}
}

func (h *held) intact() (int, bool) {
	for i := range h.b {
		if h.b[i] != h.tag+byte(i%3) {
			return i, false
		}
	}
	return 0, true
}

func span(b []byte) (lo, hi uintptr) {
	if cap(b) == 0 {
		return 0, 0
	}
	lo = uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	return lo, lo + uintptr(cap(b))
}

// shop is what one caller holds.
type shop struct {
	live []*held
	next byte
	name string
	hits int
	old  map[uintptr]bool
}

func (s *shop) check(i int, what string) error {
	for k, h := range s.live {
		if at, ok := h.intact(); !ok {
			return fmt.Errorf("%sop %d (%s): byte %d of buffer %d (capacity %d), which is in use, has changed", s.name, i, what, at, k, len(h.b))
		}
	}
	return nil
}

func (s *shop) add(i int, b []byte) error {
	lo, hi := span(b)
	if lo != hi {
		for k, h := range s.live {
			l, u := span(h.b)
			if l != u && lo < u && l < hi {
				return fmt.Errorf("%sop %d: the new buffer (capacity %d) overlaps buffer %d (capacity %d), which is in use", s.name, i, cap(b), k, len(h.b))
			}
		}
	}
	if s.old[lo] {
		s.hits++
	}
	s.next += 7
	h := &held{b: b[:cap(b)]}
	h.fill(s.next)
	s.live = append(s.live, h)
	return nil
}

func (s *shop) step(i int, o Op) error {
	switch o.Op {
	case "malloc", "size":
		want := o.Size
		var b []byte
		if o.Op == "size" {
			b = xbytes.MallocSize(o.Size)
		} else {
			b = xbytes.Malloc(o.Size, o.Cap)
			if o.Cap > want {
				want = o.Cap
			}
		}
		if len(b) != o.Size {
			return fmt.Errorf("%sop %d: %v has length %d", s.name, i, o, len(b))
		}
		if cap(b) < want {
			return fmt.Errorf("%sop %d: %v has capacity %d", s.name, i, o, cap(b))
		}
		return s.add(i, b)
	case "foreign":
		b := make([]byte, o.Size, max(o.Size, o.Cap))
		switch o.Cut {
		case "empty":
			b = b[:0]
		case "nil":
			b = nil
		}
		for k := range b {
			b[k] = 0xEE
		}
		xbytes.Free(b)
	case "gc":
		runtime.GC()
	case "refill":
		if len(s.live) > 0 {
			s.next += 7
			s.live[o.At%len(s.live)].fill(s.next)
		}
	case "free":
		if len(s.live) == 0 {
			return nil
		}
		k := o.At % len(s.live)
		h := s.live[k]
		s.live = append(s.live[:k:k], s.live[k+1:]...)
		b := h.b
		lo, _ := span(b)
		s.old[lo] = true
		n := len(b)
		x, y := 0, n
		if n > 0 {
			x, y = o.A%(n+1), o.B%(n+1)
			if x > y {
				x, y = y, x
			}
		}
		keep := func(p, q int) {
			if o.Keep && p < q {
				part := &held{b: b[p:q:q]}
				part.fill(h.tag)
				s.live = append(s.live, part)
			}
		}
		for j := range b {
			b[j] = 0xDD // whoever frees may leave anything behind
		}
		switch o.Cut {
		case "empty":
			xbytes.Free(b[:0])
		case "head": // shorter length, same memory
			xbytes.Free(b[:x])
		case "tail":
			keep(0, x)
			xbytes.Free(b[x:])
		case "clip":
			keep(x, n)
			xbytes.Free(b[:x:x])
		case "mid":
			keep(0, x)
			keep(y, n)
			xbytes.Free(b[x:y:y])
		default:
			xbytes.Free(b)
		}
	}
	return nil
}

func newShop(name string) *shop { return &shop{old: map[uintptr]bool{}, name: name} }

// ------------------------------------------------------------- one caller

type SeqCase struct{ Ops []Op }

func runSeq(t *testing.T, c SeqCase, r *core.Rec) error {
	s := newShop("")
	most := 0
	for i, o := range c.Ops {
		if err := s.step(i, o); err != nil {
			return err
		}
		if err := s.check(i, o.Op); err != nil {
			return err
		}
		if len(s.live) > most {
			most = len(s.live)
		}
	}
	r.LabelIf(s.hits > 0, "memory reused")
	r.LabelIf(most >= 3, "three or more in use")
	r.NonTrivial(s.hits > 0 && most >= 2)
	return nil
}

func genOps(t *rapid.T, n int, sizes []int, gc bool) []Op {
	var ops []Op
	kinds := []string{"malloc", "malloc", "size", "size", "free", "free", "free", "refill", "foreign"}
	if gc && core.Uni(t, 0, 30, "gc") == 30 {
		kinds = append(kinds, "gc")
	}
	pick := func(l string) int { return rapid.SampledFrom(sizes).Draw(t, l) }
	for i := 0; i < n; i++ {
		o := Op{Op: rapid.SampledFrom(kinds).Draw(t, "op")}
		switch o.Op {
		case "malloc":
			o.Size, o.Cap = pick("size"), pick("cap")
			if core.Uni(t, 0, 9, "odd") == 9 {
				o.Cap = -rapid.IntRange(1, 5).Draw(t, "neg")
			}
		case "size":
			o.Size = pick("size")
		case "foreign":
			o.Size, o.Cap = pick("size"), pick("cap")
			o.Cut = rapid.SampledFrom([]string{"", "", "empty", "nil"}).Draw(t, "origin")
		case "free", "refill":
			o.At = rapid.IntRange(0, 5).Draw(t, "at")
		}
		if o.Op == "free" {
			o.Cut = rapid.SampledFrom([]string{"", "", "", "empty", "head", "tail", "clip", "mid"}).Draw(t, "cut")
			o.A, o.B = pick("a"), pick("b")
			o.Keep = rapid.Bool().Draw(t, "keep")
		}
		ops = append(ops, o)
	}
	return ops
}

func genSizes(t *rapid.T, n, hi int) []int {
	s := []int{0}
	pow := bits.Len(uint(hi))
	for len(s) < n {
		var v int
		switch kind := core.Uni(t, 0, 4, "kind"); {
		case hi > 5000 && (len(s) == 1 || kind == 1): // one of the rare cases of large sizes
			v = core.LongSize(t, "xbytes", hi, "large")
		case kind == 0:
			v = 1<<core.Uni(t, 0, pow, "pow") + rapid.IntRange(-1, 1).Draw(t, "off")
		case kind == 1:
			v = rapid.IntRange(0, 9).Draw(t, "small")
		case kind == 2:
			v = core.Int(t, "xbytes", 0, hi, "size")
		default:
			v = s[len(s)-1] + rapid.IntRange(0, 2).Draw(t, "next")
		}
		s = append(s, min(v, hi))
	}
	return s
}

const rule = "allocations, frees (whole, empty, re-sliced at the head, tail or middle with the rest still in use, foreign and nil buffers), refills and collections over a few sizes (0 to 5000, rarely up to 4 MiB, neighbours and powers of two); after each step every buffer in use must be intact up to its capacity and overlap no other; non-trivial: memory was reused with two or more buffers in use"

func TestC20_P_History(t *testing.T) {
	core.Check(t, core.Prop[SeqCase]{
		Rule:  "one caller: " + rule,
		Quick: 120000, Thorough: 4000000,
		Gen: func(t *rapid.T) SeqCase {
			return SeqCase{genOps(t, core.Uni(t, 2, 24, "n"), genSizes(t, core.Uni(t, 2, 5, "sizes"), core.Long(t, 5000, 1<<22)), true)}
		},
		Run: runSeq,
	})
}

// --------------------------------------------------------- several callers

type ConcCase struct {
	Plan    sched.Plan
	Threads [][]Op
	Pass    bool `json:",omitempty"` // buffers are handed to the next caller, who frees them
}

// registry sees the buffers of all callers.
type registry struct {
	mu   sync.Mutex
	live map[*held]string
}

func (g *registry) claim(h *held, who string) error {
	g.mu.Lock()
	defer g.mu.Unlock()
	lo, hi := span(h.b)
	if lo != hi {
		for o, w := range g.live {
			l, u := span(o.b)
			if l != u && lo < u && l < hi {
				return fmt.Errorf("%s was given memory (capacity %d) that %s is using (capacity %d)", who, len(h.b), w, len(o.b))
			}
		}
	}
	g.live[h] = who
	return nil
}

func (g *registry) drop(h *held) {
	g.mu.Lock()
	defer g.mu.Unlock()
	delete(g.live, h)
}

func runConc(t *testing.T, c ConcCase, r *core.Rec) error {
	g := &registry{live: map[*held]string{}}
	n := len(c.Threads)
	errs := make([]error, n)
	hits, total := 0, 0
	var seenMu sync.Mutex
	seen := map[uintptr]int{}
	decided, err := core.Concurrent(t, c.Plan, r, func(ctl *sched.Ctl) {
		done := make(chan struct{}, n)
		boxes := make([]chan *held, n)
		for i := range boxes {
			boxes[i] = make(chan *held, 200)
		}
		for ti := range c.Threads {
			ti := ti
			name := fmt.Sprint("caller ", ti)
			ctl.Go(name, func() {
				defer func() { done <- struct{}{} }()
				var live []*held
				tag := byte(ti * 50)
				intact := func(h *held) bool {
					if at, ok := h.intact(); !ok {
						errs[ti] = fmt.Errorf("%s: byte %d of its buffer of capacity %d has changed", name, at, len(h.b))
						return false
					}
					return true
				}
				for _, o := range c.Threads[ti] {
					ctl.Point()
					select {
					case h := <-boxes[ti]:
						live = append(live, h)
					default:
					}
					for _, h := range live {
						if !intact(h) {
							return
						}
					}
					switch o.Op {
					case "malloc", "size":
						b := xbytes.Malloc(o.Size, o.Cap)
						if len(b) != o.Size || cap(b) < max(o.Size, o.Cap) {
							errs[ti] = fmt.Errorf("%s: Malloc(%d,%d) has length %d and capacity %d", name, o.Size, o.Cap, len(b), cap(b))
							return
						}
						h := &held{b: b[:cap(b)]}
						if err := g.claim(h, name); err != nil {
							errs[ti] = err
							return
						}
						tag += 7
						h.fill(tag)
						lo, _ := span(b)
						seenMu.Lock()
						total++
						if k, ok := seen[lo]; ok && k != ti && cap(b) > 0 {
							hits++
						}
						seen[lo] = ti
						seenMu.Unlock()
						live = append(live, h)
					case "free":
						if len(live) == 0 {
							continue
						}
						k := o.At % len(live)
						h := live[k]
						live = append(live[:k:k], live[k+1:]...)
						if c.Pass && o.Keep {
							boxes[(ti+1)%n] <- h
							continue
						}
						g.drop(h)
						switch o.Cut {
						case "empty", "head":
							xbytes.Free(h.b[:0])
						case "tail":
							xbytes.Free(h.b[len(h.b)/2:])
						default:
							xbytes.Free(h.b)
						}
					case "foreign":
						xbytes.Free(make([]byte, o.Size, max(o.Size, o.Cap)))
					case "refill":
						if len(live) > 0 {
							tag += 7
							live[o.At%len(live)].fill(tag)
						}
					}
				}
				for _, h := range live {
					if !intact(h) {
						return
					}
				}
			})
		}
		for range c.Threads {
			<-done
		}
	})
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	if err != nil || !decided {
		return err
	}
	r.LabelIf(hits > 0, "memory moved between callers")
	r.NonTrivial(total >= 2 && hits > 0)
	return nil
}

func genConc(free bool) func(t *rapid.T) ConcCase {
	return func(t *rapid.T) ConcCase {
		c := ConcCase{Plan: core.Free, Pass: rapid.Bool().Draw(t, "pass")}
		hi := 24
		if !free {
			c.Plan = core.Plan(t)
			hi = 8
		}
		// Sizes that no earlier case used exercise the creation of a pool.
		base := 0
		if rapid.Bool().Draw(t, "fresh") {
			base = core.Uni(t, 0, 4000, "base")
		}
		sizes := []int{base, base + core.Uni(t, 0, 2, "next"), base + core.Uni(t, 0, 9, "far")}
		for i, n := 0, core.Uni(t, 2, 4, "threads"); i < n; i++ {
			c.Threads = append(c.Threads, genOps(t, core.Uni(t, 2, hi, "ops"), sizes, false))
		}
		return c
	}
}

const concRule = "2-4 callers allocate, fill, check, free and pass on buffers of three sizes; no two buffers in use overlap and each stays as its holder filled it; non-trivial: memory freed by one caller was given to another"

func TestC20_S_Callers(t *testing.T) {
	core.Check(t, core.Prop[ConcCase]{
		Rule:  "controlled interleavings: " + concRule,
		Quick: 40000, Thorough: 1000000, Gen: genConc(false), Run: runConc,
	})
}

func TestC20_R_Callers(t *testing.T) {
	core.Check(t, core.Prop[ConcCase]{
		Rule:  "real parallelism under the race detector: " + concRule,
		Quick: 12000, Thorough: 250000, Gen: genConc(true), Run: runConc,
	})
}
