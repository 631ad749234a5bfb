package xsync

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/chenquan/go-pkg/xsync"
	"pgregory.net/rapid"
	"verif/core"
)

// RmOp is one call of a sequential history of a resource manager.
type RmOp struct {
	Op   string // get, fail, both, panic, remove, fill
	K    core.S
	N    int    `json:",omitempty"` // fill: this many keys; panic: kind of panic value
	Kind string `json:",omitempty"` // of resource
	Bad  bool   `json:",omitempty"` // closing it fails
}

// RmCase is a sequential history, ended by closing the manager.
type RmCase struct {
	Ops []RmOp
}

type closer interface {
	io.Closer
	rec() *record
}

type record struct {
	id, closed int
	err        error
}

func (r *record) close() error { r.closed++; return r.err }

type ptrRes struct{ r *record }

func (p *ptrRes) Close() error { return p.r.close() }
func (p *ptrRes) rec() *record { return p.r }

type valRes struct{ r *record }

func (p valRes) Close() error { return p.r.close() }
func (p valRes) rec() *record { return p.r }

// rawRes has a dynamic type that cannot be compared.
type rawRes struct {
	r   *record
	raw []int
}

func (p rawRes) Close() error { return p.r.close() }
func (p rawRes) rec() *record { return p.r }

// funcRes too.
type funcRes func() *record

func (p funcRes) Close() error { return p().close() }
func (p funcRes) rec() *record { return p() }

func newRes(kind string, r *record) closer {
	switch kind {
	case "value":
		return valRes{r}
	case "raw":
		return rawRes{r: r}
	case "func":
		return funcRes(func() *record { return r })
	}
	return &ptrRes{r}
}

func runManager(_ *testing.T, c RmCase, r *core.Rec) error {
	m := xsync.NewResourceManager()
	model := map[string]*record{}
	var all []*record
	created, removed, failed, again := 0, 0, 0, 0
	get := func(o RmOp, key string) error {
		x := &record{id: len(all)}
		all = append(all, x)
		if o.Bad {
			x.err = fmt.Errorf("<close %d failed>", x.id)
		}
		fail := fmt.Errorf("<creation %d failed>", x.id)
		calls := 0
		var v io.Closer
		var err error
		rec, did := core.Panics(func() {
			v, err = m.Get(key, func() (io.Closer, error) {
				calls++
				switch o.Op {
				case "fail":
					return nil, fail
				case "both":
					return newRes(o.Kind, x), fail
				case "panic":
					panic(boomFor(o.N))
				}
				return newRes(o.Kind, x), nil
			})
		})
		had := model[key]
		if had != nil {
			again++
			if y, ok := v.(closer); did || err != nil || calls != 0 || !ok || y.rec() != had {
				return fmt.Errorf("get(%q) of resource %d ran %d creations and returned %v, %v (panicked: %v)", key, had.id, calls, v, err, did)
			}
			return nil
		}
		if calls != 1 {
			return fmt.Errorf("get(%q) of an absent key ran %d creations", key, calls)
		}
		switch o.Op {
		case "panic":
			failed++
			if !did {
				return fmt.Errorf("get(%q) with a panicking creation returned %v, %v", key, v, err)
			}
			_ = rec
		case "fail", "both":
			failed++
			if did || err == nil || !errors.Is(err, fail) && !strings.Contains(err.Error(), fail.Error()) {
				return fmt.Errorf("get(%q) with creation error %v returned %v, %v (panicked: %v)", key, fail, v, err, did)
			}
		default:
			if y, ok := v.(closer); did || err != nil || !ok || y.rec() != x {
				return fmt.Errorf("get(%q) that created resource %d returned %v, %v (panicked: %v)", key, x.id, v, err, did)
			}
			created++
			model[key] = x
		}
		return nil
	}
	most := 0
	for i, o := range c.Ops {
		var err error
		switch o.Op {
		case "remove":
			_, had := model[string(o.K)]
			if ok := m.Remove(string(o.K)); ok != had {
				err = fmt.Errorf("remove(%q) = %v, want %v", o.K, ok, had)
			}
			if had {
				removed++
				delete(model, string(o.K))
			}
		case "fill":
			for k := 0; k < o.N && err == nil; k++ {
				f := o
				f.Op, f.Bad = "get", o.Bad && k%100 == 0
				err = get(f, fmt.Sprint(o.K, k))
			}
		default:
			err = get(o, string(o.K))
		}
		if err != nil {
			return fmt.Errorf("call %d: %w", i, err)
		}
		most = max(most, len(model))
	}
	// everything registered is still there
	for k := range model {
		if err := get(RmOp{Op: "fail"}, k); err != nil {
			return fmt.Errorf("at the end: %w", err)
		}
	}
	for _, x := range all {
		if x.closed != 0 {
			return fmt.Errorf("resource %d was closed before the manager was", x.id)
		}
	}
	err := m.Close()
	open := map[*record]bool{}
	fails := 0
	for k, x := range model {
		open[x] = true
		if x.err == nil {
			continue
		}
		fails++
		if err == nil || !strings.Contains(err.Error(), x.err.Error()) {
			return fmt.Errorf("Close = %v lacks the failure of key %q, %v", err, k, x.err)
		}
	}
	if fails == 0 && err != nil {
		return fmt.Errorf("Close = %v although nothing failed", err)
	}
	for _, x := range all {
		if want := map[bool]int{true: 1}[open[x]]; x.closed != want {
			return fmt.Errorf("closing the manager closed resource %d %d times, want %d", x.id, x.closed, want)
		}
	}
	// Closing again must close nothing a second time; what else it does is open.
	func() {
		defer func() { _ = recover() }()
		_ = m.Close()
	}()
	for _, x := range all {
		if open[x] && x.closed != 1 || !open[x] && x.closed != 0 {
			return fmt.Errorf("closing the manager twice closed resource %d %d times", x.id, x.closed)
		}
	}
	r.NonTrivial(created >= 2 && again > len(model))
	r.LabelIf(removed > 0, "removes a registered key")
	r.LabelIf(failed > 0, "failing or panicking creations")
	r.LabelIf(fails > 1, "several close failures")
	r.LabelIf(most > 100, "more than 100 resources")
	return nil
}

func TestC05_P_Sequence(t *testing.T) {
	core.Check(t, core.Prop[RmCase]{
		Rule:  "a sequential history of gets (successful, failing, failing with a resource, panicking), removes and bulk gets with keys of every kind (empty, equal up to case or white space, malformed, long) and resources of comparable and uncomparable types, then the close, against a dictionary; non-trivial: something is created and fetched again",
		Quick: 40000, Thorough: 1500000,
		Gen: func(t *rapid.T) RmCase {
			var c RmCase
			al := core.Alphabet(t, "xsync")
			pool := []core.S{}
			for i, n := 0, rapid.IntRange(1, 5).Draw(t, "pool"); i < n; i++ {
				s := rapid.SampledFrom([]string{"", " ", "a", "A", "a ", "0", "00", "0.0", "k", "\x00", "nil", "é", "e\u0301", "a/b", "a", "\xff", "\xfe"}).Draw(t, "key")
				switch rapid.IntRange(0, 5).Draw(t, "kind") {
				case 0:
					s = core.Text(t, "xsync", al, core.Long(t, 12, 70000), "key")
				case 1:
					s = core.Malformed(t, "xsync", al, 6, "key")
				}
				pool = append(pool, core.S(s))
			}
			for i, n := 0, rapid.IntRange(1, 20).Draw(t, "len"); i < n; i++ {
				o := RmOp{
					Op:   rapid.SampledFrom([]string{"get", "get", "get", "get", "remove", "remove", "fail", "both", "panic"}).Draw(t, "op"),
					K:    rapid.SampledFrom(pool).Draw(t, "k"),
					Kind: rapid.SampledFrom([]string{"pointer", "value", "raw", "func"}).Draw(t, "res"),
					Bad:  rapid.IntRange(0, 3).Draw(t, "bad") == 3,
				}
				if o.Op == "panic" {
					o.N = rapid.IntRange(0, 9).Draw(t, "boom")
				}
				if max := core.Long(t, 0, 8000); max > 0 {
					o.Op, o.N = "fill", core.LongSize(t, "xsync", max, "many")
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Run: runManager,
	})
}
