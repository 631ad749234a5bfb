package xerror

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"testing"

	"github.com/chenquan/go-pkg/xerror"
	"pgregory.net/rapid"
	"verif/core"
)

// Case is a sequence of operations on one batch.
type Case struct{ Ops []Op }

// Op adds an error, takes the batch's error, or looks at it.
type Op struct {
	Op  string // add, nil, typednil, wrapped, batch, self, take, notnil
	Msg core.S `json:",omitempty"`
	N   int    `json:",omitempty"` // for batch: how many errors it holds
}

type ptrErr struct{ s string }

func (p *ptrErr) Error() string {
	if p == nil {
		return "nil pointer error"
	}
	return p.s
}

type taken struct {
	err  error
	want []error
	msgs []string
	at   int
}

func (x taken) check() error {
	switch len(x.want) {
	case 0:
		if x.err != nil {
			return fmt.Errorf("the error taken after no additions is %v", x.err)
		}
	case 1:
		if !same(x.err, x.want[0]) {
			return fmt.Errorf("the error taken after one addition is %v, not the added %v", x.err, x.want[0])
		}
	default:
		if x.err == nil {
			return fmt.Errorf("the error taken after %d additions is nil", len(x.want))
		}
	}
	if len(x.want) > 0 {
		if got, want := x.err.Error(), strings.Join(x.msgs, "\n"); got != want {
			return fmt.Errorf("the error taken at operation %d says %q, want %q", x.at, got, want)
		}
	}
	return nil
}

func same(a, b error) (eq bool) {
	defer func() {
		if recover() != nil { // an error of uncomparable type
			eq = fmt.Sprintf("%T%v", a, a) == fmt.Sprintf("%T%v", b, b)
		}
	}()
	return a == b
}

func run(c Case, r *core.Rec) error {
	var b, other xerror.BatchError
	if len(c.Ops)%2 == 1 {
		other.Add(errors.New("other 1"))
		other.Add(errors.New("other 2"))
	}
	kept := other.Err()
	var added []error
	var msgs []string
	var all []taken
	kinds := map[string]bool{}
	add := func(e error) {
		b.Add(e)
		added = append(added, e)
		msgs = append(msgs, e.Error())
	}
	for i, o := range c.Ops {
		kinds[o.Op] = true
		switch o.Op {
		case "add":
			add(errors.New(string(o.Msg)))
		case "many":
			for k := 0; k < o.N; k++ {
				add(&ptrErr{string(o.Msg) + strconv.Itoa(k)})
			}
		case "nil":
			b.Add(nil)
		case "typednil":
			add((*ptrErr)(nil))
		case "wrapped":
			add(fmt.Errorf("w: %w", &ptrErr{string(o.Msg)}))
		case "batch":
			var in xerror.BatchError
			for k := 0; k < o.N; k++ {
				in.Add(&ptrErr{fmt.Sprint(o.Msg, k)})
			}
			if e := in.Err(); e != nil {
				add(e)
			} else {
				b.Add(e)
			}
		case "self":
			if e := b.Err(); e != nil && len(added) < 10 {
				add(e)
			}
		case "again":
			if len(added) > 0 {
				add(added[o.N%len(added)])
			}
		case "take":
			all = append(all, taken{b.Err(), append([]error(nil), added...), append([]string(nil), msgs...), i})
		case "notnil":
		}
		if b.NotNil() != (len(added) > 0) {
			return fmt.Errorf("after operation %d NotNil = %v with %d errors added", i, b.NotNil(), len(added))
		}
	}
	all = append(all, taken{b.Err(), added, msgs, len(c.Ops)})
	for _, x := range all {
		if err := x.check(); err != nil {
			return err
		}
	}
	if kept != nil && (kept.Error() != "other 1\nother 2" || other.Err().Error() != "other 1\nother 2") || kept == nil && (other.NotNil() || other.Err() != nil) {
		return fmt.Errorf("another batch gives %v, before %v", other.Err(), kept)
	}
	r.NonTrivial(len(added) >= 2 && len(all) >= 2)
	r.LabelIf(kinds["nil"], "nil added")
	r.LabelIf(len(added) == 1, "exactly one error")
	r.LabelIf(len(added) > 8, "more than eight errors")
	return nil
}

func TestC11_P_Batch(t *testing.T) {
	core.Check(t, core.Prop[Case]{
		Rule:  "sequences of up to 40 (rarely thousands of) additions (plain, wrapped, typed-nil, repeated, nested and nil errors) and takes on one batch; every error taken is compared with the list at that time, again after the last addition; non-trivial: two or more errors and a take before the end",
		Quick: 60000, Thorough: 1500000,
		Gen: func(t *rapid.T) Case {
			al := core.Alphabet(t, "xerror")
			ops := []string{"add", "add", "add", "nil", "typednil", "wrapped", "batch", "self", "again", "take", "take", "notnil"}
			var c Case
			max := 10
			if rapid.IntRange(0, 3).Draw(t, "long") == 3 {
				max = 40
			}
			n := rapid.IntRange(0, max).Draw(t, "n")
			if big := core.Long(t, 0, 3000); big > 0 {
				n = core.LongSize(t, "xerror", big, "n")
			}
			if many := core.LongEvery(t, 4000, 0, 200000); many > 0 {
				n = rapid.IntRange(1, 4).Draw(t, "few")
				c.Ops = append(c.Ops, Op{Op: "many", Msg: "m", N: core.LongSize(t, "xerror", many, "many")})
			}
			for i := 0; i < n; i++ {
				if n > 100 {
					o := Op{Op: "add", Msg: core.S(fmt.Sprint("e", i))}
					if i%200 == 0 {
						o = Op{Op: rapid.SampledFrom(ops).Draw(t, "op")}
					}
					c.Ops = append(c.Ops, o)
					continue
				}
				o := Op{Op: rapid.SampledFrom(ops).Draw(t, "op")}
				switch o.Op {
				case "add", "wrapped":
					o.Msg = core.S(core.Text(t, "xerror", al, 5, "msg"))
				case "batch", "again":
					o.N = rapid.IntRange(0, 4).Draw(t, "k")
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Run: func(t *testing.T, c Case, r *core.Rec) error { return run(c, r) },
	})
}
