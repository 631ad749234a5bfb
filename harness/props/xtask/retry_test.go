package xtask

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"strings"
	"testing"

	"github.com/chenquan/go-pkg/xtask"
	"pgregory.net/rapid"
	"verif/core"
)

// RetryCase scripts the results of consecutive calls.
type RetryCase struct {
	Times   int      // -1: the default
	Twice   bool     `json:",omitempty"` // the option given twice; the last one counts
	Fail    []core.S // messages of the failures before the first success
	Succeed bool     // afterwards the function succeeds, otherwise it keeps failing
	Same    bool     `json:",omitempty"` // one and the same error value every time
	Odd     bool     `json:",omitempty"` // errors of unusual types: a typed nil, an uncomparable one, a context's
	Panic   int      `json:",omitempty"` // the number of the call that panics
	Nest    int      `json:",omitempty"` // the number of the call that retries something else
}

type stringErr string

func (e stringErr) Error() string { return string(e) }

type sliceErr []string

func (e sliceErr) Error() string { return strings.Join(e, "\n") }

var odd = []error{(*customErrNil)(nil), sliceErr{"several", "lines"}, context.Canceled, sliceErr(nil), io.EOF}

type customErrNil struct{}

func (*customErrNil) Error() string { return "typed nil" }

func identical(a, b error) bool {
	if x, ok := b.(sliceErr); ok {
		y, ok := a.(sliceErr)
		return ok && len(x) == len(y) && (len(x) == 0 || &x[0] == &y[0])
	}
	return a == b
}

func TestC10_P_Retry(t *testing.T) {
	core.Check(t, core.Prop[RetryCase]{
		Rule:  "scripted functions failing a drawn number of times with drawn messages (or errors of unusual types, or a panic) before succeeding (or never) under 0..40 (rarely thousands of, or up to math.MaxInt) retries or the default; calls counted, the result compared with the script; non-trivial: at least one failure",
		Quick: 60000, Thorough: 1500000,
		Gen: func(t *rapid.T) RetryCase {
			c := RetryCase{Times: -1}
			if rapid.IntRange(0, 3).Draw(t, "opt") > 0 {
				c.Times = core.Size(t, "xtask", 0, 40, 5000, "times")
				if rapid.Bool().Draw(t, "small") {
					c.Times = rapid.IntRange(0, 5).Draw(t, "few")
				}
				c.Twice = rapid.IntRange(0, 5).Draw(t, "twice") == 5
			}
			al := core.Alphabet(t, "xtask")
			n := rapid.IntRange(0, c.Times+4).Draw(t, "failures")
			forever := rapid.IntRange(0, 40).Draw(t, "forever") == 40
			if forever {
				c.Times = rapid.SampledFrom([]int{math.MaxInt, math.MaxInt - 1, 1 << 60, 1<<48 + 1}).Draw(t, "many")
			} else if c.Times > 100 {
				n = core.Uni2(t, 0, c.Times+4, "failures")
			}
			for i := 0; i < n; i++ {
				if n > 100 {
					c.Fail = append(c.Fail, core.S(fmt.Sprint("f", i)))
					continue
				}
				c.Fail = append(c.Fail, core.S(core.Text(t, "xtask", al, 6, "msg")))
			}
			c.Succeed = rapid.Bool().Draw(t, "succeed") || forever
			c.Same = rapid.IntRange(0, 4).Draw(t, "same") == 4
			c.Odd = rapid.IntRange(0, 4).Draw(t, "odd") == 4
			if rapid.IntRange(0, 5).Draw(t, "panic") == 5 {
				c.Panic = rapid.IntRange(1, 6).Draw(t, "panics")
			}
			if rapid.IntRange(0, 5).Draw(t, "nest") == 5 {
				c.Nest = rapid.IntRange(1, 4).Draw(t, "nests")
			}
			return c
		},
		Run: func(t *testing.T, c RetryCase, r *core.Rec) error {
			calls, running := 0, false
			var given []error
			one := errors.New("always the same")
			overlap := false
			var inner error
			boom := []interface{}{&c, one, "a text", 17, odd[0]}[(c.Panic+len(c.Fail))%5]
			fn := func() error {
				overlap = overlap || running
				running = true
				defer func() { running = false }()
				calls++
				if calls == c.Nest {
					k := 0
					e := xtask.DoWithRetry(func() error { k++; return stringErr(fmt.Sprint("inner ", k)) }, xtask.WithRetry(c.Nest))
					if w := strings.Join([]string{"inner 1", "inner 2", "inner 3", "inner 4", "inner 5"}[:c.Nest+1], "\n"); k != c.Nest+1 || e == nil || e.Error() != w {
						inner = fmt.Errorf("%d calls of a nested retry, result %q, want %q", k, e, w)
					}
				}
				if calls == c.Panic {
					panic(boom)
				}
				if c.Succeed && calls > len(c.Fail) {
					return nil
				}
				var err error
				switch {
				case c.Same:
					err = one
				case c.Odd:
					err = odd[calls%len(odd)]
				case calls <= len(c.Fail):
					err = stringErr(c.Fail[calls-1])
				default:
					err = fmt.Errorf("failure %d", calls)
				}
				given = append(given, err)
				return err
			}
			var opts []xtask.RetryOption
			times := 3
			if c.Times >= 0 {
				times = c.Times
				if c.Twice && times < 1<<40 {
					opts = append(opts, xtask.WithRetry(c.Times+2))
				}
				opts = append(opts, xtask.WithRetry(c.Times))
			}
			var err error
			rec, did := core.Panics(func() { err = xtask.DoWithRetry(fn, opts...) })
			if inner != nil {
				return inner
			}
			want := max(times, times+1)
			ok := c.Succeed && len(c.Fail) < want
			if ok {
				want = len(c.Fail) + 1
			}
			if due := c.Panic > 0 && c.Panic <= want; due || did {
				if !due || !did || rec != boom || calls != c.Panic {
					return fmt.Errorf("call %d panics: panicked %v (%v) after %d calls", c.Panic, did, rec, calls)
				}
				r.Label("panicked")
				return nil
			}
			if calls != want || overlap {
				return fmt.Errorf("%d calls (overlapping: %v), want %d", calls, overlap, want)
			}
			r.NonTrivial(len(given) >= 1)
			r.LabelIf(ok, "succeeded")
			if ok {
				if err != nil {
					return fmt.Errorf("a call succeeded, yet the result is %v", err)
				}
				return nil
			}
			if err == nil {
				return fmt.Errorf("all %d calls failed, yet the result is nil", calls)
			}
			if len(given) == 1 {
				if !identical(err, given[0]) {
					return fmt.Errorf("the only failure was %v, the result is %v", given[0], err)
				}
				return nil
			}
			var msgs []string
			for _, g := range given {
				msgs = append(msgs, g.Error())
			}
			if w := strings.Join(msgs, "\n"); err.Error() != w {
				return fmt.Errorf("the result says %q, want %q", err.Error(), w)
			}
			return nil
		},
	})
}
