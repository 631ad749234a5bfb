package xstring

import (
	"strings"
	"testing"
	"unicode/utf8"

	gs "github.com/chenquan/go-pkg/xstring"
	"pgregory.net/rapid"

	"verif/core"
)

type subCase struct {
	S    core.S
	A, B int
}

func clip(i, n int) int {
	if i < 0 {
		i += n
	}
	if i < 0 {
		return 0
	}
	if i > n {
		return n
	}
	return i
}

func refSub(s string, a, b int) string {
	rs := []rune(s)
	a, b = clip(a, len(rs)), clip(b, len(rs))
	if a >= b {
		return ""
	}
	return string(rs[a:b])
}

func TestC26_P_Sub(t *testing.T) {
	core.Check(t, core.Prop[subCase]{
		Rule:  "a text and two integers (inside, borders, far outside, extremes); non-trivial: the substring is a proper, non-empty part",
		Quick: 250000, Thorough: 10000000,
		Gen: func(t *rapid.T) subCase {
			s := text(t, core.Alphabet(t, pkg), core.Long(t, 300, 70000), "s")
			n := utf8.RuneCountInString(string(s))
			return subCase{s, index(t, n, "a"), index(t, n, "b")}
		},
		Run: func(_ *testing.T, c subCase, r *core.Rec) error {
			s := string(c.S)
			got, l, ri := gs.Sub(s, c.A, c.B), gs.Left(s, c.A), gs.Right(s, c.A)
			if !utf8.ValidString(s) {
				r.Label("malformed")
				return nil
			}
			want := refSub(s, c.A, c.B)
			r.NonTrivial(want != "" && want != s)
			r.LabelIf(multi(s), "multi-byte")
			r.LabelIf(c.A < 0 || c.B < 0, "negative index")
			if got != want {
				return core.Errf("Sub(%q, %d, %d) = %q, want %q", s, c.A, c.B, got, want)
			}
			n := utf8.RuneCountInString(s)
			if w := refSub(s, 0, c.A); l != w && c.A >= 0 || c.A < 0 && l != string([]rune(s)[:clip(c.A, n)]) {
				return core.Errf("Left(%q, %d) = %q", s, c.A, l)
			}
			if w := string([]rune(s)[clip(c.A, n):]); ri != w {
				return core.Errf("Right(%q, %d) = %q, want %q", s, c.A, ri, w)
			}
			if l+ri != s {
				return core.Errf("Left(%q, %d) + Right = %q", s, c.A, l+ri)
			}
			return nil
		},
	})
}

func TestC26_P_Rotate(t *testing.T) {
	core.Check(t, core.Prop[subCase]{
		Rule:  "a text and a shift; non-trivial: at least two different characters and a shift that is no multiple of the length",
		Quick: 200000, Thorough: 8000000,
		Gen: func(t *rapid.T) subCase {
			s := text(t, core.Alphabet(t, pkg), core.Long(t, 300, 70000), "s")
			return subCase{S: s, A: index(t, utf8.RuneCountInString(string(s)), "k")}
		},
		Run: func(_ *testing.T, c subCase, r *core.Rec) error {
			s, k := string(c.S), c.A
			got := gs.Rotate(s, k)
			if !utf8.ValidString(s) {
				r.Label("malformed")
				return nil
			}
			rs := []rune(s)
			n := len(rs)
			want := s
			if n > 0 {
				m := ((k % n) + n) % n
				want = string(rs[n-m:]) + string(rs[:n-m])
				r.NonTrivial(m != 0 && strings.Count(s, string(rs[0])) != n)
			}
			r.LabelIf(multi(s), "multi-byte")
			r.LabelIf(k > n || k < -n, "more than once around")
			if got != want {
				return core.Errf("Rotate(%q, %d) = %q, want %q", s, k, got, want)
			}
			if k != -k || k == 0 {
				if back := gs.Rotate(got, -k); back != s {
					return core.Errf("Rotate(Rotate(%q, %d), %d) = %q", s, k, -k, back)
				}
			}
			if n > 0 && k < 1<<30 && k > -(1<<30) {
				if same := gs.Rotate(s, k*n); same != s {
					return core.Errf("Rotate(%q, %d * its length) = %q", s, k, same)
				}
			}
			return nil
		},
	})
}

type padCase struct {
	S  core.S
	N  int
	Ch int32
}

func TestC27_P_Pad(t *testing.T) {
	core.Check(t, core.Prop[padCase]{
		Rule:  "a text, a width (below, at, above its length, negative) and a pad character; non-trivial: padding is needed",
		Quick: 150000, Thorough: 5000000,
		Gen: func(t *rapid.T) padCase {
			al := core.Alphabet(t, pkg)
			s := text(t, al, core.Long(t, 120, 70000), "s")
			n := utf8.RuneCountInString(string(s))
			c := padCase{S: s, Ch: core.Rune(t, pkg, "ch")}
			switch rapid.IntRange(0, 5).Draw(t, "w") {
			case 0:
				c.N = rapid.IntRange(-3, 3).Draw(t, "n")
			case 1:
				c.N = n + rapid.IntRange(-2, 3).Draw(t, "n")
			case 2:
				c.N = len(s) + rapid.IntRange(-2, 3).Draw(t, "n")
			case 3:
				c.N = core.Int(t, pkg, -10, 600, "n")
				if max := core.Long(t, 0, 140000); max > 0 {
					c.N = core.LongSize(t, "xstring", max, "n")
				}
			default:
				c.N = n + rapid.IntRange(1, 40).Draw(t, "n")
			}
			if rapid.IntRange(0, 2).Draw(t, "own") == 0 {
				c.Ch = rapid.SampledFrom(al).Draw(t, "ownch") // the pad character also occurs in the text
			}
			return c
		},
		Run: func(_ *testing.T, c padCase, r *core.Rec) error {
			s := string(c.S)
			pads := c.N - utf8.RuneCountInString(s)
			if c.N <= 0 || pads < 0 {
				pads = 0
			}
			r.NonTrivial(pads > 0)
			r.LabelIf(multi(s), "multi-byte text")
			r.LabelIf(c.Ch >= 0x80, "multi-byte pad")
			r.LabelIf(pads > 0 && c.N < len(s), "wider than characters, narrower than bytes")
			rep := func(ch rune, n int) string {
				rs := make([]rune, n)
				for i := range rs {
					rs[i] = ch
				}
				return string(rs)
			}
			for _, ch := range []rune{c.Ch, ' '} {
				left, right, center := gs.PadLeftChar(s, c.N, ch), gs.PadRightChar(s, c.N, ch), gs.PadCenterChar(s, c.N, ch)
				wl, wr, wc := rep(ch, pads)+s, s+rep(ch, pads), rep(ch, pads/2)+s+rep(ch, pads-pads/2)
				if left != wl {
					return core.Errf("PadLeftChar(%q, %d, %q) = %q, want %q", s, c.N, ch, left, wl)
				}
				if right != wr {
					return core.Errf("PadRightChar(%q, %d, %q) = %q, want %q", s, c.N, ch, right, wr)
				}
				if center != wc {
					return core.Errf("PadCenterChar(%q, %d, %q) = %q, want %q", s, c.N, ch, center, wc)
				}
				if ch == ' ' {
					if g := gs.PadLeftSpace(s, c.N); g != wl {
						return core.Errf("PadLeftSpace(%q, %d) = %q, want %q", s, c.N, g, wl)
					}
					if g := gs.PadRightSpace(s, c.N); g != wr {
						return core.Errf("PadRightSpace(%q, %d) = %q, want %q", s, c.N, g, wr)
					}
					if g := gs.PadCenterSpace(s, c.N); g != wc {
						return core.Errf("PadCenterSpace(%q, %d) = %q, want %q", s, c.N, g, wc)
					}
				}
				n := c.N
				if n < 0 {
					n = 0
				}
				if g := gs.RepeatChar(ch, c.N); g != rep(ch, n) {
					return core.Errf("RepeatChar(%q, %d) = %q", ch, c.N, g)
				}
			}
			return nil
		},
	})
}
