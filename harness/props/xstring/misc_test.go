package xstring

import (
	"errors"
	"sort"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"

	gs "github.com/chenquan/go-pkg/xstring"
	"pgregory.net/rapid"

	"verif/core"
)

type oneCase struct {
	S core.S
}

type editCase struct {
	S   core.S
	Sub core.S
	Ch  int32
}

func TestC28_P_Reverse(t *testing.T) {
	core.Check(t, core.Prop[oneCase]{
		Rule:  "valid and malformed text; non-trivial: valid with two or more characters, or malformed",
		Quick: 150000, Thorough: 5000000,
		Gen: func(t *rapid.T) oneCase {
			al := core.Alphabet(t, pkg)
			if rapid.IntRange(0, 4).Draw(t, "bad") == 0 {
				return oneCase{core.S(core.Malformed(t, pkg, al, 40, "s"))}
			}
			return oneCase{core.S(core.Text(t, pkg, al, core.Long(t, 300, 70000), "s"))}
		},
		Run: func(_ *testing.T, c oneCase, r *core.Rec) error {
			s := strings.Clone(string(c.S))
			got, err := gs.Reverse(s)
			pv, panicked := core.Panics(func() {
				if m := gs.MustReverse(s); m != got {
					panic(core.Errf("MustReverse(%q) = %q, Reverse = %q", s, m, got))
				}
			})
			if s != string(c.S) {
				return core.Errf("Reverse changed its argument")
			}
			if !utf8.ValidString(s) {
				r.NonTrivial(true)
				r.Label("malformed")
				if !errors.Is(err, gs.ErrDecodeChar) {
					return core.Errf("Reverse(%q) of malformed text: error %v", s, err)
				}
				if !panicked {
					return core.Errf("MustReverse(%q) did not panic on malformed text", s)
				}
				return nil
			}
			rs := []rune(s)
			r.NonTrivial(len(rs) > 1)
			r.LabelIf(strings.ContainsRune(s, 0xfffd), "contains U+FFFD")
			if err != nil || panicked {
				return core.Errf("Reverse(%q): error %v, must variant panicked %v (%v)", s, err, panicked, pv)
			}
			for i, j := 0, len(rs)-1; i < j; i, j = i+1, j-1 {
				rs[i], rs[j] = rs[j], rs[i]
			}
			if got != string(rs) {
				return core.Errf("Reverse(%q) = %q, want %q", s, got, string(rs))
			}
			back, err := gs.Reverse(got)
			if back != s || err != nil {
				return core.Errf("Reverse(Reverse(%q)) = %q, %v", s, back, err)
			}
			return nil
		},
	})
}

func TestC28_P_Shuffle(t *testing.T) {
	core.Check(t, core.Prop[oneCase]{
		Rule:  "valid text is shuffled; texts of two to four distinct characters are shuffled until every permutation has a miss probability below 1e-20; non-trivial: at least two distinct characters",
		Quick: 12000, Thorough: 200000,
		Gen: func(t *rapid.T) oneCase {
			if rapid.IntRange(0, 9).Draw(t, "all") == 0 {
				n := rapid.IntRange(2, 4).Draw(t, "n")
				return oneCase{core.S(string(rapid.SliceOfNDistinct(rapid.SampledFrom(core.Weird), n, n, rapid.ID[rune]).Draw(t, "rs")))}
			}
			return oneCase{text(t, core.Alphabet(t, pkg), core.Long(t, 300, 70000), "s")}
		},
		Run: func(_ *testing.T, c oneCase, r *core.Rec) error {
			s := strings.Clone(string(c.S))
			got := gs.Shuffle(s)
			if s != string(c.S) {
				return core.Errf("Shuffle changed its argument")
			}
			if !utf8.ValidString(s) {
				return nil
			}
			key := func(s string) string {
				rs := []rune(s)
				sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
				return string(rs)
			}
			if key(got) != key(s) {
				return core.Errf("Shuffle(%q) = %q is no permutation", s, got)
			}
			rs := []rune(s)
			set := map[rune]bool{}
			for _, x := range rs {
				set[x] = true
			}
			r.NonTrivial(len(set) > 1)
			if n := len(rs); n >= 2 && n <= 4 && len(set) == n {
				fact := map[int]int{2: 2, 3: 6, 4: 24}[n]
				seen := map[string]bool{}
				for i := 0; i < 60*fact && len(seen) < fact; i++ {
					seen[gs.Shuffle(s)] = true
				}
				r.Label("all permutations")
				if len(seen) != fact {
					return core.Errf("Shuffle(%q) produced only %d of %d permutations in %d draws", s, len(seen), fact, 60*fact)
				}
			}
			return nil
		},
	})
}

func refRemove(s, rm string) string {
	if rm == "" {
		return s
	}
	var b []byte
	for i := 0; i < len(s); {
		if len(s)-i >= len(rm) && s[i:i+len(rm)] == rm {
			i += len(rm)
			continue
		}
		b = append(b, s[i])
		i++
	}
	return string(b)
}

func TestC28_P_Remove(t *testing.T) {
	core.Check(t, core.Prop[editCase]{
		Rule:  "a text, a character and a substring that usually occur in it; non-trivial: something is removed and something stays",
		Quick: 200000, Thorough: 6000000,
		Gen: func(t *rapid.T) editCase {
			al := core.Alphabet(t, pkg)
			if rapid.Bool().Draw(t, "sp") {
				al = append(al, rapid.SampledFrom([]rune{' ', '\n', 0xa0, 0x3000, 0x85, 0x2028, 0x200b}).Draw(t, "spc"))
			}
			c := editCase{S: text(t, al, core.Long(t, 200, 70000), "s")}
			c.Ch = rapid.SampledFrom(al).Draw(t, "ch")
			c.Sub = core.S(related(t, core.Text(t, pkg, []rune(string(c.S) + "x")[:1], 4, "u"), al, "sub"))
			if rapid.Bool().Draw(t, "win") && utf8.ValidString(string(c.S)) {
				rs := []rune(string(c.S))
				i := rapid.IntRange(0, len(rs)).Draw(t, "i")
				c.Sub = core.S(string(rs[i:min(len(rs), i+rapid.IntRange(0, 3).Draw(t, "l"))]))
			}
			return c
		},
		Run: func(_ *testing.T, c editCase, r *core.Rec) error {
			s := string(c.S)
			gc, gr, gw := gs.RemoveChar(s, c.Ch), gs.RemoveString(s, string(c.Sub)), gs.DeleteWhitespace(s)
			if !core.Valid(s, string(c.Sub)) {
				r.Label("malformed")
				return nil
			}
			var wc, ww []rune
			for _, x := range s {
				if x != c.Ch {
					wc = append(wc, x)
				}
				if !unicode.Is(unicode.White_Space, x) {
					ww = append(ww, x)
				}
			}
			wr := refRemove(s, string(c.Sub))
			some := func(w string) bool { return w != s && w != "" }
			r.NonTrivial(some(string(wc)) || some(string(ww)) || some(wr))
			r.LabelIf(some(string(ww)) && multi(s), "whitespace in multi-byte text")
			if gc != string(wc) {
				return core.Errf("RemoveChar(%q, %q) = %q, want %q", s, c.Ch, gc, string(wc))
			}
			if gr != wr {
				return core.Errf("RemoveString(%q, %q) = %q, want %q", s, c.Sub, gr, wr)
			}
			if gw != string(ww) {
				return core.Errf("DeleteWhitespace(%q) = %q, want %q", s, gw, string(ww))
			}
			return nil
		},
	})
}

// ---------------------------------------------------------------- C29

type regionCase struct {
	A, B    core.S
	Ignore  bool
	I, J, N int
	Others  []core.S
}

func TestC29_P_Region(t *testing.T) {
	core.Check(t, core.Prop[regionCase]{
		Rule:  "two related texts over characters with everything that Unicode simple folding identifies with them, offsets and a length, and further candidate suffixes; non-trivial: the texts differ but share characters up to case",
		Quick: 250000, Thorough: 8000000,
		Gen: func(t *rapid.T) regionCase {
			al := tameAlphabet(t)
			a := core.Text(t, "", al, core.Long(t, 60, 1500), "a")
			b := recase(t, related2(t, a, al), "case")
			c := regionCase{A: core.S(a), B: core.S(b), Ignore: rapid.Bool().Draw(t, "ignore")}
			if rapid.IntRange(0, 30).Draw(t, "bad") == 30 {
				c.A = core.S(core.Malformed(t, pkg, al, 20, "a"))
			}
			if rapid.IntRange(0, 1).Draw(t, "swap") == 0 {
				c.A, c.B = c.B, c.A
			}
			na, nb := utf8.RuneCountInString(string(c.A)), utf8.RuneCountInString(string(c.B))
			c.I, c.J = regionIndex(t, na, "i"), regionIndex(t, nb, "j")
			c.N = regionIndex(t, min(na, nb), "n")
			for i, n := 0, rapid.IntRange(0, 3).Draw(t, "others"); i < n; i++ {
				c.Others = append(c.Others, core.S(recase(t, related2(t, a, al), "ocase")))
			}
			c.Others = longList(t, c.Others)
			return c
		},
		Run: func(_ *testing.T, c regionCase, r *core.Rec) error {
			a, b := string(c.A), string(c.B)
			region := gs.RegionMatches(a, c.Ignore, c.I, b, c.J, c.N)
			eqi := gs.EqualsIgnoreCase(a, b)
			eqi2 := gs.EqualsIgnoreCase(b, a)
			cont := gs.ContainsIgnoreCase(a, b)
			ew, ewi, ewc := gs.EndsWith(a, b, c.Ignore), gs.EndsWithIgnoreCase(a, b), gs.EndsWithCase(a, b)
			any := gs.EndsWithAny(a, core.Strs(c.Others)...)
			if !core.Valid(a, b) {
				r.Label("malformed")
				return nil
			}
			ra, rb := []rune(a), []rune(b)
			match := func(x []rune, i int, y []rune, j, n int, ign bool) bool {
				if i < 0 || j < 0 || n < 0 || i > len(x) || j > len(y) || n > len(x)-i || n > len(y)-j {
					return false
				}
				for k := 0; k < n; k++ {
					if !foldEq(x[i+k], y[j+k], ign) {
						return false
					}
				}
				return true
			}
			fold := len(ra) == len(rb) && match(ra, 0, rb, 0, len(ra), true)
			r.NonTrivial(a != b && len(ra) > 0 && len(rb) > 0 && foldEq(ra[0], rb[0], true))
			r.LabelIf(fold && a != b, "equal up to case only")
			r.LabelIf(region && c.N > 0, "region matches")
			if w := match(ra, c.I, rb, c.J, c.N, c.Ignore); region != w && !(c.N == 0 && (c.I > len(ra) || c.J > len(rb))) {
				return core.Errf("RegionMatches(%q, %v, %d, %q, %d, %d) = %v", a, c.Ignore, c.I, b, c.J, c.N, region)
			}
			if eqi != fold || eqi2 != fold {
				return core.Errf("EqualsIgnoreCase(%q, %q) = %v, swapped %v, want %v", a, b, eqi, eqi2, fold)
			}
			wc := false
			for i := 0; i+len(rb) <= len(ra); i++ {
				wc = wc || match(ra, i, rb, 0, len(rb), true)
			}
			r.LabelIf(wc && !strings.Contains(a, b), "contained up to case only")
			if cont != wc {
				return core.Errf("ContainsIgnoreCase(%q, %q) = %v, want %v", a, b, cont, wc)
			}
			tail := func(suffix []rune, ign bool) bool {
				return match(ra, len(ra)-len(suffix), suffix, 0, len(suffix), ign)
			}
			if w := tail(rb, c.Ignore); ew != w {
				return core.Errf("EndsWith(%q, %q, %v) = %v", a, b, c.Ignore, ew)
			}
			if w := tail(rb, true); ewi != w {
				return core.Errf("EndsWithIgnoreCase(%q, %q) = %v", a, b, ewi)
			}
			if w := tail(rb, false); ewc != w {
				return core.Errf("EndsWithCase(%q, %q) = %v", a, b, ewc)
			}
			if a != "" {
				w := false
				for _, o := range c.Others {
					w = w || tail([]rune(string(o)), false)
				}
				if any != w {
					return core.Errf("EndsWithAny(%q, %q) = %v", a, c.Others, any)
				}
			}
			return nil
		},
	})
}

// longList draws l itself or, once in a while, a long list of its first text
// with another of its texts in one place.
func longList(t *rapid.T, l []core.S) []core.S {
	n := core.LongEvery(t, 400, 0, 600)
	if n == 0 || len(l) == 0 {
		return l
	}
	n = core.LongSize(t, pkg, n, "list")
	for _, x := range l {
		if len(x) > 200 {
			return l
		}
	}
	r := make([]core.S, n)
	for i := range r {
		r[i] = l[0]
	}
	r[place(t, n, "odd")] = l[len(l)-1]
	return r
}

// place draws an index below n, often the first or last one.
func place(t *rapid.T, n int, label string) int {
	switch rapid.IntRange(0, 3).Draw(t, label+"at") {
	case 0:
		return 0
	case 1:
		return n - 1
	}
	return core.Uni2(t, 0, n-1, label)
}

func regionIndex(t *rapid.T, n int, label string) int {
	if rapid.IntRange(0, 3).Draw(t, label+"k") == 0 {
		return index(t, n, label)
	}
	return rapid.IntRange(0, min(n, 3)).Draw(t, label)
}

// related2 is related without drawing characters outside the alphabet.
func related2(t *rapid.T, s string, al []rune) string {
	rs := []rune(s)
	switch rapid.IntRange(0, 6).Draw(t, "rel") {
	case 0:
		return s
	case 1:
		return string(rs[:rapid.IntRange(0, len(rs)).Draw(t, "i")])
	case 2:
		return string(rs[rapid.IntRange(0, len(rs)).Draw(t, "i"):])
	case 3:
		i := rapid.IntRange(0, len(rs)).Draw(t, "i")
		return string(rs[i:rapid.IntRange(i, len(rs)).Draw(t, "j")])
	case 4:
		if len(rs) > 0 {
			rs[rapid.IntRange(0, len(rs)-1).Draw(t, "i")] = rapid.SampledFrom(al).Draw(t, "c")
		}
		return string(rs)
	case 5:
		return s + core.Text(t, "", al, 4, "x")
	}
	return core.Text(t, "", al, 20, "b")
}

// ---------------------------------------------------------------- C30

type listCase struct {
	L []core.S
}

func refPrefix(l []string) (int, bool) {
	n := 0
	rss := make([][]rune, len(l))
	for i, s := range l {
		rss[i] = []rune(s)
	}
	for {
		var c rune
		for i, rs := range rss {
			if n >= len(rs) {
				for _, o := range l {
					if o != l[0] {
						return n, false
					}
				}
				return n, true
			}
			if i == 0 {
				c = rs[n]
			} else if rs[n] != c {
				return n, false
			}
		}
		n++
	}
}

func TestC30_P_Difference(t *testing.T) {
	core.Check(t, core.Prop[listCase]{
		Rule:  "up to five texts sharing prefixes, now and then hundreds; non-trivial: at least two texts that differ after a common non-empty prefix",
		Quick: 200000, Thorough: 6000000,
		Gen: func(t *rapid.T) listCase {
			al := core.Alphabet(t, pkg)
			base := core.Text(t, pkg, al, core.Long(t, 300, 70000), "base")
			var c listCase
			for i, n := 0, rapid.IntRange(0, 5).Draw(t, "n"); i < n; i++ {
				s := related(t, base, al, "s")
				if rapid.IntRange(0, 2).Draw(t, "pre") > 0 {
					rs := []rune(base)
					s = string(rs[:rapid.IntRange(0, len(rs)).Draw(t, "k")]) + core.Text(t, pkg, al, 3, "tail")
				}
				if rapid.IntRange(0, 60).Draw(t, "bad") == 60 {
					s = core.Malformed(t, pkg, al, 10, "m")
				}
				c.L = append(c.L, core.S(s))
			}
			c.L = longList(t, c.L)
			return c
		},
		Run: func(_ *testing.T, c listCase, r *core.Rec) error {
			l := core.Strs(c.L)
			long := false
			for _, s := range l {
				long = long || len(s) > 4000
			}
			if long && len(l) > 2 {
				l = l[:2]
			}
			if long && len(l) == 2 {
				// the list functions take quadratic time: compare the others only
				a, b := l[0], l[1]
				i2, d := gs.IndexOfDifferenceWithTwoStr(a, b), gs.Difference(a, b)
				if !core.Valid(a, b) {
					return nil
				}
				n, eq := refPrefix(l)
				wi, wd := n, string([]rune(b)[n:])
				if eq {
					wi, wd = -1, ""
				}
				r.NonTrivial(!eq && n > 0)
				r.Label("long")
				if i2 != wi || d != wd {
					return core.Errf("IndexOfDifferenceWithTwoStr(%q, %q) = %d, Difference = %q, want %d, %q", a, b, i2, d, wi, wd)
				}
				return nil
			}
			idx, pre := gs.IndexOfDifference(l...), gs.CommonPrefix(l...)
			valid := core.Valid(l...)
			want, all := 0, true
			if valid && len(l) > 0 {
				want, all = refPrefix(l)
				r.NonTrivial(len(l) > 1 && !all && want > 0)
				wi := want
				if all || len(l) < 2 {
					wi = -1
				}
				if idx != wi {
					return core.Errf("IndexOfDifference(%q) = %d, want %d", l, idx, wi)
				}
				if w := string([]rune(l[0])[:want]); pre != w {
					return core.Errf("CommonPrefix(%q) = %q, want %q", l, pre, w)
				}
			} else if len(l) == 0 && (idx != -1 || pre != "") {
				return core.Errf("no strings: index %d, prefix %q", idx, pre)
			}
			if len(l) >= 2 {
				a, b := l[0], l[1]
				i2, d := gs.IndexOfDifferenceWithTwoStr(a, b), gs.Difference(a, b)
				if !core.Valid(a, b) {
					return nil
				}
				n, eq := refPrefix(l[:2])
				wi, wd := n, string([]rune(b)[n:])
				if eq {
					wi, wd = -1, ""
				}
				if i2 != wi || gs.IndexOfDifference(a, b) != wi {
					return core.Errf("IndexOfDifferenceWithTwoStr(%q, %q) = %d, list form %d, want %d", a, b, i2, gs.IndexOfDifference(a, b), wi)
				}
				if d != wd {
					return core.Errf("Difference(%q, %q) = %q, want %q", a, b, d, wd)
				}
				if s := gs.CommonPrefix(a, b) + d; s != b {
					return core.Errf("CommonPrefix + Difference of %q, %q = %q", a, b, s)
				}
				r.LabelIf(multi(a) || multi(b), "multi-byte")
			}
			return nil
		},
	})
}

// ---------------------------------------------------------------- C31

type abbrCase struct {
	S, M core.S
	O, W int
}

func refAbbreviate(s, m string, o, w int) (string, bool) {
	t, k := []rune(s), utf8.RuneCountInString(m)
	n := len(t)
	if w < k+1 {
		return "", false
	}
	if n <= w {
		return s, true
	}
	room := w - k // characters shown beside one marker
	if o < 0 {
		o = 0
	}
	if o > n-room {
		o = n - room // the window reaches the end
	}
	if o <= k+1 {
		return string(t[:room]) + m, true
	}
	if w < 2*k+1 {
		return "", false
	}
	if o < n-room {
		return m + string(t[o:o+room-k]) + m, true
	}
	return m + string(t[n-room:]), true
}

func TestC31_P_Abbreviate(t *testing.T) {
	core.Check(t, core.Prop[abbrCase]{
		Rule:  "a text, a marker, an offset and a width around their lengths; non-trivial: the text is shortened",
		Quick: 250000, Thorough: 8000000,
		Gen: func(t *rapid.T) abbrCase {
			al := core.Alphabet(t, pkg)
			c := abbrCase{}
			rs := make([]rune, rapid.IntRange(0, 40).Draw(t, "n"))
			if max := core.Long(t, 0, 70000); max > 0 {
				for i, n := 0, core.LongSize(t, "xstring", max, "n"); i < n; i++ {
					rs = append(rs, 0x4e00+rune(i%20000))
				}
			}
			for i := range rs[:min(len(rs), 40)] {
				rs[i] = rune('a' + i%26) // every position is recognisable
				if rapid.IntRange(0, 5).Draw(t, "mb") == 0 {
					rs[i] = rapid.SampledFrom(al).Draw(t, "c")
				}
			}
			c.S = core.S(string(rs))
			c.M = core.S(rapid.SampledFrom([]string{"...", "…", ".", "", "--", "...."}).Draw(t, "m"))
			if rapid.IntRange(0, 3).Draw(t, "om") == 0 {
				c.M = core.S(core.Text(t, pkg, al, 6, "mm"))
			}
			if rapid.IntRange(0, 40).Draw(t, "bad") == 40 {
				c.S = core.S(core.Malformed(t, pkg, al, 20, "bs"))
			}
			n, k := utf8.RuneCountInString(string(c.S)), utf8.RuneCountInString(string(c.M))
			switch rapid.IntRange(0, 3).Draw(t, "wk") {
			case 0:
				c.W = rapid.SampledFrom([]int{k, k + 1, 2 * k, 2*k + 1, n - 1, n, n + 1, 2*k + 2, k + 2}).Draw(t, "w")
			case 1:
				c.W = index(t, n, "w")
			default:
				c.W = rapid.IntRange(0, n+2).Draw(t, "w")
			}
			switch rapid.IntRange(0, 3).Draw(t, "ok") {
			case 0:
				c.O = rapid.SampledFrom([]int{k, k + 1, k + 2, n - c.W, n - c.W + k, n - c.W + k - 1, n - c.W + k + 1, n, n - 1, 0}).Draw(t, "o")
			case 1:
				c.O = index(t, n, "o")
			default:
				c.O = rapid.IntRange(0, n+2).Draw(t, "o")
			}
			return c
		},
		Run: func(_ *testing.T, c abbrCase, r *core.Rec) error {
			s, m := string(c.S), string(c.M)
			got, err := gs.Abbreviate(s, m, c.O, c.W)
			if !core.Valid(s, m) {
				r.Label("malformed")
				return nil
			}
			if s == "" {
				if got != "" || err != nil && m == "" {
					return core.Errf("Abbreviate of empty text = %q, %v", got, err)
				}
				return nil
			}
			if m == "" {
				if c.W > 0 {
					if w := refSub(s, 0, c.W); got != w || err != nil {
						return core.Errf("Abbreviate(%q, %q, %d, %d) = %q, %v, want %q", s, m, c.O, c.W, got, err, w)
					}
				}
				return nil
			}
			want, ok := refAbbreviate(s, m, c.O, c.W)
			r.NonTrivial(ok && want != s)
			r.LabelIf(ok && strings.HasPrefix(want, m) && want != s, "cut at the front")
			r.LabelIf(!ok, "width too small")
			if ok != (err == nil) || got != want {
				return core.Errf("Abbreviate(%q, %q, %d, %d) = %q, %v, want %q ok=%v", s, m, c.O, c.W, got, err, want, ok)
			}
			if ok && utf8.RuneCountInString(got) > c.W {
				return core.Errf("Abbreviate(%q, %q, %d, %d) = %q is wider than %d", s, m, c.O, c.W, got, c.W)
			}
			return nil
		},
	})
}

// ---------------------------------------------------------------- C32

var classPools = [][]rune{
	[]rune("abzAZ"), []rune("019"), []rune("éßñαΩж世界ǅʰªﷲ"), []rune{0x660, 0x966, 0xff10, 0x1d7ce},
	[]rune{' ', '\t', '\n', '\v', '\f', '\r', 0x85, 0xa0, 0x1680, 0x2000, 0x200a, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000},
	[]rune{0x200b, 0xfeff, 0x180e, 0x1c, 0, 0x301, 0x2163, 0xb2, 0x2460, '_', '-', '.', ',', '+', 'e', 0xfffd, 0x10ffff},
}

func classText(t *rapid.T, label string) string {
	p := rapid.SampledFrom(classPools).Draw(t, label+"p")
	n := core.Size(t, pkg, 0, 6, 70000, label+"n")
	rs := make([]rune, n)
	for i := range rs {
		if i < 6 {
			rs[i] = rapid.SampledFrom(p).Draw(t, label)
		} else {
			rs[i] = rs[i%6]
		}
	}
	if n > 0 && rapid.IntRange(0, 1).Draw(t, label+"odd") == 0 {
		// one character of some other kind, often in the last or first place
		i := place(t, n, label+"i")
		rs[i] = rapid.OneOf(rapid.SampledFrom(rapid.SampledFrom(classPools).Draw(t, label+"q")), rapid.Rune()).Draw(t, label+"x")
	}
	return string(rs)
}

func numberText(t *rapid.T, label string) string {
	digits := func(l string) string {
		if n := core.Long(t, 0, 70000); n > 0 {
			return strings.Repeat(rapid.StringOfN(rapid.RuneFrom([]rune("0123456789")), 1, 1, -1).Draw(t, l), core.LongSize(t, pkg, n, l))
		}
		return rapid.StringOfN(rapid.RuneFrom([]rune("0123456789")), 0, 4, -1).Draw(t, l)
	}
	s := digits(label + "a")
	if rapid.Bool().Draw(t, label+"s") {
		s += rapid.SampledFrom([]string{".", ".", "..", ",", "x", "e", " ", "-", "\n", "．", "/", ":", "1"}).Draw(t, label+"sep") + digits(label+"b")
	}
	if rapid.IntRange(0, 5).Draw(t, label+"t") == 0 {
		s += rapid.SampledFrom([]string{".", "\n", " ", "٣", "e5", ".5"}).Draw(t, label+"tail")
	}
	if rapid.IntRange(0, 8).Draw(t, label+"h") == 0 {
		s = rapid.SampledFrom([]string{"-", "+", " ", "\n", "٣", "."}).Draw(t, label+"head") + s
	}
	return s
}

func refNumerical(s string) bool {
	i := 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	if i == 0 {
		return false
	}
	if i < len(s) && s[i] == '.' {
		i++
	}
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	return i == len(s)
}

func TestC32_P_Predicates(t *testing.T) {
	core.Check(t, core.Prop[listCase]{
		Rule:  "lists of up to four texts, now and then hundreds or very long ones, over letters, digits, spaces and look-alikes of all scripts, and of almost-numbers; non-trivial: a non-empty text",
		Quick: 200000, Thorough: 8000000,
		Gen: func(t *rapid.T) listCase {
			var c listCase
			for i, n := 0, rapid.IntRange(0, 4).Draw(t, "n"); i < n; i++ {
				switch rapid.IntRange(0, 9).Draw(t, "k") {
				case 0, 1, 2:
					c.L = append(c.L, core.S(numberText(t, "num")))
				case 3:
					c.L = append(c.L, core.S(core.Malformed(t, pkg, []rune{'a', '1', ' '}, 10, "m")))
				case 4:
					c.L = append(c.L, "")
				case 5:
					c.L = append(c.L, core.S(core.Text(t, pkg, core.Alphabet(t, pkg), core.Long(t, 60, 70000), "t")))
				default:
					c.L = append(c.L, core.S(classText(t, "c")))
				}
			}
			c.L = longList(t, c.L)
			return c
		},
		Run: func(_ *testing.T, c listCase, r *core.Rec) error {
			l := core.Strs(c.L)
			anyEmpty, anyBlank := len(l) == 0, len(l) == 0
			valid := true
			for _, s := range l {
				r.NonTrivial(s != "")
				all := func(f func(rune) bool) bool {
					for _, x := range s {
						if !f(x) {
							return false
						}
					}
					return s != ""
				}
				letter := func(x rune) bool { return unicode.In(x, unicode.L) }
				digit := func(x rune) bool { return unicode.In(x, unicode.Nd) }
				space := func(x rune) bool { return unicode.Is(unicode.White_Space, x) }
				empty, blank := s == "", s == "" || all(space)
				got := map[string][2]bool{
					"IsAlpha":        {gs.IsAlpha(s), all(letter)},
					"IsAlphanumeric": {gs.IsAlphanumeric(s), all(func(x rune) bool { return letter(x) || digit(x) })},
					"IsNumeric":      {gs.IsNumeric(s), all(digit)},
					"IsNumerical":    {gs.IsNumerical(s), refNumerical(s)},
					"IsEmpty":        {gs.IsEmpty(s), empty},
					"IsNotEmpty":     {gs.IsNotEmpty(s), !empty},
					"IsBlank":        {gs.IsBlank(s), blank},
					"IsNotBlank":     {gs.IsNotBlank(s), !blank},
				}
				anyEmpty = anyEmpty || empty
				anyBlank = anyBlank || blank
				if !utf8.ValidString(s) {
					valid = false
					r.Label("malformed")
					continue
				}
				for k, v := range got {
					if v[0] != v[1] {
						return core.Errf("%s(%q) = %v", k, s, v[0])
					}
					r.LabelIf(v[1] && s != "" && k[:3] != "IsN", k)
				}
			}
			ge, gn := gs.IsAnyEmpty(l...), gs.IsNoneEmpty(l...)
			be, bn := gs.IsAnyBlank(l...), gs.IsNoneBlank(l...)
			if ge != anyEmpty || gn != !anyEmpty {
				return core.Errf("IsAnyEmpty(%q) = %v, IsNoneEmpty = %v", l, ge, gn)
			}
			if valid && (be != anyBlank || bn != !anyBlank) {
				return core.Errf("IsAnyBlank(%q) = %v, IsNoneBlank = %v", l, be, bn)
			}
			return nil
		},
	})
}

// ---------------------------------------------------------------- C33

type searchCase struct {
	S, P core.S
	L    []core.S
}

func refIndex(s, p string) int {
	for i := 0; i+len(p) <= len(s); i++ {
		if s[i:i+len(p)] == p {
			return i
		}
	}
	return -1
}

func TestC33_P_Search(t *testing.T) {
	core.Check(t, core.Prop[searchCase]{
		Rule:  "a text, a pattern or cut set over the same characters, and a list; non-trivial: pattern and text non-empty",
		Quick: 200000, Thorough: 6000000,
		Gen: func(t *rapid.T) searchCase {
			al := core.Alphabet(t, pkg)
			if rapid.Bool().Draw(t, "sp") {
				al = append(al, rapid.SampledFrom([]rune{' ', '\n', '\t', 0xa0, 0x3000, 0x85, 0x2028, 0x200b}).Draw(t, "spc"))
			}
			s := string(text(t, al, core.Long(t, 200, 70000), "s"))
			c := searchCase{S: core.S(s)}
			if rapid.IntRange(0, 2).Draw(t, "frame") == 0 { // framed by characters of one kind
				f := core.Text(t, pkg, al[len(al)-1:], core.Long(t, 4, 70000), "f")
				c.S = core.S(f + s + f)
			}
			c.P = core.S(related(t, string(c.S), al, "p"))
			if rapid.Bool().Draw(t, "short") {
				c.P = core.S(core.Text(t, pkg, al, 3, "ps"))
			}
			for i, n := 0, rapid.IntRange(0, 4).Draw(t, "n"); i < n; i++ {
				c.L = append(c.L, core.S(related(t, string(c.S), al, "l")))
			}
			c.L = longList(t, c.L)
			return c
		},
		Run: func(_ *testing.T, c searchCase, r *core.Rec) error {
			s, p, l := string(c.S), string(c.P), core.Strs(c.L)
			ts, tr, tl, trr := gs.TrimSpace(s), gs.Trim(s, p), gs.TrimLeft(s, p), gs.TrimRight(s, p)
			ix, ia := gs.Index(s, p), gs.IndexAny(s, p)
			ct, ca, ea := gs.Contains(s, p), gs.ContainsAnySubstrings(s, l), gs.EqualsAny(s, l...)
			n := gs.Len(s)
			de, db := gs.DefaultIfEmpty(s, p), gs.DefaultIfBlank(s, p)
			if !core.Valid(append(l, s, p)...) {
				r.Label("malformed")
				return nil
			}
			r.NonTrivial(s != "" && p != "")
			cut := func(in func(rune) bool, left, right bool) string {
				rs := []rune(s)
				for left && len(rs) > 0 && in(rs[0]) {
					rs = rs[1:]
				}
				for right && len(rs) > 0 && in(rs[len(rs)-1]) {
					rs = rs[:len(rs)-1]
				}
				return string(rs)
			}
			sp := func(x rune) bool { return unicode.Is(unicode.White_Space, x) }
			inP := func(x rune) bool {
				for _, y := range p {
					if x == y {
						return true
					}
				}
				return false
			}
			for _, x := range []struct{ name, got, want string }{
				{"TrimSpace", ts, cut(sp, true, true)}, {"Trim", tr, cut(inP, true, true)},
				{"TrimLeft", tl, cut(inP, true, false)}, {"TrimRight", trr, cut(inP, false, true)},
			} {
				r.LabelIf(x.want != s && x.want != "", x.name+" cuts")
				if x.got != x.want {
					return core.Errf("%s(%q, %q) = %q, want %q", x.name, s, p, x.got, x.want)
				}
			}
			if w := refIndex(s, p); ix != w {
				return core.Errf("Index(%q, %q) = %d, want %d", s, p, ix, w)
			}
			wa := -1
			for i, x := range s {
				if inP(x) {
					wa = i
					break
				}
			}
			if ia != wa {
				return core.Errf("IndexAny(%q, %q) = %d, want %d", s, p, ia, wa)
			}
			if w := s != "" && refIndex(s, p) >= 0; ct != w {
				return core.Errf("Contains(%q, %q) = %v", s, p, ct)
			}
			wca, wea := false, false
			for _, x := range l {
				wca = wca || refIndex(s, x) >= 0
				wea = wea || x == s
			}
			r.LabelIf(wca, "contains any")
			r.LabelIf(wea, "equals any")
			if ca != wca && s != "" {
				return core.Errf("ContainsAnySubstrings(%q, %q) = %v", s, l, ca)
			}
			if ea != wea {
				return core.Errf("EqualsAny(%q, %q) = %v", s, l, ea)
			}
			if n != len([]rune(s)) {
				return core.Errf("Len(%q) = %d", s, n)
			}
			we, wb := s, s
			if s == "" {
				we = p
			}
			if cut(sp, true, true) == "" {
				wb = p
			}
			if de != we || db != wb {
				return core.Errf("DefaultIfEmpty(%q, %q) = %q, DefaultIfBlank = %q", s, p, de, db)
			}
			return nil
		},
	})
}
