package xstring

import (
	"math"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/core"
)

const pkg = "xstring"

// text draws valid UTF-8 most of the time and malformed text otherwise.
func text(t *rapid.T, al []rune, max int, label string) core.S {
	if rapid.IntRange(0, 19).Draw(t, label+"bad") == 19 {
		return core.S(core.Malformed(t, pkg, al, max, label))
	}
	return core.S(core.Text(t, pkg, al, max, label))
}

// index draws an index relative to a text of n characters: inside, at the
// borders, far outside, and the extreme integers.
func index(t *rapid.T, n int, label string) int {
	switch rapid.IntRange(0, 9).Draw(t, label+"k") {
	case 0:
		return rapid.SampledFrom([]int{math.MaxInt, math.MinInt, math.MaxInt - 1, math.MinInt + 1, math.MaxInt32, math.MinInt32, 1 << 40, -(1 << 40)}).Draw(t, label)
	case 1, 2:
		return rapid.SampledFrom([]int{0, n, -n, n - 1, n + 1, -n - 1, 1 - n, 1, -1, 2 * n, -2 * n}).Draw(t, label)
	case 3:
		return core.Int(t, pkg, -60, 60, label)
	}
	return rapid.IntRange(-n-2, n+2).Draw(t, label)
}

// related derives a string from another one so that near matches are common.
func related(t *rapid.T, s string, al []rune, label string) string {
	rs := []rune(s)
	switch rapid.IntRange(0, 6).Draw(t, label+"rel") {
	case 0:
		return s
	case 1: // a prefix
		return string(rs[:rapid.IntRange(0, len(rs)).Draw(t, label+"i")])
	case 2: // a suffix
		return string(rs[rapid.IntRange(0, len(rs)).Draw(t, label+"i"):])
	case 3: // a window
		i := rapid.IntRange(0, len(rs)).Draw(t, label+"i")
		j := rapid.IntRange(i, len(rs)).Draw(t, label+"j")
		return string(rs[i:j])
	case 4: // one character changed
		if len(rs) > 0 {
			rs[rapid.IntRange(0, len(rs)-1).Draw(t, label+"i")] = rapid.SampledFrom(al).Draw(t, label+"c")
		}
		return string(rs)
	case 5: // extended
		return s + core.Text(t, pkg, al, 4, label+"x")
	}
	return core.Text(t, pkg, al, 20, label)
}

func multi(s string) bool { return utf8.RuneCountInString(s) != len(s) }

// tame: characters whose letter case is beyond doubt. Excluded are the dotted
// and dotless i, which equal i in some languages only, and the few pairs that
// Unicode folds together although neither has an upper case of its own.
func tame(r rune) bool {
	switch r {
	case 0x130, 0x131, 0x390, 0x1fd3, 0x3b0, 0x1fe3, 0xfb05, 0xfb06:
		return false
	}
	return true
}

var tamePool = func() []rune {
	var r []rune
	for _, c := range []rune("aAbBzZ019 .kKsSiIσµǅθẞéÉñÑαΑωΩжЖяЯ世界\U00010400\U00010428ĀāǺǻԱա") {
		if tame(c) {
			r = append(r, c)
		}
	}
	return r
}()

// tameAlphabet draws a few tame characters, usually with both cases of some.
func tameAlphabet(t *rapid.T) []rune {
	n := rapid.IntRange(1, 3).Draw(t, "#")
	var r []rune
	for i := 0; i < n; i++ {
		c := rapid.SampledFrom(tamePool).Draw(t, "c")
		if rapid.IntRange(0, 3).Draw(t, "any") == 0 {
			c = rapid.RuneFrom(nil, unicode.Letter, unicode.Digit).Draw(t, "u")
			if !tame(c) {
				c = 'k' - 1
			}
		}
		// with everything that differs from it in letter case only
		r = append(r, c)
		for x := unicode.SimpleFold(c); x != c; x = unicode.SimpleFold(x) {
			r = append(r, x)
		}
	}
	return r
}

// recase changes the case of drawn positions.
func recase(t *rapid.T, s string, label string) string {
	rs := []rune(s)
	for i := range rs {
		for k := rapid.IntRange(0, 3).Draw(t, label); k > 0; k-- {
			rs[i] = unicode.SimpleFold(rs[i])
		}
	}
	return string(rs)
}

// foldEq: equal, or with ignore equal under Unicode simple case folding.
func foldEq(a, b rune, ignore bool) bool {
	if a == b || !ignore {
		return a == b
	}
	for x := unicode.SimpleFold(a); x != a; x = unicode.SimpleFold(x) {
		if x == b {
			return true
		}
	}
	return false
}
