package core

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// S is a string that survives JSON byte for byte.
type S string

// MarshalJSON writes the Go-quoted form.
func (s S) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.QuoteToASCII(string(s))) }

// UnmarshalJSON reads the Go-quoted form.
func (s *S) UnmarshalJSON(b []byte) error {
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	u, err := strconv.Unquote(q)
	*s = S(u)
	return err
}

// Strs converts a list.
func Strs(a []S) []string {
	r := make([]string, len(a))
	for i, s := range a {
		r[i] = string(s)
	}
	return r
}

type dictionary struct {
	Ints    []int64  `json:"ints"`
	Strings []string `json:"strings"`
	Runes   []int64  `json:"runes"`
}

var dicts map[string]*dictionary

func dict(pkg string) *dictionary {
	if dicts == nil {
		dicts = map[string]*dictionary{}
		if b, err := os.ReadFile(os.Getenv("VERIF_DICT")); err == nil {
			_ = json.Unmarshal(b, &dicts)
		}
		for _, d := range dicts {
			for i, q := range d.Strings {
				if u, err := strconv.Unquote(q); err == nil {
					d.Strings[i] = u
				}
			}
		}
	}
	if d := dicts[pkg]; d != nil {
		return d
	}
	return &dictionary{}
}

// DictInts are the integers of the package's sources within [lo, hi], each
// with its neighbours: sizes and thresholds written into the code.
func DictInts(pkg string, lo, hi int) []int {
	seen := map[int]bool{}
	var r []int
	d := dict(pkg)
	add := func(x int64) {
		if x >= int64(lo) && x <= int64(hi) && !seen[int(x)] {
			seen[int(x)] = true
			r = append(r, int(x))
		}
	}
	for _, v := range d.Ints {
		for k := int64(-1); k <= 1; k++ {
			if (k < 0 && v+k < v) || (k > 0 && v+k > v) || k == 0 {
				add(v + k)
			}
		}
	}
	return r
}

// Int draws from [lo, hi], favouring small values and the package's own
// constants.
func Int(t *rapid.T, pkg string, lo, hi int, label string) int {
	if ds := DictInts(pkg, lo, hi); len(ds) > 0 && rapid.IntRange(0, 5).Draw(t, label+"?") == 5 {
		return rapid.SampledFrom(ds).Draw(t, label)
	}
	return rapid.IntRange(lo, hi).Draw(t, label)
}

// Weird is the pool of characters with special roles: separators, multi-byte
// widths at each boundary, case pairs, combining and space characters.
var Weird = []rune{
	'a', 'b', 'c', 'A', 'B', 'z', 'Z', '0', '1', '9', ' ', '.', ',', '-', '_', '\n', '\t', '\r', '\v', '\f', 0,
	0x7f, 0x80, 0x85, 0xa0, 0xff, 'é', 'É', 'ß', 'ñ', 0x2b9, 'α', 'Ω', 'ж', 'Ж', 0x7ff, 0x800, 0x1680, 0x2000, 0x2028, 0x3000,
	'世', '界', '！', 0x660, 0x966, 0xff10, 0xb2, 0x2163, 0xfffd, 0xfeff, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x301, 0x200b, 0x200d,
}

// Rune draws a character of any kind.
func Rune(t *rapid.T, pkg, label string) rune {
	switch rapid.IntRange(0, 9).Draw(t, label+"k") {
	case 0, 1, 2:
		return rapid.SampledFrom([]rune{'a', 'b', 'c'}).Draw(t, label)
	case 3, 4:
		return rapid.RuneFrom(nil, unicode.Letter, unicode.Digit, unicode.Space, unicode.Punct).Draw(t, label)
	case 5:
		ds := dict(pkg)
		var pool []rune
		for _, v := range ds.Runes {
			pool = append(pool, rune(v))
		}
		for _, s := range ds.Strings {
			if len(s) < 40 {
				pool = append(pool, []rune(s)...)
			}
		}
		if len(pool) > 0 {
			return rapid.SampledFrom(pool).Draw(t, label)
		}
	}
	return rapid.SampledFrom(Weird).Draw(t, label)
}

// alphabet draws the characters one string is made of: few distinct ones make
// repetitions, prefixes and matches likely.
func alphabet(t *rapid.T, pkg, label string) []rune {
	n := rapid.IntRange(1, 6).Draw(t, label+"#")
	r := make([]rune, n)
	for i := range r {
		r[i] = Rune(t, pkg, label)
	}
	return r
}

// Alphabet draws an alphabet to share among the strings of one case.
func Alphabet(t *rapid.T, pkg string) []rune { return alphabet(t, pkg, "alpha") }

// Text draws valid UTF-8 of up to max characters over the alphabet.
func Text(t *rapid.T, pkg string, al []rune, max int, label string) string {
	if ds := dict(pkg).Strings; len(ds) > 0 && rapid.IntRange(0, 30).Draw(t, label+"d") == 30 {
		s := rapid.SampledFrom(ds).Draw(t, label)
		if utf8.ValidString(s) && utf8.RuneCountInString(s) <= max {
			return s
		}
	}
	n := 0
	switch rapid.IntRange(0, 9).Draw(t, label+"z") {
	case 0:
		n = rapid.IntRange(0, max).Draw(t, label+"n")
	case 1, 2, 3:
		n = rapid.IntRange(0, min(max, 20)).Draw(t, label+"n")
	default:
		n = rapid.IntRange(0, min(max, 7)).Draw(t, label+"n")
	}
	if max > 1000 {
		// a case of the long kind
		n = LongSize(t, pkg, max, label+"n")
		x := rapid.Uint32().Draw(t, label+"x")
		if x%2 == 0 {
			rs := make([]rune, n)
			for i := range rs {
				x = x*1664525 + 1013904223
				rs[i] = al[int(x>>16)%len(al)]
			}
			return string(rs)
		}
	}
	if n > 40 {
		// long text: repeat a short drawn unit so that the case stays small
		u := make([]rune, rapid.IntRange(1, 5).Draw(t, label+"u"))
		for i := range u {
			u[i] = rapid.SampledFrom(al).Draw(t, label)
		}
		rs := make([]rune, 0, n)
		for len(rs) < n {
			rs = append(rs, u...)
		}
		return string(rs[:n])
	}
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = rapid.SampledFrom(al).Draw(t, label)
	}
	return string(rs)
}

// Long is the usual limit of a size and, once in a few thousand cases, a huge
// one: limits of fields and buffers lie beyond any usual size.
func Long(t *rapid.T, usual, huge int) int { return LongEvery(t, 3000, usual, huge) }

// LongEvery is Long with one huge limit in that many.
func LongEvery(t *rapid.T, every, usual, huge int) int {
	if Thorough() {
		every *= 4
	}
	if rapid.Uint64().Draw(t, "long")*0x9e3779b97f4a7c15>>32%uint64(every) == 1 {
		return huge
	}
	return usual
}

// Size draws from [lo, usual] as Int does and, once in a few thousand cases,
// a large number up to huge.
func Size(t *rapid.T, pkg string, lo, usual, huge int, label string) int {
	max := Long(t, usual, huge)
	if max == usual {
		return Int(t, pkg, lo, usual, label)
	}
	return LongSize(t, pkg, huge, label)
}

// beyond bounds the cheap sizes taken from the package's own constants.
const beyond = 3 << 20

// LongSize draws a large size: up to max, half the time next to a power of
// two, or next to a large constant of the package, which may lie beyond max.
func LongSize(t *rapid.T, pkg string, max int, label string) int {
	far := max * 4
	if max >= 20000 {
		far = beyond
	}
	if ds := DictInts(pkg, 257, far); len(ds) > 0 && rapid.Bool().Draw(t, label+"d") {
		return rapid.SampledFrom(ds).Draw(t, label)
	}
	if rapid.Bool().Draw(t, label+"2") {
		k := 8
		for 1<<(k+1) <= max {
			k++
		}
		return min(max, 1<<rapid.IntRange(8, k).Draw(t, label)+rapid.IntRange(-2, 3).Draw(t, label))
	}
	return Uni2(t, max/8, max, label)
}

// Uni2 is Uni for wide ranges.
func Uni2(t *rapid.T, lo, hi int, label string) int {
	return lo + int(rapid.Uint64().Draw(t, label)*0x9e3779b97f4a7c15>>33%uint64(hi-lo+1))
}

// Malformed draws arbitrary bytes, often almost valid UTF-8.
func Malformed(t *rapid.T, pkg string, al []rune, max int, label string) string {
	b := []byte(Text(t, pkg, al, max, label))
	k := rapid.IntRange(1, 3).Draw(t, label+"m")
	for i := 0; i < k; i++ {
		bad := rapid.SampledFrom([]string{"\x80", "\xbf", "\xc0", "\xc3", "\xe4\xb8", "\xf0\x9f\x98", "\xff", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80"}).Draw(t, label+"b")
		at := rapid.IntRange(0, len(b)).Draw(t, label+"at")
		b = append(b[:at:at], append([]byte(bad), b[at:]...)...)
	}
	return string(b)
}

// Valid reports valid UTF-8 for all strings.
func Valid(ss ...string) bool {
	for _, s := range ss {
		if !utf8.ValidString(s) {
			return false
		}
	}
	return true
}

// Errf is fmt.Errorf.
func Errf(format string, a ...interface{}) error { return fmt.Errorf(format, a...) }

// Panics runs f and returns what it panicked with.
func Panics(f func()) (v interface{}, did bool) {
	did = true
	defer func() {
		if did {
			v = recover()
		}
	}()
	f()
	did = false
	return
}

// Uni draws an integer, all of the range being equally likely.
func Uni(t *rapid.T, lo, hi int, label string) int {
	n := uint(hi - lo + 1)
	if n <= 1 {
		return lo
	}
	v := uint(0)
	for k := uint(1); k < 4*n; k *= 2 {
		v *= 2
		if rapid.Bool().Draw(t, label) {
			v++
		}
	}
	return lo + int(v%n)
}
