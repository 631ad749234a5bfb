package xmath

import (
	"math"
	"testing"

	gx "github.com/chenquan/go-pkg/xmath"
	"pgregory.net/rapid"

	"verif/core"
)

type intCase struct {
	A, B int64
}

func genInt(t *rapid.T, label string) int64 {
	switch rapid.IntRange(0, 4).Draw(t, label+"k") {
	case 0:
		base := rapid.SampledFrom([]int64{0, math.MaxInt64, math.MinInt64, 1 << 53, -(1 << 53), 1 << 62, -(1 << 62), 1 << 31, -(1 << 31), 1 << 32, 1 << 24, -(1 << 24)}).Draw(t, label+"b")
		d := int64(rapid.IntRange(-3, 3).Draw(t, label+"d"))
		return base + d // wraps at the extremes, which is again an extreme
	case 1:
		return int64(rapid.IntRange(-5, 5).Draw(t, label))
	case 2:
		return rapid.Int64Range(1<<53, math.MaxInt64).Draw(t, label)
	case 3:
		return -rapid.Int64Range(1<<53, math.MaxInt64).Draw(t, label)
	}
	return rapid.Int64().Draw(t, label)
}

func TestC24_P_Ints(t *testing.T) {
	core.Check(t, core.Prop[intCase]{
		Rule:  "pairs of integers: extremes, powers of two, beyond 2^53, close neighbours; non-trivial: operands differ",
		Quick: 400000, Thorough: 20000000,
		Gen: func(t *rapid.T) intCase {
			a := genInt(t, "a")
			if rapid.IntRange(0, 2).Draw(t, "near") == 0 {
				return intCase{a, a + int64(rapid.IntRange(-2, 2).Draw(t, "delta"))}
			}
			return intCase{a, genInt(t, "b")}
		},
		Run: func(_ *testing.T, c intCase, r *core.Rec) error {
			r.NonTrivial(c.A != c.B)
			big := func(x int64) bool { return x > 1<<53 || x < -(1<<53) }
			r.LabelIf(big(c.A) && big(c.B), "both beyond 2^53")
			r.LabelIf(c.A-c.B == 1 || c.B-c.A == 1, "neighbours")
			hi, lo := c.A, c.B
			if lo > hi {
				hi, lo = lo, hi
			}
			for _, s := range [][2]int64{{c.A, c.B}, {c.B, c.A}} {
				if g := gx.MaxInt64(s[0], s[1]); g != hi {
					return core.Errf("MaxInt64(%d, %d) = %d", s[0], s[1], g)
				}
				if g := gx.MinInt64(s[0], s[1]); g != lo {
					return core.Errf("MinInt64(%d, %d) = %d", s[0], s[1], g)
				}
				if g := gx.MaxInt(int(s[0]), int(s[1])); g != int(hi) {
					return core.Errf("MaxInt(%d, %d) = %d", s[0], s[1], g)
				}
				if g := gx.MinInt(int(s[0]), int(s[1])); g != int(lo) {
					return core.Errf("MinInt(%d, %d) = %d", s[0], s[1], g)
				}
			}
			return nil
		},
	})
}

type floatCase struct {
	A, B uint64 // bits of float64
	C, D uint32 // bits of float32
}

func genF64(t *rapid.T, label string) uint64 {
	switch rapid.IntRange(0, 3).Draw(t, label+"k") {
	case 0:
		f := rapid.SampledFrom([]float64{0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, -math.MaxFloat64,
			math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 1 << 53, math.MaxFloat32, 1e300, -1e300}).Draw(t, label)
		return math.Float64bits(f)
	case 1:
		return math.Float64bits(rapid.Float64().Draw(t, label))
	case 2:
		return math.Float64bits(float64(rapid.IntRange(-4, 4).Draw(t, label)) / 2)
	}
	return rapid.Uint64().Draw(t, label)
}

func genF32(t *rapid.T, label string) uint32 {
	switch rapid.IntRange(0, 3).Draw(t, label+"k") {
	case 0:
		f := rapid.SampledFrom([]float32{0, float32(math.Copysign(0, -1)), 1, -1, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()),
			math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, -math.SmallestNonzeroFloat32, 1 << 24}).Draw(t, label)
		return math.Float32bits(f)
	case 1:
		return math.Float32bits(rapid.Float32().Draw(t, label))
	case 2:
		return math.Float32bits(float32(rapid.IntRange(-4, 4).Draw(t, label)) / 2)
	}
	return rapid.Uint32().Draw(t, label)
}

// cmp orders floats with -0 below +0; neither operand is a NaN.
func cmp(a, b float64) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	sa, sb := math.Signbit(a), math.Signbit(b)
	switch {
	case sa == sb:
		return 0
	case sa:
		return -1
	}
	return 1
}

func checkFloat(name string, max bool, a, b, got float64) error {
	bad := func() error {
		return core.Errf("%s(%v [%x], %v [%x]) = %v [%x]", name, a, math.Float64bits(a), b, math.Float64bits(b), got, math.Float64bits(got))
	}
	na, nb := math.IsNaN(a), math.IsNaN(b)
	if na || nb {
		if math.IsNaN(got) {
			return nil
		}
		o := a
		if na {
			o = b
		}
		if math.IsInf(o, 0) && got == o {
			return nil
		}
		return bad()
	}
	want := a
	if (cmp(b, a) > 0) == max {
		want = b
	}
	if math.Float64bits(want) != math.Float64bits(got) && cmp(want, got) != 0 || math.IsNaN(got) {
		return bad()
	}
	return nil
}

func TestC24_P_Floats(t *testing.T) {
	core.Check(t, core.Prop[floatCase]{
		Rule:  "pairs of float64 and float32 bit patterns (special values, neighbours, arbitrary bits); non-trivial: the operands' bits differ",
		Quick: 400000, Thorough: 20000000,
		Gen: func(t *rapid.T) floatCase {
			c := floatCase{A: genF64(t, "a"), C: genF32(t, "c")}
			switch rapid.IntRange(0, 3).Draw(t, "near") {
			case 0:
				d := uint64(rapid.IntRange(-1, 1).Draw(t, "d"))
				c.B, c.D = c.A+d, c.C+uint32(d)
			case 1:
				c.B, c.D = c.A^(1<<63), c.C^(1<<31)
			default:
				c.B, c.D = genF64(t, "b"), genF32(t, "e")
			}
			return c
		},
		Run: func(_ *testing.T, c floatCase, r *core.Rec) error {
			a, b := math.Float64frombits(c.A), math.Float64frombits(c.B)
			x, y := math.Float32frombits(c.C), math.Float32frombits(c.D)
			r.NonTrivial(c.A != c.B || c.C != c.D)
			r.LabelIf(a == 0 && b == 0 && c.A != c.B, "opposite zeros")
			r.LabelIf(math.IsNaN(a) || math.IsNaN(b), "NaN")
			for i := 0; i < 2; i++ {
				if err := checkFloat("MaxFloat64", true, a, b, gx.MaxFloat64(a, b)); err != nil {
					return err
				}
				if err := checkFloat("MinFloat64", false, a, b, gx.MinFloat64(a, b)); err != nil {
					return err
				}
				if err := checkFloat("MaxFloat32", true, float64(x), float64(y), float64(gx.MaxFloat32(x, y))); err != nil {
					return err
				}
				if err := checkFloat("MinFloat32", false, float64(x), float64(y), float64(gx.MinFloat32(x, y))); err != nil {
					return err
				}
				a, b, x, y = b, a, y, x
			}
			return nil
		},
	})
}
