package xstring

import (
	"strings"
	"testing"

	gs "github.com/chenquan/go-pkg/xstring"
	"pgregory.net/rapid"

	"verif/core"
)

type jop struct {
	Op string `json:"op"` // str byte rune write grow reset read
	S  core.S `json:"s,omitempty"`
	R  int32  `json:"r,omitempty"`
	N  int    `json:"n,omitempty"`
}

type jopt struct {
	Kind string `json:"kind"` // step prefix suffix all
	A    core.S `json:"a,omitempty"`
	B    core.S `json:"b,omitempty"`
	C    core.S `json:"c,omitempty"`
}

type jcase struct {
	Opts  []jopt `json:"opts"`
	Ops   []jop  `json:"ops"`
	Quiet bool   `json:"quiet,omitempty"` // reads between the writes only where drawn
	Times int    `json:"times,omitempty"` // how often the operations are repeated
}

func genJoiner(t *rapid.T) jcase {
	al := core.Alphabet(t, pkg)
	var c jcase
	piece := func(l string) core.S {
		if rapid.IntRange(0, 9).Draw(t, l+"e") < 3 {
			return ""
		}
		return text(t, al, core.Long(t, 40, 70000), l)
	}
	c.Quiet = rapid.Bool().Draw(t, "quiet")
	if max := core.Long(t, 0, 3000); max > 0 {
		c.Times, c.Quiet = core.LongSize(t, "xstring", max, "times"), true
	}
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "opts"); i < n; i++ {
		o := jopt{Kind: rapid.SampledFrom([]string{"step", "prefix", "suffix", "all", "step"}).Draw(t, "kind"), A: piece("a")}
		if o.Kind == "all" {
			o.B, o.C = piece("b"), piece("c")
		}
		c.Opts = append(c.Opts, o)
	}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) jop {
		o := jop{Op: rapid.SampledFrom([]string{"str", "str", "write", "byte", "rune", "grow", "reset", "read"}).Draw(t, "op")}
		switch o.Op {
		case "str", "write":
			o.S = piece("s")
		case "byte":
			o.N = int(rapid.Byte().Draw(t, "byte"))
		case "rune":
			o.R = rapid.SampledFrom(al).Draw(t, "r")
			if rapid.IntRange(0, 15).Draw(t, "badrune") == 0 {
				o.R = rapid.SampledFrom([]int32{-1, 0xd800, 0x110000, 1 << 30}).Draw(t, "br")
			}
		case "grow":
			o.N = core.Int(t, pkg, 0, 300, "n")
			if max := core.Long(t, 0, 1<<20); max > 0 {
				o.N = core.LongSize(t, "xstring", max, "n")
			}
		}
		return o
	}), 0, 24).Draw(t, "ops")
	return c
}

func runJoiner(_ *testing.T, c jcase, r *core.Rec) error {
	var prefix, step, suffix string
	var opts []gs.JoinerOption
	for _, o := range c.Opts {
		switch o.Kind {
		case "step":
			opts, step = append(opts, gs.WithJoinerStep(string(o.A))), string(o.A)
		case "prefix":
			opts, prefix = append(opts, gs.WithJoinerPrefix(string(o.A))), string(o.A)
		case "suffix":
			opts, suffix = append(opts, gs.WithJoinerSuffix(string(o.A))), string(o.A)
		case "all":
			opts, prefix, step, suffix = append(opts, gs.WithJoiner(string(o.A), string(o.B), string(o.C))), string(o.A), string(o.B), string(o.C)
		}
	}
	j := gs.NewJoiner(opts...)
	var pieces []string
	type taken struct{ got, want string }
	var seen []taken
	writes, specials := 0, 0
	ops := c.Ops
	size := 0
	for _, o := range c.Ops {
		size += len(o.S) + 1
	}
	if size > 0 && size < 2000 {
		ops = append([]jop(nil), ops...)
		for i := 1; i < c.Times && len(ops) < 20000; i++ {
			ops = append(ops, c.Ops...)
		}
	}
	for i, o := range ops {
		wrote := -1
		var n int
		var err error
		switch o.Op {
		case "str":
			n, err = j.WriteString(string(o.S))
			pieces = append(pieces, string(o.S))
			wrote = len(o.S)
		case "write":
			b := []byte(o.S)
			n, err = j.Write(b)
			for k := range b {
				b[k] ^= 0x55 // the joiner must have copied it
			}
			pieces = append(pieces, string(o.S))
			wrote = len(o.S)
		case "byte":
			err = j.WriteByte(byte(o.N))
			pieces = append(pieces, string([]byte{byte(o.N)}))
			n, wrote = 1, 1
		case "rune":
			n, err = j.WriteRune(o.R)
			s := string(o.R)
			pieces = append(pieces, s)
			wrote = len(s)
		case "grow":
			if i > 3*len(c.Ops) {
				continue
			}
			j.Grow(o.N)
			if free := j.Cap() - j.Len(); free < o.N {
				return core.Errf("op %d: after Grow(%d) only %d bytes of room", i, o.N, free)
			}
			specials++
		case "reset":
			j.Reset()
			pieces = nil
			specials++
		}
		if wrote >= 0 {
			writes++
			if err != nil || n != wrote {
				return core.Errf("op %d %s: wrote %d bytes, reported %d, %v", i, o.Op, wrote, n, err)
			}
		}
		if c.Quiet && i != len(ops)-1 && (o.Op != "read" || i > 3*len(c.Ops)) {
			continue
		}
		want := prefix + strings.Join(pieces, step) + suffix
		for k := 0; k < 2; k++ {
			if got := j.String(); got != want {
				return core.Errf("op %d %s: String() = %q, want %q", i, o.Op, got, want)
			}
			if l := j.Len(); l != len(want) {
				return core.Errf("op %d %s: Len() = %d, string has %d bytes", i, o.Op, l, len(want))
			}
			if cp := j.Cap(); cp < len(want) {
				return core.Errf("op %d %s: Cap() = %d below length %d", i, o.Op, cp, len(want))
			}
		}
		seen = append(seen, taken{j.String(), strings.Clone(want)})
	}
	if len(c.Ops) == 0 && (j.String() != prefix+suffix || j.Len() != len(prefix+suffix) || j.Cap() < j.Len()) {
		return core.Errf("fresh joiner: %q len %d cap %d, want %q", j.String(), j.Len(), j.Cap(), prefix+suffix)
	}
	for _, s := range seen {
		if s.got != s.want {
			return core.Errf("a string taken earlier changed: %q, was %q", s.got, s.want)
		}
	}
	r.NonTrivial(writes >= 2 && step != "")
	r.LabelIf(specials > 0 && writes > 0, "grow or reset between writes")
	r.LabelIf(multi(step+prefix+suffix), "multi-byte options")
	return nil
}

func TestC25_P_Joiner(t *testing.T) {
	core.Check(t, core.Prop[jcase]{
		Rule:  "options in any order and up to 24 writes, grows, resets and reads against a list of pieces, reading after every one or only where drawn; non-trivial: at least two writes and a separator",
		Quick: 120000, Thorough: 4000000, Gen: genJoiner, Run: runJoiner,
	})
}
