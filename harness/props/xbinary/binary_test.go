package xbinary

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/chenquan/go-pkg/xbinary"
	"github.com/chenquan/go-pkg/xbytes"
	"pgregory.net/rapid"
	"verif/core"
	"verif/sched"
)

// Val is one encoded value.
type Val struct {
	T string // bool, u16, u32, bytes
	N uint32 `json:",omitempty"` // value; bytes: seed of the content
	L int    `json:",omitempty"` // bytes: length
}

func (v Val) bytes() []byte {
	if v.L == 0 {
		if v.N%2 == 0 {
			return nil
		}
		return []byte{}
	}
	b := make([]byte, v.L)
	x := v.N
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

// encoded is the wire format.
func (v Val) encoded() []byte {
	switch v.T {
	case "bool":
		return []byte{byte(v.N % 2)}
	case "u16":
		return binary.BigEndian.AppendUint16(nil, uint16(v.N))
	case "u32":
		return binary.BigEndian.AppendUint32(nil, v.N)
	}
	if v.L > 65535 {
		return nil
	}
	return append(binary.BigEndian.AppendUint16(nil, uint16(v.L)), v.bytes()...)
}

func (v Val) write(w io.Writer) (err error, changed bool) {
	switch v.T {
	case "bool":
		return xbinary.WriteBool(w, v.N%2 == 1), false
	case "u16":
		return xbinary.WriteUint16(w, uint16(v.N)), false
	case "u32":
		return xbinary.WriteUint32(w, v.N), false
	}
	b := v.bytes()
	err = xbinary.WriteBytes(w, b)
	return err, !bytes.Equal(b, v.bytes())
}

// read decodes one value. zero tells whether the result is the zero value.
func (v Val) read(r io.Reader) (same, zero bool, got interface{}, err error) {
	switch v.T {
	case "bool":
		b, err := xbinary.ReadBool(r)
		return b == (v.N%2 == 1), !b, b, err
	case "u16":
		n, err := xbinary.ReadUint16(r)
		return n == uint16(v.N), n == 0, n, err
	case "u32":
		n, err := xbinary.ReadUint32(r)
		return n == v.N, n == 0, n, err
	}
	b, err := xbinary.ReadBytes(r)
	return bytes.Equal(b, v.bytes()), b == nil, b, err
}

func show(x interface{}) string {
	if b, ok := x.([]byte); ok && len(b) > 24 {
		return fmt.Sprintf("%x... (%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%v", x)
}

// ------------------------------------------------------------------- C22

type Case struct {
	Vals   []Val
	Stream string // what carries the bytes
}

// meter is a plain writer.
type meter struct{ b []byte }

func (m *meter) Write(p []byte) (int, error) {
	m.b = append(m.b, p...)
	return len(p), nil
}

// counted is a plain reader.
type counted struct {
	b   []byte
	pos int
}

func (c *counted) Read(p []byte) (int, error) {
	if c.pos == len(c.b) {
		return 0, io.EOF
	}
	n := copy(p, c.b[c.pos:])
	c.pos += n
	return n, nil
}

// busy is a stream that encodes and decodes values of its own while it is
// being written or read: a framing, checksumming or logging stream.
type busy struct {
	meter
	src *counted
	bad error
}

func (b *busy) own(n int) {
	for i := 0; i < 2; i++ {
		var m meter
		v := []Val{{T: "bool", N: uint32(i)}, {T: "u16", N: 0xa55a}, {T: "u32", N: 0x5aa5c33c}, {T: "bytes", N: 77, L: min(n, 4096)}}
		for _, x := range v {
			if err, _ := x.write(&m); err != nil {
				b.bad = fmt.Errorf("a stream's own write of %+v: %v", x, err)
			}
		}
		in := &counted{b: m.b}
		for _, x := range v {
			if same, _, got, err := x.read(in); err != nil || !same {
				b.bad = fmt.Errorf("a stream's own value %+v is read back as %s, error %v", x, show(got), err)
			}
		}
	}
}

func (b *busy) Write(p []byte) (int, error) {
	b.own(len(p))
	return b.meter.Write(p)
}

func (b *busy) Read(p []byte) (int, error) {
	n, err := b.src.Read(p)
	b.own(len(p))
	return n, err
}

func runTrip(t *testing.T, c Case, r *core.Rec) error {
	var w io.Writer
	var own *busy
	var written func() []byte
	var rd func(b []byte) (io.Reader, func() int) // reader and what remains
	switch c.Stream {
	case "buffer":
		b := &bytes.Buffer{}
		w, written = b, b.Bytes
		rd = func(x []byte) (io.Reader, func() int) { n := bytes.NewBuffer(x); return n, n.Len }
	case "bufio":
		m := &meter{}
		bw := bufio.NewWriterSize(m, 64)
		w, written = bw, func() []byte { bw.Flush(); return m.b }
		rd = func(x []byte) (io.Reader, func() int) {
			k := &counted{b: x}
			b := bufio.NewReaderSize(k, 64)
			return b, func() int { return len(x) - k.pos + b.Buffered() }
		}
	case "busy":
		m := &busy{}
		own = m
		w, written = m, func() []byte { return m.b }
		rd = func(x []byte) (io.Reader, func() int) {
			m.src = &counted{b: x}
			return m, func() int { return len(x) - m.src.pos }
		}
	case "reader":
		m := &meter{}
		w, written = m, func() []byte { return m.b }
		rd = func(x []byte) (io.Reader, func() int) { n := bytes.NewReader(x); return n, n.Len }
	default:
		m := &meter{}
		w, written = m, func() []byte { return m.b }
		rd = func(x []byte) (io.Reader, func() int) {
			k := &counted{b: x}
			return k, func() int { return len(x) - k.pos }
		}
	}
	var want []byte
	var vals []Val
	for i, v := range c.Vals {
		err, changed := v.write(w)
		if changed {
			return fmt.Errorf("value %d (%+v): writing changed the byte string", i, v)
		}
		if v.T == "bytes" && v.L > 65535 {
			if err == nil {
				return fmt.Errorf("value %d: a byte string of %d bytes is accepted", i, v.L)
			}
			if n := len(written()); n != len(want) {
				return fmt.Errorf("value %d: a refused byte string of %d bytes leaves %d bytes", i, v.L, n-len(want))
			}
			r.Label("refused")
			continue
		}
		if err != nil {
			return fmt.Errorf("value %d (%+v): write error %v", i, v, err)
		}
		e := v.encoded()
		got := written()
		if len(got) != len(want)+len(e) || !bytes.Equal(got[len(want):], e) {
			return fmt.Errorf("value %d (%+v) is written as %s, not %s", i, v, show(got[len(want):]), show(e))
		}
		want = append(want, e...)
		vals = append(vals, v)
	}
	wire := append([]byte(nil), written()...)
	if !bytes.Equal(wire, want) {
		return fmt.Errorf("the stream is %s, not %s", show(wire), show(want))
	}
	in, remain := rd(wire)
	left := len(wire)
	var kept [][]byte
	for i, v := range vals {
		same, _, got, err := v.read(in)
		if err != nil || !same {
			return fmt.Errorf("value %d (%+v) is read back as %s, error %v", i, v, show(got), err)
		}
		if b, ok := got.([]byte); ok {
			kept = append(kept, b)
		}
		left -= len(v.encoded())
		if remain() != left {
			return fmt.Errorf("reading value %d (%+v) consumed %d bytes, its write produced %d", i, v, left+len(v.encoded())-remain(), len(v.encoded()))
		}
	}
	if own != nil && own.bad != nil {
		return own.bad
	}
	k := 0
	for i, v := range vals {
		if v.T == "bytes" {
			if !bytes.Equal(kept[k], v.bytes()) {
				return fmt.Errorf("the byte string read as value %d was changed by later reads", i)
			}
			k++
		}
	}
	r.NonTrivial(len(vals) >= 2)
	for _, v := range vals {
		r.Label("type:%s", v.T)
		r.LabelIf(v.T == "bytes" && v.L == 65535, "longest byte string")
		r.LabelIf(v.T == "bytes" && v.L == 0, "empty byte string")
	}
	return nil
}

func genVal(t *rapid.T, long bool) Val {
	v := Val{T: rapid.SampledFrom([]string{"bool", "u16", "u32", "bytes", "bytes"}).Draw(t, "type")}
	switch v.T {
	case "bool":
		v.N = uint32(core.Uni(t, 0, 1, "b"))
	case "u16":
		switch core.Uni(t, 0, 2, "kind") {
		case 0:
			v.N = rapid.SampledFrom([]uint32{0, 1, 127, 128, 255, 256, 257, 0x7fff, 0x8000, 0xff00, 0xffff}).Draw(t, "v")
		default:
			v.N = uint32(rapid.Uint16().Draw(t, "v"))
		}
	case "u32":
		switch core.Uni(t, 0, 2, "kind") {
		case 0:
			v.N = rapid.SampledFrom([]uint32{0, 1, 255, 256, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 0x01020304, 0xff00ff00}).Draw(t, "v")
		default:
			v.N = rapid.Uint32().Draw(t, "v")
		}
	case "bytes":
		v.N = rapid.Uint32().Draw(t, "seed")
		v.L = rapid.IntRange(0, 40).Draw(t, "len")
		if long {
			switch core.Uni(t, 0, 9, "long") {
			case 7:
				v.L = rapid.SampledFrom([]int{254, 255, 256, 257, 511, 512, 4096, 32767, 32768, 65279, 65280, 65281, 65534, 65535}).Draw(t, "len")
			case 8:
				v.L = core.Int(t, "xbinary", 0, 65535, "len")
			case 9:
				v.L = rapid.SampledFrom([]int{65536, 65537, 65540, 70000, 131071, 131072, 131077}).Draw(t, "len")
			}
		}
	}
	return v
}

func TestC22_P_RoundTrip(t *testing.T) {
	core.Check(t, core.Prop[Case]{
		Rule:  "sequences of up to 12 booleans, integers and byte strings (0-65535 bytes, and refused longer ones) on various streams (one of them encodes values of its own while being written or read); bytes compared with the wire format, values, consumption and earlier results compared with what was written; non-trivial: two or more values",
		Quick: 60000, Thorough: 1500000,
		Gen: func(t *rapid.T) Case {
			c := Case{Stream: rapid.SampledFrom([]string{"plain", "plain", "buffer", "bufio", "reader", "busy"}).Draw(t, "stream")}
			for i, n := 0, core.Uni(t, 1, 12, "n"); i < n; i++ {
				c.Vals = append(c.Vals, genVal(t, true))
			}
			return c
		},
		Run: runTrip,
	})
}

func TestC22_P_Integers(t *testing.T) {
	core.Check(t, core.Prop[Case]{
		Rule:  "one 16- or 32-bit integer, all values equally likely; non-trivial: all",
		Quick: 300000, Thorough: 8000000,
		Gen: func(t *rapid.T) Case {
			v := Val{T: rapid.SampledFrom([]string{"u16", "u32"}).Draw(t, "type"), N: uint32(rapid.Uint64().Draw(t, "v") * 0x9e3779b97f4a7c15 >> 32)}
			return Case{Vals: []Val{v}, Stream: "plain"}
		},
		Run: func(t *testing.T, c Case, r *core.Rec) error {
			r.NonTrivial(true)
			return runTrip(t, c, r)
		},
	})
}

// ------------------------------------------------------------------- C23

// FragCase decodes a stream that arrives in pieces and possibly ends early.
type FragCase struct {
	Vals   []Val
	Pieces []int  // sizes of the reads, repeated; 0: a read without data
	End    string // eof, eofdata (with the last data), error
	Cut    int    // bytes that arrive; -1: all
	Stream string `json:",omitempty"` // the reader between: empty: none
}

// between returns the reader the values are decoded from, and what its owner
// does with the memory of the stream afterwards.
func (f *frag) between(t *testing.T) (r io.Reader, reuse func(), err error) {
	reuse = func() {
		for i := range f.b {
			f.b[i] ^= 0xff
		}
	}
	switch f.c.Stream {
	case "bytesbuffer":
		b := bytes.NewBuffer(f.b)
		reuse = func() {
			n := b.Cap()
			b.Reset()
			for i := 0; i < n; i++ {
				b.WriteByte(0xC3)
			}
		}
		return b, reuse, nil
	case "bytesreader":
		return bytes.NewReader(f.b), reuse, nil
	case "stringsreader":
		return strings.NewReader(string(f.b)), reuse, nil
	case "bufio", "bufiobig":
		size := 16
		if f.c.Stream == "bufiobig" {
			size = 1 << 17
		}
		b := bufio.NewReaderSize(f, size)
		reuse = func() {
			b.Reset(&frag{b: bytes.Repeat([]byte{0xC3}, 2*size)})
			for i := 0; i < 2; i++ {
				_, _ = b.Peek(size)
				_, _ = b.Discard(size)
			}
		}
		return b, reuse, nil
	case "limited":
		// a longer stream, of which only the values are visible
		g := &frag{c: FragCase{Pieces: f.c.Pieces, End: f.c.End}, b: append(append([]byte(nil), f.b...), 1, 1, 1, 1, 1, 1, 1, 1)}
		return io.LimitReader(g, int64(len(f.b))), reuse, nil
	case "section":
		g := append(append([]byte{9, 9, 9}, f.b...), 1, 1, 1, 1, 1, 1, 1, 1)
		return io.NewSectionReader(bytes.NewReader(g), 3, int64(len(f.b))), reuse, nil
	case "multi":
		h := len(f.b) / 2
		return io.MultiReader(bytes.NewReader(f.b[:h]), bytes.NewReader(nil), bytes.NewReader(f.b[h:])), reuse, nil
	case "tee":
		return io.TeeReader(f, &meter{}), reuse, nil
	case "file":
		p := filepath.Join(t.TempDir(), "values")
		if err := os.WriteFile(p, f.b, 0o600); err != nil {
			return nil, nil, err
		}
		file, err := os.Open(p)
		return file, func() { file.Close() }, err
	}
	return f, reuse, nil
}

// streams are the readers between; the last are rare.
var streams = []string{"", "", "", "bytesbuffer", "bytesreader", "stringsreader", "bufio", "bufiobig", "limited", "section", "multi", "tee"}

var errBroken = errors.New("the stream is broken")

type frag struct {
	c   FragCase
	b   []byte
	pos int
	k   int
}

func (f *frag) end() error {
	if f.c.End == "error" {
		return errBroken
	}
	return io.EOF
}

func (f *frag) Read(p []byte) (int, error) {
	if f.pos == len(f.b) {
		return 0, f.end()
	}
	n := len(p)
	if len(f.c.Pieces) > 0 {
		n = f.c.Pieces[f.k%len(f.c.Pieces)]
		f.k++
	}
	n = min(n, len(p), len(f.b)-f.pos)
	copy(p, f.b[f.pos:f.pos+n])
	f.pos += n
	if f.pos == len(f.b) && n > 0 && f.c.End == "eofdata" {
		return n, io.EOF
	}
	return n, nil
}

func runFrag(t *testing.T, c FragCase, r *core.Rec) error {
	var wire []byte
	for _, v := range c.Vals {
		wire = append(wire, v.encoded()...)
	}
	if c.Cut >= 0 && c.Cut < len(wire) {
		wire = wire[:c.Cut]
	}
	f := &frag{c: c, b: wire}
	in, reuse, err := f.between(t)
	if err != nil {
		t.Fatal(err)
	}
	at := 0
	type keptBytes struct {
		got, want []byte
		i         int
	}
	var kept []keptBytes
	split := false
	for i, v := range c.Vals {
		n := len(v.encoded())
		reads := f.k
		same, zero, got, err := v.read(in)
		split = split || f.k-reads > 1
		if at+n <= len(wire) {
			if err != nil || !same {
				return fmt.Errorf("value %d (%+v), whole in the stream, is read as %s, error %v", i, v, show(got), err)
			}
			if b, ok := got.([]byte); ok {
				kept = append(kept, keptBytes{b, v.bytes(), i})
			}
			at += n
			continue
		}
		if err == nil {
			return fmt.Errorf("value %d (%+v), of which %d of %d bytes arrive, is read as %s without an error", i, v, len(wire)-at, n, show(got))
		}
		if !zero {
			return fmt.Errorf("value %d (%+v), of which %d of %d bytes arrive, gives error %v and the value %s", i, v, len(wire)-at, n, err, show(got))
		}
		broken := c.End == "error" && (c.Stream == "" || c.Stream == "bufio" || c.Stream == "bufiobig" || c.Stream == "tee")
		switch {
		case broken && !errors.Is(err, errBroken):
			return fmt.Errorf("the stream fails at value %d with %q, but the read reports %q", i, errBroken, err)
		case !broken && at == len(wire) && !errors.Is(err, io.EOF):
			return fmt.Errorf("the stream ends before value %d, but the read reports %q, not io.EOF", i, err)
		case !broken && at < len(wire) && errors.Is(err, io.EOF):
			return fmt.Errorf("value %d (%+v), of which %d of %d bytes arrive, is reported as io.EOF: as if the stream had ended before it", i, v, len(wire)-at, n)
		}
		r.LabelIf(at < len(wire), "ends inside a value")
		r.LabelIf(at == len(wire), "ends between values")
		break
	}
	// Later uses of the stream and of the byte pool leave what was decoded alone.
	reuse()
	for _, k := range kept {
		for j := 0; j < 2; j++ {
			b := xbytes.MallocSize(cap(k.got))
			for x := range b {
				b[x] = 0xA5
			}
			if j == 1 {
				xbytes.Free(b)
			}
		}
	}
	_ = xbinary.WriteUint32(&meter{}, 0xffffffff)
	for _, k := range kept {
		if !bytes.Equal(k.got, k.want) {
			return fmt.Errorf("the byte string decoded as value %d was changed by later operations", k.i)
		}
	}
	r.LabelIf(split, "a value split over several reads")
	r.Label("reader:%s", c.Stream)
	r.NonTrivial(split || c.Cut >= 0)
	return nil
}

func TestC23_P_Fragments(t *testing.T) {
	core.Check(t, core.Prop[FragCase]{
		Rule:  "sequences of values arriving, directly or through one of nine readers of the standard library, in pieces of drawn sizes (single bytes, empty reads, data with the end of the stream) and ending anywhere, with an end or an error; values compared with the whole ones, results kept and compared again after later operations; non-trivial: a value split over several reads, or a truncated stream",
		Quick: 120000, Thorough: 4000000,
		Gen: func(t *rapid.T) FragCase {
			c := FragCase{Cut: -1, End: rapid.SampledFrom([]string{"eof", "eofdata", "error"}).Draw(t, "end")}
			total := 0
			for i, n := 0, core.Uni(t, 1, 6, "n"); i < n; i++ {
				v := genVal(t, core.Uni(t, 0, 5, "long") == 5)
				if v.L > 65535 {
					v.L = 65535
				}
				c.Vals = append(c.Vals, v)
				total += len(v.encoded())
			}
			for i, n := 0, core.Uni(t, 0, 4, "pieces"); i < n; i++ {
				p := rapid.IntRange(0, 5).Draw(t, "piece")
				if total > 500 && core.Uni(t, 0, 2, "bigpiece") > 0 {
					p = rapid.IntRange(100, 40000).Draw(t, "piece")
				}
				c.Pieces = append(c.Pieces, p)
			}
			c.Stream = rapid.SampledFrom(streams).Draw(t, "stream")
			if core.Uni(t, 0, 400, "file") == 200 {
				c.Stream = "file"
			}
			ok := false
			for _, p := range c.Pieces {
				ok = ok || p > 0
			}
			if !ok && len(c.Pieces) > 0 {
				c.Pieces = append(c.Pieces, 1)
			}
			if rapid.Bool().Draw(t, "cut") {
				if rapid.Bool().Draw(t, "nearend") {
					c.Cut = max(0, total-rapid.IntRange(1, 6).Draw(t, "missing"))
				} else {
					c.Cut = rapid.IntRange(0, max(0, total-1)).Draw(t, "at")
				}
			}
			return c
		},
		Run: runFrag,
	})
}

// FailCase writes to a destination that fails.
type FailCase struct {
	Vals  []Val
	After int  // bytes accepted before the failure
	Calls int  // or: number of writes accepted (-1: no limit)
	Short bool // accepts a part of the failing write
	Rich  bool `json:",omitempty"` // the destination also takes single bytes, strings and readers
	Own   int  `json:",omitempty"` // 0: fails with an error of its own, else one of the errors of package io
}

type failing struct {
	c      FailCase
	n      int
	calls  int
	failed bool
}

func (f *failing) Write(p []byte) (int, error) {
	f.calls++
	if f.c.Calls >= 0 && f.calls > f.c.Calls {
		f.failed = true
		return 0, f.err()
	}
	if f.c.Calls < 0 && f.n+len(p) > f.c.After {
		f.failed = true
		k := 0
		if f.c.Short {
			k = max(0, f.c.After-f.n)
		}
		f.n += k
		return k, f.err()
	}
	f.n += len(p)
	return len(p), nil
}

func (f *failing) err() error {
	return []error{errBroken, io.EOF, io.ErrShortWrite, io.ErrClosedPipe, io.ErrUnexpectedEOF, io.ErrNoProgress, xbinary.ErrInvalidLength}[f.c.Own]
}

// rich is a destination with the other write methods of buffers and files.
type rich struct{ failing }

func (r *rich) WriteByte(b byte) error {
	_, err := r.Write([]byte{b})
	return err
}

func (r *rich) WriteString(s string) (int, error) { return r.Write([]byte(s)) }

func (r *rich) ReadFrom(in io.Reader) (int64, error) {
	b, err := io.ReadAll(in)
	if err != nil {
		return 0, err
	}
	n, err := r.Write(b)
	return int64(n), err
}

func (r *rich) Flush() error { return nil }

func runFail(t *testing.T, c FailCase, r *core.Rec) error {
	d := &rich{failing{c: c}}
	f := &d.failing
	var w io.Writer = f
	if c.Rich {
		w = d
	}
	for i, v := range c.Vals {
		f.failed = false
		err, changed := v.write(w)
		if changed {
			return fmt.Errorf("value %d (%+v): writing changed the byte string", i, v)
		}
		if f.failed {
			r.NonTrivial(true)
			r.Label("failed on:%s", v.T)
			if err == nil {
				return fmt.Errorf("value %d (%+v): the destination failed, the write reports success", i, v)
			}
			if !errors.Is(err, f.err()) {
				return fmt.Errorf("value %d (%+v): the destination failed with %q, the write reports %q", i, v, f.err(), err)
			}
		} else if err != nil {
			return fmt.Errorf("value %d (%+v): the destination accepted everything, the write reports %q", i, v, err)
		}
	}
	return nil
}

func TestC23_P_FailingWrites(t *testing.T) {
	core.Check(t, core.Prop[FailCase]{
		Rule:  "sequences of values written to a destination that fails after some bytes or some writes, accepting a part or nothing of the failing write; each write reports exactly whether its destination failed; non-trivial: a write failed",
		Quick: 60000, Thorough: 2000000,
		Gen: func(t *rapid.T) FailCase {
			c := FailCase{Calls: -1, Short: rapid.Bool().Draw(t, "short"), Rich: rapid.Bool().Draw(t, "rich")}
			if core.Uni(t, 0, 2, "own") == 2 {
				c.Own = core.Uni(t, 1, 6, "err")
			}
			total := 0
			for i, n := 0, core.Uni(t, 1, 5, "n"); i < n; i++ {
				v := genVal(t, core.Uni(t, 0, 9, "long") == 9)
				if v.L > 65535 {
					v.L = 65535
				}
				c.Vals = append(c.Vals, v)
				total += len(v.encoded())
			}
			if core.Uni(t, 0, 2, "bycalls") == 0 {
				c.Calls = rapid.IntRange(0, 6).Draw(t, "calls")
			} else {
				c.After = rapid.IntRange(0, max(0, total-1)).Draw(t, "after")
			}
			return c
		},
		Run: runFail,
	})
}

// ConcCase runs encoders and decoders side by side.
type ConcCase struct {
	Plan    sched.Plan
	Callers [][]Val
	Pieces  [][]int
}

// slowly lets others run during every access to the stream.
type slowly struct {
	ctl *sched.Ctl
	frag
	out []byte
}

func (s *slowly) Write(p []byte) (int, error) {
	s.ctl.Point()
	s.out = append(s.out, p...)
	s.ctl.Point()
	return len(p), nil
}

func (s *slowly) Read(p []byte) (int, error) {
	s.ctl.Point()
	n, err := s.frag.Read(p)
	s.ctl.Point()
	return n, err
}

func runConc(t *testing.T, c ConcCase, r *core.Rec) error {
	n := len(c.Callers)
	errs := make([]error, n)
	decided, err := core.Concurrent(t, c.Plan, r, func(ctl *sched.Ctl) {
		done := make(chan struct{}, n)
		for i := range c.Callers {
			i := i
			ctl.Go(fmt.Sprint("caller ", i), func() {
				defer func() { done <- struct{}{} }()
				s := &slowly{ctl: ctl, frag: frag{c: FragCase{Pieces: c.Pieces[i], End: "eof"}}}
				var want []byte
				for k, v := range c.Callers[i] {
					err, changed := v.write(s)
					if err != nil || changed {
						errs[i] = fmt.Errorf("caller %d, value %d (%+v): write error %v, changed its input: %v", i, k, v, err, changed)
						return
					}
					want = append(want, v.encoded()...)
					if !bytes.Equal(s.out, want) {
						errs[i] = fmt.Errorf("caller %d: its stream is %s after value %d, not %s", i, show(s.out), k, show(want))
						return
					}
				}
				s.b = s.out
				var kept [][]byte
				for k, v := range c.Callers[i] {
					same, _, got, err := v.read(s)
					if err != nil || !same {
						errs[i] = fmt.Errorf("caller %d: value %d (%+v) is read back as %s, error %v", i, k, v, show(got), err)
						return
					}
					if b, ok := got.([]byte); ok {
						kept = append(kept, b)
					} else {
						kept = append(kept, nil)
					}
				}
				ctl.Point()
				for k, v := range c.Callers[i] {
					if v.T == "bytes" && !bytes.Equal(kept[k], v.bytes()) {
						errs[i] = fmt.Errorf("caller %d: the byte string decoded as value %d was changed by other operations", i, k)
					}
				}
			})
		}
		for range c.Callers {
			<-done
		}
	})
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	if err != nil || !decided {
		return err
	}
	r.NonTrivial(n >= 2)
	return nil
}

func genConc(free bool) func(t *rapid.T) ConcCase {
	return func(t *rapid.T) ConcCase {
		c := ConcCase{Plan: core.Free}
		hi := 10
		if !free {
			c.Plan = core.Plan(t)
			hi = 4
		}
		for i, n := 0, core.Uni(t, 2, 4, "callers"); i < n; i++ {
			var l []Val
			for k, m := 0, core.Uni(t, 1, hi, "n"); k < m; k++ {
				v := genVal(t, false)
				if v.T == "bytes" {
					v.L = rapid.SampledFrom([]int{0, 1, 2, 4, 4, 9, 30}).Draw(t, "len")
				}
				l = append(l, v)
			}
			c.Callers = append(c.Callers, l)
			var p []int
			for k, m := 0, core.Uni(t, 0, 2, "pieces"); k < m; k++ {
				p = append(p, rapid.IntRange(1, 4).Draw(t, "piece"))
			}
			c.Pieces = append(c.Pieces, p)
		}
		return c
	}
}

const concRule = "2-4 callers each write a sequence of values to their own stream and read it back, others running between any two steps; non-trivial: two or more callers"

func TestC23_S_Callers(t *testing.T) {
	core.Check(t, core.Prop[ConcCase]{
		Rule:  "controlled interleavings: " + concRule,
		Quick: 20000, Thorough: 600000, Gen: genConc(false), Run: runConc,
	})
}

func TestC23_R_Callers(t *testing.T) {
	core.Check(t, core.Prop[ConcCase]{
		Rule:  "real parallelism under the race detector: " + concRule,
		Quick: 10000, Thorough: 200000, Gen: genConc(true), Run: runConc,
	})
}
