package xio

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/chenquan/go-pkg/xio"
	"pgregory.net/rapid"
	"verif/core"
	"verif/sched"
)

const defaultSize = 4096

// Op is one step of a history over pooled readers or writers.
type Op struct {
	Op    string // get, read, put, foreign, ...
	S     int    `json:",omitempty"` // stream
	At    int    `json:",omitempty"` // which reader/writer in use
	Size  int    `json:",omitempty"` // -100: without a size
	N     int    `json:",omitempty"`
	Kind  string `json:",omitempty"`
	Flush bool   `json:",omitempty"`
}

const noSize = -100

// Stream describes an underlying stream.
type Stream struct {
	Len   int
	Chunk int  // bytes per read (0: as many as asked for)
	Fail  int  `json:",omitempty"` // fails at this position instead of ending (or accepting)
	Wrap  int  `json:",omitempty"` // the stream is itself a buffered one of this size
	Pool  bool `json:",omitempty"` // and that one came from the pool, too
}

func at(stream, pos int) byte { return byte(stream*71 + pos*7 + pos/251) }

// ------------------------------------------------------------- readers

type source struct {
	id   int
	s    Stream
	pos  int
	err  error
	mine *bufio.Reader // the caller's own buffered reader around it
	user int           // users at once
}

func (s *source) Read(p []byte) (int, error) {
	if s.s.Fail > 0 && s.pos >= s.s.Fail {
		return 0, s.err
	}
	end := s.s.Len
	if s.s.Fail > 0 && s.s.Fail < end {
		end = s.s.Fail
	}
	if s.pos >= end {
		return 0, io.EOF
	}
	n := min(len(p), end-s.pos)
	if s.s.Chunk > 0 {
		n = min(n, s.s.Chunk)
	}
	for i := 0; i < n; i++ {
		p[i] = at(s.id, s.pos+i)
	}
	s.pos += n
	return n, nil
}

// stream is what is passed to the pool.
func (s *source) stream() io.Reader {
	if s.mine != nil {
		return s.mine
	}
	return s
}

// where is the position of the next byte that stream() gives.
func (s *source) where() int {
	if s.mine != nil {
		return s.pos - s.mine.Buffered()
	}
	return s.pos
}

// end is where the data ends, and how.
func (s *source) end() (int, error) {
	if s.s.Fail > 0 && s.s.Fail <= s.s.Len {
		return s.s.Fail, s.err
	}
	if s.s.Fail > 0 {
		// the failure lies past the end of the data
		return s.s.Len, io.EOF
	}
	return s.s.Len, io.EOF
}

type rd struct {
	b    *bufio.Reader
	src  *source
	pos  int // next byte expected
	read bool
}

// readers is one caller's history.
type readers struct {
	name string
	srcs []*source
	use  []*rd
	own  func(b *bufio.Reader, who string) error // claim, shared between callers
	drop func(b *bufio.Reader)
	used map[*bufio.Reader]bool
	hits int
	open int
}

func newSources(list []Stream, from int) []*source {
	var r []*source
	for i, s := range list {
		src := &source{id: from + i, s: s, err: fmt.Errorf("stream %d fails", from+i)}
		if s.Wrap > 0 {
			src.mine = bufio.NewReaderSize(src, s.Wrap)
			if s.Pool {
				src.mine = xio.GetBufferReaderSize(src, s.Wrap)
			}
		}
		r = append(r, src)
	}
	return r
}

func (h *readers) step(i int, o Op) error {
	fail := func(format string, a ...interface{}) error {
		return fmt.Errorf("%sstep %d (%s): %s", h.name, i, o.Op, fmt.Sprintf(format, a...))
	}
	if o.Op == "foreign" {
		size := max(o.Size, 1)
		b := bufio.NewReaderSize(strings.NewReader(strings.Repeat("foreign", 1+o.N%20)), size)
		if o.N%2 == 0 {
			_, _ = b.ReadByte()
		}
		xio.PutBufferReader(b)
		return nil
	}
	if o.Op == "get" {
		src := h.srcs[o.S%len(h.srcs)]
		if src.user > 0 {
			return nil // one user per stream, or its position would be unknown
		}
		var b *bufio.Reader
		want := o.Size
		if o.Size == noSize {
			b, want = xio.GetBufferReader(src.stream()), defaultSize
		} else {
			b = xio.GetBufferReaderSize(src.stream(), o.Size)
		}
		if b == nil {
			return fail("got no reader")
		}
		if b.Size() < want {
			return fail("the buffer has size %d, %d was requested", b.Size(), want)
		}
		if src.mine != nil && b == src.mine {
			return fail("got the caller's own reader")
		}
		for _, s := range h.srcs {
			if b == s.mine {
				return fail("got a reader that the caller made and never put back")
			}
		}
		if err := h.own(b, h.name); err != nil {
			return fail("%v", err)
		}
		if h.used[b] {
			h.hits++
		}
		if b.Buffered() != 0 {
			return fail("the new reader has %d buffered bytes", b.Buffered())
		}
		src.user++
		h.use = append(h.use, &rd{b: b, src: src, pos: src.where()})
		return nil
	}
	if len(h.use) == 0 {
		return nil
	}
	k := o.At % len(h.use)
	x := h.use[k]
	end, endErr := x.src.end()
	left := max(0, end-x.pos)
	expect := func(got []byte) error {
		for j, c := range got {
			if x.pos+j >= end || c != at(x.src.id, x.pos+j) {
				return fail("byte %d of stream %d is wrong: got %d", x.pos+j, x.src.id, c)
			}
		}
		return nil
	}
	switch o.Op {
	case "read":
		n := max(1, o.N)
		buf := make([]byte, n)
		var got int
		var err error
		switch o.Kind {
		case "byte":
			buf[0], err = x.b.ReadByte()
			if err == nil {
				got = 1
			}
			n = 1
		case "one":
			got, err = x.b.Read(buf)
			if got > 0 && err != nil {
				return fail("read %d bytes and error %v", got, err)
			}
			if err == nil {
				n = got
			}
		case "peek":
			n = min(n, x.b.Size())
			var p []byte
			p, err = x.b.Peek(n)
			if e := expect(p); e != nil {
				return e
			}
			if len(p) != min(n, left) {
				return fail("peeking %d of the remaining %d bytes gave %d (error %v)", n, left, len(p), err)
			}
			if err == nil {
				return nil
			}
			n, got = len(p)+1, 0
			left = 0
		case "unread":
			err = x.b.UnreadByte()
			if !x.read && err == nil {
				return fail("unreading a byte works before anything was read")
			}
			if err == nil {
				x.pos--
				x.read = false
			}
			return nil
		case "discard":
			got, err = x.b.Discard(n)
			if got != min(n, left) {
				return fail("discarding %d of the remaining %d bytes gave %d (error %v)", n, left, got, err)
			}
			x.read = got > 0
			x.pos += got
			if err != nil && got == n {
				return fail("error %v", err)
			}
			if err != nil && err != endErr {
				return fail("error %v instead of %v", err, endErr)
			}
			return nil
		case "all":
			var w bytes.Buffer
			_, err = x.b.WriteTo(&w)
			if e := expect(w.Bytes()); e != nil {
				return e
			}
			if w.Len() != left {
				return fail("%d of the remaining %d bytes were delivered (error %v)", w.Len(), left, err)
			}
			x.pos += w.Len()
			x.read = x.read || w.Len() > 0
			if err == nil && endErr != io.EOF || err != nil && err != endErr {
				return fail("error %v instead of %v", err, endErr)
			}
			return nil
		default:
			got, err = io.ReadFull(x.b, buf)
			if err == io.ErrUnexpectedEOF {
				err = io.EOF
			}
			if got != min(n, left) {
				return fail("reading %d of the remaining %d bytes gave %d (error %v)", n, left, got, err)
			}
		}
		if e := expect(buf[:got]); e != nil {
			return e
		}
		x.pos += got
		x.read = x.read || got > 0
		if err == nil && got < n {
			return fail("%d of %d bytes without an error", got, n)
		}
		if err != nil && (left > 0 && got < min(n, left) || err != endErr) {
			return fail("error %v at position %d; the stream ends at %d with %v", err, x.pos, end, endErr)
		}
	case "put":
		h.use = append(h.use[:k:k], h.use[k+1:]...)
		h.used[x.b] = true
		h.drop(x.b)
		xio.PutBufferReader(x.b)
		x.src.user--
		if m := x.src.mine; m != nil {
			// The caller's own reader still belongs to the caller.
			pos := x.src.where()
			c, err := m.ReadByte()
			if err == nil && c != at(x.src.id, pos) {
				return fail("the caller's own reader gives %d at position %d of stream %d", c, pos, x.src.id)
			}
			if err != nil && pos < end {
				return fail("the caller's own reader gives error %v at position %d of stream %d", err, pos, x.src.id)
			}
		}
	}
	return nil
}

type ReadCase struct {
	Streams []Stream
	Ops     []Op
}

func owner() (claim func(b interface{}, who string) error, drop func(b interface{})) {
	inUse := map[interface{}]string{}
	return func(b interface{}, who string) error {
			if _, ok := inUse[b]; ok {
				return errors.New("got a reader or writer that is in use")
			}
			inUse[b] = who
			return nil
		}, func(b interface{}) {
			delete(inUse, b)
		}
}

func runRead(t *testing.T, c ReadCase, r *core.Rec) error {
	claim, drop := owner()
	h := &readers{srcs: newSources(c.Streams, 0), used: map[*bufio.Reader]bool{},
		own:  func(b *bufio.Reader, who string) error { return claim(b, who) },
		drop: func(b *bufio.Reader) { drop(b) }}
	most := 0
	for i, o := range c.Ops {
		if err := h.step(i, o); err != nil {
			return err
		}
		most = max(most, len(h.use))
	}
	r.LabelIf(h.hits > 0, "reader reused")
	r.LabelIf(most > 1, "several in use")
	r.NonTrivial(h.hits > 0)
	return nil
}

func genSize(t *rapid.T) int {
	if max := core.Long(t, 0, 1<<20); max > 0 {
		return core.LongSize(t, "xio", max, "size")
	}
	switch core.Uni(t, 0, 4, "sized") {
	case 0:
		return noSize
	case 1:
		return rapid.SampledFrom([]int{4095, 4096, 4097, 8192, 16, 15, 17}).Draw(t, "size")
	case 2:
		return core.Int(t, "xio", -2, 9000, "size")
	}
	return rapid.IntRange(-1, 64).Draw(t, "size")
}

func genStreams(t *rapid.T, n int) []Stream {
	var r []Stream
	for i := 0; i < n; i++ {
		s := Stream{Len: core.Uni(t, 0, 60, "len")}
		if core.Uni(t, 0, 3, "long") == 3 {
			s.Len = rapid.IntRange(0, core.Long(t, 12000, 300000)).Draw(t, "len")
		}
		s.Chunk = rapid.SampledFrom([]int{0, 0, 1, 3, 7}).Draw(t, "chunk")
		if s.Len > 1000 && s.Chunk > 0 {
			s.Chunk *= 100
		}
		if core.Uni(t, 0, 3, "fails") == 3 {
			s.Fail = rapid.IntRange(1, s.Len+1).Draw(t, "fail")
		}
		if core.Uni(t, 0, 3, "wraps") == 3 {
			s.Wrap = rapid.SampledFrom([]int{16, 64, 4096, 5000}).Draw(t, "wrap")
			s.Pool = rapid.Bool().Draw(t, "pooled")
		}
		r = append(r, s)
	}
	return r
}

func genOps(t *rapid.T, n int, write bool) []Op {
	var ops []Op
	kinds := []string{"get", "get", "read", "read", "put", "put", "foreign"}
	if core.Uni(t, 0, 1, "noforeign") == 1 {
		kinds = kinds[:6]
	}
	if write {
		kinds = append(kinds, "flush")
	}
	for i := 0; i < n; i++ {
		o := Op{Op: rapid.SampledFrom(kinds).Draw(t, "op")}
		switch o.Op {
		case "get":
			o.S, o.Size = rapid.IntRange(0, 3).Draw(t, "s"), genSize(t)
		case "foreign":
			o.Size, o.N = max(1, genSize(t)), rapid.IntRange(0, 40).Draw(t, "n")
		case "read":
			o.At = rapid.IntRange(0, 3).Draw(t, "at")
			if write {
				o.Kind = rapid.SampledFrom([]string{"", "", "byte", "string", "rune", "from"}).Draw(t, "kind")
			} else {
				o.Kind = rapid.SampledFrom([]string{"", "", "byte", "one", "peek", "unread", "discard", "all"}).Draw(t, "kind")
			}
			o.N = rapid.IntRange(1, 40).Draw(t, "n")
			if core.Uni(t, 0, 4, "big") == 4 {
				o.N = rapid.IntRange(1, 9000).Draw(t, "n")
			}
		default:
			o.At = rapid.IntRange(0, 3).Draw(t, "at")
			o.Flush = rapid.Bool().Draw(t, "flush")
		}
		ops = append(ops, o)
	}
	return ops
}

const readRule = "up to 4 streams (fragmented, failing, some themselves buffered readers) and a history of getting (with and without sizes), reading in every way, putting back and donating readers; delivered bytes, errors, sizes and identities compared with the streams; non-trivial: a reader was reused"

func TestC21_P_Readers(t *testing.T) {
	core.Check(t, core.Prop[ReadCase]{
		Rule:  "one caller: " + readRule,
		Quick: 120000, Thorough: 4000000,
		Gen: func(t *rapid.T) ReadCase {
			return ReadCase{genStreams(t, core.Uni(t, 1, 4, "streams")), genOps(t, core.Uni(t, 3, 25, "ops"), false)}
		},
		Run: runRead,
	})
}

// ------------------------------------------------------------- writers

type sink struct {
	id   int
	s    Stream
	got  []byte
	err  error
	mine *bufio.Writer
	user int
	shut bool // nobody may write now
	bad  string
}

func (s *sink) Write(p []byte) (int, error) {
	if s.shut {
		s.bad = fmt.Sprintf("%d bytes reached stream %d while no writer was in use for it", len(p), s.id)
	}
	n := len(p)
	if s.s.Fail > 0 && len(s.got)+n > s.s.Fail {
		n = max(0, s.s.Fail-len(s.got))
		s.got = append(s.got, p[:n]...)
		return n, s.err
	}
	s.got = append(s.got, p...)
	return n, nil
}

func (s *sink) stream() io.Writer {
	if s.mine != nil {
		return s.mine
	}
	return s
}

type wr struct {
	b     *bufio.Writer
	dst   *sink
	base  int // bytes the destination had at the start
	wrote []byte
}

type writers struct {
	name string
	dsts []*sink
	use  []*wr
	all  map[*sink][]byte // what the destination holds, when known
	own  func(b *bufio.Writer, who string) error
	drop func(b *bufio.Writer)
	used map[*bufio.Writer]bool
	hits int
}

func newSinks(list []Stream, from int) []*sink {
	var r []*sink
	for i, s := range list {
		d := &sink{id: from + i, s: s, err: fmt.Errorf("stream %d fails", from+i)}
		if s.Wrap > 0 {
			d.mine = bufio.NewWriterSize(d, s.Wrap)
			if s.Pool {
				d.mine = xio.GetBufferWriterSize(d, s.Wrap)
			}
		}
		d.shut = d.mine == nil
		r = append(r, d)
	}
	return r
}

// inside is what has reached the stream that was passed to the pool.
func (d *sink) inside() []byte {
	if d.mine == nil {
		return d.got
	}
	_ = d.mine.Flush()
	return d.got
}

func (h *writers) step(i int, o Op) error {
	fail := func(format string, a ...interface{}) error {
		return fmt.Errorf("%sstep %d (%s): %s", h.name, i, o.Op, fmt.Sprintf(format, a...))
	}
	if o.Op == "foreign" {
		var other bytes.Buffer
		b := bufio.NewWriterSize(&other, o.Size)
		if o.N%2 == 0 {
			_, _ = b.WriteString("x")
		}
		xio.PutBufferWriter(b)
		return nil
	}
	if o.Op == "get" {
		dst := h.dsts[o.S%len(h.dsts)]
		if dst.user > 0 {
			return nil
		}
		var b *bufio.Writer
		want := o.Size
		dst.shut = false
		if o.Size == noSize {
			b, want = xio.GetBufferWriter(dst.stream()), defaultSize
		} else {
			b = xio.GetBufferWriterSize(dst.stream(), o.Size)
		}
		if b == nil {
			return fail("got no writer")
		}
		if b.Size() < want {
			return fail("the buffer has size %d, %d was requested", b.Size(), want)
		}
		for _, s := range h.dsts {
			if b == s.mine {
				return fail("got a writer that the caller made and never put back")
			}
		}
		if err := h.own(b, h.name); err != nil {
			return fail("%v", err)
		}
		if h.used[b] {
			h.hits++
		}
		if b.Buffered() != 0 {
			return fail("the new writer has %d buffered bytes", b.Buffered())
		}
		dst.user++
		h.use = append(h.use, &wr{b: b, dst: dst, base: len(dst.inside())})
		return nil
	}
	if len(h.use) == 0 {
		return nil
	}
	k := o.At % len(h.use)
	x := h.use[k]
	fails := x.dst.s.Fail > 0
	prefix := func(whole bool) error {
		if x.dst.bad != "" {
			return fail("%s", x.dst.bad)
		}
		in := x.dst.inside()
		if len(in) < x.base || len(in)-x.base > len(x.wrote) || !bytes.Equal(in[x.base:], x.wrote[:len(in)-x.base]) {
			return fail("stream %d received other bytes than were written to it (%d for %d)", x.dst.id, len(in)-x.base, len(x.wrote))
		}
		// A failing stream behind the caller's own writer fails later.
		if whole && !(fails && x.dst.mine != nil) && len(in)-x.base != len(x.wrote) {
			return fail("stream %d received %d of %d written bytes", x.dst.id, len(in)-x.base, len(x.wrote))
		}
		return nil
	}
	expectErr := func(err error) error {
		total := x.base + len(x.wrote)
		switch {
		case err == nil:
			return nil
		case !fails || total <= x.dst.s.Fail:
			return fail("error %v on a stream that accepts everything", err)
		case err != x.dst.err:
			return fail("error %v instead of %v", err, x.dst.err)
		}
		return nil
	}
	switch o.Op {
	case "read": // a write
		data := make([]byte, o.N)
		for j := range data {
			data[j] = at(x.dst.id+100, len(x.wrote)+j) & 0x7f
		}
		var err error
		switch o.Kind {
		case "byte":
			data = data[:1]
			err = x.b.WriteByte(data[0])
		case "string":
			_, err = x.b.WriteString(string(data))
		case "rune":
			data = []byte("é")
			_, err = x.b.WriteRune('é')
		case "from":
			_, err = x.b.ReadFrom(bytes.NewReader(data))
		default:
			_, err = x.b.Write(data)
		}
		x.wrote = append(x.wrote, data...)
		if e := expectErr(err); e != nil {
			return e
		}
		return prefix(false)
	case "flush":
		err := x.b.Flush()
		if e := expectErr(err); e != nil {
			return e
		}
		if err == nil && x.b.Buffered() != 0 {
			return fail("%d bytes remain after a flush", x.b.Buffered())
		}
		return prefix(err == nil)
	case "put":
		flushed := false
		if o.Flush {
			err := x.b.Flush()
			if e := expectErr(err); e != nil {
				return e
			}
			flushed = err == nil
		}
		if e := prefix(flushed); e != nil {
			return e
		}
		h.use = append(h.use[:k:k], h.use[k+1:]...)
		h.used[x.b] = true
		h.drop(x.b)
		xio.PutBufferWriter(x.b)
		if e := prefix(flushed); e != nil {
			return e
		}
		x.dst.inside()
		x.dst.user--
		x.dst.shut = true
		if m := x.dst.mine; m != nil && !fails {
			// The caller's own writer still belongs to the caller.
			x.dst.shut = false
			before := len(x.dst.got)
			if _, err := m.WriteString("own"); err != nil {
				return fail("the caller's own writer gives error %v", err)
			}
			if err := m.Flush(); err != nil || string(x.dst.got[before:]) != "own" {
				return fail("the caller's own writer sends %q to stream %d, error %v", x.dst.got[before:], x.dst.id, err)
			}
			x.dst.shut = true
		}
	}
	return nil
}

func (h *writers) final() error {
	for _, d := range h.dsts {
		if d.bad != "" {
			return fmt.Errorf("%s%s", h.name, d.bad)
		}
	}
	return nil
}

func runWrite(t *testing.T, c ReadCase, r *core.Rec) error {
	claim, drop := owner()
	h := &writers{dsts: newSinks(c.Streams, 0), used: map[*bufio.Writer]bool{},
		own:  func(b *bufio.Writer, who string) error { return claim(b, who) },
		drop: func(b *bufio.Writer) { drop(b) }}
	most := 0
	for i, o := range c.Ops {
		if err := h.step(i, o); err != nil {
			return err
		}
		most = max(most, len(h.use))
	}
	if err := h.final(); err != nil {
		return err
	}
	r.LabelIf(h.hits > 0, "writer reused")
	r.LabelIf(most > 1, "several in use")
	r.NonTrivial(h.hits > 0)
	return nil
}

const writeRule = "up to 4 destinations (some failing, some themselves buffered writers) and a history of getting (with and without sizes), writing in every way, flushing, putting back (flushed or not) and donating writers; received bytes, errors, sizes and identities compared with what was written; non-trivial: a writer was reused"

func TestC21_P_Writers(t *testing.T) {
	core.Check(t, core.Prop[ReadCase]{
		Rule:  "one caller: " + writeRule,
		Quick: 120000, Thorough: 4000000,
		Gen: func(t *rapid.T) ReadCase {
			return ReadCase{genStreams(t, core.Uni(t, 1, 4, "streams")), genOps(t, core.Uni(t, 3, 25, "ops"), true)}
		},
		Run: runWrite,
	})
}

// ------------------------------------------------------- several callers

type ConcCase struct {
	Plan    sched.Plan
	Callers []ReadCase
	Write   []bool
}

func runConc(t *testing.T, c ConcCase, r *core.Rec) error {
	n := len(c.Callers)
	errs := make([]error, n)
	lock := make(chan struct{}, 1)
	moved := 0
	decided, err := core.Concurrent(t, c.Plan, r, func(ctl *sched.Ctl) {
		done := make(chan struct{}, n)
		claim, drop := owner()
		last := map[interface{}]string{}
		lock = make(chan struct{}, 1)
		guard := func(f func()) {
			lock <- struct{}{}
			f()
			<-lock
		}
		own := func(b interface{}, who string) (err error) {
			guard(func() {
				err = claim(b, who)
				if w, ok := last[b]; ok && w != who {
					moved++
				}
				last[b] = who
			})
			return
		}
		dropG := func(b interface{}) { guard(func() { drop(b) }) }
		for i := range c.Callers {
			i := i
			name := fmt.Sprintf("caller %d, ", i)
			ctl.Go(name, func() {
				defer func() { done <- struct{}{} }()
				k := c.Callers[i]
				if c.Write[i] {
					h := &writers{name: name, dsts: newSinks(k.Streams, 10*i), used: map[*bufio.Writer]bool{},
						own:  func(b *bufio.Writer, who string) error { return own(b, who) },
						drop: func(b *bufio.Writer) { dropG(b) }}
					for j, o := range k.Ops {
						ctl.Point()
						if errs[i] = h.step(j, o); errs[i] != nil {
							return
						}
					}
					errs[i] = h.final()
					return
				}
				h := &readers{name: name, srcs: newSources(k.Streams, 10*i), used: map[*bufio.Reader]bool{},
					own:  func(b *bufio.Reader, who string) error { return own(b, who) },
					drop: func(b *bufio.Reader) { dropG(b) }}
				for j, o := range k.Ops {
					ctl.Point()
					if errs[i] = h.step(j, o); errs[i] != nil {
						return
					}
				}
			})
		}
		for range c.Callers {
			<-done
		}
	})
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	if err != nil || !decided {
		return err
	}
	r.NonTrivial(moved > 0)
	r.LabelIf(moved > 0, "a reader or writer moved between callers")
	return nil
}

func genConc(free bool) func(t *rapid.T) ConcCase {
	return func(t *rapid.T) ConcCase {
		c := ConcCase{Plan: core.Free}
		hi := 16
		if !free {
			c.Plan = core.Plan(t)
			hi = 8
		}
		write := rapid.Bool().Draw(t, "write")
		mixed := core.Uni(t, 0, 3, "mixed") == 3
		for i, n := 0, core.Uni(t, 2, 4, "callers"); i < n; i++ {
			w := write
			if mixed {
				w = rapid.Bool().Draw(t, "write")
			}
			c.Write = append(c.Write, w)
			c.Callers = append(c.Callers, ReadCase{genStreams(t, core.Uni(t, 1, 2, "streams")), genOps(t, core.Uni(t, 3, hi, "ops"), w)})
		}
		return c
	}
}

const concRule = "2-4 callers with their own streams, each with such a history; non-trivial: a reader or writer put back by one caller was given to another"

func TestC21_S_Callers(t *testing.T) {
	core.Check(t, core.Prop[ConcCase]{
		Rule:  "controlled interleavings: " + concRule,
		Quick: 30000, Thorough: 800000, Gen: genConc(false), Run: runConc,
	})
}

func TestC21_R_Callers(t *testing.T) {
	core.Check(t, core.Prop[ConcCase]{
		Rule:  "real parallelism under the race detector: " + concRule,
		Quick: 10000, Thorough: 200000, Gen: genConc(true), Run: runConc,
	})
}
