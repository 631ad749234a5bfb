From 3c6af6aa4d048f2ddc9134356ca5537801d5bb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 01/25] fix: xmath integer max/min lose precision beyond 2^53

---
 xmath/xmath.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/xmath/xmath.go b/xmath/xmath.go
index 2174ab1..52b6086 100644
--- a/xmath/xmath.go
+++ b/xmath/xmath.go
@@ -20,22 +20,34 @@ import "math"
 
 // MaxInt returns the maximum value.
 func MaxInt(a, b int) int {
-	return int(math.Max(float64(a), float64(b)))
+	if a > b {
+		return a
+	}
+	return b
 }
 
 // MinInt returns minimum value.
 func MinInt(a, b int) int {
-	return int(math.Min(float64(a), float64(b)))
+	if a < b {
+		return a
+	}
+	return b
 }
 
 // MaxInt64 returns the maximum value.
 func MaxInt64(a, b int64) int64 {
-	return int64(math.Max(float64(a), float64(b)))
+	if a > b {
+		return a
+	}
+	return b
 }
 
 // MinInt64 returns minimum value.
 func MinInt64(a, b int64) int64 {
-	return int64(math.Min(float64(a), float64(b)))
+	if a < b {
+		return a
+	}
+	return b
 }
 
 // MaxFloat64 returns the maximum value.
-- 
2.43.0


From e04b723069e90efe6e5c1b73296d6664ebe822d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 02/25] fix: xbinary decodes values split over several reads

---
 xbinary/xbinary.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/xbinary/xbinary.go b/xbinary/xbinary.go
index 4d6b273..e090a77 100644
--- a/xbinary/xbinary.go
+++ b/xbinary/xbinary.go
@@ -28,6 +28,15 @@ var (
 	ErrInvalidLength = errors.New("invalid length error")
 )
 
+// readFull fills data, however many reads that takes.
+func readFull(r io.Reader, data []byte) error {
+	_, err := io.ReadFull(r, data)
+	if err == io.ErrUnexpectedEOF {
+		return ErrInvalidLength
+	}
+	return err
+}
+
 // WriteUint16 writes unit16.
 func WriteUint16(w io.Writer, i uint16) error {
 	data := xbytes.MallocSize(2)
@@ -45,13 +54,9 @@ func ReadUint16(r io.Reader) (uint16, error) {
 	data := xbytes.MallocSize(2)
 	defer xbytes.Free(data)
 
-	n, err := r.Read(data)
-	if err != nil {
+	if err := readFull(r, data); err != nil {
 		return 0, err
 	}
-	if n < 2 {
-		return 0, ErrInvalidLength
-	}
 	return binary.BigEndian.Uint16(data), nil
 }
 
@@ -76,8 +81,7 @@ func ReadBool(r io.Reader) (bool, error) {
 	b := xbytes.MallocSize(1)
 	defer xbytes.Free(b)
 
-	_, err := r.Read(b)
-	if err != nil {
+	if err := readFull(r, b); err != nil {
 		return false, err
 	}
 	return b[0] == 1, nil
@@ -90,13 +94,9 @@ func ReadUint32(r io.Reader) (uint32, error) {
 	data := xbytes.MallocSize(4)
 	defer xbytes.Free(data)
 
-	n, err := r.Read(data)
-	if err != nil {
+	if err := readFull(r, data); err != nil {
 		return 0, err
 	}
-	if n < 4 {
-		return 0, ErrInvalidLength
-	}
 	return binary.BigEndian.Uint32(data), nil
 }
 
-- 
2.43.0


From 25fa84ddba7981e091ad18f077022385b3f9aea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 03/25] fix: xbinary.WriteBytes refuses byte strings longer
 than 65535

---
 xbinary/xbinary.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xbinary/xbinary.go b/xbinary/xbinary.go
index e090a77..c3f68bb 100644
--- a/xbinary/xbinary.go
+++ b/xbinary/xbinary.go
@@ -21,6 +21,7 @@ import (
 	"errors"
 	"github.com/chenquan/go-pkg/xbytes"
 	"io"
+	"math"
 )
 
 var (
@@ -118,7 +119,11 @@ func WriteUint32(w io.Writer, i uint32) error {
 //------------
 
 // WriteBytes writes bytes.
+// It returns ErrInvalidLength and writes nothing if s is too long for the 16-bit length prefix.
 func WriteBytes(w io.Writer, s []byte) (err error) {
+	if len(s) > math.MaxUint16 {
+		return ErrInvalidLength
+	}
 	// length
 	err = WriteUint16(w, uint16(len(s)))
 	if err == nil {
-- 
2.43.0


From ac9151b962674e1bc2b5a56b99a283a9fdf713dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 04/25] fix: xio pools never hand out a buffer smaller than
 requested

---
 xio/buffer.go | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/xio/buffer.go b/xio/buffer.go
index 13a6b34..5dde11c 100644
--- a/xio/buffer.go
+++ b/xio/buffer.go
@@ -22,6 +22,9 @@ import (
 	"sync"
 )
 
+// defaultBufSize is the buffer size of bufio.NewReader and bufio.NewWriter.
+const defaultBufSize = 4096
+
 var (
 	bufReaderPool = &sync.Pool{}
 	bufWriterPool = &sync.Pool{}
@@ -30,21 +33,17 @@ var (
 // GetBufferReaderSize returns a bufio.Reader.
 func GetBufferReaderSize(r io.Reader, size int) *bufio.Reader {
 	if v := bufReaderPool.Get(); v != nil {
-		br := v.(*bufio.Reader)
-		br.Reset(r)
-		return br
+		if br := v.(*bufio.Reader); br.Size() >= size {
+			br.Reset(r)
+			return br
+		}
 	}
 	return bufio.NewReaderSize(r, size)
 }
 
 // GetBufferReader returns a bufio.Reader.
 func GetBufferReader(r io.Reader) *bufio.Reader {
-	if v := bufReaderPool.Get(); v != nil {
-		br := v.(*bufio.Reader)
-		br.Reset(r)
-		return br
-	}
-	return bufio.NewReader(r)
+	return GetBufferReaderSize(r, defaultBufSize)
 }
 
 // PutBufferReader recycles a bufio.Reader.
@@ -58,21 +57,17 @@ func PutBufferReader(r *bufio.Reader) {
 // GetBufferWriterSize returns a bufio.Writer.
 func GetBufferWriterSize(w io.Writer, size int) *bufio.Writer {
 	if v := bufWriterPool.Get(); v != nil {
-		bw := v.(*bufio.Writer)
-		bw.Reset(w)
-		return bw
+		if bw := v.(*bufio.Writer); bw.Size() >= size {
+			bw.Reset(w)
+			return bw
+		}
 	}
 	return bufio.NewWriterSize(w, size)
 }
 
 // GetBufferWriter returns a bufio.Writer.
 func GetBufferWriter(w io.Writer) *bufio.Writer {
-	if v := bufWriterPool.Get(); v != nil {
-		bw := v.(*bufio.Writer)
-		bw.Reset(w)
-		return bw
-	}
-	return bufio.NewWriter(w)
+	return GetBufferWriterSize(w, defaultBufSize)
 }
 
 // PutBufferWriter recycles a bufio.Writer.
-- 
2.43.0


From 6991288bb20c753b97787ee112f8566fc15c5e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 05/25] fix: xio never returns the caller's own buffered reader
 or writer as a pooled one

---
 xio/buffer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xio/buffer.go b/xio/buffer.go
index 5dde11c..676b6e5 100644
--- a/xio/buffer.go
+++ b/xio/buffer.go
@@ -38,7 +38,10 @@ func GetBufferReaderSize(r io.Reader, size int) *bufio.Reader {
 			return br
 		}
 	}
-	return bufio.NewReaderSize(r, size)
+	// NewReaderSize would return r itself if r is a *bufio.Reader.
+	br := bufio.NewReaderSize(nil, size)
+	br.Reset(r)
+	return br
 }
 
 // GetBufferReader returns a bufio.Reader.
@@ -62,7 +65,10 @@ func GetBufferWriterSize(w io.Writer, size int) *bufio.Writer {
 			return bw
 		}
 	}
-	return bufio.NewWriterSize(w, size)
+	// NewWriterSize would return w itself if w is a *bufio.Writer.
+	bw := bufio.NewWriterSize(nil, size)
+	bw.Reset(w)
+	return bw
 }
 
 // GetBufferWriter returns a bufio.Writer.
-- 
2.43.0


From f723eb899bd3cdc8fcaae68427e355afeb6bcb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 06/25] fix: xonce.Value accepts nil and values of different
 types

---
 xonce/value.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xonce/value.go b/xonce/value.go
index d7357f1..b991ae1 100644
--- a/xonce/value.go
+++ b/xonce/value.go
@@ -25,6 +25,11 @@ type Value struct {
 	v atomic.Value
 }
 
+// holder gives all values, nil included, one dynamic type.
+type holder struct {
+	v interface{}
+}
+
 // NewValue returns a Value.
 func NewValue() *Value {
 	return &Value{}
@@ -32,10 +37,11 @@ func NewValue() *Value {
 
 // Write writes a v.
 func (val *Value) Write(v interface{}) (success bool) {
-	return val.v.CompareAndSwap(nil, v)
+	return val.v.CompareAndSwap(nil, holder{v})
 }
 
 // Value return a v.
 func (val *Value) Value() interface{} {
-	return val.v.Load()
+	h, _ := val.v.Load().(holder)
+	return h.v
 }
-- 
2.43.0


From 5c92529f986d45953ab685c5bcfeb2d725777742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 07/25] fix: xbarrier reads end on cancellation and report a
 closed channel

---
 xbarrier/readbarrier.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xbarrier/readbarrier.go b/xbarrier/readbarrier.go
index 3cbaa7c..7e16eca 100644
--- a/xbarrier/readbarrier.go
+++ b/xbarrier/readbarrier.go
@@ -41,6 +41,12 @@ func (r *ReadBarrier) Read() (val interface{}, success bool) {
 	case <-r.ctx.Done():
 		return nil, false
 	default:
-		return <-r.readChannel, true
+	}
+
+	select {
+	case <-r.ctx.Done():
+		return nil, false
+	case val, success = <-r.readChannel:
+		return
 	}
 }
-- 
2.43.0


From de4ca621a2c33a28a4d62133e17a773aae43ba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 08/25] fix: blocked xbarrier writes end on cancellation

---
 xbarrier/writebarrier.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xbarrier/writebarrier.go b/xbarrier/writebarrier.go
index d5f7d0d..911d9e7 100644
--- a/xbarrier/writebarrier.go
+++ b/xbarrier/writebarrier.go
@@ -46,7 +46,12 @@ func (w *WriteBarrier) Write(v interface{}) (success bool) {
 	case <-w.ctx.Done():
 		return
 	default:
-		w.writeChannel <- v
+	}
+
+	select {
+	case <-w.ctx.Done():
+		return
+	case w.writeChannel <- v:
 		return true
 	}
 }
-- 
2.43.0


From db14bf47b40d2d77a12b6c850b98ad31b70d00e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 09/25] fix: Map.Clear replaces the read map atomically

---
 xsync/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsync/map.go b/xsync/map.go
index eedd84f..08431af 100644
--- a/xsync/map.go
+++ b/xsync/map.go
@@ -417,7 +417,7 @@ func (m *Map) Delete(key interface{}) {
 // Clear clears all elements.
 func (m *Map) Clear() {
 	m.mu.Lock()
-	m.read = atomic.Value{}
+	m.read.Store(readOnly{})
 	m.dirty = nil
 	m.misses = 0
 	m.mu.Unlock()
-- 
2.43.0


From 26c337ce0a32f0f486252738ef17caef349b31b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 10/25] fix: Map.ComputeIfPresent recomputes after losing a
 race

---
 xsync/map.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xsync/map.go b/xsync/map.go
index 08431af..29cecec 100644
--- a/xsync/map.go
+++ b/xsync/map.go
@@ -364,10 +364,11 @@ func (e *entry) tryComputeIfPresent(key interface{}, computeFunc func(key, value
 	if p == nil {
 		return nil, false, true
 	}
-	i := computeFunc(key, *(*interface{})(p))
-	ic := i
 
 	for {
+		// The value must be recomputed whenever another one was stored meanwhile.
+		i := computeFunc(key, *(*interface{})(p))
+		ic := i
 		if atomic.CompareAndSwapPointer(&e.p, p, unsafe.Pointer(&ic)) {
 			return i, true, true
 		}
-- 
2.43.0


From eb7fcfb186295c7fedd3d3dfea00eb682e65510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:30 +0000
Subject: [PATCH 11/25] fix: a panicking compute callback no longer leaves the
 Map locked

---
 xsync/map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsync/map.go b/xsync/map.go
index 29cecec..842be8d 100644
--- a/xsync/map.go
+++ b/xsync/map.go
@@ -275,6 +275,7 @@ func (m *Map) ComputeIfAbsent(key interface{}, computeFunc func(key interface{})
 		}
 	}
 	m.mu.Lock()
+	defer m.mu.Unlock() // computeFunc may panic
 	read, _ = m.read.Load().(readOnly)
 	if e, ok := read.m[key]; ok {
 		if e.unexpungeLocked() {
@@ -295,7 +296,6 @@ func (m *Map) ComputeIfAbsent(key interface{}, computeFunc func(key interface{})
 		m.dirty[key] = newEntry(value)
 		actual, loaded = value, false
 	}
-	m.mu.Unlock()
 	return actual, loaded
 }
 
@@ -340,6 +340,7 @@ func (m *Map) ComputeIfPresent(key interface{}, computeFunc func(key, value inte
 		}
 	}
 	m.mu.Lock()
+	defer m.mu.Unlock() // computeFunc may panic
 	read, _ = m.read.Load().(readOnly)
 	if e, ok := read.m[key]; ok {
 		if e.unexpungeLocked() {
@@ -352,7 +353,6 @@ func (m *Map) ComputeIfPresent(key interface{}, computeFunc func(key, value inte
 	} else {
 		actual, exist = nil, false
 	}
-	m.mu.Unlock()
 	return actual, exist
 }
 
-- 
2.43.0


From 6bd51c00de6a49a4a8442822c29d29c347bfd898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:30 +0000
Subject: [PATCH 12/25] fix: a negative SharedMap shard count is rejected

---
 xsync/shared_map.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xsync/shared_map.go b/xsync/shared_map.go
index 631df56..8e17db1 100644
--- a/xsync/shared_map.go
+++ b/xsync/shared_map.go
@@ -35,6 +35,9 @@ type (
 
 // WithShardBlockSize returns a configuration that sets the size of the number of segments.
 func WithShardBlockSize(shardBlockSize int) SharedMapOption {
+	if shardBlockSize < 0 {
+		shardBlockSize = 0 // rejected by NewSharedMap
+	}
 	return func(sharedMapOptions *sharedMapOptions) {
 		sharedMapOptions.shardBlockSize = uint32(shardBlockSize)
 	}
-- 
2.43.0


From 7cbd8bf5defb9e25a6f81974fa4c7f78c16133a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:30 +0000
Subject: [PATCH 13/25] fix: Rotate counts characters, not bytes

---
 xstring/xstring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 8ead1e3..1f3f6ec 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -177,7 +177,7 @@ func Rotate(s string, shift int) string {
 		return s
 	}
 
-	sLen := len(s)
+	sLen := Len(s)
 	if sLen == 0 {
 		return s
 	}
@@ -189,7 +189,7 @@ func Rotate(s string, shift int) string {
 
 	offset := -(shiftMod)
 	sb := strings.Builder{}
-	sb.Grow(sLen)
+	sb.Grow(len(s))
 	_, _ = sb.WriteString(Right(s, offset))
 	_, _ = sb.WriteString(Left(s, offset))
 
-- 
2.43.0


From 6c44b0ff95133a975bb9f2b2ee9ef00107372d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:31 +0000
Subject: [PATCH 14/25] fix: Reverse accepts a valid U+FFFD

---
 xstring/xstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 1f3f6ec..4a05c17 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -286,7 +286,7 @@ func Reverse(s string) (string, error) {
 	for srcIndex > 0 {
 		r, n := utf8.DecodeLastRune(src[:srcIndex])
 
-		if r == utf8.RuneError {
+		if r == utf8.RuneError && n == 1 {
 			return hack.BytesToString(dst), ErrDecodeChar
 		}
 
-- 
2.43.0


From 3ef816c1d2edde284b77ecbfbbfc5c456d9ab5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:31 +0000
Subject: [PATCH 15/25] fix: IsNumerical accepts only a decimal point as
 separator

---
 xstring/xstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 4a05c17..6c1d431 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -493,7 +493,7 @@ func Contains(s string, searchChar string) bool {
 
 // IsNumerical returns ture if a numerical.
 func IsNumerical(s string) bool {
-	reg, _ := regexp.Compile(`^\d+.?\d*$`)
+	reg, _ := regexp.Compile(`^\d+(\.\d*)?$`)
 	return reg.MatchString(s)
 }
 
-- 
2.43.0


From 2750190e284585389d6329592106fb68b46c2591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:31 +0000
Subject: [PATCH 16/25] fix: EqualsIgnoreCase compares lengths

---
 xstring/xstring.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 6c1d431..8010e62 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -759,7 +759,8 @@ func EqualsIgnoreCase(str1, str2 string) bool {
 		return true
 	}
 
-	return RegionMatches(str1, true, 0, str2, 0, Len(str1))
+	length := Len(str1)
+	return length == Len(str2) && RegionMatches(str1, true, 0, str2, 0, length)
 }
 
 // EqualsAny returns ture if str exists in strings.
-- 
2.43.0


From a00ec3dc109784b2546f0066afd74c3c8a8f9d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:31 +0000
Subject: [PATCH 17/25] fix: DeleteWhitespace handles multi-byte text

---
 xstring/xstring.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 8010e62..c8697d9 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -701,10 +701,6 @@ func DeleteWhitespace(str string) string {
 		}
 	}
 
-	if builder.Len() == strLen {
-		return str
-	}
-
 	if builder.Len() == 0 {
 		return empty
 	}
-- 
2.43.0


From 4355950df609679f19afdd2ab2bc84aacc59aac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:31 +0000
Subject: [PATCH 18/25] fix: Abbreviate with an offset shows the text at the
 offset

---
 xstring/xstring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index c8697d9..bd941a2 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -804,12 +804,12 @@ func Abbreviate(str, abbrevMarker string, offset, maxWidth int) (string, error)
 		return empty, fmt.Errorf("minimum abbreviation width with offset is %d", minAbbrevWidthOffset)
 	}
 	if offset+maxWidth-abbrevMarkerLen < strLen {
-		substr, err := Abbreviate(Sub(str, 0, offset), abbrevMarker, 0, maxWidth-abbrevMarkerLen)
+		substr, err := Abbreviate(Sub(str, offset, strLen), abbrevMarker, 0, maxWidth-abbrevMarkerLen)
 		if err == nil {
 			return abbrevMarker + substr, nil
 		}
 		return empty, err
 	}
 
-	return abbrevMarker + Sub(str, 0, strLen-(maxWidth-abbrevMarkerLen)), nil
+	return abbrevMarker + Sub(str, strLen-(maxWidth-abbrevMarkerLen), strLen), nil
 }
-- 
2.43.0


From 58ce8cd264e8d7c2e00d54113df228d204844866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:34 +0000
Subject: [PATCH 19/25] fix: Joiner writes no separator before the first piece
 after Grow or Reset

---
 xstring/stringjoiner.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/xstring/stringjoiner.go b/xstring/stringjoiner.go
index 3b8edb0..368430c 100644
--- a/xstring/stringjoiner.go
+++ b/xstring/stringjoiner.go
@@ -21,9 +21,10 @@ import "strings"
 type (
 	// Joiner is used to construct a sequence of characters separated by a delimiter and optionally starting with a supplied prefix and ending with a supplied suffix.
 	Joiner struct {
-		b    *strings.Builder
-		opts *joinerOptions
-		n    int // n is length of prefix and suffix for
+		b     *strings.Builder
+		opts  *joinerOptions
+		n     int  // n is length of prefix and suffix for
+		wrote bool // wrote is whether a piece was written since creation or Reset
 	}
 	// joinerOptions a option.
 	joinerOptions struct {
@@ -132,9 +133,10 @@ func (j *Joiner) String() string {
 func (j *Joiner) tryWriteStep() {
 	if j.b == nil {
 		j.b = &strings.Builder{}
-	} else {
+	} else if j.wrote {
 		j.b.WriteString(j.opts.step)
 	}
+	j.wrote = true
 }
 
 // Grow grows b's capacity, if necessary, to guarantee space for
@@ -164,6 +166,7 @@ func (j *Joiner) Reset() {
 	if j.b != nil {
 		j.b.Reset()
 	}
+	j.wrote = false
 }
 
 // Len returns the len of accumulated string.
-- 
2.43.0


From 5ce71e6cc8a47db8153823a43c6a400d728370cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:35 +0000
Subject: [PATCH 20/25] fix: xmapreduce map functions never write to a closed
 output after cancellation

---
 xmapreduce/xmapreduce.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/xmapreduce/xmapreduce.go b/xmapreduce/xmapreduce.go
index 7cf6d5d..1354ca0 100644
--- a/xmapreduce/xmapreduce.go
+++ b/xmapreduce/xmapreduce.go
@@ -39,6 +39,13 @@ type (
 		workerSize int
 	}
 
+	// collectorWriter keeps writes of map functions that outlive a cancellation off the closed collector.
+	collectorWriter struct {
+		xbarrier.Writer
+		lock   sync.RWMutex
+		closed bool
+	}
+
 	// Option defines the method to customize the mapreduce.
 	Option func(opts *options)
 )
@@ -89,13 +96,13 @@ func buildSource(generateFunc GenerateFunc) chan interface{} {
 
 func doMap(ctx context.Context, mapFunc MapFunc, source <-chan interface{}, collector chan<- interface{}, option *options) {
 	waitGroup := sync.WaitGroup{}
+	writer := &collectorWriter{Writer: xbarrier.NewWriteBarrier(ctx, collector)}
 
 	defer func() {
 		waitGroup.Wait()
-		close(collector)
+		writer.close(collector)
 	}()
 	worker := xworker.NewWorker(option.workerSize)
-	writer := xbarrier.NewWriteBarrier(ctx, collector)
 
 	for {
 		select {
@@ -114,3 +121,19 @@ func doMap(ctx context.Context, mapFunc MapFunc, source <-chan interface{}, coll
 		}
 	}
 }
+
+// Write the value to the collector unless it is closed.
+func (w *collectorWriter) Write(v interface{}) (success bool) {
+	w.lock.RLock()
+	defer w.lock.RUnlock()
+
+	return !w.closed && w.Writer.Write(v)
+}
+
+func (w *collectorWriter) close(collector chan<- interface{}) {
+	w.lock.Lock()
+	defer w.lock.Unlock()
+
+	w.closed = true
+	close(collector)
+}
-- 
2.43.0


From 69433ba191c09afadc1e135b04ea087e4cfa2def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 21/25] fix: Abbreviate with a very negative offset no longer
 overflows

---
 xstring/xstring.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index bd941a2..c07369b 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -791,7 +791,9 @@ func Abbreviate(str, abbrevMarker string, offset, maxWidth int) (string, error)
 	if strLen <= maxWidth {
 		return str, nil
 	}
-	if offset > strLen {
+	if offset < 0 {
+		offset = 0
+	} else if offset > strLen {
 		offset = strLen
 	}
 	if strLen-offset < maxWidth-abbrevMarkerLen {
-- 
2.43.0


From 384dfcf410a6a639b5830a63f3f50f9883ff1ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 22/25] fix: a Get after Remove no longer joins a finished
 creation of the removed resource

---
 xsync/resourcemanager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xsync/resourcemanager.go b/xsync/resourcemanager.go
index fecea48..6740c37 100644
--- a/xsync/resourcemanager.go
+++ b/xsync/resourcemanager.go
@@ -58,6 +58,10 @@ func (m *ResourceManager) Get(key string, create func() (io.Closer, error)) (io.
 
 		m.rw.RLock()
 		resource, ok := m.resources[key]
+		if ok {
+			// A Get that starts after a later Remove must not share this result.
+			m.singleFlight.Forget(key)
+		}
 		m.rw.RUnlock()
 		if ok {
 			return resource, nil
@@ -70,6 +74,7 @@ func (m *ResourceManager) Get(key string, create func() (io.Closer, error)) (io.
 
 		m.rw.Lock()
 		m.resources[key] = resource
+		m.singleFlight.Forget(key)
 		m.rw.Unlock()
 
 		return resource, nil
-- 
2.43.0


From 9fd7badd5981490d2aa9eb80df3a3fddcc92798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:53 +0000
Subject: [PATCH 23/25] fix: xbinary.ReadBytes no longer reports a value cut
 after its length as io.EOF

---
 xbinary/xbinary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xbinary/xbinary.go b/xbinary/xbinary.go
index c3f68bb..4959823 100644
--- a/xbinary/xbinary.go
+++ b/xbinary/xbinary.go
@@ -146,6 +146,10 @@ func ReadBytes(r io.Reader) (b []byte, err error) {
 	_, err = io.ReadFull(r, payload)
 	if err != nil {
 		xbytes.Free(payload)
+		if err == io.EOF {
+			// The stream ended inside the value.
+			err = io.ErrUnexpectedEOF
+		}
 		return nil, err
 	}
 
-- 
2.43.0


From 2de550f2142548b4161367160edc8c23506b6874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:51 +0000
Subject: [PATCH 24/25] fix: Stream.Tail of a size beyond memory no longer
 loses the elements

---
 xstream/ring.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/xstream/ring.go b/xstream/ring.go
index 9359931..5283dce 100644
--- a/xstream/ring.go
+++ b/xstream/ring.go
@@ -17,19 +17,24 @@
 package xstream
 
 type ring struct {
-	elements []interface{}
+	n        uint
+	elements []interface{} // grows up to n elements
 	index    int
 }
 
 // newRing returns a ring object with the given size n.
 func newRing(n uint) *ring {
-	return &ring{elements: make([]interface{}, n)}
+	return &ring{n: n}
 }
 
 // add adds v into r.
 func (r *ring) add(v interface{}) {
 
-	r.elements[r.index%len(r.elements)] = v
+	if uint(len(r.elements)) < r.n {
+		r.elements = append(r.elements, v)
+	} else {
+		r.elements[r.index%len(r.elements)] = v
+	}
 	r.index++
 }
 
-- 
2.43.0


From f3a2b5e334d28ab8061585d55d138f28f744d699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:17 +0000
Subject: [PATCH 25/25] fix: Stream.SplitSteam with a size beyond memory no
 longer hangs

---
 xstream/xstream.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/xstream/xstream.go b/xstream/xstream.go
index dbcda1a..e6fedef 100644
--- a/xstream/xstream.go
+++ b/xstream/xstream.go
@@ -217,21 +217,26 @@ func (s *Stream) SplitSteam(n int) *Stream {
 	}
 	source := make(chan interface{})
 	startGoroutine(func() {
-		var chunkSource = make(chan interface{}, n)
-		for item := range s.source {
-			chunkSource <- item
-			if len(chunkSource) == n {
-
-				source <- Range(chunkSource)
-				close(chunkSource)
-
-				chunkSource = make(chan interface{}, n)
+		var chunk []interface{}
+		send := func() {
+			chunkSource := make(chan interface{}, len(chunk))
+			for _, item := range chunk {
+				chunkSource <- item
 			}
-		}
-		if len(chunkSource) != 0 {
+			chunk = nil
+
 			source <- Range(chunkSource)
 			close(chunkSource)
 		}
+		for item := range s.source {
+			chunk = append(chunk, item)
+			if len(chunk) == n {
+				send()
+			}
+		}
+		if len(chunk) != 0 {
+			send()
+		}
 		close(source)
 	})
 
-- 
2.43.0

