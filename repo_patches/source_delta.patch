From 8c486cd69a740eafc208ea413e61681a6209b84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 01/21] fix: xsync.Map.Clear replaces the read snapshot
 atomically

Assigning a new atomic.Value raced with the lock-free readers.
---
 xsync/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsync/map.go b/xsync/map.go
index eedd84f..08431af 100644
--- a/xsync/map.go
+++ b/xsync/map.go
@@ -417,7 +417,7 @@ func (m *Map) Delete(key interface{}) {
 // Clear clears all elements.
 func (m *Map) Clear() {
 	m.mu.Lock()
-	m.read = atomic.Value{}
+	m.read.Store(readOnly{})
 	m.dirty = nil
 	m.misses = 0
 	m.mu.Unlock()
-- 
2.43.0


From 81dc0c0e360705335847c1be9f66b0910a25519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 02/21] fix: xsync.Map.ComputeIfPresent recomputes when the
 value changed

A failed compare-and-swap was retried with the result computed from the
old value, which lost concurrent updates.
---
 xsync/map.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xsync/map.go b/xsync/map.go
index 08431af..a5df3e5 100644
--- a/xsync/map.go
+++ b/xsync/map.go
@@ -364,10 +364,12 @@ func (e *entry) tryComputeIfPresent(key interface{}, computeFunc func(key, value
 	if p == nil {
 		return nil, false, true
 	}
-	i := computeFunc(key, *(*interface{})(p))
-	ic := i
 
 	for {
+		// The new value must be computed from the value it replaces, so it is
+		// computed again whenever that value has changed in the meantime.
+		i := computeFunc(key, *(*interface{})(p))
+		ic := i
 		if atomic.CompareAndSwapPointer(&e.p, p, unsafe.Pointer(&ic)) {
 			return i, true, true
 		}
@@ -379,7 +381,6 @@ func (e *entry) tryComputeIfPresent(key interface{}, computeFunc func(key, value
 			return nil, false, false
 		}
 	}
-
 }
 
 // ---------------------------
-- 
2.43.0


From 5399815698cfabcf6dc53a32baedb62c4d159f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 03/21] fix: xsync.Map compute operations release the lock when
 the callback panics

---
 xsync/map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsync/map.go b/xsync/map.go
index a5df3e5..6758985 100644
--- a/xsync/map.go
+++ b/xsync/map.go
@@ -275,6 +275,7 @@ func (m *Map) ComputeIfAbsent(key interface{}, computeFunc func(key interface{})
 		}
 	}
 	m.mu.Lock()
+	defer m.mu.Unlock() // computeFunc may panic
 	read, _ = m.read.Load().(readOnly)
 	if e, ok := read.m[key]; ok {
 		if e.unexpungeLocked() {
@@ -295,7 +296,6 @@ func (m *Map) ComputeIfAbsent(key interface{}, computeFunc func(key interface{})
 		m.dirty[key] = newEntry(value)
 		actual, loaded = value, false
 	}
-	m.mu.Unlock()
 	return actual, loaded
 }
 
@@ -340,6 +340,7 @@ func (m *Map) ComputeIfPresent(key interface{}, computeFunc func(key, value inte
 		}
 	}
 	m.mu.Lock()
+	defer m.mu.Unlock() // computeFunc may panic
 	read, _ = m.read.Load().(readOnly)
 	if e, ok := read.m[key]; ok {
 		if e.unexpungeLocked() {
@@ -352,7 +353,6 @@ func (m *Map) ComputeIfPresent(key interface{}, computeFunc func(key, value inte
 	} else {
 		actual, exist = nil, false
 	}
-	m.mu.Unlock()
 	return actual, exist
 }
 
-- 
2.43.0


From 81f8b594b3462fa25c4e6f6ad677324068511641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 04/21] fix: ResourceManager.Get no longer returns a resource
 removed before the call

A Get starting after Remove could join a flight that had already picked up
the removed resource but had not finished yet.
---
 xsync/resourcemanager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xsync/resourcemanager.go b/xsync/resourcemanager.go
index fecea48..39d297c 100644
--- a/xsync/resourcemanager.go
+++ b/xsync/resourcemanager.go
@@ -58,6 +58,10 @@ func (m *ResourceManager) Get(key string, create func() (io.Closer, error)) (io.
 
 		m.rw.RLock()
 		resource, ok := m.resources[key]
+		if ok {
+			// Nobody may join this flight once the resource can be removed.
+			m.singleFlight.Forget(key)
+		}
 		m.rw.RUnlock()
 		if ok {
 			return resource, nil
@@ -70,6 +74,7 @@ func (m *ResourceManager) Get(key string, create func() (io.Closer, error)) (io.
 
 		m.rw.Lock()
 		m.resources[key] = resource
+		m.singleFlight.Forget(key)
 		m.rw.Unlock()
 
 		return resource, nil
-- 
2.43.0


From 66d77f09f578b6c747693083ec126717538c163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 05/21] fix: ResourceManager.Get overlapping Close closes its
 resource instead of panicking

Storing into the nil map panicked with the lock held and leaked the resource.
---
 xsync/resourcemanager.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/xsync/resourcemanager.go b/xsync/resourcemanager.go
index 39d297c..eb650ce 100644
--- a/xsync/resourcemanager.go
+++ b/xsync/resourcemanager.go
@@ -17,12 +17,15 @@
 package xsync
 
 import (
+	"errors"
 	"github.com/chenquan/go-pkg/xerror"
 	"golang.org/x/sync/singleflight"
 	"io"
 	"sync"
 )
 
+var errResourceManagerClosed = errors.New("resource manager is closed")
+
 // ResourceManager is a resource manager.
 type ResourceManager struct {
 	rw           sync.RWMutex
@@ -73,6 +76,12 @@ func (m *ResourceManager) Get(key string, create func() (io.Closer, error)) (io.
 		}
 
 		m.rw.Lock()
+		if m.resources == nil {
+			// Closed in the meantime: nobody else would close the resource.
+			m.rw.Unlock()
+			_ = resource.Close()
+			return nil, errResourceManagerClosed
+		}
 		m.resources[key] = resource
 		m.singleFlight.Forget(key)
 		m.rw.Unlock()
-- 
2.43.0


From 35b4254a1c90ee9e8fedb99eaaf61086b5c45731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 06/21] fix: xonce.Value.Write reports false for a later write
 of another type

atomic.Value panicked on the inconsistently typed value.
---
 xonce/value.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/xonce/value.go b/xonce/value.go
index d7357f1..21cd59d 100644
--- a/xonce/value.go
+++ b/xonce/value.go
@@ -25,6 +25,11 @@ type Value struct {
 	v atomic.Value
 }
 
+// holder gives all written values the same concrete type, which atomic.Value requires.
+type holder struct {
+	v interface{}
+}
+
 // NewValue returns a Value.
 func NewValue() *Value {
 	return &Value{}
@@ -32,10 +37,13 @@ func NewValue() *Value {
 
 // Write writes a v.
 func (val *Value) Write(v interface{}) (success bool) {
-	return val.v.CompareAndSwap(nil, v)
+	return val.v.CompareAndSwap(nil, &holder{v: v})
 }
 
 // Value return a v.
 func (val *Value) Value() interface{} {
-	return val.v.Load()
+	if h, ok := val.v.Load().(*holder); ok {
+		return h.v
+	}
+	return nil
 }
-- 
2.43.0


From fa5d8b4fd13e3c34498f890478bc7b86707967f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 07/21] fix: Joiner writes no separator before the first piece
 after Grow or Reset

---
 xstring/stringjoiner.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xstring/stringjoiner.go b/xstring/stringjoiner.go
index 3b8edb0..5c009ba 100644
--- a/xstring/stringjoiner.go
+++ b/xstring/stringjoiner.go
@@ -24,6 +24,8 @@ type (
 		b    *strings.Builder
 		opts *joinerOptions
 		n    int // n is length of prefix and suffix for
+
+		wrote bool // wrote reports whether anything was written since the last Reset
 	}
 	// joinerOptions a option.
 	joinerOptions struct {
@@ -132,9 +134,11 @@ func (j *Joiner) String() string {
 func (j *Joiner) tryWriteStep() {
 	if j.b == nil {
 		j.b = &strings.Builder{}
-	} else {
+	}
+	if j.wrote {
 		j.b.WriteString(j.opts.step)
 	}
+	j.wrote = true
 }
 
 // Grow grows b's capacity, if necessary, to guarantee space for
@@ -164,6 +168,7 @@ func (j *Joiner) Reset() {
 	if j.b != nil {
 		j.b.Reset()
 	}
+	j.wrote = false
 }
 
 // Len returns the len of accumulated string.
-- 
2.43.0


From 1e0ede4bc623547cdc8640af54cc36c71e8f00c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 08/21] fix: xstring.Rotate counts characters, not bytes

---
 xstring/xstring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 8ead1e3..1f3f6ec 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -177,7 +177,7 @@ func Rotate(s string, shift int) string {
 		return s
 	}
 
-	sLen := len(s)
+	sLen := Len(s)
 	if sLen == 0 {
 		return s
 	}
@@ -189,7 +189,7 @@ func Rotate(s string, shift int) string {
 
 	offset := -(shiftMod)
 	sb := strings.Builder{}
-	sb.Grow(sLen)
+	sb.Grow(len(s))
 	_, _ = sb.WriteString(Right(s, offset))
 	_, _ = sb.WriteString(Left(s, offset))
 
-- 
2.43.0


From 4687a62b1292d7ddabee263a010e615730207e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 09/21] fix: xstring.Reverse accepts a valid U+FFFD

---
 xstring/xstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 1f3f6ec..5c489ce 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -286,7 +286,7 @@ func Reverse(s string) (string, error) {
 	for srcIndex > 0 {
 		r, n := utf8.DecodeLastRune(src[:srcIndex])
 
-		if r == utf8.RuneError {
+		if r == utf8.RuneError && n <= 1 {
 			return hack.BytesToString(dst), ErrDecodeChar
 		}
 
-- 
2.43.0


From a173fe7e2e332cab382de14677064368c1ab3f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 10/21] fix: xstring.DeleteWhitespace compares byte lengths

Multi-byte strings could be returned with their white space.
---
 xstring/xstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 5c489ce..e918e54 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -701,7 +701,7 @@ func DeleteWhitespace(str string) string {
 		}
 	}
 
-	if builder.Len() == strLen {
+	if builder.Len() == len(str) {
 		return str
 	}
 
-- 
2.43.0


From 4c6fe530e6c8e6597c1c4f8432e7577d54045470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 11/21] fix: xstring.EqualsIgnoreCase is false for a proper
 prefix

---
 xstring/xstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index e918e54..9ae99cc 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -759,7 +759,7 @@ func EqualsIgnoreCase(str1, str2 string) bool {
 		return true
 	}
 
-	return RegionMatches(str1, true, 0, str2, 0, Len(str1))
+	return Len(str1) == Len(str2) && RegionMatches(str1, true, 0, str2, 0, Len(str1))
 }
 
 // EqualsAny returns ture if str exists in strings.
-- 
2.43.0


From 97f8622761779cf4fe747f8616da0b1da5587fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 12/21] fix: xstring.Abbreviate keeps the text at the offset
 and the maximum width

---
 xstring/xstring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 9ae99cc..f22e3bb 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -807,12 +807,12 @@ func Abbreviate(str, abbrevMarker string, offset, maxWidth int) (string, error)
 		return empty, fmt.Errorf("minimum abbreviation width with offset is %d", minAbbrevWidthOffset)
 	}
 	if offset+maxWidth-abbrevMarkerLen < strLen {
-		substr, err := Abbreviate(Sub(str, 0, offset), abbrevMarker, 0, maxWidth-abbrevMarkerLen)
+		substr, err := Abbreviate(Right(str, offset), abbrevMarker, 0, maxWidth-abbrevMarkerLen)
 		if err == nil {
 			return abbrevMarker + substr, nil
 		}
 		return empty, err
 	}
 
-	return abbrevMarker + Sub(str, 0, strLen-(maxWidth-abbrevMarkerLen)), nil
+	return abbrevMarker + Right(str, strLen-(maxWidth-abbrevMarkerLen)), nil
 }
-- 
2.43.0


From 08f1424d4916fec1c53018fee5f00de0e854386b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 13/21] fix: xstring.IsNumerical accepts only a decimal point
 between the digits

---
 xstring/xstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index f22e3bb..de20484 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -493,7 +493,7 @@ func Contains(s string, searchChar string) bool {
 
 // IsNumerical returns ture if a numerical.
 func IsNumerical(s string) bool {
-	reg, _ := regexp.Compile(`^\d+.?\d*$`)
+	reg, _ := regexp.Compile(`^\d+\.?\d*$`)
 	return reg.MatchString(s)
 }
 
-- 
2.43.0


From 9616ba997092c6e015b25a3e8a3eb36b4e4933a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 14/21] fix: xbinary.WriteBytes refuses data that does not fit
 its length prefix

The length was silently truncated to 16 bits.
---
 xbinary/xbinary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xbinary/xbinary.go b/xbinary/xbinary.go
index 4d6b273..6d077ac 100644
--- a/xbinary/xbinary.go
+++ b/xbinary/xbinary.go
@@ -21,6 +21,7 @@ import (
 	"errors"
 	"github.com/chenquan/go-pkg/xbytes"
 	"io"
+	"math"
 )
 
 var (
@@ -119,6 +120,9 @@ func WriteUint32(w io.Writer, i uint32) error {
 
 // WriteBytes writes bytes.
 func WriteBytes(w io.Writer, s []byte) (err error) {
+	if len(s) > math.MaxUint16 {
+		return ErrInvalidLength
+	}
 	// length
 	err = WriteUint16(w, uint16(len(s)))
 	if err == nil {
-- 
2.43.0


From 9c5ed70a89ad4c0b3b981ef850b75efcdf2b1b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 15/21] fix: xbinary fixed-size reads accept readers that
 return short or final reads

A short read was taken for truncated input, a final read returning data with
io.EOF lost the value and ReadBool made up a value when nothing was read.
---
 xbinary/xbinary.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/xbinary/xbinary.go b/xbinary/xbinary.go
index 6d077ac..233b6e2 100644
--- a/xbinary/xbinary.go
+++ b/xbinary/xbinary.go
@@ -29,6 +29,15 @@ var (
 	ErrInvalidLength = errors.New("invalid length error")
 )
 
+// readFull fills data from r, which may return fewer bytes per call.
+func readFull(r io.Reader, data []byte) error {
+	_, err := io.ReadFull(r, data)
+	if err == io.ErrUnexpectedEOF {
+		return ErrInvalidLength
+	}
+	return err
+}
+
 // WriteUint16 writes unit16.
 func WriteUint16(w io.Writer, i uint16) error {
 	data := xbytes.MallocSize(2)
@@ -46,13 +55,9 @@ func ReadUint16(r io.Reader) (uint16, error) {
 	data := xbytes.MallocSize(2)
 	defer xbytes.Free(data)
 
-	n, err := r.Read(data)
-	if err != nil {
+	if err := readFull(r, data); err != nil {
 		return 0, err
 	}
-	if n < 2 {
-		return 0, ErrInvalidLength
-	}
 	return binary.BigEndian.Uint16(data), nil
 }
 
@@ -77,8 +82,7 @@ func ReadBool(r io.Reader) (bool, error) {
 	b := xbytes.MallocSize(1)
 	defer xbytes.Free(b)
 
-	_, err := r.Read(b)
-	if err != nil {
+	if err := readFull(r, b); err != nil {
 		return false, err
 	}
 	return b[0] == 1, nil
@@ -91,13 +95,9 @@ func ReadUint32(r io.Reader) (uint32, error) {
 	data := xbytes.MallocSize(4)
 	defer xbytes.Free(data)
 
-	n, err := r.Read(data)
-	if err != nil {
+	if err := readFull(r, data); err != nil {
 		return 0, err
 	}
-	if n < 4 {
-		return 0, ErrInvalidLength
-	}
 	return binary.BigEndian.Uint32(data), nil
 }
 
-- 
2.43.0


From def193be94633a04b15a5c124da1196ddd92314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 16/21] fix: xio sized getters respect the requested size for
 recycled objects

---
 xio/buffer.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/xio/buffer.go b/xio/buffer.go
index 13a6b34..89504d6 100644
--- a/xio/buffer.go
+++ b/xio/buffer.go
@@ -31,8 +31,11 @@ var (
 func GetBufferReaderSize(r io.Reader, size int) *bufio.Reader {
 	if v := bufReaderPool.Get(); v != nil {
 		br := v.(*bufio.Reader)
-		br.Reset(r)
-		return br
+		if br.Size() >= size {
+			br.Reset(r)
+			return br
+		}
+		bufReaderPool.Put(br)
 	}
 	return bufio.NewReaderSize(r, size)
 }
@@ -59,8 +62,11 @@ func PutBufferReader(r *bufio.Reader) {
 func GetBufferWriterSize(w io.Writer, size int) *bufio.Writer {
 	if v := bufWriterPool.Get(); v != nil {
 		bw := v.(*bufio.Writer)
-		bw.Reset(w)
-		return bw
+		if bw.Size() >= size {
+			bw.Reset(w)
+			return bw
+		}
+		bufWriterPool.Put(bw)
 	}
 	return bufio.NewWriterSize(w, size)
 }
-- 
2.43.0


From 590db36a83d5d3e76b475593376bf9ca20c24c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 17/21] fix: xmath integer Max and Min compare integers

The detour through float64 lost precision beyond 2^53.
---
 xmath/xmath.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/xmath/xmath.go b/xmath/xmath.go
index 2174ab1..52b6086 100644
--- a/xmath/xmath.go
+++ b/xmath/xmath.go
@@ -20,22 +20,34 @@ import "math"
 
 // MaxInt returns the maximum value.
 func MaxInt(a, b int) int {
-	return int(math.Max(float64(a), float64(b)))
+	if a > b {
+		return a
+	}
+	return b
 }
 
 // MinInt returns minimum value.
 func MinInt(a, b int) int {
-	return int(math.Min(float64(a), float64(b)))
+	if a < b {
+		return a
+	}
+	return b
 }
 
 // MaxInt64 returns the maximum value.
 func MaxInt64(a, b int64) int64 {
-	return int64(math.Max(float64(a), float64(b)))
+	if a > b {
+		return a
+	}
+	return b
 }
 
 // MinInt64 returns minimum value.
 func MinInt64(a, b int64) int64 {
-	return int64(math.Min(float64(a), float64(b)))
+	if a < b {
+		return a
+	}
+	return b
 }
 
 // MaxFloat64 returns the maximum value.
-- 
2.43.0


From 06c80028444d0cecccacb5a7f016307c2c184b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:27 +0000
Subject: [PATCH 18/21] fix: xmapreduce map functions cannot write to the
 closed output after a cancellation

---
 xmapreduce/xmapreduce.go | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/xmapreduce/xmapreduce.go b/xmapreduce/xmapreduce.go
index 7cf6d5d..f28c880 100644
--- a/xmapreduce/xmapreduce.go
+++ b/xmapreduce/xmapreduce.go
@@ -89,13 +89,13 @@ func buildSource(generateFunc GenerateFunc) chan interface{} {
 
 func doMap(ctx context.Context, mapFunc MapFunc, source <-chan interface{}, collector chan<- interface{}, option *options) {
 	waitGroup := sync.WaitGroup{}
+	writer := &collectorWriter{ctx: ctx, collector: collector}
 
 	defer func() {
 		waitGroup.Wait()
-		close(collector)
+		writer.close()
 	}()
 	worker := xworker.NewWorker(option.workerSize)
-	writer := xbarrier.NewWriteBarrier(ctx, collector)
 
 	for {
 		select {
@@ -114,3 +114,37 @@ func doMap(ctx context.Context, mapFunc MapFunc, source <-chan interface{}, coll
 		}
 	}
 }
+
+// collectorWriter writes to the collector until the context is done or the collector is closed.
+// A map function that ignores the cancellation may still be writing when the collector is closed.
+type collectorWriter struct {
+	ctx       context.Context
+	rw        sync.RWMutex
+	closed    bool
+	collector chan<- interface{}
+}
+
+// Write the value to the collector.
+func (w *collectorWriter) Write(v interface{}) (success bool) {
+	w.rw.RLock()
+	defer w.rw.RUnlock()
+
+	if w.closed || w.ctx.Err() != nil {
+		return false
+	}
+
+	select {
+	case <-w.ctx.Done():
+		return false
+	case w.collector <- v:
+		return true
+	}
+}
+
+func (w *collectorWriter) close() {
+	w.rw.Lock()
+	defer w.rw.Unlock()
+
+	w.closed = true
+	close(w.collector)
+}
-- 
2.43.0


From e792f6750fb8a81703fe51d2b1ba517b2485e384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:44 +0000
Subject: [PATCH 19/21] fix: xstream Tail works for sizes far larger than the
 stream

---
 xstream/ring.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xstream/ring.go b/xstream/ring.go
index 9359931..0f63c37 100644
--- a/xstream/ring.go
+++ b/xstream/ring.go
@@ -18,18 +18,24 @@ package xstream
 
 type ring struct {
 	elements []interface{}
+	size     uint
 	index    int
 }
 
 // newRing returns a ring object with the given size n.
 func newRing(n uint) *ring {
-	return &ring{elements: make([]interface{}, n)}
+	return &ring{size: n}
 }
 
 // add adds v into r.
 func (r *ring) add(v interface{}) {
 
-	r.elements[r.index%len(r.elements)] = v
+	// The elements are allocated as needed: n may be far larger than the stream.
+	if uint(len(r.elements)) < r.size {
+		r.elements = append(r.elements, v)
+	} else {
+		r.elements[r.index%len(r.elements)] = v
+	}
 	r.index++
 }
 
-- 
2.43.0


From c8c9d385576d013da4a17df854c0e3ff5f209a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:44 +0000
Subject: [PATCH 20/21] fix: xstream SplitSteam works for sizes far larger than
 the stream

---
 xstream/xstream.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/xstream/xstream.go b/xstream/xstream.go
index dbcda1a..7a02cec 100644
--- a/xstream/xstream.go
+++ b/xstream/xstream.go
@@ -217,20 +217,25 @@ func (s *Stream) SplitSteam(n int) *Stream {
 	}
 	source := make(chan interface{})
 	startGoroutine(func() {
-		var chunkSource = make(chan interface{}, n)
+		// A chunk is allocated as needed: n may be far larger than the stream.
+		var chunk []interface{}
+		send := func() {
+			chunkSource := make(chan interface{}, len(chunk))
+			for _, item := range chunk {
+				chunkSource <- item
+			}
+			close(chunkSource)
+			source <- Range(chunkSource)
+			chunk = nil
+		}
 		for item := range s.source {
-			chunkSource <- item
-			if len(chunkSource) == n {
-
-				source <- Range(chunkSource)
-				close(chunkSource)
-
-				chunkSource = make(chan interface{}, n)
+			chunk = append(chunk, item)
+			if len(chunk) == n {
+				send()
 			}
 		}
-		if len(chunkSource) != 0 {
-			source <- Range(chunkSource)
-			close(chunkSource)
+		if len(chunk) != 0 {
+			send()
 		}
 		close(source)
 	})
-- 
2.43.0


From b9534438e1343a3612e2fc2102896ccda015cefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:53 +0000
Subject: [PATCH 21/21] fix: Abbreviate treats a negative offset as the
 beginning of the string

strLen-offset overflowed for a very negative offset, and the end of the
string was kept instead of its beginning.
---
 xstring/xstring.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index de20484..24a9d94 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -797,6 +797,9 @@ func Abbreviate(str, abbrevMarker string, offset, maxWidth int) (string, error)
 	if offset > strLen {
 		offset = strLen
 	}
+	if offset < 0 {
+		offset = 0
+	}
 	if strLen-offset < maxWidth-abbrevMarkerLen {
 		offset = strLen - (maxWidth - abbrevMarkerLen)
 	}
-- 
2.43.0

