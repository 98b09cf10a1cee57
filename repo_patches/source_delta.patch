From 72b093edc7b2c73528612c905a12bfde2f25a5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:37 +0000
Subject: [PATCH 01/48] fix: reject malformed LEB128 numbers in every decoder

Numbers longer than five bytes or wider than 32 bits were accepted with
bits dropped. DecodeSlice accepted input ending inside a number.
DecodeReader failed when the reader returned the last byte together
with io.EOF.
---
 leb128/decode.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/leb128/decode.go b/leb128/decode.go
index 0c08921..033dfb2 100644
--- a/leb128/decode.go
+++ b/leb128/decode.go
@@ -6,6 +6,14 @@ import (
 	"io"
 )
 
+// the fifth byte of a 32 bit number holds its top four bits and ends it
+const (
+	lastShift = 28
+	lastMax   = 0b_0000_1111
+)
+
+var errOverflow = fmt.Errorf("leb128: number does not fit 32 bits")
+
 func DecodeReader(r io.Reader) (uint32, int, error) {
 	var val uint32
 	shift := 0
@@ -13,14 +21,14 @@ func DecodeReader(r io.Reader) (uint32, int, error) {
 	buf := make([]byte, 1)
 
 	for {
-		n, err := r.Read(buf)
-		if n == 0 {
-			return 0, 0, fmt.Errorf("expected 1 byte read but read 0")
-		}
+		_, err := io.ReadFull(r, buf)
 		if err != nil {
 			return 0, 0, err
 		}
 		b := buf[0]
+		if shift == lastShift && b > lastMax {
+			return 0, 0, errOverflow
+		}
 		total++
 		val |= (uint32(b&0b_0111_1111) << shift)
 		if b&0b_1000_0000 == 0 {
@@ -40,6 +48,9 @@ func Decode(r *bufio.Reader) (uint32, int, error) {
 		if err != nil {
 			return 0, 0, err
 		}
+		if shift == lastShift && b > lastMax {
+			return 0, 0, errOverflow
+		}
 		total++
 		val |= (uint32(b&0b_0111_1111) << shift)
 		if b&0b_1000_0000 == 0 {
@@ -56,12 +67,15 @@ func DecodeSlice(s []byte) (uint32, int, error) {
 	total := 0
 	for index := 0; index < len(s); index++ {
 		b := s[index]
+		if shift == lastShift && b > lastMax {
+			return 0, 0, errOverflow
+		}
 		total++
 		val |= (uint32(b&0b_0111_1111) << shift)
 		if b&0b_1000_0000 == 0 {
-			break
+			return val, total, nil
 		}
 		shift += 7
 	}
-	return val, total, nil
+	return 0, 0, io.ErrUnexpectedEOF
 }
-- 
2.43.0


From e32e8f3e292700c9d9dfef352281282fb699e9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:09 +0000
Subject: [PATCH 02/48] fix: compute aligned addresses exactly and report
 overflow

---
 abi/io/alignment.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/abi/io/alignment.go b/abi/io/alignment.go
index 03b08dc..2204b43 100644
--- a/abi/io/alignment.go
+++ b/abi/io/alignment.go
@@ -8,7 +8,14 @@ import (
 )
 
 func AlignTo(ptr, alignment uint32) (uint32, error) {
-	return uint32(math.Ceil(float64(ptr)/float64(alignment)) * float64(alignment)), nil
+	if alignment == 0 {
+		return 0, types.TrapWith("AlignTo: unable to align ptr %d to 0", ptr)
+	}
+	aligned := (uint64(ptr) + uint64(alignment) - 1) / uint64(alignment) * uint64(alignment)
+	if aligned > math.MaxUint32 {
+		return 0, types.TrapWith("AlignTo: ptr %d aligned to %d exceeds the address space", ptr, alignment)
+	}
+	return uint32(aligned), nil
 }
 
 func Alignment(t types.ValType) (uint32, error) {
@@ -75,11 +82,11 @@ func AlignmentVariant(v types.Variant) (uint32, error) {
 	}
 	alignment, err := Alignment(dt)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	maxAlignment, err := MaxCaseAlignment(v.Cases())
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	return max(alignment, maxAlignment), nil
 }
-- 
2.43.0


From 1bb0aa499d69cc279881c31ed01946e55e03420d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:26 +0000
Subject: [PATCH 03/48] fix: check that loads stay inside memory without
 wrapping around

---
 abi/io/canon_lift.go |  4 ++--
 abi/io/load.go       | 24 +++++++++++++-----------
 abi/io/memory.go     | 14 ++++++++++++++
 3 files changed, 29 insertions(+), 13 deletions(-)
 create mode 100644 abi/io/memory.go

diff --git a/abi/io/canon_lift.go b/abi/io/canon_lift.go
index 925670a..700c382 100644
--- a/abi/io/canon_lift.go
+++ b/abi/io/canon_lift.go
@@ -121,8 +121,8 @@ func LiftValues(cx *types.CallContext, maxFlat int, vi values.ValueIterator, ts
 		return nil, err
 	}
 
-	if ptr+size > uint32(cx.Options.Memory.Len()) {
-		return nil, types.TrapWith("ptr %d + offset %d is greater than len(memory) %d", ptr, size, cx.Options.Memory.Len())
+	if _, err := memoryRange(cx, ptr, uint64(size)); err != nil {
+		return nil, err
 	}
 
 	load, err := Load(cx, tupleType, ptr)
diff --git a/abi/io/load.go b/abi/io/load.go
index 9be637e..31c486d 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -135,7 +135,10 @@ func LoadInt(c *types.CallContext, ptr uint32, t types.ValType) (any, error) {
 	if err != nil {
 		return nil, err
 	}
-	buf := c.Options.Memory.Bytes()[ptr : ptr+size]
+	buf, err := memoryRange(c, ptr, uint64(size))
+	if err != nil {
+		return nil, err
+	}
 	switch t.(type) {
 	case types.U8:
 		return buf[0], nil
@@ -233,7 +236,7 @@ func LoadStringFromRange(cx *types.CallContext, ptr, taggedCodeUnits uint32) (st
 		return "", err
 	}
 
-	byteLength := tcu.CodeUnits * uint32(codec.RuneSize())
+	byteLength := uint64(tcu.CodeUnits) * uint64(codec.RuneSize())
 	align, err := AlignTo(ptr, uint32(codec.Alignment()))
 
 	if err != nil {
@@ -244,11 +247,10 @@ func LoadStringFromRange(cx *types.CallContext, ptr, taggedCodeUnits uint32) (st
 		return "", types.TrapWith("error aligning ptr %d to %d", ptr, uint32(codec.Alignment()))
 	}
 
-	if ptr+byteLength > uint32(cx.Options.Memory.Len()) {
-		return "", types.TrapWith("destination %d > memory size %d", ptr+byteLength, cx.Options.Memory.Len())
+	buf, err := memoryRange(cx, ptr, byteLength)
+	if err != nil {
+		return "", err
 	}
-
-	buf := cx.Options.Memory.Bytes()[ptr : ptr+byteLength]
 	return encoding.DecodeString(codec, bytes.NewReader(buf))
 }
 
@@ -283,8 +285,8 @@ func LoadListFromRange(cx *types.CallContext, ptr uint32, length uint32, element
 	if err != nil {
 		return nil, err
 	}
-	if ptr+length*size > uint32(cx.Options.Memory.Len()) {
-		return nil, types.TrapWith("destination size %d is greater than memory size %d", ptr+length*size, cx.Options.Memory.Len())
+	if _, err := memoryRange(cx, ptr, uint64(length)*uint64(size)); err != nil {
+		return nil, err
 	}
 	var list []any
 	var i uint32 = 0
@@ -330,6 +332,9 @@ func LoadVariant(cx *types.CallContext, ptr uint32, v types.Variant) (map[string
 		return nil, err
 	}
 	caseIndex, err := LoadInt(cx, ptr, dt)
+	if err != nil {
+		return nil, err
+	}
 	var u32CaseIndex uint32 = 0
 	switch dt.(type) {
 	case types.U8:
@@ -342,9 +347,6 @@ func LoadVariant(cx *types.CallContext, ptr uint32, v types.Variant) (map[string
 		// could cause problems if caseIndex is actually a u64
 		u32CaseIndex = uint32(caseIndex.(uint64))
 	}
-	if err != nil {
-		return nil, err
-	}
 
 	discSize, err := Size(dt)
 	if err != nil {
diff --git a/abi/io/memory.go b/abi/io/memory.go
new file mode 100644
index 0000000..7ac2e36
--- /dev/null
+++ b/abi/io/memory.go
@@ -0,0 +1,14 @@
+package io
+
+import "github.com/patrickhuber/go-wasm/abi/types"
+
+// memoryRange returns the size bytes of linear memory starting at ptr.
+// It traps if any of them is outside of the memory.
+func memoryRange(cx *types.CallContext, ptr uint32, size uint64) ([]byte, error) {
+	memory := cx.Options.Memory.Bytes()
+	end := uint64(ptr) + size
+	if end > uint64(len(memory)) {
+		return nil, types.TrapWith("end of range %d is greater than memory size %d", end, len(memory))
+	}
+	return memory[ptr:end], nil
+}
-- 
2.43.0


From d552a0a25b1726d98a10831f8acd148ccc4f0c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:27 +0000
Subject: [PATCH 04/48] fix: stop following cyclic case refinements

---
 abi/io/load.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abi/io/load.go b/abi/io/load.go
index 31c486d..772ef12 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -386,7 +386,8 @@ func LoadVariant(cx *types.CallContext, ptr uint32, v types.Variant) (map[string
 
 func CaseLabelWithRefinements(c types.Case, cases []types.Case) string {
 	label := c.Label
-	for {
+	// a chain of refinements visits each case at most once
+	for range cases {
 		if c.Refines == nil {
 			break
 		}
-- 
2.43.0


From b233013770e5de0dbf6fb78a729f924b17054b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:14 +0000
Subject: [PATCH 05/48] fix: keep flags beyond the 64th label

---
 abi/io/lift.go  | 13 ++++++-------
 abi/io/load.go  | 49 ++++++++++++++++++++++++++++---------------------
 abi/io/lower.go | 15 +++++----------
 abi/io/store.go | 36 ++++++++++++++++++++++++++++++++----
 4 files changed, 71 insertions(+), 42 deletions(-)

diff --git a/abi/io/lift.go b/abi/io/lift.go
index 79abc1a..6914cf9 100644
--- a/abi/io/lift.go
+++ b/abi/io/lift.go
@@ -323,10 +323,8 @@ func LiftFlatVariant(cx *types.CallContext, vi values.ValueIterator, variant typ
 }
 
 func LiftFlatFlags(vi values.ValueIterator, f types.Flags) (any, error) {
-	var flat uint64 = 0
-	shift := 0
-	numFlags := NumI32Flags(f.Labels())
-	for i := 0; i < int(numFlags); i++ {
+	flagMap := map[string]any{}
+	for _, word := range splitFlags(f) {
 		next, err := vi.Next(kind.U32)
 		if err != nil {
 			return nil, err
@@ -335,8 +333,9 @@ func LiftFlatFlags(vi values.ValueIterator, f types.Flags) (any, error) {
 		if !ok {
 			return nil, types.NewCastError(next, "int32")
 		}
-		flat |= (uint64(u32Next) << shift)
-		shift += 32
+		for label, flag := range UnpackFlagsFromInt(uint64(u32Next), word.Labels()) {
+			flagMap[label] = flag
+		}
 	}
-	return UnpackFlagsFromInt(flat, f.Labels()), nil
+	return flagMap, nil
 }
diff --git a/abi/io/load.go b/abi/io/load.go
index 772ef12..8e2006a 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -416,31 +416,38 @@ func LoadFlags(cx *types.CallContext, ptr uint32, flags types.Flags) (map[string
 		return nil, err
 	}
 
-	i, err := LoadIntWithSize(cx, ptr, size, false)
-	if err != nil {
-		return nil, err
+	// more than 32 flags are stored as a sequence of u32
+	nbytes := size
+	if len(flags.Labels()) > 32 {
+		nbytes = SizeOfU32
 	}
 
-	var ui uint64 = 0
-	switch size {
-	case 1:
-		ui = uint64(i.(uint8))
-	case 2:
-		ui = uint64(i.(uint16))
-	case 4:
-		ui = uint64(i.(uint32))
-	case 8:
-		ui = i.(uint64)
-	}
 	flagMap := map[string]any{}
-	for _, label := range flags.Labels() {
-		v := ui & 1
-		b := false
-		if v > 0 {
-			b = true
+	for _, word := range splitFlags(flags) {
+		i, err := LoadIntWithSize(cx, ptr, nbytes, false)
+		if err != nil {
+			return nil, err
+		}
+
+		var ui uint64 = 0
+		switch nbytes {
+		case 1:
+			ui = uint64(i.(uint8))
+		case 2:
+			ui = uint64(i.(uint16))
+		case 4:
+			ui = uint64(i.(uint32))
+		}
+		for _, label := range word.Labels() {
+			v := ui & 1
+			b := false
+			if v > 0 {
+				b = true
+			}
+			flagMap[label] = b
+			ui >>= 1
 		}
-		flagMap[label] = b
-		ui >>= 1
+		ptr += nbytes
 	}
 	return flagMap, nil
 }
diff --git a/abi/io/lower.go b/abi/io/lower.go
index d0d93cb..f5040e9 100644
--- a/abi/io/lower.go
+++ b/abi/io/lower.go
@@ -224,19 +224,14 @@ func LowerFlatFlags(cx *types.CallContext, v any, f types.Flags) ([]values.Value
 	if !ok {
 		return nil, types.NewCastError(v, "map[string]any")
 	}
-	packed, err := PackFlagsIntoInt(vMap, f)
-	if err != nil {
-		return nil, err
-	}
 	var flat []values.Value
-	numFlags := NumI32Flags(f.Labels())
-	for i := 0; i < int(numFlags); i++ {
+	for _, word := range splitFlags(f) {
+		packed, err := PackFlagsIntoInt(vMap, word)
+		if err != nil {
+			return nil, err
+		}
 		u32 := values.U32(packed & 0xffffffff)
 		flat = append(flat, u32)
-		packed >>= 32
-	}
-	if packed != 0 {
-		return nil, fmt.Errorf("invalid flag value")
 	}
 	return flat, nil
 }
diff --git a/abi/io/store.go b/abi/io/store.go
index 54e959c..91f389c 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -513,16 +513,30 @@ func StoreVariant(cx *types.CallContext, val any, ptr uint32, v types.Variant) e
 }
 
 func StoreFlags(c *types.CallContext, val any, ptr uint32, f types.Flags) error {
-	vMap := val.(map[string]any)
-	i, err := PackFlagsIntoInt(vMap, f)
+	vMap, err := ToMapStringAny(val)
 	if err != nil {
 		return err
 	}
-	size, err := Size(f)
+	nbytes, err := Size(f)
 	if err != nil {
 		return err
 	}
-	return StoreInt(c, i, ptr, size, false)
+	// more than 32 flags are stored as a sequence of u32
+	if len(f.Labels()) > 32 {
+		nbytes = SizeOfU32
+	}
+	for _, word := range splitFlags(f) {
+		i, err := PackFlagsIntoInt(vMap, word)
+		if err != nil {
+			return err
+		}
+		err = StoreInt(c, i, ptr, nbytes, false)
+		if err != nil {
+			return err
+		}
+		ptr += nbytes
+	}
+	return nil
 }
 
 func ToMapStringAny(val any) (map[string]any, error) {
@@ -533,6 +547,20 @@ func ToMapStringAny(val any) (map[string]any, error) {
 	return nil, types.NewCastError(val, "map[string]any")
 }
 
+// splitFlags splits the flags into groups of at most 32 labels
+func splitFlags(f types.Flags) []types.Flags {
+	var words []types.Flags
+	labels := f.Labels()
+	for len(labels) > 32 {
+		words = append(words, types.NewFlags(labels[:32]...))
+		labels = labels[32:]
+	}
+	if len(labels) > 0 {
+		words = append(words, types.NewFlags(labels...))
+	}
+	return words
+}
+
 func PackFlagsIntoInt(v map[string]any, flags types.Flags) (uint64, error) {
 	var packed uint64 = 0
 	shift := 0
-- 
2.43.0


From 18ceb94726fd2b4f87e829a3ae9458cfa2403790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:25 +0000
Subject: [PATCH 06/48] fix: do not strip the tag bit from untagged string
 lengths

---
 abi/io/load.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/abi/io/load.go b/abi/io/load.go
index 8e2006a..c957d51 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -223,6 +223,10 @@ func LoadStringFromRange(cx *types.CallContext, ptr, taggedCodeUnits uint32) (st
 
 	srcEncoding := cx.Options.StringEncoding
 	tcu := UInt32ToTaggedCodeUnits(taggedCodeUnits)
+	if srcEncoding == encoding.UTF8 || srcEncoding == encoding.Latin1 {
+		// the length of a single byte encoding has no tag
+		tcu = TaggedCodeUnits{CodeUnits: taggedCodeUnits}
+	}
 	if srcEncoding == encoding.Latin1Utf16 {
 		if tcu.UTF16 {
 			srcEncoding = encoding.UTF16LE
-- 
2.43.0


From 5a773880eccb2b545f24568b2223a1b903ef9ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:25 +0000
Subject: [PATCH 07/48] fix: report the end of a core value sequence instead of
 crashing

---
 abi/values/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abi/values/value.go b/abi/values/value.go
index 3bdcd3c..f996387 100644
--- a/abi/values/value.go
+++ b/abi/values/value.go
@@ -30,7 +30,7 @@ type valueIterator struct {
 }
 
 func (vi *valueIterator) Next(k kind.Kind) (any, error) {
-	if vi.Length() == 0 {
+	if vi.index >= vi.Length() {
 		return nil, fmt.Errorf("eof")
 	}
 
-- 
2.43.0


From b08d0a65024d50e1e4b77f6deb86490c5c50a414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:01 +0000
Subject: [PATCH 08/48] fix: check that stores stay inside memory and trust no
 allocator result

---
 abi/io/canon_lower.go |  4 ++--
 abi/io/store.go       | 36 ++++++++++++++++++++++--------------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index f3e3143..fece85e 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -133,8 +133,8 @@ func LowerValuesToTuple(ts []types.ValType, vs []any, outParam values.ValueItera
 	if ptr != align {
 		return nil, fmt.Errorf("ptr %d does not align to %d", ptr, align)
 	}
-	if ptr+size > uint32(cx.Options.Memory.Len()) {
-		return nil, fmt.Errorf("ptr %d is greater than memory size %d", ptr+size, cx.Options.Memory.Len())
+	if _, err := memoryRange(cx, ptr, uint64(size)); err != nil {
+		return nil, err
 	}
 	return []any{ptr}, nil
 }
diff --git a/abi/io/store.go b/abi/io/store.go
index 91f389c..df2e0f0 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -90,10 +90,7 @@ func StoreValidate(c *types.CallContext, t types.ValType, ptr uint32) error {
 		return err
 	}
 
-	if ptr+size > uint32(c.Options.Memory.Len()) {
-		return fmt.Errorf("Store: %d exceeds memory length %d", ptr+size, c.Options.Memory.Len())
-	}
-
+	_, err = memoryRange(c, ptr, uint64(size))
 	return err
 }
 
@@ -281,7 +278,18 @@ func StoreStringDynamic(
 		return 0, 0, err
 	}
 
-	buf := cx.Options.Memory.Bytes()[ptr : ptr+lenEncoded]
+	align, err := AlignTo(ptr, dstAlignment)
+	if err != nil {
+		return 0, 0, err
+	}
+	if ptr != align {
+		return 0, 0, types.TrapWith("ptr %d is not aligned to destination %d", ptr, dstAlignment)
+	}
+
+	buf, err := memoryRange(cx, ptr, uint64(lenEncoded))
+	if err != nil {
+		return 0, 0, err
+	}
 	copy(buf, encoded)
 
 	// return the pointer and the adjusted length (in runes)
@@ -305,8 +313,9 @@ func StoreStringCopy(cx *types.CallContext, src string, srcCodeUnits uint32, dst
 	if ptr != align {
 		return 0, 0, types.TrapWith("ptr %d is not aligned to destination %d", ptr, dstAlignment)
 	}
-	if ptr+dstByteLength > uint32(cx.Options.Memory.Len()) {
-		return 0, 0, types.TrapWith("array size %d is greater than the memory size %d", ptr+dstByteLength, cx.Options.Memory.Len())
+	buf, err := memoryRange(cx, ptr, uint64(dstByteLength))
+	if err != nil {
+		return 0, 0, err
 	}
 
 	encoded, err := encoding.EncodeString(dstEncoding, src)
@@ -314,7 +323,6 @@ func StoreStringCopy(cx *types.CallContext, src string, srcCodeUnits uint32, dst
 		return 0, 0, err
 	}
 
-	buf := cx.Options.Memory.Bytes()[ptr : ptr+dstByteLength]
 	copy(buf, encoded)
 
 	return ptr, srcCodeUnits, err
@@ -341,8 +349,8 @@ func StoreUtf8ToUtf16(cx *types.CallContext, src string, srcCodeUnits uint32) (u
 		return 0, 0, types.TrapWith("ptr %d is not alinged to 2", ptr)
 	}
 
-	if ptr+worstCaseSize > uint32(cx.Options.Memory.Len()) {
-		return 0, 0, types.TrapWith("worst case size %d is greater than memory size %d", ptr+worstCaseSize, cx.Options.Memory.Len())
+	if _, err := memoryRange(cx, ptr, uint64(worstCaseSize)); err != nil {
+		return 0, 0, err
 	}
 
 	encoded, err := encoding.EncodeString(encoding.NewUTF16(), src)
@@ -401,8 +409,8 @@ func StoreListIntoRange(cx *types.CallContext, v any, elementType types.ValType)
 	}
 
 	byteLengthInt := len(slice) * int(size)
-	if byteLengthInt >= math.MaxInt {
-		return 0, 0, types.TrapWith("byte length %d exceeds max of %d", byteLengthInt, math.MaxInt)
+	if uint64(byteLengthInt) > math.MaxUint32 {
+		return 0, 0, types.TrapWith("byte length %d exceeds max of %d", byteLengthInt, uint32(math.MaxUint32))
 	}
 	byteLength := uint32(byteLengthInt)
 
@@ -424,8 +432,8 @@ func StoreListIntoRange(cx *types.CallContext, v any, elementType types.ValType)
 		return 0, 0, types.TrapWith("ptr %d not aligned to %d", ptr, alignment)
 	}
 
-	if ptr+byteLength > uint32(cx.Options.Memory.Len()) {
-		return 0, 0, types.TrapWith("ptr %d exceeds mememory size %d", ptr+byteLength, cx.Options.Memory.Len())
+	if _, err := memoryRange(cx, ptr, uint64(byteLength)); err != nil {
+		return 0, 0, err
 	}
 
 	for i, element := range slice {
-- 
2.43.0


From a9a0f5e6d8850c2a841e8d30aabdaf541d97dbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:03 +0000
Subject: [PATCH 09/48] fix: refuse host values that do not belong to the
 stored type

---
 abi/io/lower.go | 13 +++++++++++--
 abi/io/store.go | 46 ++++++++++++++++++++++++++++++----------------
 2 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/abi/io/lower.go b/abi/io/lower.go
index f5040e9..b3b09ee 100644
--- a/abi/io/lower.go
+++ b/abi/io/lower.go
@@ -170,13 +170,22 @@ func LowerFloat64(v any) ([]values.Value, error) {
 }
 
 func LowerChar(v any) ([]values.Value, error) {
-	r := v.(rune)
+	r, ok := v.(rune)
+	if !ok {
+		return nil, types.NewCastError(v, "rune")
+	}
+	if _, err := ConvertU32ToRune(uint32(r)); err != nil {
+		return nil, err
+	}
 	i := values.U32(r)
 	return slice(i), nil
 }
 
 func LowerString(cx *types.CallContext, v any) ([]values.Value, error) {
-	str := v.(string)
+	str, ok := v.(string)
+	if !ok {
+		return nil, types.NewCastError(v, "string")
+	}
 	ptr, packedLength, err := StoreStringIntoRange(cx, str)
 	if err != nil {
 		return nil, err
diff --git a/abi/io/store.go b/abi/io/store.go
index df2e0f0..ff68366 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -52,6 +52,9 @@ func Store(c *types.CallContext, val any, t types.ValType, ptr uint32) error {
 		if !ok {
 			return types.NewCastError(val, "rune")
 		}
+		if _, err := ConvertU32ToRune(uint32(r)); err != nil {
+			return err
+		}
 		return StoreInt(c, uint32(r), ptr, SizeOfChar, false)
 	case types.String:
 		s, ok := val.(string)
@@ -96,12 +99,18 @@ func StoreValidate(c *types.CallContext, t types.ValType, ptr uint32) error {
 
 func StoreFloat(c *types.CallContext, val any, ptr uint32, nbytes uint32) error {
 	if nbytes == SizeOfFloat32 {
-		f := val.(float32)
+		f, ok := val.(float32)
+		if !ok {
+			return types.NewCastError(val, "float32")
+		}
 		f = CanonicalizeFloat32(f)
 		i := math.Float32bits(f)
 		return StoreInt(c, i, ptr, nbytes, false)
 	} else {
-		f := val.(float64)
+		f, ok := val.(float64)
+		if !ok {
+			return types.NewCastError(val, "float64")
+		}
 		f = CanonicalizeFloat64(f)
 		i := math.Float64bits(f)
 		return StoreInt(c, i, ptr, nbytes, false)
@@ -116,46 +125,51 @@ func StoreUInt32(c *types.CallContext, val uint32, ptr uint32) error {
 
 func StoreInt(c *types.CallContext, val any, ptr uint32, nbytes uint32, signed bool) error {
 	var u64 uint64
-	var max uint64
-	var min int64 = 0
 	sign := false
 	switch t := val.(type) {
 	case uint8:
 		u64 = uint64(t)
-		max = math.MaxUint8
 	case uint16:
 		u64 = uint64(t)
-		max = math.MaxUint16
 	case uint32:
 		u64 = uint64(t)
-		max = math.MaxUint32
 	case uint64:
 		u64 = t
-		max = math.MaxUint64
 	case int8:
 		u64 = uint64(t)
 		sign = true
-		max = math.MaxInt8
-		min = math.MinInt8
 	case int16:
 		u64 = uint64(t)
 		sign = true
-		max = math.MaxInt16
-		min = math.MinInt16
 	case int32:
 		u64 = uint64(t)
 		sign = true
-		max = math.MaxInt32
-		min = math.MinInt32
 	case int64:
 		u64 = uint64(t)
 		sign = true
-		max = math.MaxInt64
-		min = math.MinInt64
 	case int:
 		return fmt.Errorf("unable to store int. Use sized variant")
 	case uint:
 		return fmt.Errorf("unable to store uint. Use sized variant")
+	default:
+		return types.NewCastError(val, "integer")
+	}
+
+	// the range is given by the destination, not by the type of the value
+	var max uint64
+	var min int64
+	switch nbytes {
+	case SizeOfS8:
+		max, min = math.MaxUint8, math.MinInt8
+	case SizeOfS16:
+		max, min = math.MaxUint16, math.MinInt16
+	case SizeOfS32:
+		max, min = math.MaxUint32, math.MinInt32
+	case SizeOfS64:
+		max, min = math.MaxUint64, math.MinInt64
+	}
+	if signed {
+		max >>= 1
 	}
 
 	if sign != signed {
-- 
2.43.0


From f130c1cc3dcf80efc7a442ae7a6adbafb80a20b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:42 +0000
Subject: [PATCH 10/48] fix: reuse the removed handle index and create the
 table map on demand

---
 abi/types/handle.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abi/types/handle.go b/abi/types/handle.go
index a4a41a1..e640034 100644
--- a/abi/types/handle.go
+++ b/abi/types/handle.go
@@ -59,7 +59,7 @@ func (ht *HandleTable) Remove(rt ResourceType, i uint32) (*HandleElem, error) {
 		return nil, TrapWith("handle table end count != 0")
 	}
 	ht.Array[i] = nil
-	ht.Free = stack.Push(ht.Free, uint32(len(ht.Free)))
+	ht.Free = stack.Push(ht.Free, i)
 	if h.Scope != nil {
 		h.Scope.RemoveBorrowFromTable()
 	}
@@ -74,6 +74,9 @@ func (ht *HandleTables) Table(rt ResourceType) *HandleTable {
 	t, ok := ht.ResourceTypeToTable[rt]
 	if !ok {
 		t = &HandleTable{}
+		if ht.ResourceTypeToTable == nil {
+			ht.ResourceTypeToTable = map[ResourceType]*HandleTable{}
+		}
 		ht.ResourceTypeToTable[rt] = t
 	}
 	return t
-- 
2.43.0


From b0ae41dd239280834e8158efb0b171227298a8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:42 +0000
Subject: [PATCH 11/48] fix: give away only owned handles and store handles in
 memory

---
 abi/io/lift.go  |  8 +++++++-
 abi/io/store.go | 12 ++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/abi/io/lift.go b/abi/io/lift.go
index 6914cf9..9f878c2 100644
--- a/abi/io/lift.go
+++ b/abi/io/lift.go
@@ -9,10 +9,16 @@ import (
 )
 
 func LiftOwn(cx *types.CallContext, i uint32, own types.Own) (uint32, error) {
-	h, err := cx.Instance.Handles.Remove(own.ResourceType(), i)
+	h, err := cx.Instance.Handles.Get(own.ResourceType(), i)
 	if err != nil {
 		return 0, err
 	}
+	if !h.Own {
+		return 0, types.TrapWith("handle %d is borrowed and can not be given away", i)
+	}
+	if _, err := cx.Instance.Handles.Remove(own.ResourceType(), i); err != nil {
+		return 0, err
+	}
 	return h.Rep, nil
 }
 
diff --git a/abi/io/store.go b/abi/io/store.go
index ff68366..94a99de 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -70,6 +70,18 @@ func Store(c *types.CallContext, val any, t types.ValType, ptr uint32) error {
 		return StoreVariant(c, val, ptr, vt)
 	case types.Flags:
 		return StoreFlags(c, val, ptr, vt)
+	case types.Own:
+		i, err := LowerOwn(c, val, vt)
+		if err != nil {
+			return err
+		}
+		return StoreInt(c, i, ptr, SizeOfU32, false)
+	case types.Borrow:
+		i, err := LowerBorrow(c, val, vt)
+		if err != nil {
+			return err
+		}
+		return StoreInt(c, i, ptr, SizeOfU32, false)
 	}
 	return types.TrapWith("Store: unrecognized type %T", t)
 }
-- 
2.43.0


From 747223a5495a7c74375651a951cd3dc768ff8baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:42 +0000
Subject: [PATCH 12/48] fix: store and read spilled values in order

---
 abi/io/canon_lift.go  | 5 +++--
 abi/io/canon_lower.go | 8 +++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/abi/io/canon_lift.go b/abi/io/canon_lift.go
index 700c382..19dae8c 100644
--- a/abi/io/canon_lift.go
+++ b/abi/io/canon_lift.go
@@ -2,6 +2,7 @@ package io
 
 import (
 	"fmt"
+	"strconv"
 
 	"github.com/patrickhuber/go-wasm/abi/kind"
 	"github.com/patrickhuber/go-wasm/abi/types"
@@ -136,8 +137,8 @@ func LiftValues(cx *types.CallContext, maxFlat int, vi values.ValueIterator, ts
 	}
 
 	values := []any{}
-	for _, v := range m {
-		values = append(values, v)
+	for i := range ts {
+		values = append(values, m[strconv.Itoa(i)])
 	}
 	return values, nil
 }
diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index fece85e..3e33f87 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -69,6 +69,9 @@ func CanonLower(
 }
 
 func LowerValues(cx *types.CallContext, maxFlat int, vs []any, ts []types.ValType, outParam values.ValueIterator) ([]any, error) {
+	if len(vs) != len(ts) {
+		return nil, fmt.Errorf("expected %d values but found %d", len(ts), len(vs))
+	}
 	flatTypes, err := FlattenTypes(ts)
 	if err != nil {
 		return nil, err
@@ -136,5 +139,8 @@ func LowerValuesToTuple(ts []types.ValType, vs []any, outParam values.ValueItera
 	if _, err := memoryRange(cx, ptr, uint64(size)); err != nil {
 		return nil, err
 	}
-	return []any{ptr}, nil
+	if err := Store(cx, tupleValue, tupleType, ptr); err != nil {
+		return nil, err
+	}
+	return []any{values.U32(ptr)}, nil
 }
-- 
2.43.0


From 2db1252132e358d75be9fe688a36c8aca32a8471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:42 +0000
Subject: [PATCH 13/48] fix: keep the caller closed while it calls an import

---
 abi/io/canon_lower.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index 3e33f87..d4b8e2e 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -47,6 +47,9 @@ func CanonLower(
 		return nil, err
 	}
 
+	if callingImport {
+		inst.MayEnter = false
+	}
 	results, postReturn, err := callee(lifted)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 723fdddf3089b99ab7bc116760f648a4d614b7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:42 +0000
Subject: [PATCH 14/48] fix: report borrows that outlive a lowered call

---
 abi/io/canon_lower.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index d4b8e2e..c19b159 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -63,7 +63,9 @@ func CanonLower(
 	inst.MayLeave = true
 
 	postReturn()
-	cx.ExitCall()
+	if err := cx.ExitCall(); err != nil {
+		return nil, err
+	}
 
 	if callingImport {
 		inst.MayEnter = true
-- 
2.43.0


From 197ea52b7e56ce543a3ce990c0fc9979856ea215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:00 +0000
Subject: [PATCH 15/48] fix: allocate no more for a binary module than its
 input provides

---
 binary/read.go | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/binary/read.go b/binary/read.go
index 0748f7e..0e2a378 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -1,6 +1,7 @@
 package binary
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -105,11 +106,8 @@ func ReadModule(reader io.Reader) (*api.Module, error) {
 			module.Exports = exports
 		default:
 			// skip unknown sections
-			data := make([]byte, size)
-			if size > 0 {
-				if _, err := io.ReadFull(reader, data); err != nil {
-					return nil, fmt.Errorf("failed to read section %d: %w", sectionID, err)
-				}
+			if _, err := io.CopyN(io.Discard, reader, int64(size)); err != nil {
+				return nil, fmt.Errorf("failed to read section %d: %w", sectionID, err)
 			}
 		}
 	}
@@ -139,13 +137,13 @@ func ReadFuncTypes(size uint32, reader io.Reader) ([]*api.FuncType, error) {
 	if err != nil {
 		return nil, err
 	}
-	types := make([]*api.FuncType, count)
+	types := []*api.FuncType{}
 	for i := uint32(0); i < count; i++ {
 		t, err := ReadType(reader)
 		if err != nil {
 			return nil, err
 		}
-		types[i] = t
+		types = append(types, t)
 	}
 	return types, nil
 }
@@ -188,13 +186,13 @@ func ReadValueTypeVector(reader io.Reader) ([]api.ValType, error) {
 	if err != nil {
 		return nil, err
 	}
-	valueTypes := make([]api.ValType, size)
+	valueTypes := []api.ValType{}
 	for i := uint32(0); i < size; i++ {
 		vt, err := ReadValueType(reader)
 		if err != nil {
 			return nil, err
 		}
-		valueTypes[i] = vt
+		valueTypes = append(valueTypes, vt)
 	}
 	return valueTypes, nil
 }
@@ -224,13 +222,13 @@ func ReadFuncs(size uint32, reader io.Reader) ([]*api.Func, error) {
 		return nil, err
 	}
 
-	funcs := make([]*api.Func, count)
+	funcs := []*api.Func{}
 	for i := uint32(0); i < count; i++ {
 		result, err := ReadFunc(reader)
 		if err != nil {
 			return nil, err
 		}
-		funcs[i] = result
+		funcs = append(funcs, result)
 	}
 
 	return funcs, nil
@@ -252,13 +250,13 @@ func ReadExports(size uint32, reader io.Reader) ([]api.Export, error) {
 		return nil, err
 	}
 
-	exports := make([]api.Export, count)
+	exports := []api.Export{}
 	for i := uint32(0); i < count; i++ {
 		export, err := ReadExport(reader)
 		if err != nil {
 			return nil, err
 		}
-		exports[i] = export
+		exports = append(exports, export)
 	}
 
 	return exports, nil
@@ -304,13 +302,12 @@ func ReadString(reader io.Reader) (string, error) {
 		return "", nil
 	}
 
-	buf := make([]byte, size)
-	err = binary.Read(reader, binary.LittleEndian, buf)
-	if err != nil {
+	var buf bytes.Buffer
+	if _, err := io.CopyN(&buf, reader, int64(size)); err != nil {
 		return "", err
 	}
 
-	return string(buf), nil
+	return buf.String(), nil
 }
 
 func ReadExpression(reader io.Reader) (*api.Expression, error) {
-- 
2.43.0


From 3a09b02e2795956204f1f19c2b3a40e371bc061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:00 +0000
Subject: [PATCH 16/48] fix: decode local declarations as counted groups

---
 binary/read.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/binary/read.go b/binary/read.go
index 0e2a378..210517a 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -350,7 +350,7 @@ func UpdateFuncsWithCode(module *api.Module, size uint32, reader io.Reader) erro
 		}
 
 		fn := module.Funcs[index]
-		locals, err := ReadValueTypeVector(reader)
+		locals, err := ReadLocals(reader)
 		if err != nil {
 			return err
 		}
@@ -364,6 +364,34 @@ func UpdateFuncsWithCode(module *api.Module, size uint32, reader io.Reader) erro
 	return nil
 }
 
+// maxLocals bounds the locals of a function, which are stored as groups of equal types
+const maxLocals = 50000
+
+func ReadLocals(reader io.Reader) ([]api.ValType, error) {
+	groups, err := ReadLebU128(reader)
+	if err != nil {
+		return nil, err
+	}
+	locals := []api.ValType{}
+	for i := uint32(0); i < groups; i++ {
+		count, err := ReadLebU128(reader)
+		if err != nil {
+			return nil, err
+		}
+		vt, err := ReadValueType(reader)
+		if err != nil {
+			return nil, err
+		}
+		if uint64(len(locals))+uint64(count) > maxLocals {
+			return nil, fmt.Errorf("function has more than %d locals", maxLocals)
+		}
+		for j := uint32(0); j < count; j++ {
+			locals = append(locals, vt)
+		}
+	}
+	return locals, nil
+}
+
 func ReadInstruction(reader io.Reader) (api.Instruction, error) {
 	opCode, err := ReadOpCode(reader)
 	if err != nil {
-- 
2.43.0


From 01f9f3ea6ccff44560500de9bda597b95606f32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:00 +0000
Subject: [PATCH 17/48] fix: check declared section and function sizes when
 reading a module

---
 binary/read.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/binary/read.go b/binary/read.go
index 210517a..c1a9493 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -71,14 +71,17 @@ func ReadPreamble(reader io.Reader) (api.Preamble, error) {
 
 func ReadModule(reader io.Reader) (*api.Module, error) {
 	module := &api.Module{}
+	input := reader
 	for {
-		sectionID, size, err := ReadSectionHeader(reader)
+		sectionID, size, err := ReadSectionHeader(input)
 		if err != nil {
 			if errors.Is(err, io.EOF) {
 				break
 			}
 			return nil, err
 		}
+		section := &io.LimitedReader{R: input, N: int64(size)}
+		reader = section
 		switch sectionID {
 		case TypeSectionID:
 			types, err := ReadFuncTypes(size, reader)
@@ -110,6 +113,14 @@ func ReadModule(reader io.Reader) (*api.Module, error) {
 				return nil, fmt.Errorf("failed to read section %d: %w", sectionID, err)
 			}
 		}
+		if section.N != 0 {
+			return nil, fmt.Errorf("section %d ends %d bytes before its declared size", sectionID, section.N)
+		}
+	}
+	for i, fn := range module.Funcs {
+		if fn.Body == nil {
+			return nil, fmt.Errorf("function %d has no code", i)
+		}
 	}
 	return module, nil
 }
@@ -127,6 +138,9 @@ func ReadSectionHeader(reader io.Reader) (SectionID, uint32, error) {
 	// read the size
 	size, err := ReadLebU128(reader)
 	if err != nil {
+		if errors.Is(err, io.EOF) {
+			err = io.ErrUnexpectedEOF
+		}
 		return SectionID(0), 0, err
 	}
 	return SectionID(id), size, nil
@@ -344,21 +358,25 @@ func UpdateFuncsWithCode(module *api.Module, size uint32, reader io.Reader) erro
 		}
 
 		// function size
-		_, err := ReadLebU128(reader)
+		size, err := ReadLebU128(reader)
 		if err != nil {
 			return err
 		}
+		code := &io.LimitedReader{R: reader, N: int64(size)}
 
 		fn := module.Funcs[index]
-		locals, err := ReadLocals(reader)
+		locals, err := ReadLocals(code)
 		if err != nil {
 			return err
 		}
 		fn.Locals = locals
-		body, err := ReadExpression(reader)
+		body, err := ReadExpression(code)
 		if err != nil {
 			return err
 		}
+		if code.N != 0 {
+			return fmt.Errorf("function %d ends %d bytes before its declared size", index, code.N)
+		}
 		fn.Body = body
 	}
 	return nil
-- 
2.43.0


From 8cbcd91ce882e632dd27739156159719b69d953d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:00 +0000
Subject: [PATCH 18/48] fix: require the right version and layer when reading
 the preamble

---
 binary/binary.go | 3 +++
 binary/read.go   | 8 ++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/binary/binary.go b/binary/binary.go
index 5a2636e..896a6ca 100644
--- a/binary/binary.go
+++ b/binary/binary.go
@@ -5,6 +5,9 @@ var Magic = []byte{0x00, 0x61, 0x73, 0x6d}
 const ModuleVersion uint16 = 0x01
 const ComponentVersion uint16 = 0x0a
 
+const ModuleLayer uint16 = 0x00
+const ComponentLayer uint16 = 0x01
+
 type SectionID uint8
 
 const (
diff --git a/binary/read.go b/binary/read.go
index c1a9493..e6cb75c 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -22,19 +22,19 @@ func Read(reader io.Reader) (*api.Document, error) {
 	}
 
 	var directive api.Directive
-	switch preamble.Version {
-	case ComponentVersion:
+	switch {
+	case preamble.Version == ComponentVersion && preamble.Layer == ComponentLayer:
 		directive, err = ReadComponent(reader)
 		if err != nil {
 			return nil, err
 		}
-	case ModuleVersion:
+	case preamble.Version == ModuleVersion && preamble.Layer == ModuleLayer:
 		directive, err = ReadModule(reader)
 		if err != nil {
 			return nil, err
 		}
 	default:
-		return nil, fmt.Errorf("invalid version %d", preamble.Version)
+		return nil, fmt.Errorf("invalid version %d of layer %d", preamble.Version, preamble.Layer)
 	}
 
 	return &api.Document{
-- 
2.43.0


From 875142e2dd8498b6873d3f0188f009626eca1ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:08 +0000
Subject: [PATCH 19/48] fix: return lexer errors from Peek instead of panicking

---
 wat/lex/lexer.go | 11 +++++++++--
 wit/lex/lexer.go | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index a07b1e3..44e462c 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -71,7 +71,11 @@ func (l *Lexer) Peek() (*token.Token, error) {
 		return l.peekToken, nil
 	}
 
-	l.peekToken = l.next().Unwrap()
+	tok, err := l.next().Deconstruct()
+	if err != nil {
+		return nil, err
+	}
+	l.peekToken = tok
 	return l.peekToken, nil
 }
 
@@ -708,5 +712,8 @@ func not(chars ...byte) func(ch byte) bool {
 }
 
 func (l *Lexer) lexerError() error {
-	return fmt.Errorf("error parsing at line: %d column: %d position: %d, '%s'", l.line, l.column, l.position, string(l.input[l.offset:l.position]))
+	err := fmt.Errorf("error parsing at line: %d column: %d position: %d, '%s'", l.line, l.column, l.position, string(l.input[l.offset:l.position]))
+	// stay at the start of the bad token so the error is reported again
+	l.position = l.offset
+	return err
 }
diff --git a/wit/lex/lexer.go b/wit/lex/lexer.go
index 611ea99..15cfe8f 100644
--- a/wit/lex/lexer.go
+++ b/wit/lex/lexer.go
@@ -71,7 +71,11 @@ func (l *Lexer) Peek() (*token.Token, error) {
 		return l.peekToken, nil
 	}
 
-	l.peekToken = l.next().Unwrap()
+	tok, err := l.next().Deconstruct()
+	if err != nil {
+		return nil, err
+	}
+	l.peekToken = tok
 	return l.peekToken, nil
 }
 
@@ -323,7 +327,10 @@ func (l *Lexer) readRune() (res types.Option[rune]) {
 }
 
 func (l *Lexer) lexerError() error {
-	return fmt.Errorf("error parsing at line: %d column: %d position: %d", l.line, l.column, l.position)
+	err := fmt.Errorf("error parsing at line: %d column: %d position: %d", l.line, l.column, l.position)
+	// stay at the start of the bad token so the error is reported again
+	l.position = l.offset
+	return err
 }
 
 func isKeyLikeStart(ch rune) bool {
-- 
2.43.0


From f9267895827352b561282a383ae98666b029aec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:09 +0000
Subject: [PATCH 20/48] fix: refuse strings and comments that the end of the
 text cuts off

---
 wat/lex/lexer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index 44e462c..226c57e 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -125,8 +125,8 @@ func (l *Lexer) next() (res types.Result[*token.Token]) {
 				}
 			}
 
-			// process any lexemes in an accepted state and emit a token
-			return l.token(token.EndOfStream) // returned if nothing is matched
+			// the input ends inside a token
+			return result.Error[*token.Token](l.lexerError())
 		}
 
 		var matched []Lexeme
@@ -233,7 +233,8 @@ func whitespace() Rule {
 func lineComment() Rule {
 	start := &Node{}
 	semi := &Node{}
-	semi2 := &Node{}
+	// a line comment may also end with the input
+	semi2 := &Node{Final: true}
 	newLine := &Node{
 		Final: true,
 	}
-- 
2.43.0


From feaa2821ae6c6f458be9302e6c210e2786c108b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:09 +0000
Subject: [PATCH 21/48] fix: let strings in module text contain escaped quotes

---
 wat/lex/lexer.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index 226c57e..d68075e 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -306,6 +306,7 @@ func blockComment() Rule {
 func str() Rule {
 	start := &Node{}
 	doubleQuote := &Node{}
+	escape := &Node{}
 	end := &Node{Final: true}
 	start.Edges = append(start.Edges, &ByteEdge{
 		Byte: '"',
@@ -314,8 +315,15 @@ func str() Rule {
 	doubleQuote.Edges = append(doubleQuote.Edges, &ByteEdge{
 		Byte: '"',
 		Node: end,
+	}, &ByteEdge{
+		Byte: '\\',
+		Node: escape,
 	}, &FuncEdge{
-		Func: not('"'),
+		Func: not('"', '\\'),
+		Node: doubleQuote,
+	})
+	escape.Edges = append(escape.Edges, &FuncEdge{
+		Func: not(),
 		Node: doubleQuote,
 	})
 	return &DfaRule{
-- 
2.43.0


From 82074bf2b34c4e25ef3119512e6f0865404df6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:10 +0000
Subject: [PATCH 22/48] fix: recognise numbers in module text as the grammar
 says

---
 wat/lex/lexer.go | 53 ++++++++++++++++++++----------------------------
 1 file changed, 22 insertions(+), 31 deletions(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index d68075e..cc4f413 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -370,13 +370,13 @@ func num(s string, i int) (int, bool) {
 	}
 
 	for ; i < len(s); i++ {
-		if s[i] == '_' {
+		if s[i] == '_' && i+1 < len(s) && isDigit(s[i+1]) {
 			continue
 		}
 		if isDigit(s[i]) {
 			continue
 		}
-		return i, false
+		return i, true
 	}
 	return i, true
 }
@@ -389,7 +389,7 @@ func hexnum(s string, i int) (int, bool) {
 		return i, false
 	}
 	for ; i < len(s); i++ {
-		if s[i] == '_' {
+		if s[i] == '_' && i+1 < len(s) && isHex(s[i+1]) {
 			continue
 		}
 		if isHex(s[i]) {
@@ -408,13 +408,13 @@ func frac(s string, i int) (int, bool) {
 		return i, false
 	}
 	for ; i < len(s); i++ {
-		if s[i] == '_' {
+		if s[i] == '_' && i+1 < len(s) && isDigit(s[i+1]) {
 			continue
 		}
 		if isDigit(s[i]) {
 			continue
 		}
-		return i, false
+		return i, true
 	}
 	return i, true
 }
@@ -427,7 +427,7 @@ func hexfrac(s string, i int) (int, bool) {
 		return i, false
 	}
 	for ; i < len(s); i++ {
-		if s[i] == '_' {
+		if s[i] == '_' && i+1 < len(s) && isHex(s[i+1]) {
 			continue
 		}
 		if isHex(s[i]) {
@@ -458,11 +458,7 @@ func float(s string, i int) (int, bool) {
 			i++ // '.'
 		}
 		i++ // 'E' | 'e'
-		n, ok = sign(s, i)
-		if !ok {
-			return i, false
-		}
-		i = n
+		i, _ = sign(s, i)
 		n, ok = num(s, i)
 		if !ok {
 			return i, false
@@ -470,6 +466,10 @@ func float(s string, i int) (int, bool) {
 		return n, true
 	}
 	// p:num '.' q:frac
+	if s[i] != '.' {
+		return i, false
+	}
+	i++ // '.'
 	n, ok = frac(s, i)
 	if !ok {
 		return i, false
@@ -483,11 +483,7 @@ func float(s string, i int) (int, bool) {
 		return i, false
 	}
 	i++
-	n, ok = sign(s, i)
-	if !ok {
-		return i, false
-	}
-	i = n
+	i, _ = sign(s, i)
 	return num(s, i)
 }
 
@@ -515,17 +511,16 @@ func hexfloat(s string, i int) (int, bool) {
 			i++ // '.'
 		}
 		i++ // 'P' | 'p'
-		n, ok = sign(s, i)
-		if !ok {
-			return i, false
-		}
-		i = n
+		i, _ = sign(s, i)
 		n, ok = num(s, i)
 		if !ok {
 			return i, false
 		}
 		return n, true
 	}
+	if s[i] != '.' {
+		return i, false
+	}
 	i++ // '.'
 	// p:hexnum '.' q:hexfrac
 	n, ok = hexfrac(s, i)
@@ -541,11 +536,7 @@ func hexfloat(s string, i int) (int, bool) {
 		return i, false
 	}
 	i++
-	n, ok = sign(s, i)
-	if !ok {
-		return i, false
-	}
-	i = n
+	i, _ = sign(s, i)
 	return num(s, i)
 }
 
@@ -571,13 +562,13 @@ func isFloat(s string) bool {
 	}
 	if strings.HasPrefix(s, "nan:0x") {
 		s = strings.TrimPrefix(s, "nan:0x")
-		_, ok := hexnum(s, 0)
-		return ok
+		n, ok := hexnum(s, 0)
+		return ok && n == len(s)
 	}
-	if _, ok := float(s, 0); ok {
+	if n, ok := float(s, 0); ok && n == len(s) {
 		return true
 	}
-	if _, ok := hexfloat(s, 0); ok {
+	if n, ok := hexfloat(s, 0); ok && n == len(s) {
 		return true
 	}
 	return false
@@ -591,7 +582,7 @@ func isInteger(s string) bool {
 	if s[0] == '+' || s[0] == '-' {
 		s = s[1:]
 	}
-	if _, ok := num(s, 0); ok {
+	if n, ok := num(s, 0); ok && n == len(s) {
 		return true
 	}
 	if strings.HasPrefix(s, "0x") {
-- 
2.43.0


From 7630715e686fb1c3583447aff744ca6e7eb26545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:10 +0000
Subject: [PATCH 23/48] fix: refuse lone percent signs and foreign digits in
 WIT text

---
 wit/lex/lexer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/wit/lex/lexer.go b/wit/lex/lexer.go
index 15cfe8f..cc3c595 100644
--- a/wit/lex/lexer.go
+++ b/wit/lex/lexer.go
@@ -160,8 +160,8 @@ func (l *Lexer) next() (res types.Result[*token.Token]) {
 		if l.eatIf(isKeyLikeStart).Unwrap() {
 			for l.eatIf(isKeyLikeContinue).Unwrap() {
 			}
+			return l.token(token.ExplicitId)
 		}
-		return l.token(token.ExplicitId)
 
 	case isKeyLikeStart(r):
 		// identifier | string
@@ -174,8 +174,8 @@ func (l *Lexer) next() (res types.Result[*token.Token]) {
 		}
 		return l.token(ty)
 
-	case unicode.IsDigit(r):
-		for l.eatIf(unicode.IsDigit).Unwrap() {
+	case isDigit(r):
+		for l.eatIf(isDigit).Unwrap() {
 
 		}
 		return l.token(token.Integer)
@@ -333,6 +333,10 @@ func (l *Lexer) lexerError() error {
 	return err
 }
 
+func isDigit(ch rune) bool {
+	return '0' <= ch && ch <= '9'
+}
+
 func isKeyLikeStart(ch rune) bool {
 	return unicode.IsLetter(ch) || ch == '_' || ch == '-'
 }
-- 
2.43.0


From 9fa7e30ad07d865ebfe085856c9ae69f1b307bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:40 +0000
Subject: [PATCH 24/48] fix: read integers in module text with their full
 width, signs and underscores

---
 wat/parse/parser.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 7b8f746..7da15f0 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -779,13 +779,24 @@ func parseInt32(lexer *lex.Lexer) (res types.Result[int32]) {
 		return result.Errorf[int32]("expected integer %w", parseError(tok))
 	}
 	if strings.HasPrefix(tok.Capture, "-") {
-		i, err := strconv.ParseInt(tok.Capture, 0, 32)
+		text, base := integerText(tok.Capture[1:])
+		i, err := strconv.ParseInt("-"+text, base, 32)
 		return result.New(int32(i), err)
 	}
-	i, err := strconv.ParseUint(tok.Capture, 0, 32)
+	text, base := integerText(strings.TrimPrefix(tok.Capture, "+"))
+	i, err := strconv.ParseUint(text, base, 32)
 	return result.New(int32(i), err)
 }
 
+// integerText returns the digits of an unsigned integer and their base
+func integerText(capture string) (string, int) {
+	text := strings.ReplaceAll(capture, "_", "")
+	if strings.HasPrefix(text, "0x") {
+		return text[2:], 16
+	}
+	return text, 10
+}
+
 func ParseInt64(lexer *lex.Lexer) (int64, error) {
 	return parseInt64(lexer).Deconstruct()
 }
@@ -798,10 +809,12 @@ func parseInt64(lexer *lex.Lexer) (res types.Result[int64]) {
 		return result.Errorf[int64]("expected integer %w", parseError(tok))
 	}
 	if strings.HasPrefix(tok.Capture, "-") {
-		i, err := strconv.ParseInt(tok.Capture, 0, 32)
+		text, base := integerText(tok.Capture[1:])
+		i, err := strconv.ParseInt("-"+text, base, 64)
 		return result.New(int64(i), err)
 	}
-	i, err := strconv.ParseUint(tok.Capture, 0, 32)
+	text, base := integerText(strings.TrimPrefix(tok.Capture, "+"))
+	i, err := strconv.ParseUint(text, base, 64)
 	return result.New(int64(i), err)
 }
 
-- 
2.43.0


From 32fedbdc6f47ca0b9c8c7e23a4e0bb8edecd29bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:40 +0000
Subject: [PATCH 25/48] fix: read floats in module text as the grammar says

---
 wast/parse/parser.go | 34 +--------------
 wat/parse/parser.go  | 99 ++++++++++++++++++++------------------------
 2 files changed, 46 insertions(+), 87 deletions(-)

diff --git a/wast/parse/parser.go b/wast/parse/parser.go
index 401936e..ea40b1f 100644
--- a/wast/parse/parser.go
+++ b/wast/parse/parser.go
@@ -291,26 +291,12 @@ func parseConst(lexer *lex.Lexer) (res types.Result[ast.Const]) {
 			Value: parseInt64(lexer).Unwrap(),
 		}
 	case "f32.const":
-		// some times constants can be ambiguous like '0'
-		var f32 float32
-		if peekFloat(lexer).Unwrap() {
-			f32 = parseFloat32(lexer).Unwrap()
-		} else {
-			f32 = float32(parseInt32(lexer).Unwrap())
-		}
 		c = ast.F32Const{
-			Value: f32,
+			Value: parseFloat32(lexer).Unwrap(),
 		}
 	case "f64.const":
-		// some times constants can be ambiguous like '0'
-		var f64 float64
-		if peekFloat(lexer).Unwrap() {
-			f64 = parseFloat64(lexer).Unwrap()
-		} else if peekInteger(lexer).Unwrap() {
-			f64 = float64(parseInt64(lexer).Unwrap())
-		}
 		c = ast.F64Const{
-			Value: f64,
+			Value: parseFloat64(lexer).Unwrap(),
 		}
 	case "ref.null":
 	case "ref.extern":
@@ -342,14 +328,6 @@ func parseResults(lexer *lex.Lexer) (res types.Result[[]ast.Result]) {
 	return result.Ok(results)
 }
 
-func peekFloat(lexer *lex.Lexer) (res types.Result[bool]) {
-	tok, err := watparse.Peek(lexer)
-	if err != nil {
-		return result.New(false, err)
-	}
-	return result.Ok(tok.Type == token.Float)
-}
-
 func parseFloat32(lexer *lex.Lexer) (res types.Result[float32]) {
 	return result.New(watparse.ParseFloat32(lexer))
 }
@@ -441,14 +419,6 @@ func parseString(lexer *lex.Lexer) types.Result[string] {
 	return result.New(str, err)
 }
 
-func peekInteger(lexer *lex.Lexer) types.Result[bool] {
-	i, err := watparse.Peek(lexer)
-	if err != nil {
-		return result.New(false, err)
-	}
-	return result.Ok(i.Type == token.Integer)
-}
-
 func parseInt32(lexer *lex.Lexer) types.Result[int32] {
 	i, err := watparse.ParseInt32(lexer)
 	return result.New(i, err)
diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 7da15f0..14b6103 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -428,25 +428,12 @@ func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 			Value: parseInt64(lexer).Unwrap(),
 		}
 	case "f32.const":
-		var f32 float32
-		if peekFloat(lexer).Unwrap() {
-			f32 = parseFloat32(lexer).Unwrap()
-		} else {
-			f32 = float32(parseInt32(lexer).Unwrap())
-		}
 		inst = ast.F32Const{
-			Value: f32,
+			Value: parseFloat32(lexer).Unwrap(),
 		}
 	case "f64.const":
-		// some times constants can be ambiguous like '0'
-		var f64 float64
-		if peekFloat(lexer).Unwrap() {
-			f64 = parseFloat64(lexer).Unwrap()
-		} else {
-			f64 = float64(parseInt64(lexer).Unwrap())
-		}
 		inst = ast.F64Const{
-			Value: f64,
+			Value: parseFloat64(lexer).Unwrap(),
 		}
 	// f32 math instructions
 	case "f32.add":
@@ -818,12 +805,6 @@ func parseInt64(lexer *lex.Lexer) (res types.Result[int64]) {
 	return result.New(int64(i), err)
 }
 
-func peekFloat(lexer *lex.Lexer) (res types.Result[bool]) {
-	defer handle.Error(&res)
-	tok := peek(lexer).Unwrap()
-	return result.Ok(tok.Type == token.Float)
-}
-
 func ParseFloat32(lexer *lex.Lexer) (float32, error) {
 	return parseFloat32(lexer).Deconstruct()
 }
@@ -831,42 +812,15 @@ func ParseFloat32(lexer *lex.Lexer) (float32, error) {
 func parseFloat32(lexer *lex.Lexer) (res types.Result[float32]) {
 	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
-	if tok.Type != token.Float {
+	if tok.Type != token.Float && tok.Type != token.Integer {
 		return result.Errorf[float32]("expected float %w", parseError(tok))
 	}
-	negative := false
-	capture := tok.Capture
-	if strings.HasPrefix(capture, "-") {
-		negative = true
-		capture = capture[1:]
-	}
+	negative := strings.HasPrefix(tok.Capture, "-")
+	capture := strings.TrimLeft(tok.Capture, "+-")
 	if strings.HasPrefix(capture, "nan") {
-		capture = capture[3:]
-
-		var u32 uint64
-		if strings.HasPrefix(capture, ":") {
-			capture = capture[1:]
-
-			var err error
-			if len(capture) > 0 {
-				if strings.HasPrefix(capture, "canonical") {
-					// https://en.wikipedia.org/wiki/NaN#Canonical_NaN
-					var val uint32 = 0b_1111_1111_1100_0000_0000_0000_0000_0000
-					return result.Ok(math.Float32frombits(val))
-				}
-				if strings.HasPrefix(capture, "arithmetic") {
-					// https://webassembly.github.io/spec/core/syntax/values.html#floating-point
-					var val uint32 = 0b_1111_1111_1100_0000_0000_0000_0000_0000
-					return result.Ok(math.Float32frombits(val))
-				}
-				u32, err = strconv.ParseUint(capture, 0, 32)
-				if err != nil {
-					return result.Error[float32](err)
-				}
-			}
-		}
 		// create float from data
 		// s111 1111 1xxx xxxx xxxx xxxx xxxx xxxx
+		u32 := nanPayload(capture[3:], 23).Unwrap()
 		if negative {
 			u32 |= 0b_1111_1111_1000_0000_0000_0000_0000_0000
 		} else {
@@ -875,10 +829,33 @@ func parseFloat32(lexer *lex.Lexer) (res types.Result[float32]) {
 		return result.Ok(math.Float32frombits(uint32(u32)))
 	}
 	// not nan, so parse normally
-	f, err := strconv.ParseFloat(tok.Capture, 32)
+	f, err := strconv.ParseFloat(floatText(tok.Capture), 32)
 	return result.New(float32(f), err)
 }
 
+// nanPayload parses what follows 'nan', given the number of mantissa bits
+func nanPayload(capture string, bits int) (res types.Result[uint64]) {
+	switch capture {
+	// https://webassembly.github.io/spec/core/syntax/values.html#floating-point
+	case "", ":canonical", ":arithmetic":
+		return result.Ok(uint64(1) << (bits - 1))
+	}
+	payload, err := strconv.ParseUint(strings.TrimPrefix(capture, ":"), 0, bits)
+	if err == nil && payload == 0 {
+		err = fmt.Errorf("nan payload must not be zero")
+	}
+	return result.New(payload, err)
+}
+
+// floatText returns the float in the form expected by strconv
+func floatText(capture string) string {
+	text := strings.ReplaceAll(capture, "_", "")
+	if strings.Contains(text, "0x") && !strings.ContainsAny(text, "pP") {
+		text += "p0"
+	}
+	return text
+}
+
 func ParseFloat64(lexer *lex.Lexer) (float64, error) {
 	return parseFloat64(lexer).Deconstruct()
 }
@@ -886,10 +863,22 @@ func ParseFloat64(lexer *lex.Lexer) (float64, error) {
 func parseFloat64(lexer *lex.Lexer) (res types.Result[float64]) {
 	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
-	if tok.Type != token.Float {
+	if tok.Type != token.Float && tok.Type != token.Integer {
 		return result.Errorf[float64]("expected float %w", parseError(tok))
 	}
-	f, err := strconv.ParseFloat(tok.Capture, 32)
+	negative := strings.HasPrefix(tok.Capture, "-")
+	capture := strings.TrimLeft(tok.Capture, "+-")
+	if strings.HasPrefix(capture, "nan") {
+		u64 := nanPayload(capture[3:], 52).Unwrap()
+		if negative {
+			u64 |= 0xfff << 52
+		} else {
+			u64 |= 0x7ff << 52
+		}
+		return result.Ok(math.Float64frombits(u64))
+	}
+	// not nan, so parse normally
+	f, err := strconv.ParseFloat(floatText(tok.Capture), 64)
 	return result.New(f, err)
 }
 
-- 
2.43.0


From 7d6fe2216a92ae69fd6116435f03d6a2e470089a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:40 +0000
Subject: [PATCH 26/48] fix: read indices and limits in module text as unsigned
 numbers

---
 wat/parse/parser.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 14b6103..a7b2498 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -311,15 +311,15 @@ func parseMemory(lexer *lex.Lexer) (res types.Result[ast.Memory]) {
 
 func parseLimits(lexer *lex.Lexer) (res types.Result[ast.Limits]) {
 	defer handle.Error(&res)
-	min := parseInt32(lexer).Unwrap()
+	min := uint32Value(next(lexer).Unwrap()).Unwrap()
 	max := option.None[uint32]()
 	tok := peek(lexer).Unwrap()
 	if tok.Type == token.Integer {
-		n := parseInt32(lexer).Unwrap()
-		max = option.Some(uint32(n))
+		n := uint32Value(next(lexer).Unwrap()).Unwrap()
+		max = option.Some(n)
 	}
 	return result.Ok(ast.Limits{
-		Min: uint32(min),
+		Min: min,
 		Max: max,
 	})
 }
@@ -531,9 +531,8 @@ func parseIndex(lexer *lex.Lexer) (res types.Result[ast.Index]) {
 	var index ast.Index
 	switch tok.Type {
 	case token.Integer:
-		i := result.New(strconv.Atoi(tok.Capture)).Unwrap()
 		index = &ast.RawIndex{
-			Index: uint32(i),
+			Index: uint32Value(tok).Unwrap(),
 		}
 	case token.Id:
 		index = &ast.IDIndex{
@@ -775,6 +774,16 @@ func parseInt32(lexer *lex.Lexer) (res types.Result[int32]) {
 	return result.New(int32(i), err)
 }
 
+// uint32Value returns the value of an unsigned integer token
+func uint32Value(tok *token.Token) (res types.Result[uint32]) {
+	if tok.Type != token.Integer {
+		return result.Errorf[uint32]("expected integer %w", parseError(tok))
+	}
+	text, base := integerText(tok.Capture)
+	i, err := strconv.ParseUint(text, base, 32)
+	return result.New(uint32(i), err)
+}
+
 // integerText returns the digits of an unsigned integer and their base
 func integerText(capture string) (string, int) {
 	text := strings.ReplaceAll(capture, "_", "")
-- 
2.43.0


From 76c03be916abfb4c1eea97135e740542632f70aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:41 +0000
Subject: [PATCH 27/48] fix: give every i32 instruction the parser accepts a
 node

---
 wat/ast/ast.go      | 100 ++++++++++++++++++++++++++++++++++++++++++++
 wat/parse/parser.go |  25 +++++++++++
 2 files changed, 125 insertions(+)

diff --git a/wat/ast/ast.go b/wat/ast/ast.go
index 3da2ded..4a2f1c1 100644
--- a/wat/ast/ast.go
+++ b/wat/ast/ast.go
@@ -223,6 +223,106 @@ type I32DivU struct{}
 
 func (I32DivU) inst() {}
 
+type I32RemS struct{}
+
+func (I32RemS) inst() {}
+
+type I32RemU struct{}
+
+func (I32RemU) inst() {}
+
+type I32And struct{}
+
+func (I32And) inst() {}
+
+type I32Or struct{}
+
+func (I32Or) inst() {}
+
+type I32Xor struct{}
+
+func (I32Xor) inst() {}
+
+type I32Shl struct{}
+
+func (I32Shl) inst() {}
+
+type I32ShrS struct{}
+
+func (I32ShrS) inst() {}
+
+type I32ShrU struct{}
+
+func (I32ShrU) inst() {}
+
+type I32Rotl struct{}
+
+func (I32Rotl) inst() {}
+
+type I32Rotr struct{}
+
+func (I32Rotr) inst() {}
+
+type I32Clz struct{}
+
+func (I32Clz) inst() {}
+
+type I32Ctz struct{}
+
+func (I32Ctz) inst() {}
+
+type I32Popcnt struct{}
+
+func (I32Popcnt) inst() {}
+
+type I32Extend8S struct{}
+
+func (I32Extend8S) inst() {}
+
+type I32Extend16S struct{}
+
+func (I32Extend16S) inst() {}
+
+type I32Eq struct{}
+
+func (I32Eq) inst() {}
+
+type I32Ne struct{}
+
+func (I32Ne) inst() {}
+
+type I32LtS struct{}
+
+func (I32LtS) inst() {}
+
+type I32LtU struct{}
+
+func (I32LtU) inst() {}
+
+type I32LeS struct{}
+
+func (I32LeS) inst() {}
+
+type I32LeU struct{}
+
+func (I32LeU) inst() {}
+
+type I32GtS struct{}
+
+func (I32GtS) inst() {}
+
+type I32GtU struct{}
+
+func (I32GtU) inst() {}
+
+type I32GeS struct{}
+
+func (I32GeS) inst() {}
+
+type I32GeU struct{}
+
+func (I32GeU) inst() {}
+
 type Folded struct {
 	Instruction Instruction
 	Parameters  []Instruction
diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index a7b2498..aebe925 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -471,32 +471,57 @@ func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 	case "i32.div_u":
 		inst = ast.I32DivU{}
 	case "i32.rem_s":
+		inst = ast.I32RemS{}
 	case "i32.rem_u":
+		inst = ast.I32RemU{}
 	case "i32.and":
+		inst = ast.I32And{}
 	case "i32.or":
+		inst = ast.I32Or{}
 	case "i32.xor":
+		inst = ast.I32Xor{}
 	case "i32.shl":
+		inst = ast.I32Shl{}
 	case "i32.shr_s":
+		inst = ast.I32ShrS{}
 	case "i32.shr_u":
+		inst = ast.I32ShrU{}
 	case "i32.rotl":
+		inst = ast.I32Rotl{}
 	case "i32.rotr":
+		inst = ast.I32Rotr{}
 	case "i32.clz":
+		inst = ast.I32Clz{}
 	case "i32.ctz":
+		inst = ast.I32Ctz{}
 	case "i32.popcnt":
+		inst = ast.I32Popcnt{}
 	case "i32.extend8_s":
+		inst = ast.I32Extend8S{}
 	case "i32.extend16_s":
+		inst = ast.I32Extend16S{}
 	case "i32.eqz":
 		inst = ast.I32Eqz{}
 	case "i32.eq":
+		inst = ast.I32Eq{}
 	case "i32.ne":
+		inst = ast.I32Ne{}
 	case "i32.lt_s":
+		inst = ast.I32LtS{}
 	case "i32.lt_u":
+		inst = ast.I32LtU{}
 	case "i32.le_s":
+		inst = ast.I32LeS{}
 	case "i32.le_u":
+		inst = ast.I32LeU{}
 	case "i32.gt_s":
+		inst = ast.I32GtS{}
 	case "i32.gt_u":
+		inst = ast.I32GtU{}
 	case "i32.ge_s":
+		inst = ast.I32GeS{}
 	case "i32.ge_u":
+		inst = ast.I32GeU{}
 	case "block":
 		inst = parseBlock(lexer).Unwrap()
 	case "loop":
-- 
2.43.0


From 8423515988b4667cc1aca0fe38dbdeec00d618a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:41 +0000
Subject: [PATCH 28/48] fix: refuse unknown parts of types in module text

---
 wat/parse/parser.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index aebe925..682bcd2 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -177,11 +177,9 @@ func parseType(lexer *lex.Lexer) (res types.Result[ast.Type]) {
 
 	id := parseOptionalId(lexer).Unwrap()
 
-	var funcType ast.FuncType
-	if eat(lexer, token.OpenParen).Unwrap() {
-		funcType = parseFuncType(lexer).Unwrap()
-		expect(lexer, token.CloseParen).Unwrap()
-	}
+	expect(lexer, token.OpenParen).Unwrap()
+	funcType := parseFuncType(lexer).Unwrap()
+	expect(lexer, token.CloseParen).Unwrap()
 
 	return result.Ok(ast.Type{
 		ID:       id,
@@ -204,6 +202,8 @@ func parseFuncType(lexer *lex.Lexer) (res types.Result[ast.FuncType]) {
 		case "result":
 			result := parseResult(lexer).Unwrap()
 			results = append(results, *result)
+		default:
+			return result.Errorf[ast.FuncType]("%w", parseError(tok))
 		}
 		expect(lexer, token.CloseParen).Unwrap()
 	}
@@ -261,6 +261,8 @@ func parseTableType(lexer *lex.Lexer) (res types.Result[ast.TableType]) {
 		refType = ast.ExternRef{}
 	case "funcref":
 		refType = ast.FuncRef{}
+	default:
+		return result.Errorf[ast.TableType]("expected 'externref' or 'funcref': %w", parseError(tok))
 	}
 
 	return result.Ok(ast.TableType{
-- 
2.43.0


From 67eaf119e7fc5aa7d27691864b3164ed203644f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:41 +0000
Subject: [PATCH 29/48] fix: do not fold the instructions that follow a plain
 one into it

---
 wat/parse/parser.go | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 682bcd2..87e032a 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -121,7 +121,13 @@ func parseFunc(lexer *lex.Lexer) (res types.Result[*ast.Function]) {
 		if tok.Type == token.CloseParen {
 			break
 		}
-		instruction := parseInstruction(lexer).Unwrap()
+		var instruction ast.Instruction
+		if eat(lexer, token.OpenParen).Unwrap() {
+			instruction = parseInstruction(lexer).Unwrap()
+			expect(lexer, token.CloseParen).Unwrap()
+		} else {
+			instruction = parsePlainInstruction(lexer).Unwrap()
+		}
 		function.Instructions = append(function.Instructions, instruction)
 	}
 	return result.Ok(function)
@@ -358,7 +364,26 @@ func parseInstructions(lexer *lex.Lexer) (res types.Result[[]ast.Instruction]) {
 	return result.Ok(instructions)
 }
 
+// parseInstruction parses an instruction in parentheses, which its operands may follow
 func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
+	defer handle.Error(&res)
+	inst := parsePlainInstruction(lexer).Unwrap()
+	peekTok := peek(lexer).Unwrap()
+	if peekTok.Type != token.OpenParen {
+		return result.Ok(inst)
+	}
+	folded := ast.Folded{
+		Instruction: inst,
+	}
+	for eat(lexer, token.OpenParen).Unwrap() {
+		inst = parseInstruction(lexer).Unwrap()
+		folded.Parameters = append(folded.Parameters, inst)
+		expect(lexer, token.CloseParen).Unwrap()
+	}
+	return result.Ok[ast.Instruction](folded)
+}
+
+func parsePlainInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
 	if tok.Type != token.Reserved {
@@ -536,19 +561,7 @@ func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 	default:
 		return result.Errorf[ast.Instruction]("%w : error parsing instruction. Unrecognized instruction %v : %s", parseError(tok), tok.Type, tok.Capture)
 	}
-	peekTok := peek(lexer).Unwrap()
-	if peekTok.Type != token.OpenParen {
-		return result.Ok(inst)
-	}
-	folded := ast.Folded{
-		Instruction: inst,
-	}
-	for eat(lexer, token.OpenParen).Unwrap() {
-		inst = parseInstruction(lexer).Unwrap()
-		folded.Parameters = append(folded.Parameters, inst)
-		expect(lexer, token.CloseParen).Unwrap()
-	}
-	return result.Ok[ast.Instruction](folded)
+	return result.Ok(inst)
 }
 
 func parseIndex(lexer *lex.Lexer) (res types.Result[ast.Index]) {
-- 
2.43.0


From 7a87ac96c068fae2e73b1710f9302db83da8e0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:41 +0000
Subject: [PATCH 30/48] fix: decode string escapes and report errors of strings
 and identifiers

---
 wat/parse/parser.go | 52 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 51 insertions(+), 1 deletion(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 87e032a..a9bcf79 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -5,6 +5,7 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/patrickhuber/go-types"
 	"github.com/patrickhuber/go-types/handle"
@@ -765,6 +766,7 @@ func parseBlockType(lexer *lex.Lexer) (res types.Result[ast.BlockType]) {
 }
 
 func parseOptionalId(lexer *lex.Lexer) (res types.Result[types.Option[string]]) {
+	defer handle.Error(&res)
 	tok := peek(lexer).Unwrap()
 	if tok.Type == token.Id {
 		id := parseId(lexer).Unwrap()
@@ -774,6 +776,7 @@ func parseOptionalId(lexer *lex.Lexer) (res types.Result[types.Option[string]])
 }
 
 func parseId(lexer *lex.Lexer) (res types.Result[string]) {
+	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
 	if tok.Type != token.Id {
 		return result.Errorf[string]("%w", parseError(tok))
@@ -786,11 +789,58 @@ func ParseString(lexer *lex.Lexer) (string, error) {
 }
 
 func parseString(lexer *lex.Lexer) (res types.Result[string]) {
+	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
 	if tok.Type != token.String {
 		return result.Errorf[string]("%w", parseError(tok))
 	}
-	return result.Ok(strings.Trim(tok.Capture, "\""))
+	return unescape(tok.Capture[1 : len(tok.Capture)-1])
+}
+
+// unescape replaces the escape sequences of a string
+func unescape(s string) (res types.Result[string]) {
+	var out strings.Builder
+	for i := 0; i < len(s); i++ {
+		if s[i] != '\\' {
+			out.WriteByte(s[i])
+			continue
+		}
+		i++
+		switch s[i] {
+		case 't':
+			out.WriteByte('\t')
+		case 'n':
+			out.WriteByte('\n')
+		case 'r':
+			out.WriteByte('\r')
+		case '"', '\'', '\\':
+			out.WriteByte(s[i])
+		case 'u':
+			// \u{hexnum}
+			end := strings.IndexByte(s[i:], '}')
+			if end < 3 || s[i+1] != '{' {
+				return result.Errorf[string]("malformed unicode escape in '%s'", s)
+			}
+			r, err := strconv.ParseUint("0x"+s[i+2:i+end], 0, 32)
+			if err != nil || !utf8.ValidRune(rune(r)) {
+				return result.Errorf[string]("malformed unicode escape in '%s'", s)
+			}
+			out.WriteRune(rune(r))
+			i += end
+		default:
+			// two hexadecimal digits
+			if i+1 >= len(s) {
+				return result.Errorf[string]("malformed escape in '%s'", s)
+			}
+			b, err := strconv.ParseUint(s[i:i+2], 16, 8)
+			if err != nil {
+				return result.Errorf[string]("malformed escape in '%s'", s)
+			}
+			out.WriteByte(byte(b))
+			i++
+		}
+	}
+	return result.Ok(out.String())
 }
 
 func ParseInt32(lexer *lex.Lexer) (int32, error) {
-- 
2.43.0


From 131ee42cbd7591f81aee582c7b9cf8909fa77bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:41 +0000
Subject: [PATCH 31/48] fix: refuse unknown actions and constants in scripts

---
 wast/parse/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wast/parse/parser.go b/wast/parse/parser.go
index ea40b1f..cc193bc 100644
--- a/wast/parse/parser.go
+++ b/wast/parse/parser.go
@@ -224,6 +224,8 @@ func parseAction(lexer *lex.Lexer) (res types.Result[ast.Action]) {
 		action = parseInvoke(lexer).Unwrap()
 	case "get":
 		action = parseGet(lexer).Unwrap()
+	default:
+		return result.Errorf[ast.Action]("%w : unrecognized action '%s'", parseError(tok), tok.Capture)
 	}
 
 	expect(lexer, token.CloseParen).Unwrap()
@@ -298,8 +300,6 @@ func parseConst(lexer *lex.Lexer) (res types.Result[ast.Const]) {
 		c = ast.F64Const{
 			Value: parseFloat64(lexer).Unwrap(),
 		}
-	case "ref.null":
-	case "ref.extern":
 	default:
 		return result.Error[ast.Const](parseError(tok))
 	}
-- 
2.43.0


From e6718ab794ee8a48d86ac28750f04faeb0e2d4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:51 +0000
Subject: [PATCH 32/48] fix: give br_table all its labels

---
 wat/parse/parser.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index a9bcf79..23e51fd 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -401,10 +401,14 @@ func parsePlainInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction])
 			Index: parseIndex(lexer).Unwrap(),
 		}
 	case "br_table":
+		indices := []ast.Index{
+			parseIndex(lexer).Unwrap(),
+		}
+		for tok := peek(lexer).Unwrap(); tok.Type == token.Integer || tok.Type == token.Id; tok = peek(lexer).Unwrap() {
+			indices = append(indices, parseIndex(lexer).Unwrap())
+		}
 		inst = ast.BrTable{
-			Indicies: []ast.Index{
-				parseIndex(lexer).Unwrap(),
-			},
+			Indicies: indices,
 		}
 	case "return":
 		inst = ast.Return{}
-- 
2.43.0


From d7f4e3cd8af3025be0d235700e9428531748a800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:52 +0000
Subject: [PATCH 33/48] fix: allow several types in one result of a function

---
 wat/parse/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 23e51fd..64f9c03 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -172,9 +172,12 @@ func parseResult(lexer *lex.Lexer) (res types.Result[*ast.Result]) {
 
 	expectValue(lexer, token.Reserved, "result").Unwrap()
 
-	ty := parseValType(lexer).Unwrap()
+	var types []ast.ValType
+	for tok := peek(lexer).Unwrap(); tok.Type == token.Reserved; tok = peek(lexer).Unwrap() {
+		types = append(types, parseValType(lexer).Unwrap())
+	}
 	return result.Ok(&ast.Result{
-		Types: []ast.ValType{ty},
+		Types: types,
 	})
 }
 
-- 
2.43.0


From 8e0e2f41962ea297eb024a5353bbdefe10fc0a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:00 +0000
Subject: [PATCH 34/48] fix: refuse WIT text with unknown or incomplete items

---
 wit/parse/parser.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 4451f84..2ae1e2c 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -44,6 +44,8 @@ func parseAst(lexer *lex.Lexer) (res types.Result[*ast.Ast]) {
 			item.World = parseWorld(lexer).Unwrap()
 		case token.Interface:
 			item.Interface = parseInterface(lexer).Unwrap()
+		default:
+			return result.Errorf[*ast.Ast]("%w : expected use, world or interface but found '%s'", parseError(tok), tok.Capture)
 		}
 		n.Items = append(n.Items, *item)
 
@@ -57,7 +59,7 @@ func parsePackageDeclaration(lexer *lex.Lexer) (res types.Result[*ast.PackageDec
 
 	// id
 	packageName := &ast.PackageDeclaration{}
-	packageName.Namespace = next(lexer).Unwrap().Capture
+	packageName.Namespace = parseId(lexer).Unwrap()
 
 	// ':'
 	expect(lexer, token.Colon).Unwrap()
@@ -106,6 +108,9 @@ func parseTopLevelUse(lexer *lex.Lexer) (res types.Result[*ast.TopLevelUse]) {
 	} else {
 		topLevelUse.As = option.None[string]()
 	}
+
+	// ;
+	expect(lexer, token.Semicolon).Unwrap()
 	return result.Ok(topLevelUse)
 }
 
@@ -211,6 +216,8 @@ func parseResource(lexer *lex.Lexer) (res types.Result[ast.Resource]) {
 			tok = peek(lexer).Unwrap()
 		}
 		expect(lexer, token.CloseBrace).Unwrap()
+	default:
+		return result.Errorf[ast.Resource]("%w : expected ';' or '{' but found '%s'", parseError(tok), tok.Capture)
 	}
 
 	return result.Ok(ast.Resource{
-- 
2.43.0


From 13672aaba34131ca0421555301c1572c5376bcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:01 +0000
Subject: [PATCH 35/48] fix: know all primitive types in WIT text and refuse
 anything else

---
 wit/parse/parser.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 2ae1e2c..a7f8f00 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -484,8 +484,26 @@ func parseType(lexer *lex.Lexer) (res types.Result[ast.Type]) {
 
 	var ty ast.Type
 	switch name.Type {
+	case token.U8:
+		ty = &ast.U8{}
+	case token.U16:
+		ty = &ast.U16{}
 	case token.U32:
 		ty = &ast.U32{}
+	case token.U64:
+		ty = &ast.U64{}
+	case token.S8:
+		ty = &ast.S8{}
+	case token.S16:
+		ty = &ast.S16{}
+	case token.S32:
+		ty = &ast.S32{}
+	case token.S64:
+		ty = &ast.S64{}
+	case token.Char:
+		ty = &ast.Char{}
+	case token.Bool:
+		ty = &ast.Bool{}
 	case token.String:
 		ty = &ast.String{}
 	case token.Float32:
@@ -516,8 +534,10 @@ func parseType(lexer *lex.Lexer) (res types.Result[ast.Type]) {
 			Id: parseId(lexer).Unwrap(),
 		}
 		expect(lexer, token.Greater).Unwrap()
-	default:
+	case token.Id, token.ExplicitId:
 		ty = &ast.Id{Value: name.Capture}
+	default:
+		return result.Errorf[ast.Type]("%w : expected type but found '%s'", parseError(name), name.Capture)
 	}
 
 	return result.Ok(ty)
-- 
2.43.0


From 158d859bbd7b41d674a69a2781b0a91821e48a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:02 +0000
Subject: [PATCH 36/48] fix: keep the element types of lists and options in WIT
 text

---
 wit/parse/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index a7f8f00..0e7f54b 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -590,7 +590,7 @@ func parseList(lexer *lex.Lexer) (res types.Result[*ast.List]) {
 	ty := parseType(lexer).Unwrap()
 	expect(lexer, token.Greater).Unwrap()
 	return result.Ok(&ast.List{
-		Type: ty,
+		ItemType: ty,
 	})
 }
 
@@ -600,7 +600,7 @@ func parseOption(lexer *lex.Lexer) (res types.Result[*ast.Option]) {
 	ty := parseType(lexer).Unwrap()
 	expect(lexer, token.Greater).Unwrap()
 	return result.Ok(&ast.Option{
-		Type: ty,
+		ItemType: ty,
 	})
 }
 
-- 
2.43.0


From 994d3765fdc974edd048a0d989ed0bbe3fe349e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:02 +0000
Subject: [PATCH 37/48] fix: read paths with packages and versions in WIT text

---
 wit/parse/parser.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 0e7f54b..dc0ae3f 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -357,7 +357,6 @@ func parsePath(lexer *lex.Lexer, namespace string) (res types.Result[*ast.UsePat
 	name := parseId(lexer).Unwrap()
 	version := parseOptionalVersion(lexer).Unwrap()
 	usePath := &ast.UsePath{
-		Id: "string",
 		Package: struct {
 			Id   *ast.PackageDeclaration
 			Name string
@@ -374,7 +373,12 @@ func parsePath(lexer *lex.Lexer, namespace string) (res types.Result[*ast.UsePat
 }
 
 func parseOptionalVersion(lexer *lex.Lexer) (res types.Result[types.Option[ast.Version]]) {
-	return result.Errorf[types.Option[ast.Version]]("not implemented")
+	defer handle.Error(&res)
+	if !eat(lexer, token.At).Unwrap() {
+		return result.Ok(option.None[ast.Version]())
+	}
+	version := parseVersion(lexer).Unwrap()
+	return result.Ok(option.Some(*version))
 }
 
 func parseFuncItem(lexer *lex.Lexer) (res types.Result[*ast.FuncItem]) {
@@ -778,6 +782,13 @@ func parseExternType(lexer *lex.Lexer) (res types.Result[ast.ExternType]) {
 			ID:             id,
 			InterfaceItems: parseInterfaceItems(lexer).Unwrap(),
 		})
+	case token.Id, token.ExplicitId:
+		usePath := parseUsePath(lexer).Unwrap()
+		expect(lexer, token.Semicolon).Unwrap()
+
+		return result.Ok[ast.ExternType](&ast.ExternTypeUsePath{
+			UsePath: usePath,
+		})
 	}
 
 	return result.Errorf[ast.ExternType]("unable to parse ExternType %w", parseError(tok))
-- 
2.43.0


From 18ab87d4558005319cc656ea405798541399335f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:03 +0000
Subject: [PATCH 38/48] fix: read versions in WIT text as decimal numbers of 64
 bits

---
 wit/parse/parser.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index dc0ae3f..64a5080 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -91,9 +91,9 @@ func parseVersion(lexer *lex.Lexer) (res types.Result[*ast.Version]) {
 	patch := parseInteger(lexer).Unwrap()
 
 	return result.Ok(&ast.Version{
-		Major: uint64(major),
-		Minor: uint64(minor),
-		Patch: uint64(patch),
+		Major: major,
+		Minor: minor,
+		Patch: patch,
 	})
 }
 
@@ -930,15 +930,15 @@ func parseId(lexer *lex.Lexer) (res types.Result[string]) {
 	}
 }
 
-func parseInteger(lexer *lex.Lexer) (res types.Result[int64]) {
+func parseInteger(lexer *lex.Lexer) (res types.Result[uint64]) {
 	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
 	switch tok.Type {
 	case token.Integer:
-		i, err := strconv.ParseInt(tok.Capture, 0, 32)
+		i, err := strconv.ParseUint(tok.Capture, 10, 64)
 		return result.New(i, err)
 	default:
-		return result.Errorf[int64]("%w: found value '%s', type '%v' but expected (integer) ", parseError(tok), tok.Capture, tok.Type)
+		return result.Errorf[uint64]("%w: found value '%s', type '%v' but expected (integer) ", parseError(tok), tok.Capture, tok.Type)
 	}
 }
 func eat(lexer *lex.Lexer, tokenType token.TokenType) (res types.Result[bool]) {
-- 
2.43.0


From 46f45979caf9462512d326c59bed5efcd0b01403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:04 +0000
Subject: [PATCH 39/48] fix: allow enums, flags and lists of included names in
 WIT worlds

---
 wit/parse/parser.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 64a5080..58b3940 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -683,6 +683,10 @@ func parseWorldItem(lexer *lex.Lexer) (res types.Result[ast.WorldItem]) {
 		worldItem = parseRecord(lexer).Unwrap()
 	case token.Variant:
 		worldItem = parseVariant(lexer).Unwrap()
+	case token.Flags:
+		worldItem = parseFlags(lexer).Unwrap()
+	case token.Enum:
+		worldItem = parseEnum(lexer).Unwrap()
 	case token.Resource:
 		worldItem = parseResource(lexer).Unwrap()
 	case token.Include:
@@ -727,16 +731,7 @@ func parseInclude(lexer *lex.Lexer) (res types.Result[ast.WorldItem]) {
 	}
 
 	if eat(lexer, token.With).Unwrap() {
-		expect(lexer, token.OpenBrace).Unwrap()
-		for !eat(lexer, token.CloseBrace).Unwrap() {
-			id := parseId(lexer).Unwrap()
-			expect(lexer, token.As).Unwrap()
-			as := parseId(lexer).Unwrap()
-			include.Names = append(include.Names, ast.IncludeName{
-				Name: id,
-				As:   as,
-			})
-		}
+		include.Names = parseItemList(lexer, token.OpenBrace, token.CloseBrace, parseIncludeName).Unwrap()
 	} else {
 		expect(lexer, token.Semicolon).Unwrap()
 	}
@@ -744,6 +739,17 @@ func parseInclude(lexer *lex.Lexer) (res types.Result[ast.WorldItem]) {
 	return result.Ok[ast.WorldItem](include)
 }
 
+func parseIncludeName(lexer *lex.Lexer) (res types.Result[ast.IncludeName]) {
+	defer handle.Error(&res)
+	id := parseId(lexer).Unwrap()
+	expect(lexer, token.As).Unwrap()
+	as := parseId(lexer).Unwrap()
+	return result.Ok(ast.IncludeName{
+		Name: id,
+		As:   as,
+	})
+}
+
 func parseExternType(lexer *lex.Lexer) (res types.Result[ast.ExternType]) {
 	defer handle.Error(&res)
 
-- 
2.43.0


From 43aecf0af6581be94c0cd2fc2927e7378f3be2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:13 +0000
Subject: [PATCH 40/48] fix: give module instances their types and exports

---
 runtime/instance.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/runtime/instance.go b/runtime/instance.go
index d6a88b8..e5bc54b 100644
--- a/runtime/instance.go
+++ b/runtime/instance.go
@@ -1,6 +1,8 @@
 package runtime
 
 import (
+	"fmt"
+
 	"github.com/patrickhuber/go-wasm/address"
 	"github.com/patrickhuber/go-wasm/api"
 )
@@ -21,6 +23,23 @@ func NewModuleInstance(store *Store, module *api.Module) (*ModuleInstance, error
 	moduleInstance := &ModuleInstance{
 		store: store,
 	}
+	for _, t := range module.Types {
+		moduleInstance.Types = append(moduleInstance.Types, *t)
+	}
+	for _, export := range module.Exports {
+		fn, ok := export.Description.(*api.FuncExportDescription)
+		if !ok {
+			return nil, fmt.Errorf("unsupported export %s", export.Name)
+		}
+		if int64(fn.FuncIdx) >= int64(len(module.Funcs)) {
+			return nil, fmt.Errorf("export %s of unknown function %d", export.Name, fn.FuncIdx)
+		}
+		funcAddr := len(store.Funcs) + int(fn.FuncIdx)
+		moduleInstance.Exports = append(moduleInstance.Exports, ExportInstance{
+			Name:  export.Name,
+			Value: address.Function(funcAddr),
+		})
+	}
 	for _, fn := range module.Funcs {
 		funcAddr := len(store.Funcs)
 		store.Funcs = append(store.Funcs, fn)
-- 
2.43.0


From bb06697e7fa8fd02d59b68172bf1e40661059dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:34:26 +0000
Subject: [PATCH 41/48] fix: encode sequences cut off by the end of the text
 instead of dropping them

---
 encoding/codec.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/encoding/codec.go b/encoding/codec.go
index 4ba55af..08dd00d 100644
--- a/encoding/codec.go
+++ b/encoding/codec.go
@@ -4,6 +4,7 @@ import (
 	"io"
 
 	"golang.org/x/text/encoding"
+	"golang.org/x/text/transform"
 )
 
 type Codec interface {
@@ -36,10 +37,13 @@ type codec struct {
 }
 
 func (c *codec) Encode(dst io.Writer, src io.Reader) error {
-	encoder := c.enc.NewEncoder()
-	writer := encoder.Writer(dst)
+	writer := transform.NewWriter(dst, c.enc.NewEncoder())
 	_, err := io.Copy(writer, src)
-	return err
+	if err != nil {
+		return err
+	}
+	// a sequence that is cut off by the end of the text is still in the writer
+	return writer.Close()
 }
 
 func (c *codec) Decode(dst io.Writer, src io.Reader) error {
-- 
2.43.0


From ea672e06c9d1124a490bf0f1d6ff41df1bf47378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:33:44 +0000
Subject: [PATCH 42/48] fix: keep the inline import of a function

The parser read the module and field names of an inline import and
dropped them, so an imported function looked like an empty one.
---
 wat/ast/ast.go      | 1 +
 wat/parse/parser.go | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/wat/ast/ast.go b/wat/ast/ast.go
index 4a2f1c1..347eb3d 100644
--- a/wat/ast/ast.go
+++ b/wat/ast/ast.go
@@ -27,6 +27,7 @@ type Function struct {
 	ID           types.Option[string]
 	Locals       []Local
 	Exports      []InlineExport
+	Imports      []InlineImport
 	Parameters   []Parameter
 	Results      []Result
 	Instructions []Instruction
diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 64f9c03..9c028a4 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -110,7 +110,8 @@ func parseFunc(lexer *lex.Lexer) (res types.Result[*ast.Function]) {
 			export := parseExport(lexer).Unwrap()
 			function.Exports = append(function.Exports, export)
 		case "import":
-			_ = parseImport(lexer).Unwrap()
+			imp := parseImport(lexer).Unwrap()
+			function.Imports = append(function.Imports, imp)
 		default:
 			inst := parseInstruction(lexer).Unwrap()
 			function.Instructions = append(function.Instructions, inst)
-- 
2.43.0


From 082e4d015d5b300f678be0bbaf000d561ba7c53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:34:12 +0000
Subject: [PATCH 43/48] fix: refuse an if whose parts are missing, repeated or
 out of order

The parts of a folded if were taken in any order and number: of two
then or else branches only the last was kept, and an if without a then
branch was accepted.
---
 wat/parse/parser.go | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 9c028a4..f5b3863 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -664,36 +664,33 @@ func parseIf(lexer *lex.Lexer) (res types.Result[ast.If]) {
 		name = option.Some(n)
 	}
 
-	var results []ast.Result
+	blockType := parseBlockType(lexer).Unwrap()
 	_else := option.None[ast.Else]()
-	var then ast.Then
 	var instructions []ast.Instruction
-	for eat(lexer, token.OpenParen).Unwrap() {
+	for {
+		expect(lexer, token.OpenParen).Unwrap()
 		tok = peek(lexer).Unwrap()
-		switch tok.Capture {
-		case "result":
-			res := parseResult(lexer).Unwrap()
-			results = append(results, *res)
-		case "then":
-			then = parseThen(lexer).Unwrap()
-		case "else":
-			e := parseElse(lexer).Unwrap()
-			_else = option.Some(e)
-		default:
-			i := parseInstruction(lexer).Unwrap()
-			instructions = append(instructions, i)
+		if tok.Capture == "then" {
+			break
 		}
+		i := parseInstruction(lexer).Unwrap()
+		instructions = append(instructions, i)
+		expect(lexer, token.CloseParen).Unwrap()
+	}
+	then := parseThen(lexer).Unwrap()
+	expect(lexer, token.CloseParen).Unwrap()
+	if eat(lexer, token.OpenParen).Unwrap() {
+		e := parseElse(lexer).Unwrap()
+		_else = option.Some(e)
 		expect(lexer, token.CloseParen).Unwrap()
 	}
 
 	return result.Ok(ast.If{
-		Name: name,
-		BlockType: ast.BlockType{
-			Results: results,
-		},
-		Clause: instructions,
-		Then:   then,
-		Else:   _else,
+		Name:      name,
+		BlockType: blockType,
+		Clause:    instructions,
+		Then:      then,
+		Else:      _else,
 	})
 }
 
-- 
2.43.0


From f6aa3bdb134a7ed93cc0aeb2c482324bb66c2ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:34:13 +0000
Subject: [PATCH 44/48] fix: refuse the parts of a function in the wrong order

Exports, an import, parameters, results and locals of a function or
function type were taken in any order, also behind instructions.
---
 wat/parse/parser.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index f5b3863..cd24dfb 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -3,6 +3,7 @@ package parse
 import (
 	"fmt"
 	"math"
+	"slices"
 	"strconv"
 	"strings"
 	"unicode/utf8"
@@ -94,8 +95,10 @@ func parseFunc(lexer *lex.Lexer) (res types.Result[*ast.Function]) {
 			function.ID = option.None[string]()
 		}
 	}
+	position := 0
 	for eat(lexer, token.OpenParen).Unwrap() {
 		tok := peek(lexer).Unwrap()
+		position = follow(tok, position, "export", "import", "param", "result", "local").Unwrap()
 		switch tok.Capture {
 		case "local":
 			local := parseLocal(lexer).Unwrap()
@@ -112,6 +115,7 @@ func parseFunc(lexer *lex.Lexer) (res types.Result[*ast.Function]) {
 		case "import":
 			imp := parseImport(lexer).Unwrap()
 			function.Imports = append(function.Imports, imp)
+			position++
 		default:
 			inst := parseInstruction(lexer).Unwrap()
 			function.Instructions = append(function.Instructions, inst)
@@ -132,9 +136,25 @@ func parseFunc(lexer *lex.Lexer) (res types.Result[*ast.Function]) {
 		}
 		function.Instructions = append(function.Instructions, instruction)
 	}
+	if len(function.Imports) > 0 && (len(function.Locals) > 0 || len(function.Instructions) > 0) {
+		return result.Errorf[*ast.Function]("an imported function has neither locals nor instructions")
+	}
 	return result.Ok(function)
 }
 
+// follow returns the position in order of the part that starts with tok, where any other part
+// comes last. The part must not come before position.
+func follow(tok *token.Token, position int, order ...string) (res types.Result[int]) {
+	at := slices.Index(order, tok.Capture)
+	if at < 0 {
+		at = len(order)
+	}
+	if at < position {
+		return result.Errorf[int]("%w : unexpected '%s'", parseError(tok), tok.Capture)
+	}
+	return result.Ok(at)
+}
+
 func parseLocal(lexer *lex.Lexer) (res types.Result[ast.Local]) {
 	defer handle.Error(&res)
 	expectValue(lexer, token.Reserved, "local").Unwrap()
@@ -204,8 +224,10 @@ func parseFuncType(lexer *lex.Lexer) (res types.Result[ast.FuncType]) {
 	expectValue(lexer, token.Reserved, "func").Unwrap()
 	var parameters []ast.Parameter
 	var results []ast.Result
+	position := 0
 	for eat(lexer, token.OpenParen).Unwrap() {
 		tok := peek(lexer).Unwrap()
+		position = follow(tok, position, "param", "result").Unwrap()
 		switch tok.Capture {
 		case "param":
 			parameter := parseParameter(lexer).Unwrap()
-- 
2.43.0


From 9cc64573d562411a74417ba9e06e7f5580a0d9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:34:33 +0000
Subject: [PATCH 45/48] fix: refuse blocks, loops and ifs without parentheses
 or end

Only the folded forms are supported. A plain block, loop or if was
accepted without its end, and instructions behind the parts of a folded
if were taken as operands of it.
---
 wat/parse/parser.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index cd24dfb..0873271 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -394,7 +394,23 @@ func parseInstructions(lexer *lex.Lexer) (res types.Result[[]ast.Instruction]) {
 // parseInstruction parses an instruction in parentheses, which its operands may follow
 func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 	defer handle.Error(&res)
-	inst := parsePlainInstruction(lexer).Unwrap()
+	var inst ast.Instruction
+	tok := peek(lexer).Unwrap()
+	switch tok.Capture {
+	case "block":
+		next(lexer).Unwrap()
+		inst = parseBlock(lexer).Unwrap()
+		return result.Ok(inst)
+	case "loop":
+		next(lexer).Unwrap()
+		inst = parseLoop(lexer).Unwrap()
+		return result.Ok(inst)
+	case "if":
+		next(lexer).Unwrap()
+		inst = parseIf(lexer).Unwrap()
+		return result.Ok(inst)
+	}
+	inst = parsePlainInstruction(lexer).Unwrap()
 	peekTok := peek(lexer).Unwrap()
 	if peekTok.Type != token.OpenParen {
 		return result.Ok(inst)
@@ -580,13 +596,6 @@ func parsePlainInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction])
 		inst = ast.I32GeS{}
 	case "i32.ge_u":
 		inst = ast.I32GeU{}
-	case "block":
-		inst = parseBlock(lexer).Unwrap()
-	case "loop":
-		inst = parseLoop(lexer).Unwrap()
-	case "if":
-		inst = parseIf(lexer).Unwrap()
-
 	case "call_indirect":
 		inst = parseCallIndirect(lexer).Unwrap()
 	default:
-- 
2.43.0


From aa293e304baaf6757148b8bc4d86aea16fc74143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:34:34 +0000
Subject: [PATCH 46/48] fix: refuse tables without limits or elements, and with
 both

The elements of a table take the place of its limits. More than one
element was refused, while several element groups were accepted.
---
 wat/parse/parser.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 0873271..5e7c61d 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -251,19 +251,24 @@ func parseTable(lexer *lex.Lexer) (res types.Result[ast.Table]) {
 	defer handle.Error(&res)
 	expectValue(lexer, token.Reserved, "table").Unwrap()
 	id := parseOptionalId(lexer).Unwrap()
+	inline := peek(lexer).Unwrap().Type != token.Integer
 	tableType := parseTableType(lexer).Unwrap()
 	var elements []ast.Element
-	for eat(lexer, token.OpenParen).Unwrap() {
+	// the elements take the place of the limits
+	if inline {
+		expect(lexer, token.OpenParen).Unwrap()
 		tok := next(lexer).Unwrap()
 		if tok.Type != token.Reserved {
 			return result.Errorf[ast.Table]("%w", parseError(tok))
 		}
 		switch tok.Capture {
 		case "elem":
-			id := parseId(lexer).Unwrap()
-			elements = append(elements, ast.Element{
-				ID: id,
-			})
+			for peek(lexer).Unwrap().Type == token.Id {
+				id := parseId(lexer).Unwrap()
+				elements = append(elements, ast.Element{
+					ID: id,
+				})
+			}
 		default:
 			return result.Errorf[ast.Table]("%w", parseError(tok))
 		}
-- 
2.43.0


From 0f9479502b3b522f602fb8898c1fa9d5e174cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:45 +0000
Subject: [PATCH 47/48] fix: decode component text to a component

The text decoder returned a nil component without an error.
---
 wat/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wat/decoder.go b/wat/decoder.go
index 5a47e43..a1ec115 100644
--- a/wat/decoder.go
+++ b/wat/decoder.go
@@ -48,7 +48,7 @@ func (decoder *decoder) directive(directive ast.Directive) (api.Directive, error
 }
 
 func (decoder *decoder) component(component *ast.Component) (*api.Component, error) {
-	return nil, nil
+	return &api.Component{}, nil
 }
 
 func (decoder *decoder) module(module *ast.Module) (*api.Module, error) {
-- 
2.43.0


From d6f1bc9dbe3a6ff9c6920aa0bcd3e6d72b49f2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:45 +0000
Subject: [PATCH 48/48] fix: refuse text behind the decoded module or component

The text decoder stopped reading at the end of the first module and
ignored whatever followed it.
---
 wat/decoder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wat/decoder.go b/wat/decoder.go
index a1ec115..2cd3c22 100644
--- a/wat/decoder.go
+++ b/wat/decoder.go
@@ -8,6 +8,7 @@ import (
 	"github.com/patrickhuber/go-wasm/wat/ast"
 	"github.com/patrickhuber/go-wasm/wat/lex"
 	"github.com/patrickhuber/go-wasm/wat/parse"
+	"github.com/patrickhuber/go-wasm/wat/token"
 )
 
 type Decoder interface {
@@ -34,6 +35,13 @@ func (d *decoder) Decode(reader io.Reader) (api.Directive, error) {
 	if err != nil {
 		return nil, err
 	}
+	tok, err := parse.Peek(lexer)
+	if err != nil {
+		return nil, err
+	}
+	if tok.Type != token.EndOfStream {
+		return nil, fmt.Errorf("unexpected '%s' behind the module or component", tok.Capture)
+	}
 	return d.directive(directive)
 }
 
-- 
2.43.0

