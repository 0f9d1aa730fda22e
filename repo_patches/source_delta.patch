From 644744e032eacda5828c2417cb88e5a7e2201775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 01/16] fix: check the limit of byte lists in DryCheck, like
 Decode does

---
 types/ssz_bytes.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types/ssz_bytes.go b/types/ssz_bytes.go
index 644ea36..ef3427c 100644
--- a/types/ssz_bytes.go
+++ b/types/ssz_bytes.go
@@ -92,7 +92,11 @@ func (v *SSZBytes) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 }
 
 func (v *SSZBytes) DryCheck(dr *DecodingReader) error {
-	_, err := dr.Skip(dr.GetBytesSpan())
+	span := dr.GetBytesSpan()
+	if span > v.limit {
+		return fmt.Errorf("got %d bytes, expected no more than %d bytes", span, v.limit)
+	}
+	_, err := dr.Skip(span)
 	return err
 }
 
-- 
2.43.0


From 7d0e50a742c8b871be289fc6c254c48cefc789c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 02/16] fix: clamp the fuzz-mode length of basic lists to the
 available input

---
 types/ssz_list_basic.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/types/ssz_list_basic.go b/types/ssz_list_basic.go
index 5477be1..34453f0 100644
--- a/types/ssz_list_basic.go
+++ b/types/ssz_list_basic.go
@@ -97,13 +97,13 @@ func (v *SSZBasicList) decodeFuzzmode(dr *DecodingReader, p unsafe.Pointer) erro
 		return err
 	}
 	span := dr.GetBytesSpan()
-	if v.byteLimit > span {
+	if span > v.byteLimit {
 		span = v.byteLimit
 	}
-	if span == 0 {
-		return nil
+	bytesLen := uint64(0)
+	if span != 0 {
+		bytesLen = x % span
 	}
-	bytesLen := x % span
 	bytesLen -= bytesLen % v.elemSSZ.FixedLen()
 
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
-- 
2.43.0


From 91e3c5cf95e435d2290262e10872d683c8a87e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 03/16] fix: mask the last byte of a fuzz-mode bitlist to the
 bits left in that byte

---
 types/ssz_bitlist.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index f39422c..594dc1e 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -112,7 +112,9 @@ func (v *SSZBitlist) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 	}
 	if dr.IsFuzzMode() {
 		// mask last byte to stay within bit-limit
-		data[len(data)-1] &= (1 << (v.bitLimit + 1)) - 1
+		if bitsLeft := v.bitLimit - ((byteLen - 1) << 3); bitsLeft < 7 {
+			data[len(data)-1] &= (byte(2) << bitsLeft) - 1
+		}
 		if data[len(data)-1] == 0 {
 			// last byte must not be 0 for bitlist to be valid
 			data[len(data)-1] = 1
-- 
2.43.0


From 0a26e5bb3b488fdd71ed8d92228b40a416c770c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 04/16] fix: clear the unused bits of a fuzz-mode bitvector

---
 types/ssz_bitvector.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/ssz_bitvector.go b/types/ssz_bitvector.go
index b3ad2a9..995d36b 100644
--- a/types/ssz_bitvector.go
+++ b/types/ssz_bitvector.go
@@ -86,6 +86,10 @@ func (v *SSZBitvector) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 	if _, err := dr.Read(data); err != nil {
 		return err
 	}
+	if dr.IsFuzzMode() && v.bitLen&7 != 0 {
+		// mask last byte, unused bits must be 0
+		data[len(data)-1] &= (byte(1) << (v.bitLen & 7)) - 1
+	}
 	// check if the data is a valid bitvector value (0 bits for unused bits)
 	return bitfields.BitvectorCheck(data, v.bitLen)
 }
-- 
2.43.0


From aee5568de40b61ca3348b6b29ae9a76eded1b05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 05/16] fix: keep fuzz-mode lists within their limit

---
 types/ssz_list.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/ssz_list.go b/types/ssz_list.go
index 40ba4f5..c39d3bb 100644
--- a/types/ssz_list.go
+++ b/types/ssz_list.go
@@ -119,6 +119,9 @@ func (v *SSZList) decodeFuzzmode(dr *DecodingReader, p unsafe.Pointer) error {
 	if span != 0 {
 		length = (x % span) / v.elemSSZ.FuzzMinLen()
 	}
+	if length > v.limit {
+		length = v.limit
+	}
 	contentsPtr := v.alloc.MutateLenOrAllocNew(p, length)
 	if v.elemSSZ.IsFixed() {
 		return DecodeFixedSeries(v.elemSSZ.Decode, length, v.elemMemSize, dr, contentsPtr)
-- 
2.43.0


From de314bfe0e4da2a2bd43a42eb00a4687de1ec60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 06/16] fix: count the offsets in the maximum length of
 variable-size lists

---
 types/ssz_list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/ssz_list.go b/types/ssz_list.go
index c39d3bb..92b0409 100644
--- a/types/ssz_list.go
+++ b/types/ssz_list.go
@@ -43,7 +43,7 @@ func NewSSZList(factory SSZFactoryFn, typ reflect.Type) (*SSZList, error) {
 		byteLimit = limit * elemSSZ.FixedLen()
 	} else {
 		fixedElemSize = BYTES_PER_LENGTH_OFFSET
-		byteLimit = limit * elemSSZ.MaxLen()
+		byteLimit = limit * (BYTES_PER_LENGTH_OFFSET + elemSSZ.MaxLen())
 	}
 	res := &SSZList{
 		alloc:         ptrutil.MakeSliceAllocFn(typ),
-- 
2.43.0


From 52c0e62b631d573117eeb556f82f735eda859a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 07/16] fix: decode length elements, not byteLen, of a
 big-endian basic vector

---
 types/ssz_vector_basic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/ssz_vector_basic.go b/types/ssz_vector_basic.go
index 92faf44..a3f31d2 100644
--- a/types/ssz_vector_basic.go
+++ b/types/ssz_vector_basic.go
@@ -85,7 +85,7 @@ func (v *SSZBasicVector) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
 		return LittleEndianBasicSeriesDecode(dr, p, v.byteLen, v.byteLen, v.elemKind == reflect.Bool)
 	} else {
-		return DecodeFixedSeries(v.elemSSZ.Decode, v.byteLen, uintptr(v.elemSSZ.FixedLen()), dr, p)
+		return DecodeFixedSeries(v.elemSSZ.Decode, v.length, uintptr(v.elemSSZ.FixedLen()), dr, p)
 	}
 }
 
-- 
2.43.0


From 0692c9047b5e2200c8461b20210544c02ec3cc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 08/16] fix: remove the delimiting bit when it is in the last
 byte of a full leaf

---
 types/ssz_bitlist.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index 594dc1e..d266191 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -150,7 +150,7 @@ func (v *SSZBitlist) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 		s := i << 5
 		e := (i + 1) << 5
 		// pad the data
-		if e > byteLen {
+		if e >= byteLen {
 			x := [32]byte{}
 			copy(x[:], data[s:byteLen])
 			if bitLen&7 != 0 && byteLen != 0 { // if we not already cut off the delimiting bit with a bytes boundary
@@ -162,8 +162,7 @@ func (v *SSZBitlist) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 			}
 			return x[:]
 		}
-		// if the last leaf does not have to be padded,
-		// then the length-determining bitlist bit is already cut off,
+		// the length-determining bitlist bit is in the last leaf, or already cut off,
 		// i.e. as sole bit in next (ignored) chunk of data.
 		return data[s:e]
 	}
-- 
2.43.0


From 7fa6bf29d89ef8d73bd3511b00049ae8bf919675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 09/16] fix: do not fail a complete read when the reader
 returns EOF with the data

---
 dec/decoder.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/dec/decoder.go b/dec/decoder.go
index 6c500f4..ce732f3 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -81,15 +81,8 @@ func (dr *DecodingReader) Read(p []byte) (int, error) {
 	if n, err := dr.checkedIndexUpdate(uint64(len(p))); err != nil {
 		return n, err
 	}
-	n := 0
-	for n < len(p) {
-		v, err := dr.input.Read(p[n:])
-		n += v
-		if err != nil {
-			return n, err
-		}
-	}
-	return n, nil
+	// accepts an EOF that is returned together with the last of the data.
+	return io.ReadFull(dr.input, p)
 }
 
 func (dr *DecodingReader) ReadByte() (byte, error) {
-- 
2.43.0


From 0c1b7c4149d1b81395c944023b9e4a8fadfa5bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 10/16] fix: skip by reading, seeking does not notice truncated
 input

---
 dec/decoder.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/dec/decoder.go b/dec/decoder.go
index ce732f3..a5a0413 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -64,14 +64,9 @@ func (dr *DecodingReader) Skip(count uint64) (int, error) {
 	if n, err := dr.checkedIndexUpdate(count); err != nil {
 		return n, err
 	}
-	switch r := dr.input.(type) {
-	case io.Seeker:
-		n, err := r.Seek(int64(count), io.SeekCurrent)
-		return int(n), err
-	default:
-		n, err := io.CopyN(ioutil.Discard, dr.input, int64(count))
-		return int(n), err
-	}
+	// Seeking is not an option: it does not fail when there is less input than there is to skip.
+	n, err := io.CopyN(ioutil.Discard, dr.input, int64(count))
+	return int(n), err
 }
 
 func (dr *DecodingReader) Read(p []byte) (int, error) {
-- 
2.43.0


From d71df824329e5edda8c91aabff95e06666a05f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 11/16] fix: check the limit of basic lists and bitlists before
 allocating space for them

---
 types/ssz_bitlist.go    | 4 ++++
 types/ssz_list_basic.go | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index d266191..e55428b 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -104,6 +104,10 @@ func (v *SSZBitlist) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 		byteLen += 1
 	} else {
 		byteLen = dr.GetBytesSpan()
+		// check before allocating any space
+		if err := bitfields.BitlistCheckByteLen(byteLen, v.bitLimit); err != nil {
+			return err
+		}
 	}
 	ptrutil.BytesAllocFn(p, byteLen)
 	data := *(*[]byte)(p)
diff --git a/types/ssz_list_basic.go b/types/ssz_list_basic.go
index 34453f0..edd6974 100644
--- a/types/ssz_list_basic.go
+++ b/types/ssz_list_basic.go
@@ -121,9 +121,14 @@ func (v *SSZBasicList) decode(dr *DecodingReader, p unsafe.Pointer) error {
 		return fmt.Errorf("cannot decode basic type array, input has length %d, not compatible with element length %d", bytesLen, v.elemSSZ.FixedLen())
 	}
 
+	bytesLimit := v.limit * v.elemSSZ.FixedLen()
+	// check before allocating any space
+	if bytesLen > bytesLimit {
+		return fmt.Errorf("got %d bytes, expected no more than %d bytes", bytesLen, bytesLimit)
+	}
+
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
 		contentsPtr := v.alloc.MutateLenOrAllocNew(p, bytesLen/v.elemSSZ.FixedLen())
-		bytesLimit := v.limit * v.elemSSZ.FixedLen()
 		return LittleEndianBasicSeriesDecode(dr, contentsPtr, bytesLen, bytesLimit, v.elemKind == reflect.Bool)
 	} else {
 		return DecodeFixedSlice(v.elemSSZ.Decode, v.elemSSZ.FixedLen(), bytesLen, v.limit, v.alloc, uintptr(v.elemSSZ.FixedLen()), dr, p)
-- 
2.43.0


From 8b41194f795ebc597ae6496d114a3ac7df08b465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 12/16] fix: include the delimiting bit in the maximum fuzzing
 length of bitlists

---
 types/ssz_bitlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index e55428b..49599c0 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -50,7 +50,7 @@ func (v *SSZBitlist) FuzzMinLen() uint64 {
 // in bytes (rounded up), not bits
 func (v *SSZBitlist) FuzzMaxLen() uint64 {
 	// 8 for a random byte count, limit for maximum fill
-	return 8 + v.byteLimit
+	return 8 + v.MaxLen()
 }
 
 // in bytes (rounded up), not bits. Includes the delimiting 1 bit.
-- 
2.43.0


From 3eea20dc313a0ea4282e518c90e763b27574987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:46 +0000
Subject: [PATCH 13/16] fix: complete the proofs of ConstructProof for padded
 trees

---
 merkle/merkleize.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/merkle/merkleize.go b/merkle/merkleize.go
index 2a411a5..f76f407 100644
--- a/merkle/merkleize.go
+++ b/merkle/merkleize.go
@@ -151,9 +151,9 @@ func ConstructProof(hasher MerkleFn, count uint64, limit uint64, leaf func(i uin
 		for j = 0; ; j++ {
 			// TODO: better than full tree allocation, but style/efficiency can be improved.
 			// if i is a sibling of index at the given depth,
-			// and i is the last index of the subtree to that depth,
+			// and i is the last index of the subtree to that depth (or the padding completes the subtree),
 			// then put h into the branch
-			if (i>>j)^1 == (index>>j) && (((1<<j)-1)&i) == ((1<<j)-1) {
+			if (i>>j)^1 == (index>>j) && ((((1<<j)-1)&i) == ((1<<j)-1) || i == count) {
 				// insert sibling into the proof
 				branch[j] = hArr
 			}
@@ -188,5 +188,14 @@ func ConstructProof(hasher MerkleFn, count uint64, limit uint64, leaf func(i uin
 		merge(count)
 	}
 
+	// complement with zero-hashes beyond the leafs, like Merkleize.
+	for j := depth; j < limitDepth; j++ {
+		// the subtree with all of the leafs may be a sibling of the index at this depth
+		if index>>j == 1 {
+			branch[j] = tmp[j]
+		}
+		tmp[j+1] = hasher.Combi(tmp[j], ZeroHashes[j])
+	}
+
 	return
 }
-- 
2.43.0


From 0730f0f66460cf241da36dece25aa11ba7ee7f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:31 +0000
Subject: [PATCH 14/16] fix: DecodingReader reports no bytes for a refused Read
 or Skip

---
 dec/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dec/decoder.go b/dec/decoder.go
index a5a0413..9a25ab0 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -54,7 +54,7 @@ func (dr *DecodingReader) Max() uint64 {
 func (dr *DecodingReader) checkedIndexUpdate(x uint64) (n int, err error) {
 	v := dr.i + x
 	if v > dr.max {
-		return int(dr.i), fmt.Errorf("cannot read %d bytes, %d beyond scope", x, v-dr.max)
+		return 0, fmt.Errorf("cannot read %d bytes, %d beyond scope", x, v-dr.max)
 	}
 	dr.i = v
 	return int(x), nil
-- 
2.43.0


From 4a2b93fa4cd9675d8334c17a120ab981c8ac5838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:32 +0000
Subject: [PATCH 15/16] fix: bounds check of DecodingReader.Skip no longer
 wraps around for huge counts

---
 dec/decoder.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dec/decoder.go b/dec/decoder.go
index 9a25ab0..0c8f3e2 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -52,11 +52,10 @@ func (dr *DecodingReader) Max() uint64 {
 }
 
 func (dr *DecodingReader) checkedIndexUpdate(x uint64) (n int, err error) {
-	v := dr.i + x
-	if v > dr.max {
-		return 0, fmt.Errorf("cannot read %d bytes, %d beyond scope", x, v-dr.max)
+	if span := dr.GetBytesSpan(); x > span {
+		return 0, fmt.Errorf("cannot read %d bytes, %d beyond scope", x, x-span)
 	}
-	dr.i = v
+	dr.i += x
 	return int(x), nil
 }
 
-- 
2.43.0


From efa9affb28a437c9593618db7f463fafde592fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:17 +0000
Subject: [PATCH 16/16] fix: check the claimed element count of a list against
 the minimum length of its elements

The fixed part of a variable-size element is only a lower bound of that:
a list of structs with a vector of lists in it allocated memory for
elements that could not be in the input.
---
 types/ssz_list.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types/ssz_list.go b/types/ssz_list.go
index 92b0409..04f2eb5 100644
--- a/types/ssz_list.go
+++ b/types/ssz_list.go
@@ -134,8 +134,8 @@ func (v *SSZList) decode(dr *DecodingReader, p unsafe.Pointer) error {
 	if v.elemSSZ.IsFixed() {
 		return DecodeFixedSlice(v.elemSSZ.Decode, v.elemSSZ.FixedLen(), dr.GetBytesSpan(), v.limit, v.alloc, v.elemMemSize, dr, p)
 	} else {
-		// still pass the fixed length of the element, but just to check a minimum length requirement.
-		return DecodeVarSlice(v.elemSSZ.Decode, v.elemSSZ.FixedLen(), dr.GetBytesSpan(), v.limit, v.alloc, v.elemMemSize, dr, p)
+		// pass the minimum length of the element, to check that the claimed amount of elements can fit.
+		return DecodeVarSlice(v.elemSSZ.Decode, v.elemSSZ.MinLen(), dr.GetBytesSpan(), v.limit, v.alloc, v.elemMemSize, dr, p)
 	}
 }
 
@@ -151,7 +151,7 @@ func (v *SSZList) DryCheck(dr *DecodingReader) error {
 	if v.elemSSZ.IsFixed() {
 		return DryCheckFixedSlice(v.elemSSZ.DryCheck, v.elemSSZ.FixedLen(), dr.GetBytesSpan(), v.limit, dr)
 	} else {
-		return DryCheckVarSlice(v.elemSSZ.DryCheck, v.elemSSZ.FixedLen(), dr.GetBytesSpan(), v.limit, dr)
+		return DryCheckVarSlice(v.elemSSZ.DryCheck, v.elemSSZ.MinLen(), dr.GetBytesSpan(), v.limit, dr)
 	}
 }
 
-- 
2.43.0

