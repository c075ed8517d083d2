From 44e926f1c3d60a2e8dff2fb0f14929b04fc92eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 01/22] fix: Fibonacci::decode: a codeword cut within its
 leading zeros is not a clean end

---
 src/coding/fib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/coding/fib.rs b/src/coding/fib.rs
index e001101..5a5047e 100644
--- a/src/coding/fib.rs
+++ b/src/coding/fib.rs
@@ -72,6 +72,7 @@ impl UniversalCode for Fibonacci {
         let mut result  = 0;
         let mut fib = Fib::new();
         let mut previous = false;
+        let mut consumed = false;
 
         while let Some(bit) = try!(source.read_bit()) {
             if bit && previous {
@@ -84,12 +85,13 @@ impl UniversalCode for Fibonacci {
 
             try!(fib.next());
             previous = bit;
+            consumed = true;
         }
 
-        if result == 0 {
-            Ok(None)
-        } else {
+        if consumed {
             out_of_bits("Fibonacci::decode")
+        } else {
+            Ok(None)
         }
     }
 }
-- 
2.43.0


From 3bd49a96fbdaa6ffa6ad79319e95b4c25f8afb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 02/22] fix: Fibonacci::decode: refuse codewords whose value
 overflows u64

---
 src/coding/fib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/coding/fib.rs b/src/coding/fib.rs
index 5a5047e..b809acb 100644
--- a/src/coding/fib.rs
+++ b/src/coding/fib.rs
@@ -69,7 +69,7 @@ impl UniversalCode for Fibonacci {
     }
 
     fn decode<R: BitRead>(&self, source: &mut R) -> Result<Option<u64>> {
-        let mut result  = 0;
+        let mut result: u64 = 0;
         let mut fib = Fib::new();
         let mut previous = false;
         let mut consumed = false;
@@ -80,7 +80,10 @@ impl UniversalCode for Fibonacci {
             }
 
             if bit {
-                result += fib.i;
+                result = match result.checked_add(fib.i) {
+                    Some(sum) => sum,
+                    None      => return too_many_bits("Fibonacci::decode"),
+                };
             }
 
             try!(fib.next());
-- 
2.43.0


From c986be030e7f65a57c69e94af0a06b46d526a285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 03/22] fix: Omega::decode: refuse groups of more than 64 bits

---
 src/coding/elias.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coding/elias.rs b/src/coding/elias.rs
index 3b78154..5352b3d 100644
--- a/src/coding/elias.rs
+++ b/src/coding/elias.rs
@@ -79,6 +79,10 @@ impl UniversalCode for Omega {
             if let Some(bit) = try!(source.read_bit()) {
                 if !bit { return Ok(Some(result)); }
 
+                if result > WORD_BITS as u64 - 1 {
+                    return too_many_bits("Omega::decode");
+                }
+
                 if let Some(next) =
                        try!(source.read_int_be::<u64>(result as usize)) {
                     result = next | (1 << result as u32)
-- 
2.43.0


From a34c8b15093737bf44c183d52a41175b5a27ea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 04/22] fix: Omega::encode: refuse 0 rather than encode it as 1

---
 src/coding/elias.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coding/elias.rs b/src/coding/elias.rs
index 5352b3d..75acb3b 100644
--- a/src/coding/elias.rs
+++ b/src/coding/elias.rs
@@ -56,6 +56,8 @@ impl<Header: UniversalCode> UniversalCode for Elias<Header> {
 
 impl UniversalCode for Omega {
     fn encode<W: BitWrite>(&self, sink: &mut W, mut value: u64) -> Result<()> {
+        assert!(value != 0, "Elias codes do not handle 0");
+
         let mut stack = Vec::<(usize, u64)>::new();
 
         while value > 1 {
-- 
2.43.0


From ab9d1515a03252b9d2eebe48026a3650614ae7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 05/22] fix: Comma::decode: refuse codewords whose value
 overflows u64

---
 src/coding/comma.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/coding/comma.rs b/src/coding/comma.rs
index c1c2552..79b26b4 100644
--- a/src/coding/comma.rs
+++ b/src/coding/comma.rs
@@ -29,7 +29,7 @@ impl UniversalCode for Comma {
 
     fn decode<R: BitRead>(&self, source: &mut R) -> Result<Option<u64>> {
         let base = (1 << self.0) - 1;
-        let mut result = 0;
+        let mut result: u64 = 0;
         let mut consumed = false;
 
         loop {
@@ -37,7 +37,11 @@ impl UniversalCode for Comma {
                 if digit == base { return Ok(Some(result)) }
 
                 consumed = true;
-                result = result * base + digit;
+                result = match result.checked_mul(base)
+                                     .and_then(|r| r.checked_add(digit)) {
+                    Some(next) => next,
+                    None       => return too_many_bits("Comma::decode"),
+                };
             } else if consumed {
                 return out_of_bits("Comma::decode");
             } else {
-- 
2.43.0


From 273c31df480169ec832e08634f28240d01bf98ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 06/22] fix: Lift0::decode: refuse a 0 from the underlying code
 rather than underflow

---
 src/coding/trans.rs    | 1 +
 src/internal/errors.rs | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/coding/trans.rs b/src/coding/trans.rs
index 6401f08..25852b1 100644
--- a/src/coding/trans.rs
+++ b/src/coding/trans.rs
@@ -19,6 +19,7 @@ impl<Code: UniversalCode> UniversalCode for Lift0<Code> {
 
     fn decode<R: BitRead>(&self, source: &mut R) -> Result<Option<u64>> {
         match self.0.decode(source) {
+            Ok(Some(0)) => invalid_code("Lift0::decode"),
             Ok(Some(n)) => Ok(Some(n - 1)),
             otherwise => otherwise,
         }
diff --git a/src/internal/errors.rs b/src/internal/errors.rs
index 012c3a9..165671b 100644
--- a/src/internal/errors.rs
+++ b/src/internal/errors.rs
@@ -6,6 +6,11 @@ pub fn out_of_bits<A>(who: &str) -> Result<A> {
                            who)))
 }
 
+pub fn invalid_code<A>(who: &str) -> Result<A> {
+    Err(Error::new(ErrorKind::InvalidData,
+                   format!("{}: codeword out of range", who)))
+}
+
 pub fn too_many_bits<A>(who: &str) -> Result<A> {
     Err(Error::new(ErrorKind::InvalidData,
                    format!("{}: value too big for type", who)))
-- 
2.43.0


From d4f2e8a56dd7ca224d78c3a3c73876fe3080bc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 07/22] fix: BitWrite::write_int_be: handle zero bits and
 full-width signed values

---
 src/stream/traits.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/stream/traits.rs b/src/stream/traits.rs
index 5f45753..074daaf 100644
--- a/src/stream/traits.rs
+++ b/src/stream/traits.rs
@@ -79,11 +79,8 @@ pub trait BitWrite {
     /// Writes the lower `nbits` of `value`, most-significant first.
     fn write_int_be<N: PrimInt>(&mut self, nbits: usize, value: N)
                                 -> Result<()> {
-        let mut mask = N::one() << nbits - 1;
-
-        for _ in 0 .. nbits {
-            try!(self.write_bit(value & mask != N::zero()));
-            mask = mask >> 1;
+        for i in (0 .. nbits).rev() {
+            try!(self.write_bit((value >> i) & N::one() != N::zero()));
         }
 
         Ok(())
-- 
2.43.0


From 06973762c5a7f82e109b6b722fb09c96a789ea00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 08/22] fix: BitSlice, BitSliceMut: get_block and set_block of
 a partial last block

---
 src/bit_vec/bit_slice.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/bit_vec/bit_slice.rs b/src/bit_vec/bit_slice.rs
index 5f84118..5d510eb 100644
--- a/src/bit_vec/bit_slice.rs
+++ b/src/bit_vec/bit_slice.rs
@@ -1,3 +1,4 @@
+use std::cmp;
 use std::ops::{Range, RangeTo, RangeFrom, RangeFull};
 
 use bit_vec::traits::*;
@@ -20,6 +21,16 @@ pub struct BitSliceMut<'a, Base: 'a + BitVecMut + ?Sized> {
     len: u64,
 }
 
+// The bits that the block at `position` has in a slice of `len` bits: the last
+// block may be partial.
+fn block_span<Block: BlockType>(position: usize, len: u64) -> (u64, usize) {
+    let nbits = Block::nbits() as u64;
+    let start = (position as u64).checked_mul(nbits)
+                    .expect("BitSlice: block index overflow");
+    assert!(start < len, "BitSlice: block index out of bounds");
+    (start, cmp::min(len - start, nbits) as usize)
+}
+
 impl<'a, Base: 'a + BitVec + ?Sized> BitSlice<'a, Base> {
     /// Slices base to the specified range.
     pub fn new<R: IntoRange<u64>>(base: &'a Base, range: R) -> Self {
@@ -108,7 +119,8 @@ impl<'a, Base: 'a + BitVec + ?Sized> BitVec for BitSlice<'a, Base> {
     }
 
     fn get_block(&self, position: usize) -> Self::Block {
-        self.get_bits(Self::Block::mul_nbits(position), Self::Block::nbits())
+        let (start, count) = block_span::<Self::Block>(position, self.len);
+        self.get_bits(start, count)
     }
 }
 
@@ -134,7 +146,8 @@ impl<'a, Base: 'a + BitVecMut + ?Sized> BitVec for BitSliceMut<'a, Base> {
     }
 
     fn get_block(&self, position: usize) -> Self::Block {
-        self.get_bits(Self::Block::mul_nbits(position), Self::Block::nbits())
+        let (start, count) = block_span::<Self::Block>(position, self.len);
+        self.get_bits(start, count)
     }
 }
 
@@ -153,8 +166,8 @@ impl<'a, Base: 'a + BitVecMut + ?Sized> BitVecMut for BitSliceMut<'a, Base> {
     }
 
     fn set_block(&mut self, position: usize, value: Self::Block) {
-        self.set_bits(Self::Block::mul_nbits(position),
-                      Self::Block::nbits(), value);
+        let (start, count) = block_span::<Self::Block>(position, self.len);
+        self.set_bits(start, count, value);
     }
 }
 
-- 
2.43.0


From b00f826a87f48d39c4f15166417e4c64615c9da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 09/22] fix: vector iterators: nth past the end leaves nothing
 rather than less than nothing

---
 src/internal/vector_base.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/internal/vector_base.rs b/src/internal/vector_base.rs
index f6a121d..6e46395 100644
--- a/src/internal/vector_base.rs
+++ b/src/internal/vector_base.rs
@@ -390,7 +390,8 @@ impl<'a, Block: BlockType> Iterator for Iter<'a, Block> {
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.start = self.start.checked_add(n as u64).unwrap_or(self.limit);
+        self.start = self.start.checked_add(n as u64)
+                         .map_or(self.limit, |start| start.min(self.limit));
         self.next()
     }
 }
-- 
2.43.0


From feec946890c227bb520c782c19adbe5b6d7cb28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 10/22] fix: JacobsonRank::new: accept bit vectors of 0 and 1
 bits

---
 src/rank/jacobson.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rank/jacobson.rs b/src/rank/jacobson.rs
index cd525f6..1b6559d 100644
--- a/src/rank/jacobson.rs
+++ b/src/rank/jacobson.rs
@@ -1,3 +1,5 @@
+use std::cmp;
+
 use num_traits::PrimInt;
 
 use bit_vec::BitVec;
@@ -26,12 +28,12 @@ impl<Store: BitVec> JacobsonRank<Store> {
         let lg2_n = lg_n * lg_n;
 
         let small_block_size  = Store::Block::nbits();
-        let small_per_large   = lg2_n.ceil_div(small_block_size);
+        let small_per_large   = cmp::max(1, lg2_n.ceil_div(small_block_size));
         let large_block_size  = small_block_size * small_per_large;
         let large_block_count = n / large_block_size as u64 + 1;
         let small_block_count = n / small_block_size as u64 + 1;
 
-        let large_meta_size   = (n + 1).ceil_lg();
+        let large_meta_size   = cmp::max(1, (n + 1).ceil_lg());
         let small_meta_size   = (large_block_size + 1).ceil_lg();
 
         let mut large_block_ranks =
-- 
2.43.0


From 8b17e965e9c123cb0cb636e49d5f5a21717fde4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 11/22] fix: VectorBase::reserve(_exact): ask for blocks beyond
 the length, not the capacity

---
 src/internal/vector_base.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/vector_base.rs b/src/internal/vector_base.rs
index 6e46395..d5be166 100644
--- a/src/internal/vector_base.rs
+++ b/src/internal/vector_base.rs
@@ -284,7 +284,7 @@ impl<Block: BlockType> VectorBase<Block> {
                 .and_then(|e| e.checked_mul(element_bits as u64))
                 .and_then(Block::checked_ceil_div_nbits)
                 .expect("VectorBase::reserve_(exact): overflow")
-                .saturating_sub(self.vec.capacity())
+                .saturating_sub(self.vec.len())
     }
 
     #[inline]
-- 
2.43.0


From 97bbdbfaa0418034e74a0a1318b3e3e0244510cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 12/22] fix: BitVec::get_bits, BitVecMut::set_bits: accept an
 empty span at the end

---
 src/bit_vec/traits.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index cf62776..1e16fb2 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -78,6 +78,8 @@ pub trait BitVec {
         let limit = start + count as u64;
         assert!(limit <= self.bit_len(), "BitVec::get_bits: out of bounds");
 
+        if count == 0 { return Self::Block::zero(); }
+
         let address = Address::new::<Self::Block>(start);
         let margin = Self::Block::nbits() - address.bit_offset;
 
@@ -160,6 +162,8 @@ pub trait BitVecMut: BitVec {
         let limit = start + count as u64;
         assert!(limit <= self.bit_len(), "BitVecMut::set_bits: out of bounds");
 
+        if count == 0 { return; }
+
         let address = Address::new::<Self::Block>(start);
         let margin = Self::Block::nbits() - address.bit_offset;
 
-- 
2.43.0


From 6b8026675d4485da112889828a887c39726e3733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 13/22] fix: BlockType::checked_ceil_div_nbits: report overflow
 rather than wrap

---
 src/storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index d5f9cd7..fd63da9 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -69,7 +69,8 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// be small enough.
     #[inline]
     fn checked_ceil_div_nbits(index: u64) -> Option<usize> {
-        Self::checked_div_nbits(index + (Self::nbits() as u64 - 1))
+        index.checked_add(Self::nbits() as u64 - 1)
+             .and_then(Self::checked_div_nbits)
     }
 
     /// Returns `index % Self::nbits()`, computed by masking.
-- 
2.43.0


From d8656005b971469ee638e6cc8bfeb3e982205dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 14/22] fix: JacobsonRank::new: do not count the extra bits of
 the last block

---
 src/rank/jacobson.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rank/jacobson.rs b/src/rank/jacobson.rs
index 1b6559d..ccaf5d8 100644
--- a/src/rank/jacobson.rs
+++ b/src/rank/jacobson.rs
@@ -54,7 +54,14 @@ impl<Store: BitVec> JacobsonRank<Store> {
             let excess_rank = current_rank - last_large_rank;
             small_block_ranks.push(excess_rank);
 
-            current_rank += bits.get_block(i).count_ones() as u64;
+            let mut block = bits.get_block(i);
+            if i + 1 == bits.block_len() {
+                // The last block may contain extra bits.
+                let used = Store::Block::last_block_bits(n);
+                block = block.get_bits(0, used);
+            }
+
+            current_rank += block.count_ones() as u64;
             small_block_index += 1;
 
             if small_block_index == small_per_large {
-- 
2.43.0


From 40ae2d614640929d8cca84fc9fab8b5f47a23828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 15/22] fix: BitVecMut::set_block: refuse positions out of
 bounds rather than wrap

---
 src/bit_vec/traits.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index 1e16fb2..d626177 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -138,6 +138,9 @@ pub trait BitVecMut: BitVec {
     ///
     /// Panics if `position` is out of bounds.
     fn set_block(&mut self, position: usize, mut value: Self::Block) {
+        assert!(position < self.block_len(),
+                "BitVecMut::set_block: out of bounds");
+
         let limit = if position + 1 == self.block_len() {
             Self::Block::last_block_bits(self.bit_len())
         } else {
-- 
2.43.0


From d3b2521cc9e6e24c938b94e9e66d71951821f746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 16/22] fix: primitive bit vectors: get_bits and set_bits
 refuse spans whose end overflows

---
 src/bit_vec/prim.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bit_vec/prim.rs b/src/bit_vec/prim.rs
index 26e7d1d..c7144eb 100644
--- a/src/bit_vec/prim.rs
+++ b/src/bit_vec/prim.rs
@@ -33,7 +33,8 @@ macro_rules! impl_bits_prim {
 
             #[inline]
             fn get_bits(&self, start: u64, count: usize) -> Self {
-                assert!(start + count as u64 <= Self::nbits() as u64,
+                assert!(start.checked_add(count as u64)
+                             .map_or(false, |limit| limit <= self.bit_len()),
                         "prim::get_bits: out of bounds");
                 BlockType::get_bits(*self, start as usize, count)
             }
@@ -55,7 +56,8 @@ macro_rules! impl_bits_prim {
 
             #[inline]
             fn set_bits(&mut self, start: u64, count: usize, value: Self::Block) {
-                assert!(start + count as u64 <= Self::nbits() as u64,
+                assert!(start.checked_add(count as u64)
+                             .map_or(false, |limit| limit <= self.bit_len()),
                         "prim::set_bits: out of bounds");
                 *self = self.with_bits(start as usize, count, value);
             }
-- 
2.43.0


From 10f2e539389d3480e5c9c61158df1f369ef5e9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 17/22] fix: Rank9::rank1: refuse positions beyond the end
 within the last block

---
 src/rank/rank9.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rank/rank9.rs b/src/rank/rank9.rs
index f30d225..b6398c4 100644
--- a/src/rank/rank9.rs
+++ b/src/rank/rank9.rs
@@ -131,6 +131,9 @@ impl<Store: BitVec<Block = u64>> Rank9<Store> {
 
 impl<Store: BitVec<Block = u64>> BitRankSupport for Rank9<Store> {
     fn rank1(&self, position: u64) -> u64 {
+        assert!(position < self.bit_len(),
+                "Rank9::rank1: out of bounds");
+
         let bb_index = (position / 512).to_usize()
                                        .expect("Rank9::rank1: index overflow");
         let word_index = (position / 64).to_usize()
-- 
2.43.0


From 1883f6377ddbe02963cd3f0f3355e54334fae4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 18/22] fix: BinSearchSelect: find nothing at the largest index
 rather than overflow

---
 src/select/bin_search.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/select/bin_search.rs b/src/select/bin_search.rs
index 4734f37..95bf46f 100644
--- a/src/select/bin_search.rs
+++ b/src/select/bin_search.rs
@@ -53,8 +53,10 @@ macro_rules! impl_select_support_b {
         impl<Rank: BitRankSupport>
         $select_support for BinSearchSelect<Rank> {
             fn $select(&self, index: u64) -> Option<u64> {
-                binary_search_function(0, self.limit(), index + 1,
-                                       |i| self.$rank(i))
+                index.checked_add(1).and_then(|rank| {
+                    binary_search_function(0, self.limit(), rank,
+                                           |i| self.$rank(i))
+                })
             }
         }
     }
@@ -67,8 +69,10 @@ impl<Rank: RankSupport> SelectSupport for BinSearchSelect<Rank> {
     type Over = Rank::Over;
 
     fn select(&self, index: u64, value: Rank::Over) -> Option<u64> {
-        binary_search_function(0, self.limit(), index + 1,
-                               |i| self.rank(i, value))
+        index.checked_add(1).and_then(|rank| {
+            binary_search_function(0, self.limit(), rank,
+                                   |i| self.rank(i, value))
+        })
     }
 }
 
-- 
2.43.0


From c06b894339c53d53f6ab6d1ac2c1b4ecfe06df7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:54 +0000
Subject: [PATCH 19/22] fix: BlockType::ceil_div: do not overflow near the end
 of the range

---
 src/storage.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index fd63da9..378312b 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -224,7 +224,12 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// Returns the smallest number `n` such that `n * divisor >= self`.
     #[inline]
     fn ceil_div(self, divisor: Self) -> Self {
-        (self + divisor - Self::one()) / divisor
+        // `self + divisor` may not be representable.
+        if self == Self::zero() {
+            Self::zero()
+        } else {
+            (self - Self::one()) / divisor + Self::one()
+        }
     }
 
     // I/O methods
-- 
2.43.0


From a6295c6e1a29127ed8a1ac50c70e65c6138bf025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:46 +0000
Subject: [PATCH 20/22] fix: BitVec::get_bits and BitVecMut::set_bits: refuse
 spans whose end overflows

---
 src/bit_vec/traits.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index d626177..3c04e47 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -75,7 +75,8 @@ pub trait BitVec {
     ///
     /// Panics if the bit span goes out of bounds.
     fn get_bits(&self, start: u64, count: usize) -> Self::Block {
-        let limit = start + count as u64;
+        let limit = start.checked_add(count as u64)
+                         .expect("BitVec::get_bits: index overflow");
         assert!(limit <= self.bit_len(), "BitVec::get_bits: out of bounds");
 
         if count == 0 { return Self::Block::zero(); }
@@ -162,7 +163,8 @@ pub trait BitVecMut: BitVec {
     ///
     /// Panics if the bit span goes out of bounds.
     fn set_bits(&mut self, start: u64, count: usize, value: Self::Block) {
-        let limit = start + count as u64;
+        let limit = start.checked_add(count as u64)
+                         .expect("BitVecMut::set_bits: index overflow");
         assert!(limit <= self.bit_len(), "BitVecMut::set_bits: out of bounds");
 
         if count == 0 { return; }
-- 
2.43.0


From 29edbf4866ef956b15e61024cdb51675ef4e906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:06 +0000
Subject: [PATCH 21/22] fix: rank queries on primitive words refuse positions
 out of bounds in release builds too

---
 src/rank/prim.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rank/prim.rs b/src/rank/prim.rs
index 7d10a78..1351f85 100644
--- a/src/rank/prim.rs
+++ b/src/rank/prim.rs
@@ -19,7 +19,8 @@ macro_rules! impl_rank_support_prim {
 
         impl BitRankSupport for $t {
             fn rank1(&self, position: u64) -> u64 {
-                debug_assert!(position < Self::nbits() as u64);
+                assert!(position < Self::nbits() as u64,
+                        "prim::rank1: out of bounds");
 
                 let mask = Self::low_mask((position + 1) as usize);
                 (*self & mask).count_ones() as u64
-- 
2.43.0


From ba51f64494f6db223f43df5d864996ee956dcb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:18 +0000
Subject: [PATCH 22/22] fix: check the element size before filling an IntVector

---
 src/int_vec/int_vector.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/int_vec/int_vector.rs b/src/int_vec/int_vector.rs
index 998aec3..d0be83d 100644
--- a/src/int_vec/int_vector.rs
+++ b/src/int_vec/int_vector.rs
@@ -92,6 +92,7 @@ impl<Block: BlockType> IntVector<Block> {
 
     /// Creates a new integer vector containing `len` copies of `value`.
     pub fn with_fill(element_bits: usize, len: u64, value: Block) -> Self {
+        Self::check_element_bits(element_bits);
         Self::create(element_bits,
                      VectorBase::with_fill(element_bits, len, value))
     }
-- 
2.43.0

