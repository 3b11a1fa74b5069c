From 9059ddbafe9940283233377086cce4dc6b0f21c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:59 +0000
Subject: [PATCH 01/17] fix: BitVec equality and hash ignored the last limb of
 vectors whose length is a multiple of 64

---
 src/bit_vec/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bit_vec/mod.rs b/src/bit_vec/mod.rs
index fc2b4de..e9481a6 100644
--- a/src/bit_vec/mod.rs
+++ b/src/bit_vec/mod.rs
@@ -1606,7 +1606,7 @@ impl PartialEq for BitVec {
         }
 
         // in last limb, ignore junk data
-        let mask = (1 << (self.len % WORD_SIZE)) - 1;
+        let mask = u64::MAX >> ((WORD_SIZE - self.len % WORD_SIZE) % WORD_SIZE);
         if self.data[self.data.len() - 1] & mask != other.data[self.data.len() - 1] & mask {
             return false;
         }
@@ -1624,7 +1624,8 @@ impl Hash for BitVec {
             self.data[0..self.data.len() - 1]
                 .iter()
                 .for_each(|x| state.write_u64(*x));
-            let masked_last_limb = self.data.last().unwrap() & ((1 << (self.len % WORD_SIZE)) - 1);
+            let mask = u64::MAX >> ((WORD_SIZE - self.len % WORD_SIZE) % WORD_SIZE);
+            let masked_last_limb = self.data.last().unwrap() & mask;
             state.write_u64(masked_last_limb);
         }
     }
-- 
2.43.0


From 3d93967ea9ec4c1c4381a2517b65d8e39d1602cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:59 +0000
Subject: [PATCH 02/17] fix: appending zero bits to a BitVec at a limb boundary
 left a spurious limb behind

---
 src/bit_vec/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/bit_vec/mod.rs b/src/bit_vec/mod.rs
index e9481a6..16c1ade 100644
--- a/src/bit_vec/mod.rs
+++ b/src/bit_vec/mod.rs
@@ -911,6 +911,11 @@ impl BitVec {
     pub fn append_bits(&mut self, bits: u64, len: usize) {
         assert!(len <= 64, "Cannot append more than 64 bits");
 
+        // don't allocate a limb if no bits are appended
+        if len == 0 {
+            return;
+        }
+
         if self.len.is_multiple_of(WORD_SIZE) {
             self.data.push(bits);
         } else {
@@ -948,6 +953,11 @@ impl BitVec {
     /// [`append_bits`]: BitVec::append_bits
     /// [`drop_last`]: BitVec::drop_last
     pub fn append_bits_unchecked(&mut self, bits: u64, len: usize) {
+        // don't allocate a limb if no bits are appended
+        if len == 0 {
+            return;
+        }
+
         if self.len.is_multiple_of(WORD_SIZE) {
             self.data.push(bits);
         } else {
@@ -1196,6 +1206,12 @@ impl BitVec {
     #[allow(clippy::cast_possible_truncation)] // parameter must be out of scope for this to happen
     pub fn get_bits_unchecked(&self, pos: usize, len: usize) -> u64 {
         debug_assert!(len <= WORD_SIZE);
+
+        // zero-width queries don't access any limb, as there may be none at `pos`
+        if len == 0 {
+            return 0;
+        }
+
         let partial_word = self.data[pos / WORD_SIZE] >> (pos % WORD_SIZE);
         if pos % WORD_SIZE + len <= WORD_SIZE {
             partial_word & 1u64.checked_shl(len as u32).unwrap_or(0).wrapping_sub(1)
-- 
2.43.0


From dde0907cb9055c7f4e2f8a0d95f17ece56584bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:59 +0000
Subject: [PATCH 03/17] fix: out-of-range get_bits and unpack_element queries
 panicked instead of returning None

---
 src/bit_vec/fast_rs_vec/mod.rs | 8 +++++++-
 src/bit_vec/mask.rs            | 2 +-
 src/bit_vec/mod.rs             | 4 ++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/mod.rs b/src/bit_vec/fast_rs_vec/mod.rs
index 1d4ea69..c345136 100644
--- a/src/bit_vec/fast_rs_vec/mod.rs
+++ b/src/bit_vec/fast_rs_vec/mod.rs
@@ -352,7 +352,7 @@ impl RsVec {
         if len > WORD_SIZE {
             return None;
         }
-        if pos + len > self.len {
+        if pos > self.len || len > self.len - pos {
             None
         } else {
             Some(self.get_bits_unchecked(pos, len))
@@ -379,6 +379,12 @@ impl RsVec {
     #[allow(clippy::cast_possible_truncation)] // parameter must be out of scope for this to happen
     pub fn get_bits_unchecked(&self, pos: usize, len: usize) -> u64 {
         debug_assert!(len <= WORD_SIZE);
+
+        // zero-width queries don't access any limb, as there may be none at `pos`
+        if len == 0 {
+            return 0;
+        }
+
         let partial_word = self.data[pos / WORD_SIZE] >> (pos % WORD_SIZE);
         if pos % WORD_SIZE + len <= WORD_SIZE {
             partial_word & 1u64.checked_shl(len as u32).unwrap_or(0).wrapping_sub(1)
diff --git a/src/bit_vec/mask.rs b/src/bit_vec/mask.rs
index 4669829..58ea776 100644
--- a/src/bit_vec/mask.rs
+++ b/src/bit_vec/mask.rs
@@ -112,7 +112,7 @@ where
         if len > WORD_SIZE || len == 0 {
             return None;
         }
-        if pos + len > self.vec.len {
+        if pos > self.vec.len || len > self.vec.len - pos {
             None
         } else {
             Some(self.get_bits_unchecked(pos, len))
diff --git a/src/bit_vec/mod.rs b/src/bit_vec/mod.rs
index 16c1ade..bd8a37d 100644
--- a/src/bit_vec/mod.rs
+++ b/src/bit_vec/mod.rs
@@ -1176,7 +1176,7 @@ impl BitVec {
         if len > WORD_SIZE || len == 0 {
             return None;
         }
-        if pos + len > self.len {
+        if pos > self.len || len > self.len - pos {
             None
         } else {
             Some(self.get_bits_unchecked(pos, len))
@@ -1248,7 +1248,7 @@ impl BitVec {
     #[allow(clippy::inline_always)]
     #[inline(always)] // to gain optimization if n is constant
     pub fn unpack_element(&self, index: usize, n: usize) -> Option<u64> {
-        self.get_bits(index * n, n)
+        self.get_bits(index.checked_mul(n)?, n)
     }
 
     /// Extract a packed element from a bit vector. The element is encoded in the bits at the given
-- 
2.43.0


From 9fc6d9f61166b9c25c410f5d6aae140b202be2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:59 +0000
Subject: [PATCH 04/17] fix: MaskedBitVec::get_bits returned 0 for unaligned
 64-bit queries

---
 src/bit_vec/mask.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bit_vec/mask.rs b/src/bit_vec/mask.rs
index 58ea776..19b436b 100644
--- a/src/bit_vec/mask.rs
+++ b/src/bit_vec/mask.rs
@@ -149,14 +149,14 @@ where
         if pos % WORD_SIZE + len == WORD_SIZE {
             partial_word
         } else if pos % WORD_SIZE + len < WORD_SIZE {
-            partial_word & ((1 << (len % WORD_SIZE)) - 1)
+            partial_word & ((1 << len) - 1)
         } else {
             let next_half = (self.bin_op)(
                 self.vec.data[pos / WORD_SIZE + 1],
                 self.mask.data[pos / WORD_SIZE + 1],
             ) << (WORD_SIZE - pos % WORD_SIZE);
 
-            (partial_word | next_half) & ((1 << (len % WORD_SIZE)) - 1)
+            (partial_word | next_half) & (u64::MAX >> (WORD_SIZE - len))
         }
     }
 
-- 
2.43.0


From 25e1169f7ddc83d4e6a3e1e8ecc4a89754c665e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:59 +0000
Subject: [PATCH 05/17] fix: Elias-Fano iterator last() and max() omitted the
 universe offset

---
 src/util/elias_fano_iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/elias_fano_iter.rs b/src/util/elias_fano_iter.rs
index 646d3f4..8ac8e1d 100644
--- a/src/util/elias_fano_iter.rs
+++ b/src/util/elias_fano_iter.rs
@@ -107,7 +107,7 @@ macro_rules! gen_ef_iter_impl {
                 let lower = self
                     .vec
                     .get_bits_unchecked(self.back_index.unwrap() * self.lower_len, self.lower_len);
-                Some(((upper as u64) << self.lower_len) | lower)
+                Some((((upper as u64) << self.lower_len) | lower) + self.universe_zero)
             }
 
             /// Returns the nth element of the iterator. Does not call `next` internally, but advances
-- 
2.43.0


From 114a10cc2e1f11c560d75eebb9803ed9f98aa24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:59 +0000
Subject: [PATCH 06/17] fix: SelectIter::nth_back underflowed when skipping all
 remaining elements

---
 src/bit_vec/fast_rs_vec/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/iter.rs b/src/bit_vec/fast_rs_vec/iter.rs
index e0d4fcf..1a348aa 100644
--- a/src/bit_vec/fast_rs_vec/iter.rs
+++ b/src/bit_vec/fast_rs_vec/iter.rs
@@ -348,11 +348,11 @@ macro_rules! gen_iter_impl {
             /// implementation in the double ended iterator impl.
             pub(super) fn advance_back_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
                 if self.len() >= n {
-                    self.next_rank_back = self.next_rank_back.map(|x| x - n);
+                    self.next_rank_back = self.next_rank_back.and_then(|x| x.checked_sub(n));
                     Ok(())
                 } else {
                     let len = self.len();
-                    self.next_rank_back = self.next_rank_back.map(|x| x - len);
+                    self.next_rank_back = self.next_rank_back.and_then(|x| x.checked_sub(len));
                     Err(NonZeroUsize::new(n - len).unwrap())
                 }
             }
-- 
2.43.0


From b7e5ced39bce2ba4c8b2499c1889887f746897c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:32 +0000
Subject: [PATCH 07/17] fix: nth and nth_back past the end did not exhaust the
 vector iterators, or overflowed

---
 src/util/elias_fano_iter.rs | 21 +++++++++++++--------
 src/util/general_iter.rs    | 21 +++++++++++++--------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/util/elias_fano_iter.rs b/src/util/elias_fano_iter.rs
index 8ac8e1d..b04657b 100644
--- a/src/util/elias_fano_iter.rs
+++ b/src/util/elias_fano_iter.rs
@@ -12,12 +12,9 @@ macro_rules! gen_ef_iter_impl {
                     return Ok(());
                 }
 
-                if Some(self.index + n - 1) > self.back_index {
-                    if Some(self.index) > self.back_index {
-                        Err(std::num::NonZeroUsize::new(n).unwrap())
-                    } else {
-                        Err(std::num::NonZeroUsize::new(n - (self.back_index.as_ref().unwrap_or(&usize::MAX).wrapping_sub(self.index).wrapping_add(1))).unwrap())
-                    }
+                let remaining = self.len();
+                if remaining < n {
+                    Err(std::num::NonZeroUsize::new(n - remaining).unwrap())
                 } else {
                     self.index += n;
                     if n > 0 {
@@ -113,7 +110,11 @@ macro_rules! gen_ef_iter_impl {
             /// Returns the nth element of the iterator. Does not call `next` internally, but advances
             /// the iterator by `n` elements.
             fn nth(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_by(n).ok()?;
+                if self.advance_by(n).is_err() {
+                    // all remaining elements are consumed if there are too few of them
+                    let _ = self.advance_by(self.len());
+                    return None;
+                }
                 self.next()
             }
 
@@ -167,7 +168,11 @@ macro_rules! gen_ef_iter_impl {
             }
 
             fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_back_by(n).ok()?;
+                if self.advance_back_by(n).is_err() {
+                    // all remaining elements are consumed if there are too few of them
+                    let _ = self.advance_back_by(self.len());
+                    return None;
+                }
                 self.next_back()
             }
         }
diff --git a/src/util/general_iter.rs b/src/util/general_iter.rs
index afc4c73..17de855 100644
--- a/src/util/general_iter.rs
+++ b/src/util/general_iter.rs
@@ -32,12 +32,9 @@ macro_rules! gen_vector_iter_impl {
                     return Ok(());
                 }
 
-                if Some(self.index + n - 1) > self.back_index {
-                    if Some(self.index) > self.back_index {
-                        Err(std::num::NonZeroUsize::new(n).unwrap())
-                    } else {
-                        Err(std::num::NonZeroUsize::new(n - (self.back_index.as_ref().unwrap_or(&usize::MAX).wrapping_sub(self.index).wrapping_add(1))).unwrap())
-                    }
+                let remaining = self.len();
+                if remaining < n {
+                    Err(std::num::NonZeroUsize::new(n - remaining).unwrap())
                 } else {
                     self.index += n;
                     Ok(())
@@ -118,7 +115,11 @@ macro_rules! gen_vector_iter_impl {
             /// Returns the nth element of the iterator. Does not call `next` internally, but advances
             /// the iterator by `n` elements.
             fn nth(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_by(n).ok()?;
+                if self.advance_by(n).is_err() {
+                    // all remaining elements are consumed if there are too few of them
+                    let _ = self.advance_by(self.len());
+                    return None;
+                }
                 self.next()
             }
         }
@@ -148,7 +149,11 @@ macro_rules! gen_vector_iter_impl {
             }
 
             fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_back_by(n).ok()?;
+                if self.advance_back_by(n).is_err() {
+                    // all remaining elements are consumed if there are too few of them
+                    let _ = self.advance_back_by(self.len());
+                    return None;
+                }
                 self.next_back()
             }
         }
-- 
2.43.0


From 3ea6c46c59dedccb25beb4542f2da00aa8aa4aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:32 +0000
Subject: [PATCH 08/17] fix: range_min_with_range panicked on empty ranges
 despite clamping to valid indices

---
 src/rmq/binary_rmq/mod.rs | 6 +++---
 src/rmq/fast_rmq/mod.rs   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rmq/binary_rmq/mod.rs b/src/rmq/binary_rmq/mod.rs
index b6cfda3..246fe6e 100644
--- a/src/rmq/binary_rmq/mod.rs
+++ b/src/rmq/binary_rmq/mod.rs
@@ -124,17 +124,17 @@ impl BinaryRmq {
     pub fn range_min_with_range<T: RangeBounds<usize>>(&self, range: T) -> usize {
         let start = match range.start_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(i) => *i + 1,
+            Bound::Excluded(i) => i.saturating_add(1),
             Bound::Unbounded => 0,
         }
         .clamp(0, self.len() - 1);
 
         let end = match range.end_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(i) => *i - 1,
+            Bound::Excluded(i) => i.saturating_sub(1),
             Bound::Unbounded => self.len() - 1,
         }
-        .clamp(0, self.len() - 1);
+        .clamp(start, self.len() - 1);
         self.range_min(start, end)
     }
 
diff --git a/src/rmq/fast_rmq/mod.rs b/src/rmq/fast_rmq/mod.rs
index eb6d8ed..50a66de 100644
--- a/src/rmq/fast_rmq/mod.rs
+++ b/src/rmq/fast_rmq/mod.rs
@@ -171,17 +171,17 @@ impl FastRmq {
     pub fn range_min_with_range<T: RangeBounds<usize>>(&self, range: T) -> usize {
         let start = match range.start_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(i) => *i + 1,
+            Bound::Excluded(i) => i.saturating_add(1),
             Bound::Unbounded => 0,
         }
         .clamp(0, self.len() - 1);
 
         let end = match range.end_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(i) => *i - 1,
+            Bound::Excluded(i) => i.saturating_sub(1),
             Bound::Unbounded => self.len() - 1,
         }
-        .clamp(0, self.len() - 1);
+        .clamp(start, self.len() - 1);
         self.range_min(start, end)
     }
 
-- 
2.43.0


From 8da4e11995281106e244de910c813b6e30423854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:32 +0000
Subject: [PATCH 09/17] fix: BpTree backward search skipped or double-counted
 bits for block sizes not aligned to the lookup table

---
 src/trees/bp/mod.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index c508966..f393343 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -314,7 +314,13 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
             }
         }
 
-        for i in (block_boundary..lookup_boundary)
+        // the boundary down to which we can use table lookups
+        let lower_lookup_boundary = min(
+            lookup_boundary,
+            block_boundary.div_ceil(LOOKUP_BLOCK_SIZE as usize) * LOOKUP_BLOCK_SIZE as usize,
+        );
+
+        for i in (lower_lookup_boundary..lookup_boundary)
             .step_by(LOOKUP_BLOCK_SIZE as usize)
             .rev()
         {
@@ -329,6 +335,17 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
             }
         }
 
+        // if the block boundary isn't aligned to the lookup blocks (which happens if the block size
+        // isn't a multiple of the lookup block size), search the remaining bits
+        for i in (block_boundary..lower_lookup_boundary).rev() {
+            let bit = self.vec.get_unchecked(i);
+            *relative_excess += if bit == 1 { 1 } else { -1 };
+
+            if *relative_excess == 0 {
+                return Ok(i);
+            }
+        }
+
         Err(())
     }
 
-- 
2.43.0


From 940e7da86092aeb3c6e85ab3bce51b4fcd921c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:32 +0000
Subject: [PATCH 10/17] fix: BpTree level and search queries panicked on trees
 without nodes and missed a childless root

---
 src/trees/bp/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index f393343..6098577 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -163,7 +163,7 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
     pub fn fwd_search(&self, index: usize, mut relative_excess: i64) -> Option<usize> {
         // check for greater than or equal length minus one, because the last element
         // won't ever have a result from fwd_search
-        if index >= (self.vec.len() - 1) {
+        if index >= self.vec.len().saturating_sub(1) {
             return None;
         }
 
@@ -723,7 +723,7 @@ impl<const BLOCK_SIZE: usize> LevelTree for BpTree<BLOCK_SIZE> {
     fn level_leftmost(&self, level: u64) -> Option<Self::NodeHandle> {
         // fwd_search doesn't support returning the input position
         if level == 0 {
-            return Some(0);
+            return self.root();
         }
 
         #[allow(clippy::cast_possible_wrap)]
@@ -732,9 +732,14 @@ impl<const BLOCK_SIZE: usize> LevelTree for BpTree<BLOCK_SIZE> {
     }
 
     fn level_rightmost(&self, level: u64) -> Option<Self::NodeHandle> {
+        // the root is the only node at level 0
+        if level == 0 {
+            return self.root();
+        }
+
         #[allow(clippy::cast_possible_wrap)]
         // if the level exceeds 2^63, we accept that the result is wrong
-        self.open(self.bwd_search(self.size() * 2 - 1, level as i64)?)
+        self.open(self.bwd_search((self.size() * 2).checked_sub(1)?, level as i64)?)
     }
 }
 
-- 
2.43.0


From b750be4062155e2bd68ee55fa61670613c595c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:32 +0000
Subject: [PATCH 11/17] fix: WaveletMatrix quantile and rank queries panicked
 on reversed ranges instead of returning None

---
 src/wavelet/mod.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/wavelet/mod.rs b/src/wavelet/mod.rs
index 7a246ca..d67006b 100644
--- a/src/wavelet/mod.rs
+++ b/src/wavelet/mod.rs
@@ -458,6 +458,7 @@ impl WaveletMatrix {
     pub fn rank_range(&self, range: Range<usize>, symbol: &BitVec) -> Option<usize> {
         if range.start >= self.len()
             || range.end > self.len()
+            || range.start > range.end
             || symbol.len() != self.bits_per_element()
         {
             None
@@ -518,7 +519,11 @@ impl WaveletMatrix {
     /// ```
     #[must_use]
     pub fn rank_range_u64(&self, range: Range<usize>, symbol: u64) -> Option<usize> {
-        if range.start >= self.len() || range.end > self.len() || self.bits_per_element() > 64 {
+        if range.start >= self.len()
+            || range.end > self.len()
+            || range.start > range.end
+            || self.bits_per_element() > 64
+        {
             None
         } else {
             Some(self.rank_range_u64_unchecked(range, symbol))
@@ -1103,7 +1108,10 @@ impl WaveletMatrix {
     /// ```
     #[must_use]
     pub fn quantile(&self, range: Range<usize>, k: usize) -> Option<BitVec> {
-        if range.start >= self.len() || range.end > self.len() || k >= range.end - range.start {
+        if range.start >= self.len()
+            || range.end > self.len()
+            || k >= range.end.saturating_sub(range.start)
+        {
             None
         } else {
             Some(self.quantile_unchecked(range, k))
@@ -1235,7 +1243,7 @@ impl WaveletMatrix {
         if range.start >= self.len()
             || range.end > self.len()
             || self.bits_per_element() > 64
-            || k >= range.end - range.start
+            || k >= range.end.saturating_sub(range.start)
         {
             None
         } else {
-- 
2.43.0


From 24ddf5137cbe3a134105e29185506ffde1af28aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:01 +0000
Subject: [PATCH 12/17] fix: SparseRSVec unchecked access panicked for
 positions left of the first 1-bit

---
 src/bit_vec/sparse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bit_vec/sparse.rs b/src/bit_vec/sparse.rs
index bab1b9e..482d137 100644
--- a/src/bit_vec/sparse.rs
+++ b/src/bit_vec/sparse.rs
@@ -149,7 +149,8 @@ impl SparseRSVec {
     /// [`is_set`]: #method.is_set
     #[must_use]
     pub fn is_set_unchecked(&self, i: u64) -> bool {
-        self.vec.predecessor_unchecked(i) == i
+        // if the predecessor is None, the bit is left of the first 1-bit
+        self.vec.predecessor(i) == Some(i)
     }
 
     /// Returns true if the bit at position `i` is set.
-- 
2.43.0


From 5e3e6b0c9038e979582b3ec3769ea6f65be6cf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:47 +0000
Subject: [PATCH 13/17] fix: WaveletMatrix select overflowed for huge ranks

---
 src/wavelet/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wavelet/mod.rs b/src/wavelet/mod.rs
index d67006b..61aca7c 100644
--- a/src/wavelet/mod.rs
+++ b/src/wavelet/mod.rs
@@ -829,7 +829,7 @@ impl WaveletMatrix {
     /// [`BitVec`]: BitVec
     #[must_use]
     pub fn select_offset(&self, offset: usize, rank: usize, symbol: &BitVec) -> Option<usize> {
-        if offset >= self.len() || symbol.len() != self.bits_per_element() {
+        if offset >= self.len() || rank >= self.len() || symbol.len() != self.bits_per_element() {
             None
         } else {
             let idx = self.select_offset_unchecked(offset, rank, symbol);
@@ -906,7 +906,7 @@ impl WaveletMatrix {
     /// ```
     #[must_use]
     pub fn select_offset_u64(&self, offset: usize, rank: usize, symbol: u64) -> Option<usize> {
-        if offset >= self.len() || self.bits_per_element() > 64 {
+        if offset >= self.len() || rank >= self.len() || self.bits_per_element() > 64 {
             None
         } else {
             let idx = self.select_offset_u64_unchecked(offset, rank, symbol);
@@ -963,7 +963,7 @@ impl WaveletMatrix {
     /// [`BitVec`]: BitVec
     #[must_use]
     pub fn select(&self, rank: usize, symbol: &BitVec) -> Option<usize> {
-        if symbol.len() == self.bits_per_element() {
+        if rank < self.len() && symbol.len() == self.bits_per_element() {
             let idx = self.select_unchecked(rank, symbol);
             if idx < self.len() {
                 Some(idx)
@@ -1015,7 +1015,7 @@ impl WaveletMatrix {
     /// ```
     #[must_use]
     pub fn select_u64(&self, rank: usize, symbol: u64) -> Option<usize> {
-        if self.bits_per_element() > 64 {
+        if rank >= self.len() || self.bits_per_element() > 64 {
             None
         } else {
             let idx = self.select_u64_unchecked(rank, symbol);
-- 
2.43.0


From 36243426864ad63f75fb8102e2db13aa3edc3664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:29 +0000
Subject: [PATCH 14/17] fix: BpTree::excess panicked in debug builds for
 indices out of bounds

---
 src/trees/bp/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index 6098577..a67c4f9 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -397,8 +397,8 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
     /// If `index` is out of bounds, the total excess of the parentheses expression is returned.
     #[must_use]
     pub fn excess(&self, index: usize) -> i64 {
-        debug_assert!(index < self.vec.len(), "Index out of bounds");
-        self.vec.rank1(index + 1) as i64 - self.vec.rank0(index + 1) as i64
+        let index = index.saturating_add(1);
+        self.vec.rank1(index) as i64 - self.vec.rank0(index) as i64
     }
 
     /// Iterate over the nodes of the tree.
-- 
2.43.0


From 0524f4cf1499746bee342cd3e035b10972aae9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:08 +0000
Subject: [PATCH 15/17] fix: BitSetIter repeated the last chunk and yielded
 positions behind the end

---
 src/bit_vec/fast_rs_vec/bitset.rs | 38 ++++++++-----------------------
 1 file changed, 10 insertions(+), 28 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/bitset.rs b/src/bit_vec/fast_rs_vec/bitset.rs
index 00cb5e0..06b0b01 100644
--- a/src/bit_vec/fast_rs_vec/bitset.rs
+++ b/src/bit_vec/fast_rs_vec/bitset.rs
@@ -91,22 +91,26 @@ impl<'a, const ZERO: bool> BitSetIter<'a, ZERO> {
             cursor: 0,
         };
 
-        if vec.len() > VECTOR_SIZE {
-            iter.load_chunk(vec.get_bits_unchecked(0, VECTOR_SIZE) as u16);
+        if !vec.is_empty() {
+            iter.load_chunk();
         }
 
         iter
     }
 
-    fn load_chunk(&mut self, data: u16) {
+    /// Load the chunk that starts at `base`. The last chunk may be shorter than the others,
+    /// the bits behind the end of the vector are masked out.
+    fn load_chunk(&mut self) {
         use std::arch::x86_64::{__mmask16, _mm512_mask_compressstoreu_epi32, _mm512_setr_epi32};
 
         unsafe {
             let offsets = _mm512_setr_epi32(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15);
             assert!(VECTOR_SIZE <= size_of::<u16>() * 8, "change data types");
+            let chunk_len = VECTOR_SIZE.min(self.vec.len() - self.base);
+            let data = self.vec.get_bits_unchecked(self.base, chunk_len) as u16;
             let mut mask = __mmask16::from(data);
             if ZERO {
-                mask = !mask;
+                mask = !mask & (u16::MAX >> (VECTOR_SIZE - chunk_len));
             }
             _mm512_mask_compressstoreu_epi32(self.offsets.as_mut_ptr() as *mut _, mask, offsets);
             self.content_len = mask.count_ones() as u8;
@@ -121,8 +125,7 @@ impl<'a, const ZERO: bool> BitSetIter<'a, ZERO> {
             }
 
             self.base += VECTOR_SIZE;
-            let data = self.vec.get_bits_unchecked(self.base, VECTOR_SIZE) as u16;
-            self.load_chunk(data);
+            self.load_chunk();
         }
         Some(())
     }
@@ -132,29 +135,8 @@ impl<const ZERO: bool> Iterator for BitSetIter<'_, ZERO> {
     type Item = usize;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.base >= self.vec.len() {
-            return None;
-        }
-
         if self.cursor == self.content_len {
-            if self.load_next_chunk().is_none() {
-                if ZERO {
-                    while self.base < self.vec.len() && self.vec.get_unchecked(self.base) != 0 {
-                        self.base += 1;
-                    }
-                } else {
-                    while self.base < self.vec.len() && self.vec.get_unchecked(self.base) != 1 {
-                        self.base += 1;
-                    }
-                }
-
-                return if self.base < self.vec.len() {
-                    self.base += 1;
-                    Some(self.base - 1)
-                } else {
-                    None
-                };
-            }
+            self.load_next_chunk()?;
         }
 
         let offset = self.offsets[self.cursor as usize];
-- 
2.43.0


From 19711f975d0bd94cdb60567db5f169227c95dcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:31 +0000
Subject: [PATCH 16/17] fix: converting a BitVec into a SparseRSVec with From
 inverted the bits

---
 src/bit_vec/sparse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bit_vec/sparse.rs b/src/bit_vec/sparse.rs
index 482d137..b8c9947 100644
--- a/src/bit_vec/sparse.rs
+++ b/src/bit_vec/sparse.rs
@@ -244,13 +244,13 @@ impl SparseRSVec {
 
 impl From<BitVec> for SparseRSVec {
     fn from(input: BitVec) -> Self {
-        Self::from_bitvec_inverted(&input)
+        Self::from_bitvec(&input)
     }
 }
 
 impl<'a> From<&'a BitVec> for SparseRSVec {
     fn from(input: &'a BitVec) -> Self {
-        Self::from_bitvec_inverted(input)
+        Self::from_bitvec(input)
     }
 }
 
-- 
2.43.0


From 8f8ac4f98ae5bbe7aaa9754be2b53afb7b405f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:31 +0000
Subject: [PATCH 17/17] fix: BpTree searches and level queries overflowed for
 huge excesses and levels

---
 src/trees/bp/mod.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index a67c4f9..1e900f5 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -167,6 +167,11 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
             return None;
         }
 
+        // no two positions differ by more than the length, and larger values could overflow
+        if relative_excess.unsigned_abs() > self.vec.len() as u64 {
+            return None;
+        }
+
         let block_index = (index + 1) / BLOCK_SIZE;
         self.fwd_search_block(index, block_index, &mut relative_excess)
             .map_or_else(
@@ -264,6 +269,11 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
             return None;
         }
 
+        // no two positions differ by more than the length, and larger values could overflow
+        if relative_excess.unsigned_abs() > self.vec.len() as u64 {
+            return None;
+        }
+
         // calculate the block we start searching in. It starts at index - 1, so we don't accidentally
         // search the mM tree and immediately find `index` as the position
         let block_index = (index - 1) / BLOCK_SIZE;
@@ -707,9 +717,8 @@ impl<const BLOCK_SIZE: usize> LevelTree for BpTree<BLOCK_SIZE> {
             return Some(node);
         }
 
-        #[allow(clippy::cast_possible_wrap)]
-        // if the level exceeds 2^63, we accept that the result is wrong
-        self.bwd_search(node, -(level as i64))
+        // no tree is deep enough for levels beyond the signed integers
+        self.bwd_search(node, -i64::try_from(level).ok()?)
     }
 
     fn level_next(&self, node: Self::NodeHandle) -> Option<Self::NodeHandle> {
@@ -726,9 +735,8 @@ impl<const BLOCK_SIZE: usize> LevelTree for BpTree<BLOCK_SIZE> {
             return self.root();
         }
 
-        #[allow(clippy::cast_possible_wrap)]
-        // if the level exceeds 2^63, we accept that the result is wrong
-        self.fwd_search(0, level as i64)
+        // no tree is deep enough for levels beyond the signed integers
+        self.fwd_search(0, i64::try_from(level).ok()?)
     }
 
     fn level_rightmost(&self, level: u64) -> Option<Self::NodeHandle> {
@@ -737,9 +745,11 @@ impl<const BLOCK_SIZE: usize> LevelTree for BpTree<BLOCK_SIZE> {
             return self.root();
         }
 
-        #[allow(clippy::cast_possible_wrap)]
-        // if the level exceeds 2^63, we accept that the result is wrong
-        self.open(self.bwd_search((self.size() * 2).checked_sub(1)?, level as i64)?)
+        // no tree is deep enough for levels beyond the signed integers
+        self.open(self.bwd_search(
+            (self.size() * 2).checked_sub(1)?,
+            i64::try_from(level).ok()?,
+        )?)
     }
 }
 
-- 
2.43.0

