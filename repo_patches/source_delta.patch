From ffbd3cd678a0477da64818909dc1a00fa7cd1a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:14 +0000
Subject: [PATCH 01/20] fix: scalar_collect returned uninitialised elements
 from a partially consumed iterator

Without a tail to collect, the length of the result was taken from the length of
the whole iterator, not from what was stored.
---
 src/iters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iters.rs b/src/iters.rs
index 0c4c5a8..3ad510e 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -727,7 +727,7 @@ impl<'a, T, I> IntoScalar<T> for I
                 }
                 ret.set_len(self.width() + offset - n);
             } else {
-                ret.set_len(self.len() * self.width());
+                ret.set_len(offset);
             }
         }
         ret
-- 
2.43.0


From eb1870809363ef96d998ea7411f6673ae5a17577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:15 +0000
Subject: [PATCH 02/20] fix: scalar_collect_all sized its buffer in vectors and
 wrote past its end

---
 src/iters.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 3ad510e..b68f969 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -768,10 +768,20 @@ impl<'a, T, I> IntoScalar<T> for I
     #[cfg(feature = "std")]
     fn scalar_collect_all(&mut self) -> Vec<Self::Scalar> {
         let mut ret = Vec::with_capacity((self.len() + 1) * self.width());
+        let mut offset = 0;
 
         unsafe {
-            ret.set_len(self.len());
-            self.scalar_fill_all(ret.as_mut_slice());
+            ret.set_len((self.len() + 1) * self.width());
+            while let Some(vec) = self.next() {
+                vec.store_unchecked(&mut ret, offset);
+                offset += self.width();
+            }
+
+            if let Some((vec, _)) = self.end() {
+                vec.store_unchecked(&mut ret, offset);
+                offset += self.width();
+            }
+            ret.set_len(offset);
         }
         ret
     }
-- 
2.43.0


From 3cd9cea8f8e630ab50f51312396dbbb6d6ddd44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:15 +0000
Subject: [PATCH 03/20] fix: scalar_fill and scalar_fill_all wrote past the end
 of a buffer which is too short

---
 src/iters.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index b68f969..d6dd34e 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -739,7 +739,7 @@ impl<'a, T, I> IntoScalar<T> for I
         let mut lastvec = Self::Vector::default();
 
         while let Some(vec) = self.next() {
-            unsafe { vec.store_unchecked(fill, offset); }
+            vec.store(fill, offset);
             offset += self.width();
             lastvec = vec;
         }
@@ -747,10 +747,8 @@ impl<'a, T, I> IntoScalar<T> for I
         if let Some((p, n)) = self.end() {
             if offset > 0 {
                 // We stored a vector in this buffer; overwrite the unused elements
-                unsafe {
-                    p.store_unchecked(fill, offset - n);
-                    lastvec.store_unchecked(fill, offset - self.width());
-                }
+                p.store(fill, offset - n);
+                lastvec.store(fill, offset - self.width());
             } else {
                 // The buffer won't fit one vector; store elementwise
                 for i in 0..(self.width() - n) {
@@ -791,12 +789,12 @@ impl<'a, T, I> IntoScalar<T> for I
         let mut offset = 0;
 
         while let Some(vec) = self.next() {
-            unsafe { vec.store_unchecked(fill, offset); }
+            vec.store(fill, offset);
             offset += self.width();
         }
 
         if let Some((vec, _)) = self.end() {
-            unsafe { vec.store_unchecked(fill, offset); }
+            vec.store(fill, offset);
         }
 
         fill
-- 
2.43.0


From 27d7744237923660bdedaf8a42f4e4c65ba2a874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:15 +0000
Subject: [PATCH 04/20] fix: end() wrote past the vector when a short iterator
 had been advanced

---
 src/iters.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index d6dd34e..08ff4dc 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -535,7 +535,7 @@ impl<T, S, V> SIMDIterator for T where T : SIMDIterable + SIMDArray<Scalar = S,
             } else {
                 for i in self.scalar_pos()..self.scalar_len() {
                     unsafe {
-                        ret = ret.replace_unchecked(i + empty_amt, self.load_scalar_unchecked(i));
+                        ret = ret.replace_unchecked(i - self.scalar_pos() + empty_amt, self.load_scalar_unchecked(i));
                     }
                 }
             }
@@ -603,7 +603,7 @@ impl<T, S, V> UnsafeIterator for T where T : SIMDIterable + SIMDArray<Scalar = S
             ret = self.default().merge_partitioned(ret, empty_amt);
         } else {
             for i in offset..self.scalar_len() {
-                ret = ret.replace_unchecked(i + empty_amt, self.load_scalar_unchecked(i));
+                ret = ret.replace_unchecked(i - offset + empty_amt, self.load_scalar_unchecked(i));
             }
         }
         ret
-- 
2.43.0


From a52889623d68329f30981aed6cacb946db6b1e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:15 +0000
Subject: [PATCH 05/20] fix: simd_for_each overwrote elements before the
 position it started from

If the iterator had already been advanced to its last, partial vector, the
elements before it were replaced by a vector which was never filled.
---
 src/iters.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 08ff4dc..c41b5b8 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -552,6 +552,7 @@ impl<T> SIMDIteratorMut for SIMDIter<T> where T : SIMDArrayMut {
     fn simd_for_each<F>(&mut self, mut func: F)
         where F : FnMut(&mut Self::Vector) -> () {
         let mut lastvec = Self::Vector::default();
+        let start = self.scalar_pos();
 
         while let Some(mut v) = self.next() {
             func(&mut v);
@@ -563,14 +564,14 @@ impl<T> SIMDIteratorMut for SIMDIter<T> where T : SIMDArrayMut {
         if let Some((mut p, n)) = self.end() {
             func(&mut p);
             let width = self.width();
-            if self.width() < self.scalar_len() {
+            if offset > start {
                 // We stored a vector in this buffer; overwrite the unused elements
                 unsafe {
                     self.data.store_unchecked(p, offset - n);
                     self.data.store_unchecked(lastvec, offset - width);
                 }
             } else {
-                // The buffer won't fit one vector; store elementwise
+                // No vector to overwrite the unused elements with; store elementwise
                 for i in 0..(width - n) {
                     unsafe { self.data.store_scalar_unchecked(p.extract_unchecked(i + n), offset + i); }
                 }
-- 
2.43.0


From 55032b927e52cc9af3e297dc7a54afee3a109a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:46 +0000
Subject: [PATCH 06/20] fix: zip() accepted iterators of different lengths and
 vector widths

Only the numbers of whole vectors were compared, so that iterators which differ in
their tails were read past their ends.
---
 src/zip.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zip.rs b/src/zip.rs
index 960e2c4..cb6f2e1 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -225,7 +225,7 @@ macro_rules! impl_iter_zip {
         impl<$($a),*> IntoSIMDZip for ($($a),*) where $($a : SIMDIterator + UnsafeIterator),* {
             #[inline(always)]
             fn zip(self) -> Zip<Self> {
-                if $(self.0.len() != self.$n.len())||* {
+                if $(self.0.scalar_len() != self.$n.scalar_len() || self.0.width() != self.$n.width())||* {
                     panic!("You can only zip iterators of the same length.");
                 }
                 Zip { iters: self }
-- 
2.43.0


From 76a825e8b69c789d9d8eba3f721bab1e5f623ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:46 +0000
Subject: [PATCH 07/20] fix: scalar_len() of maps and zips returned their
 number of vectors

As a result, finalize() and advance() left maps and zips at the wrong position.
---
 src/iters.rs |  2 +-
 src/zip.rs   | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index c41b5b8..650336a 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -644,7 +644,7 @@ impl<A, B, I, F> SIMDSized for SIMDMap<I, F>
     where I : SIMDIterable, F : FnMut(I::Vector) -> A, A : Packed<Scalar = B>, B : Packable {
     #[inline(always)]
     fn scalar_len(&self) -> usize {
-        self.iter.len()
+        self.iter.scalar_len()
     }
 }
 
diff --git a/src/zip.rs b/src/zip.rs
index cb6f2e1..0b6f780 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -80,10 +80,7 @@ pub trait SIMDZippedIterable : SIMDZippedObject + ExactSizeIterator<Item = <Self
     }
 
     /// Return the length of this iterator, measured in scalars.
-    #[inline(always)]
-    fn scalar_len(&self) -> usize {
-        <Self as ExactSizeIterator>::len(self)
-    }
+    fn scalar_len(&self) -> usize;
 
     /// Return the length of this iterator, measured in vectors.
     #[inline(always)]
@@ -289,6 +286,11 @@ macro_rules! impl_iter_zip {
                 self.iters.0.scalar_pos()
             }
 
+            #[inline(always)]
+            fn scalar_len(&self) -> usize {
+                self.iters.0.scalar_len()
+            }
+
             #[inline(always)]
             fn advance(&mut self, amount: usize) {
                 self.iters.0.advance(amount);
-- 
2.43.0


From 6fca032ba05f32d7630fd06ca6d7e8b59160c4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:46 +0000
Subject: [PATCH 08/20] fix: end() of a map to vectors of another size returned
 the wrong padding

---
 src/iters.rs | 2 +-
 src/zip.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 650336a..c33ae02 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -672,7 +672,7 @@ impl<'a, A, B, I, F> SIMDIterator for SIMDMap<I, F>
     #[inline(always)]
     fn end(&mut self) -> Option<(Self::Vector, usize)> {
         let (v, n) = self.iter.end()?;
-        let nr = n * I::Scalar::SIZE / Self::Scalar::SIZE;
+        let nr = n * Self::Vector::WIDTH / I::Vector::WIDTH;
         Some(((self.func)(v), nr))
     }
 }
diff --git a/src/zip.rs b/src/zip.rs
index 0b6f780..17847ff 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -367,7 +367,7 @@ where I : SIMDZippedIterator, F : FnMut(I::Vectors) -> A, A : Packed {
     #[inline(always)]
     fn end(&mut self) -> Option<(Self::Vector, usize)> {
         let (v, n) = self.iter.end()?;
-        let nr = n * self.iter.size() / self.size();
+        let nr = n * Self::Vector::WIDTH / self.iter.width();
         Some(((self.func)(v), nr))
     }
 }
-- 
2.43.0


From e6ad6493298553c4840a0ca90f17cc15c3f150c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:55 +0000
Subject: [PATCH 09/20] fix: stride_zip lost and misplaced the elements of the
 last, partial vectors

The padding of the last vector was treated as elements, in every case but those
where the number of elements is a multiple of two vectors.
---
 src/stride_zip.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/stride_zip.rs b/src/stride_zip.rs
index eed06d3..6215c2a 100644
--- a/src/stride_zip.rs
+++ b/src/stride_zip.rs
@@ -73,7 +73,7 @@ impl<T> SIMDZippedIterable for StrideZip<T> where T : SIMDIterator, T::Vector :
 
     #[inline(always)]
     fn default(&self) -> Self::Vectors {
-        (T::Vector::default(), T::Vector::default())
+        (self.iter.default(), self.iter.default())
     }
 }
 
@@ -94,19 +94,29 @@ impl<T> Iterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
 
 impl<T> SIMDZippedIterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
     fn end(&mut self) -> Option<(Self::Vectors, usize)> {
-        let first = self.iter.next();
-        let (end, n) = self.iter.end().unwrap_or((self.iter.default(), 0));
-        if let Some(first) = first {
-            Some((first.destride_two(end), (self.width() + n) / 2))
-        } else {
-            if let Some(v) = self.peek {
-                self.peek = None;
-                Some((v.destride_two(end), (self.width() + n) / 2))
-            } else if n > 0 {
-                Some((end.destride_two(self.iter.default()), n / 2))
+        // At most one whole vector is left, which next() may have put aside
+        let first = self.peek.take().or_else(|| self.iter.next());
+        let last = self.iter.end();
+        let whole = first.map_or(0, |_| self.width());
+        let part = last.map_or(0, |(_, n)| self.width() - n);
+        let amt = (whole + part) / 2;
+        if amt == 0 {
+            return None;
+        }
+        let empty = self.width() - amt;
+        let (mut a, mut b) = self.default();
+        for i in 0..(2 * amt) {
+            let el = match (first, last) {
+                (Some(v), _) if i < whole => v.extract(i),
+                (_, Some((v, n))) => v.extract(n + i - whole),
+                _ => unreachable!()
+            };
+            if i % 2 == 0 {
+                a = a.replace(empty + i / 2, el);
             } else {
-                None
+                b = b.replace(empty + i / 2, el);
             }
         }
+        Some(((a, b), empty))
     }
 }
-- 
2.43.0


From 33f3ef63f86208e35cb04f67c7c1ca89fa0a0bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:55 +0000
Subject: [PATCH 10/20] fix: SIMDAdapter stopped halfway and wrote its last
 vector backwards, and past its start

---
 src/iters.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index c33ae02..ac4f36e 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -246,9 +246,8 @@ impl<I, V> Iterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::
                 unsafe {
                     self.scratch = self.scratch.replace_unchecked(offset, self.iter.next().unwrap());
                 }
+                self.position += 1;
             }
-            let width = self.width(); // Appease borrow checker
-            self.advance(width);
             Some(self.scratch)
         } else {
             None
@@ -259,18 +258,17 @@ impl<I, V> Iterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::
 impl<I, V> SIMDIterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::Scalar>, V : Packed {
     fn end(&mut self) -> Option<(Self::Vector, usize)> {
         if self.position < self.scalar_len() {
-            // This is the last vector we can load, so we should load it
-            // backwards and use the default vector to overwrite blank spots
+            // This is the last vector we can load, so we should right-align it
+            // and leave the default vector in the blank spots
             self.scratch = self.default;
-            let mut offset = self.width() - 1;
+            let empty_amt = self.width() - self.iter.len();
+            let mut offset = empty_amt;
             while let Some(item) = self.iter.next() {
-                unsafe {
-                    self.scratch = self.scratch.replace_unchecked(offset, item);
-                }
-                offset -= 1;
+                self.scratch = self.scratch.replace(offset, item);
+                offset += 1;
+                self.position += 1;
             }
-            self.finalize();
-            Some((self.scratch, offset))
+            Some((self.scratch, empty_amt))
         } else {
             None
         }
@@ -287,7 +285,8 @@ impl<I, V> ExactSizeIterator for SIMDAdapter<I, V> where I : ExactSizeIterator<I
 impl<I, V> SIMDSized for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::Scalar>, V : Packed {
     #[inline(always)]
     fn scalar_len(&self) -> usize {
-        self.iter.len()
+        // The scalars which were already taken from `iter` count, too
+        self.position + self.iter.len()
     }
 }
 
@@ -299,7 +298,12 @@ impl<I, V> SIMDIterable for SIMDAdapter<I, V> where I : ExactSizeIterator<Item =
 
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
-        self.position += amount
+        for _ in 0..amount {
+            if self.iter.next().is_none() {
+                break;
+            }
+            self.position += 1;
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From a56cfe205a383166a11094a95aedef54ed09ae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 11/20] fix: sum_upcast of i8x16 and i8x32 wrapped to eight
 bits

---
 src/arch/x86/intrin/sum.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arch/x86/intrin/sum.rs b/src/arch/x86/intrin/sum.rs
index 3b408de..ad0127c 100644
--- a/src/arch/x86/intrin/sum.rs
+++ b/src/arch/x86/intrin/sum.rs
@@ -45,7 +45,7 @@ impl UpcastSum for i8x16 {
         let pos = unsafe { _mm_sad_epu8(self.max(Self::splat(0)).be_u8s(), u8x16::splat(0)).be_u16s() };
         let neg = unsafe { _mm_sad_epu8(self.min(Self::splat(0)).abs().be_u8s(), u8x16::splat(0)).be_u16s() };
         pos.extract(0).overflowing_sub(neg.extract(0)).0
-            .overflowing_add(pos.extract(4).overflowing_sub(neg.extract(4)).0).0 as i8 as i64
+            .overflowing_add(pos.extract(4).overflowing_sub(neg.extract(4)).0).0 as i16 as i64
     }
 }
 
@@ -73,7 +73,7 @@ impl UpcastSum for i8x32 {
         pos.extract(0).overflowing_sub(neg.extract(0)).0
             .overflowing_add(pos.extract(4).overflowing_sub(neg.extract(4)).0).0
             .overflowing_add(pos.extract(8).overflowing_sub(neg.extract(8)).0).0
-            .overflowing_add(pos.extract(12).overflowing_sub(neg.extract(12)).0).0 as i8 as i64
+            .overflowing_add(pos.extract(12).overflowing_sub(neg.extract(12)).0).0 as i16 as i64
     }
 }
 
-- 
2.43.0


From 1b4823c0990e945e636f5d3972d2c9c07e089f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 12/20] fix: saturating_downcast of u64 vectors saturated most
 lanes at the maximum of i32

---
 src/arch/x86/intrin/downcast.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/arch/x86/intrin/downcast.rs b/src/arch/x86/intrin/downcast.rs
index 55c4686..7916b05 100644
--- a/src/arch/x86/intrin/downcast.rs
+++ b/src/arch/x86/intrin/downcast.rs
@@ -52,9 +52,9 @@ impl Downcast<u32x4> for u64x2 {
     fn saturating_downcast(self, other: Self) -> u32x4 {
         fallback!();
         u32x4::new(self.extract(0).min(0xFFFFFFFF) as u32,
-                   self.extract(1).min(0x7FFFFFFF) as u32,
-                   other.extract(0).min(0x7FFFFFFF) as u32,
-                   other.extract(1).min(0x7FFFFFFF) as u32)
+                   self.extract(1).min(0xFFFFFFFF) as u32,
+                   other.extract(0).min(0xFFFFFFFF) as u32,
+                   other.extract(1).min(0xFFFFFFFF) as u32)
     }
 }
 
@@ -330,13 +330,13 @@ impl Downcast<u32x8> for u64x4 {
     fn saturating_downcast(self, other: Self) -> u32x8 {
         fallback!();
         u32x8::new(self.extract(0).min(0xFFFFFFFF) as u32,
-                   self.extract(1).min(0x7FFFFFFF) as u32,
+                   self.extract(1).min(0xFFFFFFFF) as u32,
                    self.extract(2).min(0xFFFFFFFF) as u32,
-                   self.extract(3).min(0x7FFFFFFF) as u32,
-                   other.extract(0).min(0x7FFFFFFF) as u32,
-                   other.extract(1).min(0x7FFFFFFF) as u32,
-                   other.extract(2).min(0x7FFFFFFF) as u32,
-                   other.extract(3).min(0x7FFFFFFF) as u32)
+                   self.extract(3).min(0xFFFFFFFF) as u32,
+                   other.extract(0).min(0xFFFFFFFF) as u32,
+                   other.extract(1).min(0xFFFFFFFF) as u32,
+                   other.extract(2).min(0xFFFFFFFF) as u32,
+                   other.extract(3).min(0xFFFFFFFF) as u32)
     }
 }
 
-- 
2.43.0


From 253d6ff97d37ebdee87104f152b84d2aa7e79407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 13/20] fix: saturating_downcast of large unsigned elements
 returned zero

The pack instructions take their input for signed.
---
 src/arch/x86/intrin/downcast.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/arch/x86/intrin/downcast.rs b/src/arch/x86/intrin/downcast.rs
index 7916b05..3e0783e 100644
--- a/src/arch/x86/intrin/downcast.rs
+++ b/src/arch/x86/intrin/downcast.rs
@@ -9,6 +9,7 @@ use crate::arch::current::vecs::*;
 use crate::vecs::*;
 use crate::vektor::x86_64::*;
 use crate::vektor::x86::*;
+use crate::intrin::cmp::*;
 use crate::intrin::downcast::*;
 use crate::intrin::transmute::*;
 use crate::core::mem::transmute;
@@ -105,7 +106,7 @@ impl Downcast<u16x8> for u32x4 {
     #[cfg(target_feature = "sse4.1")]
     fn saturating_downcast(self, other: Self) -> u16x8 {
         optimized!();
-        unsafe { transmute(_mm_packus_epi32(transmute(self), transmute(other))) }
+        unsafe { transmute(_mm_packus_epi32(transmute(self.min(Self::splat(0xFFFF))), transmute(other.min(Self::splat(0xFFFF))))) }
     }
 
     #[inline(always)]
@@ -128,7 +129,7 @@ impl Downcast<u8x16> for u16x8 {
     #[cfg(target_feature = "sse2")]
     fn saturating_downcast(self, other: Self) -> u8x16 {
         optimized!();
-        unsafe { _mm_packus_epi16(self.be_i16s(), other.be_i16s()).be_u8s() }
+        unsafe { _mm_packus_epi16(self.min(Self::splat(0xFF)).be_i16s(), other.min(Self::splat(0xFF)).be_i16s()).be_u8s() }
     }
 
     #[inline(always)]
@@ -237,7 +238,7 @@ impl Downcast<u16x16> for u32x8 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> u16x16 {
         optimized!();
-        unsafe { transmute(_mm256_packus_epi32(transmute(self), transmute(other))) }
+        unsafe { transmute(_mm256_packus_epi32(transmute(self.min(Self::splat(0xFFFF))), transmute(other.min(Self::splat(0xFFFF))))) }
     }
 
     #[inline(always)]
@@ -268,7 +269,7 @@ impl Downcast<u8x32> for u16x16 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> u8x32 {
         optimized!();
-        unsafe { _mm256_packus_epi16(self.be_i16s(), other.be_i16s()).be_u8s() }
+        unsafe { _mm256_packus_epi16(self.min(Self::splat(0xFF)).be_i16s(), other.min(Self::splat(0xFF)).be_i16s()).be_u8s() }
     }
 
     #[inline(always)]
-- 
2.43.0


From 11c251bdf57ad45ed8c216e265576757b7b042d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 14/20] fix: saturating_downcast of 256-bit vectors interleaved
 the halves of its arguments

The AVX2 pack instructions work on each 128-bit lane.
---
 src/arch/x86/intrin/downcast.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arch/x86/intrin/downcast.rs b/src/arch/x86/intrin/downcast.rs
index 3e0783e..b511865 100644
--- a/src/arch/x86/intrin/downcast.rs
+++ b/src/arch/x86/intrin/downcast.rs
@@ -160,7 +160,7 @@ impl Downcast<i16x16> for i32x8 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> i16x16 {
         optimized!();
-        unsafe { _mm256_packs_epi32(self, other) }
+        unsafe { _mm256_permute4x64_epi64(_mm256_packs_epi32(self, other).be_i64s(), 0xD8).be_i16s() }
     }
 
     #[inline(always)]
@@ -191,7 +191,7 @@ impl Downcast<i8x32> for i16x16 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> i8x32 {
         optimized!();
-        unsafe { _mm256_packs_epi16(self.be_i16s(), other) }
+        unsafe { _mm256_permute4x64_epi64(_mm256_packs_epi16(self.be_i16s(), other).be_i64s(), 0xD8).be_i8s() }
     }
 
     #[inline(always)]
@@ -238,7 +238,7 @@ impl Downcast<u16x16> for u32x8 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> u16x16 {
         optimized!();
-        unsafe { transmute(_mm256_packus_epi32(transmute(self.min(Self::splat(0xFFFF))), transmute(other.min(Self::splat(0xFFFF))))) }
+        unsafe { transmute(_mm256_permute4x64_epi64(transmute(_mm256_packus_epi32(transmute(self.min(Self::splat(0xFFFF))), transmute(other.min(Self::splat(0xFFFF))))), 0xD8)) }
     }
 
     #[inline(always)]
@@ -269,7 +269,7 @@ impl Downcast<u8x32> for u16x16 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> u8x32 {
         optimized!();
-        unsafe { _mm256_packus_epi16(self.min(Self::splat(0xFF)).be_i16s(), other.min(Self::splat(0xFF)).be_i16s()).be_u8s() }
+        unsafe { _mm256_permute4x64_epi64(_mm256_packus_epi16(self.min(Self::splat(0xFF)).be_i16s(), other.min(Self::splat(0xFF)).be_i16s()).be_i64s(), 0xD8).be_u8s() }
     }
 
     #[inline(always)]
-- 
2.43.0


From 427e25343a39dbcfe2375151fa6e04ce2608b847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 15/20] fix: destride_two of u8x32 and i8x32 returned the even
 elements twice

---
 src/arch/x86/intrin/destride.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arch/x86/intrin/destride.rs b/src/arch/x86/intrin/destride.rs
index 8715278..0bfdc59 100644
--- a/src/arch/x86/intrin/destride.rs
+++ b/src/arch/x86/intrin/destride.rs
@@ -48,7 +48,7 @@ impl Destride for u8x32 {
             let aa = _mm256_permute4x64_epi64(a.be_i64s(), 0xD8).be_u8s();
             let bb = _mm256_permute4x64_epi64(b.be_i64s(), 0xD8).be_u8s();
             // Backwards merge of aa and bb (keeps elements at the same indices)
-            let c = _mm256_permute4x64_epi64(aa.merge_halves(bb).be_i64s(), 0x4E).be_u8s();
+            let c = _mm256_permute4x64_epi64(bb.merge_halves(aa).be_i64s(), 0x4E).be_u8s();
             (aa.merge_halves(bb), c)
         }
     }
@@ -108,7 +108,7 @@ impl Destride for i8x32 {
             let aa = _mm256_permute4x64_epi64(a.be_i64s(), 0xD8).be_i8s();
             let bb = _mm256_permute4x64_epi64(b.be_i64s(), 0xD8).be_i8s();
             // Backwards merge of aa and bb (keeps elements at the same indices)
-            let c = _mm256_permute4x64_epi64(aa.merge_halves(bb).be_i64s(), 0x4E).be_i8s();
+            let c = _mm256_permute4x64_epi64(bb.merge_halves(aa).be_i64s(), 0x4E).be_i8s();
             (aa.merge_halves(bb), c)
         }
     }
-- 
2.43.0


From 39a10bd4d10afecfff13ca9b4f7015eb24477a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 16/20] fix: rounding f64x4, and comparing u32x8 and i32x8,
 used instructions the target may not have

---
 src/arch/x86/intrin/cmp.rs   | 4 ++--
 src/arch/x86/intrin/round.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arch/x86/intrin/cmp.rs b/src/arch/x86/intrin/cmp.rs
index 7b97db8..e3dbbf0 100644
--- a/src/arch/x86/intrin/cmp.rs
+++ b/src/arch/x86/intrin/cmp.rs
@@ -100,14 +100,14 @@ rust_fallback_impl_binary! {
 }
 
 rust_fallback_impl_binary! {
-    impl Cmp for u32x8 where "avx" {
+    impl Cmp for u32x8 where "avx2" {
         min => _mm256_min_epu32(), [0, 1, 2, 3, 4, 5, 6, 7];
         max => _mm256_max_epu32(), [0, 1, 2, 3, 4, 5, 6, 7];
     }
 }
 
 rust_fallback_impl_binary! {
-    impl Cmp for i32x8 where "avx" {
+    impl Cmp for i32x8 where "avx2" {
         min => _mm256_min_epi32(), [0, 1, 2, 3, 4, 5, 6, 7];
         max => _mm256_max_epi32(), [0, 1, 2, 3, 4, 5, 6, 7];
     }
diff --git a/src/arch/x86/intrin/round.rs b/src/arch/x86/intrin/round.rs
index 7cff34a..52ea60b 100644
--- a/src/arch/x86/intrin/round.rs
+++ b/src/arch/x86/intrin/round.rs
@@ -40,7 +40,7 @@ rust_fallback_impl! {
 }
 
 rust_fallback_impl! {
-    impl Round for f64x4 where "sse4.1" {
+    impl Round for f64x4 where "avx" {
         round => _mm256_round_pd(_MM_FROUND_TO_NEAREST_INT), [0, 1, 2, 3];
         ceil => _mm256_ceil_pd(), [0, 1, 2, 3];
         floor => _mm256_floor_pd(), [0, 1, 2, 3];
-- 
2.43.0


From a84135b2972de390688ff24258af1e4aa28aebfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 17/20] fix: merge_partitioned refused an offset of WIDTH where
 it has no instruction for it

---
 src/intrin/merge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intrin/merge.rs b/src/intrin/merge.rs
index 29ba3f1..ab45726 100644
--- a/src/intrin/merge.rs
+++ b/src/intrin/merge.rs
@@ -71,7 +71,7 @@ macro_rules! impl_packed_merge {
             #[inline(always)]
             fn merge_partitioned(&self, other: Self, offset: usize) -> Self {
                 fallback!();
-                assert!(offset < Self::WIDTH);
+                assert!(offset <= Self::WIDTH);
                 let mut ret = self.clone();
                 for i in offset..Self::WIDTH {
                     unsafe {
-- 
2.43.0


From e6800b2ad417cf83a9348dcf5dc0ee89519a31d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 18/20] fix: partition_mask read outside of its table in
 release builds

---
 scripts/vec_patterns_gen.py  |  2 +-
 src/arch/x86/vec_patterns.rs | 60 ++++++++++++++++++------------------
 2 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/scripts/vec_patterns_gen.py b/scripts/vec_patterns_gen.py
index 226e4db..1069844 100644
--- a/scripts/vec_patterns_gen.py
+++ b/scripts/vec_patterns_gen.py
@@ -89,7 +89,7 @@ def generate_vec_patterns(arch, headers, els, vecs, lens, feats, blends, elsz, m
             fprint(f"""
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {{
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe {{ transmute(&PART_MASK[..]) }}, 64 / Self::Scalar::SIZE - off)
             }}""",)
diff --git a/src/arch/x86/vec_patterns.rs b/src/arch/x86/vec_patterns.rs
index d5221cc..86f22a1 100644
--- a/src/arch/x86/vec_patterns.rs
+++ b/src/arch/x86/vec_patterns.rs
@@ -47,7 +47,7 @@ impl Pattern for u8x64 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -160,7 +160,7 @@ impl Pattern for u8x32 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -241,7 +241,7 @@ impl Pattern for u8x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -306,7 +306,7 @@ impl Pattern for i8x64 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -419,7 +419,7 @@ impl Pattern for i8x32 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -500,7 +500,7 @@ impl Pattern for i8x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -565,7 +565,7 @@ impl Pattern for u16x32 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -646,7 +646,7 @@ impl Pattern for u16x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -711,7 +711,7 @@ impl Pattern for u16x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -768,7 +768,7 @@ impl Pattern for i16x32 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -849,7 +849,7 @@ impl Pattern for i16x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -914,7 +914,7 @@ impl Pattern for i16x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -971,7 +971,7 @@ impl Pattern for u32x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1036,7 +1036,7 @@ impl Pattern for u32x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1093,7 +1093,7 @@ impl Pattern for u32x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1146,7 +1146,7 @@ impl Pattern for i32x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1211,7 +1211,7 @@ impl Pattern for i32x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1268,7 +1268,7 @@ impl Pattern for i32x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1321,7 +1321,7 @@ impl Pattern for f32x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1386,7 +1386,7 @@ impl Pattern for f32x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1443,7 +1443,7 @@ impl Pattern for f32x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1496,7 +1496,7 @@ impl Pattern for u64x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1553,7 +1553,7 @@ impl Pattern for u64x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1606,7 +1606,7 @@ impl Pattern for u64x2 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1657,7 +1657,7 @@ impl Pattern for i64x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1714,7 +1714,7 @@ impl Pattern for i64x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1767,7 +1767,7 @@ impl Pattern for i64x2 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1818,7 +1818,7 @@ impl Pattern for f64x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1875,7 +1875,7 @@ impl Pattern for f64x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1928,7 +1928,7 @@ impl Pattern for f64x2 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
-- 
2.43.0


From 8fa9fe6f621b6a17e5bf50050f533e9463f7d723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 19/20] fix: iterators which were advanced far beyond their
 end, and huge offsets into strides, read out of bounds

The additions wrapped in release builds.
---
 src/iters.rs      |  6 +++---
 src/stride.rs     | 15 +++++++++++----
 src/stride_zip.rs |  2 +-
 src/zip.rs        |  2 +-
 4 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index ac4f36e..c2fed4a 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -43,7 +43,7 @@ pub trait SIMDIterable : SIMDObject + SIMDSized + ExactSizeIterator<Item = <Self
     /// Advance the iterable such that it procudes no more items.
     #[inline(always)]
     fn finalize(&mut self) {
-        let end = self.scalar_len() - self.scalar_pos();
+        let end = self.scalar_len().saturating_sub(self.scalar_pos());
         self.advance(end);
     }
 
@@ -469,7 +469,7 @@ impl<A> Iterator for SIMDIter<A> where A : SIMDArray, A::Vector : Packed, A::Sca
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.position + self.width() <= self.scalar_len() {
+        if self.position.saturating_add(self.width()) <= self.scalar_len() {
             let ret = unsafe { self.load_unchecked(self.position) };
             let width = self.width(); // Appease borrow checker
             self.advance(width);
@@ -517,7 +517,7 @@ impl<A> SIMDIterable for SIMDIter<A> where A : SIMDArray, A::Vector : Packed, A:
 
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
-        self.position += amount
+        self.position = self.position.saturating_add(amount)
     }
 
     #[inline(always)]
diff --git a/src/stride.rs b/src/stride.rs
index 4a27b95..0b14f69 100644
--- a/src/stride.rs
+++ b/src/stride.rs
@@ -32,7 +32,7 @@ impl<'a, A> Iterator for PackedStride<'a, A> where A : 'a + SIMDArray {
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.pos + self.stride * self.width() < self.iter.scalar_len() {
+        if self.pos.saturating_add(self.stride * self.width()) < self.iter.scalar_len() {
             let mut ret = <Self as SIMDObject>::Vector::default();
             for i in 0..self.width() {
                 ret = ret.replace(i, unsafe {
@@ -293,7 +293,11 @@ impl<'a, A> SIMDObject for PackedStride<'a, A> where A : SIMDArray {
 impl<'a, A> SIMDArray for PackedStride<'a, A> where A : SIMDArray {
     #[inline(always)]
     fn load(&self, offset: usize) -> Self::Vector {
-        assert!(self.base + self.stride * (offset + (self.width() - 1)) < self.iter.scalar_len());
+        let last = offset.checked_add(self.width() - 1)
+            .and_then(|o| o.checked_mul(self.stride))
+            .and_then(|o| o.checked_add(self.base))
+            .expect("offset out of range");
+        assert!(last < self.iter.scalar_len());
         unsafe { self.load_unchecked(offset) }
     }
 
@@ -310,7 +314,10 @@ impl<'a, A> SIMDArray for PackedStride<'a, A> where A : SIMDArray {
 
     #[inline(always)]
     fn load_scalar(&self, offset: usize) -> Self::Scalar {
-        self.iter.load_scalar(self.base + offset * self.stride)
+        let offset = offset.checked_mul(self.stride)
+            .and_then(|o| o.checked_add(self.base))
+            .expect("offset out of range");
+        self.iter.load_scalar(offset)
     }
 
     #[inline(always)]
@@ -339,7 +346,7 @@ impl<'a, A> SIMDIterable for PackedStride<'a, A> where A : SIMDArray {
 
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
-        self.pos += amount * self.stride;
+        self.pos = self.pos.saturating_add(amount.saturating_mul(self.stride));
     }
 
     #[inline(always)]
diff --git a/src/stride_zip.rs b/src/stride_zip.rs
index 6215c2a..d8a4c9c 100644
--- a/src/stride_zip.rs
+++ b/src/stride_zip.rs
@@ -68,7 +68,7 @@ impl<T> SIMDZippedIterable for StrideZip<T> where T : SIMDIterator, T::Vector :
 
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
-        self.iter.advance(2 * amount);
+        self.iter.advance(amount.saturating_mul(2));
     }
 
     #[inline(always)]
diff --git a/src/zip.rs b/src/zip.rs
index 17847ff..d8f6e86 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -94,7 +94,7 @@ pub trait SIMDZippedIterable : SIMDZippedObject + ExactSizeIterator<Item = <Self
     /// Advance the iterable such that it procudes no more items.
     #[inline(always)]
     fn finalize(&mut self) {
-        let end = self.scalar_len() - self.scalar_pos();
+        let end = self.scalar_len().saturating_sub(self.scalar_pos());
         self.advance(end);
     }
 
-- 
2.43.0


From ee0dcdb10c528f4a5c227e306680eb16658baff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:28 +0000
Subject: [PATCH 20/20] fix: the trace panicked when standard output was gone
 or the thread was ending

---
 src/debug.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/debug.rs b/src/debug.rs
index b7e3a2a..0ca99b2 100644
--- a/src/debug.rs
+++ b/src/debug.rs
@@ -36,7 +36,7 @@ macro_rules! debug_output_once {
     ($str:expr) => {
         let output = $str;
 
-        crate::debug::OUTPUT_GUARD.with(|f| {
+        crate::debug::OUTPUT_GUARD.try_with(|f| {
             let mut output_guard = f.borrow_mut();
 
             if output_guard.contains(&output) {
@@ -45,10 +45,11 @@ macro_rules! debug_output_once {
 
             // Also print to file (if enabled).
             debug_append_log!(output);
-            println!("{}", output);
+            // A trace nobody can read must not bring the program down, as println! would.
+            writeln!(std::io::stdout(), "{}", output).ok();
 
             output_guard.insert(output);
-        });
+        }).ok(); // While a thread's locals are being destroyed, there is no telling what it has printed.
     }
 }
 
-- 
2.43.0

