From 80dcffa444f9dea71015b382be42cb19360a0fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 1/9] fix: IntoIter::nth past the end dropped elements it did
 not own

nth(n) dropped n slots from the front without looking at the back, so with
fewer than n + 1 elements left it dropped elements a second time or memory
outside the array, and moved `next` past `back`.
---
 src/vector.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index eaa6b3c..f1b5dd5 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -785,11 +785,12 @@ impl<T, N> Iterator for IntoIter<T, N> where N: ArrayLen<T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<T> {
-        for i in self.next..self.next+n {
-            unsafe { ptr::drop_in_place(self.arr.as_mut().get_unchecked_mut(i)) };
+        for _ in 0..n {
+            if self.next().is_none() {
+                return None;
+            }
         }
 
-        self.next += n;
         self.next()
     }
 }
-- 
2.43.0


From 7c7f9aa6e431659936ac11e34b505df654ad76b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 2/9] fix: IntoIter::next_back yielded elements already taken
 from the front

It only compared `back` with 0, so elements handed out by next() were read
a second time from the back (a double drop for non-Copy elements).
---
 src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index f1b5dd5..ae3eb42 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -799,7 +799,7 @@ impl<T, N> DoubleEndedIterator for IntoIter<T, N> where N: ArrayLen<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         debug_assert!(self.back <= N::to_usize());
 
-        if self.back > 0 {
+        if self.next < self.back {
             self.back -= 1;
 
             Some(unsafe {
-- 
2.43.0


From 1b5d93631fa52263139dc8cedb6b46f356e47595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 3/9] fix: collecting into a Vector leaked elements when the
 source panicked

The elements received so far sat in a NoDrop and were never released when
the source iterator (or a mapping closure, Clone, an operator, ...) panicked,
or when the debug assertion on surplus elements fired.
---
 src/vector.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index ae3eb42..8dfa2ea 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -696,23 +696,24 @@ impl<T, N> FromIterator<T> for Vector<T, N> where N: ArrayLen<T> {
 
         let arr = unsafe {
             // NOTE: somehow `NoDrop` drops performance - it should be optimized out
-            let mut arr = NoDrop::new(mem::uninitialized::<N::Array>());
+            //
+            // `buf` owns what has been received so far, and releases it if `it` panics.
+            let mut buf = IntoIter::<T, N> {
+                arr: NoDrop::new(mem::uninitialized::<N::Array>()),
+                next: 0,
+                back: 0,
+            };
 
             for i in 0..N::to_usize() {
                 let item = match it.next() {
                     Some(item) => item,
                     None => {
-                        let mut arr = arr.into_inner();
-                        for j in 0..i {
-                            ptr::drop_in_place(arr.as_mut().get_unchecked_mut(j));
-                        }
-                        mem::forget(arr);
-
                         panic!("Vector<_, U{0}> can only be created with exactly {0} elements.",
                                N::to_usize())
                     }
                 };
-                ptr::write(arr.as_mut().get_unchecked_mut(i), item);
+                ptr::write(buf.arr.as_mut().get_unchecked_mut(i), item);
+                buf.back = i + 1;
             }
 
             // making this `assert_eq` slows down matrix multiplication by 7x in release build!
@@ -720,7 +721,9 @@ impl<T, N> FromIterator<T> for Vector<T, N> where N: ArrayLen<T> {
                              "Vector<_, U{0}> can only be created with exactly {0} elements.",
                              N::to_usize());
 
-            arr.into_inner()
+            let arr = ptr::read(&*buf.arr);
+            mem::forget(buf);
+            arr
         };
 
         Vector::new(arr)
-- 
2.43.0


From 639f710242f79d376a6c1fe2e140910a82ed7d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 4/9] fix: collecting into a Vector drained the whole source in
 debug builds

The debug assertion on surplus elements counted the rest of the source, which
never ends on an unbounded iterator; one more element is enough to know.
---
 src/vector.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 8dfa2ea..f04a6b6 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -717,9 +717,9 @@ impl<T, N> FromIterator<T> for Vector<T, N> where N: ArrayLen<T> {
             }
 
             // making this `assert_eq` slows down matrix multiplication by 7x in release build!
-            debug_assert_eq!(it.count(), 0,
-                             "Vector<_, U{0}> can only be created with exactly {0} elements.",
-                             N::to_usize());
+            debug_assert!(it.next().is_none(),
+                          "Vector<_, U{0}> can only be created with exactly {0} elements.",
+                          N::to_usize());
 
             let arr = ptr::read(&*buf.arr);
             mem::forget(buf);
-- 
2.43.0


From 5bdff5234df6638a11b064ee077ec14ca79dad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 5/9] fix: length of RowsIter and ColsIter ignored elements
 taken from the back

size_hint, count and len subtracted the front position from the full extent,
so they overstated what was left after next_back().
---
 src/matrix/iter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix/iter.rs b/src/matrix/iter.rs
index 1a672c1..033e5a7 100644
--- a/src/matrix/iter.rs
+++ b/src/matrix/iter.rs
@@ -38,13 +38,13 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let s = Row::to_usize() - self.1;
+        let s = self.2 - self.1;
         (s, Some(s))
     }
 
     #[inline]
     fn count(self) -> usize {
-        Row::to_usize() - self.1
+        self.2 - self.1
     }
 
     #[inline]
@@ -68,7 +68,7 @@ impl<'a, T: 'a, Row, Col> ExactSizeIterator for RowsIter<'a, T, Row, Col>
     // avoiding an assert in the provided method
     #[inline]
     fn len(&self) -> usize {
-        Row::to_usize() - self.1
+        self.2 - self.1
     }
 }
 
@@ -130,13 +130,13 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let s = Col::to_usize() - self.1;
+        let s = self.2 - self.1;
         (s, Some(s))
     }
 
     #[inline]
     fn count(self) -> usize {
-        Col::to_usize() - self.1
+        self.2 - self.1
     }
 
     #[inline]
@@ -160,7 +160,7 @@ impl<'a, T: 'a, Row, Col> ExactSizeIterator for ColsIter<'a, T, Row, Col>
     // avoiding an assert in the provided method
     #[inline]
     fn len(&self) -> usize {
-        Col::to_usize() - self.1
+        self.2 - self.1
     }
 }
 
-- 
2.43.0


From c1ef1c44a14b5be2bcb20f59212ec68a83dc61b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 6/9] fix: nth past the end left matrix iterators in an
 inconsistent state

The front position ran past the back one, after which len(), size_hint() and
count() underflowed, and repeated calls could overflow the position and make
the iterator yield elements again.
---
 src/matrix/iter.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/matrix/iter.rs b/src/matrix/iter.rs
index 033e5a7..2bcc214 100644
--- a/src/matrix/iter.rs
+++ b/src/matrix/iter.rs
@@ -1,5 +1,7 @@
 use ::vector::{Vector, ArrayLen};
 
+use std::cmp;
+
 pub struct RowsIter<'a, T: 'a, Row, Col>
     (&'a Vector<Vector<T, Col>, Row>, usize, usize)
     where
@@ -54,7 +56,7 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.1 += n;
+        self.1 += cmp::min(n, self.2 - self.1);
         self.next()
     }
 }
@@ -146,7 +148,7 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.1 += n;
+        self.1 += cmp::min(n, self.2 - self.1);
         self.next()
     }
 }
@@ -247,7 +249,7 @@ impl<'a, T: 'a, Row, Col> Iterator for RowsIterRef<'a, T, Row, Col>
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.front += n;
+        self.front += cmp::min(n, self.back - self.front);
         self.next()
     }
 }
@@ -343,7 +345,7 @@ impl<'a, T: 'a, Row, Col> Iterator for ColsIterRef<'a, T, Row, Col>
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.front += n;
+        self.front += cmp::min(n, self.back - self.front);
         self.next()
     }
 }
@@ -442,7 +444,7 @@ impl<'a, T: 'a, Row, Col> Iterator for ColsIterRefInner<'a, T, Row, Col>
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.front += n;
+        self.front += cmp::min(n, self.back - self.front);
         self.next()
     }
 }
-- 
2.43.0


From bd7fd637ac765ea88559b2313c0c26fc85471573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 7/9] fix: Debug of a matrix with no rows underflowed

The index of the last row was computed as len() - 1.
---
 src/matrix/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/matrix/mod.rs b/src/matrix/mod.rs
index cc59bb8..c0c74e6 100644
--- a/src/matrix/mod.rs
+++ b/src/matrix/mod.rs
@@ -309,10 +309,9 @@ impl<T, Row, Col> Debug for Matrix<T, Row, Col>
     fn fmt(&self, fmt: &mut Formatter) -> FmtResult {
         try!(write!(fmt, "Matrix["));
 
-        let last = self.0.len() - 1;
         for (i, row) in self.0.iter().enumerate() {
+            if i != 0 { try!(write!(fmt, ", ")); }
             try!(row.as_slice().fmt(fmt));
-            if i != last { try!(write!(fmt, ", ")); }
         }
 
         write!(fmt, "]")
-- 
2.43.0


From 67e3a0adbb7396d9fe0eaa190b6cf325251e4fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 8/9] fix: indexing an empty vector with U0 was undefined
 behavior

Unlike the other static indices, U0 is not restricted to N > 0, and the
access was unchecked in release builds.
---
 src/vector.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index f04a6b6..d334096 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -278,9 +278,8 @@ impl<T, N> Index<U0> for Vector<T, N>
 
     #[inline]
     fn index(&self, _: U0) -> &T {
-        unsafe {
-            self.get_unchecked(0)
-        }
+        // `N` may be `U0`
+        &self.as_slice()[0]
     }
 }
 
@@ -305,9 +304,8 @@ impl<T, N> IndexMut<U0> for Vector<T, N>
 {
     #[inline]
     fn index_mut(&mut self, _: U0) -> &mut T {
-        unsafe {
-            self.get_unchecked_mut(0)
-        }
+        // `N` may be `U0`
+        &mut self.as_slice_mut()[0]
     }
 }
 
-- 
2.43.0


From 2695ea068de8b98d3a3cd4693777ca2783b02f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 9/9] fix: inverse of an invertible matrix with a zero pivot
 was None

For sizes above 3 the elimination gave up on the first zero on the diagonal
instead of looking for a row to swap in, so, for example, no permutation
matrix other than the identity had an inverse.
---
 src/matrix/ops.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/matrix/ops.rs b/src/matrix/ops.rs
index 7326f05..45b8ef3 100644
--- a/src/matrix/ops.rs
+++ b/src/matrix/ops.rs
@@ -359,13 +359,16 @@ impl<T, U, Ba, Bb, Bc> Inverse for Matrix<T, UInt<UInt<UInt<U, Ba>, Bb>, Bc>, UI
         let n = <UInt<UInt<UInt<U, Ba>, Bb>, Bc> as typenum::Unsigned>::to_usize();
 
         for i in 0..n {
-            let rcp = {
-                let d = mat[(i, i)].clone();
-                if d.is_zero() {
-                    return None;
+            // bring a row with a non-zero pivot to the `i`-th
+            match (i..n).find(|&j| !mat[(j, i)].is_zero()) {
+                Some(j) => {
+                    mat.0.as_slice_mut().swap(i, j);
+                    inv.0.as_slice_mut().swap(i, j);
                 }
-                T::one() / d
-            };
+                None => return None,
+            }
+
+            let rcp = T::one() / mat[(i, i)].clone();
 
             for j in 0..n {
                 mat[(i, j)] = mat[(i, j)].clone() * rcp.clone();
-- 
2.43.0

