From 078d0de7a3ce3ffb72963b02470aeca2521eecf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 1/4] fix: flip directions and normals under a negative scale

---
 src/transform/scale.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/transform/scale.rs b/src/transform/scale.rs
index 29295ae..d93dcee 100644
--- a/src/transform/scale.rs
+++ b/src/transform/scale.rs
@@ -1,6 +1,7 @@
 #[cfg(feature = "rand")]
 use crate::distr::Normal;
 use crate::{
+    traits::Normalize,
     transform::{Reorder, Shift, Directional},
     Transform, Vector,
 };
@@ -62,12 +63,13 @@ where
 impl<T, const N: usize> Directional<Vector<T, N>> for Scale<T>
 where
     Self: Transform<Vector<T, N>>,
+    Vector<T, N>: Normalize,
 {
-    fn apply_dir(&self, _: Vector<T, N>, dir: Vector<T, N>) -> Vector<T, N> {
-        dir
+    fn apply_dir(&self, pos: Vector<T, N>, dir: Vector<T, N>) -> Vector<T, N> {
+        self.deriv(pos, dir).normalize()
     }
-    fn apply_normal(&self, _: Vector<T, N>, normal: Vector<T, N>) -> Vector<T, N> {
-        normal
+    fn apply_normal(&self, pos: Vector<T, N>, normal: Vector<T, N>) -> Vector<T, N> {
+        self.apply_dir(pos, normal)
     }
 }
 
-- 
2.43.0


From a8c952065a3668556002ef1307ddf1bf6c1a7e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 2/4] fix: do not stop flattening at an empty inner sequence

---
 src/matrix/base/iter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix/base/iter.rs b/src/matrix/base/iter.rs
index dcf7eaa..11b3571 100644
--- a/src/matrix/base/iter.rs
+++ b/src/matrix/base/iter.rs
@@ -35,12 +35,12 @@ where
 {
     type Item = II::Item;
     fn next(&mut self) -> Option<Self::Item> {
-        self.subiter.next().or_else(|| {
-            self.iter.next().and_then(|a| {
-                self.subiter = a.into_iter();
-                self.subiter.next()
-            })
-        })
+        loop {
+            if let Some(x) = self.subiter.next() {
+                return Some(x);
+            }
+            self.subiter = self.iter.next()?.into_iter();
+        }
     }
 }
 
-- 
2.43.0


From 546b7c1ed3d31b42748f7fe5a347466d36f6064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 3/4] fix: traverse matrices without rows instead of panicking

---
 src/matrix/base/iter.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/matrix/base/iter.rs b/src/matrix/base/iter.rs
index 11b3571..abf1bc9 100644
--- a/src/matrix/base/iter.rs
+++ b/src/matrix/base/iter.rs
@@ -9,7 +9,7 @@ where
     II: Iterator,
 {
     iter: I,
-    subiter: II,
+    subiter: Option<II>,
 }
 
 impl<I, IT, II> FlatIter<I, IT, II>
@@ -22,9 +22,16 @@ where
     pub fn new(mut iter: I) -> Option<Self> {
         iter.next().map(|a| Self {
             iter,
-            subiter: a.into_iter(),
+            subiter: Some(a.into_iter()),
         })
     }
+    /// Same as `new`, but the sequence may also be empty.
+    fn from_rows(iter: I) -> Self {
+        Self {
+            iter,
+            subiter: None,
+        }
+    }
 }
 
 impl<I, IT, II> Iterator for FlatIter<I, IT, II>
@@ -36,10 +43,10 @@ where
     type Item = II::Item;
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            if let Some(x) = self.subiter.next() {
+            if let Some(x) = self.subiter.as_mut().and_then(|i| i.next()) {
                 return Some(x);
             }
-            self.subiter = self.iter.next()?.into_iter();
+            self.subiter = Some(self.iter.next()?.into_iter());
         }
     }
 }
@@ -47,11 +54,11 @@ where
 impl<T, const M: usize, const N: usize> Matrix<T, M, N> {
     /// Returns iterator over matrix element refrences.
     pub fn iter(&self) -> impl Iterator<Item = &T> {
-        FlatIter::new(self.data.iter()).unwrap()
+        FlatIter::from_rows(self.data.iter())
     }
     /// Returns iterator over matrix element mutable refrences.
     pub fn iter_mut(&mut self) -> impl Iterator<Item = &mut T> {
-        FlatIter::new(self.data.iter_mut()).unwrap()
+        FlatIter::from_rows(self.data.iter_mut())
     }
 }
 
@@ -66,14 +73,14 @@ impl<T, const M: usize, const N: usize> IntoIterator for Matrix<T, M, N> {
     >;
 
     fn into_iter(self) -> Self::IntoIter {
-        Self::IntoIter::new(self.data.into_iter()).unwrap()
+        Self::IntoIter::from_rows(self.data.into_iter())
     }
 }
 impl<'a, T, const M: usize, const N: usize> IntoIterator for &'a Matrix<T, M, N> {
     type Item = &'a T;
     type IntoIter = FlatIter<slice::Iter<'a, Vector<T, N>>, &'a Vector<T, N>, slice::Iter<'a, T>>;
     fn into_iter(self) -> Self::IntoIter {
-        Self::IntoIter::new(self.data.iter()).unwrap()
+        Self::IntoIter::from_rows(self.data.iter())
     }
 }
 impl<'a, T, const M: usize, const N: usize> IntoIterator for &'a mut Matrix<T, M, N> {
@@ -81,7 +88,7 @@ impl<'a, T, const M: usize, const N: usize> IntoIterator for &'a mut Matrix<T, M
     type IntoIter =
         FlatIter<slice::IterMut<'a, Vector<T, N>>, &'a mut Vector<T, N>, slice::IterMut<'a, T>>;
     fn into_iter(self) -> Self::IntoIter {
-        Self::IntoIter::new(self.data.iter_mut()).unwrap()
+        Self::IntoIter::from_rows(self.data.iter_mut())
     }
 }
 
-- 
2.43.0


From 0d3280c37c10ecd9d958ad413616d9e42f543302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 4/4] fix: format vectors without elements instead of panicking

---
 src/vector/base/format.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/vector/base/format.rs b/src/vector/base/format.rs
index c76a13c..6e23d7c 100644
--- a/src/vector/base/format.rs
+++ b/src/vector/base/format.rs
@@ -7,10 +7,13 @@ where
 {
     fn fmt(&self, f: &mut Formatter) -> FmtResult {
         write!(f, "Vector{}(", N)?;
-        for i in 0..(N - 1) {
-            write!(f, "{:?}, ", self[i])?;
+        for i in 0..N {
+            if i > 0 {
+                write!(f, ", ")?;
+            }
+            write!(f, "{:?}", self[i])?;
         }
-        write!(f, "{:?})", self[N - 1])?;
+        write!(f, ")")?;
         Ok(())
     }
 }
@@ -21,10 +24,13 @@ where
 {
     fn fmt(&self, f: &mut Formatter) -> FmtResult {
         write!(f, "Vector{}(", N)?;
-        for i in 0..(N - 1) {
-            write!(f, "{}, ", self[i])?;
+        for i in 0..N {
+            if i > 0 {
+                write!(f, ", ")?;
+            }
+            write!(f, "{}", self[i])?;
         }
-        write!(f, "{})", self[N - 1])?;
+        write!(f, ")")?;
         Ok(())
     }
 }
-- 
2.43.0

