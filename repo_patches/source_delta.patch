From 741dc9f2f750f50c7940f9aada5cbd2a9adf26f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:22 +0000
Subject: [PATCH 01/22] hook: cfg(verif_sim) re-export of the private Lie basis
 items

---
 src/lie/lie_basis/mod.rs | 8 ++++++++
 src/lie/mod.rs           | 5 ++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lie/lie_basis/mod.rs b/src/lie/lie_basis/mod.rs
index dc0456e..6c469d3 100644
--- a/src/lie/lie_basis/mod.rs
+++ b/src/lie/lie_basis/mod.rs
@@ -11,3 +11,11 @@ use hall_set::{get_hall_set};
 
 
 mod hall_key;
+
+
+/// Simulation-only access to the private Lie basis items (`--cfg verif_sim`).
+#[cfg(verif_sim)]
+pub mod verif_hooks {
+    pub use super::hall_key::HallKey;
+    pub use super::hall_set::{get_hall_set, HallSet, HallSetError, HallSetObject, ParentInfo};
+}
diff --git a/src/lie/mod.rs b/src/lie/mod.rs
index c29d3c4..fbb1759 100644
--- a/src/lie/mod.rs
+++ b/src/lie/mod.rs
@@ -1 +1,4 @@
-mod lie_basis;
\ No newline at end of file
+mod lie_basis;
+
+#[cfg(verif_sim)]
+pub use lie_basis::verif_hooks;
-- 
2.43.0


From 8a8d5bbf9effed905258d4b5336f8c98aa984312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:34 +0000
Subject: [PATCH 02/22] fix: Moebius function of composite squarefree numbers
 recursed for ever

---
 src/lie/lie_basis/degree_range_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lie/lie_basis/degree_range_map.rs b/src/lie/lie_basis/degree_range_map.rs
index 530f374..2656736 100644
--- a/src/lie/lie_basis/degree_range_map.rs
+++ b/src/lie/lie_basis/degree_range_map.rs
@@ -27,7 +27,7 @@ mod compute {
         if divisor == n {
             -1
         } else if n % divisor == 0 {
-            mobius(n) * mobius(n / divisor)
+            -mobius(n / divisor)
         } else {
             mobius_impl(n, divisor+1)
         }
-- 
2.43.0


From 2b9261d5a66e7b27d02ea042ebb8fae465f00615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:35 +0000
Subject: [PATCH 03/22] fix: degree lookup put the last element of a degree
 into the next degree

---
 src/lie/lie_basis/degree_range_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lie/lie_basis/degree_range_map.rs b/src/lie/lie_basis/degree_range_map.rs
index 2656736..bf056ca 100644
--- a/src/lie/lie_basis/degree_range_map.rs
+++ b/src/lie/lie_basis/degree_range_map.rs
@@ -196,7 +196,7 @@ impl<const NLETTERS: DegreeType> DegreeRangeMap<NLETTERS> {
                 return Err(DegreeOutOfBounds);
             }
 
-            Ok(self.0.partition_point(move |&v| v <= dkey) as DegreeType)
+            Ok(self.0.partition_point(move |&v| v < dkey) as DegreeType)
         }
 
 }
-- 
2.43.0


From 44564346f90ff9372ae525f4f9ece9eaecf51a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:36 +0000
Subject: [PATCH 04/22] fix: growing a Hall set produced no elements (and
 panicked through a handle)

---
 src/lie/lie_basis/hall_set.rs | 53 +++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/lie/lie_basis/hall_set.rs b/src/lie/lie_basis/hall_set.rs
index 9e1f479..d559dd9 100644
--- a/src/lie/lie_basis/hall_set.rs
+++ b/src/lie/lie_basis/hall_set.rs
@@ -1,5 +1,6 @@
 
 
+use std::cmp;
 use std::collections::HashMap;
 use std::error::Error;
 use std::fmt;
@@ -172,31 +173,47 @@ impl<const NLETTERS: DegreeType> HallSetInner<NLETTERS> {
         self.current_degree
     }
 
-    pub fn grow_up(&mut self, new_degree: DegreeType)
+    pub fn grow_up(&mut self, new_degree: DegreeType) -> Result<(), HallSetError>
     {
-        // Reserve for efficiency
+        // The element ranges of all degrees involved come from the degree map
+        self.degrees.grow(new_degree)?;
 
         while self.current_degree < new_degree {
-            self.current_degree += 1;
-/*
-            for e in 1..(self.current_degree / 2) {
-                let (i_lower, i_upper) = self.degree_ranges[e];
-                let (j_lower, j_upper) = self.degree_ranges[self.current_degree - e];
-
-                for i in i_lower..i_upper {
-                    for j in cmp::max(j_lower, i+1)..j_upper {
-                        if self.set[j].0 <= i {
+            let degree = self.current_degree + 1;
+
+            if degree == 1 {
+                for letter in 1..=NLETTERS {
+                    self.set.push((0, letter));
+                    self.reverse.insert((0, letter), letter as DataType);
+                }
+            }
+
+            for e in 1..=(degree / 2) {
+                let (i_lower, i_upper) = self.elements_of_degree(e)?;
+                let (j_lower, j_upper) = self.elements_of_degree(degree - e)?;
+
+                for i in i_lower..=i_upper {
+                    for j in cmp::max(j_lower, i+1)..=j_upper {
+                        if self.set[j as usize].0 <= i {
                             self.set.push((i, j));
-                            self.degrees.push(self.current_degree);
-                            self.reverse[(i, j)] = self.set.len() - 1;
+                            self.reverse.insert((i, j), (self.set.len() - 1) as DataType);
                         }
                     }
                 }
             }
-*/
-
 
+            self.current_degree = degree;
         }
+
+        Ok(())
+    }
+
+    /// First and last element of a degree
+    fn elements_of_degree(&self, degree: DegreeType) -> Result<(LetterType, LetterType), HallSetError>
+    {
+        let lower = self.degrees.get(degree - 1)? + 1;
+        let upper = self.degrees.get(degree)?;
+        Ok((lower as LetterType, upper as LetterType))
     }
 
 }
@@ -236,7 +253,7 @@ impl<const NLETTERS: DegreeType> HallSet for HallSetInner<NLETTERS> {
     }
 
     fn grow_up(&mut self, new_degree: DegreeType) -> Result<(), HallSetError> {
-        todo!()
+        HallSetInner::grow_up(self, new_degree)
     }
 
     fn degree_range(&self, deg: DegreeType) -> Result<(DimensionType, DimensionType), HallSetError> {
@@ -257,9 +274,9 @@ pub fn get_hall_set<const NLETTERS: DegreeType>(pre_grow: Option<DegreeType>) ->
         let mut inner = HallSetInner::<NLETTERS>::new();
 
         if let Some(deg) = pre_grow {
-            inner.grow_up(deg);
+            inner.grow_up(deg).expect("Could not grow hall set");
         } else {
-            inner.grow_up(1);
+            inner.grow_up(1).expect("Could not grow hall set");
         }
 
         let new_hs = HallSetObject::new(inner);
-- 
2.43.0


From b7b957d1e6b6561b97e4ffd2cdc4debf97e8419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:38 +0000
Subject: [PATCH 05/22] fix: first request for a Hall set deadlocked, racing
 requests got different sets

---
 src/lie/lie_basis/hall_set.rs | 39 +++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/lie/lie_basis/hall_set.rs b/src/lie/lie_basis/hall_set.rs
index d559dd9..d0fc854 100644
--- a/src/lie/lie_basis/hall_set.rs
+++ b/src/lie/lie_basis/hall_set.rs
@@ -4,7 +4,7 @@ use std::cmp;
 use std::collections::HashMap;
 use std::error::Error;
 use std::fmt;
-use std::sync::{Arc, RwLock};
+use std::sync::{Arc, PoisonError, RwLock};
 
 
 use lazy_static::lazy_static;
@@ -266,25 +266,34 @@ impl<const NLETTERS: DegreeType> HallSet for HallSetInner<NLETTERS> {
 
 pub fn get_hall_set<const NLETTERS: DegreeType>(pre_grow: Option<DegreeType>) -> HallSetObject
 {
-    if let Some(val) = HALL_SET_CACHE.read()
-        .expect("Error retrieving from hall set cache")
-        .get(&NLETTERS) {
-        val.clone()
-    } else {
-        let mut inner = HallSetInner::<NLETTERS>::new();
-
-        if let Some(deg) = pre_grow {
-            inner.grow_up(deg).expect("Could not grow hall set");
-        } else {
+    // The guard must be gone before the write lock is requested below. Nothing
+    // under the cache lock leaves the map half changed, so poisoning is ignored.
+    let cached = HALL_SET_CACHE.read()
+        .unwrap_or_else(PoisonError::into_inner)
+        .get(&NLETTERS)
+        .cloned();
+
+    let mut hall_set = match cached {
+        Some(val) => val,
+        None => {
+            let mut inner = HallSetInner::<NLETTERS>::new();
             inner.grow_up(1).expect("Could not grow hall set");
+            let new_hs = HallSetObject::new(inner);
+
+            // Another caller may have been first, all callers share one set
+            HALL_SET_CACHE.write()
+                .unwrap_or_else(PoisonError::into_inner)
+                .entry(NLETTERS)
+                .or_insert(new_hs)
+                .clone()
         }
+    };
 
-        let new_hs = HallSetObject::new(inner);
-        HALL_SET_CACHE.write().expect("Could not get write access to hall set cache")
-            .insert(NLETTERS, new_hs.clone());
-        new_hs
+    if let Some(deg) = pre_grow {
+        hall_set.grow_up(deg).expect("Could not grow hall set");
     }
 
+    hall_set
 }
 
 
-- 
2.43.0


From 487c3d8a676bbc37b6f9145b06f4b1977ba2ec7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:39 +0000
Subject: [PATCH 06/22] fix: Hall key navigation returned the parents of the
 right parent

---
 src/lie/lie_basis/hall_key.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lie/lie_basis/hall_key.rs b/src/lie/lie_basis/hall_key.rs
index 98bb6a8..d8c3d08 100644
--- a/src/lie/lie_basis/hall_key.rs
+++ b/src/lie/lie_basis/hall_key.rs
@@ -82,16 +82,16 @@ impl<const NLETTERS: DegreeType> HallKey<NLETTERS> {
 
     pub fn lparent(&self) -> Self
     {
-        let mut hs = get_hall_set::<NLETTERS>(None);
-        let (key, lparent, rparent, sz) = hs.rparent_details(self.get_rparent() as DataType)
+        let hs = get_hall_set::<NLETTERS>(None);
+        let (key, lparent, rparent, sz) = hs.lparent_details(self.get_key() as DataType)
             .expect("encountered a problem getting parent data");
         Self(Self::make_key_data(key, lparent, rparent, sz))
     }
 
     pub fn parent(&self) -> Self
     {
-        let mut hs = get_hall_set::<NLETTERS>(None);
-        let (key, lparent, rparent, sz) = hs.rparent_details(self.get_rparent() as DataType)
+        let hs = get_hall_set::<NLETTERS>(None);
+        let (key, lparent, rparent, sz) = hs.rparent_details(self.get_key() as DataType)
             .expect("encountered a problem getting parent data");
 
         Self(Self::make_key_data(key, lparent, rparent, sz))
-- 
2.43.0


From 9103ef5430705cea29bca43c7432869c8bdb4626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:41 +0000
Subject: [PATCH 07/22] fix: displaying a tensor key recursed until the stack
 overflowed

---
 src/free_tensor/tensor_basis/tensor_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 8d01534..8303cef 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -47,7 +47,7 @@ impl<const NLETTERS: u32> Debug for TensorKey<NLETTERS> {
 impl<const NLETTERS: u32> Display for TensorKey<NLETTERS> {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
         // In this case, the displayed key should be the same as the debug output
-        Display::fmt(self, f)
+        Debug::fmt(self, f)
     }
 }
 
-- 
2.43.0


From 9e62f5392d4ef85924a721b64dfde356ea0d9772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:43 +0000
Subject: [PATCH 08/22] fix: replacing a letter of a tensor key cleared the
 wrong bits

---
 src/free_tensor/tensor_basis/tensor_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 8303cef..a2e6ccb 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -112,7 +112,7 @@ impl<const NLetters: u32> TensorKey<NLetters> {
         if letter >= self.size() {
             panic!("Index {} exceeds length of word", letter);
         }
-        let mask = !make_mask(Self::bits_per_letter(), letter);
+        let mask = !make_mask(Self::bits_per_letter(), letter * Self::bits_per_letter());
         let mut data = self.data();
         data &= mask;
         data += (new_val as u64 - 1) << Self::bits_per_letter()*letter;
-- 
2.43.0


From 7f21e095c7afadfd6f67525b2f102dc7caa711e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:59 +0000
Subject: [PATCH 09/22] fix: get and get_mut on wrapped vectors recursed until
 the stack overflowed

---
 src/vector/implementation/deref_impl.rs | 26 ++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/vector/implementation/deref_impl.rs b/src/vector/implementation/deref_impl.rs
index bb0aaae..a78df68 100644
--- a/src/vector/implementation/deref_impl.rs
+++ b/src/vector/implementation/deref_impl.rs
@@ -6,31 +6,31 @@ use crate::vector::*;
 
 
 
-impl<'vec, U, V> Vector<'vec> for V
-    where V: 'vec + Deref<Target=U> + DerefMut<Target=U> + From<U> + PartialEq,
+impl<'vec, V> Vector<'vec> for V
+    where V: 'vec + Deref + DerefMut + From<<V as Deref>::Target> + PartialEq,
           //  + IntoVectorIterator<'vec, U::KeyType, U::ScalarType>,
-          U: Vector<'vec>
+          <V as Deref>::Target: Vector<'vec>
 {
-    type BasisType = U::BasisType;
-    type KeyType = U::KeyType;
-    type ScalarType = U::ScalarType;
-    type RationalType = U::RationalType; 
+    type BasisType = <V::Target as Vector<'vec>>::BasisType;
+    type KeyType = <V::Target as Vector<'vec>>::KeyType;
+    type ScalarType = <V::Target as Vector<'vec>>::ScalarType;
+    type RationalType = <V::Target as Vector<'vec>>::RationalType; 
 
     fn new() -> Self
     {
-        Self::from(U::new())
+        Self::from(V::Target::new())
     }
 
     fn from_key(key: impl Into<Self::KeyType>) -> Self {
-        Self::from(U::from_key(key))
+        Self::from(V::Target::from_key(key))
     }
 
     fn from_key_scalar(key: impl Into<Self::KeyType>, scalar: impl Into<Self::ScalarType>) -> Self {
-        Self::from(U::from_key_scalar(key, scalar))
+        Self::from(V::Target::from_key_scalar(key, scalar))
     }
 
     fn from_iterator(iterator: impl IntoIterator<Item=(Self::KeyType, Self::ScalarType)>) -> Self {
-        Self::from(U::from_iterator(iterator))
+        Self::from(V::Target::from_iterator(iterator))
     }
 
     fn swap(&mut self, mut other: impl BorrowMut<Self>) {
@@ -46,11 +46,11 @@ impl<'vec, U, V> Vector<'vec> for V
     }
 
     fn get(&self, key: impl Borrow<Self::KeyType>) -> Option<&Self::ScalarType> {
-        self.borrow().get(key)
+        self.deref().get(key)
     }
 
     fn get_mut(&mut self, key: impl Borrow<Self::KeyType>) -> Option<&mut Self::ScalarType> {
-        self.borrow_mut().get_mut(key)
+        self.deref_mut().get_mut(key)
     }
 
     fn insert_single(&mut self, key: &Self::KeyType, value: impl Into<Self::ScalarType>) {
-- 
2.43.0


From ade88d8b566f87e360b65b5c9011fe8ccc5f8e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:01 +0000
Subject: [PATCH 10/22] fix: inserting into a dense vector did nothing (one
 key) or panicked (many)

---
 src/vector/implementation/simple_dense_vector.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/vector/implementation/simple_dense_vector.rs b/src/vector/implementation/simple_dense_vector.rs
index 2d74d32..a3533d0 100644
--- a/src/vector/implementation/simple_dense_vector.rs
+++ b/src/vector/implementation/simple_dense_vector.rs
@@ -240,12 +240,17 @@ impl<'vec, 'a: 'vec, B, S> Vector<'vec> for SimpleDenseVector<'a, B, S>
     fn insert_single(&mut self, key: &Self::KeyType, value: impl Into<Self::ScalarType>)
     {
         let idx = B::key_to_index(key);
-
-
+        let value = value.into();
+        if idx >= self.size() {
+            self.resize(B::vector_dimension_for_key(key));
+        }
+        self.as_mut_slice()[idx] = value;
     }
 
     fn insert(&mut self, iterator: impl IntoIterator<Item=(Self::KeyType, Self::ScalarType)>) {
-        todo!()
+        for (key, value) in iterator {
+            self.insert_single(&key, value);
+        }
     }
 
     fn erase(&mut self, key: impl Borrow<Self::KeyType>)
-- 
2.43.0


From 9a5aa2abd1330663c640827c3dd4be8e06c6ffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:02 +0000
Subject: [PATCH 11/22] fix: swap, to_owned, insert and erase of sparse vectors
 were unimplemented

---
 src/vector/implementation/simple_sparse_vector.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/vector/implementation/simple_sparse_vector.rs b/src/vector/implementation/simple_sparse_vector.rs
index 9141516..06db932 100644
--- a/src/vector/implementation/simple_sparse_vector.rs
+++ b/src/vector/implementation/simple_sparse_vector.rs
@@ -2,6 +2,7 @@
 
 use std::collections::{HashMap, hash_map::{Iter as HashMapIter, IterMut as HashMapIterMut}};
 use std::marker::PhantomData;
+use std::mem;
 use std::iter::IntoIterator;
 
 use crate::basis::{Basis};
@@ -107,12 +108,12 @@ impl<'vec, 'a: 'vec, B, S, K> Vector<'vec> for SimpleSparseVector<'a, B, S, K>
         SimpleSparseVector::<B, S, K>(inner, PhantomData)
     }
 
-    fn swap(&mut self, other: impl BorrowMut<Self>) {
-        todo!()
+    fn swap(&mut self, mut other: impl BorrowMut<Self>) {
+        mem::swap(&mut self.0, &mut other.borrow_mut().0);
     }
 
     fn to_owned(&self) -> Self {
-        todo!()
+        Self(self.0.clone(), PhantomData)
     }
 
     fn clear(&mut self) {
@@ -132,11 +133,13 @@ impl<'vec, 'a: 'vec, B, S, K> Vector<'vec> for SimpleSparseVector<'a, B, S, K>
     }
 
     fn insert(&mut self, iterator: impl IntoIterator<Item=(Self::KeyType, Self::ScalarType)>) {
-        todo!()
+        for (key, value) in iterator {
+            self.0.insert(key, value);
+        }
     }
 
     fn erase(&mut self, key: impl Borrow<Self::KeyType>) {
-        todo!()
+        self.0.remove(key.borrow());
     }
 
     fn uminus_inplace(&mut self) -> &mut Self {
-- 
2.43.0


From 59de700b426f5fce2c20127c8e094c5a2f55f054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:03 +0000
Subject: [PATCH 12/22] fix: building a sparse vector dropped all but the last
 coefficient of a repeated key

---
 src/vector/implementation/simple_sparse_vector.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vector/implementation/simple_sparse_vector.rs b/src/vector/implementation/simple_sparse_vector.rs
index 06db932..4fdc997 100644
--- a/src/vector/implementation/simple_sparse_vector.rs
+++ b/src/vector/implementation/simple_sparse_vector.rs
@@ -103,7 +103,10 @@ impl<'vec, 'a: 'vec, B, S, K> Vector<'vec> for SimpleSparseVector<'a, B, S, K>
         let mut inner = HashMap::<K, S>::new();
 
         for (key, val) in iterator.into_iter() {
-            inner.insert(key, val);
+            match inner.get_mut(&key) {
+                Some(current) => { S::add_inplace(current, &val); },
+                None => { inner.insert(key, val); }
+            }
         }
         SimpleSparseVector::<B, S, K>(inner, PhantomData)
     }
-- 
2.43.0


From 978e452ce18339b5408980da07f50d3f61f1a5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:04 +0000
Subject: [PATCH 13/22] fix: dense vector construction wrote out of bounds when
 a basis misreported its dimension

---
 src/vector/implementation/simple_dense_vector.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/vector/implementation/simple_dense_vector.rs b/src/vector/implementation/simple_dense_vector.rs
index a3533d0..f6dafb9 100644
--- a/src/vector/implementation/simple_dense_vector.rs
+++ b/src/vector/implementation/simple_dense_vector.rs
@@ -179,12 +179,7 @@ impl<'vec, 'a: 'vec, B, S> Vector<'vec> for SimpleDenseVector<'a, B, S>
         let k = key.into();
         let size = Self::BasisType::vector_dimension_for_key(&k);
         let mut new_vect = Self::from_dimension(size);
-        unsafe {
-            // We have just created the vector to have at least size+1 elements
-            // So this is safe
-            *new_vect.as_mut_slice()
-                .get_unchecked_mut(Self::BasisType::key_to_index(&k)) = scalar.into();
-        }
+        new_vect.as_mut_slice()[Self::BasisType::key_to_index(&k)] = scalar.into();
         new_vect
     }
 
@@ -202,11 +197,8 @@ impl<'vec, 'a: 'vec, B, S> Vector<'vec> for SimpleDenseVector<'a, B, S>
 
         let mut result = Self::from_dimension(dimension);
 
-        // We have just created a vector large enough to accomodate all these indices.
-        unsafe {
-            for (i, v) in vec.into_iter() {
-                Self::ScalarType::add_inplace(result.as_mut_slice().get_unchecked_mut(i), &v);
-            }
+        for (i, v) in vec.into_iter() {
+            Self::ScalarType::add_inplace(&mut result.as_mut_slice()[i], &v);
         }
 
         result
-- 
2.43.0


From c94fd5f0c614de6d562f254c3ad523846a871c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:06 +0000
Subject: [PATCH 14/22] fix: sub_scalar_divide added instead of subtracting
 when the key was present

---
 src/vector/traits/extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector/traits/extension.rs b/src/vector/traits/extension.rs
index 307553c..bdda918 100644
--- a/src/vector/traits/extension.rs
+++ b/src/vector/traits/extension.rs
@@ -57,7 +57,7 @@ pub trait VectorKeyExt<'vec> : Vector<'vec> {
     {
         let sca = <Self::ScalarType as CoefficientField>::div(&Self::ScalarType::MONE, &val.into());
         if let Some(v) = self.get_mut(key.borrow()) {
-            <Self::ScalarType as CoefficientField>::sub_inplace(v, &sca);
+            <Self::ScalarType as CoefficientField>::add_inplace(v, &sca);
         } else {
             self.insert_single(key.borrow().clone(), sca);
         }
-- 
2.43.0


From e0550c0ff867c2342cf56d7c2395af427804aa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:51 +0000
Subject: [PATCH 15/22] fix: in-place tensor products computed garbage,
 underflowed and read out of bounds

---
 src/free_tensor/implementation/dense.rs | 107 +-----------------------
 1 file changed, 4 insertions(+), 103 deletions(-)

diff --git a/src/free_tensor/implementation/dense.rs b/src/free_tensor/implementation/dense.rs
index 12769a4..f8b6a1c 100644
--- a/src/free_tensor/implementation/dense.rs
+++ b/src/free_tensor/implementation/dense.rs
@@ -78,19 +78,6 @@ mod tensor_mul_impl {
         }
     }
 
-    pub(super) unsafe fn dense_tensor_multiply_inplace<S: CoefficientField>(
-        out: &mut [S],
-        rhs: &[S],
-        func: &mut impl FnMut(&S) -> S
-    )
-    {
-        for out_ptr in out {
-            for rhs_v in rhs {
-                *out_ptr = func(&S::mul(out_ptr, rhs_v));
-            }
-        }
-    }
-
 }
 
 
@@ -322,99 +309,13 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
     fn multiply_into_impl(
         &mut self,
         rhs: impl Borrow<Self>,
-        mut func: impl FnMut(&<Self as Vector<'vec>>::ScalarType) -> <Self as Vector<'vec>>::ScalarType,
+        func: impl FnMut(&<Self as Vector<'vec>>::ScalarType) -> <Self as Vector<'vec>>::ScalarType,
         to_degree: Option<DegreeType>
     )
     {
-        use tensor_mul_impl::*;
-
-        let rhs_r = rhs.borrow();
-
-        let lhs_deg = self.degree();
-        let rhs_deg = rhs_r.degree();
-
-        let max_deg = cmp::min(
-            to_degree.expect("Max degree should be set for tensor types"),
-            lhs_deg + rhs_deg
-        );
-
-        if self.degree() < max_deg {
-            self.resize(TensorBasis::<NLETTERS>::start_of_degree(max_deg+1));
-        }
-
-        let (offset, assign) = match rhs_r.as_slice().get(0) {
-            Some(val) if *val == S::ZERO => (1, true),
-            Some(val) if *val == S::ONE => (1, false),
-            _ => (0, true)
-        };
-
-        for out_deg in (1..=max_deg).rev() {
-            let lhs_deg_min = cmp::max(0, out_deg - rhs_deg);
-
-            let lhs_deg_max = cmp::min(out_deg - offset, lhs_deg);
-
-            let mut reduce = 0;
-
-            if assign {
-                reduce = 1;
-
-
-                let rhs_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(out_deg - lhs_deg_max);
-                let out_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(out_deg);
-
-                if offset == 1 {
-                    let lhs_deg_range =
-                        TensorBasis::<NLETTERS>::degree_range(lhs_deg_max);
-                    let lhs_as_slice = self.as_mut_slice();
-                    let (a, b) = lhs_as_slice.split_at_mut(
-                        TensorBasis::<NLETTERS>::start_of_degree(lhs_deg_max));
-
-                    unsafe {
-                        dense_tensor_multiply_into_buffer(
-                            b.get_unchecked_mut(out_deg_range),
-                            a.get_unchecked(lhs_deg_range),
-                            rhs_r.as_slice().get_unchecked(rhs_deg_range),
-                            &mut func,
-                        );
-                    }
-                } else if offset == 0 {
-                    unsafe {
-                        dense_tensor_multiply_inplace(
-                            self.as_mut_slice().get_unchecked_mut(out_deg_range),
-                            rhs_r.as_slice().get_unchecked(rhs_deg_range),
-                            &mut func,
-                        );
-                    }
-                }
-            }
-
-
-            for lhs_d in (lhs_deg_min..=(lhs_deg_max - reduce)).rev() {
-                let rhs_d = out_deg - lhs_d;
-
-                let rhs_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(out_deg - lhs_d);
-                let out_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(rhs_d);
-                let lhs_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(lhs_d);
-
-                let lhs_as_slice = self.as_mut_slice();
-                let (a, b) = lhs_as_slice.split_at_mut(
-                    TensorBasis::<NLETTERS>::start_of_degree(lhs_deg_max));
-                unsafe {
-                    dense_tensor_multiply_into_buffer(
-                        b.get_unchecked_mut(out_deg_range),
-                        a.get_unchecked(lhs_deg_range),
-                        rhs_r.as_slice().get_unchecked(rhs_deg_range),
-                        &mut func,
-                    );
-                }
-            }
-
-        }
+        let mut result = Self::new();
+        result.multiply_and_add_into_impl(&*self, rhs, func, to_degree);
+        *self = result;
     }
 
 }
-- 
2.43.0


From 2e8e0fb81e4c9d0212c05f7cddb38486811cb339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:52 +0000
Subject: [PATCH 16/22] fix: tensor products read and wrote out of bounds for
 partly filled or empty tensors

---
 src/free_tensor/implementation/dense.rs | 62 +++++++++++++++----------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/src/free_tensor/implementation/dense.rs b/src/free_tensor/implementation/dense.rs
index f8b6a1c..47542f6 100644
--- a/src/free_tensor/implementation/dense.rs
+++ b/src/free_tensor/implementation/dense.rs
@@ -58,22 +58,31 @@ impl<'a, S, const NLETTERS: DegreeType> From<SimpleDenseVector<'a, TensorBasis<N
 
 
 mod tensor_mul_impl {
+    use std::cmp;
+    use std::ops::Range;
+
     use crate::coefficients::CoefficientField;
-    
+    use crate::DimensionType;
+
+    /// The part of a degree that is actually stored; it can be short or empty.
+    pub(super) fn stored(range: Range<DimensionType>, len: DimensionType) -> Range<DimensionType>
+    {
+        cmp::min(range.start, len)..cmp::min(range.end, len)
+    }
 
-    pub(super) unsafe fn dense_tensor_multiply_into_buffer<S: CoefficientField>(
+    /// Multiply the parts of fixed degree of lhs and rhs into the part of that total degree of out.
+    /// The words that start with one lhs word make up rhs_dim consecutive elements of out.
+    pub(super) fn dense_tensor_multiply_into_buffer<S: CoefficientField>(
         out: &mut [S],
         lhs: &[S],
         rhs: &[S],
+        rhs_dim: DimensionType,
         func: &mut impl FnMut(&S) -> S,
     )
     {
-        let mut out_ptr = out.as_mut_ptr();
-
-        for lhs_v in lhs {
-            for rhs_v in rhs {
-                S::add_inplace(&mut *out_ptr, &func(&S::mul(lhs_v, rhs_v)));
-                out_ptr = out_ptr.add(1);
+        for (out_row, lhs_v) in out.chunks_mut(rhs_dim).zip(lhs) {
+            for (out_v, rhs_v) in out_row.iter_mut().zip(rhs) {
+                S::add_inplace(out_v, &func(&S::mul(lhs_v, rhs_v)));
             }
         }
     }
@@ -256,7 +265,7 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
         to_degree: Option<DegreeType>
     )
     {
-        use tensor_mul_impl::dense_tensor_multiply_into_buffer;
+        use tensor_mul_impl::{dense_tensor_multiply_into_buffer, stored};
 
         let rhs_r = rhs.borrow();
         let lhs_r = lhs.borrow();
@@ -269,8 +278,9 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
             lhs_deg + rhs_deg
         );
 
-        if self.degree() < max_deg {
-            self.resize(TensorBasis::<NLETTERS>::start_of_degree(max_deg+1));
+        let dim = TensorBasis::<NLETTERS>::start_of_degree(max_deg+1);
+        if self.as_slice().len() < dim {
+            self.resize(dim);
         }
 
 
@@ -288,20 +298,22 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
 
             for lhs_d in (lhs_deg_min..=lhs_deg_max).rev() {
                 let rhs_d = out_deg - lhs_d;
-                unsafe {
-                    dense_tensor_multiply_into_buffer(
-                        self.as_mut_slice()
-                            .get_unchecked_mut(
-                                TensorBasis::<NLETTERS>::degree_range(out_deg)),
-                        lhs_r.as_slice()
-                            .get_unchecked(
-                                TensorBasis::<NLETTERS>::degree_range(lhs_d)),
-                        rhs_r.as_slice()
-                            .get_unchecked(
-                                TensorBasis::<NLETTERS>::degree_range(rhs_d)),
-                        &mut func
-                    );
-                }
+                let out = self.as_mut_slice();
+                let out_range = stored(TensorBasis::<NLETTERS>::degree_range(out_deg), out.len());
+                let lhs_s = lhs_r.as_slice();
+                let lhs_range = stored(TensorBasis::<NLETTERS>::degree_range(lhs_d), lhs_s.len());
+                let rhs_s = rhs_r.as_slice();
+                let rhs_range = TensorBasis::<NLETTERS>::degree_range(rhs_d);
+                let rhs_dim = rhs_range.len();
+                let rhs_range = stored(rhs_range, rhs_s.len());
+
+                dense_tensor_multiply_into_buffer(
+                    &mut out[out_range],
+                    &lhs_s[lhs_range],
+                    &rhs_s[rhs_range],
+                    rhs_dim,
+                    &mut func
+                );
             }
         }
     }
-- 
2.43.0


From 005707e936aeec0d6b964bd6f77da160f0180f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:14 +0000
Subject: [PATCH 17/22] fix: mul_rat_rdiv multiplied by the rational instead of
 dividing by it

---
 src/algebra/mod.rs     | 4 ++--
 src/free_tensor/mod.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algebra/mod.rs b/src/algebra/mod.rs
index 89d570a..04dd2a2 100644
--- a/src/algebra/mod.rs
+++ b/src/algebra/mod.rs
@@ -145,14 +145,14 @@ pub trait Algebra<'vec> : Vector<'vec> {
     fn mul_rat_rdiv(
         &mut self,
         rhs: impl Borrow<Self>,
-        scalar: impl Into<Self::ScalarType>,
+        scalar: impl Into<<Self::ScalarType as CoefficientField>::RationalType>,
         to_degree: Option<DegreeType>
     ) -> &mut Self
     {
         let sca = scalar.into();
         self.multiply_into_impl(
             rhs.borrow(),
-            move |v| { <Self::ScalarType as CoefficientField>::mul(v, &sca) },
+            move |v| { <Self::ScalarType as CoefficientField>::div(v, &sca) },
             to_degree
         );
         self
diff --git a/src/free_tensor/mod.rs b/src/free_tensor/mod.rs
index 5602daa..ef993e7 100644
--- a/src/free_tensor/mod.rs
+++ b/src/free_tensor/mod.rs
@@ -30,7 +30,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
         let borrowed_result = result.borrow_mut();
 
         for i in (1..Self::MAX_DEGREE).rev() {
-            borrowed_result.mul_rat_rdiv(self, Self::ScalarType::from_degree(&i), Some(Self::MAX_DEGREE));
+            borrowed_result.mul_rat_rdiv(self, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE));
             borrowed_result.add_inplace(&tunit);
         }
         result
@@ -48,7 +48,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
         }
 
         for i in (1..Self::MAX_DEGREE).rev() {
-            self.mul_rat_rdiv(&x, Self::ScalarType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
+            self.mul_rat_rdiv(&x, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
             self.add_inplace(oself);
         }
 
-- 
2.43.0


From fe4c7f7b5c3ab50c6484c40d5a21373479dfea05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:16 +0000
Subject: [PATCH 18/22] fix: exp and fmexp dropped the top degree, log returned
 only its last constant

---
 src/free_tensor/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/free_tensor/mod.rs b/src/free_tensor/mod.rs
index ef993e7..e080846 100644
--- a/src/free_tensor/mod.rs
+++ b/src/free_tensor/mod.rs
@@ -29,7 +29,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
         let mut result = Self::from_key(Self::KeyType::new());
         let borrowed_result = result.borrow_mut();
 
-        for i in (1..Self::MAX_DEGREE).rev() {
+        for i in (1..=Self::MAX_DEGREE).rev() {
             borrowed_result.mul_rat_rdiv(self, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE));
             borrowed_result.add_inplace(&tunit);
         }
@@ -47,7 +47,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
             *unit = Self::ScalarType::ZERO.clone();
         }
 
-        for i in (1..Self::MAX_DEGREE).rev() {
+        for i in (1..=Self::MAX_DEGREE).rev() {
             self.mul_rat_rdiv(&x, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
             self.add_inplace(oself);
         }
@@ -67,13 +67,13 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
             *unit = Self::ScalarType::ZERO.clone();
         }
 
-        for i in (1..Self::MAX_DEGREE).rev() {
+        for i in (1..=Self::MAX_DEGREE).rev() {
             if i % 2 == 0 {
                 rv.sub_scalar_rdivide(&tunit, Self::RationalType::from_degree(&i));
             } else {
                 rv.add_scalar_rdivide(&tunit, Self::RationalType::from_degree(&i));
             }
-            rv.multiply(&x, Some(Self::MAX_DEGREE));
+            rv = rv.multiply(&x, Some(Self::MAX_DEGREE));
         }
 
         rv
-- 
2.43.0


From edf81dcab2d7daa8b2303dee4ea4f352b8a15e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:17 +0000
Subject: [PATCH 19/22] fix: tensor words of different length compared equal

---
 src/free_tensor/tensor_basis/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/mod.rs b/src/free_tensor/tensor_basis/mod.rs
index 6928fdf..16d2d23 100644
--- a/src/free_tensor/tensor_basis/mod.rs
+++ b/src/free_tensor/tensor_basis/mod.rs
@@ -69,7 +69,7 @@ impl<const NLETTERS: DegreeType> OrderedBasis for TensorBasis<NLETTERS> {
     type KeyIterator = TensorBasisIterator<NLETTERS>;
 
     fn compare(lhs: &Self::KeyType, rhs: &Self::KeyType) -> Ordering {
-        Ord::cmp(&lhs.data(), &rhs.data())
+        Ord::cmp(&(lhs.size(), lhs.data()), &(rhs.size(), rhs.data()))
     }
 
     fn iter_keys() -> Self::KeyIterator {
-- 
2.43.0


From 5a091dcec9c30ce2002e1c2365356db87ba30b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:09 +0000
Subject: [PATCH 20/22] hook: re-export only the Lie items the simulation names

---
 src/lie/lie_basis/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lie/lie_basis/mod.rs b/src/lie/lie_basis/mod.rs
index 6c469d3..8789832 100644
--- a/src/lie/lie_basis/mod.rs
+++ b/src/lie/lie_basis/mod.rs
@@ -17,5 +17,5 @@ mod hall_key;
 #[cfg(verif_sim)]
 pub mod verif_hooks {
     pub use super::hall_key::HallKey;
-    pub use super::hall_set::{get_hall_set, HallSet, HallSetError, HallSetObject, ParentInfo};
+    pub use super::hall_set::{get_hall_set, HallSet, HallSetError, HallSetObject};
 }
-- 
2.43.0


From f71a70f0391ccd026d31a6d5f6496fd23f03655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:27 +0000
Subject: [PATCH 21/22] fix: one-letter alphabets

The number of words up to a degree was computed by dividing by the width
minus one, so every vector over a one-letter alphabet panicked.
---
 src/free_tensor/tensor_basis/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/free_tensor/tensor_basis/mod.rs b/src/free_tensor/tensor_basis/mod.rs
index 16d2d23..8a39cef 100644
--- a/src/free_tensor/tensor_basis/mod.rs
+++ b/src/free_tensor/tensor_basis/mod.rs
@@ -28,6 +28,9 @@ impl<const NLETTERS: DegreeType> TensorBasis<NLETTERS> {
 
     pub(crate) const fn start_of_degree(deg: DegreeType) -> DimensionType
     {
+        if NLETTERS == 1 {
+            return deg as DimensionType;
+        }
         (((NLETTERS as DimensionType).pow(deg) - 1) / (NLETTERS as DimensionType - 1)) as DimensionType
     }
 
-- 
2.43.0


From 30322d3e2f3810ce5624427fdb405945f9e2e55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:38 +0000
Subject: [PATCH 22/22] fix: degree of a long one-letter tensor overflows the
 stack

index_to_degree recursed once per degree, and with one letter there is one
degree per coordinate: a dense tensor over one letter with some tens of
thousands of coordinates took the process down (stack overflow) in degree(),
multiply and everything built on them in unoptimised builds.
---
 src/free_tensor/tensor_basis/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/free_tensor/tensor_basis/mod.rs b/src/free_tensor/tensor_basis/mod.rs
index 8a39cef..66621a3 100644
--- a/src/free_tensor/tensor_basis/mod.rs
+++ b/src/free_tensor/tensor_basis/mod.rs
@@ -41,11 +41,12 @@ impl<const NLETTERS: DegreeType> TensorBasis<NLETTERS> {
 
     const fn index_to_degree_impl(index: &DimensionType, deg: DegreeType) -> DegreeType
     {
-        if *index >= Self::start_of_degree(deg) && *index < Self::start_of_degree(deg+1) {
-            deg
-        } else {
-            Self::index_to_degree_impl(index, deg+1)
+        // A loop, the degree can be too large for recursion when there is only one letter
+        let mut deg = deg;
+        while !(*index >= Self::start_of_degree(deg) && *index < Self::start_of_degree(deg+1)) {
+            deg += 1;
         }
+        deg
     }
 
     const fn index_to_degree(index: &DimensionType) -> DegreeType
-- 
2.43.0

