From 53e30c2c5f6b340874ba8d091240b219d03d1cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 01/11] fix: swap acquires its two elements in a consistent
 order

---
 src/mut_elem.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/mut_elem.rs b/src/mut_elem.rs
index 54139f5..cab74c1 100644
--- a/src/mut_elem.rs
+++ b/src/mut_elem.rs
@@ -1,4 +1,5 @@
 use crate::{elem::ConcurrentElement, ConcurrentVec};
+use core::cmp::Ordering;
 use orx_concurrent_option::SOME;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
@@ -28,6 +29,18 @@ where
     /// assert_eq!(&vec, &[2, 1, 0, 3]);
     /// ```
     pub fn swap(&self, i: usize, j: usize) -> bool {
+        let (i, j) = match (self.get(i), self.get(j)) {
+            // handles are always acquired in the order of memory locations of the elements;
+            // otherwise, swap(i, i), or concurrent swap(i, j) and swap(j, i), would block forever
+            (Some(e_i), Some(e_j)) => match core::ptr::from_ref(e_i).cmp(&core::ptr::from_ref(e_j))
+            {
+                Ordering::Less => (i, j),
+                Ordering::Equal => return true,
+                Ordering::Greater => (j, i),
+            },
+            _ => return false,
+        };
+
         let h_i = unsafe { self.mut_handle(i, SOME, SOME) };
         let h_j = unsafe { self.mut_handle(j, SOME, SOME) };
 
-- 
2.43.0


From 59ad873801d373021d6a149c54a514745ebbd742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 02/11] fix: comparing two elements keeps both values locked
 during the comparison

---
 src/common_traits/eq.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/common_traits/eq.rs b/src/common_traits/eq.rs
index 37db614..db324e2 100644
--- a/src/common_traits/eq.rs
+++ b/src/common_traits/eq.rs
@@ -1,10 +1,17 @@
 use crate::{ConcurrentElement, ConcurrentSlice, ConcurrentVec};
+use core::cmp::Ordering;
 
 // elem
 impl<T: PartialEq> PartialEq for ConcurrentElement<T> {
     #[inline]
     fn eq(&self, other: &Self) -> bool {
-        self.0 == other.0
+        // both elements must remain locked while the values are compared;
+        // handles are acquired in the order of memory locations to avoid deadlocks
+        match core::ptr::from_ref(self).cmp(&core::ptr::from_ref(other)) {
+            Ordering::Less => self.map(|x| other.map(|y| x.eq(y))),
+            Ordering::Equal => self.map(|x| x.eq(x)),
+            Ordering::Greater => other.map(|y| self.map(|x| x.eq(y))),
+        }
     }
 }
 
-- 
2.43.0


From 0043525559006a1e5bb687bcfcabc4f4e458dbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 03/11] fix: clear does not leave elements behind in the
 retained memory of a FixedVec

---
 src/exclusive.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/exclusive.rs b/src/exclusive.rs
index b7085e2..69e02e8 100644
--- a/src/exclusive.rs
+++ b/src/exclusive.rs
@@ -7,7 +7,13 @@ where
 {
     /// Clears the concurrent bag.
     pub fn clear(&mut self) {
-        unsafe { self.core.clear(self.core.state().len()) };
+        // elements are taken out one by one so that none of them is left behind as an initialized element,
+        // which would be the case for storages that keep and re-use their allocated memory
+        let len = self.reserved_len();
+        for elem in unsafe { self.core.iter_mut(len) } {
+            drop(elem.0.exclusive_take());
+        }
+        unsafe { self.core.clear(0) };
     }
 
     /// Note that [`ConcurrentVec::maximum_capacity`] returns the maximum possible number of elements that the underlying pinned vector can grow to without reserving maximum capacity.
-- 
2.43.0


From b4b3cb70ac1667ae63e6031e1489fc30b47e44ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 04/11] fix: exclusive methods do not use positions reserved
 beyond the capacity

---
 src/exclusive.rs | 8 +++++++-
 src/vec.rs       | 3 ++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/exclusive.rs b/src/exclusive.rs
index 69e02e8..3c5bf1c 100644
--- a/src/exclusive.rs
+++ b/src/exclusive.rs
@@ -1,4 +1,5 @@
 use crate::{elem::ConcurrentElement, ConcurrentVec};
+use core::sync::atomic::Ordering;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
 impl<T, P> ConcurrentVec<T, P>
@@ -34,9 +35,14 @@ where
     ///
     /// This method can safely be called if entries in all positions 0..len are written.
     pub fn reserve_maximum_capacity(&mut self, new_maximum_capacity: usize) -> usize {
+        // positions reserved by growth calls which panicked due to lack of capacity are given back;
+        // otherwise, there would exist no growth call to allocate the positions in between
+        let len = self.reserved_len();
+        self.len_reserved().store(len, Ordering::Relaxed);
+
         unsafe {
             self.core
-                .reserve_maximum_capacity(self.core.state().len(), new_maximum_capacity)
+                .reserve_maximum_capacity(len, new_maximum_capacity)
         }
     }
 }
diff --git a/src/vec.rs b/src/vec.rs
index 10606d6..94450da 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -84,7 +84,8 @@ where
     /// Any `PinnedVec` implementation can be converted to a `ConcurrentVec` using the `From` trait.
     /// Similarly, underlying pinned vector can be obtained by calling the consuming `into_inner` method.
     pub fn into_inner(self) -> P {
-        let len = self.core.state().len();
+        // number of reserved positions might have exceeded the capacity if a growth call panicked due to lack of capacity
+        let len = self.reserved_len();
         // # SAFETY: ConcurrentBag only allows to push to the end of the bag, keeping track of the length.
         // Therefore, the underlying pinned vector is in a valid condition at any given time.
         unsafe { self.core.into_inner(len) }
-- 
2.43.0


From 227b6dd4b9186195a6adf0f05881a35e86728d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 05/11] fix: len counts pushed elements which are being
 accessed by another thread

---
 src/vec.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 94450da..40f120e 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -3,6 +3,7 @@ use crate::ConcurrentSlice;
 use crate::{helpers::DefaultPinVec, state::ConcurrentVecState};
 use core::ops::RangeBounds;
 use core::sync::atomic::Ordering;
+use orx_concurrent_option::State;
 use orx_pinned_concurrent_col::PinnedConcurrentCol;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
@@ -129,9 +130,10 @@ where
         let iter = unsafe { self.core.iter_over_range(len..until) };
         let mut num_pushed = 0;
         for x in iter {
-            match x.0.is_some_with_order(Ordering::Relaxed) {
-                true => num_pushed += 1,
-                false => break,
+            // a pushed element might be in reserved state while it is being accessed by another thread
+            match x.0.state(Ordering::Relaxed) {
+                State::None => break,
+                State::Some | State::Reserved => num_pushed += 1,
             }
         }
         let new_len = len + num_pushed;
-- 
2.43.0


From 13f865eb306060fa62c7db5a27ea0098e10696b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:23 +0000
Subject: [PATCH 06/11] fix: unsafe read methods do not skip elements which are
 being read by another thread

---
 src/concurrent_slice/unsafe_api.rs | 4 +---
 src/unsafe_api.rs                  | 9 ++++-----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/concurrent_slice/unsafe_api.rs b/src/concurrent_slice/unsafe_api.rs
index 8aefdc2..cca5b4f 100644
--- a/src/concurrent_slice/unsafe_api.rs
+++ b/src/concurrent_slice/unsafe_api.rs
@@ -1,6 +1,5 @@
 use super::ConcurrentSlice;
 use crate::ConcurrentElement;
-use core::sync::atomic::Ordering;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
 impl<'a, T, P> ConcurrentSlice<'a, T, P>
@@ -254,8 +253,7 @@ where
     /// ```
     pub unsafe fn iter_ref(&self) -> impl Iterator<Item = &T> {
         let b = self.a + self.len;
-        unsafe { self.vec.core.iter_over_range(self.a..b) }
-            .flat_map(|x| unsafe { x.0.as_ref_with_order(Ordering::SeqCst) })
+        unsafe { self.vec.core.iter_over_range(self.a..b) }.flat_map(|x| unsafe { x.0.as_ref() })
     }
 
     // mut
diff --git a/src/unsafe_api.rs b/src/unsafe_api.rs
index 24c4f29..3273081 100644
--- a/src/unsafe_api.rs
+++ b/src/unsafe_api.rs
@@ -1,5 +1,4 @@
 use crate::{ConcurrentElement, ConcurrentVec};
-use core::sync::atomic::Ordering;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
 impl<T, P> ConcurrentVec<T, P>
@@ -43,7 +42,7 @@ where
         match i < self.reserved_len() {
             true => {
                 let maybe = unsafe { self.core.get(i) };
-                maybe.and_then(|x| x.0.get_raw_with_order(Ordering::SeqCst))
+                maybe.and_then(|x| x.0.get_raw())
             }
             false => None,
         }
@@ -159,7 +158,7 @@ where
         match i < self.reserved_len() {
             true => {
                 let maybe = self.core.get(i);
-                maybe.and_then(|x| x.0.as_ref_with_order(Ordering::SeqCst))
+                maybe.and_then(|x| x.0.as_ref())
             }
             false => None,
         }
@@ -270,7 +269,7 @@ where
     /// ```
     pub unsafe fn iter_ref(&self) -> impl Iterator<Item = &T> {
         let x = self.core.iter(self.reserved_len());
-        x.flat_map(|x| unsafe { x.0.as_ref_with_order(Ordering::SeqCst) })
+        x.flat_map(|x| unsafe { x.0.as_ref() })
     }
 
     // mut
@@ -308,7 +307,7 @@ where
         match i < self.reserved_len() {
             true => {
                 let maybe = unsafe { self.core.get(i) };
-                maybe.and_then(|x| x.0.get_raw_mut_with_order(Ordering::SeqCst))
+                maybe.and_then(|x| x.0.get_raw_mut())
             }
             false => None,
         }
-- 
2.43.0


From 3f37caf8e7c5ed0be5783aeca4cea7cd0ac6cd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 07/11] fix: push_for_idx allocates the position before calling
 the user function

---
 src/grow.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/grow.rs b/src/grow.rs
index c433a0d..42f84aa 100644
--- a/src/grow.rs
+++ b/src/grow.rs
@@ -156,10 +156,13 @@ where
         F: FnOnce(usize) -> T,
     {
         let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);
-        let value = f(idx);
 
         // # SAFETY: ConcurrentVec ensures that each `idx` will be written only and exactly once.
         let maybe = unsafe { self.core.single_item_as_ref(idx) };
+
+        // memory of the position is ready before calling `f`:
+        // otherwise, other growth calls would wait for it forever if `f` panics or calls a growth method
+        let value = f(idx);
         unsafe { maybe.0.initialize_unchecked(value) };
 
         idx
-- 
2.43.0


From dc540fe716b78076a18026ab2d8e22dc1771a4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 08/11] fix: extending by more items than the maximum capacity
 does not overflow reserved positions

---
 src/grow.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/grow.rs b/src/grow.rs
index 42f84aa..9bce8d3 100644
--- a/src/grow.rs
+++ b/src/grow.rs
@@ -314,7 +314,7 @@ where
         Iter: Iterator<Item = T> + ExactSizeIterator,
         F: FnOnce(usize) -> IntoIter,
     {
-        let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);
+        let begin_idx = self.reserve_n_items(num_items);
         let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };
         let mut values = f(begin_idx).into_iter();
 
@@ -435,7 +435,7 @@ where
     where
         IntoIter: IntoIterator<Item = T>,
     {
-        let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);
+        let begin_idx = self.reserve_n_items(num_items);
         let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };
         let mut values = values.into_iter();
 
@@ -450,4 +450,18 @@ where
 
         begin_idx
     }
+
+    // helpers
+
+    /// Reserves positions for `num_items` consecutive elements and returns the first position.
+    ///
+    /// A request that can never fit is rejected before the positions are reserved;
+    /// otherwise, number of reserved positions could overflow and already occupied positions would be reserved again.
+    fn reserve_n_items(&self, num_items: usize) -> usize {
+        assert!(
+            num_items <= self.maximum_capacity(),
+            "Out of capacity. Underlying pinned vector cannot grow any further while being concurrently safe."
+        );
+        self.len_reserved().fetch_add(num_items, Ordering::Relaxed)
+    }
 }
-- 
2.43.0


From 768f39fef75daa27fc9fbf154ec9430f63c26912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 09/11] fix: reserve_maximum_capacity does not move the
 elements of a FixedVec

---
 src/exclusive.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/exclusive.rs b/src/exclusive.rs
index 3c5bf1c..a044189 100644
--- a/src/exclusive.rs
+++ b/src/exclusive.rs
@@ -1,6 +1,6 @@
 use crate::{elem::ConcurrentElement, ConcurrentVec};
 use core::sync::atomic::Ordering;
-use orx_pinned_vec::IntoConcurrentPinnedVec;
+use orx_pinned_vec::{CapacityState, IntoConcurrentPinnedVec};
 
 impl<T, P> ConcurrentVec<T, P>
 where
@@ -40,9 +40,13 @@ where
         let len = self.reserved_len();
         self.len_reserved().store(len, Ordering::Relaxed);
 
-        unsafe {
-            self.core
-                .reserve_maximum_capacity(len, new_maximum_capacity)
+        match P::pseudo_default().capacity_state() {
+            // fixed storages cannot grow without moving their elements
+            CapacityState::FixedCapacity(_) => self.maximum_capacity(),
+            _ => unsafe {
+                self.core
+                    .reserve_maximum_capacity(len, new_maximum_capacity)
+            },
         }
     }
 }
-- 
2.43.0


From 831273d440f9d376921c94979c2203ad4bf6057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 10/11] fix: ConcurrentVec and ConcurrentElement are Sync only
 if their values are also Send

---
 src/elem.rs | 3 +++
 src/vec.rs  | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/elem.rs b/src/elem.rs
index 7f12c57..8a827e9 100644
--- a/src/elem.rs
+++ b/src/elem.rs
@@ -10,6 +10,9 @@ use orx_concurrent_option::ConcurrentOption;
 /// [`vec.iter()`]: crate::ConcurrentVec::iter
 pub struct ConcurrentElement<T>(pub(crate) ConcurrentOption<T>);
 
+// value can be moved into and out of the element by a shared reference; therefore, sharing it requires `T: Send` as well
+unsafe impl<T: Send + Sync> Sync for ConcurrentElement<T> {}
+
 impl<T> From<ConcurrentOption<T>> for ConcurrentElement<T> {
     fn from(value: ConcurrentOption<T>) -> Self {
         Self(value)
diff --git a/src/vec.rs b/src/vec.rs
index 40f120e..55deb91 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -422,7 +422,8 @@ where
     }
 }
 
-unsafe impl<T: Sync, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>> Sync
+// values can be moved into and out of the vec by a shared reference; therefore, sharing it requires `T: Send` as well
+unsafe impl<T: Send + Sync, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>> Sync
     for ConcurrentVec<T, P>
 {
 }
-- 
2.43.0


From 8cd8499a48be6637608424596cdda158880a330f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 11/11] fix: clear keeps the maximum number of fragments of a
 SplitVec

---
 src/exclusive.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/exclusive.rs b/src/exclusive.rs
index a044189..6ee4ba1 100644
--- a/src/exclusive.rs
+++ b/src/exclusive.rs
@@ -14,7 +14,11 @@ where
         for elem in unsafe { self.core.iter_mut(len) } {
             drop(elem.0.exclusive_take());
         }
-        unsafe { self.core.clear(0) };
+
+        // the storage is taken out and converted back since a split vec which is cleared in place forgets its
+        // maximum number of fragments: it could neither reserve maximum capacity nor be converted without losing it
+        let vec = core::mem::replace(self, P::pseudo_default().into());
+        *self = unsafe { vec.core.into_inner(0) }.into();
     }
 
     /// Note that [`ConcurrentVec::maximum_capacity`] returns the maximum possible number of elements that the underlying pinned vector can grow to without reserving maximum capacity.
-- 
2.43.0

