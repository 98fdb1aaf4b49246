From 9796210d2c1d36ec5e974a629c31d60bea3eeeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:20 +0000
Subject: [PATCH 01/28] fix: push every chunk of an element larger than its
 alignment

VecVoid::push copied only the first alignment sized chunk of the value, so
pushing a BoxValue, CopyValueRef or extending panicked for any element whose
size is greater than its alignment.
---
 src/vec_void.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index b6ec5f4..eefadfb 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -265,12 +265,21 @@ impl VecVoid {
         fn push<T: 'static + Copy>(buf: &mut VecVoid, val: &[MaybeUninit<u8>]) {
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
+                let size = buf.elem.size;
+                debug_assert_eq!(val.len(), buf.elem.num_bytes());
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
+                    v.reserve(size);
                     // SAFETY: T here is one of the T# so it's copy. The
                     // following is effectively a move and doesn't rely on the
-                    // "actual" type being Copy.
-                    let val_t = *(val.as_ptr() as *const T);
-                    v.push(val_t);
+                    // "actual" type being Copy. An element may occupy several
+                    // alignment sized chunks, all of which must be moved.
+                    let len = v.len();
+                    std::ptr::copy_nonoverlapping(
+                        val.as_ptr() as *const T,
+                        v.as_mut_ptr().add(len),
+                        size,
+                    );
+                    v.set_len(len + size);
                 });
             }
         }
-- 
2.43.0


From 71fc138282409acaaff4f49d1047bb405ee5b4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:45 +0000
Subject: [PATCH 02/28] fix: keep the capacity a whole number of elements when
 growing

Growth was left to Vec::reserve in units of alignment chunks. Vec rounds small
capacities up (to 8 bytes, or 4 items), which is not a multiple of the element
size for e.g. 3 byte elements, so growing a container with a small capacity
panicked in from_vec_override.
---
 src/vec_void.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index eefadfb..1d8d189 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -210,6 +210,22 @@ impl VecVoid {
         eval_align!(self.elem.alignment; clear::<_>(self));
     }
 
+    /// Make room for `additional` more elements of `size` chunks each.
+    ///
+    /// In contrast to `Vec::reserve`, which is free to choose any capacity that is large enough,
+    /// this function grows the capacity only to whole numbers of elements, which is expected of a
+    /// `VecVoid`. As with `Vec::reserve` growth is amortized.
+    fn reserve_elements<T>(v: &mut Vec<T>, size: usize, additional: usize) {
+        let required = additional
+            .checked_mul(size)
+            .and_then(|additional| v.len().checked_add(additional))
+            .expect("capacity overflow");
+        if required > v.capacity() {
+            let cap = required.max(v.capacity().saturating_mul(2));
+            v.reserve_exact(cap - v.len());
+        }
+    }
+
     /// Reserve `additional` extra elements.
     #[inline]
     pub(crate) fn reserve(&mut self, additional: usize) {
@@ -218,7 +234,7 @@ impl VecVoid {
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    v.reserve(additional * size);
+                    VecVoid::reserve_elements(v, size, additional);
                 })
             };
         }
@@ -242,9 +258,12 @@ impl VecVoid {
     #[inline]
     pub(crate) fn append(&mut self, other: &mut VecVoid) {
         fn append<T: 'static>(buf: &mut VecVoid, other: &mut VecVoid) {
+            let size = buf.elem.size;
+            let additional = other.len;
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|target: &mut Vec<T>| {
+                    VecVoid::reserve_elements(target, size, additional);
                     other.apply_aligned_unchecked(|source: &mut Vec<T>| {
                         target.append(source);
                     });
@@ -268,7 +287,7 @@ impl VecVoid {
                 let size = buf.elem.size;
                 debug_assert_eq!(val.len(), buf.elem.num_bytes());
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    v.reserve(size);
+                    VecVoid::reserve_elements(v, size, 1);
                     // SAFETY: T here is one of the T# so it's copy. The
                     // following is effectively a move and doesn't rely on the
                     // "actual" type being Copy. An element may occupy several
@@ -308,6 +327,7 @@ impl VecVoid {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
                     // SAFETY: T here is one of the T# so it's copy.
                     let orig_len = v.len();
+                    VecVoid::reserve_elements(v, size, len.saturating_sub(orig_len / size));
                     v.resize_with(len * size, Default::default);
                     let byte_slice = std::slice::from_raw_parts_mut(
                         (&mut v[orig_len..]).as_mut_ptr() as *mut MaybeUninit<u8>,
-- 
2.43.0


From c20b16467b2264abdccd70a724e5bb2dcae16585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:14 +0000
Subject: [PATCH 03/28] fix: keep containers valid when an operation panics
 half way

apply_aligned_unchecked left an empty Vec<()> behind when the given function
panicked (a rotation out of range, or a panicking Clone in push_cloned), leaking
the contents and leaving the container with the wrong element type. The new
element of push_cloned is now added only after it is initialized.
---
 src/vec_void.rs | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index 1d8d189..ec86d95 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -175,12 +175,34 @@ impl VecVoid {
         &mut self,
         f: impl FnOnce(&mut Vec<T>) -> U,
     ) -> U {
+        /// Puts the (possibly reallocated) `Vec` back even if the given function panics.
+        struct Restore<'a, T: 'static> {
+            buf: &'a mut VecVoid,
+            vec: ManuallyDrop<Vec<T>>,
+            orig_elem: ElemInfo,
+        }
+
+        impl<'a, T: 'static> Drop for Restore<'a, T> {
+            fn drop(&mut self) {
+                unsafe {
+                    let vec = ManuallyDrop::take(&mut self.vec);
+                    // Returned default VecVoid value can be safely ignored
+                    let _ = std::mem::replace(
+                        self.buf,
+                        VecVoid::from_vec_override(vec, self.orig_elem),
+                    );
+                }
+            }
+        }
+
         let orig_elem = self.elem;
-        let mut v = std::mem::take(self).into_aligned_vec_unchecked::<T>();
-        let out = f(&mut v); // May allocate/deallocate
-                             // Returned default VecVoid value can be safely ignored
-        let _ = std::mem::replace(self, VecVoid::from_vec_override(v, orig_elem));
-        out
+        let vec = ManuallyDrop::new(std::mem::take(self).into_aligned_vec_unchecked::<T>());
+        let mut restore = Restore {
+            buf: self,
+            vec,
+            orig_elem,
+        };
+        f(&mut restore.vec) // May allocate/deallocate
     }
 
     /// Apply a function to this vector as if it was a `Vec<T>` where `T` is
@@ -329,11 +351,14 @@ impl VecVoid {
                     let orig_len = v.len();
                     VecVoid::reserve_elements(v, size, len.saturating_sub(orig_len / size));
                     v.resize_with(len * size, Default::default);
+                    // The new element becomes part of the vector only once it is initialized.
+                    v.set_len(orig_len);
                     let byte_slice = std::slice::from_raw_parts_mut(
-                        (&mut v[orig_len..]).as_mut_ptr() as *mut MaybeUninit<u8>,
+                        v.as_mut_ptr().add(orig_len) as *mut MaybeUninit<u8>,
                         num_bytes,
                     );
                     init(byte_slice);
+                    v.set_len(len * size);
                 });
             }
         }
-- 
2.43.0


From d02da372f271c244d755a7e1c10742b4b049b347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:58 +0000
Subject: [PATCH 04/28] fix: release the box of a pushed BoxValue with its own
 alignment

VecDyn::push dropped the box as a slice of bytes, deallocating it with alignment
1 although it was allocated with the alignment of the element type.
---
 src/vec_dyn.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index d0cc0e2..0c3b39d 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -432,8 +432,11 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
         if value.value_type_id() == self.element_type_id() {
             // Prevent the value from being dropped at the end of this scope since it will be later
             // dropped by this container. The remaining fields like vtable will be dropped here.
-            let (bytes, _, _, _) = value.into_raw_parts();
+            let (bytes, _, alignment, _) = value.into_raw_parts();
             self.data.data.push(&*bytes);
+            // The box was allocated for a type with the given alignment, and it must be released
+            // as such.
+            ManuallyDrop::new(bytes).drop_as_aligned(alignment);
             Some(self)
         } else {
             None
-- 
2.43.0


From 65342de242e338d7892556cc2c9dbff17df67460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:04 +0000
Subject: [PATCH 05/28] fix: drop the elements when VecDyn::into_vec is given
 the wrong type

---
 src/vec_dyn.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index 0c3b39d..57afeca 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -349,6 +349,8 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
     /// This function helps the compiler determine the type `T` automatically.
     #[inline]
     pub fn into_vec<T: Elem>(self) -> Option<Vec<T>> {
+        // On mismatch self is dropped together with its elements.
+        self.data.check_ref::<T>()?;
         // This is safe because self.data will not be used after this call, and the resulting
         // Vec<T> will drop all elements correctly.
         unsafe {
-- 
2.43.0


From 58a0d2b92f8feed44ccc0e549b72c0c80f9a2e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:10 +0000
Subject: [PATCH 06/28] fix: drop the contents of a value when it is downcast
 to the wrong type

---
 src/value.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index b527308..8664050 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -367,15 +367,15 @@ impl<V: ?Sized + HasDrop> Value<Box<[MaybeUninit<u8>]>, V> {
     /// Downcast this value reference into a boxed `T` type. Return `None` if the downcast fails.
     #[inline]
     pub fn downcast<T: 'static>(self) -> Option<Box<T>> {
+        if !self.is::<T>() {
+            // The contents are not handed out, so they are dropped along with self.
+            return None;
+        }
         // Override the Drop implementation, since we don't actually want to drop the contents
         // here, just the vtable.
         let mut s = ManuallyDrop::new(self);
-        let output = if s.is::<T>() {
-            // This is safe since we check that self.bytes represents a `T`.
-            Some(unsafe { Bytes::box_from_box_bytes(ManuallyDrop::take(&mut s.bytes)) })
-        } else {
-            None
-        };
+        // This is safe since we checked that self.bytes represents a `T`.
+        let output = Some(unsafe { Bytes::box_from_box_bytes(ManuallyDrop::take(&mut s.bytes)) });
         // We are done with self, dropping the remaining fields here to avoid memory leaks.
         // This is safe since `s` will not be used again.
         unsafe {
@@ -390,15 +390,15 @@ impl<V: ?Sized + HasDrop> Value<MaybeUninit<usize>, V> {
     /// Downcast this value reference into a boxed `T` type. Return `None` if the downcast fails.
     #[inline]
     pub fn downcast<T: 'static>(self) -> Option<T> {
+        if !self.is::<T>() {
+            // The contents are not handed out, so they are dropped along with self.
+            return None;
+        }
         // Override the Drop implementation, since we don't actually want to drop the contents
         // here, just the vtable.
         let mut s = ManuallyDrop::new(self);
-        // This is safe since we check that self.bytes represent a `T`.
-        let output = if s.is::<T>() {
-            unsafe { Bytes::try_from_usize(ManuallyDrop::take(&mut s.bytes)) }
-        } else {
-            None
-        };
+        // This is safe since we checked that self.bytes represent a `T`.
+        let output = unsafe { Bytes::try_from_usize(ManuallyDrop::take(&mut s.bytes)) };
         // We are done with self, dropping the remaining fields here to avoid memory leaks.
         // This is safe since `s` will not be used again.
         unsafe {
-- 
2.43.0


From 46c778794223782bc159844827bd5714bc7d7e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 07/28] fix: drop a value that doesn't fit into a SmallValue

---
 src/value.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index 8664050..2764155 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -114,9 +114,11 @@ impl<V: HasDrop> SmallValue<V> {
     where
         V: VTable<T>,
     {
+        // A value which doesn't fit is dropped here.
+        let usized_value = value.try_into_usize()?;
         // Prevent drop of value when it goes out of scope.
-        let val = ManuallyDrop::new(value);
-        val.try_into_usize().map(|usized_value| Value {
+        let _ = ManuallyDrop::new(value);
+        Some(Value {
             bytes: ManuallyDrop::new(usized_value),
             type_id: TypeId::of::<T>(),
             alignment: std::mem::align_of::<T>(),
-- 
2.43.0


From de4015c7f23049284f2e1400d4b898ac4df6690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:53 +0000
Subject: [PATCH 08/28] fix: containers and slices of different lengths are not
 equal

PartialEq compared only the common prefix.
---
 src/slice.rs   | 18 +++++++++++-------
 src/vec_dyn.rs |  8 +++++---
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/slice.rs b/src/slice.rs
index bffca3a..8a2445b 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -30,9 +30,11 @@ pub type SliceDrop<'a> = Slice<'a, DropVTable>;
 
 impl<'a, V: ?Sized + HasDrop + HasPartialEq> PartialEq for Slice<'a, V> {
     fn eq(&self, other: &Self) -> bool {
-        self.iter()
-            .zip(other.iter())
-            .all(|(this, that)| this == that)
+        self.len() == other.len()
+            && self
+                .iter()
+                .zip(other.iter())
+                .all(|(this, that)| this == that)
     }
 }
 
@@ -345,10 +347,12 @@ pub type SliceMutDrop<'a> = SliceMut<'a, DropVTable>;
 
 impl<'a, V: ?Sized + HasDrop + HasPartialEq> PartialEq for SliceMut<'a, V> {
     fn eq(&self, other: &Self) -> bool {
-        self.reborrow()
-            .iter()
-            .zip(other.reborrow().iter())
-            .all(|(this, that)| this == that)
+        self.len() == other.len()
+            && self
+                .reborrow()
+                .iter()
+                .zip(other.reborrow().iter())
+                .all(|(this, that)| this == that)
     }
 }
 
diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index 57afeca..ed792c3 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -123,9 +123,11 @@ impl<V: ?Sized + Clone + HasDrop + HasClone> Clone for VecDyn<V> {
 
 impl<V: ?Sized + HasDrop + HasPartialEq> PartialEq for VecDyn<V> {
     fn eq(&self, other: &Self) -> bool {
-        self.iter()
-            .zip(other.iter())
-            .all(|(this, that)| this == that)
+        self.len() == other.len()
+            && self
+                .iter()
+                .zip(other.iter())
+                .all(|(this, that)| this == that)
     }
 }
 
-- 
2.43.0


From fbc8b1cb1325e06dc18f5948410af7c4fcb478d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:36 +0000
Subject: [PATCH 09/28] fix: include the whole last element in subslices by
 inclusive ranges

Only the first byte of the last element was included.
---
 src/index_slice.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/index_slice.rs b/src/index_slice.rs
index 2e7b881..f0a34bb 100644
--- a/src/index_slice.rs
+++ b/src/index_slice.rs
@@ -43,14 +43,15 @@ impl ScaleRange for ops::RangeFull {
 impl ScaleRange for ops::RangeInclusive<usize> {
     #[inline]
     fn scale_range(self, scale: usize) -> Self {
-        self.start() * scale..=self.end() * scale
+        // The last byte of the last element is the one before the element that follows it.
+        self.start() * scale..=(self.end() + 1) * scale - 1
     }
 }
 
 impl ScaleRange for ops::RangeToInclusive<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.end *= scale;
+        self.end = (self.end + 1) * scale - 1;
         self
     }
 }
-- 
2.43.0


From c3350519e3b68493976386e1013175943567e6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:42 +0000
Subject: [PATCH 10/28] fix: check bounds in VecCopy::get_ref and get_mut in
 release builds

These safe functions read and wrote out of bounds without debug assertions.
---
 src/vec_copy.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vec_copy.rs b/src/vec_copy.rs
index 13b0615..0ce342c 100644
--- a/src/vec_copy.rs
+++ b/src/vec_copy.rs
@@ -567,7 +567,7 @@ impl<V: ?Sized> VecCopy<V> {
     /// Get a reference to a value stored in this container at index `i`.
     #[inline]
     pub fn get_ref(&self, i: usize) -> CopyValueRef<V> {
-        debug_assert!(i < self.len());
+        assert!(i < self.len());
         // This call is safe since our buffer guarantees that the given bytes have the
         // corresponding TypeId.
         let num_bytes = self.data.elem.num_bytes();
@@ -587,7 +587,7 @@ impl<V: ?Sized> VecCopy<V> {
     /// Get a mutable reference to a value stored in this container at index `i`.
     #[inline]
     pub fn get_mut(&mut self, i: usize) -> CopyValueMut<V> {
-        debug_assert!(i < self.len());
+        assert!(i < self.len());
         let num_bytes = self.data.elem.num_bytes();
         unsafe {
             CopyValueMut::from_raw_parts(
-- 
2.43.0


From dcf83d6639a290abc18dde6a1ad0f171e663a9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:59 +0000
Subject: [PATCH 11/28] fix: don't wrap around when converting indices to byte
 offsets

In release builds a huge index could wrap around to a byte offset inside the
data, giving access to bytes straddling elements instead of panicking.
---
 src/index_slice.rs | 22 ++++++++++++++++------
 src/lib.rs         | 12 +++++++++---
 src/slice_copy.rs  | 16 +++++++++-------
 src/vec_copy.rs    |  3 +--
 src/vec_void.rs    |  5 +++--
 5 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/src/index_slice.rs b/src/index_slice.rs
index f0a34bb..4047cc3 100644
--- a/src/index_slice.rs
+++ b/src/index_slice.rs
@@ -1,5 +1,15 @@
 use std::ops;
 
+/// Convert an index or a length in elements to one in units `scale` times smaller.
+///
+/// # Panics
+///
+/// Panics if the result overflows, which can't happen for any index that is in range.
+#[inline]
+pub(crate) fn scale_index(i: usize, scale: usize) -> usize {
+    i.checked_mul(scale).expect("index out of range")
+}
+
 /// A helper trait to scale a standard Rust range by a given scale.
 ///
 /// This allows us to use all of Rust's range types for indexing out `Slice`s.
@@ -10,8 +20,8 @@ pub trait ScaleRange {
 impl ScaleRange for ops::Range<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.start *= scale;
-        self.end *= scale;
+        self.start = scale_index(self.start, scale);
+        self.end = scale_index(self.end, scale);
         self
     }
 }
@@ -19,7 +29,7 @@ impl ScaleRange for ops::Range<usize> {
 impl ScaleRange for ops::RangeTo<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.end *= scale;
+        self.end = scale_index(self.end, scale);
         self
     }
 }
@@ -27,7 +37,7 @@ impl ScaleRange for ops::RangeTo<usize> {
 impl ScaleRange for ops::RangeFrom<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.start *= scale;
+        self.start = scale_index(self.start, scale);
         self
     }
 }
@@ -44,14 +54,14 @@ impl ScaleRange for ops::RangeInclusive<usize> {
     #[inline]
     fn scale_range(self, scale: usize) -> Self {
         // The last byte of the last element is the one before the element that follows it.
-        self.start() * scale..=(self.end() + 1) * scale - 1
+        scale_index(*self.start(), scale)..=scale_index(self.end().saturating_add(1), scale) - 1
     }
 }
 
 impl ScaleRange for ops::RangeToInclusive<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.end = (self.end + 1) * scale - 1;
+        self.end = scale_index(self.end.saturating_add(1), scale) - 1;
         self
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 1c52faa..78c374e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -195,7 +195,9 @@ pub(crate) trait ElementBytes {
     /// Get a range of byte indices representing the given element index.
     #[inline]
     fn index_byte_range(&self, i: usize) -> std::ops::Range<usize> {
-        i * self.element_size()..(i + 1) * self.element_size()
+        let size = self.element_size();
+        let start = index_slice::scale_index(i, size);
+        start..start.checked_add(size).expect("index out of range")
     }
 
     /// Index into an immutable slice of bytes.
@@ -232,13 +234,17 @@ pub(crate) trait ElementBytesMut: ElementBytes {
             let l_rng = self.index_byte_range(i);
             // SAFETY: it is safe to swap aligned data since we have unique access.
             unsafe {
-                let (l, r) = self.bytes_mut().split_at_mut(element_size * j);
+                let (l, r) = self
+                    .bytes_mut()
+                    .split_at_mut(index_slice::scale_index(j, element_size));
                 l[l_rng].swap_with_slice(&mut r[r_rng])
             }
         } else {
             let l_rng = self.index_byte_range(j);
             unsafe {
-                let (l, r) = self.bytes_mut().split_at_mut(element_size * i);
+                let (l, r) = self
+                    .bytes_mut()
+                    .split_at_mut(index_slice::scale_index(i, element_size));
                 l[l_rng].swap_with_slice(&mut r[r_rng])
             }
         }
diff --git a/src/slice_copy.rs b/src/slice_copy.rs
index 7e0cc62..9803d48 100644
--- a/src/slice_copy.rs
+++ b/src/slice_copy.rs
@@ -279,7 +279,7 @@ impl<'a, V: ?Sized> SliceCopy<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact(elem.num_bytes() * chunk_size)
+        data.chunks_exact(scale_index(chunk_size, elem.num_bytes()))
             .map(move |data| unsafe { SliceCopy::from_raw_parts(data, elem, vtable.as_ref()) })
     }
 
@@ -290,7 +290,7 @@ impl<'a, V: ?Sized> SliceCopy<'a, V> {
             ref vtable,
         } = self;
         unsafe {
-            let (l, r) = data.split_at(mid * elem.num_bytes());
+            let (l, r) = data.split_at(scale_index(mid, elem.num_bytes()));
             (
                 SliceCopy::from_raw_parts(l, elem, vtable.as_ref()),
                 SliceCopy::from_raw_parts(r, elem, vtable.as_ref()),
@@ -624,7 +624,8 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
     /// ```
     #[inline]
     pub fn rotate_left(&mut self, mid: usize) {
-        self.data.rotate_left(mid * self.element_size());
+        let mid = scale_index(mid, self.element_size());
+        self.data.rotate_left(mid);
     }
 
     /// Rotates the slice in-place such that the first `self.len() - k` elements of the slice move
@@ -642,7 +643,8 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
     /// ```
     #[inline]
     pub fn rotate_right(&mut self, k: usize) {
-        self.data.rotate_right(k * self.element_size());
+        let k = scale_index(k, self.element_size());
+        self.data.rotate_right(k);
     }
 
     /*
@@ -687,7 +689,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact(elem.num_bytes() * chunk_size)
+        data.chunks_exact(scale_index(chunk_size, elem.num_bytes()))
             .map(move |data| unsafe { SliceCopy::from_raw_parts(data, elem, vtable.as_ref()) })
     }
 
@@ -698,7 +700,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact_mut(elem.num_bytes() * chunk_size)
+        data.chunks_exact_mut(scale_index(chunk_size, elem.num_bytes()))
             .map(move |data| unsafe { SliceCopyMut::from_raw_parts(data, elem, vtable.as_ref()) })
     }
 
@@ -709,7 +711,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             ref vtable,
         } = self;
         unsafe {
-            let (l, r) = data.split_at_mut(mid * elem.num_bytes());
+            let (l, r) = data.split_at_mut(scale_index(mid, elem.num_bytes()));
             (
                 SliceCopyMut::from_raw_parts(l, elem, vtable.as_ref()),
                 SliceCopyMut::from_raw_parts(r, elem, vtable.as_ref()),
diff --git a/src/vec_copy.rs b/src/vec_copy.rs
index 0ce342c..f517316 100644
--- a/src/vec_copy.rs
+++ b/src/vec_copy.rs
@@ -870,8 +870,7 @@ impl VecVoid {
     #[inline]
     pub fn get_bytes(&self, i: usize) -> &[MaybeUninit<u8>] {
         debug_assert!(i < self.len());
-        let element_size = self.element_size();
-        &self.bytes()[i * element_size..(i + 1) * element_size]
+        self.index_byte_slice(i)
     }
 
     /// Get a mutable reference to the byte slice of the `i`'th element of the buffer.
diff --git a/src/vec_void.rs b/src/vec_void.rs
index ec86d95..58b0fac 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -4,6 +4,7 @@
 use std::mem::{align_of, size_of, ManuallyDrop, MaybeUninit};
 
 use crate::elem::*;
+use crate::index_slice::scale_index;
 
 /// A decomposition of a `Vec` into a void pointer, a length and a capacity.
 ///
@@ -373,7 +374,7 @@ impl VecVoid {
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    v.rotate_left(n * size);
+                    v.rotate_left(scale_index(n, size));
                 });
             }
         }
@@ -388,7 +389,7 @@ impl VecVoid {
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    v.rotate_right(n * size);
+                    v.rotate_right(scale_index(n, size));
                 });
             }
         }
-- 
2.43.0


From 7064524ee0c59d059c4f03d280df88ab7b76ae59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:36 +0000
Subject: [PATCH 12/28] fix: don't drop elements twice when a Drop panics in
 VecDyn

clear and a shrinking resize kept the already dropped elements in the vector if
one of them panicked, dropping them again later. Dropping a VecDyn leaked the
remaining elements and the storage in that case. Now this is handled as it is by
Vec.
---
 src/vec_dyn.rs | 65 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 21 deletions(-)

diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index ed792c3..79f4a24 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -49,7 +49,7 @@
 use std::{
     any::{Any, TypeId},
     fmt,
-    mem::ManuallyDrop,
+    mem::{ManuallyDrop, MaybeUninit},
     slice,
 };
 
@@ -81,20 +81,51 @@ where
 
 pub type VecDrop = VecDyn<DropVTable>;
 
+/// Shorten the given vector to `new_len` elements dropping the excess elements.
+///
+/// As with `Vec::truncate`, the dropped elements are no longer part of the vector by the time they
+/// are dropped, and if dropping one of them panics, the remaining ones are still dropped.
+///
+/// # Safety
+///
+/// `new_len` must not exceed the length of the vector, and `drop_fn` must correspond to the type
+/// of the elements.
+unsafe fn drop_elements_from(data: &mut VecVoid, new_len: usize, drop_fn: &DropFn) {
+    struct DropRest<'a>(slice::ChunksExactMut<'a, MaybeUninit<u8>>, &'a DropFn);
+    impl<'a> DropRest<'a> {
+        fn drop_rest(&mut self) {
+            for elem_bytes in &mut self.0 {
+                unsafe { (self.1)(elem_bytes) };
+            }
+        }
+    }
+    impl<'a> Drop for DropRest<'a> {
+        fn drop(&mut self) {
+            self.drop_rest();
+        }
+    }
+
+    let size = data.element_size();
+    let num_bytes = (data.len - new_len) * size;
+    let ptr = (data.ptr as *mut MaybeUninit<u8>).add(new_len * size);
+    data.len = new_len;
+    let excess = slice::from_raw_parts_mut(ptr, num_bytes);
+    DropRest(excess.chunks_exact_mut(size), drop_fn).drop_rest();
+}
+
 impl<V: ?Sized + HasDrop> Drop for VecDyn<V> {
     fn drop(&mut self) {
-        unsafe {
-            {
-                // Drop the contents using the associated drop function
-                let VecCopy { data, vtable, .. } = &mut *self.data;
-                for elem_bytes in data.byte_chunks_mut() {
-                    vtable.drop_fn()(elem_bytes);
-                }
+        /// Frees the storage even if dropping the contents panics.
+        struct FreeData<'a, V: ?Sized + HasDrop>(&'a mut VecDyn<V>);
+        impl<'a, V: ?Sized + HasDrop> Drop for FreeData<'a, V> {
+            fn drop(&mut self) {
+                // Drop the vec itself
+                unsafe { ManuallyDrop::drop(&mut self.0.data) };
             }
-
-            // Drop the vec itself
-            ManuallyDrop::drop(&mut self.data);
         }
+
+        // Drop the contents using the associated drop function
+        FreeData(self).0.clear();
     }
 }
 
@@ -261,10 +292,7 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
         // Drop all elements manually.
         unsafe {
             let VecCopy { data, vtable, .. } = &mut *self.data;
-            for elem_bytes in data.byte_chunks_mut() {
-                vtable.drop_fn()(elem_bytes);
-            }
-            data.clear();
+            drop_elements_from(data, 0, vtable.drop_fn());
         }
     }
 
@@ -692,13 +720,8 @@ impl<V: ?Sized + HasDrop + HasClone> VecDyn<V> {
             // Drop trailing elements manually.
             unsafe {
                 let VecCopy { data, vtable, .. } = &mut *self.data;
-                for elem_bytes in data.byte_chunks_mut().skip(new_len) {
-                    vtable.drop_fn()(elem_bytes);
-                }
+                drop_elements_from(data, new_len, vtable.drop_fn());
             }
-
-            // Truncate data
-            self.data.data.truncate(new_len);
         }
         Some(self)
     }
-- 
2.43.0


From 73c43b3438c19a7012f53169c3676c800c981aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:06 +0000
Subject: [PATCH 13/28] fix: don't leak clones when cloning a VecDyn panics

---
 src/vec_dyn.rs | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index 79f4a24..3f70941 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -131,19 +131,32 @@ impl<V: ?Sized + HasDrop> Drop for VecDyn<V> {
 
 impl<V: ?Sized + Clone + HasDrop + HasClone> Clone for VecDyn<V> {
     fn clone(&self) -> Self {
+        /// Drops the clones made so far if making one of them panics.
+        struct DropClones<'a>(&'a mut VecVoid, &'a DropFn);
+        impl<'a> Drop for DropClones<'a> {
+            fn drop(&mut self) {
+                unsafe { drop_elements_from(self.0, 0, self.1) };
+            }
+        }
+
         let data_clone = |vec_void: &VecVoid| {
             let mut new_data = vec_void.clone();
-            unsafe {
-                vec_void
-                    .byte_chunks()
-                    .zip(new_data.byte_chunks_mut())
-                    .for_each(|(src, dst)| {
-                        // This is safe since `clone_into_raw_fn` ensures that the
-                        // bytes in dst are not dropped before cloning, which is essential, since they
-                        // are just copied by the `.to_vec()` call above.
-                        self.data.vtable.clone_into_raw_fn()(src, dst)
-                    });
+            // The bytes copied above do not count as elements until they are properly cloned.
+            new_data.len = 0;
+            let vtable = &self.data.vtable;
+            let clones = DropClones(&mut new_data, vtable.drop_fn());
+            let size = vec_void.element_size();
+            for (i, src) in vec_void.byte_chunks().enumerate() {
+                unsafe {
+                    let ptr = (clones.0.ptr as *mut MaybeUninit<u8>).add(i * size);
+                    // This is safe since `clone_into_raw_fn` ensures that the
+                    // bytes in dst are not dropped before cloning, which is essential, since they
+                    // are just copied by the `clone` call above.
+                    vtable.clone_into_raw_fn()(src, slice::from_raw_parts_mut(ptr, size));
+                }
+                clones.0.len = i + 1;
             }
+            std::mem::forget(clones);
             new_data
         };
         VecDyn {
-- 
2.43.0


From a9363584faf4fd7807396bb3756a274ed82a1c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:13 +0000
Subject: [PATCH 14/28] fix: don't leak the storage of a value when its Drop
 panics

---
 src/value.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index 2764155..de7311b 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -325,13 +325,26 @@ impl<V: ?Sized + Clone + HasClone + HasDrop> Clone for Value<Box<[MaybeUninit<u8
 impl<B: GetBytesMut + DropAsAligned, V: ?Sized + HasDrop> Drop for Value<B, V> {
     #[inline]
     fn drop(&mut self) {
-        unsafe {
-            // SAFETY: Self will never be used after this call.
-            self.vtable.drop_fn()(self.bytes.get_bytes_mut());
+        /// Releases everything but the contents, even if dropping the contents panics.
+        struct Release<'a, B: GetBytesMut + DropAsAligned, V: ?Sized + HasDrop>(
+            &'a mut Value<B, V>,
+        );
+        impl<'a, B: GetBytesMut + DropAsAligned, V: ?Sized + HasDrop> Drop for Release<'a, B, V> {
+            #[inline]
+            fn drop(&mut self) {
+                // Manually drop what we promised.
+                self.0.bytes.drop_as_aligned(self.0.alignment);
+                // SAFETY: The value will never be used after this call.
+                unsafe {
+                    ManuallyDrop::drop(&mut self.0.vtable);
+                }
+            }
+        }
 
-            // Manually drop what we promised.
-            self.bytes.drop_as_aligned(self.alignment);
-            ManuallyDrop::drop(&mut self.vtable);
+        let release = Release(self);
+        // SAFETY: Self will never be used after this call.
+        unsafe {
+            release.0.vtable.drop_fn()(release.0.bytes.get_bytes_mut());
         }
     }
 }
-- 
2.43.0


From 88efe0743db097e763affb30fb91763b83613bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 15/28] fix: tie the lifetime of untyped slices to the slices
 they are made from

Slice::from_slice and SliceCopy::from_slice let the result outlive the borrow of
the given slice.
---
 src/slice.rs      | 2 +-
 src/slice_copy.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/slice.rs b/src/slice.rs
index 8a2445b..e731f95 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -47,7 +47,7 @@ impl<'a, V: ?Sized + HasDrop + HasDebug> fmt::Debug for Slice<'a, V> {
 impl<'a, V: HasDrop> Slice<'a, V> {
     /// Construct a `Slice` from a given typed slice by reusing the provided memory.
     #[inline]
-    pub fn from_slice<T: Elem>(slice: &[T]) -> Self
+    pub fn from_slice<T: Elem>(slice: &'a [T]) -> Self
     where
         V: VTable<T>,
     {
diff --git a/src/slice_copy.rs b/src/slice_copy.rs
index 9803d48..cfd02aa 100644
--- a/src/slice_copy.rs
+++ b/src/slice_copy.rs
@@ -29,7 +29,7 @@ where
 impl<'a, V> SliceCopy<'a, V> {
     /// Construct a `SliceCopy` from a given typed slice by reusing the provided memory.
     #[inline]
-    pub fn from_slice<T: CopyElem>(slice: &[T]) -> Self
+    pub fn from_slice<T: CopyElem>(slice: &'a [T]) -> Self
     where
         V: VTable<T>,
     {
@@ -39,7 +39,7 @@ impl<'a, V> SliceCopy<'a, V> {
 
     /// It is unsafe to call this for `T` that is not `Copy`.
     #[inline]
-    pub(crate) unsafe fn from_slice_non_copy<T: Any>(slice: &[T]) -> Self
+    pub(crate) unsafe fn from_slice_non_copy<T: Any>(slice: &'a [T]) -> Self
     where
         V: VTable<T>,
     {
-- 
2.43.0


From 7d1f7cdb691334019849890b117dc6604437c742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:35 +0000
Subject: [PATCH 16/28] fix: implement Eq only for containers and values of Eq
 types

Value was Eq given PartialEq only, and EqVTable could be built for types which
are not Eq.
---
 src/traits.rs | 2 +-
 src/value.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 79db2c4..c535f37 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -190,7 +190,7 @@ impl<T: DropBytes + PartialEqBytes> VTable<T> for PartialEqVTable {
     }
 }
 
-impl<T: DropBytes + PartialEqBytes> VTable<T> for EqVTable {
+impl<T: DropBytes + PartialEqBytes + Eq> VTable<T> for EqVTable {
     fn build_vtable() -> Self {
         EqVTable(T::drop_bytes, T::eq_bytes)
     }
diff --git a/src/value.rs b/src/value.rs
index de7311b..aa9d957 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -363,7 +363,7 @@ impl<B: GetBytesMut + DropAsAligned, V: ?Sized + HasDrop + HasPartialEq> Partial
     }
 }
 
-impl<B: GetBytesMut + DropAsAligned, V: ?Sized + HasDrop + HasPartialEq> Eq for Value<B, V> {}
+impl<B: GetBytesMut + DropAsAligned, V: ?Sized + HasDrop + HasEq> Eq for Value<B, V> {}
 
 impl<B: GetBytesMut + DropAsAligned, V: ?Sized + HasDrop + HasHash> Hash for Value<B, V> {
     #[inline]
-- 
2.43.0


From 058a827bed2d216d6da8d55fae769b9265a65750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:41 +0000
Subject: [PATCH 17/28] fix: require HasSync for sending shared references to
 another thread

ValueRef, CopyValueRef and Slice are shared references, so sending them to
another thread requires that the values can be shared, not that they can be
sent.
---
 src/slice.rs |  3 ++-
 src/value.rs | 13 +++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/slice.rs b/src/slice.rs
index e731f95..564b39e 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -329,7 +329,8 @@ where
     }
 }
 
-unsafe impl<'a, V: ?Sized + HasDrop + HasSend> Send for Slice<'a, V> {}
+// A shared slice can be sent only if its elements can be shared.
+unsafe impl<'a, V: ?Sized + HasDrop + HasSync> Send for Slice<'a, V> {}
 unsafe impl<'a, V: ?Sized + HasDrop + HasSync> Sync for Slice<'a, V> {}
 
 /*
diff --git a/src/value.rs b/src/value.rs
index aa9d957..22b104e 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -425,8 +425,8 @@ impl<V: ?Sized + HasDrop> Value<MaybeUninit<usize>, V> {
 }
 
 macro_rules! impl_value_ref_traits {
-    ($value_ref:ident : $($maybe_drop:ident)*) => {
-        unsafe impl<'a, V: ?Sized + HasSend $( + $maybe_drop)*> Send for $value_ref<'a, V> {}
+    ($value_ref:ident, $send:ident : $($maybe_drop:ident)*) => {
+        unsafe impl<'a, V: ?Sized + $send $( + $maybe_drop)*> Send for $value_ref<'a, V> {}
         unsafe impl<'a, V: ?Sized + HasSync $( + $maybe_drop)*> Sync for $value_ref<'a, V> {}
 
         impl<'a, V: ?Sized + HasHash $( + $maybe_drop)*> Hash for $value_ref<'a, V> {
@@ -463,8 +463,9 @@ macro_rules! impl_value_ref_traits {
 }
 
 // Impl value ref traits for CopyValue types.
-impl_value_ref_traits!(CopyValueMut:);
-impl_value_ref_traits!(CopyValueRef:);
+impl_value_ref_traits!(CopyValueMut, HasSend:);
+// A shared reference can be sent only if the value can be shared.
+impl_value_ref_traits!(CopyValueRef, HasSync:);
 
 /// A generic value reference into a buffer.
 #[derive(Clone)]
@@ -478,7 +479,7 @@ where
     pub(crate) vtable: VTableRef<'a, V>,
 }
 
-impl_value_ref_traits!(ValueRef: HasDrop);
+impl_value_ref_traits!(ValueRef, HasSync: HasDrop);
 
 impl<'a, V: HasDrop> ValueRef<'a, V> {
     /// Create a new `ValueRef` from a typed reference.
@@ -638,7 +639,7 @@ where
     pub(crate) vtable: VTableRef<'a, V>,
 }
 
-impl_value_ref_traits!(ValueMut: HasDrop);
+impl_value_ref_traits!(ValueMut, HasSend: HasDrop);
 
 impl<'a, V: HasDrop> ValueMut<'a, V> {
     /// Create a new `ValueRef` from a typed reference.
-- 
2.43.0


From cf720e83b0127e30fb9755fbd7afd88041ff58d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 18/28] fix: build the Send and Sync tables only for types with
 that marker, and let them promise it

---
 src/traits.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index c535f37..773e516 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -202,13 +202,13 @@ impl<T: DropBytes + HashBytes> VTable<T> for HashVTable {
     }
 }
 
-impl<T: DropBytes> VTable<T> for SendVTable {
+impl<T: DropBytes + Send> VTable<T> for SendVTable {
     fn build_vtable() -> Self {
         SendVTable(T::drop_bytes)
     }
 }
 
-impl<T: DropBytes> VTable<T> for SyncVTable {
+impl<T: DropBytes + Sync> VTable<T> for SyncVTable {
     fn build_vtable() -> Self {
         SyncVTable(T::drop_bytes)
     }
@@ -275,6 +275,10 @@ impl HasPartialEq for EqVTable {
 
 impl HasEq for EqVTable {}
 
+unsafe impl HasSend for SendVTable {}
+
+unsafe impl HasSync for SyncVTable {}
+
 impl HasDebug for DebugVTable {
     fn fmt_fn(&self) -> &FmtFn {
         &self.1
-- 
2.43.0


From f70b1aeb3ea82b58a79adde85bcf3f9ba8f1dcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:50 +0000
Subject: [PATCH 19/28] fix: treat an exhausted inclusive range as empty when
 subslicing

---
 src/index_slice.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/index_slice.rs b/src/index_slice.rs
index 4047cc3..57476dd 100644
--- a/src/index_slice.rs
+++ b/src/index_slice.rs
@@ -53,8 +53,12 @@ impl ScaleRange for ops::RangeFull {
 impl ScaleRange for ops::RangeInclusive<usize> {
     #[inline]
     fn scale_range(self, scale: usize) -> Self {
+        let end = self.end().saturating_add(1);
+        // A range that has been iterated to its end selects nothing, like any other slice index.
+        let exhausted = self.is_empty() && self.start() <= self.end();
+        let start = if exhausted { end } else { *self.start() };
         // The last byte of the last element is the one before the element that follows it.
-        scale_index(*self.start(), scale)..=scale_index(self.end().saturating_add(1), scale) - 1
+        scale_index(start, scale)..=scale_index(end, scale) - 1
     }
 }
 
-- 
2.43.0


From 742838b443b5b6d93118f4c8528e68e7c0b433d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:40 +0000
Subject: [PATCH 20/28] fix: containers and slices of different element types
 are not equal

Two empty ones compared equal, although one can't stand for the other.
---
 src/slice.rs   | 6 ++++--
 src/vec_dyn.rs | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/slice.rs b/src/slice.rs
index 564b39e..6e0ba3d 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -30,7 +30,8 @@ pub type SliceDrop<'a> = Slice<'a, DropVTable>;
 
 impl<'a, V: ?Sized + HasDrop + HasPartialEq> PartialEq for Slice<'a, V> {
     fn eq(&self, other: &Self) -> bool {
-        self.len() == other.len()
+        self.element_type_id() == other.element_type_id()
+            && self.len() == other.len()
             && self
                 .iter()
                 .zip(other.iter())
@@ -348,7 +349,8 @@ pub type SliceMutDrop<'a> = SliceMut<'a, DropVTable>;
 
 impl<'a, V: ?Sized + HasDrop + HasPartialEq> PartialEq for SliceMut<'a, V> {
     fn eq(&self, other: &Self) -> bool {
-        self.len() == other.len()
+        self.element_type_id() == other.element_type_id()
+            && self.len() == other.len()
             && self
                 .reborrow()
                 .iter()
diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index 3f70941..2e6bfb3 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -167,7 +167,8 @@ impl<V: ?Sized + Clone + HasDrop + HasClone> Clone for VecDyn<V> {
 
 impl<V: ?Sized + HasDrop + HasPartialEq> PartialEq for VecDyn<V> {
     fn eq(&self, other: &Self) -> bool {
-        self.len() == other.len()
+        self.element_type_id() == other.element_type_id()
+            && self.len() == other.len()
             && self
                 .iter()
                 .zip(other.iter())
-- 
2.43.0


From 0dd985e33fb9ed5e90dd9260a4b187f2bac2c147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:26 +0000
Subject: [PATCH 21/28] fix: let chunks_exact yield nothing for chunks of any
 size larger than the slice

---
 src/slice_copy.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/slice_copy.rs b/src/slice_copy.rs
index cfd02aa..b5307f7 100644
--- a/src/slice_copy.rs
+++ b/src/slice_copy.rs
@@ -279,7 +279,8 @@ impl<'a, V: ?Sized> SliceCopy<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact(scale_index(chunk_size, elem.num_bytes()))
+        // A chunk too large to be measured in bytes fits into no slice, so saturating is enough.
+        data.chunks_exact(chunk_size.saturating_mul(elem.num_bytes()))
             .map(move |data| unsafe { SliceCopy::from_raw_parts(data, elem, vtable.as_ref()) })
     }
 
@@ -689,7 +690,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact(scale_index(chunk_size, elem.num_bytes()))
+        data.chunks_exact(chunk_size.saturating_mul(elem.num_bytes()))
             .map(move |data| unsafe { SliceCopy::from_raw_parts(data, elem, vtable.as_ref()) })
     }
 
@@ -700,7 +701,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact_mut(scale_index(chunk_size, elem.num_bytes()))
+        data.chunks_exact_mut(chunk_size.saturating_mul(elem.num_bytes()))
             .map(move |data| unsafe { SliceCopyMut::from_raw_parts(data, elem, vtable.as_ref()) })
     }
 
-- 
2.43.0


From 268ee9b319de4b8430acc4283093caa3ee0c54db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:54 +0000
Subject: [PATCH 22/28] fix: SliceCopy and SliceCopyMut are Send and Sync only
 if their table promises it

---
 src/slice_copy.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/slice_copy.rs b/src/slice_copy.rs
index b5307f7..f24e052 100644
--- a/src/slice_copy.rs
+++ b/src/slice_copy.rs
@@ -7,6 +7,8 @@ use std::{
 use crate::copy_value::*;
 use crate::elem::ElemInfo;
 use crate::index_slice::*;
+#[cfg(feature = "traits")]
+use crate::traits::{HasSend, HasSync};
 use crate::vtable::*;
 use crate::CopyElem;
 use crate::{ElementBytes, ElementBytesMut};
@@ -376,6 +378,12 @@ where
     }
 }
 
+// A shared slice can be sent only if its elements can be shared.
+#[cfg(feature = "traits")]
+unsafe impl<'a, V: ?Sized + HasSync> Send for SliceCopy<'a, V> {}
+#[cfg(feature = "traits")]
+unsafe impl<'a, V: ?Sized + HasSync> Sync for SliceCopy<'a, V> {}
+
 /*
  * Mutable Slice
  */
@@ -827,6 +835,11 @@ where
     }
 }
 
+#[cfg(feature = "traits")]
+unsafe impl<'a, V: ?Sized + HasSend> Send for SliceCopyMut<'a, V> {}
+#[cfg(feature = "traits")]
+unsafe impl<'a, V: ?Sized + HasSync> Sync for SliceCopyMut<'a, V> {}
+
 impl<'a, V: ?Sized> From<SliceCopyMut<'a, V>> for SliceCopy<'a, V> {
     #[inline]
     fn from(s: SliceCopyMut<'a, V>) -> SliceCopy<'a, V> {
-- 
2.43.0


From 4fd816d7dd1e9e76b1c4b0a8c3b05ed4fb626f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:33 +0000
Subject: [PATCH 23/28] fix: tables promise Eq, Send and Sync only for types
 that implement std's traits

---
 dync-derive/src/lib.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/dync-derive/src/lib.rs b/dync-derive/src/lib.rs
index dc373ad..5ecf8d2 100644
--- a/dync-derive/src/lib.rs
+++ b/dync-derive/src/lib.rs
@@ -593,8 +593,22 @@ fn construct_dync_items(
         #crate_name_ident::downcast::impl_downcast!(#has_trait);
     });
     res.push(vtable_def);
+    // Markers have no functions whose instantiation would check that `T` implements the trait
+    // promised by the table, and the name given by the user may refer to another trait.
+    let markers = trait_data
+        .super_traits
+        .iter()
+        .filter_map(|super_trait_key| -> Option<Path> {
+            match super_trait_key {
+                Trait::Eq => Some(parse_quote! { ::std::cmp::Eq }),
+                Trait::Send => Some(parse_quote! { ::std::marker::Send }),
+                Trait::Sync => Some(parse_quote! { ::std::marker::Sync }),
+                _ => None,
+            }
+        });
+
     res.push(parse_quote! {
-        impl<T: #trait_name + 'static> #crate_name_ident::VTable<T> for #vtable_name {
+        impl<T: #trait_name #(+ #markers)* + 'static> #crate_name_ident::VTable<T> for #vtable_name {
             #[inline]
             fn build_vtable() -> #vtable_name {
                 #vtable_name(#vtable_constructor)
-- 
2.43.0


From ead1802e22479f6279077ababc589e39d50523e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:34 +0000
Subject: [PATCH 24/28] fix: dync_trait supports traits that declare Eq without
 PartialEq

---
 dync-derive/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dync-derive/src/lib.rs b/dync-derive/src/lib.rs
index 5ecf8d2..014224e 100644
--- a/dync-derive/src/lib.rs
+++ b/dync-derive/src/lib.rs
@@ -428,6 +428,8 @@ pub fn dync_trait(
 
     fill_trait_map_from_item_trait(&item_trait, &mut trait_map);
 
+    flatten_inheritance(&item_trait, &mut trait_map);
+
     fill_drop_for_inheritance(&mut trait_map);
 
     //fill_inherited_impls(&mut impls, &config, &trait_inheritance);
-- 
2.43.0


From 3dfae433d3cd9b228388ce8f5dd3e6b7c468a729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:52 +0000
Subject: [PATCH 25/28] fix: iterators over untyped elements are Send and Sync
 only if these are

---
 src/handles.rs    | 50 +++++++++++++++++++++++++++++++++++
 src/lib.rs        |  1 +
 src/slice.rs      | 31 +++++++++++++---------
 src/slice_copy.rs | 66 ++++++++++++++++++++++++++++++++++-------------
 src/vec_copy.rs   |  5 ++--
 src/vec_dyn.rs    |  5 ++--
 6 files changed, 124 insertions(+), 34 deletions(-)
 create mode 100644 src/handles.rs

diff --git a/src/handles.rs b/src/handles.rs
new file mode 100644
index 0000000..fc04a1b
--- /dev/null
+++ b/src/handles.rs
@@ -0,0 +1,50 @@
+use std::marker::PhantomData;
+
+/// An iterator over handles (references or slices) of untyped elements, which can be sent or shared
+/// between threads only if the handles can.
+///
+/// Such an iterator is typically made from plain bytes, which would otherwise make it `Send` and
+/// `Sync` regardless of what these bytes represent.
+pub(crate) struct Handles<I: Iterator> {
+    iter: I,
+    marker: PhantomData<I::Item>,
+}
+
+impl<I: Iterator> Handles<I> {
+    #[inline]
+    pub(crate) fn new(iter: I) -> Self {
+        Handles {
+            iter,
+            marker: PhantomData,
+        }
+    }
+}
+
+impl<I: Iterator> Iterator for Handles<I> {
+    type Item = I::Item;
+
+    #[inline]
+    fn next(&mut self) -> Option<I::Item> {
+        self.iter.next()
+    }
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter.size_hint()
+    }
+    #[inline]
+    fn count(self) -> usize {
+        self.iter.count()
+    }
+    #[inline]
+    fn last(self) -> Option<I::Item> {
+        self.iter.last()
+    }
+    #[inline]
+    fn nth(&mut self, n: usize) -> Option<I::Item> {
+        self.iter.nth(n)
+    }
+    #[inline]
+    fn fold<A, F: FnMut(A, I::Item) -> A>(self, init: A, f: F) -> A {
+        self.iter.fold(init, f)
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 78c374e..b9e10a3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -15,6 +15,7 @@ pub mod macros;
 
 #[macro_use]
 mod elem;
+mod handles;
 #[macro_use]
 mod copy_value;
 mod vtable;
diff --git a/src/slice.rs b/src/slice.rs
index 6e0ba3d..fad63da 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -6,6 +6,7 @@ use std::{
 };
 
 use crate::elem::ElemInfo;
+use crate::handles::Handles;
 use crate::index_slice::*;
 use crate::slice_copy::*;
 use crate::traits::*;
@@ -224,10 +225,12 @@ impl<'a, V: ?Sized + HasDrop> Slice<'a, V> {
         V: Clone,
     {
         let SliceCopy { data, elem, vtable } = self.data;
-        data.chunks_exact(elem.num_bytes())
-            .map(move |bytes| unsafe {
-                ValueRef::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.clone())
-            })
+        Handles::new(
+            data.chunks_exact(elem.num_bytes())
+                .map(move |bytes| unsafe {
+                    ValueRef::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.clone())
+                }),
+        )
     }
 
     #[inline]
@@ -577,10 +580,12 @@ impl<'a, V: ?Sized + HasDrop> SliceMut<'a, V> {
             elem,
             ref vtable,
         } = self.data;
-        data.chunks_exact_mut(elem.num_bytes())
-            .map(move |bytes| unsafe {
-                ValueMut::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.as_ref())
-            })
+        Handles::new(
+            data.chunks_exact_mut(elem.num_bytes())
+                .map(move |bytes| unsafe {
+                    ValueMut::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.as_ref())
+                }),
+        )
     }
 
     // TODO: Determine if we can instead implement IntoIterator or explain why not and silence the clippy warning.
@@ -590,10 +595,12 @@ impl<'a, V: ?Sized + HasDrop> SliceMut<'a, V> {
         V: Clone,
     {
         let SliceCopyMut { data, elem, vtable } = self.data;
-        data.chunks_exact_mut(elem.num_bytes())
-            .map(move |bytes| unsafe {
-                ValueMut::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.clone())
-            })
+        Handles::new(
+            data.chunks_exact_mut(elem.num_bytes())
+                .map(move |bytes| unsafe {
+                    ValueMut::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.clone())
+                }),
+        )
     }
 
     #[inline]
diff --git a/src/slice_copy.rs b/src/slice_copy.rs
index f24e052..d74abca 100644
--- a/src/slice_copy.rs
+++ b/src/slice_copy.rs
@@ -6,6 +6,7 @@ use std::{
 
 use crate::copy_value::*;
 use crate::elem::ElemInfo;
+use crate::handles::Handles;
 use crate::index_slice::*;
 #[cfg(feature = "traits")]
 use crate::traits::{HasSend, HasSync};
@@ -268,10 +269,17 @@ impl<'a, V: ?Sized> SliceCopy<'a, V> {
         V: Clone,
     {
         let SliceCopy { data, elem, vtable } = self;
-        data.chunks_exact(elem.num_bytes())
-            .map(move |bytes| unsafe {
-                CopyValueRef::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.clone())
-            })
+        Handles::new(
+            data.chunks_exact(elem.num_bytes())
+                .map(move |bytes| unsafe {
+                    CopyValueRef::from_raw_parts(
+                        bytes,
+                        elem.type_id,
+                        elem.alignment,
+                        vtable.clone(),
+                    )
+                }),
+        )
     }
 
     #[inline]
@@ -282,8 +290,10 @@ impl<'a, V: ?Sized> SliceCopy<'a, V> {
             ref vtable,
         } = self;
         // A chunk too large to be measured in bytes fits into no slice, so saturating is enough.
-        data.chunks_exact(chunk_size.saturating_mul(elem.num_bytes()))
-            .map(move |data| unsafe { SliceCopy::from_raw_parts(data, elem, vtable.as_ref()) })
+        Handles::new(
+            data.chunks_exact(chunk_size.saturating_mul(elem.num_bytes()))
+                .map(move |data| unsafe { SliceCopy::from_raw_parts(data, elem, vtable.as_ref()) }),
+        )
     }
 
     pub fn split_at(&self, mid: usize) -> (SliceCopy<V>, SliceCopy<V>) {
@@ -672,10 +682,17 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact_mut(elem.num_bytes())
-            .map(move |bytes| unsafe {
-                CopyValueMut::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.as_ref())
-            })
+        Handles::new(
+            data.chunks_exact_mut(elem.num_bytes())
+                .map(move |bytes| unsafe {
+                    CopyValueMut::from_raw_parts(
+                        bytes,
+                        elem.type_id,
+                        elem.alignment,
+                        vtable.as_ref(),
+                    )
+                }),
+        )
     }
 
     // TODO: Determine if we can instead implement IntoIterator or explain why not and silence the clippy warning.
@@ -685,10 +702,17 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
         V: Clone,
     {
         let SliceCopyMut { data, elem, vtable } = self;
-        data.chunks_exact_mut(elem.num_bytes())
-            .map(move |bytes| unsafe {
-                CopyValueMut::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.clone())
-            })
+        Handles::new(
+            data.chunks_exact_mut(elem.num_bytes())
+                .map(move |bytes| unsafe {
+                    CopyValueMut::from_raw_parts(
+                        bytes,
+                        elem.type_id,
+                        elem.alignment,
+                        vtable.clone(),
+                    )
+                }),
+        )
     }
 
     #[inline]
@@ -698,8 +722,10 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact(chunk_size.saturating_mul(elem.num_bytes()))
-            .map(move |data| unsafe { SliceCopy::from_raw_parts(data, elem, vtable.as_ref()) })
+        Handles::new(
+            data.chunks_exact(chunk_size.saturating_mul(elem.num_bytes()))
+                .map(move |data| unsafe { SliceCopy::from_raw_parts(data, elem, vtable.as_ref()) }),
+        )
     }
 
     #[inline]
@@ -709,8 +735,12 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact_mut(chunk_size.saturating_mul(elem.num_bytes()))
-            .map(move |data| unsafe { SliceCopyMut::from_raw_parts(data, elem, vtable.as_ref()) })
+        Handles::new(
+            data.chunks_exact_mut(chunk_size.saturating_mul(elem.num_bytes()))
+                .map(move |data| unsafe {
+                    SliceCopyMut::from_raw_parts(data, elem, vtable.as_ref())
+                }),
+        )
     }
 
     pub fn split_at(&mut self, mid: usize) -> (SliceCopyMut<V>, SliceCopyMut<V>) {
diff --git a/src/vec_copy.rs b/src/vec_copy.rs
index f517316..edcf29d 100644
--- a/src/vec_copy.rs
+++ b/src/vec_copy.rs
@@ -31,6 +31,7 @@ use num_traits::{cast, NumCast, Zero};
 
 use crate::copy_value::*;
 use crate::elem::*;
+use crate::handles::Handles;
 use crate::slice_copy::*;
 use crate::vec_void::*;
 use crate::vtable::*;
@@ -655,9 +656,9 @@ impl<V: ?Sized> VecCopy<V> {
         let element_alignment = data.elem.alignment;
         let vtable = vtable.as_ref();
         unsafe {
-            data.byte_chunks_mut().map(move |bytes| {
+            Handles::new(data.byte_chunks_mut().map(move |bytes| {
                 CopyValueMut::from_raw_parts(bytes, element_type_id, element_alignment, vtable)
-            })
+            }))
         }
     }
 
diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index 2e6bfb3..c9e1e61 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -60,6 +60,7 @@ use std::boxed::Box as Ptr;
 #[cfg(feature = "numeric")]
 use num_traits::{cast, NumCast, Zero};
 
+use crate::handles::Handles;
 use crate::meta::*;
 use crate::slice::*;
 use crate::traits::*;
@@ -593,9 +594,9 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
         let element_type_id = data.elem.type_id;
         let element_alignment = data.elem.alignment;
         unsafe {
-            data.byte_chunks_mut().map(move |bytes| {
+            Handles::new(data.byte_chunks_mut().map(move |bytes| {
                 ValueMut::from_raw_parts(bytes, element_type_id, element_alignment, vtable)
-            })
+            }))
         }
     }
 
-- 
2.43.0


From e252429fb1ebf6cff5506112894888ee76fce943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:09 +0000
Subject: [PATCH 26/28] fix: vectors rotate elements of any alignment, as
 slices do

---
 src/vec_void.rs | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index 58b0fac..5cc8a0b 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -5,6 +5,7 @@ use std::mem::{align_of, size_of, ManuallyDrop, MaybeUninit};
 
 use crate::elem::*;
 use crate::index_slice::scale_index;
+use crate::ElementBytesMut;
 
 /// A decomposition of a `Vec` into a void pointer, a length and a capacity.
 ///
@@ -369,32 +370,16 @@ impl VecVoid {
 
     #[inline]
     pub(crate) fn rotate_left(&mut self, n: usize) {
-        fn rotate_left<T: 'static>(buf: &mut VecVoid, n: usize) {
-            let size = buf.elem.size;
-            // SAFETY: Memory layout is ensured to be correct by eval_align.
-            unsafe {
-                buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    v.rotate_left(scale_index(n, size));
-                });
-            }
-        }
-
-        eval_align!(limited_stack, self.elem.alignment; rotate_left::<_>(self, n));
+        let n = scale_index(n, self.elem.num_bytes());
+        // SAFETY: Moving whole elements keeps every element valid.
+        unsafe { self.bytes_mut() }.rotate_left(n);
     }
 
     #[inline]
     pub(crate) fn rotate_right(&mut self, n: usize) {
-        fn rotate_right<T: 'static>(buf: &mut VecVoid, n: usize) {
-            let size = buf.elem.size;
-            // SAFETY: Memory layout is ensured to be correct by eval_align.
-            unsafe {
-                buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    v.rotate_right(scale_index(n, size));
-                });
-            }
-        }
-
-        eval_align!(limited_stack, self.elem.alignment; rotate_right::<_>(self, n));
+        let n = scale_index(n, self.elem.num_bytes());
+        // SAFETY: Moving whole elements keeps every element valid.
+        unsafe { self.bytes_mut() }.rotate_right(n);
     }
 
     /// Cast this vector into a `Vec<T>` where `T` is alignment sized.
-- 
2.43.0


From a307717a53e1068501b83e0c047fbebefc9281cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:29 +0000
Subject: [PATCH 27/28] fix: from_dyn! converts slices and into_dyn! converts
 mutable slices

---
 src/lib.rs   | 14 +++++++-------
 src/slice.rs |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b9e10a3..98816d9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -99,18 +99,18 @@ macro_rules! from_dyn {
 
         from_dyn::<$vtable>
     }};
-    (@slice $slice:ident < dyn $trait:path >) => {{
-        fn from_dyn<'a, V: ?Sized + HasDrop + std::any::Any>(slice: $crate::$slice<'a, V>) -> $crate::$slice<'a, $vtable> {
+    (@slice $slice:ident < dyn $trait:path as $vtable:path >) => {{
+        fn from_dyn<'a, V: $trait>(slice: $crate::$slice<'a, dyn $trait>) -> $crate::$slice<'a, V> {
             unsafe {
                 let (data, elem, vtable) = slice.into_raw_parts();
                 match vtable {
                     $crate::VTableRef::Ref(v) => {
-                        let updated_vtable: &$vtable = v.downcast_ref().unwrap();
-                        $slice::from_raw_parts(data, elem, updated_vtable)
+                        let updated_vtable: &V = v.downcast_ref().unwrap();
+                        $crate::$slice::from_raw_parts(data, elem, updated_vtable)
                     }
                     $crate::VTableRef::Box(v) => {
-                        let updated_vtable: Box<$vtable> = v.downcast().unwrap();
-                        $slice::from_raw_parts(data, elem, updated_vtable)
+                        let updated_vtable: Box<V> = v.downcast().ok().unwrap();
+                        $crate::$slice::from_raw_parts(data, elem, updated_vtable)
                     }
                     // $crate::VTableRef::Rc(v) => {
                     //     let updated_vtable: std::rc::Rc<$vtable> = v.downcast().unwrap();
@@ -120,7 +120,7 @@ macro_rules! from_dyn {
             }
         }
 
-        from_dyn
+        from_dyn::<$vtable>
     }};
 }
 
diff --git a/src/slice.rs b/src/slice.rs
index fad63da..02ba735 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -387,7 +387,7 @@ impl<'a, V: ?Sized + HasDrop> SliceMut<'a, V> {
     /// This function exists mainly to enable the `into_dyn` macro until `CoerceUnsized` is
     /// stabilized.
     #[inline]
-    pub fn into_raw_parts(self) -> (&'a [MaybeUninit<u8>], ElemInfo, VTableRef<'a, V>) {
+    pub fn into_raw_parts(self) -> (&'a mut [MaybeUninit<u8>], ElemInfo, VTableRef<'a, V>) {
         let SliceCopyMut { data, elem, vtable } = self.data;
         (data, elem, vtable)
     }
-- 
2.43.0


From 19da6967b2e4655b957ea9064a4349ac6c25060e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:38 +0000
Subject: [PATCH 28/28] fix: a failing from_dyn! of a vector drops its elements

---
 src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 98816d9..0608b66 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -92,8 +92,15 @@ macro_rules! from_dyn {
                 let (data, vtable) = vec.into_raw_parts();
                 // If vtables were shared with Rc, we would use this:
                 //let updated_vtable: std::rc::Rc<V> = vtable.downcast_rc().ok().unwrap();
-                let updated_vtable: Box<V> = vtable.downcast().ok().unwrap();
-                $vec::from_raw_parts(data, updated_vtable)
+                let updated_vtable: Box<V> = match vtable.downcast() {
+                    Ok(vtable) => vtable,
+                    Err(vtable) => {
+                        // Let the vector drop its elements.
+                        drop($crate::$vec::from_raw_parts(data, vtable));
+                        panic!("the virtual table has a different type");
+                    }
+                };
+                $crate::$vec::from_raw_parts(data, updated_vtable)
             }
         }
 
-- 
2.43.0

