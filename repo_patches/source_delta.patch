From 85cbc26ae9ec838793a8ae7c5079f53fca2c018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:06 +0000
Subject: [PATCH 1/9] fix: reading past the end of a fixed-size list returns
 None

---
 src/collection/flatten.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/collection/flatten.rs b/src/collection/flatten.rs
index 12903d5..755d7d0 100644
--- a/src/collection/flatten.rs
+++ b/src/collection/flatten.rs
@@ -154,11 +154,13 @@ impl<C: Collection, const N: usize> Collection for Flatten<C, N> {
     type Owned = [C::Owned; N];
 
     fn view(&self, index: usize) -> Option<Self::View<'_>> {
-        Some(FlattenView(array::from_fn(|idx| {
-            self.0
-                .view(index.strict_mul(N).strict_add(idx))
-                .expect("out of bounds")
-        })))
+        let start = index.checked_mul(N)?;
+        let end = start.checked_add(N)?;
+        (end <= self.0.len()).then(|| {
+            FlattenView(array::from_fn(|idx| {
+                self.0.view(start.strict_add(idx)).expect("out of bounds")
+            }))
+        })
     }
 
     type Iter<'collection>
-- 
2.43.0


From f1b89b1c71bb6fcbe5ae8b8c648a186e83910e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:46 +0000
Subject: [PATCH 2/9] fix: reading a list at the largest index returns None

---
 src/offset.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/offset.rs b/src/offset.rs
index a549595..136bf62 100644
--- a/src/offset.rs
+++ b/src/offset.rs
@@ -443,7 +443,9 @@ impl<T: Collection, OffsetItem: Offset, Storage: Buffer, U: FromIterator<T::Owne
 
     fn view(&self, index: usize) -> Option<Self::View<'_>> {
         let start = self.offsets.owned(index);
-        let end = self.offsets.owned(index.strict_add(1));
+        let end = index
+            .checked_add(1)
+            .and_then(|next| self.offsets.owned(next));
         start.zip(end).map(|(s, e)| OffsetView {
             collection: self,
             start: s.as_usize(),
@@ -700,12 +702,10 @@ impl<T: Collection, OffsetItem: Offset, Storage: Buffer, U> Collection
     type Owned = T::Owned;
 
     fn view(&self, index: usize) -> Option<Self::View<'_>> {
-        let idx = self.start.strict_add(index);
-        if idx < self.end {
-            self.collection.data.view(idx)
-        } else {
-            None
-        }
+        self.start
+            .checked_add(index)
+            .filter(|idx| *idx < self.end)
+            .and_then(|idx| self.collection.data.view(idx))
     }
 
     type Iter<'collection>
-- 
2.43.0


From 72adaec6cf5d89ee10bca052e67acecfc5d0768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 3/9] fix: a panicking extension of a fixed-size list leaves
 whole rows

A source that panics while it is extended by can leave part of a row in the
child. Drop it, so that the rows after it do not shift and the child can still
be taken apart.
---
 src/collection/flatten.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/collection/flatten.rs b/src/collection/flatten.rs
index 755d7d0..14bc09e 100644
--- a/src/collection/flatten.rs
+++ b/src/collection/flatten.rs
@@ -133,9 +133,23 @@ impl<C: Collection, const N: usize> Length for Flatten<C, N> {
     }
 }
 
+/// Drops the items of an incomplete chunk from the child when an extension
+/// ends, because a panicking iterator can end it in the middle of a chunk.
+struct CompleteChunks<'flatten, C: CollectionRealloc, const N: usize>(&'flatten mut Flatten<C, N>);
+
+impl<C: CollectionRealloc, const N: usize> Drop for CompleteChunks<'_, C, N> {
+    fn drop(&mut self) {
+        let len = self.0.0.len();
+        if let Some(incomplete @ 1..) = len.checked_rem(N) {
+            self.0.0.truncate(len.strict_sub(incomplete));
+        }
+    }
+}
+
 impl<C: CollectionRealloc, const N: usize> Extend<[C::Owned; N]> for Flatten<C, N> {
     fn extend<I: IntoIterator<Item = [C::Owned; N]>>(&mut self, iter: I) {
-        self.0.extend(iter.into_iter().flatten());
+        let chunks = CompleteChunks(self);
+        chunks.0.0.extend(iter.into_iter().flatten());
     }
 }
 
@@ -222,7 +236,8 @@ impl<C: CollectionRealloc, const N: usize> CollectionRealloc for Flatten<C, N> {
         &mut self,
         iter: I,
     ) -> Result<(), AllocError> {
-        self.0.try_extend(iter.into_iter().flatten())
+        let chunks = CompleteChunks(self);
+        chunks.0.0.try_extend(iter.into_iter().flatten())
     }
 
     fn reserve(&mut self, additional: usize) {
-- 
2.43.0


From 2a2bf6c00df40e9d3b9f4d20b1a0f3f58068f3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 4/9] fix: a panicking extension of nullable data drops its
 uncommitted items

A source that panics can leave items in the collection whose validity was not
committed to the bitmap yet. Drop them, so that both always have the same
length.
---
 src/validity.rs | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/validity.rs b/src/validity.rs
index 57d00f1..9a88e80 100644
--- a/src/validity.rs
+++ b/src/validity.rs
@@ -391,6 +391,21 @@ impl<
 /// [`Extend::extend`] for [`Validity`].
 const VALIDITY_CHUNK: usize = 1024;
 
+/// Drops items without validity from the collection when an extension ends,
+/// because a panicking iterator can end it before the validity of the last
+/// items is committed to the bitmap.
+struct Committed<'validity, T: CollectionRealloc, Storage: Buffer>(
+    &'validity mut Validity<T, Storage>,
+);
+
+impl<T: CollectionRealloc, Storage: Buffer> Drop for Committed<'_, T, Storage> {
+    fn drop(&mut self) {
+        if let Some(bitmap) = self.0.bitmap.as_ref() {
+            self.0.collection.truncate(bitmap.len());
+        }
+    }
+}
+
 impl<
     U: Default,
     T: CollectionRealloc<Owned = U>,
@@ -412,10 +427,11 @@ impl<
         // chunk are committed to the collection, so a panicking iterator can
         // not add validity for items that never arrive.
         let mut items = iter.into_iter();
+        let committed = Committed(self);
         loop {
             let mut validity = [false; VALIDITY_CHUNK];
             let mut count: usize = 0;
-            self.collection.extend(
+            committed.0.collection.extend(
                 items
                     .by_ref()
                     .take(VALIDITY_CHUNK)
@@ -425,7 +441,9 @@ impl<
                     })
                     .map(Option::unwrap_or_default),
             );
-            self.bitmap
+            committed
+                .0
+                .bitmap
                 .as_mut()
                 .expect("validity bitmap is materialized")
                 .extend(validity.iter().take(count));
@@ -517,6 +535,7 @@ impl<
         self.collection.truncate(len);
 
         let mut items = iter.into_iter();
+        let committed = Committed(self);
         loop {
             let mut validity = [false; VALIDITY_CHUNK];
             let mut count: usize = 0;
@@ -528,17 +547,18 @@ impl<
                     count = count.strict_add(1);
                 })
                 .map(Option::unwrap_or_default);
-            if let Err(error) = self.collection.try_extend(values) {
-                self.truncate(len);
+            if let Err(error) = committed.0.collection.try_extend(values) {
+                committed.0.truncate(len);
                 return Err(error);
             }
-            if let Err(error) = self
+            if let Err(error) = committed
+                .0
                 .bitmap
                 .as_mut()
                 .expect("validity bitmap is materialized")
                 .try_extend(validity.into_iter().take(count))
             {
-                self.truncate(len);
+                committed.0.truncate(len);
                 return Err(error);
             }
             if count < VALIDITY_CHUNK {
-- 
2.43.0


From 46ae4dcb385a333d26960d1d8c6d1ce8d2298816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 5/9] fix: a bitmap is built from the items before the
 iterator's first end

Packing reads up to eight items per byte and asked the iterator again after it
had ended. Fuse it, as extending already does.
---
 src/bitmap/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bitmap/mod.rs b/src/bitmap/mod.rs
index 0e51160..4549668 100644
--- a/src/bitmap/mod.rs
+++ b/src/bitmap/mod.rs
@@ -398,6 +398,7 @@ impl<T: Borrow<bool>, Storage: Buffer<For<u8>: CollectionAlloc>> FromIterator<T>
         let mut bits: usize = 0;
         let buffer = iter
             .into_iter()
+            .fuse()
             .inspect(|_| {
                 bits = bits.strict_add(1);
             })
@@ -457,6 +458,7 @@ impl<Storage: Buffer<For<u8>: CollectionAllocIn>> CollectionAllocIn for Bitmap<S
         let mut bits: usize = 0;
         let buffer = Storage::For::<u8>::from_iter_in(
             iter.into_iter()
+                .fuse()
                 .inspect(|_| bits = bits.strict_add(1))
                 .bit_packed(),
             alloc,
@@ -485,6 +487,7 @@ impl<Storage: Buffer<For<u8>: CollectionAllocIn>> CollectionAllocIn for Bitmap<S
         let mut bits: usize = 0;
         let buffer = Storage::For::<u8>::try_from_iter_in(
             iter.into_iter()
+                .fuse()
                 .inspect(|_| bits = bits.strict_add(1))
                 .bit_packed(),
             alloc,
-- 
2.43.0


From e16d26f73e83218786efb133b68b7fa45b169d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 6/9] fix: collecting reserves for the items an iterator
 certainly has

An upper size bound may be loose: reserving for it could exhaust memory or
overflow the capacity for a handful of items. Reserve for the lower bound.
---
 src/offset.rs   |  8 ++++----
 src/validity.rs | 13 ++++++-------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/offset.rs b/src/offset.rs
index 136bf62..f5e729e 100644
--- a/src/offset.rs
+++ b/src/offset.rs
@@ -345,8 +345,8 @@ where
 
     fn from_iter_in<I: IntoIterator<Item = Self::Owned>>(iter: I, alloc: Self::Alloc) -> Self {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut offsets = Self::with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc);
+        let (lower_bound, _) = items.size_hint();
+        let mut offsets = Self::with_capacity_in(lower_bound, alloc);
         offsets.extend(items);
         offsets
     }
@@ -368,8 +368,8 @@ where
         alloc: Self::Alloc,
     ) -> Result<Self, AllocError> {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut offsets = Self::try_with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc)?;
+        let (lower_bound, _) = items.size_hint();
+        let mut offsets = Self::try_with_capacity_in(lower_bound, alloc)?;
         offsets.try_extend(items)?;
         Ok(offsets)
     }
diff --git a/src/validity.rs b/src/validity.rs
index 9a88e80..c05ada8 100644
--- a/src/validity.rs
+++ b/src/validity.rs
@@ -374,8 +374,8 @@ impl<
 {
     fn from_iter<I: IntoIterator<Item = Option<U>>>(iter: I) -> Self {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut bitmap = Bitmap::with_capacity(upper_bound.unwrap_or(lower_bound));
+        let (lower_bound, _) = items.size_hint();
+        let mut bitmap = Bitmap::with_capacity(lower_bound);
         let collection = items
             .inspect(|opt| bitmap.extend(iter::once(opt.is_some())))
             .map(Option::unwrap_or_default)
@@ -472,9 +472,8 @@ impl<
 
     fn from_iter_in<I: IntoIterator<Item = Self::Owned>>(iter: I, alloc: Self::Alloc) -> Self {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut bitmap =
-            Bitmap::<Storage>::with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc.clone());
+        let (lower_bound, _) = items.size_hint();
+        let mut bitmap = Bitmap::<Storage>::with_capacity_in(lower_bound, alloc.clone());
         let collection = T::from_iter_in(
             items
                 .inspect(|item| bitmap.extend(iter::once(item.is_some())))
@@ -501,8 +500,8 @@ impl<
         alloc: Self::Alloc,
     ) -> Result<Self, AllocError> {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut validity = Self::try_with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc)?;
+        let (lower_bound, _) = items.size_hint();
+        let mut validity = Self::try_with_capacity_in(lower_bound, alloc)?;
         validity.try_extend(items)?;
         Ok(validity)
     }
-- 
2.43.0


From feedee4db507fc09b763a511e161b868dab7c6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:10 +0000
Subject: [PATCH 7/9] fix: exported children outlive the release of their
 parent

---
 narrow-ffi/src/export/fixed_size_list.rs    | 12 ++---
 narrow-ffi/src/export/mod.rs                | 56 ++++++++-------------
 narrow-ffi/src/export/variable_size_list.rs | 12 ++---
 3 files changed, 34 insertions(+), 46 deletions(-)

diff --git a/narrow-ffi/src/export/fixed_size_list.rs b/narrow-ffi/src/export/fixed_size_list.rs
index 843244a..b5d3210 100644
--- a/narrow-ffi/src/export/fixed_size_list.rs
+++ b/narrow-ffi/src/export/fixed_size_list.rs
@@ -2,8 +2,8 @@
 
 extern crate alloc;
 
-use alloc::{boxed::Box, ffi::CString, format};
-use core::{borrow::Borrow, ffi::c_void, ptr};
+use alloc::{boxed::Box, ffi::CString, format, sync::Arc};
+use core::{any::Any, borrow::Borrow, ffi::c_void, ptr};
 
 use narrow::{
     bitmap::ValidityBitmap,
@@ -34,8 +34,8 @@ where
         [ptr::null()]
     }
 
-    fn children(&self) -> Result<Self::Children, ExportError> {
-        Ok([self.buffer_ref().child_ref().child_array()?])
+    fn children(&self, owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
+        Ok([self.buffer_ref().child_ref().array(owner)?])
     }
 }
 
@@ -71,8 +71,8 @@ where
         [validity.unwrap_or(ptr::null())]
     }
 
-    fn children(&self) -> Result<Self::Children, ExportError> {
-        Ok([self.buffer_ref().child_ref().child_ref().child_array()?])
+    fn children(&self, owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
+        Ok([self.buffer_ref().child_ref().child_ref().array(owner)?])
     }
 }
 
diff --git a/narrow-ffi/src/export/mod.rs b/narrow-ffi/src/export/mod.rs
index 22e14f2..2f1e015 100644
--- a/narrow-ffi/src/export/mod.rs
+++ b/narrow-ffi/src/export/mod.rs
@@ -2,8 +2,9 @@
 
 extern crate alloc;
 
-use alloc::{boxed::Box, vec::Vec};
+use alloc::{boxed::Box, sync::Arc, vec::Vec};
 use core::{
+    any::Any,
     ffi::{CStr, c_void},
     fmt, ptr,
 };
@@ -149,8 +150,8 @@ trait ArrowArrayLayout: Length + Sized {
     /// Returns the array's buffer pointers.
     fn buffers(&self) -> Self::Buffers;
 
-    /// Returns the array's child pointers.
-    fn children(&self) -> Result<Self::Children, ExportError> {
+    /// Returns the array's children, which share the owner of their storage.
+    fn children(&self, _owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
         Ok(Self::Children::default())
     }
 
@@ -159,8 +160,11 @@ trait ArrowArrayLayout: Length + Sized {
         ptr::null_mut()
     }
 
-    /// Builds a child [`ArrowArray`] borrowing storage retained by its parent.
-    fn child_array(&self) -> Result<ArrowArray, ExportError>
+    /// Builds an [`ArrowArray`] that keeps the owner of its storage alive.
+    ///
+    /// A consumer may move a child out of its parent and release the parent, so
+    /// every array of an export retains the storage on its own.
+    fn array(&self, owner: &Arc<dyn Any>) -> Result<ArrowArray, ExportError>
     where
         Self: 'static,
     {
@@ -169,13 +173,14 @@ trait ArrowArrayLayout: Length + Sized {
             return Err(ExportError::NonZeroOffset { offset });
         }
 
+        // Convert platform-sized layout metadata into the Arrow C ABI fields.
         let length = i64::try_from(self.len()).expect("array length exceeds i64");
         let null_count = self.null_count();
         let dictionary = self.dictionary();
-        let mut private = Box::new(ArrayData::<(), Self>::new(
-            (),
+        let mut private = Box::new(ArrayData::<Self>::new(
+            Arc::clone(owner),
             self.buffers(),
-            self.children()?,
+            self.children(owner)?,
         ));
         private.set_child_pointers();
 
@@ -187,52 +192,35 @@ trait ArrowArrayLayout: Length + Sized {
     where
         Self: 'static,
     {
-        let offset = self.offset();
-        if offset != 0 {
-            return Err(ExportError::NonZeroOffset { offset });
-        }
-
         // Pin the layout before asking it for pointers into its storage.
-        let mut private = Box::new(ArrayData::<Self, Self> {
-            buffers: Self::Buffers::default(),
-            children: Self::Children::default(),
-            child_pointers: Vec::new(),
-            owner: self,
-        });
-        private.buffers = private.owner.buffers();
-        private.children = private.owner.children()?;
-        private.set_child_pointers();
-
-        // Convert platform-sized layout metadata into the Arrow C ABI fields.
-        let length = i64::try_from(private.owner.len()).expect("array length exceeds i64");
-        let null_count = private.owner.null_count();
-        let dictionary = private.owner.dictionary();
-        let array = private.into_array(length, null_count, dictionary);
+        let layout = Arc::new(self);
+        let owner: Arc<dyn Any> = Arc::<Self>::clone(&layout);
+        let array = layout.array(&owner)?;
 
         Ok((array, Self::schema()))
     }
 }
 
 /// Data retained by `ArrowArray::private_data` for an array export.
-struct ArrayData<Owner, Layout: ArrowArrayLayout> {
+struct ArrayData<Layout: ArrowArrayLayout> {
     /// Arrow C Data buffer pointers.
     buffers: Layout::Buffers,
     /// Child arrays owned by the export.
     children: Layout::Children,
     /// Arrow C Data child pointers.
     child_pointers: Vec<*mut ArrowArray>,
-    /// Owner retained until the array is released.
-    owner: Owner,
+    /// Owner of the storage, retained until the array is released.
+    _owner: Arc<dyn Any>,
 }
 
-impl<Owner: 'static, Layout: ArrowArrayLayout + 'static> ArrayData<Owner, Layout> {
+impl<Layout: ArrowArrayLayout + 'static> ArrayData<Layout> {
     /// Creates private data for an exported array.
-    fn new(owner: Owner, buffers: Layout::Buffers, children: Layout::Children) -> Self {
+    fn new(owner: Arc<dyn Any>, buffers: Layout::Buffers, children: Layout::Children) -> Self {
         Self {
             buffers,
             children,
             child_pointers: Vec::new(),
-            owner,
+            _owner: owner,
         }
     }
 
diff --git a/narrow-ffi/src/export/variable_size_list.rs b/narrow-ffi/src/export/variable_size_list.rs
index 5689dab..6a0958f 100644
--- a/narrow-ffi/src/export/variable_size_list.rs
+++ b/narrow-ffi/src/export/variable_size_list.rs
@@ -2,8 +2,8 @@
 
 extern crate alloc;
 
-use alloc::boxed::Box;
-use core::{borrow::Borrow, ffi::c_void, ptr};
+use alloc::{boxed::Box, sync::Arc};
+use core::{any::Any, borrow::Borrow, ffi::c_void, ptr};
 
 use narrow::{
     bitmap::ValidityBitmap,
@@ -37,8 +37,8 @@ where
         [ptr::null(), offsets.as_ptr().cast()]
     }
 
-    fn children(&self) -> Result<Self::Children, ExportError> {
-        Ok([self.buffer_ref().child_ref().child_array()?])
+    fn children(&self, owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
+        Ok([self.buffer_ref().child_ref().array(owner)?])
     }
 }
 
@@ -80,8 +80,8 @@ where
         ]
     }
 
-    fn children(&self) -> Result<Self::Children, ExportError> {
-        Ok([self.buffer_ref().child_ref().child_ref().child_array()?])
+    fn children(&self, owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
+        Ok([self.buffer_ref().child_ref().child_ref().array(owner)?])
     }
 }
 
-- 
2.43.0


From 76af991f7f0c7923a9e421aebdfdeb96e2cd9d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:39 +0000
Subject: [PATCH 8/9] fix: reserve in a bitmap counts bytes that are already in
 its buffer

---
 src/bitmap/mod.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/bitmap/mod.rs b/src/bitmap/mod.rs
index 4549668..2465fb4 100644
--- a/src/bitmap/mod.rs
+++ b/src/bitmap/mod.rs
@@ -280,6 +280,21 @@ impl<Storage: Buffer> Bitmap<Storage> {
             8_usize.strict_sub(trailing_bits)
         }
     }
+
+    /// Returns the number of bytes the buffer must grow to hold `additional`
+    /// more bits. Bytes beyond the logical end are overwritten by extensions,
+    /// so they count as available.
+    #[inline]
+    fn missing_bytes(&self, additional: usize) -> usize {
+        let available = self
+            .buffer
+            .len()
+            .strict_sub(bytes_for_bits(self.offset.strict_add(self.bits)));
+        additional
+            .checked_sub(self.trailing_bits())
+            .map_or(0, bytes_for_bits)
+            .saturating_sub(available)
+    }
 }
 
 impl<Storage: Buffer<For<u8>: Clone>> Clone for Bitmap<Storage> {
@@ -543,10 +558,7 @@ impl<Storage: Buffer<For<u8>: BorrowMut<[u8]> + CollectionRealloc>> CollectionRe
     }
 
     fn try_reserve(&mut self, additional: usize) -> Result<(), AllocError> {
-        if let Some(bits) = additional.checked_sub(self.trailing_bits()) {
-            self.buffer.try_reserve(bytes_for_bits(bits))?;
-        }
-        Ok(())
+        self.buffer.try_reserve(self.missing_bytes(additional))
     }
 
     fn try_extend<I: IntoIterator<Item = Self::Owned>>(
@@ -597,9 +609,7 @@ impl<Storage: Buffer<For<u8>: BorrowMut<[u8]> + CollectionRealloc>> CollectionRe
     }
 
     fn reserve(&mut self, additional: usize) {
-        if let Some(bits) = additional.checked_sub(self.trailing_bits()) {
-            self.buffer.reserve(bytes_for_bits(bits));
-        }
+        self.buffer.reserve(self.missing_bytes(additional));
     }
 
     fn truncate(&mut self, len: usize) {
-- 
2.43.0


From 060ff6d1733ed53c10b933152e4a25ccb4a61591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:34 +0000
Subject: [PATCH 9/9] fix: collecting into a box reports a failed reallocation

Shrinking the collected items into a boxed slice reallocates in place, which
aborts when the allocator can not provide the smaller allocation.
---
 src/collection/box.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/collection/box.rs b/src/collection/box.rs
index 1965fea..7bbbc77 100644
--- a/src/collection/box.rs
+++ b/src/collection/box.rs
@@ -52,6 +52,14 @@ impl<T: for<'any> AsView<'any>> CollectionAllocIn for Box<[T]> {
         iter: I,
         (): Self::Alloc,
     ) -> Result<Self, AllocError> {
-        <Vec<T> as CollectionAllocIn>::try_from_iter_in(iter, ()).map(Vec::into_boxed_slice)
+        let mut items = <Vec<T> as CollectionAllocIn>::try_from_iter_in(iter, ())?;
+        if items.len() == items.capacity() {
+            return Ok(items.into_boxed_slice());
+        }
+        // Shrinking the allocation in place is infallible and aborts when the
+        // allocator can not provide the smaller allocation.
+        let mut boxed = <Vec<T> as CollectionAllocIn>::try_with_capacity_in(items.len(), ())?;
+        boxed.append(&mut items);
+        Ok(boxed.into_boxed_slice())
     }
 }
-- 
2.43.0

