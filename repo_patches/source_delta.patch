From 9a329f74b09c95316b48fbbb736f059d5116e840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 01/19] fix: insert at the byte offset of the element, not at
 its index

---
 src/inner/aligned.rs   | 2 +-
 src/inner/unaligned.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index a8f2705..fc921db 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -251,7 +251,7 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
             let start_offset = self.start_offset_of_unchecked(index);
             let how_much_to_move = self.byte_len().unchecked_sub(start_offset);
 
-            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(index);
+            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(start_offset.get());
 
             ptr::copy(
                 start_ptr,
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index da84c87..242b3a0 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -606,7 +606,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             let start_offset = self.start_offset_of_unchecked(index);
             let how_much_to_move = self.unaligned_byte_len().unchecked_sub(start_offset);
 
-            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(index);
+            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(start_offset.get());
 
             ptr::copy(
                 start_ptr,
-- 
2.43.0


From 6431df056e6113e61cb3c21327ab912d043c485f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 02/19] fix: unsizing a vec must record the end offset of each
 element

---
 src/inner/aligned.rs   | 2 +-
 src/inner/unaligned.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index fc921db..9021eb1 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -661,7 +661,7 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 metadata,
                 // SAFETY: can't overflow, as otherwise allocation would be overflowing
                 end_offset: unsafe {
-                    ValidSize::new_unchecked(index.unchecked_mul(mem::size_of::<S>()))
+                    ValidSize::new_unchecked((index + 1).unchecked_mul(mem::size_of::<S>()))
                 },
             })
             .collect();
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 242b3a0..9e31761 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -1052,7 +1052,9 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 metadata,
                 // SAFETY: can't overflow, as otherwise allocation would be overflowing
                 end_offset: unsafe {
-                    ValidSizeUnaligned::new_unchecked(index.unchecked_mul(mem::size_of::<S>()))
+                    ValidSizeUnaligned::new_unchecked(
+                        (index + 1).unchecked_mul(mem::size_of::<S>()),
+                    )
                 },
             })
             .collect();
-- 
2.43.0


From 96e4aace5bd80cc247f6e3fe6dcbfa43bdd0c276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 03/19] fix: emplacing a slice of `Copy` elements must copy the
 elements

---
 emplacable/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emplacable/src/lib.rs b/emplacable/src/lib.rs
index a624aa7..a6ffadd 100644
--- a/emplacable/src/lib.rs
+++ b/emplacable/src/lib.rs
@@ -774,7 +774,7 @@ impl<T: Copy> CopyToBuf for T {
         // SAFETY: copying value where it belongs. safe to write to
         // `buf` by preconditions of function
         unsafe {
-            ptr::copy_nonoverlapping(addr_of!(slice).cast(), buf, slice.len());
+            ptr::copy_nonoverlapping(slice.as_ptr(), buf, slice.len());
         }
     }
 }
-- 
2.43.0


From 508d2e3abee4639bc221e1faac19ca873727672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 04/19] fix: reserving alignment in an empty allocation must
 update the alignment

---
 src/inner/unaligned.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 9e31761..8218dff 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -470,6 +470,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 }
             } else {
                 self.ptr = new_align.dangling_thin();
+                self.align = new_align;
             }
         }
         Ok(())
-- 
2.43.0


From c0064f7c9baf84d58d0d2cdee6dbeeb806d46d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 05/19] fix: shrinking must keep the byte capacity a multiple
 of the alignment

---
 src/inner/unaligned.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 8218dff..5152e19 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -502,12 +502,14 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         let new_byte_capacity = cmp::max(
             // SAFETY: `old_byte_capacity` is a valid
             // `ValidSizeUnaligned`, and result of `cmp::min`
-            // can't be bigger than it
+            // can't be bigger than it. It is also a multiple of `old_align`,
+            // so padding to `new_align <= old_align` doesn't exceed it.
             unsafe {
                 ValidSizeUnaligned::new_unchecked(cmp::min(
                     min_byte_capacity,
                     old_byte_capacity.get(),
                 ))
+                .unchecked_pad_to(new_align)
             },
             new_aligned_byte_len,
         );
-- 
2.43.0


From 66b1f45e2a878f1a402d8b581fdc9333b8eab27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 06/19] fix: failing to reserve must return an error, not trip
 an assertion

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 203b052..95f0f05 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -582,7 +582,9 @@ impl<T: ?Sized> UnsizedVec<T> {
             .inner
             .try_reserve_additional_bytes_align(needed_bytes, align);
 
-        debug_assert!(self.byte_capacity() >= self.byte_len() + additional_bytes);
+        debug_assert!(
+            result.is_err() || self.byte_capacity() >= self.byte_len() + additional_bytes
+        );
 
         result
     }
-- 
2.43.0


From 96c9bf3639c244e1e4d76b10b73cca211c1089bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 07/19] fix: reserving bytes for sized elements must not mix up
 bytes and elements

---
 src/inner/sized.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index 0c661b7..d78e476 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -69,12 +69,14 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
         additional_bytes: usize,
         _align: (),
     ) -> Result<(), TryReserveError> {
+        if additional_bytes == 0 || mem::size_of::<T>() == 0 {
+            return Ok(());
+        }
+
         // SAFETY: capacity >= len
         let free = unsafe { self.capacity().unchecked_sub(self.len()) };
-        let needed = additional_bytes
-            .saturating_add(free)
-            .div_ceil(mem::size_of::<T>());
-        Ok(self.try_reserve_exact(needed.saturating_sub(free))?)
+        let needed = additional_bytes.div_ceil(mem::size_of::<T>());
+        Ok(self.try_reserve_exact(needed.saturating_add(free))?)
     }
 
     #[inline]
-- 
2.43.0


From 2a82b8d1b8bddf39e22c2479683d100bd177bd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 08/19] fix: shrinking a vec of zero-sized elements must not
 divide by zero

---
 src/inner/sized.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index d78e476..192ac93 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -86,10 +86,14 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
         min_byte_capacity: usize,
         _align: (),
     ) {
-        let min_capacity = cmp::max(
-            min_capacity,
-            min_byte_capacity.div_ceil(mem::size_of::<T>()),
-        );
+        let min_capacity = if mem::size_of::<T>() == 0 {
+            min_capacity
+        } else {
+            cmp::max(
+                min_capacity,
+                min_byte_capacity.div_ceil(mem::size_of::<T>()),
+            )
+        };
         self.shrink_to(min_capacity);
     }
 
-- 
2.43.0


From cb382009d3aa2deb6e97dc13d737025d1f46faa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 09/19] fix: iterators must account for elements already
 consumed from the front

---
 src/inner/aligned.rs   | 4 ++--
 src/inner/unaligned.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 9021eb1..a374771 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -734,7 +734,7 @@ macro_rules! iter_ref {
                     .checked_sub(1)
                     .and_then(|n| self.elems_info.nth(n))
                     .copied()
-                    .map_or(ValidSize::ZERO, |e_i| e_i.end_offset);
+                    .map_or(self.start_offset, |e_i| e_i.end_offset);
 
                 let ElementInfo {
                     metadata,
@@ -776,7 +776,7 @@ macro_rules! iter_ref {
                     .elems_info
                     .as_slice()
                     .last()
-                    .map_or(ValidSize::ZERO, |e_i| e_i.end_offset);
+                    .map_or(self.start_offset, |e_i| e_i.end_offset);
 
                 // SAFETY: end of element can't be smaller than start
                 let size_of_val = unsafe { end_offset.unchecked_sub(start_offset) };
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 5152e19..2e5f627 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -1135,7 +1135,7 @@ macro_rules! iter_ref {
                     .and_then(|n| self.elems_info.nth(n))
                     .copied()
                     // SAFETY: offset comes from the vec
-                    .map_or(ValidSizeUnaligned::ZERO, |e_i| unsafe {
+                    .map_or(self.start_offset, |e_i| unsafe {
                         e_i.end_offset.unchecked_pad_to(self.align)
                     });
 
@@ -1184,7 +1184,7 @@ macro_rules! iter_ref {
                     .as_slice()
                     .last()
                     // SAFETY: offset comes from the vec
-                    .map_or(ValidSizeUnaligned::ZERO, |e_i| unsafe {
+                    .map_or(self.start_offset, |e_i| unsafe {
                         e_i.end_offset.unchecked_pad_to(self.align)
                     });
 
-- 
2.43.0


From 2072193f9b180dec320214ed727af5f4d5e5c8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 10/19] fix: length of the bytes to move must account for
 padding of the last element

---
 src/inner/unaligned.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 2e5f627..7d9f2d0 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -607,7 +607,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         // SAFETY: preconditions of function
         unsafe {
             let start_offset = self.start_offset_of_unchecked(index);
-            let how_much_to_move = self.unaligned_byte_len().unchecked_sub(start_offset);
+            let how_much_to_move = self.aligned_byte_len().unchecked_sub(start_offset);
 
             let start_ptr = self.ptr.cast::<u8>().as_ptr().add(start_offset.get());
 
@@ -694,10 +694,10 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 // SAFETY: getting pointer to element
                 let ptr_to_elem = unsafe { self.ptr.cast::<u8>().as_ptr().add(start_offset.get()) };
 
-                let unaligned_len = self.unaligned_byte_len();
+                let aligned_len = self.aligned_byte_len();
 
                 // SAFETY: by precondition of function
-                let num_bytes_to_shift = unsafe { unaligned_len.unchecked_sub(start_offset) };
+                let num_bytes_to_shift = unsafe { aligned_len.unchecked_sub(start_offset) };
 
                 let shifter_backer = ElementShifterBacker {
                     ptr_to_index: ptr_to_elem,
@@ -830,10 +830,10 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             }
         }
 
-        let unaligned_len = self.unaligned_byte_len();
+        let aligned_len = self.aligned_byte_len();
 
         // SAFETY: new end of vec can't be to the left of old start of elem at `index`
-        let how_much_to_move = unsafe { unaligned_len.unchecked_sub(start_offset) };
+        let how_much_to_move = unsafe { aligned_len.unchecked_sub(start_offset) };
 
         // SAFETY: copying elements back where they belong
         unsafe {
-- 
2.43.0


From 0903b146940c7768764badfd2b9ae83ca3b3862a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 11/19] fix: lowering the alignment must update the offsets of
 the elements

---
 src/inner/unaligned.rs | 52 ++++++++++++++----------------------------
 1 file changed, 17 insertions(+), 35 deletions(-)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 7d9f2d0..cec56be 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -251,54 +251,36 @@ impl<T: ?Sized> UnalignedVecInner<T> {
 
         debug_assert!(self.len() > 1 && new_align < old_align);
 
-        // We compute the new offset of each element, along with the difference from the old offset.
-        // Then, we copy the eement over.
+        // We compute the new offset of each element, then we copy the element over.
         //
         // This is a lot simpler than `realign_up`, we can do everyting in a single pass.
 
-        let mut shift_back = ValidSizeUnaligned::ZERO;
-        for &[
-            ElementInfo {
-                end_offset: prev_new_end_offset,
-                ..
-            },
-            ElementInfo {
-                end_offset: old_end_offset,
-                ..
-            },
-        ] in self.elems_info.array_windows::<2>()
-        {
-            // SAFETY: shift must be smaller than size of allocation up to this point
-            let new_end_offset = unsafe { old_end_offset.unchecked_sub(shift_back) };
-
-            // SAFETY: can't overflow, or else unshifted allocation would have overflowed
-            let new_start_offset = unsafe { prev_new_end_offset.unchecked_pad_to(new_align) };
+        let start_of_alloc = self.ptr.as_ptr().cast::<u8>();
 
-            // SAFETY: shift must be smaller than size of allocation up to this point
-            let old_start_offset = unsafe { new_start_offset.unchecked_sub(shift_back) };
+        let mut old_start_offset = ValidSizeUnaligned::ZERO;
+        let mut new_start_offset = ValidSizeUnaligned::ZERO;
 
+        for ElementInfo { end_offset, .. } in self.elems_info.iter_mut() {
             // SAFETY: End offset >= start offset
-            let size_of_val = unsafe { new_end_offset.unchecked_sub(new_start_offset) };
+            let size_of_val = unsafe { end_offset.unchecked_sub(old_start_offset) };
 
-            // SAFETY: moving element to new correct position, as computed above
+            // SAFETY: moving element to new correct position, as computed
+            // in the previous iteration
             unsafe {
                 ptr::copy(
-                    self.ptr.as_ptr().cast::<u8>().add(old_start_offset.get()),
-                    self.ptr.as_ptr().cast::<u8>().add(new_start_offset.get()),
+                    start_of_alloc.add(old_start_offset.get()),
+                    start_of_alloc.add(new_start_offset.get()),
                     size_of_val.get(),
                 );
             }
 
-            // SAFETY: pads can't overfolow as otherwise old offsets would be invalid.
-            // Sub can't overflow as new_align < old_align.
-            // Add can't overflow as we can't shift more than the entire size of the allocation.
-            shift_back = unsafe {
-                shift_back.unchecked_add(
-                    new_end_offset
-                        .unchecked_pad_to(old_align)
-                        .unchecked_sub(new_end_offset.unchecked_pad_to(new_align)),
-                )
-            };
+            // SAFETY: pads can't overflow as otherwise old offsets would be invalid.
+            // Add can't overflow as `new_start_offset <= old_start_offset`.
+            unsafe {
+                old_start_offset = end_offset.unchecked_pad_to(old_align);
+                *end_offset = new_start_offset.unchecked_add(size_of_val);
+                new_start_offset = end_offset.unchecked_pad_to(new_align);
+            }
         }
     }
 }
-- 
2.43.0


From 37cdb62406e9b05245084c23a74849897a32ae99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 12/19] fix: an element taken by remove_into must leave the vec
 even if something panics

---
 src/inner/aligned.rs   | 96 ++++++++++++++++++++++++++++------------
 src/inner/sized.rs     | 59 +++++++++++++++++--------
 src/inner/unaligned.rs | 99 +++++++++++++++++++++++++++++-------------
 3 files changed, 181 insertions(+), 73 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index a374771..9d8dba4 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -381,6 +381,61 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
     }
 
     unsafe fn remove_into_unchecked(&mut self, index: usize, emplacer: &mut Emplacer<'_, T>) {
+        /// Helper to ensure that an element that was taken out
+        /// of the vec is no longer considered part of it,
+        /// even if something panics afterwards.
+        struct GapCloser<'a, T: ?Sized + Aligned> {
+            vec: &'a mut AlignedVecInner<T>,
+            index: usize,
+            start_offset: ValidSize<T>,
+            size: ValidSize<T>,
+            taken: bool,
+        }
+
+        impl<T: ?Sized + Aligned> Drop for GapCloser<'_, T> {
+            fn drop(&mut self) {
+                if !self.taken {
+                    return;
+                }
+
+                // FIXME elide bounds check
+                self.vec.elems_info.remove(self.index);
+
+                for ElementInfo { end_offset, .. } in
+                    // SAFETY: `index` in range by preconditions of function.
+                    unsafe { self.vec.elems_info.get_unchecked_mut(self.index..) }
+                {
+                    // SAFETY: `end_fooset >= size_of_val` for elements following something
+                    // of size `size_of_val`
+                    unsafe {
+                        *end_offset = end_offset.unchecked_sub(self.size);
+                    }
+                }
+
+                // SAFETY: new end of vec can't be to the left of old start of elem at `index`
+                let how_much_to_move =
+                    unsafe { self.vec.byte_len().unchecked_sub(self.start_offset) };
+
+                // SAFETY: offset comes from vec
+                let thin_ptr = unsafe {
+                    self.vec
+                        .ptr
+                        .as_ptr()
+                        .cast::<u8>()
+                        .add(self.start_offset.get())
+                };
+
+                // SAFETY: copying elements back where they belong
+                unsafe {
+                    ptr::copy(
+                        thin_ptr.add(self.size.get()),
+                        thin_ptr,
+                        how_much_to_move.get(),
+                    );
+                }
+            }
+        }
+
         debug_assert!(index < self.len());
 
         // We can't remove the metadata yet, as `emplacer_closure` might unwind,
@@ -411,6 +466,14 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 .add(start_offset.get())
         };
 
+        let mut gap_closer = GapCloser {
+            vec: self,
+            index,
+            start_offset,
+            size: size_of_val,
+            taken: false,
+        };
+
         // Copy element into the place
 
         // SAFETY: we call the closure right after we unwrap it
@@ -419,6 +482,8 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
         // The emplacer can choose never to run the inner closure at all! In this case, the removed value
         // is simply forgotten.
         emplacer_closure(size_of_val.as_layout(), metadata, &mut |out_ptr| {
+            gap_closer.taken = true;
+
             if !out_ptr.is_null() {
                 // SAFETY: we are allowed to copy `size_of_val` bytes into `out_ptr`,
                 // by the preconditions of `Emplacer::new`
@@ -438,33 +503,10 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
             }
         });
 
-        // Now that `emplacer_closure` has run successfuly, we don't need to worry
-        // about exception safety anymore.
-        // FIXME elide bounds check
-        self.elems_info.remove(index);
-
-        for ElementInfo { end_offset, .. } in
-            // SAFETY: `index` in range by preconditions of function.
-            unsafe { self.elems_info.get_unchecked_mut(index..) }
-        {
-            // SAFETY: `end_fooset >= size_of_val` for elements following something
-            // of size `size_of_val`
-            unsafe {
-                *end_offset = end_offset.unchecked_sub(size_of_val);
-            }
-        }
-
-        // SAFETY: new end of vec can't be to the left of old start of elem at `index`
-        let how_much_to_move = unsafe { self.byte_len().unchecked_sub(start_offset) };
-
-        // SAFETY: copying elements back where they belong
-        unsafe {
-            ptr::copy(
-                thin_ptr_to_elem.add(size_of_val.get()),
-                thin_ptr_to_elem.cast_mut(),
-                how_much_to_move.get(),
-            );
-        }
+        // The emplacer has run successfuly, so the element is gone
+        // (forgotten, if it wasn't taken).
+        gap_closer.taken = true;
+        drop(gap_closer);
     }
 
     unsafe fn push_unchecked(&mut self, value: T, size_of_val: ValidSize<T>) {
diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index 192ac93..24865ab 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -181,22 +181,49 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
     }
 
     unsafe fn remove_into_unchecked(&mut self, index: usize, emplacer: &mut Emplacer<'_, T>) {
-        debug_assert!(index < self.len());
+        /// Helper to ensure that an element that was taken out
+        /// of the vec is no longer considered part of it,
+        /// even if something panics afterwards.
+        struct GapCloser<'a, T> {
+            vec: &'a mut ::alloc::vec::Vec<T>,
+            index: usize,
+            taken: bool,
+        }
 
-        // SAFETY: precondition of function
-        let new_len = unsafe { self.len().unchecked_sub(1) };
+        impl<T> Drop for GapCloser<'_, T> {
+            fn drop(&mut self) {
+                if !self.taken {
+                    return;
+                }
 
-        // Set new length of vector
+                // SAFETY: vec contains the element at `index`
+                let new_len = unsafe { self.vec.len().unchecked_sub(1) };
 
-        // SAFETY: new_len < old_len
-        unsafe { self.set_len(new_len) };
+                // SAFETY: old_len > index, so old_len - 1 == new_len >= index
+                let how_much_to_move = unsafe { new_len.unchecked_sub(self.index) };
+
+                // SAFETY: copy elements back where they belong
+                unsafe {
+                    let ptr_to_elem = self.vec.as_mut_ptr().add(self.index);
+                    ptr::copy(ptr_to_elem.add(1), ptr_to_elem, how_much_to_move);
+                }
+
+                // SAFETY: new_len < old_len
+                unsafe { self.vec.set_len(new_len) };
+            }
+        }
+
+        debug_assert!(index < self.len());
 
         // Get pointer to the element we are popping out of the vec
         // SAFETY: offset comes from vec
         let thin_ptr_to_elem = unsafe { self.as_ptr().add(index) };
 
-        // SAFETY: old_len > index, so old_len - 1 == new_len >= index
-        let how_much_to_move = unsafe { new_len.unchecked_sub(index) };
+        let mut gap_closer = GapCloser {
+            vec: self,
+            index,
+            taken: false,
+        };
 
         // Copy element into the place
 
@@ -204,6 +231,8 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
         let emplacer_closure = unsafe { emplacer.into_fn() };
 
         emplacer_closure(Layout::new::<T>(), (), &mut |out_ptr| {
+            gap_closer.taken = true;
+
             if !out_ptr.is_null() {
                 // SAFETY: we are allowed to copy `size_of::<T>()` bytes into `out_ptr`,
                 // by the preconditions of `Emplacer::new`
@@ -213,20 +242,16 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
             } else {
                 let typed_ptr_to_elem: *mut T = thin_ptr_to_elem.cast_mut().cast();
 
-                // SAFETY: we adusted vec metadata earlier, and copy elements back right after,
+                // SAFETY: `gap_closer` adjusts the vec right after,
                 // so this won't be double-dropped
                 unsafe { typed_ptr_to_elem.drop_in_place() }
             }
         });
 
-        // SAFETY: copy elements back where they belong
-        unsafe {
-            ptr::copy(
-                thin_ptr_to_elem.add(1),
-                thin_ptr_to_elem.cast_mut(),
-                how_much_to_move,
-            );
-        }
+        // The emplacer has run successfuly, so the element is gone
+        // (forgotten, if it wasn't taken).
+        gap_closer.taken = true;
+        drop(gap_closer);
     }
 
     #[inline]
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index cec56be..82bc49d 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -731,6 +731,62 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
     }
 
     unsafe fn remove_into_unchecked(&mut self, index: usize, emplacer: &mut Emplacer<'_, T>) {
+        /// Helper to ensure that an element that was taken out
+        /// of the vec is no longer considered part of it,
+        /// even if something panics afterwards.
+        struct GapCloser<'a, T: ?Sized> {
+            vec: &'a mut UnalignedVecInner<T>,
+            index: usize,
+            start_offset: ValidSizeUnaligned,
+            size: ValidSizeUnaligned,
+            taken: bool,
+        }
+
+        impl<T: ?Sized> Drop for GapCloser<'_, T> {
+            fn drop(&mut self) {
+                if !self.taken {
+                    return;
+                }
+
+                // FIXME elide bounds check
+                self.vec.elems_info.remove(self.index);
+
+                for ElementInfo { end_offset, .. } in
+                    // SAFETY: `index` in range by preconditions of function.
+                    unsafe { self.vec.elems_info.get_unchecked_mut(self.index..) }
+                {
+                    // SAFETY: `end_fooset >= size_of_val` for elements following something
+                    // of size `size_of_val`
+                    unsafe {
+                        *end_offset = end_offset.unchecked_sub(self.size);
+                    }
+                }
+
+                let aligned_len = self.vec.aligned_byte_len();
+
+                // SAFETY: new end of vec can't be to the left of old start of elem at `index`
+                let how_much_to_move = unsafe { aligned_len.unchecked_sub(self.start_offset) };
+
+                // SAFETY: offset comes from vec
+                let thin_ptr = unsafe {
+                    self.vec
+                        .ptr
+                        .as_ptr()
+                        .cast::<u8>()
+                        .add(self.start_offset.get())
+                };
+
+                // SAFETY: copying elements back where they belong
+                unsafe {
+                    ptr::copy(
+                        thin_ptr.add(self.size.get()),
+                        thin_ptr,
+                        how_much_to_move.get(),
+                    );
+                }
+            }
+        }
+
         debug_assert!(index < self.len());
 
         // We can't remove the metadata yet, as `emplacer_closure` might unwind,
@@ -769,6 +825,14 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         // SAFETY: the element is still initialized at this point
         let align_of_val = ValidAlign::of_val(unsafe { &*wide_ptr_to_elem });
 
+        let mut gap_closer = GapCloser {
+            vec: self,
+            index,
+            start_offset,
+            size: aligned_size_of_val,
+            taken: false,
+        };
+
         // Copy element into the place
 
         // SAFETY: we call the closure right after we unwrap it
@@ -779,6 +843,8 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             unsafe { unaligned_size_of_val.as_layout_with_align_unchecked(align_of_val) },
             metadata,
             &mut |out_ptr| {
+                gap_closer.taken = true;
+
                 if !out_ptr.is_null() {
                     // SAFETY: we are allowed to copy `size_of_val` bytes into `out_ptr`,
                     // by the preconditions of `Emplacer::new`
@@ -796,35 +862,10 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             },
         );
 
-        // Now that `emplacer_closure` has run successfuly, we don't need to worry
-        // about exception safety anymore.
-        // FIXME elide bounds check
-        self.elems_info.remove(index);
-
-        for ElementInfo { end_offset, .. } in
-            // SAFETY: `index` in range by preconditions of function.
-            unsafe { self.elems_info.get_unchecked_mut(index..) }
-        {
-            // SAFETY: `end_fooset >= size_of_val` for elements following something
-            // of size `size_of_val`
-            unsafe {
-                *end_offset = end_offset.unchecked_sub(aligned_size_of_val);
-            }
-        }
-
-        let aligned_len = self.aligned_byte_len();
-
-        // SAFETY: new end of vec can't be to the left of old start of elem at `index`
-        let how_much_to_move = unsafe { aligned_len.unchecked_sub(start_offset) };
-
-        // SAFETY: copying elements back where they belong
-        unsafe {
-            ptr::copy(
-                ptr_to_elem.add(aligned_size_of_val.get()),
-                ptr_to_elem.cast_mut(),
-                how_much_to_move.get(),
-            );
-        }
+        // The emplacer has run successfuly, so the element is gone
+        // (forgotten, if it wasn't taken).
+        gap_closer.taken = true;
+        drop(gap_closer);
     }
 
     #[inline]
-- 
2.43.0


From 42461ac64f0d496240ae42a3cdf127a84df5374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 13/19] fix: reserving an exact capacity must not over-allocate

---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 95f0f05..2877713 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -662,11 +662,13 @@ impl<T: ?Sized> UnsizedVec<T> {
         additional_bytes: usize,
         align: usize,
     ) -> Result<(), TryReserveError> {
-        self.inner.try_reserve(additional)?;
+        self.inner.try_reserve_exact(additional)?;
         let align = to_align::<T>(align);
 
+        let needed_bytes = additional_bytes.saturating_sub(self.unused_byte_cap());
+
         self.inner
-            .try_reserve_additional_bytes_align(additional_bytes, align)
+            .try_reserve_additional_bytes_align(needed_bytes, align)
     }
 
     /// Shrinks all the capacities of the vec as much as possible.
-- 
2.43.0


From 19e40408c24d52931b37fdd1dc4f4e59d8bc8348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 14/19] fix: emplacing into a vec must use the capacity it
 already has

---
 src/inner/aligned.rs   | 10 ++++++++--
 src/inner/unaligned.rs | 13 ++++++++-----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 9d8dba4..017d55b 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -317,9 +317,12 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 // SAFETY: by `Emplacer::new` preconditions
                 let size_of_val = unsafe { ValidSize::<T>::new_unchecked(size_of_val.get()) };
 
+                let unused_bytes = self.byte_capacity.get() - self.byte_len().get();
+                let needed_bytes = layout.size().saturating_sub(unused_bytes);
+
                 let reserve_result = self
                     .try_reserve(1)
-                    .and_then(|()| self.try_reserve_additional_bytes_align(layout.size(), ()));
+                    .and_then(|()| self.try_reserve_additional_bytes_align(needed_bytes, ()));
                 unwrap_try_reserve_result(reserve_result);
 
                 // SAFETY: precondition of function
@@ -545,9 +548,12 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 // SAFETY: by `Emplacer::new` preconditions
                 let size_of_val = unsafe { ValidSize::<T>::new_unchecked(size_of_val.get()) };
 
+                let unused_bytes = self.byte_capacity.get() - self.byte_len().get();
+                let needed_bytes = layout.size().saturating_sub(unused_bytes);
+
                 let reserve_result = self
                     .try_reserve(1)
-                    .and_then(|()| self.try_reserve_additional_bytes_align(layout.size(), ()));
+                    .and_then(|()| self.try_reserve_additional_bytes_align(needed_bytes, ()));
                 unwrap_try_reserve_result(reserve_result);
 
                 let start_offset = self.byte_len();
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 82bc49d..4014da7 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -658,11 +658,11 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             &mut |layout, metadata, inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
                 let (unaligned_size_of_val, align_of_val) = decompose(layout);
 
+                let unused_bytes = self.byte_capacity.get() - self.aligned_byte_len().get();
+                let needed_bytes = unaligned_size_of_val.get().saturating_sub(unused_bytes);
+
                 let reserve_result = self.try_reserve(1).and_then(|()| {
-                    self.try_reserve_additional_bytes_align(
-                        unaligned_size_of_val.get(),
-                        align_of_val,
-                    )
+                    self.try_reserve_additional_bytes_align(needed_bytes, align_of_val)
                 });
                 unwrap_try_reserve_result(reserve_result);
 
@@ -905,8 +905,11 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             &mut |layout: Layout, metadata, inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
                 let (size_of_val, align_of_val) = decompose(layout);
 
+                let unused_bytes = self.byte_capacity.get() - self.aligned_byte_len().get();
+                let needed_bytes = layout.size().saturating_sub(unused_bytes);
+
                 let reserve_result = self.try_reserve(1).and_then(|()| {
-                    self.try_reserve_additional_bytes_align(layout.size(), align_of_val)
+                    self.try_reserve_additional_bytes_align(needed_bytes, align_of_val)
                 });
                 unwrap_try_reserve_result(reserve_result);
 
-- 
2.43.0


From e33d9226a66a29ae6a9b81b177bad2d72108955b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 15/19] fix: alignment of `CStr` is not the alignment of a
 reference to it

---
 src/marker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/marker.rs b/src/marker.rs
index 4eda8c9..11ace36 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -39,5 +39,5 @@ unsafe impl Aligned for str {
 
 // SAFETY: All `CStrs`s have the same alignment
 unsafe impl Aligned for CStr {
-    const ALIGN: ValidAlign = ValidAlign::new(mem::align_of_val(&c"")).unwrap();
+    const ALIGN: ValidAlign = ValidAlign::new(mem::align_of_val(c"")).unwrap();
 }
-- 
2.43.0


From 3aedd0da1ebc6e6fc58cb047824e898cd9091f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 16/19] fix: layout of a slice emplaced from a `Vec` is that of
 its elements, not its capacity

---
 emplacable/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/emplacable/src/lib.rs b/emplacable/src/lib.rs
index a6ffadd..235e892 100644
--- a/emplacable/src/lib.rs
+++ b/emplacable/src/lib.rs
@@ -1080,8 +1080,9 @@ impl<T> IntoEmplacable<[T]> for Vec<T> {
             let ptr = vec.as_mut_ptr();
             let len = vec.len();
             let capacity = vec.capacity();
+            let layout = Layout::for_value(vec.as_slice());
             // SAFETY: values come from the vec
-            let layout = unsafe {
+            let alloc_layout = unsafe {
                 Layout::from_size_align_unchecked(
                     capacity.unchecked_mul(mem::size_of::<T>()),
                     mem::align_of::<T>(),
@@ -1107,10 +1108,10 @@ impl<T> IntoEmplacable<[T]> for Vec<T> {
                 }
             });
 
-            if layout.size() > 0 {
+            if alloc_layout.size() > 0 {
                 // SAFETY: deallocating what the `Vec` allocated. The `Vec` is in a `ManuallyDrop`,
                 // so no double-drop
-                unsafe { alloc::dealloc(ptr.cast(), layout) }
+                unsafe { alloc::dealloc(ptr.cast(), alloc_layout) }
             }
         };
 
-- 
2.43.0


From ea0e37c383eb2ec766e93027f26186ac22e5f559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 17/19] fix: build without the `alloc` feature

---
 emplacable/src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/emplacable/src/lib.rs b/emplacable/src/lib.rs
index 235e892..ec09d53 100644
--- a/emplacable/src/lib.rs
+++ b/emplacable/src/lib.rs
@@ -94,13 +94,14 @@ extern crate std;
 #[cfg(feature = "alloc")]
 use alloc_crate::{alloc, boxed::Box, ffi::CString, rc::Rc, string::String, sync::Arc, vec::Vec};
 
+#[cfg(feature = "alloc")]
+use core::pin::Pin;
 use core::{
     alloc::Layout,
     ffi::CStr,
     marker::{PhantomData, Unsize},
     mem::{self, ManuallyDrop, MaybeUninit},
     ops::FnMut,
-    pin::Pin,
     ptr::{self, addr_of, Pointee},
 };
 #[cfg(feature = "std")]
@@ -116,14 +117,17 @@ pub mod macro_exports {
     pub use core;
     pub use u8;
 
+    #[cfg(feature = "alloc")]
     use alloc_crate::boxed::Box;
     use core::{
         alloc::{AllocError, Allocator, Layout},
         cell::Cell,
-        marker::{PhantomData, Unsize},
+        marker::PhantomData,
         mem::{self, MaybeUninit},
-        ptr::{self, NonNull},
+        ptr::NonNull,
     };
+    #[cfg(feature = "alloc")]
+    use core::{marker::Unsize, ptr};
 
     // Implementation detail of `unsize` macro.
     #[cfg_attr(not(debug_assertions), repr(transparent))]
@@ -133,9 +137,11 @@ pub mod macro_exports {
         allocated: bool,
     }
 
+    #[cfg(feature = "alloc")]
     pub type ImplementationDetailDoNotUseBox<'a, T, S> =
         Box<T, &'a ImplementationDetailDoNotUse<S>>;
 
+    #[cfg(feature = "alloc")]
     pub fn do_not_use_box_unsize<T, S>(
         val: S,
         a: &ImplementationDetailDoNotUse<S>,
@@ -187,8 +193,10 @@ pub mod macro_exports {
         unsafe fn deallocate(&self, _: NonNull<u8>, _: Layout) {}
     }
 
+    #[cfg(feature = "alloc")]
     pub type FakeBoxStr<'a> = Box<str, NonAllocator<'a>>;
 
+    #[cfg(feature = "alloc")]
     pub fn fake_box_str<const LEN: usize>(buf: &mut [MaybeUninit<u8>; LEN]) -> FakeBoxStr<'_> {
         let wide_ptr: *mut str = ptr::from_raw_parts_mut(buf.as_mut_ptr(), LEN);
 
-- 
2.43.0


From 75f17b029ab07edb72edf513574f412be03711e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:59 +0000
Subject: [PATCH 18/19] fix: do not assert byte capacity when reserving bytes
 for zero-sized elements

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2877713..2affdcd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -582,8 +582,11 @@ impl<T: ?Sized> UnsizedVec<T> {
             .inner
             .try_reserve_additional_bytes_align(needed_bytes, align);
 
+        // A vector of zero-sized `Sized` elements never has any byte capacity.
         debug_assert!(
-            result.is_err() || self.byte_capacity() >= self.byte_len() + additional_bytes
+            result.is_err()
+                || self.byte_capacity() == 0
+                || self.unused_byte_cap() >= additional_bytes
         );
 
         result
-- 
2.43.0


From c6fe8de0d04499f966de07e0205f3803c0b4a21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:18 +0000
Subject: [PATCH 19/19] fix: pushing through an emplacable takes amortized
 constant time

push_with asked for exactly the bytes that were missing, so that every
push reallocated the byte storage, although the documentation promises
amortized O(1) pushes and push keeps that promise.
---
 src/inner/aligned.rs   | 18 +++++++++++++++---
 src/inner/unaligned.rs | 13 +++++++++++++
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 017d55b..6112f6d 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -551,9 +551,21 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 let unused_bytes = self.byte_capacity.get() - self.byte_len().get();
                 let needed_bytes = layout.size().saturating_sub(unused_bytes);
 
-                let reserve_result = self
-                    .try_reserve(1)
-                    .and_then(|()| self.try_reserve_additional_bytes_align(needed_bytes, ()));
+                let reserve_result = self.try_reserve(1).and_then(|()| {
+                    // First we try to double the byte capacity.
+                    // if that fails, we try again with only what we really need.
+                    let optimist_bytes = self.byte_capacity.get();
+
+                    if 0 < needed_bytes && needed_bytes < optimist_bytes {
+                        let result = self.try_reserve_additional_bytes_align(optimist_bytes, ());
+
+                        if result.is_ok() {
+                            return result;
+                        }
+                    }
+
+                    self.try_reserve_additional_bytes_align(needed_bytes, ())
+                });
                 unwrap_try_reserve_result(reserve_result);
 
                 let start_offset = self.byte_len();
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 4014da7..644e891 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -909,6 +909,19 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 let needed_bytes = layout.size().saturating_sub(unused_bytes);
 
                 let reserve_result = self.try_reserve(1).and_then(|()| {
+                    // First we try to double the byte capacity.
+                    // if that fails, we try again with only what we really need.
+                    let optimist_bytes = self.byte_capacity.get();
+
+                    if 0 < needed_bytes && needed_bytes < optimist_bytes {
+                        let result =
+                            self.try_reserve_additional_bytes_align(optimist_bytes, align_of_val);
+
+                        if result.is_ok() {
+                            return result;
+                        }
+                    }
+
                     self.try_reserve_additional_bytes_align(needed_bytes, align_of_val)
                 });
                 unwrap_try_reserve_result(reserve_result);
-- 
2.43.0

