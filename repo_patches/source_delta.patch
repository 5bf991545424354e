From 2277a26257dda36f8f4d1bc30cee23eef02e965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 01/12] fix: detect a lone hole in Leaf::is_hole

A single hole is stored as [None, Some(_)], but is_hole only looked at the
first entry, so a slice moved out by a panicking split_at/try_join was still
handed out by get, iter and borrow_slice.
---
 src/tree/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree/node.rs b/src/tree/node.rs
index c2fe71b..c49bfda 100644
--- a/src/tree/node.rs
+++ b/src/tree/node.rs
@@ -2737,7 +2737,7 @@ where
         //
         // It's worth optimizing this function in this way because `is_hole` may be quite hot.
         let hole_x = self.holes[0].map(|x| x.get()).unwrap_or(0); // no-op
-        let hole_y = self.holes[0].map(|y| y.get()).unwrap_or(0); // no-op
+        let hole_y = self.holes[1].map(|y| y.get()).unwrap_or(0); // no-op
 
         let plus_one = k_idx + 1;
         plus_one == hole_x || plus_one == hole_y
-- 
2.43.0


From e92998addd73048ca37e22014fc031f6b9841b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 02/12] fix: require Send for sharing clone-on-write trees
 between threads

---
 src/param.rs    | 18 ++++++++++++++++++
 src/tree/mod.rs | 12 ++++++------
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index 574cfe8..7c9a4e3 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -148,6 +148,20 @@ pub trait SupportsInsert<I, S, const M: usize>: sealed::YouCantImplementThis {
 /// [`SliceRef`]: crate::SliceRef
 pub trait RleTreeIsSend<I, S> {}
 
+/// Marker trait for which [`RleTree`]s can implement [`Sync`], based on their [`RleTreeConfig`]
+///
+/// This is the [`Sync`] counterpart of [`RleTreeIsSend`]; refer to its documentation for why the
+/// bound is expressed as a separate trait.
+///
+/// | Parameter | Requirements |
+/// |-----------|--------------|
+/// | [`NoFeatures`] | `I: Sync` and `S: Sync`, because a shared reference to the tree only gives shared access to the values. |
+/// | [`AllowCow`] | Just like `Arc`, a shared reference to the tree can be used to produce another owner of the values (with `clone`), which may be the one to drop them. So we must have `I: Send + Sync` **and** `S: Send + Sync`. |
+/// | [`AllowSliceRefs`] | Never, for the same reasons as with [`RleTreeIsSend`]. |
+///
+/// [`RleTree`]: crate::RleTree
+pub trait RleTreeIsSync<I, S> {}
+
 pub(crate) mod sealed {
     /// It's a trait you (the user of this crate) can't reach
     pub trait TraitYouCantReach {}
@@ -305,3 +319,7 @@ impl<I: Clone, S: Clone, const M: usize> SupportsInsert<I, S, M> for AllowCow {
 // Refer to `RleTreeIsSend` for more information about impelmenting `Send`
 impl<I: Send, S: Send> RleTreeIsSend<I, S> for NoFeatures {}
 impl<I: Send + Sync, S: Send + Sync> RleTreeIsSend<I, S> for AllowCow {}
+
+// Refer to `RleTreeIsSync` for more information about implementing `Sync`
+impl<I: Sync, S: Sync> RleTreeIsSync<I, S> for NoFeatures {}
+impl<I: Send + Sync, S: Send + Sync> RleTreeIsSync<I, S> for AllowCow {}
diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index f4988a6..2db2d7d 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -2,8 +2,8 @@
 
 use crate::cursor::{Cursor, CursorBuilder, NoCursor, PathComponent};
 use crate::param::{
-    self, AllowSliceRefs, BorrowState, RleTreeConfig, RleTreeIsSend, SliceRefStore as _,
-    SupportsInsert,
+    self, AllowSliceRefs, BorrowState, RleTreeConfig, RleTreeIsSend, RleTreeIsSync,
+    SliceRefStore as _, SupportsInsert,
 };
 use crate::public_traits::{Index, Slice};
 use crate::range::RangeBounds;
@@ -130,8 +130,8 @@ where
 // `AllowCow`, the interior mutability that we *do* have is solely around the `Arc`s or
 // `AtomicUsize`s for tracking reference counts, which are both `Send + Sync`, and should be fine
 // from `[Ref]UnwindSafe`. However, because `AllowCow` *also* allows the same value to be viewed
-// from multiple threads, implementing `Send` requires `Send + Sync` on both `I` and `S`. For more,
-// refer to the docs on `RleTreeIsSend`.
+// from multiple threads, implementing `Send` or `Sync` requires `Send + Sync` on both `I` and `S`.
+// For more, refer to the docs on `RleTreeIsSend` and `RleTreeIsSync`.
 //
 // The tricky one is `AllowSliceRefs`. With `SliceRef`s, we cannot be `Send` or `Sync`, because the
 // shared ownership is managed by `Cell` and `RefCell`. They *can* be `UnwindSafe` or
@@ -152,8 +152,8 @@ unsafe impl<I, S, P, const M: usize> Send for RleTree<I, S, P, M> where
 {
 }
 
-unsafe impl<I: Sync, S: Sync, P: Sync, const M: usize> Sync for RleTree<I, S, P, M> where
-    P: RleTreeConfig<I, S, M>
+unsafe impl<I, S, P, const M: usize> Sync for RleTree<I, S, P, M> where
+    P: RleTreeConfig<I, S, M> + RleTreeIsSync<I, S>
 {
 }
 
-- 
2.43.0


From 4cb2d1cd8ca497d93d0f5d15896e4bb7c63f6fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 03/12] fix: descend into the child when cursor_to meets a
 shared node

---
 src/tree/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 2db2d7d..8e39685 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -493,9 +493,12 @@ where
                             let child = unsafe { n.into_child(c_idx) };
                             // note: adding P::COW means the compiler knows it will always be false
                             let mismatched_parent = P::COW
-                                && matches!(child.leaf().parent(), Some(p) if p.ptr != n.ptr());
+                                && matches!(
+                                    child.leaf().parent(),
+                                    Some(p) if p.ptr != n.ptr() || p.idx_in_parent != c_idx
+                                );
                             if mismatched_parent {
-                                let mut c: C = recurse(node, target);
+                                let mut c: C = recurse(child, target);
                                 c.prepend_to_path(PathComponent { child_idx: c_idx });
                                 break c;
                             }
-- 
2.43.0


From 569810edb6bcb3696fcf2c0c8a2f28df1de26284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 04/12] fix: make the nightly destructor's drop check cover the
 slices

---
 src/tree/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 8e39685..72cbd2c 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -8,6 +8,7 @@ use crate::param::{
 use crate::public_traits::{Index, Slice};
 use crate::range::RangeBounds;
 use std::fmt::Debug;
+use std::marker::PhantomData;
 use std::mem::ManuallyDrop;
 use std::ops::Range;
 use std::panic::{RefUnwindSafe, UnwindSafe};
@@ -166,6 +167,9 @@ where
     handle: ManuallyDrop<NodeHandle<ty::Unknown, borrow::Owned, I, S, P, M>>,
     len: usize,
     refs_store: <P as RleTreeConfig<I, S, M>>::SliceRefStore,
+    // Tells the drop checker that dropping the root drops `I`s and `S`s. Without this, nothing
+    // would prevent the `#[may_dangle]` destructor from using references that have expired.
+    marker: PhantomData<Box<(I, S)>>,
 }
 
 #[cfg(not(feature = "nightly"))]
@@ -353,6 +357,7 @@ where
                 handle: ManuallyDrop::new(handle),
                 len: 1,
                 refs_store: P::SliceRefStore::new(store_handle),
+                marker: PhantomData,
             }),
         }
     }
@@ -778,6 +783,7 @@ where
                     handle: ManuallyDrop::new(root.handle.as_immut().deep_clone().erase_unique()),
                     len: root.len,
                     refs_store: Default::default(),
+                    marker: PhantomData,
                 }),
             },
         }
@@ -801,6 +807,7 @@ impl<I, S: Clone, const M: usize> Clone for RleTree<I, S, param::AllowCow, M> {
                         len: root.len,
                         // refs_store will be empty because this is a COW-enabled tree
                         refs_store: Default::default(),
+                        marker: PhantomData,
                     }),
                 }
             }
-- 
2.43.0


From 1265ee6f6b5f072839f65012ab2017a28ae95133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 05/12] fix: count clones of invalid slice references

---
 src/tree/slice_ref.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tree/slice_ref.rs b/src/tree/slice_ref.rs
index 5442c00..5b0816c 100644
--- a/src/tree/slice_ref.rs
+++ b/src/tree/slice_ref.rs
@@ -848,13 +848,15 @@ impl<I, S, const M: usize> Clone for SliceRef<I, S, M> {
             None => None,
             Some(r) => {
                 let refs = r.borrow();
-                bump_weak_count(&self.inner().weak_count);
                 let new_id = refs.clone(&this_id);
                 self.id.set(Some(this_id));
                 Some(new_id)
             }
         });
 
+        // Even if the new `SliceRef` isn't valid, it'll still decrement the count when it's dropped
+        bump_weak_count(&self.inner().weak_count);
+
         SliceRef {
             inner: self.inner,
             id: Cell::new(id),
-- 
2.43.0


From 7fd62a2d1f8749b98fc43766d0915f4802526daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 06/12] fix: keep slice references usable while a borrow
 outlives the tree

---
 src/tree/slice_ref.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tree/slice_ref.rs b/src/tree/slice_ref.rs
index 5b0816c..1282f79 100644
--- a/src/tree/slice_ref.rs
+++ b/src/tree/slice_ref.rs
@@ -456,8 +456,11 @@ impl<I, S, const M: usize> Drop for SliceRefStore<I, S, M> {
         inner.borrow.set(new_state);
 
         // drop(ish) the inner contents. `false` because the tree's already handled by our caller,
-        // in `destruct_root`
-        inner.drop(false);
+        // in `destruct_root`. If there's still a borrow on the tree, then other `SliceRef`s can
+        // still use the contents; everything will be dropped alongside the last borrow instead.
+        if matches!(new_state, BorrowState::Dropped) {
+            inner.drop(false);
+        }
 
         // If everything has been *completely* dropped, and there's no weak references left (in the
         // form of `SliceRef`s), then we can deallocate the backing allocation.
-- 
2.43.0


From 9f2d2c78590cfa87492e9f03a93cc9456ee2f382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:03 +0000
Subject: [PATCH 07/12] fix: don't hold a reference to the slice while a borrow
 drops the tree

---
 src/tree/slice_ref.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/tree/slice_ref.rs b/src/tree/slice_ref.rs
index 1282f79..5690e1b 100644
--- a/src/tree/slice_ref.rs
+++ b/src/tree/slice_ref.rs
@@ -228,7 +228,12 @@ pub enum ShouldDrop {
 // conditions *created* during its destructor
 pub struct Borrow<'a, T> {
     /// The original `Slice`, or a reference produced from it
-    val: &'a T,
+    //
+    // This is a pointer so that we don't hold a reference to the slice while dropping the tree in
+    // our destructor -- the same reason why `std::cell::Ref` does it. Existence of the `Borrow`
+    // guarantees that it's valid.
+    val: NonNull<T>,
+    marker: PhantomData<&'a T>,
     /// The state of the original borrow
     ///
     /// Existence of this `Ref` guarantees the borrow is `Immutable { .. }`, except for the few
@@ -913,11 +918,12 @@ impl<'r, I, S, const M: usize> TemporaryBorrow<'r, I, S, M> {
         // don't use it improperly. We know that it'll be sound because: (a) the `BorrowState`
         // ensures that the tree won't be modified out from underneath us, and (b) the tree is
         // not dropped until *at least* the `Borrow` is dropped.
-        let val = unsafe { handle.borrow_slice() };
+        let val = NonNull::from(unsafe { handle.borrow_slice() });
 
         self.ownership_transferred = true;
         Borrow {
             val,
+            marker: PhantomData,
             borrow: &self.inner.borrow,
             data_ptr: NonNull::from(self.inner).cast::<()>(),
             drop_fn: Self::drop_tree_once_no_borrows,
@@ -1006,7 +1012,8 @@ impl<'a, T> Deref for Borrow<'a, T> {
     type Target = T;
 
     fn deref(&self) -> &T {
-        self.val
+        // SAFETY: existence of the `Borrow` guarantees that `val` is valid
+        unsafe { self.val.as_ref() }
     }
 }
 
@@ -1017,7 +1024,8 @@ impl<'a, T> Borrow<'a, T> {
     /// itself. As such, it must be called as `Borrow::map(...)`.
     pub fn map<U>(this: Self, f: impl FnOnce(&T) -> &U) -> Borrow<'a, U> {
         let new = Borrow {
-            val: f(this.val),
+            val: NonNull::from(f(&*this)),
+            marker: PhantomData,
             borrow: this.borrow,
             data_ptr: this.data_ptr,
             drop_fn: this.drop_fn,
@@ -1042,6 +1050,7 @@ impl<'a, T> Clone for Borrow<'a, T> {
 
         Borrow {
             val: self.val,
+            marker: PhantomData,
             borrow: self.borrow,
             data_ptr: self.data_ptr,
             drop_fn: self.drop_fn,
-- 
2.43.0


From 3e766b7ddc14134076a5bd9d7b01a9408ff8c288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:50 +0000
Subject: [PATCH 08/12] fix: subtract the start from the left in
 SliceEntry::size

The size of an entry is what is left of its end after taking its start away
from the left. With an index whose addition doesn't commute, taking it away
from the right gives something else.
---
 src/tree/entry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree/entry.rs b/src/tree/entry.rs
index 37ed52c..fc51234 100644
--- a/src/tree/entry.rs
+++ b/src/tree/entry.rs
@@ -89,7 +89,7 @@ where
     ///
     /// This is essentially a convenience method roughly equivalent to `self.range().len()`.
     pub fn size(&self) -> I {
-        self.range_end.sub_right(self.range_start)
+        self.range_end.sub_left(self.range_start)
     }
 
     /// Returns a reference to the slice for this entry
-- 
2.43.0


From 8ad7f5c5aab8dccb5753df5a7a5be9cf7d86a67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:01 +0000
Subject: [PATCH 09/12] fix: shift positions by the difference of the new and
 old ends

When the size of a slice or child grows, later positions are shifted by
new_end - old_end in front of them. With an index whose addition doesn't
commute the old end has to be taken away from the right of the new one:
taking it away from the left gives the part added at the end, which does not
belong in front of the positions.
---
 src/tree/fix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tree/fix.rs b/src/tree/fix.rs
index 2e53b2c..16b3777 100644
--- a/src/tree/fix.rs
+++ b/src/tree/fix.rs
@@ -730,7 +730,7 @@ pub(super) unsafe fn shift_keys<'t, Ty, I, S, P, const M: usize, const IS_INCREA
     // Of course, this is only valid if `new_end < old_end` -- so if `IS_INCREASE` is false.
     // Naturally, there's a rephrasing for when `new_end > old_end`:
     //
-    //   k_pos.add_left(new_end.sub_left(old_end))           FIXME: prove this?
+    //   k_pos.add_left(new_end.sub_right(old_end))
     //
     // This one is to be used when `IS_INCREASE` is true.
     //
@@ -742,7 +742,7 @@ pub(super) unsafe fn shift_keys<'t, Ty, I, S, P, const M: usize, const IS_INCREA
     let new_end = pos.add_right(new_size);
 
     let abs_difference = match IS_INCREASE {
-        true => new_end.sub_left(old_end),
+        true => new_end.sub_right(old_end),
         false => old_end.sub_right(new_end),
     };
 
-- 
2.43.0


From 887e4be6592a2e73977c99a31999ad18847fc4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:01 +0000
Subject: [PATCH 10/12] fix: take the size of a child from the right of its end

The position of a child in its parent is the position of the next key without
the size of the child, which is on the right of it.
---
 src/tree/fix.rs    | 2 +-
 src/tree/insert.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tree/fix.rs b/src/tree/fix.rs
index 16b3777..a245c0e 100644
--- a/src/tree/fix.rs
+++ b/src/tree/fix.rs
@@ -539,7 +539,7 @@ where
                         .leaf()
                         .try_key_pos(c_idx)
                         .unwrap_or_else(|| node.leaf().subtree_size());
-                    next_key_pos.sub_left(self.old_size)
+                    next_key_pos.sub_right(self.old_size)
                 });
 
                 (node.erase_type(), c_idx, Some(c_idx), pos)
diff --git a/src/tree/insert.rs b/src/tree/insert.rs
index b9047af..c46429c 100644
--- a/src/tree/insert.rs
+++ b/src/tree/insert.rs
@@ -1076,7 +1076,7 @@ where
                             .leaf()
                             .try_key_pos(c_idx)
                             .unwrap_or_else(|| node.leaf().subtree_size());
-                        next_key_pos.sub_left(sizes.old_size)
+                        next_key_pos.sub_right(sizes.old_size)
                     }
                 });
 
-- 
2.43.0


From 3ff34ada6eb6b440aa71cebd1df450815b7e088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:56 +0000
Subject: [PATCH 11/12] fix: do not shift slices in a node that has holes

---
 src/tree/node.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tree/node.rs b/src/tree/node.rs
index c49bfda..b7689e3 100644
--- a/src/tree/node.rs
+++ b/src/tree/node.rs
@@ -2164,6 +2164,11 @@ where
             weak_assert!(self.leaf().len < self.leaf().max_len());
         }
 
+        // Shifting the values would leave `holes` referring to the wrong ones
+        if self.leaf().has_holes() {
+            panic_invalid_state();
+        }
+
         let refid = UnsafeCell::new(<resolve![P::SliceRefStore::OptionRefId]>::default());
 
         let this_ptr = self.ptr;
@@ -2467,6 +2472,11 @@ where
             weak_assert!(self.height.as_u8() - 1 == child.height);
         }
 
+        // Shifting the values would leave `holes` referring to the wrong ones
+        if self.leaf().has_holes() {
+            panic_invalid_state();
+        }
+
         let this_ptr = self.ptr;
         let height = self.height.as_u8();
         let pos = self.leaf().try_key_pos(key_idx).unwrap_or(self.leaf().total_size);
-- 
2.43.0


From ccf43423a2614ea642056a201586a3b74e077a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:26 +0000
Subject: [PATCH 12/12] fix: read the path of a BoundedCursor from where it was
 written

The first component was written one place before the end and the start moved past it, so that
a cursor without a path had one component, and every path began with a placeholder.
---
 src/cursor.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 5ffc1b2..9c2165f 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -96,8 +96,7 @@ impl<const LEN: usize> Cursor for BoundedCursor<LEN> {
     fn new_empty() -> Self {
         let len_u8 = match u8::try_from(LEN) {
             Err(_) => panic!("tried to construct BoundedCursor with LEN > u8::MAX"),
-            Ok(0) => 0,
-            Ok(len) => len - 1,
+            Ok(len) => len,
         };
 
         BoundedCursor {
@@ -116,8 +115,8 @@ impl<const LEN: usize> Cursor for BoundedCursor<LEN> {
             self.path.copy_within(0..LEN - 1, 1);
             self.path[0] = component;
         } else {
-            self.path[self.start_at as usize] = component;
             self.start_at -= 1;
+            self.path[self.start_at as usize] = component;
         }
     }
 
-- 
2.43.0

