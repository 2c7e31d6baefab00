From b52c05cf17e4e9183fb5f9569bcb2447759f3ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 1/9] fix: cloning a parts iterator keeps the capacity its
 iteration relies on

---
 src/internal/bin_parts_iter.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/internal/bin_parts_iter.rs b/src/internal/bin_parts_iter.rs
index e9b8871..b627996 100644
--- a/src/internal/bin_parts_iter.rs
+++ b/src/internal/bin_parts_iter.rs
@@ -17,7 +17,6 @@ pub trait BinarySplitOff {
 
 /// An iterator over parts of an initial whole. Parts are obtained by repeatedly
 /// splitting off left or right halves.
-#[derive(Clone)]
 pub struct BinaryPartsIter<S> {
     num_parts: usize,
     num_yielded_front: usize,
@@ -25,6 +24,21 @@ pub struct BinaryPartsIter<S> {
     deque: VecDeque<S>,
 }
 
+impl<S: Clone> Clone for BinaryPartsIter<S> {
+    fn clone(&self) -> Self {
+        // VecDeque's own Clone doesn't preserve capacity, but next() and
+        // next_back() count on never having to grow the deque.
+        let mut deque = VecDeque::with_capacity(self.deque.capacity());
+        deque.extend(self.deque.iter().cloned());
+        Self {
+            num_parts: self.num_parts,
+            num_yielded_front: self.num_yielded_front,
+            num_yielded_back: self.num_yielded_back,
+            deque,
+        }
+    }
+}
+
 /// A marker trait that indicates that a type's BinarySplitOff impl acts
 /// like splitting a slice. Succintly, this means the type's impls of
 /// BinarySplitOff and Deref<Target=[T]> commute with each other. More
-- 
2.43.0


From ad9f85147f7f8a0eb5f1603ef6cead8587618237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:09 +0000
Subject: [PATCH 2/9] fix: ArcSlice no longer leaks the weak pointers to its
 guards

---
 src/arc/arc_slice.rs | 77 +++++++++++++++++++++++++-------------------
 src/internal/gate.rs |  8 +++++
 2 files changed, 51 insertions(+), 34 deletions(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index 78c7ca9..39c2611 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -1,8 +1,10 @@
 use core::{
+    cell::UnsafeCell,
     iter::FusedIterator,
     marker::PhantomData,
     mem,
     ops::Deref,
+    panic::RefUnwindSafe,
     ptr::{self, NonNull},
     slice,
     sync::atomic::{AtomicPtr, Ordering},
@@ -37,10 +39,9 @@ pub (in crate::arc) struct ArcSliceData<T> {
     // Ditto left_child on really AtomicPtr<Self>
     right_child: AtomicPtr<()>,
     parent: Weak<Self>,
-    // Obtained via Box<Weak<DataGuard>>::into_raw(). Could instead do this
-    // as an AtomicPtr<DataGuard> obtained via Weak<DataGuard>::into_raw(),
-    // but avoiding using of unstable Weak::into_raw.
-    guard: AtomicPtr<Weak<DataGuard>>,
+    // Only accessed while guard_gate is closed. See DataGuard::guard.
+    guard: UnsafeCell<Weak<DataGuard>>,
+    guard_gate: Gate,
     phantom_item: PhantomData<T>,
     phantom_child: PhantomData<Self>,
 }
@@ -93,7 +94,6 @@ impl<T> ArcSliceData<T> {
     }
 
     fn with_data_and_parent(ptr: NonNull<T>, len: usize, alloc: Option<Arc<SliceAlloc<T>>>, parent: Weak<Self>) -> Self {
-        let guard = AtomicPtr::new(Box::into_raw(Box::new(Weak::new())) as _);
         Self {
             ptr,
             len,
@@ -101,7 +101,8 @@ impl<T> ArcSliceData<T> {
             parent,
             left_child: AtomicPtr::default(),
             right_child: AtomicPtr::default(),
-            guard,
+            guard: UnsafeCell::new(Weak::new()),
+            guard_gate: Gate::new(),
             phantom_item: PhantomData,
             phantom_child: PhantomData,
         }
@@ -274,6 +275,10 @@ impl<T> Drop for ArcSliceData<T> {
 unsafe impl<T: Send + Sync> Send for ArcSliceData<T> { }
 unsafe impl<T: Sync> Sync for ArcSliceData<T> { }
 
+// Our UnsafeCell only ever gets written in one piece, so a panic can't
+// leave it in a bad state. All that matters is the T's.
+impl<T: RefUnwindSafe> RefUnwindSafe for ArcSliceData<T> { }
+
 impl<T> Deref for ArcSliceData<T> {
     type Target = [T];
 
@@ -284,36 +289,40 @@ impl<T> Deref for ArcSliceData<T> {
 
 impl DataGuard {
     fn guard<T>(data: &ArcSliceData<T>) -> Arc<Self> {
-        let mut existing_guard_ptr = data.guard.load(Ordering::Acquire);
-        // We guarantee that ArcSliceData.guard is always a valid pointer
-        let mut existing_guard = unsafe { (*existing_guard_ptr).upgrade() };
-        while existing_guard.is_none() {
-            // No reference to a live existing guard. We'll try constructing
-            // a new guard as we do for RcSliceData and then atomically
-            // swapping the new guard into place.
-            let parent_guard = data.parent.upgrade()
-                .map(|parent_data| Self::guard(&parent_data));
-            let guard = Arc::new(Self {
-                _parent: parent_guard,
-                clone_child_gate: Gate::new(),
-                downgrade_gate: Gate::new(),
-            });
-            let guard_ptr = Box::into_raw(Box::new(Arc::downgrade(&guard)));
-            let prev_guard_ptr = data.guard.compare_and_swap(existing_guard_ptr, guard_ptr, Ordering::AcqRel);
-            if prev_guard_ptr == existing_guard_ptr {
-                // Swap succeeded. Set existing_guard to the guard we just
-                // successfully created to exit the loop.
-                existing_guard = Some(guard);
-            } else {
-                // Uh oh! Swap failed. We must've just lost a race to guard this
-                // slice data. Reconstitue our guard_ptr to drop it, then keep
-                // looping until we manage to observe a live existing guard.
-                unsafe { Box::from_raw(guard_ptr); }
-                existing_guard_ptr = prev_guard_ptr;
-                existing_guard = unsafe { (*existing_guard_ptr).upgrade() };
+        // Check for a live existing guard.
+        {
+            let _guard_latch = data.guard_gate.close();
+            if let Some(existing_guard) = unsafe { (*data.guard.get()).upgrade() } {
+                return existing_guard;
+            }
+        }
+        // No reference to a live existing guard. We'll try constructing
+        // a new guard as we do for RcSliceData. We do this w/o holding
+        // the guard_gate's latch since it might run arbitrary code (the last
+        // strong ref to our parent data might get dropped here).
+        let parent_guard = data.parent.upgrade()
+            .map(|parent_data| Self::guard(&parent_data));
+        let guard = Arc::new(Self {
+            _parent: parent_guard,
+            clone_child_gate: Gate::new(),
+            downgrade_gate: Gate::new(),
+        });
+        let guard_latch = data.guard_gate.close();
+        let existing_guard = unsafe { (*data.guard.get()).upgrade() };
+        match existing_guard {
+            Some(existing_guard) => {
+                // We must've just lost a race to guard this slice data. Use
+                // the guard that won the race. Our own guard gets dropped,
+                // but only after reopening the gate.
+                drop(guard_latch);
+                existing_guard
+            },
+            None => {
+                unsafe { *data.guard.get() = Arc::downgrade(&guard); }
+                drop(guard_latch);
+                guard
             }
         }
-        existing_guard.unwrap_or_else(|| unreachable!())
     }
 }
 
diff --git a/src/internal/gate.rs b/src/internal/gate.rs
index b91bc2e..9a6491a 100644
--- a/src/internal/gate.rs
+++ b/src/internal/gate.rs
@@ -23,6 +23,14 @@ impl Gate {
             Some(Latch(self))
         }
     }
+
+    /// Close this gate, waiting for it to open first if need be.
+    pub fn close(&self) -> Latch<'_> {
+        loop {
+            if let Some(latch) = self.try_close() { return latch; }
+            self.wait_till_open();
+        }
+    }
 }
 
 impl<'a> Drop for Latch<'a> {
-- 
2.43.0


From 88dfcc37118b895ab51dec89e618479af296f4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 3/9] fix: ArcSlice::get_mut synchronizes with threads that
 dropped their references

---
 src/arc/arc_slice.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index 39c2611..ead59bc 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -7,7 +7,7 @@ use core::{
     panic::RefUnwindSafe,
     ptr::{self, NonNull},
     slice,
-    sync::atomic::{AtomicPtr, Ordering},
+    sync::atomic::{fence, AtomicPtr, Ordering},
 };
 use alloc::{
     boxed::Box,
@@ -377,10 +377,14 @@ impl<T> ArcSlice<T> {
         // Check for no weak refs first.
         this.downgrade_gate().try_close().and_then(|_downgrade_latch|
             if 1 == Arc::weak_count(&this.data_guard) {
+                // Any strong ref that a dropped weak ref got upgraded to has to show up below.
+                fence(Ordering::Acquire);
                 this.clone_child_gate().try_close().and_then(|_clone_child_latch|
                     if 1 == Arc::strong_count(&this.data_guard) {
                         if 1 == Arc::strong_count(&this.data) {
-                            // Safe to mutate
+                            // Safe to mutate, but only after whatever other threads did w/ the
+                            // refs they've since dropped. Arc's counts don't synchronize by themselves.
+                            fence(Ordering::Acquire);
                             unsafe { Some(slice::from_raw_parts_mut((*this.data).ptr.as_ptr(), (*this.data).len)) }
                         } else {
                             None
-- 
2.43.0


From 507f7d5ab34b18ecede68758c79065119c1c4ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 4/9] fix: ArcSlice::get_mut no longer races with downgrade

---
 src/arc/arc_slice.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index ead59bc..aa530d4 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -376,7 +376,13 @@ impl<T> ArcSlice<T> {
 
         // Check for no weak refs first.
         this.downgrade_gate().try_close().and_then(|_downgrade_latch|
-            if 1 == Arc::weak_count(&this.data_guard) {
+            // Another strong ref might get downgraded and dropped between checking weak
+            // refs and checking strong refs below if it passed the gate before we closed
+            // it. So first make sure there's no such ref.
+            if 1 == Arc::strong_count(&this.data_guard) && {
+                fence(Ordering::Acquire);
+                1 == Arc::weak_count(&this.data_guard)
+            } {
                 // Any strong ref that a dropped weak ref got upgraded to has to show up below.
                 fence(Ordering::Acquire);
                 this.clone_child_gate().try_close().and_then(|_clone_child_latch|
-- 
2.43.0


From 2d5192f529eb956357cc030e5b88c1816791883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:08 +0000
Subject: [PATCH 5/9] fix: ArcSlice::get_mut sees the WeakSlices of descendants

---
 src/arc/arc_slice.rs | 48 +++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index aa530d4..c9daff2 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -175,6 +175,21 @@ impl<T> ArcSliceData<T> {
         }
     }
 
+    /// Are there any WeakSlices referencing this data or any of its descendants?
+    /// May report false positives if there are other ArcSlices around that reference
+    /// this data or any of its descendants.
+    fn has_weak_slices(self: &Arc<Self>) -> bool {
+        // Besides WeakSlices, it's just our children that hold weak refs to us. Load the
+        // children before the weak count since more children can get added but never removed.
+        let left = self.left_child.load(Ordering::Acquire);
+        let right = self.right_child.load(Ordering::Acquire);
+        let num_children = !left.is_null() as usize + !right.is_null() as usize;
+        num_children != Arc::weak_count(self) ||
+            [left, right].iter().any(|child| !child.is_null() && unsafe {
+                mem::ManuallyDrop::new(Arc::from_raw(*child as *const Self)).has_weak_slices()
+            })
+    }
+
     fn take_left(&mut self) -> Option<Arc<Self>> {
         Self::take_child(&mut self.left_child)
     }
@@ -371,21 +386,18 @@ impl<T> ArcSlice<T> {
     pub fn get_mut(this: &mut Self) -> Option<&mut [T]> {
         // We do the same basic checks as RcSlice::get_mut, but we also have to
         // avoid race conditions while doing so. We solve this w/ short-lived locks.
-        // TODO: Ack! Descendant WeakSlices create unsoundness here for the same
-        // reason they do w/ RcSlice::get_mut. Refactor!
-
-        // Check for no weak refs first.
         this.downgrade_gate().try_close().and_then(|_downgrade_latch|
-            // Another strong ref might get downgraded and dropped between checking weak
-            // refs and checking strong refs below if it passed the gate before we closed
-            // it. So first make sure there's no such ref.
-            if 1 == Arc::strong_count(&this.data_guard) && {
-                fence(Ordering::Acquire);
-                1 == Arc::weak_count(&this.data_guard)
-            } {
-                // Any strong ref that a dropped weak ref got upgraded to has to show up below.
-                fence(Ordering::Acquire);
-                this.clone_child_gate().try_close().and_then(|_clone_child_latch|
+            this.clone_child_gate().try_close().and_then(|_clone_child_latch|
+                // Check strong refs to the guard both before and after checking weak refs:
+                // Another strong ref might get downgraded and dropped in between if it
+                // passed the gates before we closed them, and a weak ref might get
+                // upgraded and dropped.
+                if 1 == Arc::strong_count(&this.data_guard) && {
+                    fence(Ordering::Acquire);
+                    1 == Arc::weak_count(&this.data_guard) && !this.data.has_weak_slices()
+                } {
+                    // Any strong ref that a dropped weak ref got upgraded to has to show up below.
+                    fence(Ordering::Acquire);
                     if 1 == Arc::strong_count(&this.data_guard) {
                         if 1 == Arc::strong_count(&this.data) {
                             // Safe to mutate, but only after whatever other threads did w/ the
@@ -398,10 +410,10 @@ impl<T> ArcSlice<T> {
                     } else {
                         None
                     }
-                )
-            } else {
-                None
-            }
+                } else {
+                    None
+                }
+            )
         )
     }
 
-- 
2.43.0


From 2f3cb8edf3d890ae7c7ded3fc6dda61445817a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:18 +0000
Subject: [PATCH 6/9] fix: closing a gate orders the checks made behind it

The counts behind a gate are read relaxed, and a swap of the gate alone lets
such a read miss what a thread that found the gate open did before.
---
 src/internal/gate.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/internal/gate.rs b/src/internal/gate.rs
index 9a6491a..e8978af 100644
--- a/src/internal/gate.rs
+++ b/src/internal/gate.rs
@@ -1,4 +1,4 @@
-use core::sync::atomic::{AtomicBool, Ordering};
+use core::sync::atomic::{fence, AtomicBool, Ordering};
 
 /// A simple syncrhonization primitive.
 pub struct Gate {
@@ -13,6 +13,9 @@ impl Gate {
     }
 
     pub fn wait_till_open(&self) {
+        // Pairs w/ the fence in try_close: Either we see the gate closed, or whoever closes
+        // it afterwards sees everything that we did beforehand.
+        fence(Ordering::SeqCst);
         while self.is_closed.load(Ordering::SeqCst) {}
     }
 
@@ -20,6 +23,7 @@ impl Gate {
         if self.is_closed.swap(true, Ordering::SeqCst) {
             None
         } else {
+            fence(Ordering::SeqCst);
             Some(Latch(self))
         }
     }
-- 
2.43.0


From 7ac6ea09503615c7c8eddb7b9bdfe5c66c90b094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:06 +0000
Subject: [PATCH 7/9] fix: ArcSlice::into_mut no longer races with upgrades of
 descendants' WeakSlices

An upgrade in progress was visible neither in the guard count nor in the
strong count of the data, so both could succeed and own the same items.
---
 src/arc/arc_slice.rs | 99 ++++++++++++++++++++++++++++++++++----------
 src/internal/gate.rs |  7 +++-
 2 files changed, 84 insertions(+), 22 deletions(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index c9daff2..df02118 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -39,8 +39,9 @@ pub (in crate::arc) struct ArcSliceData<T> {
     // Ditto left_child on really AtomicPtr<Self>
     right_child: AtomicPtr<()>,
     parent: Weak<Self>,
-    // Only accessed while guard_gate is closed. See DataGuard::guard.
-    guard: UnsafeCell<Weak<DataGuard>>,
+    // Only accessed while guard_gate is closed. See DataGuard::guard. None once our
+    // items have been moved to an ArcSliceMut.
+    guard: UnsafeCell<Option<Weak<DataGuard>>>,
     guard_gate: Gate,
     phantom_item: PhantomData<T>,
     phantom_child: PhantomData<Self>,
@@ -101,7 +102,7 @@ impl<T> ArcSliceData<T> {
             parent,
             left_child: AtomicPtr::default(),
             right_child: AtomicPtr::default(),
-            guard: UnsafeCell::new(Weak::new()),
+            guard: UnsafeCell::new(Some(Weak::new())),
             guard_gate: Gate::new(),
             phantom_item: PhantomData,
             phantom_child: PhantomData,
@@ -234,13 +235,50 @@ impl<T> ArcSliceData<T> {
     }
 
     fn forget_items(&mut self) {
-        // Recursively tell left child to forget its items
-        self.take_left().map(|child| Arc::try_unwrap(child).map(|mut child| child.forget_items()));
-        // Recursively tell right child to forget its items
-        self.take_right().map(|child| Arc::try_unwrap(child).map(|mut child| child.forget_items()));
+        // Recursively tell our children to forget their items
+        self.open_child_guards(true);
         // Setting len to 0 turns our Drop impl into a no-op.
         self.len = 0;
     }
+
+    fn children(&self) -> [Option<&Self>; 2] {
+        let left = self.left_child.load(Ordering::Acquire);
+        let right = self.right_child.load(Ordering::Acquire);
+        unsafe { [(left as *const Self).as_ref(), (right as *const Self).as_ref()] }
+    }
+
+    /// Close the guard_gates of all our descendants so that none of their WeakSlices can
+    /// finish getting upgraded. If any descendant is in use already, then leave all of the
+    /// gates open and return false.
+    fn close_child_guards(&self) -> bool {
+        let close = |child: &Self| {
+            mem::forget(child.guard_gate.close());
+            let is_unused = unsafe { &*child.guard.get() }.as_ref().map_or(true, |guard| guard.strong_count() == 0);
+            let is_closed = is_unused && child.close_child_guards();
+            if !is_closed { child.guard_gate.open(); }
+            is_closed
+        };
+        let [left, right] = self.children();
+        if !left.map_or(true, close) { return false; }
+        let is_closed = right.map_or(true, close);
+        if !is_closed { left.into_iter().for_each(|left| left.open_guards(false)); }
+        is_closed
+    }
+
+    /// Undo close_child_guards. If forget_items, then our descendants never get guarded
+    /// again and never drop their items.
+    fn open_child_guards(&self, forget_items: bool) {
+        let [left, right] = self.children();
+        left.into_iter().chain(right).for_each(|child| child.open_guards(forget_items));
+    }
+
+    fn open_guards(&self, forget_items: bool) {
+        self.open_child_guards(forget_items);
+        if forget_items {
+            unsafe { *self.guard.get() = None; }
+        }
+        self.guard_gate.open();
+    }
 }
 
 impl<T> Drop for ArcSliceData<T> {
@@ -249,6 +287,8 @@ impl<T> Drop for ArcSliceData<T> {
         // also to figure out what range of items to drop, if any.
         let left = self.take_left();
         let right = self.take_right();
+        // Likewise our children if we've forgotten our items.
+        if self.guard.get_mut().is_none() { return; }
         let (p, len) = match (left, right) {
             (None, None) => (self.ptr, self.len),
             (Some(_), None) => {
@@ -303,12 +343,13 @@ impl<T> Deref for ArcSliceData<T> {
 }
 
 impl DataGuard {
-    fn guard<T>(data: &ArcSliceData<T>) -> Arc<Self> {
+    /// Guard data. Returns None if data's items have been moved to an ArcSliceMut.
+    fn guard<T>(data: &ArcSliceData<T>) -> Option<Arc<Self>> {
         // Check for a live existing guard.
         {
             let _guard_latch = data.guard_gate.close();
-            if let Some(existing_guard) = unsafe { (*data.guard.get()).upgrade() } {
-                return existing_guard;
+            if let Some(existing_guard) = unsafe { (*data.guard.get()).as_ref()?.upgrade() } {
+                return Some(existing_guard);
             }
         }
         // No reference to a live existing guard. We'll try constructing
@@ -316,26 +357,30 @@ impl DataGuard {
         // the guard_gate's latch since it might run arbitrary code (the last
         // strong ref to our parent data might get dropped here).
         let parent_guard = data.parent.upgrade()
-            .map(|parent_data| Self::guard(&parent_data));
+            .and_then(|parent_data| Self::guard(&parent_data));
         let guard = Arc::new(Self {
             _parent: parent_guard,
             clone_child_gate: Gate::new(),
             downgrade_gate: Gate::new(),
         });
         let guard_latch = data.guard_gate.close();
-        let existing_guard = unsafe { (*data.guard.get()).upgrade() };
+        let existing_guard = unsafe { (*data.guard.get()).as_ref().map(Weak::upgrade) };
         match existing_guard {
-            Some(existing_guard) => {
+            Some(Some(existing_guard)) => {
                 // We must've just lost a race to guard this slice data. Use
                 // the guard that won the race. Our own guard gets dropped,
                 // but only after reopening the gate.
                 drop(guard_latch);
-                existing_guard
+                Some(existing_guard)
+            },
+            Some(None) => {
+                unsafe { *data.guard.get() = Some(Arc::downgrade(&guard)); }
+                drop(guard_latch);
+                Some(guard)
             },
             None => {
-                unsafe { *data.guard.get() = Arc::downgrade(&guard); }
                 drop(guard_latch);
-                guard
+                None
             }
         }
     }
@@ -343,8 +388,13 @@ impl DataGuard {
 
 impl<T> ArcSlice<T> {
     pub (in crate::arc) fn from_data(data: Arc<ArcSliceData<T>>) -> Self {
-        let data_guard = DataGuard::guard(&data);
-        Self { data, data_guard }
+        // Only upgrading can find that data's items are gone.
+        Self::try_from_data(data).unwrap()
+    }
+
+    fn try_from_data(data: Arc<ArcSliceData<T>>) -> Option<Self> {
+        let data_guard = DataGuard::guard(&data)?;
+        Some(Self { data, data_guard })
     }
 
     pub fn from_boxed_slice(slice: Box<[T]>) -> Self {
@@ -422,10 +472,17 @@ impl<T> ArcSlice<T> {
         // get_mut above, we need to do locking to avoid race conditions.
 
         let ArcSlice { data, data_guard } = this;
+        // And we have to stop the WeakSlices of our descendants from getting upgraded.
         let slice_mut = match (*data_guard).clone_child_gate.try_close() {
             Some(_clone_child_latch) => {
-                if 1 == Arc::strong_count(&data_guard) {
-                    Arc::try_unwrap(data).map(|data| unsafe { data.into_mut() })
+                if 1 == Arc::strong_count(&data_guard) && {
+                    fence(Ordering::Acquire);
+                    data.close_child_guards()
+                } {
+                    Arc::try_unwrap(data).map(|data| unsafe { data.into_mut() }).map_err(|data| {
+                        data.open_child_guards(false);
+                        data
+                    })
                 } else {
                     Err(data)
                 }
@@ -504,7 +561,7 @@ impl<T> WeakSlice<T> {
     pub fn upgrade(&self) -> Option<ArcSlice<T>> {
         // TODO: This suffers from the same limitations as
         // crate::rc::WeakSlice::upgrade does.
-        self.data.upgrade().map(ArcSlice::from_data)
+        self.data.upgrade().and_then(ArcSlice::try_from_data)
     }
 }
 
diff --git a/src/internal/gate.rs b/src/internal/gate.rs
index e8978af..97c6bc9 100644
--- a/src/internal/gate.rs
+++ b/src/internal/gate.rs
@@ -35,10 +35,15 @@ impl Gate {
             self.wait_till_open();
         }
     }
+
+    /// Reopen this gate after closing it and forgetting the Latch.
+    pub fn open(&self) {
+        self.is_closed.store(false, Ordering::SeqCst)
+    }
 }
 
 impl<'a> Drop for Latch<'a> {
     fn drop(&mut self) {
-        self.0.is_closed.store(false, Ordering::SeqCst)
+        self.0.open()
     }
 }
-- 
2.43.0


From 4cb6aeb597e5b7cf825066903202929067f1b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 8/9] fix: a parts iterator left with empty parts does no
 arithmetic on a freed buffer

---
 src/internal/slice_model/slice_items.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/internal/slice_model/slice_items.rs b/src/internal/slice_model/slice_items.rs
index b05f792..6ffe4eb 100644
--- a/src/internal/slice_model/slice_items.rs
+++ b/src/internal/slice_model/slice_items.rs
@@ -307,7 +307,8 @@ impl<T> Iterator for SliceItemsParts<T> {
                     ptr = if mem::size_of::<T>() == 0 {
                         ptr
                     } else {
-                        unsafe { ptr.add(len >> 1) }
+                        // wrapping_add for the same reason as in PtrOrIdx::add
+                        ptr.wrapping_add(len >> 1)
                     };
                     len = len - (len >> 1);
                 }
@@ -338,7 +339,8 @@ impl<T> DoubleEndedIterator for SliceItemsParts<T> {
                     ptr = if mem::size_of::<T>() == 0 {
                         ptr
                     } else {
-                        unsafe { ptr.add(len >> 1) }
+                        // wrapping_add for the same reason as in PtrOrIdx::add
+                        ptr.wrapping_add(len >> 1)
                     };
                     len = len - (len >> 1);
                 } else {
@@ -412,12 +414,14 @@ mod zst_utils {
             }
         }
 
+        // `add` and `sub` wrap b/c a SliceItemsParts that has only empty parts left may
+        // outlive the underlying allocation, while it still computes where those parts are.
         #[inline]
         pub unsafe fn add(self, count: usize) -> Self {
             if mem::size_of::<T>() == 0 {
                 Self((self.0 as usize + count) as _)
             } else {
-                Self(self.0.add(count))
+                Self(self.0.wrapping_add(count))
             }
         }
 
@@ -426,7 +430,7 @@ mod zst_utils {
             if mem::size_of::<T>() == 0 {
                 Self((self.0 as usize - count) as _)
             } else {
-                Self(self.0.sub(count))
+                Self(self.0.wrapping_sub(count))
             }
         }
     }
@@ -450,12 +454,8 @@ mod zst_utils {
                 Self { start: PtrOrIdx(0 as _), end: PtrOrIdx(len as _) }
             } else {
                 let ptr = ptr.as_ptr();
-                // Safety: As long as calling code adheres to the safety guarantees
-                // in the comment above, the pointer `add` below is safe for the same
-                // reasons it's safe in the impl of, say, [T]'s as_ptr_range.
-                // See https://doc.rust-lang.org/std/primitive.slice.html#method.as_ptr_range
-                // and follow link from there to src.
-                Self { start: PtrOrIdx(ptr), end: PtrOrIdx(ptr.add(len)) }
+                // wrapping_add for the same reason as in PtrOrIdx::add
+                Self { start: PtrOrIdx(ptr), end: PtrOrIdx(ptr.wrapping_add(len)) }
             }
         }
 
-- 
2.43.0


From 23a74993ff31257b2e99094550de141e19e085fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:24 +0000
Subject: [PATCH 9/9] fix: ArcSlice::get_mut no longer races with upgrades of
 descendants' WeakSlices

---
 src/arc/arc_slice.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index df02118..133d75b 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -254,6 +254,8 @@ impl<T> ArcSliceData<T> {
         let close = |child: &Self| {
             mem::forget(child.guard_gate.close());
             let is_unused = unsafe { &*child.guard.get() }.as_ref().map_or(true, |guard| guard.strong_count() == 0);
+            // See what those who've used the child left behind, its WeakSlices in particular.
+            fence(Ordering::Acquire);
             let is_closed = is_unused && child.close_child_guards();
             if !is_closed { child.guard_gate.open(); }
             is_closed
@@ -441,10 +443,15 @@ impl<T> ArcSlice<T> {
                 // Check strong refs to the guard both before and after checking weak refs:
                 // Another strong ref might get downgraded and dropped in between if it
                 // passed the gates before we closed them, and a weak ref might get
-                // upgraded and dropped.
+                // upgraded and dropped. For our descendants, which have downgrade gates of
+                // their own, we rule that out by not letting their weak refs get upgraded.
                 if 1 == Arc::strong_count(&this.data_guard) && {
                     fence(Ordering::Acquire);
-                    1 == Arc::weak_count(&this.data_guard) && !this.data.has_weak_slices()
+                    this.data.close_child_guards()
+                } && {
+                    let has_weak_slices = this.data.has_weak_slices();
+                    this.data.open_child_guards(false);
+                    1 == Arc::weak_count(&this.data_guard) && !has_weak_slices
                 } {
                     // Any strong ref that a dropped weak ref got upgraded to has to show up below.
                     fence(Ordering::Acquire);
-- 
2.43.0

