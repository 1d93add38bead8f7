From e78176ca61d897114d052cc48d4f8de249d9bafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 01/15] Add a cfg(papaya_mc) hook that routes std through the
 model-checking facade

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 51998bd..0f66809 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -226,6 +226,13 @@
 #![allow(clippy::multiple_bound_locations, clippy::single_match)]
 // Clippy trips up with pollyfills.
 #![allow(clippy::incompatible_msrv)]
+// `papaya_mc` is only set by the model checker.
+#![allow(unexpected_cfgs)]
+
+// Model-checking builds route every `std` path in this crate through a facade crate that
+// instruments atomics, locks, parking and table allocation.
+#[cfg(papaya_mc)]
+extern crate seize as std;
 
 mod map;
 mod raw;
-- 
2.43.0


From 8065c3a9d7e50f57cb23224b399da9d0a332700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 02/15] fix: wake the waiters of an aborted blocking resize

Threads wait for a blocking resize on the parker of the table that is
being copied to, but aborting the resize woke the parker of the table
being copied from, so the waiters slept forever.
---
 src/raw/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 79eb825..6c56de2 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2067,7 +2067,10 @@ where
                         let allocated = self.get_or_alloc_next(None, next);
 
                         // Wake anyone waiting for us to finish.
-                        let state = table.state();
+                        //
+                        // Note that waiters are parked on the state of the table that was
+                        // being copied to.
+                        let state = next.state();
                         state.parker.unpark(&state.status);
 
                         // Retry in a new table.
-- 
2.43.0


From e6e49adbac2d4690a524584399d4eeebd38f11df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 03/15] fix: free the tables of aborted resizes

A blocking resize that is aborted because its table is too small continues
in a further table, but nothing ever retired the aborted one.
---
 src/raw/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 6c56de2..95409a7 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2483,6 +2483,22 @@ where
                     // that are unparked.
                     state.status.store(State::PROMOTED, Ordering::SeqCst);
 
+                    // Retire any tables that were aborted along the way.
+                    let mut aborted = table.next_table();
+                    while let Some(table) = aborted.filter(|aborted| aborted.raw != next.raw) {
+                        aborted = table.next_table();
+
+                        // Safety: An aborted table was only reachable through the table we just
+                        // copied from, which the CAS above made unreachable from the root pointer.
+                        unsafe {
+                            guard.defer_retire(table.raw, |table, collector| {
+                                // Note that we do not drop entries because they have been copied to
+                                // the new root.
+                                drop_table(Table::from_raw(table), collector);
+                            });
+                        }
+                    }
+
                     // Retire the old table.
                     //
                     // Safety: `table.raw` is a valid pointer to the table we just copied from.
-- 
2.43.0


From 18e2b7377c7f7da93b15186958ab734332ff023c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 04/15] fix: shrink to a valid table length

Shrinking respects the initial capacity, but used the number of elements
requested by the user as the length of the new table. If that was not a
power of two, `Table::alloc` panicked, poisoning the allocation lock.
---
 src/raw/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 95409a7..5870a0a 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -239,7 +239,8 @@ impl<K, V, S> HashMap<K, V, S> {
             hasher,
             resize,
             collector,
-            initial_capacity: capacity,
+            // Note that this must be a valid table length.
+            initial_capacity: table.len(),
             table: AtomicPtr::new(table.raw),
             count: Counter::default(),
         }
-- 
2.43.0


From 145db4a905e7490eb0106f7dd8ef35f1b5be0910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 05/15] fix: check the size of the table layout for overflow

The size of a table wrapped around for huge capacities when overflow checks
are disabled. On 32-bit targets this allocated a table much smaller than its
length.
---
 src/raw/alloc.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/raw/alloc.rs b/src/raw/alloc.rs
index 3c5792f..c460534 100644
--- a/src/raw/alloc.rs
+++ b/src/raw/alloc.rs
@@ -211,11 +211,13 @@ impl<T> Table<T> {
 
     // Returns the non-zero layout for a table allocation.
     fn layout(len: usize) -> Layout {
-        let size = mem::size_of::<TableLayout<T>>()
-            + (mem::size_of::<u8>() * len) // Metadata table.
-            + (mem::size_of::<AtomicPtr<T>>() * len); // Entry pointers.
-                                                      //
-        Layout::from_size_align(size, mem::align_of::<TableLayout<T>>()).unwrap()
+        // The metadata byte and entry pointer of every slot.
+        let size = (mem::size_of::<u8>() + mem::size_of::<AtomicPtr<T>>())
+            .checked_mul(len)
+            .and_then(|size| size.checked_add(mem::size_of::<TableLayout<T>>()))
+            .expect("capacity overflow");
+
+        Layout::from_size_align(size, mem::align_of::<TableLayout<T>>()).expect("capacity overflow")
     }
 }
 
-- 
2.43.0


From 5407fe83c423ce974d994386b7e20db4fa7a620c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 06/15] fix: survive a panic while allocating the next table

A `reserve` that is too large panics while it holds the allocation lock.
The poisoned lock then made every later resize of the map panic.
---
 src/raw/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 5870a0a..3bb00f7 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -1928,7 +1928,13 @@ where
                 }
 
                 // Otherwise, we have to block.
-                state.allocating.lock().unwrap()
+                //
+                // Note that the lock is poisoned if a previous allocation was too large, in
+                // which case the next table was not initialized and we can try again.
+                state
+                    .allocating
+                    .lock()
+                    .unwrap_or_else(|poisoned| poisoned.into_inner())
             }
         };
 
-- 
2.43.0


From 8fb16a0a24243eaee9afbc1d929918bdc7175a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 07/15] fix: require `K: Send` for `HashSet: Sync`

As for `HashMap`, keys inserted through a shared reference may be dropped by
another thread.
---
 src/set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set.rs b/src/set.rs
index 367776f..7dd0b8b 100644
--- a/src/set.rs
+++ b/src/set.rs
@@ -22,7 +22,7 @@ pub struct HashSet<K, S = RandomState> {
 // so normal Send/Sync rules apply. We never expose owned or mutable references
 // to keys or values.
 unsafe impl<K: Send, S: Send> Send for HashSet<K, S> {}
-unsafe impl<K: Sync, S: Sync> Sync for HashSet<K, S> {}
+unsafe impl<K: Send + Sync, S: Sync> Sync for HashSet<K, S> {}
 
 /// A builder for a [`HashSet`].
 ///
-- 
2.43.0


From 20a8e9262b5c99ab0e604998af1e842f786cb780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 08/15] fix: make progress with any incremental chunk size

With `ResizeMode::Incremental(0)` no entry was ever copied, and operations
that have to complete the resize, such as `iter`, never returned. With a huge
chunk size the claim counter wrapped around and entries were copied twice.
---
 src/raw/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 3bb00f7..addd63d 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2214,6 +2214,9 @@ where
             return table;
         };
 
+        // Make sure that every chunk makes progress, and that the claim counter cannot wrap around.
+        let chunk = chunk.clamp(1, table.len());
+
         loop {
             // The copy already completed.
             if self.try_promote(&table, &next, 0, guard) {
-- 
2.43.0


From 889474195a3db51ccebf39ee7b0a749fdbeba87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 09/15] fix: free the entry of an update whose closure panics

Once an update had allocated its entry, a panic of the user closure when it
was called again leaked the entry, together with the key.
---
 src/raw/mod.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index addd63d..b968bf3 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -7,7 +7,7 @@ use std::hash::{BuildHasher, Hash};
 use std::mem::MaybeUninit;
 use std::sync::atomic::{AtomicPtr, AtomicU8, AtomicUsize, Ordering};
 use std::sync::Mutex;
-use std::{hint, panic, ptr};
+use std::{hint, mem, panic, ptr};
 
 use self::alloc::{RawTable, Table};
 use self::probe::Probe;
@@ -1342,6 +1342,18 @@ enum LazyEntry<K, V> {
     Init(*mut Entry<K, MaybeUninit<V>>),
 }
 
+impl<K, V> Drop for LazyEntry<K, V> {
+    #[inline]
+    fn drop(&mut self) {
+        if let LazyEntry::Init(entry) = *self {
+            // Safety: The entry was allocated with a `Box`, and ownership is forgotten
+            // when it is inserted into the map. The value is never owned by an entry that
+            // is not in the map.
+            let _ = unsafe { Box::from_raw(entry) };
+        }
+    }
+}
+
 impl<K, V> LazyEntry<K, V> {
     /// Returns a reference to the entry's key.
     #[inline]
@@ -1528,12 +1540,11 @@ where
         // Safety: We just allocated the entry above.
         let result = unsafe { self.compute_with(&mut entry, ComputeState::new(compute), guard) };
 
-        // Deallocate the entry if it was not inserted.
-        if matches!(result, Compute::Removed(..) | Compute::Aborted(_)) {
-            if let LazyEntry::Init(entry) = entry {
-                // Safety: The entry was allocated but not inserted into the map.
-                let _ = unsafe { Box::from_raw(entry) };
-            }
+        // The entry is owned by the map if it was inserted.
+        //
+        // Otherwise it is deallocated on drop, including if the closure panics.
+        if matches!(result, Compute::Inserted(..) | Compute::Updated { .. }) {
+            mem::forget(entry);
         }
 
         result
-- 
2.43.0


From 66ff996001a83a669594c7f90c085dc3d945f519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 10/15] Route core through the papaya_mc facade too

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0f66809..19bb4eb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -233,6 +233,8 @@
 // instruments atomics, locks, parking and table allocation.
 #[cfg(papaya_mc)]
 extern crate seize as std;
+#[cfg(papaya_mc)]
+extern crate seize as core;
 
 mod map;
 mod raw;
-- 
2.43.0


From a4c95c9070f8d5327ce9ca489ef518da98005814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 11/15] fix: do not deadlock on an allocation lock poisoned by
 a panic

`try_lock` returns the guard of a poisoned lock in its error, which was kept
alive while the same thread waited for the lock: after a `reserve` that was
too large had panicked, the next resize of the map deadlocked.
---
 src/raw/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index b968bf3..7feae2a 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -6,7 +6,7 @@ pub(crate) mod utils;
 use std::hash::{BuildHasher, Hash};
 use std::mem::MaybeUninit;
 use std::sync::atomic::{AtomicPtr, AtomicU8, AtomicUsize, Ordering};
-use std::sync::Mutex;
+use std::sync::{Mutex, TryLockError};
 use std::{hint, mem, panic, ptr};
 
 use self::alloc::{RawTable, Table};
@@ -1920,8 +1920,10 @@ where
         // Unlike in `init`, we do not race here to prevent unnecessary allocator pressure.
         let _allocating = match state.allocating.try_lock() {
             Ok(lock) => lock,
+            // A previous allocation was too large, try again.
+            Err(TryLockError::Poisoned(poisoned)) => poisoned.into_inner(),
             // Someone else is currently allocating.
-            Err(_) => {
+            Err(TryLockError::WouldBlock) => {
                 let mut spun = 0;
 
                 // Spin for a bit, waiting for the table to be initialized.
-- 
2.43.0


From 5c06e3666e0bf2a13aec58e9a2eb5d3e8ac89f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 12/15] fix: help copying in compute operations

---
 src/raw/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 7feae2a..b0fc117 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -1584,7 +1584,7 @@ where
         }
 
         let (h1, h2) = self.hash(new_entry.key());
-        let mut help_copy = false;
+        let mut help_copy = true;
 
         loop {
             // Initialize the probe state.
-- 
2.43.0


From a0452751248341e53c3705af31e6ad32ddb340a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:23 +0000
Subject: [PATCH 13/15] fix: do not replace the stored value in HashSet::insert

---
 src/set.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/set.rs b/src/set.rs
index 7dd0b8b..cdb357e 100644
--- a/src/set.rs
+++ b/src/set.rs
@@ -427,10 +427,10 @@ where
     /// ```
     #[inline]
     pub fn insert(&self, key: K, guard: &impl Guard) -> bool {
-        match self.raw.insert(key, (), true, self.raw.verify(guard)) {
+        match self.raw.insert(key, (), false, self.raw.verify(guard)) {
             InsertResult::Inserted(_) => true,
-            InsertResult::Replaced(_) => false,
-            InsertResult::Error { .. } => unreachable!(),
+            InsertResult::Replaced(_) => unreachable!(),
+            InsertResult::Error { .. } => false,
         }
     }
 
@@ -773,10 +773,10 @@ where
     /// See [`HashSet::insert`] for details.
     #[inline]
     pub fn insert(&self, key: K) -> bool {
-        match self.set.raw.insert(key, (), true, &self.guard) {
+        match self.set.raw.insert(key, (), false, &self.guard) {
             InsertResult::Inserted(_) => true,
-            InsertResult::Replaced(_) => false,
-            InsertResult::Error { .. } => unreachable!(),
+            InsertResult::Replaced(_) => unreachable!(),
+            InsertResult::Error { .. } => false,
         }
     }
 
-- 
2.43.0


From 170c503fa20e90b431015d505892b58373c070bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:06 +0000
Subject: [PATCH 14/15] fix: require Send keys and values for owned guards

---
 src/map.rs | 9 ++++++++-
 src/set.rs | 8 +++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index f149a25..d6fc7f4 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -350,10 +350,17 @@ impl<K, V, S> HashMap<K, V, S> {
     /// `.await` points in work-stealing schedulers. This is especially useful
     /// for iterators.
     ///
+    /// Dropping the guard may drop keys and values that were removed from the map while it was
+    /// held, on whichever thread that happens. Thus keys and values must be `Send`.
+    ///
     /// Note that holding on to a guard prevents garbage collection.
     /// See the [crate-level documentation](crate#usage) for details.
     #[inline]
-    pub fn owned_guard(&self) -> OwnedGuard<'_> {
+    pub fn owned_guard(&self) -> OwnedGuard<'_>
+    where
+        K: Send,
+        V: Send,
+    {
         self.raw.collector().enter_owned()
     }
 }
diff --git a/src/set.rs b/src/set.rs
index cdb357e..a6bad90 100644
--- a/src/set.rs
+++ b/src/set.rs
@@ -296,10 +296,16 @@ impl<K, S> HashSet<K, S> {
     /// `.await` points in work-stealing schedulers. This is especially useful
     /// for iterators.
     ///
+    /// Dropping the guard may drop keys that were removed from the set while it was
+    /// held, on whichever thread that happens. Thus keys must be `Send`.
+    ///
     /// Note that holding on to a guard prevents garbage collection.
     /// See the [crate-level documentation](crate#usage) for details.
     #[inline]
-    pub fn owned_guard(&self) -> OwnedGuard<'_> {
+    pub fn owned_guard(&self) -> OwnedGuard<'_>
+    where
+        K: Send,
+    {
         self.raw.collector().enter_owned()
     }
 }
-- 
2.43.0


From 01b261faeb98a76ee5b0a5834ce4b9b32d09ce2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:29 +0000
Subject: [PATCH 15/15] fix: align entries so that pointer tags are free

The three low bits of an entry pointer hold tags, so an entry must be
aligned to at least 8 bytes. With a key type of alignment less than 4
and a zero-sized value an entry can be less aligned than that.
---
 src/raw/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index b0fc117..e8d8074 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -119,7 +119,7 @@ pub enum RawInsertResult<'g, K, V> {
 }
 
 // An entry in the hash-table.
-#[repr(C)]
+#[repr(C, align(8))] // Reserve the lower 3 bits for pointer tagging.
 pub struct Entry<K, V> {
     /// The key for this entry.
     pub key: K,
-- 
2.43.0

