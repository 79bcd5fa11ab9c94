From 40a201378da28146015d73b364a4d63c084d8bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 1/7] fix: require K: Send for HashSet<K, S>: Sync

A shared set accepts keys from any thread and drops them on any thread, so
sharing it sends keys between threads. HashMap already requires this.
---
 src/set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set.rs b/src/set.rs
index 367776f..7dd0b8b 100644
--- a/src/set.rs
+++ b/src/set.rs
@@ -22,7 +22,7 @@ pub struct HashSet<K, S = RandomState> {
 // so normal Send/Sync rules apply. We never expose owned or mutable references
 // to keys or values.
 unsafe impl<K: Send, S: Send> Send for HashSet<K, S> {}
-unsafe impl<K: Sync, S: Sync> Sync for HashSet<K, S> {}
+unsafe impl<K: Send + Sync, S: Sync> Sync for HashSet<K, S> {}
 
 /// A builder for a [`HashSet`].
 ///
-- 
2.43.0


From e0ce9c67f5100e56b07d2f5250c62c3f138f8c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 2/7] fix: keep the table length a power of two when shrinking

The initial capacity is a number of elements, not a table length. Using it
as a length when it is not a power of two made `Table::alloc` panic, and
otherwise allowed the table to shrink below the initial capacity.
---
 src/raw/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 79eb825..7768644 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -1956,7 +1956,7 @@ where
             // the initial capacity to give the user a way to retain a strict minimum table
             // size.
             false if active_entries <= (current_capacity >> 3) => {
-                self.initial_capacity.max(current_capacity >> 1)
+                probe::entries_for(self.initial_capacity).max(current_capacity >> 1)
             }
 
             // Otherwise keep the capacity the same.
-- 
2.43.0


From c85730d63c0e63cfa542aa4c60019ffc8f449b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 3/7] fix: wake threads blocked on an aborted resize

Threads that wait for a blocking resize park on the state of the table being
copied to, not of the table being copied from.
---
 src/raw/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 7768644..8223208 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2067,7 +2067,7 @@ where
                         let allocated = self.get_or_alloc_next(None, next);
 
                         // Wake anyone waiting for us to finish.
-                        let state = table.state();
+                        let state = next.state();
                         state.parker.unpark(&state.status);
 
                         // Retry in a new table.
-- 
2.43.0


From 0739083159195384273913363f73f30d208174ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 4/7] fix: do not leak tables abandoned by an aborted resize

Only the old root was retired when a table was promoted. Tables between the
old and the new root are unreachable after the promotion as well.
---
 src/raw/mod.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 8223208..1e5d774 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2480,17 +2480,24 @@ where
                     // that are unparked.
                     state.status.store(State::PROMOTED, Ordering::SeqCst);
 
-                    // Retire the old table.
-                    //
-                    // Safety: `table.raw` is a valid pointer to the table we just copied from.
-                    // Additionally, the CAS above made the previous table unreachable from the
-                    // root pointer, allowing it to be safely retired.
-                    unsafe {
-                        guard.defer_retire(table.raw, |table, collector| {
-                            // Note that we do not drop entries because they have been copied to
-                            // the new root.
-                            drop_table(Table::from_raw(table), collector);
-                        });
+                    // Retire the old table, along with any tables that an aborted resize left
+                    // behind between the old and the new root.
+                    let mut retired = *table;
+                    while retired.raw != next.raw {
+                        let retired_next = retired.next_table().unwrap();
+
+                        // Safety: `retired.raw` is a valid pointer to the table we just copied from,
+                        // or to a table that was aborted. Additionally, the CAS above made the table
+                        // unreachable from the root pointer, allowing it to be safely retired.
+                        unsafe {
+                            guard.defer_retire(retired.raw, |table, collector| {
+                                // Note that we do not drop entries because they have been copied to
+                                // the new root.
+                                drop_table(Table::from_raw(table), collector);
+                            });
+                        }
+
+                        retired = retired_next;
                     }
                 }
 
-- 
2.43.0


From 26a5094fb2ea1ecc22a1779042f5ed2148562f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 5/7] fix: accept every incremental chunk size

A chunk size of zero made resizes hang, and large chunk sizes could wrap the
claim counter so that entries were copied twice.
---
 src/raw/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 1e5d774..ecd6175 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2204,6 +2204,10 @@ where
             return table;
         };
 
+        // A chunk of zero would never complete the copy, and a chunk larger than the table
+        // could overflow the claim counter.
+        let chunk = chunk.clamp(1, table.len());
+
         loop {
             // The copy already completed.
             if self.try_promote(&table, &next, 0, guard) {
-- 
2.43.0


From 7159a129767cf2337d04e192bbffb1ded2bc08e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 6/7] fix: detect overflow of the table layout

In release mode the size of the allocation silently wrapped around for very
large capacities.
---
 src/raw/alloc.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/raw/alloc.rs b/src/raw/alloc.rs
index 3c5792f..38d476a 100644
--- a/src/raw/alloc.rs
+++ b/src/raw/alloc.rs
@@ -211,10 +211,11 @@ impl<T> Table<T> {
 
     // Returns the non-zero layout for a table allocation.
     fn layout(len: usize) -> Layout {
-        let size = mem::size_of::<TableLayout<T>>()
-            + (mem::size_of::<u8>() * len) // Metadata table.
-            + (mem::size_of::<AtomicPtr<T>>() * len); // Entry pointers.
-                                                      //
+        let size = (mem::size_of::<u8>() + mem::size_of::<AtomicPtr<T>>()) // Metadata and entry.
+            .checked_mul(len)
+            .and_then(|size| size.checked_add(mem::size_of::<TableLayout<T>>()))
+            .expect("capacity overflow");
+
         Layout::from_size_align(size, mem::align_of::<TableLayout<T>>()).unwrap()
     }
 }
-- 
2.43.0


From a4d6862cc6736ee9d7168a913a09c1facbcba03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 7/7] fix: protect entries found by a failed removal in retain

The entry found by a failed compare-exchange is dereferenced in the next
iteration, so it has to be loaded through the guard.
---
 src/raw/mod.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index ecd6175..4040b55 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -1162,14 +1162,13 @@ where
                     // Try to delete the entry.
                     //
                     // Safety: `i` is in bounds for the table length.
-                    let result = unsafe {
-                        table.entry(i).compare_exchange(
-                            entry.raw,
-                            Entry::TOMBSTONE,
-                            Ordering::Release,
-                            Ordering::Acquire,
-                        )
-                    };
+                    let result = guard.compare_exchange(
+                        unsafe { table.entry(i) },
+                        entry.raw,
+                        Entry::TOMBSTONE,
+                        Ordering::Release,
+                        Ordering::Acquire,
+                    );
 
                     match result {
                         // Successfully deleted the entry.
-- 
2.43.0

