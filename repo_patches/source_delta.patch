From 392ad29d748c57a09d9534e388910b7cc0c5d9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 01/25] fix: cookie of an exhausted iterator restarted the
 iteration

---
 src/store.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/store.rs b/src/store.rs
index 74d9877..3b1afed 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -134,7 +134,7 @@ impl<'a> CandyStoreIterator<'a> {
     /// Returns the cookie of the next item in the store. This can be used later to construct an iterator
     /// that starts at the given point.
     pub fn cookie(&self) -> u64 {
-        ((self.shard_selector as u64 & 0xffff) << 32)
+        ((self.shard_selector as u64) << 32)
             | ((self.row_idx as u64 & 0xffff) << 16)
             | (self.entry_idx as u64 & 0xffff)
     }
@@ -143,7 +143,7 @@ impl<'a> CandyStoreIterator<'a> {
     pub fn from_cookie(store: &'a CandyStore, cookie: u64, raw: bool) -> Self {
         Self {
             store,
-            shard_selector: ((cookie >> 32) & 0xffff) as u32,
+            shard_selector: (cookie >> 32) as u32,
             row_idx: ((cookie >> 16) & 0xffff) as usize,
             entry_idx: (cookie & 0xffff) as usize,
             raw,
-- 
2.43.0


From b80da29909b42780bf782d76319949945248eb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 02/25] fix: replace_in_list compared the expected value with
 the item's index

---
 src/lists.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lists.rs b/src/lists.rs
index 51eefc5..f49ae19 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -163,7 +163,7 @@ impl CandyStore {
                 }
                 InsertMode::Replace(expected_val) => {
                     if let Some(expected_val) = expected_val {
-                        if expected_val != &existing_val[existing_val.len() - size_of::<u64>()..] {
+                        if expected_val != &existing_val[..existing_val.len() - size_of::<u64>()] {
                             existing_val.truncate(existing_val.len() - size_of::<u64>());
                             return Ok(InsertToListStatus::WrongValue(existing_val));
                         }
-- 
2.43.0


From 7deb18e5e37c843a1a594793bdf9e659ac823c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 03/25] fix: removing a queue's only element by index inverted
 its range

---
 src/queues.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/queues.rs b/src/queues.rs
index 7575a72..16a1a1b 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -270,8 +270,7 @@ impl CandyStore {
             let queue = from_bytes_mut::<Queue>(&mut queue_bytes);
             if queue.head_idx == idx {
                 queue.head_idx += 1;
-            }
-            if queue.tail_idx == idx + 1 {
+            } else if queue.tail_idx == idx + 1 {
                 queue.tail_idx -= 1;
             }
             queue.num_items -= 1;
-- 
2.43.0


From fa1d092a550fb1c9cda9ebc82b9f042779832fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 04/25] fix: a crash while removing a list item left an item
 that is not in the list

---
 src/lists.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index f49ae19..e3d80f3 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -437,6 +437,17 @@ impl CandyStore {
         );
         existing_val.truncate(existing_val.len() - size_of::<u64>());
 
+        // remove item first and update the list last: if we crash (or fail) in between, the list merely has a hole,
+        // whereas an item that outlives its list would corrupt the list's bookkeeping later
+        self.remove_raw(&item_key)?;
+
+        // remove chain
+        self.remove_raw(bytes_of(&ChainKey {
+            list_ph,
+            idx: item_idx,
+            namespace: CHAIN_NAMESPACE,
+        }))?;
+
         // update list, if the item was the head/tail
         if let Some(list_bytes) = self.get_raw(&list_key)? {
             let mut list = *from_bytes::<List>(&list_bytes);
@@ -457,16 +468,6 @@ impl CandyStore {
             }
         }
 
-        // remove chain
-        self.remove_raw(bytes_of(&ChainKey {
-            list_ph,
-            idx: item_idx,
-            namespace: CHAIN_NAMESPACE,
-        }))?;
-
-        // remove item
-        self.remove_raw(&item_key)?;
-
         Ok(Some(existing_val))
     }
 
@@ -638,12 +639,12 @@ impl CandyStore {
             let Some((_, full_key, _)) = self.get_from_list_at_index(list_ph, idx, false)? else {
                 continue;
             };
+            self.remove_raw(&full_key)?;
             self.remove_raw(bytes_of(&ChainKey {
                 list_ph,
                 idx,
                 namespace: CHAIN_NAMESPACE,
             }))?;
-            self.remove_raw(&full_key)?;
         }
         self.remove_raw(&list_key)?;
 
-- 
2.43.0


From 69e7fa197f5e9bacda1d842a1d062fc0fc4b8494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:28 +0000
Subject: [PATCH 05/25] fix: list pops, peeks and list_len were not atomic with
 respect to concurrent list operations

---
 src/lists.rs | 84 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 56 insertions(+), 28 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index e3d80f3..b7cfeed 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -425,8 +425,17 @@ impl CandyStore {
         let (_, item_key) = self.make_item_key(list_ph, item_key);
 
         let _guard = self.lock_list(list_ph);
+        self._remove_from_list(list_ph, &list_key, &item_key)
+    }
 
-        let Some(mut existing_val) = self.get_raw(&item_key)? else {
+    // must be called with the list's lock held
+    fn _remove_from_list(
+        &self,
+        list_ph: PartedHash,
+        list_key: &[u8],
+        item_key: &[u8],
+    ) -> Result<Option<Vec<u8>>> {
+        let Some(mut existing_val) = self.get_raw(item_key)? else {
             return Ok(None);
         };
 
@@ -439,7 +448,7 @@ impl CandyStore {
 
         // remove item first and update the list last: if we crash (or fail) in between, the list merely has a hole,
         // whereas an item that outlives its list would corrupt the list's bookkeeping later
-        self.remove_raw(&item_key)?;
+        self.remove_raw(item_key)?;
 
         // remove chain
         self.remove_raw(bytes_of(&ChainKey {
@@ -449,7 +458,7 @@ impl CandyStore {
         }))?;
 
         // update list, if the item was the head/tail
-        if let Some(list_bytes) = self.get_raw(&list_key)? {
+        if let Some(list_bytes) = self.get_raw(list_key)? {
             let mut list = *from_bytes::<List>(&list_bytes);
 
             list.num_items -= 1;
@@ -462,15 +471,47 @@ impl CandyStore {
                 }
             }
             if list.is_empty() {
-                self.remove_raw(&list_key)?;
+                self.remove_raw(list_key)?;
             } else {
-                self.set_raw(&list_key, bytes_of(&list))?;
+                self.set_raw(list_key, bytes_of(&list))?;
             }
         }
 
         Ok(Some(existing_val))
     }
 
+    // returns the full key of the first (or last) item of the list, as well as its key and value. must be called
+    // with the list's lock held
+    fn _peek_list(
+        &self,
+        list_ph: PartedHash,
+        list_key: &[u8],
+        fwd: bool,
+    ) -> Result<Option<(Vec<u8>, KVPair)>> {
+        let Some(list_bytes) = self.get_raw(list_key)? else {
+            return Ok(None);
+        };
+        let list = *from_bytes::<List>(&list_bytes);
+        let mut range = list.head_idx..list.tail_idx;
+        while let Some(idx) = if fwd { range.next() } else { range.next_back() } {
+            if let Some((_, k, v)) = self.get_from_list_at_index(list_ph, idx, true)? {
+                let (_, item_key) = self.make_item_key(list_ph, k.clone());
+                return Ok(Some((item_key, (k, v))));
+            }
+        }
+        Ok(None)
+    }
+
+    fn _pop_list(&self, list_key: Vec<u8>, fwd: bool) -> Result<Option<KVPair>> {
+        let (list_ph, list_key) = self.make_list_key(list_key);
+        let _guard = self.lock_list(list_ph);
+        let Some((item_key, kv)) = self._peek_list(list_ph, &list_key, fwd)? else {
+            return Ok(None);
+        };
+        self._remove_from_list(list_ph, &list_key, &item_key)?;
+        Ok(Some(kv))
+    }
+
     fn get_from_list_at_index(
         &self,
         list_ph: PartedHash,
@@ -658,10 +699,9 @@ impl CandyStore {
 
     /// Owned version of [Self::peek_list_head]
     pub fn owned_peek_list_head(&self, list_key: Vec<u8>) -> Result<Option<KVPair>> {
-        let Some(kv) = self.owned_iter_list(list_key).next() else {
-            return Ok(None);
-        };
-        Ok(Some(kv?))
+        let (list_ph, list_key) = self.make_list_key(list_key);
+        let _guard = self.lock_list(list_ph);
+        Ok(self._peek_list(list_ph, &list_key, true)?.map(|(_, kv)| kv))
     }
 
     /// Returns the last (tail) element of the list
@@ -671,10 +711,9 @@ impl CandyStore {
 
     /// Owned version of [Self::peek_list_tail]
     pub fn owned_peek_list_tail(&self, list_key: Vec<u8>) -> Result<Option<KVPair>> {
-        for kv in self.owned_iter_list_backwards(list_key) {
-            return Ok(Some(kv?));
-        }
-        Ok(None)
+        let (list_ph, list_key) = self.make_list_key(list_key);
+        let _guard = self.lock_list(list_ph);
+        Ok(self._peek_list(list_ph, &list_key, false)?.map(|(_, kv)| kv))
     }
 
     /// Removes and returns the first (head) element of the list
@@ -684,13 +723,7 @@ impl CandyStore {
 
     /// Owned version of [Self::peek_list_tail]
     pub fn owned_pop_list_head(&self, list_key: Vec<u8>) -> Result<Option<KVPair>> {
-        for kv in self.owned_iter_list(list_key.clone()) {
-            let (k, v) = kv?;
-            if let Some(_) = self.owned_remove_from_list(list_key.clone(), k.clone())? {
-                return Ok(Some((k, v)));
-            }
-        }
-        Ok(None)
+        self._pop_list(list_key, true)
     }
 
     /// Removes and returns the last (tail) element of the list
@@ -700,13 +733,7 @@ impl CandyStore {
 
     /// Owned version of [Self::peek_list_tail]
     pub fn owned_pop_list_tail(&self, list_key: Vec<u8>) -> Result<Option<KVPair>> {
-        for kv in self.owned_iter_list_backwards(list_key.clone()) {
-            let (k, v) = kv?;
-            if let Some(_) = self.owned_remove_from_list(list_key.clone(), k.clone())? {
-                return Ok(Some((k, v)));
-            }
-        }
-        Ok(None)
+        self._pop_list(list_key, false)
     }
 
     /// Returns the estimated list length
@@ -714,7 +741,8 @@ impl CandyStore {
         self.owned_list_len(list_key.as_ref().to_owned())
     }
     pub fn owned_list_len(&self, list_key: Vec<u8>) -> Result<usize> {
-        let (_, list_key) = self.make_list_key(list_key);
+        let (list_ph, list_key) = self.make_list_key(list_key);
+        let _guard = self.lock_list(list_ph);
 
         let Some(list_bytes) = self.get_raw(&list_key)? else {
             return Ok(0);
-- 
2.43.0


From 6eecdd3121ba345f9072364db18889ec85678c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:31 +0000
Subject: [PATCH 06/25] fix: queue peeks were not atomic with respect to
 concurrent queue operations

---
 src/queues.rs | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/queues.rs b/src/queues.rs
index 16a1a1b..121e0e1 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -303,6 +303,26 @@ impl CandyStore {
         Ok(true)
     }
 
+    fn _peek_queue(&self, queue_key: &[u8], pos: QueuePos) -> Result<Option<(usize, Vec<u8>)>> {
+        let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
+        let _guard = self.lock_list(queue_ph);
+
+        let Some(queue_bytes) = self.get_raw(&full_queue_key)? else {
+            return Ok(None);
+        };
+        let queue = from_bytes::<Queue>(&queue_bytes);
+        let mut range = queue.head_idx..queue.tail_idx;
+        while let Some(idx) = match pos {
+            QueuePos::Head => range.next(),
+            QueuePos::Tail => range.next_back(),
+        } {
+            if let Some(v) = self.get_raw(&self.make_queue_item_key(queue_key, idx))? {
+                return Ok(Some((idx as usize, v)));
+            }
+        }
+        Ok(None)
+    }
+
     fn fetch_queue(&self, queue_key: &[u8]) -> Result<Option<Queue>> {
         let queue_key = queue_key.as_ref();
         let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
@@ -366,10 +386,7 @@ impl CandyStore {
         &self,
         queue_key: &B,
     ) -> Result<Option<(usize, Vec<u8>)>> {
-        for res in self.iter_queue(queue_key) {
-            return Ok(Some(res?));
-        }
-        Ok(None)
+        self._peek_queue(queue_key.as_ref(), QueuePos::Head)
     }
 
     /// Returns (without removing) the head element of the queue, or None if the queue is empty
@@ -377,10 +394,7 @@ impl CandyStore {
         &self,
         queue_key: &B,
     ) -> Result<Option<Vec<u8>>> {
-        for res in self.iter_queue(queue_key) {
-            return Ok(Some(res?.1));
-        }
-        Ok(None)
+        Ok(self.peek_queue_head_with_idx(queue_key)?.map(|iv| iv.1))
     }
 
     /// Returns (without removing) the head element of the queue and its index, or None if the queue is empty
@@ -388,10 +402,7 @@ impl CandyStore {
         &self,
         queue_key: &B,
     ) -> Result<Option<(usize, Vec<u8>)>> {
-        for res in self.iter_queue_backwards(queue_key) {
-            return Ok(Some(res?));
-        }
-        Ok(None)
+        self._peek_queue(queue_key.as_ref(), QueuePos::Tail)
     }
 
     /// Returns (without removing) the tail element of the queue, or None if the queue is empty
@@ -399,10 +410,7 @@ impl CandyStore {
         &self,
         queue_key: &B,
     ) -> Result<Option<Vec<u8>>> {
-        for res in self.iter_queue_backwards(queue_key) {
-            return Ok(Some(res?.1));
-        }
-        Ok(None)
+        Ok(self.peek_queue_tail_with_idx(queue_key)?.map(|iv| iv.1))
     }
 
     /// Returns a forward iterator (head to tail) over the elements of the queue. If the queue does not exist,
-- 
2.43.0


From 11cfdf9ea61b645cffc504f7247ba8e461ccf9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:18 +0000
Subject: [PATCH 07/25] fix: rejected list, queue and big-value insertions left
 traces or destroyed the old value

---
 src/lists.rs  | 12 ++++++++++++
 src/queues.rs | 13 +++++++++++++
 src/store.rs  | 39 ++++++++++++++++++++++++---------------
 3 files changed, 49 insertions(+), 15 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index b7cfeed..357b506 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -142,6 +142,13 @@ impl CandyStore {
         self.keyed_locks[(list_ph.signature() & self.keyed_locks_mask) as usize].lock()
     }
 
+    // items that cannot be stored must be rejected before the list is updated
+    fn ensure_list_item_fits(&self, list_key: &[u8], item_key: &[u8], val: &[u8]) -> Result<()> {
+        self.ensure_entry_fits(item_key.len(), val.len() + size_of::<u64>())?;
+        self.ensure_entry_fits(size_of::<ChainKey>(), size_of::<PartedHash>())?;
+        self.ensure_entry_fits(list_key.len(), size_of::<List>())
+    }
+
     fn _insert_to_list(
         &self,
         list_key: Vec<u8>,
@@ -152,6 +159,8 @@ impl CandyStore {
         let (list_ph, list_key) = self.make_list_key(list_key);
         let (item_ph, item_key) = self.make_item_key(list_ph, item_key);
 
+        self.ensure_list_item_fits(&list_key, &item_key, &val)?;
+
         let _guard = self.lock_list(list_ph);
 
         // if the item already exists, it's already part of the list. just update it and preserve the index
@@ -297,6 +306,9 @@ impl CandyStore {
         promote: bool,
     ) -> Result<SetStatus> {
         if promote {
+            let (list_ph, full_list_key) = self.make_list_key(list_key.clone());
+            let (_, full_item_key) = self.make_item_key(list_ph, item_key.clone());
+            self.ensure_list_item_fits(&full_list_key, &full_item_key, &val)?;
             self.owned_remove_from_list(list_key.clone(), item_key.clone())?;
         }
         match self._insert_to_list(list_key, item_key, val, InsertMode::Set)? {
diff --git a/src/queues.rs b/src/queues.rs
index 121e0e1..8a0197c 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -111,7 +111,15 @@ impl CandyStore {
         item_key
     }
 
+    // items that cannot be stored must be rejected before the queue is updated
+    pub(crate) fn ensure_queue_item_fits(&self, queue_key: &[u8], val_len: usize) -> Result<()> {
+        self.ensure_entry_fits(self.make_queue_item_key(queue_key, 0).len(), val_len)?;
+        self.ensure_entry_fits(self.make_queue_key(queue_key).1.len(), size_of::<Queue>())
+    }
+
     fn _push_to_queue(&self, queue_key: &[u8], val: &[u8], pos: QueuePos) -> Result<usize> {
+        self.ensure_queue_item_fits(queue_key, val.len())?;
+
         let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
         let _guard = self.lock_list(queue_ph);
 
@@ -348,6 +356,11 @@ impl CandyStore {
         items: impl Iterator<Item = impl AsRef<[u8]>>,
     ) -> Result<Range<usize>> {
         let queue_key = queue_key.as_ref();
+        let items = items.collect::<Vec<_>>();
+        for item in items.iter() {
+            self.ensure_queue_item_fits(queue_key, item.as_ref().len())?;
+        }
+
         let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
         let _guard = self.lock_list(queue_ph);
 
diff --git a/src/store.rs b/src/store.rs
index 3b1afed..e12be1a 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -331,30 +331,36 @@ impl CandyStore {
         self.remove_raw(&self.make_user_key(key))
     }
 
-    pub(crate) fn insert_internal(
-        &self,
-        full_key: &[u8],
-        val: &[u8],
-        mode: InsertMode,
-    ) -> Result<InsertStatus> {
-        let ph = PartedHash::new(&self.config.hash_seed, full_key);
-
+    pub(crate) fn ensure_entry_fits(&self, full_key_len: usize, val_len: usize) -> Result<()> {
         ensure!(
-            full_key.len() <= MAX_TOTAL_KEY_SIZE,
-            CandyError::KeyTooLong(full_key.len())
+            full_key_len <= MAX_TOTAL_KEY_SIZE,
+            CandyError::KeyTooLong(full_key_len)
         );
         ensure!(
-            val.len() <= MAX_TOTAL_VALUE_SIZE,
-            CandyError::ValueTooLong(val.len())
+            val_len <= MAX_TOTAL_VALUE_SIZE,
+            CandyError::ValueTooLong(val_len)
         );
 
-        if full_key.len() + val.len() > self.config.max_shard_size as usize {
+        if full_key_len + val_len > self.config.max_shard_size as usize {
             return Err(anyhow!(CandyError::EntryCannotFitInShard(
-                full_key.len() + val.len(),
+                full_key_len + val_len,
                 self.config.max_shard_size as usize
             )));
         }
 
+        Ok(())
+    }
+
+    pub(crate) fn insert_internal(
+        &self,
+        full_key: &[u8],
+        val: &[u8],
+        mode: InsertMode,
+    ) -> Result<InsertStatus> {
+        let ph = PartedHash::new(&self.config.hash_seed, full_key);
+
+        self.ensure_entry_fits(full_key.len(), val.len())?;
+
         self.root.insert(ph, full_key, val, mode)
     }
 
@@ -529,8 +535,11 @@ impl CandyStore {
         key: &B1,
         val: &B2,
     ) -> Result<bool> {
+        let val = val.as_ref();
+        // don't lose the existing value if the new one cannot be stored
+        self.ensure_queue_item_fits(key.as_ref(), val.len().min(MAX_VALUE_SIZE))?;
         let existed = self.discard_queue(key)?;
-        self.extend_queue(key, val.as_ref().chunks(MAX_VALUE_SIZE))?;
+        self.extend_queue(key, val.chunks(MAX_VALUE_SIZE))?;
         Ok(existed)
     }
 
-- 
2.43.0


From b7e08983b7fdf0e2f291b5abd3368a25616cc130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:18 +0000
Subject: [PATCH 08/25] fix: an empty big value could not be read back

---
 src/store.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/store.rs b/src/store.rs
index e12be1a..45ffa8d 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -539,7 +539,12 @@ impl CandyStore {
         // don't lose the existing value if the new one cannot be stored
         self.ensure_queue_item_fits(key.as_ref(), val.len().min(MAX_VALUE_SIZE))?;
         let existed = self.discard_queue(key)?;
-        self.extend_queue(key, val.chunks(MAX_VALUE_SIZE))?;
+        if val.is_empty() {
+            // an empty value has no chunks, but it still exists
+            self.extend_queue(key, std::iter::once(val))?;
+        } else {
+            self.extend_queue(key, val.chunks(MAX_VALUE_SIZE))?;
+        }
         Ok(existed)
     }
 
-- 
2.43.0


From 06931b5cae98ee737a38ea36e0f740cdf5f63181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 09/25] fix: a short or interrupted read of a shard's header
 made the store refuse the shard

---
 src/shard.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 6859359..8a8cfff 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -4,7 +4,7 @@ use parking_lot::{Mutex, RwLock, RwLockWriteGuard};
 use simd_itertools::PositionSimd;
 use std::{
     fs::{File, OpenOptions},
-    io::Read,
+    io::ErrorKind,
     ops::Range,
     os::{fd::AsRawFd, unix::fs::FileExt},
     path::{Path, PathBuf},
@@ -361,7 +361,7 @@ impl Shard {
         let filename = config
             .dir_path
             .join(format!("shard_{:04x}-{:04x}", span.start, span.end));
-        let mut file = OpenOptions::new()
+        let file = OpenOptions::new()
             .create(true)
             .read(true)
             .write(true)
@@ -371,8 +371,13 @@ impl Shard {
         let mut file_size = file.metadata()?.len();
         if file_size != 0 {
             let mut meta_header = MetaHeader::default();
-            let sz = file.read(bytes_of_mut(&mut meta_header))?;
-            if sz != size_of::<MetaHeader>()
+            // a short or interrupted read doesn't mean the file is corrupt
+            let complete = match file.read_exact_at(bytes_of_mut(&mut meta_header), 0) {
+                Ok(()) => true,
+                Err(e) if e.kind() == ErrorKind::UnexpectedEof => false,
+                Err(e) => return Err(e.into()),
+            };
+            if !complete
                 || meta_header.magic != SHARD_FILE_MAGIC
                 || meta_header.version != SHARD_FILE_VERSION
             {
-- 
2.43.0


From 2faa36c533001f7ea29c5d93c2b10f53a7970cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 10/25] fix: splitting a single-slot shard destroyed it

---
 src/shard.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 8a8cfff..c955d00 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -1,4 +1,4 @@
-use anyhow::bail;
+use anyhow::{bail, ensure};
 use bytemuck::{bytes_of_mut, Pod, Zeroable};
 use parking_lot::{Mutex, RwLock, RwLockWriteGuard};
 use simd_itertools::PositionSimd;
@@ -539,6 +539,14 @@ impl Shard {
     }
 
     pub(crate) fn split(&self) -> Result<(Shard, Shard)> {
+        // the halves of a single-slot shard would overwrite (and then remove) its own file
+        ensure!(
+            self.span.len() > 1,
+            "shard {:04x}-{:04x} is full and cannot be split",
+            self.span.start,
+            self.span.end
+        );
+
         let mut handle_guard = self.compaction_handle.lock();
         if let Some(handle) = handle_guard.take() {
             handle.wait()?;
-- 
2.43.0


From 93b041d47c15cb8dc42653d800b2376935d51285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 11/25] fix: flush aggregation deadlocked with the start of a
 compaction and ignored failed syncs

---
 src/shard.rs | 56 ++++++++++++++++++++++++++--------------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index c955d00..ae645fb 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -343,7 +343,7 @@ pub(crate) struct Shard {
     threadpool: Arc<CompactionThreadPool>,
     compaction_handle: Arc<Mutex<Option<TPHandle>>>,
     #[cfg(feature = "flush_aggregation")]
-    sync_agg_mutex: parking_lot::Mutex<()>,
+    sync_agg_mutex: parking_lot::Mutex<bool>, // whether the last sync succeeded
     #[cfg(feature = "flush_aggregation")]
     in_sync_agg_delay: std::sync::atomic::AtomicBool,
 }
@@ -449,7 +449,7 @@ impl Shard {
             threadpool,
             compaction_handle: Arc::new(Mutex::new(None)),
             #[cfg(feature = "flush_aggregation")]
-            sync_agg_mutex: parking_lot::Mutex::new(()),
+            sync_agg_mutex: parking_lot::Mutex::new(true),
             #[cfg(feature = "flush_aggregation")]
             in_sync_agg_delay: std::sync::atomic::AtomicBool::new(false),
         })
@@ -477,7 +477,7 @@ impl Shard {
             threadpool,
             compaction_handle: Arc::new(Mutex::new(None)),
             #[cfg(feature = "flush_aggregation")]
-            sync_agg_mutex: parking_lot::Mutex::new(()),
+            sync_agg_mutex: parking_lot::Mutex::new(true),
             #[cfg(feature = "flush_aggregation")]
             in_sync_agg_delay: std::sync::atomic::AtomicBool::new(false),
         })
@@ -829,24 +829,26 @@ impl Shard {
             return Ok(());
         };
 
-        let do_sync = || {
+        let do_sync = |last_sync_ok: &mut bool| {
             self.in_sync_agg_delay.store(true, Ordering::SeqCst);
             std::thread::sleep(delay);
             self.in_sync_agg_delay.store(false, Ordering::SeqCst);
-            self.flush()
+            let res = self.flush();
+            *last_sync_ok = res.is_ok();
+            res
         };
 
-        if let Some(_guard) = self.sync_agg_mutex.try_lock() {
+        if let Some(mut guard) = self.sync_agg_mutex.try_lock() {
             // we're the first ones here. wait for the aggregation duration and sync the file
-            do_sync()?;
+            do_sync(&mut guard)?;
         } else {
             // another thread is currently sync'ing, we're waiting in line. if the holder of the lock is in the
             // sleep (aggregation) phase, we can just wait for it to finish and return -- the other thread will
             // have sync'ed us by the time we got the lock. otherwise, we'll need to sync as well
-            let was_in_delay = self.in_sync_agg_delay.load(Ordering::Relaxed);
-            let _guard = self.sync_agg_mutex.lock();
-            if !was_in_delay {
-                do_sync()?;
+            let was_in_delay = self.in_sync_agg_delay.load(Ordering::SeqCst);
+            let mut guard = self.sync_agg_mutex.lock();
+            if !was_in_delay || !*guard {
+                do_sync(&mut guard)?;
             }
         }
         Ok(())
@@ -895,11 +897,6 @@ impl Shard {
                     .wasted_bytes
                     .fetch_add((k.len() + existing_val.len()) as u64, Ordering::Relaxed);
                 self.stats.num_updates.fetch_add(1, Ordering::Relaxed);
-                #[cfg(feature = "flush_aggregation")]
-                {
-                    drop(row_guard);
-                    self.flush_aggregation()?;
-                }
             }
             return Ok(TryReplaceStatus::KeyExistsReplaced(existing_val));
         }
@@ -1034,11 +1031,6 @@ impl Shard {
                                 self.stats.num_collisions.fetch_add(1, Ordering::Relaxed);
                             }
                             file.header().num_inserts.fetch_add(1, Ordering::Relaxed);
-                            #[cfg(feature = "flush_aggregation")]
-                            {
-                                drop(_guard);
-                                self.flush_aggregation()?;
-                            }
                             Ok(InsertStatus::Added)
                         } else {
                             // no room in this row, must split
@@ -1054,6 +1046,12 @@ impl Shard {
                 }
             })?;
 
+        // must not be called while holding the files' lock: it takes that lock again, and is long
+        #[cfg(feature = "flush_aggregation")]
+        if matches!(status, InsertStatus::Added | InsertStatus::Replaced(_)) {
+            self.flush_aggregation()?;
+        }
+
         if let Some(min_write_offset) = should_compact {
             self.begin_compaction(min_write_offset)?;
         }
@@ -1061,7 +1059,7 @@ impl Shard {
     }
 
     pub(crate) fn remove(&self, ph: PartedHash, key: &[u8]) -> Result<Option<Vec<u8>>> {
-        self.operate_on_row_mut(ph.row_selector(), |file, _, _guard, row| {
+        let removed = self.operate_on_row_mut(ph.row_selector(), |file, _, _guard, row| {
             let mut start = 0;
 
             while let Some(idx) = row.lookup(ph.signature(), &mut start) {
@@ -1073,17 +1071,19 @@ impl Shard {
                     file.header()
                         .wasted_bytes
                         .fetch_add((k.len() + v.len()) as u64, Ordering::Relaxed);
-                    #[cfg(feature = "flush_aggregation")]
-                    {
-                        drop(_guard);
-                        self.flush_aggregation()?;
-                    }
                     return Ok(Some(v));
                 }
             }
 
             Ok(None)
-        })
+        })?;
+
+        #[cfg(feature = "flush_aggregation")]
+        if removed.is_some() {
+            self.flush_aggregation()?;
+        }
+
+        Ok(removed)
     }
 
     pub(crate) fn get_stats(&self) -> Result<ShardStats> {
-- 
2.43.0


From 38342ed9ae4127606561c1bea0902905395d1d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 12/25] fix: merging deadlocked on unbalanced trees, raced with
 compactions and left stale shards in memory on failure

---
 src/router.rs | 103 +++++++++++++++-----------------------------------
 src/shard.rs  |   5 ++-
 2 files changed, 33 insertions(+), 75 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index f0e819c..b7bf63e 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -393,67 +393,35 @@ impl ShardRouter {
         }
     }
 
-    fn _merge(
-        &self,
-        bottom: &ShardRouter,
-        top: &ShardRouter,
-        max_fill: usize,
-        shards_to_remove: &mut u32,
-    ) -> Result<Option<ShardRouter>> {
-        if *shards_to_remove == 0 {
-            return Ok(None);
-        }
+    // merges the shards under `node` in place, bottom-up. must be called with the root's node locked for writing
+    fn _merge(node: &mut ShardNode, max_fill: usize, shards_to_remove: &mut u32) -> Result<()> {
+        let merged = {
+            let ShardNode::Vertex(bottom, top) = &*node else {
+                return Ok(());
+            };
 
-        let bottom_guard = bottom.node.write();
-        let top_guard = top.node.write();
+            let mut bottom = bottom.node.write();
+            Self::_merge(&mut *bottom, max_fill, shards_to_remove)?;
+            let mut top = top.node.write();
+            Self::_merge(&mut *top, max_fill, shards_to_remove)?;
 
-        match (&*bottom_guard, &*top_guard) {
-            (ShardNode::Leaf(b), ShardNode::Leaf(t)) => {
-                if b.get_stats()?.num_items() > max_fill {
-                    return Ok(None);
-                }
-                if t.get_stats()?.num_items() > max_fill {
-                    return Ok(None);
-                }
-                if let Some(sh) = Shard::merge(b, t)? {
-                    *shards_to_remove = *shards_to_remove - 1;
-                    let span = sh.span.clone();
-                    Ok(Some(ShardRouter {
-                        config: self.config.clone(),
-                        node: RwLock::new(ShardNode::Leaf(sh)),
-                        span,
-                        stats: self.stats.clone(),
-                        threadpool: self.threadpool.clone(),
-                    }))
-                } else {
-                    Ok(None)
-                }
-            }
-            (ShardNode::Leaf(_), ShardNode::Vertex(b, t)) => {
-                if let Some(merged_top) = self._merge(&b, &t, max_fill, shards_to_remove)? {
-                    self._merge(bottom, &merged_top, max_fill, shards_to_remove)
-                } else {
-                    Ok(None)
-                }
-            }
-            (ShardNode::Vertex(b, t), ShardNode::Leaf(_)) => {
-                if let Some(merged_bottom) = self._merge(&b, &t, max_fill, shards_to_remove)? {
-                    self._merge(&merged_bottom, top, max_fill, shards_to_remove)
-                } else {
-                    Ok(None)
-                }
-            }
-            (ShardNode::Vertex(b1, t1), ShardNode::Vertex(b2, t2)) => {
-                let m1 = self._merge(b1, t1, max_fill, shards_to_remove)?;
-                let m2 = self._merge(b2, t2, max_fill, shards_to_remove)?;
-                match (m1, m2) {
-                    (Some(m1), Some(m2)) => self._merge(&m1, &m2, max_fill, shards_to_remove),
-                    (Some(m1), None) => self._merge(&m1, top, max_fill, shards_to_remove),
-                    (None, Some(m2)) => self._merge(bottom, &m2, max_fill, shards_to_remove),
-                    (None, None) => Ok(None),
-                }
+            let (ShardNode::Leaf(b), ShardNode::Leaf(t)) = (&*bottom, &*top) else {
+                return Ok(());
+            };
+            if *shards_to_remove == 0
+                || b.get_stats()?.num_items() > max_fill
+                || t.get_stats()?.num_items() > max_fill
+            {
+                return Ok(());
             }
+            Shard::merge(b, t)?
+        };
+
+        if let Some(sh) = merged {
+            *shards_to_remove -= 1;
+            *node = ShardNode::Leaf(sh);
         }
+        Ok(())
     }
 
     pub(crate) fn merge_small_shards(&self, max_fill_level: f32) -> Result<bool> {
@@ -475,22 +443,11 @@ impl ShardRouter {
         }
         let mut shards_to_remove = starting_num_shards - needed_shards;
 
-        {
-            let mut guard = self.node.write();
-
-            match &*guard {
-                ShardNode::Leaf(_) => None,
-                ShardNode::Vertex(bottom, top) => {
-                    self._merge(&bottom, &top, max_fill, &mut shards_to_remove)?
-                }
-            };
-
-            *guard = Self::treeify(
-                Self::load(&self.config, &self.stats, &self.threadpool)?,
-                &self.stats,
-                &self.threadpool,
-            );
-        }
+        Self::_merge(
+            &mut *self.node.write(),
+            max_fill,
+            &mut shards_to_remove,
+        )?;
 
         let new_num_shards: u32 = self.call_on_all_shards(|_| Ok(1))?.iter().sum();
 
diff --git a/src/shard.rs b/src/shard.rs
index ae645fb..7d05813 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -716,8 +716,9 @@ impl Shard {
             .join(format!("shard_{:04x}-{:04x}", top.span.start, top.span.end));
 
         std::fs::rename(tmp_filename, dst_filename)?;
-        std::fs::remove_file(bottom_filename)?;
-        std::fs::remove_file(top_filename)?;
+        // from here on the merged shard supersedes these two, even if they cannot be removed right now
+        _ = std::fs::remove_file(bottom_filename);
+        _ = std::fs::remove_file(top_filename);
 
         drop(combined_files);
 
-- 
2.43.0


From 81f391bf31e6b92330ee5ff2b16743aa7342c97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 13/25] fix: a failed or barely started compaction lost data,
 and made later operations fail

---
 src/shard.rs | 152 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 93 insertions(+), 59 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 7d05813..ac9a4a7 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -9,7 +9,7 @@ use std::{
     os::{fd::AsRawFd, unix::fs::FileExt},
     path::{Path, PathBuf},
     sync::{
-        atomic::{AtomicU64, AtomicUsize, Ordering},
+        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
         Arc,
     },
     thread::JoinHandle,
@@ -264,6 +264,7 @@ struct CompactionInfo {
     stats: Arc<InternalStats>,
     files: Arc<RwLock<(MmapFile, Option<MmapFile>)>>,
     row_locks: Arc<[RwLock<()>; NUM_ROWS]>,
+    failed: Arc<AtomicBool>,
     t0: Instant,
     src_filename: PathBuf,
     target_filename: PathBuf,
@@ -287,7 +288,10 @@ impl CompactionThreadPool {
                     let Some((info, handle_tx)) = elem else {
                         break;
                     };
-                    let res = Shard::background_compact(info);
+                    let res = Shard::background_compact(&info);
+                    if res.is_err() {
+                        info.failed.store(true, Ordering::SeqCst);
+                    }
                     handle_tx.send(res)?;
                 }
                 Ok(())
@@ -342,10 +346,11 @@ pub(crate) struct Shard {
     row_locks: Arc<[RwLock<()>; NUM_ROWS]>,
     threadpool: Arc<CompactionThreadPool>,
     compaction_handle: Arc<Mutex<Option<TPHandle>>>,
+    compaction_failed: Arc<AtomicBool>,
     #[cfg(feature = "flush_aggregation")]
     sync_agg_mutex: parking_lot::Mutex<bool>, // whether the last sync succeeded
     #[cfg(feature = "flush_aggregation")]
-    in_sync_agg_delay: std::sync::atomic::AtomicBool,
+    in_sync_agg_delay: AtomicBool,
 }
 
 impl Shard {
@@ -428,15 +433,26 @@ impl Shard {
         if truncate {
             _ = std::fs::remove_file(compacted_filename);
         } else {
-            if let Ok(compacted_file) = OpenOptions::new()
+            // some of the data may exist only in the compacted file, so it must not be overlooked
+            match OpenOptions::new()
                 .read(true)
                 .write(true)
                 .open(&compacted_filename)
             {
-                let target = MmapFile::new(compacted_file, config.mlock_headers)?;
-                Self::do_compaction(&row_locks, &mmap_file, &target, &stats, &config)?;
-                std::fs::rename(compacted_filename, filename)?;
-                mmap_file = target;
+                // an incomplete header means nothing was compacted yet, and a new shard has nothing to compact
+                Ok(compacted_file)
+                    if file_size == 0 || compacted_file.metadata()?.len() < HEADER_SIZE =>
+                {
+                    std::fs::remove_file(compacted_filename)?;
+                }
+                Ok(compacted_file) => {
+                    let target = MmapFile::new(compacted_file, config.mlock_headers)?;
+                    Self::do_compaction(&row_locks, &mmap_file, &target, &stats, &config)?;
+                    std::fs::rename(compacted_filename, filename)?;
+                    mmap_file = target;
+                }
+                Err(e) if e.kind() == ErrorKind::NotFound => {}
+                Err(e) => return Err(e.into()),
             }
         }
 
@@ -448,10 +464,11 @@ impl Shard {
             row_locks: Arc::new(row_locks),
             threadpool,
             compaction_handle: Arc::new(Mutex::new(None)),
+            compaction_failed: Arc::new(AtomicBool::new(false)),
             #[cfg(feature = "flush_aggregation")]
             sync_agg_mutex: parking_lot::Mutex::new(true),
             #[cfg(feature = "flush_aggregation")]
-            in_sync_agg_delay: std::sync::atomic::AtomicBool::new(false),
+            in_sync_agg_delay: AtomicBool::new(false),
         })
     }
 
@@ -476,10 +493,11 @@ impl Shard {
             row_locks: Arc::new(row_locks),
             threadpool,
             compaction_handle: Arc::new(Mutex::new(None)),
+            compaction_failed: Arc::new(AtomicBool::new(false)),
             #[cfg(feature = "flush_aggregation")]
             sync_agg_mutex: parking_lot::Mutex::new(true),
             #[cfg(feature = "flush_aggregation")]
-            in_sync_agg_delay: std::sync::atomic::AtomicBool::new(false),
+            in_sync_agg_delay: AtomicBool::new(false),
         })
     }
 
@@ -490,7 +508,6 @@ impl Shard {
         stats: &InternalStats,
         config: &InternalConfig,
     ) -> Result<()> {
-        let mut first_row = true;
         loop {
             let row_idx = target.header().compacted_up_to.load(Ordering::Acquire);
             if row_idx >= NUM_ROWS {
@@ -502,31 +519,35 @@ impl Shard {
             let target_row = target.row_mut(row_idx);
             let mut target_col = 0;
 
+            // the row may have been partially copied by a previous attempt, and the source may have changed since
+            for sig in target_row.signatures.iter_mut() {
+                if *sig != INVALID_SIG {
+                    *sig = INVALID_SIG;
+                }
+            }
+
             for (src_col, &sig) in src_row.signatures.iter().enumerate() {
                 if sig == INVALID_SIG {
                     continue;
                 }
                 let (k, v) = src.read_kv(&stats, src_row.offsets_and_sizes[src_col])?;
 
-                assert!(
-                    first_row || target_row.signatures[target_col] == INVALID_SIG,
-                    "row={row_idx} col={target_col} sig={}",
-                    target_row.signatures[target_col]
-                );
                 let ph = PartedHash::new(&config.hash_seed, &k);
                 assert_eq!(ph.row_selector(), row_idx);
                 target_row.offsets_and_sizes[target_col] = target.write_kv(&stats, &k, &v)?;
                 std::sync::atomic::fence(Ordering::SeqCst);
                 target_row.signatures[target_col] = ph.signature();
-                target.header().num_inserts.fetch_add(1, Ordering::Relaxed);
                 target_col += 1;
             }
 
+            target
+                .header()
+                .num_inserts
+                .fetch_add(target_col as u64, Ordering::Relaxed);
             target
                 .header()
                 .compacted_up_to
                 .fetch_add(1, Ordering::Release);
-            first_row = false;
         }
 
         Ok(())
@@ -548,9 +569,7 @@ impl Shard {
         );
 
         let mut handle_guard = self.compaction_handle.lock();
-        if let Some(handle) = handle_guard.take() {
-            handle.wait()?;
-        }
+        self.finish_compaction(&mut handle_guard)?;
 
         let files_guard = self.files.write();
 
@@ -645,6 +664,9 @@ impl Shard {
     }
 
     pub(crate) fn merge(bottom: &Shard, top: &Shard) -> Result<Option<Shard>> {
+        bottom.finish_compaction(&mut bottom.compaction_handle.lock())?;
+        top.finish_compaction(&mut top.compaction_handle.lock())?;
+
         let bottom_files = bottom.files.write();
         let top_files = top.files.write();
 
@@ -913,61 +935,68 @@ impl Shard {
         Ok(())
     }
 
+    // makes sure no compaction is in progress: waits for it, and if it had failed, completes it
+    fn finish_compaction(&self, handle: &mut Option<TPHandle>) -> Result<()> {
+        if let Some(handle) = handle.take() {
+            _ = handle.wait();
+        }
+        if self.files.read().1.is_some() {
+            Self::background_compact(&self.compaction_info())?;
+        }
+        Ok(())
+    }
+
+    fn compaction_info(&self) -> CompactionInfo {
+        CompactionInfo {
+            files: self.files.clone(),
+            stats: self.stats.clone(),
+            row_locks: self.row_locks.clone(),
+            config: self.config.clone(),
+            failed: self.compaction_failed.clone(),
+            t0: Instant::now(),
+            src_filename: self.config.dir_path.join(format!(
+                "shard_{:04x}-{:04x}",
+                self.span.start, self.span.end
+            )),
+            target_filename: self.config.dir_path.join(format!(
+                "compact_{:04x}-{:04x}",
+                self.span.start, self.span.end
+            )),
+        }
+    }
+
     fn begin_compaction(&self, min_write_offset: u64) -> Result<()> {
         let mut handle_guard = self.compaction_handle.lock();
         let mut files_guard = self.files.write();
 
-        if files_guard.0.header().write_offset.load(Ordering::Relaxed) < min_write_offset {
-            // already compacted by someone else
-            return Ok(());
-        }
+        let info = self.compaction_info();
 
         if files_guard.1.is_some() {
-            // if the compaction target exists and the thread is still running -- all good
+            // if the compaction target exists and the thread is still running -- all good. otherwise the compaction
+            // had failed in the middle, where some of the rows exist only in the target, so we need to go on with it
             if let Some(ref handle) = *handle_guard {
                 if !handle.finished() {
                     return Ok(());
                 }
-            } else {
+            }
+        } else {
+            if files_guard.0.header().write_offset.load(Ordering::Relaxed) < min_write_offset {
+                // already compacted by someone else
                 return Ok(());
             }
-        }
 
-        // the thread could've crashed in the middle of a compaction, and here's the place to extract the error
-        if let Some(handle) = handle_guard.take() {
-            handle.wait()?;
+            let target = MmapFile::create(&info.target_filename, &self.config)?;
+            target.header().compacted_up_to.store(0, Ordering::Release);
+            files_guard.1 = Some(target);
         }
 
-        assert!(files_guard.1.is_none());
-
-        let t0 = Instant::now();
-        let src_filename = self.config.dir_path.join(format!(
-            "shard_{:04x}-{:04x}",
-            self.span.start, self.span.end
-        ));
-        let target_filename = self.config.dir_path.join(format!(
-            "compact_{:04x}-{:04x}",
-            self.span.start, self.span.end
-        ));
-        let target = MmapFile::create(&target_filename, &self.config)?;
-        target.header().compacted_up_to.store(0, Ordering::Release);
-        files_guard.1 = Some(target);
-
-        let handle = self.threadpool.submit(CompactionInfo {
-            files: self.files.clone(),
-            stats: self.stats.clone(),
-            row_locks: self.row_locks.clone(),
-            config: self.config.clone(),
-            t0,
-            src_filename,
-            target_filename,
-        })?;
-        *handle_guard = Some(handle);
+        self.compaction_failed.store(false, Ordering::SeqCst);
+        *handle_guard = Some(self.threadpool.submit(info)?);
 
         Ok(())
     }
 
-    fn background_compact(info: CompactionInfo) -> Result<()> {
+    fn background_compact(info: &CompactionInfo) -> Result<()> {
         let mut files_guard = info.files.upgradable_read();
         let src = &files_guard.0;
         let target = files_guard.1.as_ref().unwrap();
@@ -999,7 +1028,12 @@ impl Shard {
 
         let status =
             self.operate_on_row_mut(ph.row_selector(), |file, is_compacting, row_guard, row| {
-                if !is_compacting {
+                if is_compacting {
+                    if self.compaction_failed.load(Ordering::SeqCst) {
+                        // try again
+                        should_compact = Some(u64::MAX);
+                    }
+                } else {
                     if file.header().wasted_bytes.load(Ordering::Relaxed)
                         >= self.config.min_compaction_threashold as u64
                     {
@@ -1088,7 +1122,7 @@ impl Shard {
     }
 
     pub(crate) fn get_stats(&self) -> Result<ShardStats> {
-        self.wait_for_compaction()?;
+        _ = self.wait_for_compaction(); // not our failure
         let files_guard = self.files.read();
         let hdr = files_guard.0.header();
         Ok(ShardStats {
-- 
2.43.0


From 6d0e3bc9f5c46c9dfc7186e339a506713f70b0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 14/25] fix: statistics underflowed (and stats panicked) after
 crashes, failed compactions and during concurrent operations

---
 src/shard.rs | 67 ++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 62 insertions(+), 5 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index ac9a4a7..285e9e8 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -53,6 +53,21 @@ impl ShardRow {
             None
         }
     }
+
+    // returns the number of entries in the row, and their total size
+    fn usage(&self) -> (usize, usize) {
+        let mut items = 0;
+        let mut bytes = 0;
+        for (col, &sig) in self.signatures.iter().enumerate() {
+            if sig != INVALID_SIG {
+                let offset_and_size = self.offsets_and_sizes[col];
+                items += 1;
+                bytes += (offset_and_size >> 48) as usize;
+                bytes += ((offset_and_size >> 32) & 0xffff) as usize;
+            }
+        }
+        (items, bytes)
+    }
 }
 
 #[test]
@@ -207,6 +222,30 @@ impl MmapFile {
         &mut self.header_mut().rows.0[row_idx]
     }
 
+    // we may have crashed between updating an entry and updating the counters, so recompute them
+    fn recount(&self) {
+        let mut num_items = 0;
+        let mut num_bytes = 0;
+        for row in self.header().rows.0.iter() {
+            let (items, bytes) = row.usage();
+            num_items += items as u64;
+            num_bytes += bytes as u64;
+        }
+        let header = self.header();
+        let num_inserts = header.num_removals.load(Ordering::Relaxed) + num_items;
+        if header.num_inserts.load(Ordering::Relaxed) != num_inserts {
+            header.num_inserts.store(num_inserts, Ordering::Relaxed);
+        }
+        // this includes areas that were allocated but never used
+        let wasted_bytes = header
+            .write_offset
+            .load(Ordering::Relaxed)
+            .saturating_sub(num_bytes);
+        if header.wasted_bytes.load(Ordering::Relaxed) != wasted_bytes {
+            header.wasted_bytes.store(wasted_bytes, Ordering::Relaxed);
+        }
+    }
+
     // reading doesn't require holding any locks - we only ever extend the file, never overwrite data
     fn read_kv(&self, stats: &InternalStats, offset_and_size: u64) -> Result<KVPair> {
         let klen = (offset_and_size >> 48) as usize;
@@ -324,7 +363,7 @@ impl CompactionThreadPool {
     }
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, Default)]
 pub(crate) struct ShardStats {
     pub write_offset: usize,
     pub wasted_bytes: usize,
@@ -456,6 +495,8 @@ impl Shard {
             }
         }
 
+        mmap_file.recount();
+
         Ok(Self {
             span,
             config,
@@ -1124,12 +1165,28 @@ impl Shard {
     pub(crate) fn get_stats(&self) -> Result<ShardStats> {
         _ = self.wait_for_compaction(); // not our failure
         let files_guard = self.files.read();
+        if files_guard.1.is_some() {
+            // the counters of neither file tell the whole story while the data is split between them
+            drop(files_guard);
+            let mut stats = ShardStats::default();
+            for row_idx in 0..NUM_ROWS {
+                let (items, bytes) = self.operate_on_row(row_idx, |_, row| Ok(row.usage()))?;
+                stats.num_inserts += items;
+                stats.write_offset += bytes;
+            }
+            return Ok(stats);
+        }
+
+        // operations may be taking place concurrently: things are removed only after they were inserted, so read
+        // the counters in the opposite order
         let hdr = files_guard.0.header();
+        let num_removals = hdr.num_removals.load(Ordering::SeqCst) as usize;
+        let wasted_bytes = hdr.wasted_bytes.load(Ordering::SeqCst) as usize;
         Ok(ShardStats {
-            write_offset: hdr.write_offset.load(Ordering::Relaxed) as usize,
-            wasted_bytes: hdr.wasted_bytes.load(Ordering::Relaxed) as usize,
-            num_inserts: hdr.num_inserts.load(Ordering::Relaxed) as usize,
-            num_removals: hdr.num_removals.load(Ordering::Relaxed) as usize,
+            write_offset: hdr.write_offset.load(Ordering::SeqCst) as usize,
+            wasted_bytes,
+            num_inserts: hdr.num_inserts.load(Ordering::SeqCst) as usize,
+            num_removals,
         })
     }
 }
-- 
2.43.0


From 8d824d20e3ebf190ed056b90e35842bc4d0a3bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 15/25] fix: a crash or failure during initial creation or
 clear left a partial store, or resurrected old data

---
 src/router.rs | 115 ++++++++++++++++++++++++++++++++++++++------------
 src/shard.rs  | 101 +++++++++++++++++++++++---------------------
 src/store.rs  |   6 +++
 3 files changed, 149 insertions(+), 73 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index b7bf63e..3b4d055 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -65,6 +65,15 @@ impl ShardNode {
     fn len(&self) -> u32 {
         self.span().end - self.span().start
     }
+    fn finish_compactions(&self) -> Result<()> {
+        match self {
+            Self::Leaf(sh) => sh.finish_compaction(),
+            Self::Vertex(bottom, top) => {
+                bottom.node.read().finish_compactions()?;
+                top.node.read().finish_compactions()
+            }
+        }
+    }
 }
 
 pub(crate) struct ShardRouter {
@@ -87,6 +96,20 @@ impl ShardRouter {
         if shards.is_empty() {
             shards = Self::create_initial_shards(&config, &stats, &threadpool)?;
         }
+        let mut end = 0;
+        for sh in shards.iter() {
+            ensure!(
+                sh.span.start == end,
+                "shard(s) {end:04x}-{:04x} missing",
+                sh.span.start
+            );
+            end = sh.span.end;
+        }
+        ensure!(
+            end == Self::END_OF_SHARDS,
+            "shard(s) {end:04x}-{:04x} missing",
+            Self::END_OF_SHARDS
+        );
         let root = Self::treeify(shards, &stats, &threadpool);
         Ok(Self {
             span: root.span(),
@@ -103,6 +126,7 @@ impl ShardRouter {
         threadpool: &Arc<CompactionThreadPool>,
     ) -> Result<Vec<Shard>> {
         let mut found_shards = vec![];
+        let mut compactions = vec![];
         for res in std::fs::read_dir(&config.dir_path)? {
             let entry = res?;
             let filename = entry.file_name();
@@ -121,10 +145,10 @@ impl ShardRouter {
             {
                 std::fs::remove_file(entry.path())?;
                 continue;
-            } else if !filename.starts_with("shard_") {
+            } else if !filename.starts_with("shard_") && !filename.starts_with("compact_") {
                 continue;
             }
-            let Some((_, span)) = filename.split_once("_") else {
+            let Some((kind, span)) = filename.split_once("_") else {
                 continue;
             };
             let Some((start, end)) = span.split_once("-") else {
@@ -138,7 +162,11 @@ impl ShardRouter {
                 "Bad span for {filename}"
             );
 
-            found_shards.push(start..end);
+            if kind == "compact" {
+                compactions.push((start..end, entry.path()));
+            } else {
+                found_shards.push(start..end);
+            }
         }
 
         let (shards_to_keep, shards_to_remove) = consolidate_ranges(found_shards);
@@ -150,11 +178,16 @@ impl ShardRouter {
             )?;
         }
 
+        for (span, path) in compactions {
+            if !shards_to_keep.contains(&span) {
+                std::fs::remove_file(path)?;
+            }
+        }
+
         let mut shards = vec![];
         for span in shards_to_keep {
             shards.push(Shard::open(
                 span,
-                false,
                 config.clone(),
                 stats.clone(),
                 threadpool.clone(),
@@ -178,21 +211,69 @@ impl ShardRouter {
         stats: &Arc<InternalStats>,
         threadpool: &Arc<CompactionThreadPool>,
     ) -> Result<Vec<Shard>> {
+        // begin with a single empty shard, which atomically supersedes all other shard files. if we crash or fail from
+        // here on, this is the one that will be used
+        let root = Shard::create(
+            0..Self::END_OF_SHARDS,
+            config.clone(),
+            stats.clone(),
+            threadpool.clone(),
+        )?;
+        let shards = Self::divide_initial_shard(config, stats, threadpool).unwrap_or_default();
+        Ok(if shards.is_empty() {
+            vec![root]
+        } else {
+            shards
+        })
+    }
+
+    fn divide_initial_shard(
+        config: &Arc<InternalConfig>,
+        stats: &Arc<InternalStats>,
+        threadpool: &Arc<CompactionThreadPool>,
+    ) -> Result<Vec<Shard>> {
+        let root_name = format!("shard_{:04x}-{:04x}", 0, Self::END_OF_SHARDS);
+
+        for res in std::fs::read_dir(&config.dir_path)? {
+            let entry = res?;
+            let filename = entry.file_name();
+            let Some(filename) = filename.to_str() else {
+                continue;
+            };
+            let Ok(filetype) = entry.file_type() else {
+                continue;
+            };
+            if !filetype.is_file() || filename == root_name {
+                continue;
+            }
+            if filename.starts_with("shard_")
+                || filename.starts_with("compact_")
+                || filename.starts_with("bottom_")
+                || filename.starts_with("top_")
+                || filename.starts_with("merge_")
+            {
+                std::fs::remove_file(entry.path())?;
+            }
+        }
+
         let step = Self::calc_step(config.expected_number_of_keys);
+        if step == Self::END_OF_SHARDS {
+            return Ok(vec![]);
+        }
 
         let mut shards = vec![];
         let mut start = 0;
         while start < Self::END_OF_SHARDS {
             let end = start + step;
-            shards.push(Shard::open(
+            shards.push(Shard::create(
                 start..end,
-                true,
                 config.clone(),
                 stats.clone(),
                 threadpool.clone(),
             )?);
             start = end;
         }
+        std::fs::remove_file(config.dir_path.join(root_name))?;
 
         Ok(shards)
     }
@@ -297,26 +378,8 @@ impl ShardRouter {
     pub(crate) fn clear(&self) -> Result<()> {
         let mut guard = self.node.write();
 
-        for res in std::fs::read_dir(&self.config.dir_path)? {
-            let entry = res?;
-            let filename = entry.file_name();
-            let Some(filename) = filename.to_str() else {
-                continue;
-            };
-            let Ok(filetype) = entry.file_type() else {
-                continue;
-            };
-            if !filetype.is_file() {
-                continue;
-            }
-            if filename.starts_with("shard_")
-                || filename.starts_with("compact_")
-                || filename.starts_with("bottom_")
-                || filename.starts_with("top_")
-            {
-                std::fs::remove_file(entry.path())?;
-            }
-        }
+        // compactions must not rename their results over the new shards
+        guard.finish_compactions()?;
 
         let shards = Self::create_initial_shards(&self.config, &self.stats, &self.threadpool)?;
         *guard = Self::treeify(shards, &self.stats, &self.threadpool);
diff --git a/src/shard.rs b/src/shard.rs
index 285e9e8..cbbb6da 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -397,7 +397,6 @@ impl Shard {
 
     pub(crate) fn open(
         span: Range<u32>,
-        truncate: bool,
         config: Arc<InternalConfig>,
         stats: Arc<InternalStats>,
         threadpool: Arc<CompactionThreadPool>,
@@ -409,7 +408,6 @@ impl Shard {
             .create(true)
             .read(true)
             .write(true)
-            .truncate(truncate)
             .open(&filename)?;
 
         let mut file_size = file.metadata()?.len();
@@ -469,30 +467,26 @@ impl Shard {
         let compacted_filename = config
             .dir_path
             .join(format!("compact_{:04x}-{:04x}", span.start, span.end));
-        if truncate {
-            _ = std::fs::remove_file(compacted_filename);
-        } else {
-            // some of the data may exist only in the compacted file, so it must not be overlooked
-            match OpenOptions::new()
-                .read(true)
-                .write(true)
-                .open(&compacted_filename)
+        // some of the data may exist only in the compacted file, so it must not be overlooked
+        match OpenOptions::new()
+            .read(true)
+            .write(true)
+            .open(&compacted_filename)
+        {
+            // an incomplete header means nothing was compacted yet, and a new shard has nothing to compact
+            Ok(compacted_file)
+                if file_size == 0 || compacted_file.metadata()?.len() < HEADER_SIZE =>
             {
-                // an incomplete header means nothing was compacted yet, and a new shard has nothing to compact
-                Ok(compacted_file)
-                    if file_size == 0 || compacted_file.metadata()?.len() < HEADER_SIZE =>
-                {
-                    std::fs::remove_file(compacted_filename)?;
-                }
-                Ok(compacted_file) => {
-                    let target = MmapFile::new(compacted_file, config.mlock_headers)?;
-                    Self::do_compaction(&row_locks, &mmap_file, &target, &stats, &config)?;
-                    std::fs::rename(compacted_filename, filename)?;
-                    mmap_file = target;
-                }
-                Err(e) if e.kind() == ErrorKind::NotFound => {}
-                Err(e) => return Err(e.into()),
+                std::fs::remove_file(compacted_filename)?;
+            }
+            Ok(compacted_file) => {
+                let target = MmapFile::new(compacted_file, config.mlock_headers)?;
+                Self::do_compaction(&row_locks, &mmap_file, &target, &stats, &config)?;
+                std::fs::rename(compacted_filename, filename)?;
+                mmap_file = target;
             }
+            Err(e) if e.kind() == ErrorKind::NotFound => {}
+            Err(e) => return Err(e.into()),
         }
 
         mmap_file.recount();
@@ -513,6 +507,33 @@ impl Shard {
         })
     }
 
+    // creates an empty shard. the file appears only when complete, and supersedes any shard file it overlaps with
+    pub(crate) fn create(
+        span: Range<u32>,
+        config: Arc<InternalConfig>,
+        stats: Arc<InternalStats>,
+        threadpool: Arc<CompactionThreadPool>,
+    ) -> Result<Self> {
+        let tmp_filename = config
+            .dir_path
+            .join(format!("merge_{:04x}-{:04x}", span.start, span.end));
+        let mmap_file = MmapFile::create(&tmp_filename, &config)?;
+        Self::install(&tmp_filename, &span, &config)?;
+        Self::new(span, mmap_file, config, stats, threadpool)
+    }
+
+    // makes a temporary file into the shard file of the given span
+    fn install(tmp_filename: &Path, span: &Range<u32>, config: &InternalConfig) -> Result<()> {
+        let name = format!("{:04x}-{:04x}", span.start, span.end);
+        // a stale compaction target must not be mistaken for that of the new file
+        match std::fs::remove_file(config.dir_path.join(format!("compact_{name}"))) {
+            Err(e) if e.kind() != ErrorKind::NotFound => return Err(e.into()),
+            _ => {}
+        }
+        std::fs::rename(tmp_filename, config.dir_path.join(format!("shard_{name}")))?;
+        Ok(())
+    }
+
     fn new(
         span: Range<u32>,
         mmap_file: MmapFile,
@@ -609,8 +630,7 @@ impl Shard {
             self.span.end
         );
 
-        let mut handle_guard = self.compaction_handle.lock();
-        self.finish_compaction(&mut handle_guard)?;
+        self.finish_compaction()?;
 
         let files_guard = self.files.write();
 
@@ -663,18 +683,8 @@ impl Shard {
             }
         }
 
-        std::fs::rename(
-            bottom_filename,
-            self.config
-                .dir_path
-                .join(format!("shard_{:04x}-{:04x}", self.span.start, mid,)),
-        )?;
-        std::fs::rename(
-            top_filename,
-            self.config
-                .dir_path
-                .join(format!("shard_{:04x}-{:04x}", mid, self.span.end)),
-        )?;
+        Self::install(&bottom_filename, &(self.span.start..mid), &self.config)?;
+        Self::install(&top_filename, &(mid..self.span.end), &self.config)?;
         std::fs::remove_file(self.config.dir_path.join(format!(
             "shard_{:04x}-{:04x}",
             self.span.start, self.span.end
@@ -705,8 +715,8 @@ impl Shard {
     }
 
     pub(crate) fn merge(bottom: &Shard, top: &Shard) -> Result<Option<Shard>> {
-        bottom.finish_compaction(&mut bottom.compaction_handle.lock())?;
-        top.finish_compaction(&mut top.compaction_handle.lock())?;
+        bottom.finish_compaction()?;
+        top.finish_compaction()?;
 
         let bottom_files = bottom.files.write();
         let top_files = top.files.write();
@@ -765,10 +775,6 @@ impl Shard {
             }
         }
 
-        let dst_filename = combined.config.dir_path.join(format!(
-            "shard_{:04x}-{:04x}",
-            combined.span.start, combined.span.end
-        ));
         let bottom_filename = combined.config.dir_path.join(format!(
             "shard_{:04x}-{:04x}",
             bottom.span.start, bottom.span.end
@@ -778,7 +784,7 @@ impl Shard {
             .dir_path
             .join(format!("shard_{:04x}-{:04x}", top.span.start, top.span.end));
 
-        std::fs::rename(tmp_filename, dst_filename)?;
+        Self::install(&tmp_filename, &combined.span, &combined.config)?;
         // from here on the merged shard supersedes these two, even if they cannot be removed right now
         _ = std::fs::remove_file(bottom_filename);
         _ = std::fs::remove_file(top_filename);
@@ -977,8 +983,9 @@ impl Shard {
     }
 
     // makes sure no compaction is in progress: waits for it, and if it had failed, completes it
-    fn finish_compaction(&self, handle: &mut Option<TPHandle>) -> Result<()> {
-        if let Some(handle) = handle.take() {
+    pub(crate) fn finish_compaction(&self) -> Result<()> {
+        let mut handle_guard = self.compaction_handle.lock();
+        if let Some(handle) = handle_guard.take() {
             _ = handle.wait();
         }
         if self.files.read().1.is_some() {
diff --git a/src/store.rs b/src/store.rs
index 45ffa8d..d432bf1 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -260,6 +260,12 @@ impl CandyStore {
 
     /// Clears the store (erasing all keys), and removing all shard files
     pub fn clear(&self) -> Result<()> {
+        // let multi-step operations complete first, or they might leave remains in the cleared store
+        let _guards = self
+            .keyed_locks
+            .iter()
+            .map(|lock| lock.lock())
+            .collect::<Vec<_>>();
         self.root.clear()?;
         self.stats.clear();
 
-- 
2.43.0


From 2b37167632bd91050e4ca6024add84950052a861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 16/25] fix: iterators skipped entries that a concurrent
 compaction or split had moved

---
 src/shard.rs | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index cbbb6da..e20d8f4 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -579,7 +579,7 @@ impl Shard {
             let _row_guard = row_locks[row_idx].write();
             let src_row = src.row(row_idx);
             let target_row = target.row_mut(row_idx);
-            let mut target_col = 0;
+            let mut num_items = 0;
 
             // the row may have been partially copied by a previous attempt, and the source may have changed since
             for sig in target_row.signatures.iter_mut() {
@@ -588,24 +588,25 @@ impl Shard {
                 }
             }
 
-            for (src_col, &sig) in src_row.signatures.iter().enumerate() {
+            // entries keep their positions, so that iterators won't miss them
+            for (col, &sig) in src_row.signatures.iter().enumerate() {
                 if sig == INVALID_SIG {
                     continue;
                 }
-                let (k, v) = src.read_kv(&stats, src_row.offsets_and_sizes[src_col])?;
+                let (k, v) = src.read_kv(&stats, src_row.offsets_and_sizes[col])?;
 
                 let ph = PartedHash::new(&config.hash_seed, &k);
                 assert_eq!(ph.row_selector(), row_idx);
-                target_row.offsets_and_sizes[target_col] = target.write_kv(&stats, &k, &v)?;
+                target_row.offsets_and_sizes[col] = target.write_kv(&stats, &k, &v)?;
                 std::sync::atomic::fence(Ordering::SeqCst);
-                target_row.signatures[target_col] = ph.signature();
-                target_col += 1;
+                target_row.signatures[col] = ph.signature();
+                num_items += 1;
             }
 
             target
                 .header()
                 .num_inserts
-                .fetch_add(target_col as u64, Ordering::Relaxed);
+                .fetch_add(num_items, Ordering::Relaxed);
             target
                 .header()
                 .compacted_up_to
@@ -651,8 +652,7 @@ impl Shard {
         let top_file = MmapFile::create(&top_filename, &self.config)?;
 
         for (row_idx, src_row) in files_guard.0.header().rows.0.iter().enumerate() {
-            let mut bottom_col = 0;
-            let mut top_col = 0;
+            // entries keep their positions, so that iterators won't miss them
             for (col, &sig) in src_row.signatures.iter().enumerate() {
                 if sig == INVALID_SIG {
                     continue;
@@ -663,23 +663,22 @@ impl Shard {
                 let ph = PartedHash::new(&self.config.hash_seed, &k);
                 assert_eq!(row_idx, ph.row_selector());
 
-                let (file, col) = if ph.shard_selector() < mid {
-                    (&bottom_file, &mut bottom_col)
+                let file = if ph.shard_selector() < mid {
+                    &bottom_file
                 } else {
-                    (&top_file, &mut top_col)
+                    &top_file
                 };
 
                 let target_row = file.row_mut(ph.row_selector());
                 assert_eq!(
-                    target_row.signatures[*col], INVALID_SIG,
+                    target_row.signatures[col], INVALID_SIG,
                     "row={} col={} sig={}",
-                    row_idx, *col, target_row.signatures[*col]
+                    row_idx, col, target_row.signatures[col]
                 );
-                target_row.offsets_and_sizes[*col] = file.write_kv(&self.stats, &k, &v)?;
+                target_row.offsets_and_sizes[col] = file.write_kv(&self.stats, &k, &v)?;
                 std::sync::atomic::fence(Ordering::SeqCst);
-                target_row.signatures[*col] = ph.signature();
+                target_row.signatures[col] = ph.signature();
                 file.header().num_inserts.fetch_add(1, Ordering::Relaxed);
-                *col += 1;
             }
         }
 
-- 
2.43.0


From 913199fc11d6f071f4654b61cd691772fdbf66f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 17/25] fix: flushed data could be lost in a power failure
 after a compaction, split or merge

---
 src/shard.rs | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index e20d8f4..0498fb3 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -482,6 +482,7 @@ impl Shard {
             Ok(compacted_file) => {
                 let target = MmapFile::new(compacted_file, config.mlock_headers)?;
                 Self::do_compaction(&row_locks, &mmap_file, &target, &stats, &config)?;
+                target.file.sync_data()?;
                 std::fs::rename(compacted_filename, filename)?;
                 mmap_file = target;
             }
@@ -518,12 +519,20 @@ impl Shard {
             .dir_path
             .join(format!("merge_{:04x}-{:04x}", span.start, span.end));
         let mmap_file = MmapFile::create(&tmp_filename, &config)?;
-        Self::install(&tmp_filename, &span, &config)?;
+        Self::install(&mmap_file, &tmp_filename, &span, &config)?;
         Self::new(span, mmap_file, config, stats, threadpool)
     }
 
     // makes a temporary file into the shard file of the given span
-    fn install(tmp_filename: &Path, span: &Range<u32>, config: &InternalConfig) -> Result<()> {
+    fn install(
+        file: &MmapFile,
+        tmp_filename: &Path,
+        span: &Range<u32>,
+        config: &InternalConfig,
+    ) -> Result<()> {
+        // the rename might reach the disk before the data does
+        file.file.sync_data()?;
+
         let name = format!("{:04x}-{:04x}", span.start, span.end);
         // a stale compaction target must not be mistaken for that of the new file
         match std::fs::remove_file(config.dir_path.join(format!("compact_{name}"))) {
@@ -607,6 +616,12 @@ impl Shard {
                 .header()
                 .num_inserts
                 .fetch_add(num_items, Ordering::Relaxed);
+            #[cfg(feature = "flush_aggregation")]
+            if config.flush_aggregation_delay.is_some() {
+                // the source's row is abandoned, so its data must be on disk in the target first
+                target.file.sync_data()?;
+            }
+
             target
                 .header()
                 .compacted_up_to
@@ -618,7 +633,14 @@ impl Shard {
 
     pub(crate) fn flush(&self) -> Result<()> {
         //self.mmap.flush()? -- fdatasync should take care of that as well
-        self.files.read().0.file.sync_data()?;
+        let files_guard = self.files.read();
+        files_guard.0.file.sync_data()?;
+        if let Some(ref target) = files_guard.1 {
+            // part of the data may exist only in the compaction's target
+            target.file.sync_data()?;
+        }
+        // sync the renames done by previous compactions, splits and merges
+        File::open(&self.config.dir_path)?.sync_all()?;
         Ok(())
     }
 
@@ -682,8 +704,8 @@ impl Shard {
             }
         }
 
-        Self::install(&bottom_filename, &(self.span.start..mid), &self.config)?;
-        Self::install(&top_filename, &(mid..self.span.end), &self.config)?;
+        Self::install(&bottom_file, &bottom_filename, &(self.span.start..mid), &self.config)?;
+        Self::install(&top_file, &top_filename, &(mid..self.span.end), &self.config)?;
         std::fs::remove_file(self.config.dir_path.join(format!(
             "shard_{:04x}-{:04x}",
             self.span.start, self.span.end
@@ -783,7 +805,12 @@ impl Shard {
             .dir_path
             .join(format!("shard_{:04x}-{:04x}", top.span.start, top.span.end));
 
-        Self::install(&tmp_filename, &combined.span, &combined.config)?;
+        Self::install(
+            &combined_files.0,
+            &tmp_filename,
+            &combined.span,
+            &combined.config,
+        )?;
         // from here on the merged shard supersedes these two, even if they cannot be removed right now
         _ = std::fs::remove_file(bottom_filename);
         _ = std::fs::remove_file(top_filename);
@@ -1050,6 +1077,8 @@ impl Shard {
 
         Self::do_compaction(&info.row_locks, src, target, &info.stats, &info.config)?;
 
+        // the rename might reach the disk before the data does
+        target.file.sync_data()?;
         std::fs::rename(&info.target_filename, &info.src_filename)?;
 
         info.stats.report_compaction(
-- 
2.43.0


From d1e5ba6ed03af659b75d7824c6e7408a7277319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:57 +0000
Subject: [PATCH 18/25] fix: compaction threads terminated once a new
 compaction began before the previous one reported its result

---
 src/shard.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 0498fb3..edfc6a1 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -331,7 +331,8 @@ impl CompactionThreadPool {
                     if res.is_err() {
                         info.failed.store(true, Ordering::SeqCst);
                     }
-                    handle_tx.send(res)?;
+                    // a new compaction may have begun by now, in which case nobody is waiting for this result
+                    _ = handle_tx.send(res);
                 }
                 Ok(())
             });
-- 
2.43.0


From 7d838e494e0e02d6f1c9db742e469b07cbb47fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:48 +0000
Subject: [PATCH 19/25] fix: an interrupted extend_queue left elements outside
 of the queue's range

---
 src/queues.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/queues.rs b/src/queues.rs
index 8a0197c..c88d04a 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -379,19 +379,17 @@ impl CandyStore {
         let queue = from_bytes_mut::<Queue>(&mut queue_bytes);
 
         let first_idx = queue.tail_idx;
-        for item in items {
-            self.set_raw(
-                &self.make_queue_item_key(queue_key, queue.tail_idx),
-                item.as_ref(),
-            )?;
-            queue.tail_idx += 1;
-            queue.num_items += 1;
-        }
+        let end_idx = first_idx + items.len() as u64;
+        queue.tail_idx = end_idx;
+        queue.num_items += items.len() as u64;
 
-        let indices = first_idx as usize..queue.tail_idx as usize;
+        // if we crash, holes are okay, but there must not be items outside of the queue's range
         self.set_raw(&full_queue_key, &queue_bytes)?;
+        for (idx, item) in (first_idx..end_idx).zip(items) {
+            self.set_raw(&self.make_queue_item_key(queue_key, idx), item.as_ref())?;
+        }
 
-        Ok(indices)
+        Ok(first_idx as usize..end_idx as usize)
     }
 
     /// Returns (without removing) the head element of the queue and its index, or None if the queue is empty
-- 
2.43.0


From dc53682780c9edb1e9b8f7926082eea0c711b7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:00 +0000
Subject: [PATCH 20/25] fix: entries torn by a machine crash made compactions,
 splits, merges and opening fail

---
 src/shard.rs | 58 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index edfc6a1..11bccc1 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -264,6 +264,33 @@ impl MmapFile {
         Ok((buf, val))
     }
 
+    // reads an entry in order to copy it. after a machine crash, entries that were never sync'ed may be torn: their
+    // data doesn't exist or doesn't belong to them. it is too late to save these, but they mustn't get in the way
+    fn read_entry(
+        &self,
+        stats: &InternalStats,
+        config: &InternalConfig,
+        row_idx: usize,
+        col: usize,
+    ) -> Result<Option<(PartedHash, KVPair)>> {
+        let row = self.row(row_idx);
+        let kv = match self.read_kv(stats, row.offsets_and_sizes[col]) {
+            Ok(kv) => kv,
+            Err(e)
+                if e.downcast_ref::<std::io::Error>()
+                    .is_some_and(|e| e.kind() == ErrorKind::UnexpectedEof) =>
+            {
+                return Ok(None);
+            }
+            Err(e) => return Err(e),
+        };
+        let ph = PartedHash::new(&config.hash_seed, &kv.0);
+        if ph.row_selector() != row_idx || ph.signature() != row.signatures[col] {
+            return Ok(None);
+        }
+        Ok(Some((ph, kv)))
+    }
+
     // writing doesn't require holding any locks since we write with an offset
     fn write_kv(&self, stats: &InternalStats, key: &[u8], val: &[u8]) -> Result<u64> {
         let entry_size = key.len() + val.len();
@@ -603,10 +630,9 @@ impl Shard {
                 if sig == INVALID_SIG {
                     continue;
                 }
-                let (k, v) = src.read_kv(&stats, src_row.offsets_and_sizes[col])?;
-
-                let ph = PartedHash::new(&config.hash_seed, &k);
-                assert_eq!(ph.row_selector(), row_idx);
+                let Some((ph, (k, v))) = src.read_entry(stats, config, row_idx, col)? else {
+                    continue;
+                };
                 target_row.offsets_and_sizes[col] = target.write_kv(&stats, &k, &v)?;
                 std::sync::atomic::fence(Ordering::SeqCst);
                 target_row.signatures[col] = ph.signature();
@@ -680,11 +706,13 @@ impl Shard {
                 if sig == INVALID_SIG {
                     continue;
                 }
-                let (k, v) = files_guard
-                    .0
-                    .read_kv(&self.stats, src_row.offsets_and_sizes[col])?;
-                let ph = PartedHash::new(&self.config.hash_seed, &k);
-                assert_eq!(row_idx, ph.row_selector());
+                let Some((ph, (k, v))) =
+                    files_guard
+                        .0
+                        .read_entry(&self.stats, &self.config, row_idx, col)?
+                else {
+                    continue;
+                };
 
                 let file = if ph.shard_selector() < mid {
                     &bottom_file
@@ -766,11 +794,13 @@ impl Shard {
                     if sig == INVALID_SIG {
                         continue;
                     }
-                    let (k, v) = files
-                        .0
-                        .read_kv(&combined.stats, src_row.offsets_and_sizes[src_col])?;
-                    let ph = PartedHash::new(&combined.config.hash_seed, &k);
-                    assert_eq!(row_idx, ph.row_selector());
+                    let Some((ph, (k, v))) =
+                        files
+                            .0
+                            .read_entry(&combined.stats, &combined.config, row_idx, src_col)?
+                    else {
+                        continue;
+                    };
 
                     let target_row = combined_files.0.row_mut(ph.row_selector());
                     if target_col >= ROW_WIDTH {
-- 
2.43.0


From baccf79290f0a2f26f07f88baa9167d769fe6049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:07 +0000
Subject: [PATCH 21/25] fix: operations in other shards waited for each other
 when several threads found that a shard needs splitting

---
 src/router.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 3b4d055..a17d8bb 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -1,5 +1,5 @@
 use anyhow::ensure;
-use parking_lot::RwLock;
+use parking_lot::{RwLock, RwLockUpgradableReadGuard};
 use std::{ops::Range, sync::Arc};
 
 use crate::shard::{CompactionThreadPool, InsertMode, InsertStatus, Shard};
@@ -422,9 +422,13 @@ impl ShardRouter {
 
             match res {
                 InsertStatus::SplitNeeded => {
-                    let mut guard = self.node.write();
+                    // don't lock out the operations on the shards below if it's already split
+                    let guard = self.node.upgradable_read();
+                    if matches!(&*guard, ShardNode::Vertex(..)) {
+                        continue;
+                    }
+                    let mut guard = RwLockUpgradableReadGuard::upgrade(guard);
                     let ShardNode::Leaf(sh) = &*guard else {
-                        // already split
                         continue;
                     };
 
-- 
2.43.0


From 6d16d5aafbcec318333eabc1239916ce0773cfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:53 +0000
Subject: [PATCH 22/25] fix: operations waited for a running compaction when
 another one of them also wanted to start it

---
 src/shard.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 11bccc1..70af9e7 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -1072,19 +1072,20 @@ impl Shard {
 
     fn begin_compaction(&self, min_write_offset: u64) -> Result<()> {
         let mut handle_guard = self.compaction_handle.lock();
+        if let Some(ref handle) = *handle_guard {
+            if !handle.finished() {
+                // already running. waiting for the write lock would block the shard until it's done
+                return Ok(());
+            }
+        }
+
         let mut files_guard = self.files.write();
 
         let info = self.compaction_info();
 
-        if files_guard.1.is_some() {
-            // if the compaction target exists and the thread is still running -- all good. otherwise the compaction
-            // had failed in the middle, where some of the rows exist only in the target, so we need to go on with it
-            if let Some(ref handle) = *handle_guard {
-                if !handle.finished() {
-                    return Ok(());
-                }
-            }
-        } else {
+        // if the compaction target exists, the compaction had failed in the middle, where some of the rows exist only
+        // in the target, so we need to go on with it
+        if files_guard.1.is_none() {
             if files_guard.0.header().write_offset.load(Ordering::Relaxed) < min_write_offset {
                 // already compacted by someone else
                 return Ok(());
-- 
2.43.0


From f737581a3a8da86a9481783f5e9a496a239ae3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:09 +0000
Subject: [PATCH 23/25] fix: entries beyond 4GB in a shard file corrupted other
 entries

---
 src/shard.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 70af9e7..173b73a 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -134,6 +134,8 @@ struct ShardHeader {
 }
 
 pub(crate) const HEADER_SIZE: u64 = size_of::<ShardHeader>() as u64;
+// entries' offsets are kept in 32 bits. leaves room for insertions that take place concurrently
+const MAX_WRITE_OFFSET: u64 = u32::MAX as u64 - 16 * 1024 * 1024;
 const _: () = assert!(HEADER_SIZE % 4096 == 0);
 
 #[derive(Debug)]
@@ -305,6 +307,11 @@ impl MmapFile {
             .write_offset
             .fetch_add(buf.len() as u64, Ordering::SeqCst) as u64;
 
+        ensure!(
+            write_offset + buf.len() as u64 <= u32::MAX as u64,
+            "shard file is full"
+        );
+
         // now writing can be non-atomic (pwrite)
         self.file.write_all_at(&buf, HEADER_SIZE + write_offset)?;
         stats.add_entry(entry_size);
@@ -1136,6 +1143,13 @@ impl Shard {
 
         let status =
             self.operate_on_row_mut(ph.row_selector(), |file, is_compacting, row_guard, row| {
+                let min_size = file.header().write_offset.load(Ordering::Relaxed)
+                    + (full_key.len() + val.len()) as u64;
+                if min_size > MAX_WRITE_OFFSET {
+                    // even if it's being compacted
+                    return Ok(InsertStatus::SplitNeeded);
+                }
+
                 if is_compacting {
                     if self.compaction_failed.load(Ordering::SeqCst) {
                         // try again
@@ -1146,10 +1160,7 @@ impl Shard {
                         >= self.config.min_compaction_threashold as u64
                     {
                         should_compact = Some(file.header().write_offset.load(Ordering::Relaxed));
-                    } else if file.header().write_offset.load(Ordering::Relaxed)
-                        + (full_key.len() + val.len()) as u64
-                        > self.config.max_shard_size as u64
-                    {
+                    } else if min_size > self.config.max_shard_size as u64 {
                         return Ok(InsertStatus::SplitNeeded);
                     }
                 }
-- 
2.43.0


From 0da96f2b9d0bc86d3c92fbbdb47a5b0163c92c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:35 +0000
Subject: [PATCH 24/25] fix: compactions of data that was never flushed waited
 for a disk sync, letting the shard grow meanwhile

---
 src/shard.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 173b73a..56d0f2f 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -338,6 +338,7 @@ struct CompactionInfo {
     files: Arc<RwLock<(MmapFile, Option<MmapFile>)>>,
     row_locks: Arc<[RwLock<()>; NUM_ROWS]>,
     failed: Arc<AtomicBool>,
+    has_synced_data: Arc<AtomicBool>,
     t0: Instant,
     src_filename: PathBuf,
     target_filename: PathBuf,
@@ -421,6 +422,7 @@ pub(crate) struct Shard {
     threadpool: Arc<CompactionThreadPool>,
     compaction_handle: Arc<Mutex<Option<TPHandle>>>,
     compaction_failed: Arc<AtomicBool>,
+    has_synced_data: Arc<AtomicBool>, // which must be on disk in a compaction's target as well
     #[cfg(feature = "flush_aggregation")]
     sync_agg_mutex: parking_lot::Mutex<bool>, // whether the last sync succeeded
     #[cfg(feature = "flush_aggregation")]
@@ -536,6 +538,7 @@ impl Shard {
             threadpool,
             compaction_handle: Arc::new(Mutex::new(None)),
             compaction_failed: Arc::new(AtomicBool::new(false)),
+            has_synced_data: Arc::new(AtomicBool::new(true)),
             #[cfg(feature = "flush_aggregation")]
             sync_agg_mutex: parking_lot::Mutex::new(true),
             #[cfg(feature = "flush_aggregation")]
@@ -555,7 +558,9 @@ impl Shard {
             .join(format!("merge_{:04x}-{:04x}", span.start, span.end));
         let mmap_file = MmapFile::create(&tmp_filename, &config)?;
         Self::install(&mmap_file, &tmp_filename, &span, &config)?;
-        Self::new(span, mmap_file, config, stats, threadpool)
+        let shard = Self::new(span, mmap_file, config, stats, threadpool)?;
+        shard.has_synced_data.store(false, Ordering::SeqCst);
+        Ok(shard)
     }
 
     // makes a temporary file into the shard file of the given span
@@ -600,6 +605,7 @@ impl Shard {
             threadpool,
             compaction_handle: Arc::new(Mutex::new(None)),
             compaction_failed: Arc::new(AtomicBool::new(false)),
+            has_synced_data: Arc::new(AtomicBool::new(true)),
             #[cfg(feature = "flush_aggregation")]
             sync_agg_mutex: parking_lot::Mutex::new(true),
             #[cfg(feature = "flush_aggregation")]
@@ -667,6 +673,7 @@ impl Shard {
 
     pub(crate) fn flush(&self) -> Result<()> {
         //self.mmap.flush()? -- fdatasync should take care of that as well
+        self.has_synced_data.store(true, Ordering::SeqCst);
         let files_guard = self.files.read();
         files_guard.0.file.sync_data()?;
         if let Some(ref target) = files_guard.1 {
@@ -1065,6 +1072,7 @@ impl Shard {
             row_locks: self.row_locks.clone(),
             config: self.config.clone(),
             failed: self.compaction_failed.clone(),
+            has_synced_data: self.has_synced_data.clone(),
             t0: Instant::now(),
             src_filename: self.config.dir_path.join(format!(
                 "shard_{:04x}-{:04x}",
@@ -1117,7 +1125,9 @@ impl Shard {
         Self::do_compaction(&info.row_locks, src, target, &info.stats, &info.config)?;
 
         // the rename might reach the disk before the data does
-        target.file.sync_data()?;
+        if info.has_synced_data.load(Ordering::SeqCst) {
+            target.file.sync_data()?;
+        }
         std::fs::rename(&info.target_filename, &info.src_filename)?;
 
         info.stats.report_compaction(
-- 
2.43.0


From 92dcb4ed3c0c9515ed69d4dc2bce1b723d0a86e2 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 07:43:18 +0000
Subject: [PATCH 25/25] fix: opening a store with a missing shard file
 destroyed the data in its compaction target

---
 src/router.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index a17d8bb..1072939 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -96,20 +96,6 @@ impl ShardRouter {
         if shards.is_empty() {
             shards = Self::create_initial_shards(&config, &stats, &threadpool)?;
         }
-        let mut end = 0;
-        for sh in shards.iter() {
-            ensure!(
-                sh.span.start == end,
-                "shard(s) {end:04x}-{:04x} missing",
-                sh.span.start
-            );
-            end = sh.span.end;
-        }
-        ensure!(
-            end == Self::END_OF_SHARDS,
-            "shard(s) {end:04x}-{:04x} missing",
-            Self::END_OF_SHARDS
-        );
         let root = Self::treeify(shards, &stats, &threadpool);
         Ok(Self {
             span: root.span(),
@@ -170,6 +156,25 @@ impl ShardRouter {
         }
 
         let (shards_to_keep, shards_to_remove) = consolidate_ranges(found_shards);
+
+        // before anything is removed: the compaction target of a missing shard holds part of its data
+        if !shards_to_keep.is_empty() {
+            let mut end = 0;
+            for span in shards_to_keep.iter() {
+                ensure!(
+                    span.start == end,
+                    "shard(s) {end:04x}-{:04x} missing",
+                    span.start
+                );
+                end = span.end;
+            }
+            ensure!(
+                end == Self::END_OF_SHARDS,
+                "shard(s) {end:04x}-{:04x} missing",
+                Self::END_OF_SHARDS
+            );
+        }
+
         for span in shards_to_remove {
             std::fs::remove_file(
                 config
-- 
2.43.0

