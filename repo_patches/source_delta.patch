From 9d49d0928655c04bcfc3ea0022a15864f4ed00d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:58 +0000
Subject: [PATCH 01/24] mc: scheduling-point hook and Limits export behind
 cfg(possum_mc)

---
 src/concurrency/mod.rs  | 19 +++++++++++++++++++
 src/concurrency/sync.rs |  2 ++
 src/lib.rs              |  2 ++
 3 files changed, 23 insertions(+)

diff --git a/src/concurrency/mod.rs b/src/concurrency/mod.rs
index b0471e4..1569fc8 100644
--- a/src/concurrency/mod.rs
+++ b/src/concurrency/mod.rs
@@ -1,5 +1,24 @@
 pub(crate) mod sync;
 
+/// Scheduling points for an external model checker. Only built with `--cfg possum_mc`.
+#[cfg(possum_mc)]
+pub mod mc {
+    use std::sync::OnceLock;
+
+    static HOOK: OnceLock<fn()> = OnceLock::new();
+
+    /// Sets the function called before each lock of this crate's mutex type.
+    pub fn set_hook(f: fn()) {
+        let _ = HOOK.set(f);
+    }
+
+    pub(crate) fn point() {
+        if let Some(f) = HOOK.get() {
+            f()
+        }
+    }
+}
+
 #[cfg(not(feature = "shuttle"))]
 pub use std::thread;
 
diff --git a/src/concurrency/sync.rs b/src/concurrency/sync.rs
index 9675087..c3a7880 100644
--- a/src/concurrency/sync.rs
+++ b/src/concurrency/sync.rs
@@ -36,6 +36,8 @@ unsafe impl<T> StableDeref for MutexGuard<'_, T> {}
 
 impl<T> Mutex<T> {
     pub fn lock(&self) -> LockResult<MutexGuard<T>> {
+        #[cfg(possum_mc)]
+        super::mc::point();
         // This is super dumb. There's a map_result in std::sync::poison that I can't get at that
         // does the same thing I think.
         match self.0.lock() {
diff --git a/src/lib.rs b/src/lib.rs
index 3ddcf89..bc5b2ec 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -24,6 +24,8 @@ pub use error::*;
 use exclusive_file::ExclusiveFile;
 use file_id::FileId;
 pub use handle::Handle;
+#[cfg(possum_mc)]
+pub use handle::Limits;
 use memmap2::Mmap;
 use num::Integer;
 use ownedtx::OwnedTx;
-- 
2.43.0


From 01d3f86cd9d5b83c9a9e1a5f96026b8818ea77f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:54 +0000
Subject: [PATCH 02/24] fix: end of key range for prefixes ending in 0xff

The range end for a prefix like "a\xff" was "b\0", which includes the
key "b". Listing, deleting and moving a prefix selected it.
---
 src/tx.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tx.rs b/src/tx.rs
index 7548f3e..8505b75 100644
--- a/src/tx.rs
+++ b/src/tx.rs
@@ -99,7 +99,10 @@ pub trait ReadTransaction: ReadOnlyTransactionAccessor {
     // TODO: Make this iterate.
     fn list_items(&self, prefix: &[u8]) -> PubResult<Vec<Item>> {
         let range_end = {
-            let mut prefix = prefix.to_owned();
+            // Only the bytes up to the last one that isn't the maximum can be incremented. What
+            // follows has to be cut off, since a shorter key sorts before its extensions.
+            let end = prefix.iter().rposition(|b| *b != u8::MAX);
+            let mut prefix = prefix[..end.map_or(0, |i| i + 1)].to_owned();
             if inc_big_endian_array(&mut prefix) {
                 Some(prefix)
             } else {
-- 
2.43.0


From bfa5bea34409fe20a3baa4ffa402be894e124758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:18 +0000
Subject: [PATCH 03/24] fix: rename_value loses keys

Renaming a value onto the key it already has deleted the key. Renaming a
value that is no longer current deleted the item that had the new key.
---
 src/tx.rs | 39 +++++++++++++++------------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/src/tx.rs b/src/tx.rs
index 8505b75..d8fcc80 100644
--- a/src/tx.rs
+++ b/src/tx.rs
@@ -267,33 +267,24 @@ where
 
     // TODO: Add a test for renaming onto itself.
     pub fn rename_value(&mut self, value: &Value, new_key: Vec<u8>) -> PubResult<bool> {
-        match self
+        // The key that will be replaced must not be touched unless there's something to replace it
+        // with.
+        let current_key: Vec<u8> = match self
             .tx
-            .prepare_cached(&format!(
-                "delete from keys where key=? returning {}",
-                value_columns_sql()
-            ))?
-            .query_row(params![&new_key], Value::from_row)
-        {
-            Err(QueryReturnedNoRows) => {}
+            .prepare_cached_readonly("select key from keys where file_id=? and file_offset=?")?
+            .query_row(params![value.file_id(), value.file_offset()], |row| {
+                row.get(0)
+            }) {
+            Err(QueryReturnedNoRows) => return Ok(false),
             Err(err) => return Err(err.into()),
-            Ok(existing_value) => {
-                match existing_value.location {
-                    Nonzero(a) => {
-                        let b = value;
-                        if Some(a.file_offset) == b.file_offset() && Some(&a.file_id) == b.file_id()
-                        {
-                            assert_eq!(a.length, b.length());
-                            // Renamed but the name is the same.
-                            return Ok(true);
-                        }
-                        // Schedule the value that previously had the key to be hole punched.
-                        self.deleted_values.push(a);
-                    }
-                    ZeroLength => {}
-                }
-            }
+            Ok(key) => key,
         };
+        if current_key == new_key {
+            // Renamed but the name is the same.
+            return Ok(true);
+        }
+        // Schedule the value that previously had the key to be hole punched.
+        self.delete_key(&new_key)?;
 
         let res: rusqlite::Result<ValueLength> = self
             .tx
-- 
2.43.0


From 31fb150db2533f9c19363d99c267797a78dfa949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:18 +0000
Subject: [PATCH 04/24] fix: setting a limit didn't evict anything

The limit was applied to a deferred transaction, for which it does nothing,
that was never committed.
---
 src/handle.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/handle.rs b/src/handle.rs
index 19f6fd0..8af0859 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -37,7 +37,9 @@ impl Handle {
 
     pub fn set_instance_limits(&mut self, limits: Limits) -> Result<()> {
         self.instance_limits = limits;
-        self.start_deferred_transaction()?.apply_limits()
+        // Limits are applied on commit, to transactions that are able to write.
+        self.start_immediate_transaction()?.commit()?.complete();
+        Ok(())
     }
 
     pub fn dir(&self) -> &Dir {
-- 
2.43.0


From 45110a40481db2fd058d91020bc1612fe6702511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:37 +0000
Subject: [PATCH 05/24] fix: new values file could be one that exists

If the random name of a new values file was taken by a file that isn't
locked, that file was used. When flocking this keeps values in it from being
read until the writer is done.
---
 src/exclusive_file.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exclusive_file.rs b/src/exclusive_file.rs
index c6436e8..05517ac 100644
--- a/src/exclusive_file.rs
+++ b/src/exclusive_file.rs
@@ -56,9 +56,11 @@ impl ExclusiveFile {
             let id = FileId::random();
             let path = dir.as_ref().join(id.values_file_path());
             debug!(?path, "opening new exclusive file");
-            let file = Self::new_open_options().create(true).open(path);
+            // An existing file could have values that are being read.
+            let file = Self::new_open_options().create_new(true).open(path);
             let file = match file {
                 Ok(file) => file,
+                Err(err) if err.is_file_already_exists() => continue,
                 Err(err) => return Err(err.into()),
             };
             if let Some(exclusive_file) = Self::from_file(file, id)? {
-- 
2.43.0


From 820f85b204d9a0cb9000d5ed7a0f2e6066690e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:20 +0000
Subject: [PATCH 06/24] fix: cloning a file could destroy an existing values
 file

The destination was opened with truncation, so a random name that was taken
lost the values in it. When cloning failed the empty destination was left
behind.
---
 src/sys/clonefile/sys.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/sys/clonefile/sys.rs b/src/sys/clonefile/sys.rs
index 6cb3a6a..f2c1a8e 100644
--- a/src/sys/clonefile/sys.rs
+++ b/src/sys/clonefile/sys.rs
@@ -1,7 +1,7 @@
 #![allow(unused_imports)]
 use std::ffi::CString;
 #[cfg(target_os = "linux")]
-use std::fs::File;
+use std::fs::{File, OpenOptions};
 use std::io;
 use std::io::{Error, ErrorKind};
 #[cfg(unix)]
@@ -104,8 +104,11 @@ pub fn fclonefile_noflags(src_file: &File, dst_path: &Path) -> Result<(), Native
             )}?;
             Ok(())
         } else if #[cfg(target_os = "linux")] {
-            // Should this be exclusive create?
-            let dst_file = File::create(dst_path)?;
+            // Never clone over a file that exists, it could have values in it.
+            let dst_file = OpenOptions::new()
+                .write(true)
+                .create_new(true)
+                .open(dst_path)?;
             let src_fd = src_file.as_raw_fd();
             let dst_fd = dst_file.as_raw_fd();
             // Is this because the musl bindings are wrong?
@@ -113,7 +116,10 @@ pub fn fclonefile_noflags(src_file: &File, dst_path: &Path) -> Result<(), Native
             let request = libc::FICLONE.try_into().unwrap();
             let rv = unsafe { libc::ioctl(dst_fd, request, src_fd) };
             if rv == -1 {
-                return Err(last_errno());
+                let err = last_errno();
+                // Nobody knows about the file yet.
+                let _ = std::fs::remove_file(dst_path);
+                return Err(err);
             }
             Ok(())
         } else if #[cfg(target_os = "freebsd")] {
-- 
2.43.0


From 0bd8be61083a6d484f2192c1cb007b6cc8b34d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:37 +0000
Subject: [PATCH 07/24] fix: deletes and prefix moves failed when another
 handle was writing

They read before writing in a deferred transaction, which can't be upgraded
if another connection has written since.
---
 src/handle.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/handle.rs b/src/handle.rs
index 8af0859..3e6d34d 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -295,10 +295,9 @@ impl Handle {
     }
 
     pub fn single_delete(&self, key: &[u8]) -> PubResult<Option<c_api::PossumStat>> {
-        let mut tx = self.start_deferred_transaction()?;
+        let mut tx = self.start_immediate_transaction()?;
         let deleted = tx.delete_key(key)?;
-        // Maybe it's okay just to commit anyway, since we have a deferred transaction and sqlite
-        // might know nothing has changed.
+        // Maybe it's okay just to commit anyway, since sqlite might know nothing has changed.
         if deleted.is_some() {
             tx.commit()?.complete();
         }
@@ -443,7 +442,7 @@ impl Handle {
     }
 
     pub fn move_prefix(&self, from: &[u8], to: &[u8]) -> Result<()> {
-        let mut tx = self.start_deferred_transaction()?;
+        let mut tx = self.start_immediate_transaction()?;
         let items = tx.list_items(from)?;
         let mut to_vec = to.to_vec();
         for item in items {
@@ -456,7 +455,7 @@ impl Handle {
     }
 
     pub fn delete_prefix(&self, prefix: impl AsRef<[u8]>) -> PubResult<()> {
-        let mut tx = self.start_deferred_transaction()?;
+        let mut tx = self.start_immediate_transaction()?;
         for item in tx.list_items(prefix.as_ref())? {
             tx.delete_key(&item.key)?;
         }
-- 
2.43.0


From 9ba9300f7454b0133dbaddf4cac7f37496917c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:50 +0000
Subject: [PATCH 08/24] fix: reading a value whose writer still holds its lock
 panicked

---
 src/lib.rs    | 22 +++++++++++++++-------
 src/reader.rs |  4 +++-
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bc5b2ec..0eca7b3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -387,19 +387,27 @@ where
             }
             // TODO: On error here, rewind the exclusive to undo any writes that just occurred.
             let work = transaction.commit().context("commit transaction")?;
+            // The committed values can be read from now on, and readers wait for our locks while
+            // they have things locked that completing the work needs.
+            Self::flush_exclusive_files(&mut self.exclusive_files);
             work.complete();
             anyhow::Ok(write_commit_res)
         })?;
-        self.flush_exclusive_files();
+        self.return_exclusive_files_to_handle();
         Ok(write_commit_res)
     }
 
-    /// Flush Writer's exclusive files and return them to the Handle pool.
-    fn flush_exclusive_files(&mut self) {
-        for ef in &mut self.exclusive_files {
-            ef.committed().unwrap();
-        }
-        self.return_exclusive_files_to_handle()
+    /// Flush Writer's exclusive files, so they can be returned to the Handle pool.
+    fn flush_exclusive_files(exclusive_files: &mut Vec<ExclusiveFile>) {
+        exclusive_files.retain_mut(|ef| match ef.committed() {
+            Ok(true) => true,
+            // The commit happened regardless, it's the file that isn't usable anymore. Closing it
+            // drops the lock.
+            res => {
+                error!(?res, "flushing exclusive file {}", ef.id);
+                false
+            }
+        });
     }
 
     fn return_exclusive_files_to_handle(&mut self) {
diff --git a/src/reader.rs b/src/reader.rs
index 46b60a3..9af4217 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -174,7 +174,9 @@ where
             return Ok(());
         }
         for extent in read_extents {
-            assert!(file.lock_segment(LockSharedNonblock, Some(extent.len), extent.offset)?);
+            // A writer that has committed holds its lock a little longer, and someone punching the
+            // end of the file locks all of it. Neither of them waits for us.
+            assert!(file.lock_segment(LockShared, Some(extent.len), extent.offset)?);
         }
         Ok(())
     }
-- 
2.43.0


From afa3cb33cbd9e2287a2d557a7ae2792ae0a5ea4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:50 +0000
Subject: [PATCH 09/24] fix: method left unused by making deletes and prefix
 moves immediate

---
 src/handle.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/handle.rs b/src/handle.rs
index 3e6d34d..99c3e60 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -253,14 +253,6 @@ impl Handle {
             .into())
     }
 
-    /// Starts a deferred transaction (the default). This might upgrade to a write transaction if
-    /// appropriate. I'm not sure about the semantics of doing that yet. This might be useful for
-    /// operations that become writes depending on certain conditions, but could violate some
-    /// expectations around locking. TBD.
-    pub(crate) fn start_deferred_transaction(&self) -> rusqlite::Result<OwnedTx> {
-        self.start_writable_transaction_with_behaviour(TransactionBehavior::Deferred)
-    }
-
     /// Begins a read transaction.
     pub fn read(&self) -> rusqlite::Result<Reader<OwnedTx>> {
         let reader = Reader {
-- 
2.43.0


From a74cbf7c4bcaf995c113d860f0bbf34ae73ca6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:14 +0000
Subject: [PATCH 10/24] fix: staged values lost their lock when a value begun
 after them was dropped

---
 src/lib.rs | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0eca7b3..72a5f29 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,6 +2,7 @@
 
 use std::borrow::Borrow;
 use std::cmp::min;
+use std::collections::hash_map::Entry;
 use std::collections::{BTreeSet, HashMap, HashSet};
 use std::ffi::{OsStr, OsString};
 use std::fmt::{Debug, Display, Formatter};
@@ -244,6 +245,15 @@ struct ValueRename {
     new_key: Vec<u8>,
 }
 
+/// Part of a file with values that are staged. This keeps the file locked until those values are
+/// committed, even if the ExclusiveFile was assigned to another value that isn't staged.
+#[derive(Debug)]
+struct StagedFile {
+    file: File,
+    start: u64,
+    end: u64,
+}
+
 /// Manages uncommitted writes
 #[derive(Debug)]
 pub struct BatchWriter<H>
@@ -252,6 +262,7 @@ where
 {
     handle: H,
     exclusive_files: Vec<ExclusiveFile>,
+    staged_files: HashMap<FileId, StagedFile>,
     pending_writes: Vec<PendingWrite>,
     value_renames: Vec<ValueRename>,
 }
@@ -264,6 +275,7 @@ where
         Self {
             handle,
             exclusive_files: Default::default(),
+            staged_files: Default::default(),
             pending_writes: Default::default(),
             value_renames: Default::default(),
         }
@@ -342,6 +354,17 @@ where
         };
         let exclusive_file = value.exclusive_file;
         let value_file_id = exclusive_file.id;
+        let end = value.value_file_offset + value_length;
+        match self.staged_files.entry(value_file_id) {
+            Entry::Occupied(mut entry) => entry.get_mut().end = end,
+            Entry::Vacant(entry) => {
+                entry.insert(StagedFile {
+                    file: exclusive_file.inner.try_clone()?,
+                    start: value.value_file_offset,
+                    end,
+                });
+            }
+        }
         self.exclusive_files.push(exclusive_file);
         self.pending_writes.push(PendingWrite {
             key,
@@ -372,6 +395,11 @@ where
             for ef in &mut self.exclusive_files {
                 assert!(ef.downgrade_lock()?);
             }
+            // These could be assigned to other values at the moment.
+            #[cfg(unix)]
+            for sf in self.staged_files.values() {
+                assert!(sf.file.flock(LockSharedNonblock)?);
+            }
         }
         let write_commit_res = self.handle.with_handle(|handle| {
             let mut transaction: OwnedTx = handle.start_immediate_transaction()?;
@@ -390,6 +418,7 @@ where
             // The committed values can be read from now on, and readers wait for our locks while
             // they have things locked that completing the work needs.
             Self::flush_exclusive_files(&mut self.exclusive_files);
+            Self::flush_staged_files(&mut self.staged_files);
             work.complete();
             anyhow::Ok(write_commit_res)
         })?;
@@ -410,6 +439,16 @@ where
         });
     }
 
+    /// Unlock the values in files that have been assigned to other values since.
+    fn flush_staged_files(staged_files: &mut HashMap<FileId, StagedFile>) {
+        for (file_id, sf) in staged_files.drain() {
+            match sf.file.trim_exclusive_lock_left(sf.start, sf.end) {
+                Ok(true) => (),
+                res => error!(?res, "flushing staged file {}", file_id),
+            }
+        }
+    }
+
     fn return_exclusive_files_to_handle(&mut self) {
         // When we're flocking, we can't have writers and readers at the same time and still be
         // able to punch values asynchronously.
-- 
2.43.0


From 6d5c5a1ff301590b8733d189ff332c6dcf844e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:34 +0000
Subject: [PATCH 11/24] fix: reclaiming the end of a file could destroy values
 committed meanwhile

---
 src/handle.rs | 13 +++++--------
 src/lib.rs    | 31 ++++++++++++++++++++++++-------
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/handle.rs b/src/handle.rs
index 99c3e60..5247429 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -1,4 +1,4 @@
-use rusqlite::{TransactionBehavior, TransactionState};
+use rusqlite::TransactionBehavior;
 
 use super::*;
 
@@ -367,20 +367,17 @@ impl Handle {
                     std::thread::sleep(RETRY_DURATION);
                 }
             }
-            let tx = conn.transaction_with_behavior(TransactionBehavior::Deferred)?;
-            let tx = ReadTransactionOwned(tx);
-            pending_values = Self::punch_values(&dir, pending_values, &tx)?;
-            debug_assert_ne!(tx.0.transaction_state(None)?, TransactionState::Write);
+            pending_values = Self::punch_values(&dir, pending_values, &mut conn)?;
         }
         Ok(())
     }
 
-    /// Starts a read transaction to determine punch boundaries. Since punching is never expanded to
+    /// Starts read transactions to determine punch boundaries. Since punching is never expanded to
     /// offsets above the targeted values, ongoing writes should not be affected.
     pub(crate) fn punch_values(
         dir: &Dir,
         values: Vec<NonzeroValueLocation>,
-        transaction: &ReadTransactionOwned,
+        conn: &mut Connection,
     ) -> PubResult<Vec<NonzeroValueLocation>> {
         let mut failed = Vec::with_capacity(values.len());
         for v in values {
@@ -401,7 +398,7 @@ impl Handle {
                 file_id,
                 offset: *file_offset,
                 length: *value_length,
-                tx: transaction,
+                conn,
                 block_size: dir.block_size(),
                 constraints: Default::default(),
             })
diff --git a/src/lib.rs b/src/lib.rs
index 72a5f29..4e3cfc8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -837,11 +837,16 @@ struct PunchValueOptions<'a> {
     file_id: &'a FileId,
     offset: u64,
     length: u64,
-    tx: &'a ReadTransactionOwned<'a>,
+    conn: &'a mut Connection,
     block_size: u64,
     constraints: PunchValueConstraints,
 }
 
+fn start_read_transaction(conn: &mut Connection) -> rusqlite::Result<ReadTransactionOwned> {
+    let tx = conn.transaction_with_behavior(TransactionBehavior::Deferred)?;
+    Ok(ReadTransactionOwned(tx))
+}
+
 // Can't do this as &mut self for dumb Rust reasons.
 fn punch_value(opts: PunchValueOptions) -> Result<bool> {
     let PunchValueOptions {
@@ -849,7 +854,7 @@ fn punch_value(opts: PunchValueOptions) -> Result<bool> {
         file_id,
         offset,
         length,
-        tx,
+        conn,
         block_size,
         constraints:
             PunchValueConstraints {
@@ -873,6 +878,7 @@ fn punch_value(opts: PunchValueOptions) -> Result<bool> {
         Err(err) => return Err(err).context("opening value file"),
         Ok(ok) => ok,
     };
+    let mut tx = start_read_transaction(conn)?;
     // Find out how far back we can punch and start there, correcting for block boundaries as we go.
     if offset % block_size != 0 || greedy_start {
         let last_end_offset = tx.query_last_end_offset(file_id, offset as u64)?;
@@ -884,13 +890,24 @@ fn punch_value(opts: PunchValueOptions) -> Result<bool> {
     }
     assert_eq!(offset % block_size, 0);
     if greedy_end {
-        let next_offset = tx.next_value_offset(file_id, (offset + length).try_into().unwrap())?;
+        let min_offset = (offset + length).try_into().unwrap();
+        let mut next_offset = tx.next_value_offset(file_id, min_offset)?;
+        let mut locked_file = false;
+        if next_offset.is_none() {
+            // Lock the file to see if we can expand to the end of the file.
+            locked_file = file
+                .lock_max_segment(LockExclusiveNonblock)
+                .context("locking value file")?;
+            if locked_file {
+                // There could have been more values committed before we got the lock. There won't
+                // be any from here.
+                drop(tx);
+                tx = start_read_transaction(conn)?;
+                next_offset = tx.next_value_offset(file_id, min_offset)?;
+            }
+        }
         let end_offset = match next_offset {
             None => {
-                // Lock the file to see if we can expand to the end of the file.
-                let locked_file = file
-                    .lock_max_segment(LockExclusiveNonblock)
-                    .context("locking value file")?;
                 // Get the file length after we have tried locking the file.
                 let file_end = file.seek(End(0))? as i64;
                 if locked_file {
-- 
2.43.0


From b403389535563dd099e3cb1b06abeaf3c61c782f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:10 +0000
Subject: [PATCH 12/24] fix: reclaiming stopped if a values file was removed by
 another handle

---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4e3cfc8..081ed55 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -914,8 +914,11 @@ fn punch_value(opts: PunchValueOptions) -> Result<bool> {
                     // I think it's okay to remove and truncate files if cloning doesn't use locks,
                     // because there are no values in this file to clone.
                     if offset == 0 && allow_remove {
-                        remove_file(file_path).context("removing value file")?;
-                        return Ok(true);
+                        return match remove_file(file_path) {
+                            // Someone else could have removed it after we opened it.
+                            Err(err) if err.kind() == ErrorKind::NotFound => Ok(true),
+                            res => res.map(|()| true).context("removing value file"),
+                        };
                     } else if allow_truncate {
                         file.set_len(offset as u64)?;
                         return Ok(true);
-- 
2.43.0


From 3e0280e25cb8a304dd7690f96c80f706b3baa05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:10 +0000
Subject: [PATCH 13/24] fix: root cause of I/O errors panicked, and unsupported
 cloning wasn't recognized by readers

---
 src/error.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 7fa376d..f2f132d 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -47,16 +47,19 @@ impl Error {
         match self {
             NoSuchKey | UnsupportedFilesystem => self,
             Sqlite(inner) => inner,
+            Io(inner) => inner,
             Anyhow(inner) => inner.root_cause(),
-            _ => unimplemented!(),
         }
     }
 
     pub fn root_cause_is_unsupported_filesystem(&self) -> bool {
+        let root_cause = self.root_cause();
         matches!(
-            self.root_cause().downcast_ref(),
+            root_cause.downcast_ref(),
             Some(Self::UnsupportedFilesystem)
-        )
+        ) || root_cause
+            .downcast_ref::<std::io::Error>()
+            .is_some_and(CloneFileError::is_unsupported)
     }
 }
 
-- 
2.43.0


From 2d9e485efc349172694d6fa6615d961b7c2d5197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:10 +0000
Subject: [PATCH 14/24] fix: readers from the C API failed or read deleted
 values when others write

---
 src/c_api/ext_fns/handle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c_api/ext_fns/handle.rs b/src/c_api/ext_fns/handle.rs
index c3b7387..ec5f22f 100644
--- a/src/c_api/ext_fns/handle.rs
+++ b/src/c_api/ext_fns/handle.rs
@@ -179,7 +179,7 @@ pub extern "C" fn possum_reader_new(
         // This is copied from Handle::start_writable_transaction_with_behaviour and Handle::read
         // until I make proper abstractions.
         |conn, handle| {
-            let rtx = conn.transaction_with_behavior(TransactionBehavior::Deferred)?;
+            let rtx = conn.transaction_with_behavior(TransactionBehavior::Immediate)?;
             Ok(Transaction::new(rtx, handle))
         },
     );
-- 
2.43.0


From da4131be97195d0c5cb0225a0dd18f24f1acb0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:10 +0000
Subject: [PATCH 15/24] fix: viewing a value inside the view of another
 deadlocked

---
 src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 081ed55..ef06107 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -88,17 +88,17 @@ struct FileClone {
     /// This exists to destroy clone tempdirs after they become empty.
     #[allow(unused)]
     tempdir: Option<Arc<TempDir>>,
-    mmap: Option<Mmap>,
+    mmap: Option<Arc<Mmap>>,
     len: u64,
 }
 
 type FileCloneCache = HashMap<FileId, Arc<Mutex<FileClone>>>;
 
 impl FileClone {
-    fn get_mmap(&mut self) -> io::Result<&Mmap> {
+    fn get_mmap(&mut self) -> io::Result<Arc<Mmap>> {
         let mmap_opt = &mut self.mmap;
         if let Some(mmap) = mmap_opt {
-            return Ok(mmap);
+            return Ok(Arc::clone(mmap));
         }
         let mmap = unsafe {
             memmap2::MmapOptions::new()
@@ -106,7 +106,7 @@ impl FileClone {
                 .map_copy_read_only(&self.file)
         }?;
         assert_eq!(mmap.len() as u64, self.len);
-        Ok(mmap_opt.insert(mmap))
+        Ok(Arc::clone(mmap_opt.insert(Arc::new(mmap))))
     }
 }
 
@@ -691,8 +691,8 @@ where
                 let usize_length = to_usize_io(length)?;
                 let end =
                     usize::checked_add(start, usize_length).ok_or_else(make_to_usize_io_error)?;
-                let mut mutex_guard = file_clone.lock().unwrap();
-                let mmap = mutex_guard.get_mmap()?;
+                // Don't hold the lock for f, it could use other values from the same file.
+                let mmap = file_clone.lock().unwrap().get_mmap()?;
                 Ok(f(&mmap[start..end]))
             }
             ZeroLength => Ok(f(&[])),
-- 
2.43.0


From a7c78966a1aa5831756346a1dd3096be121bf395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:10 +0000
Subject: [PATCH 16/24] fix: punching missing holes ignored that the file is in
 use

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 14a52fd..a90624f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -160,7 +160,10 @@ fn main() -> anyhow::Result<()> {
                             // Make sure nobody could be writing to the file. It should be possible
                             // to punch holes before the last value despite this (just as greedy
                             // start hole punching occurs during regular key deletes).
-                            file.lock_max_segment(possum::sys::LockExclusiveNonblock)?;
+                            if !file.lock_max_segment(possum::sys::LockExclusiveNonblock)? {
+                                eprintln!("{}: in use", values_file_entry.path.display());
+                                continue;
+                            }
                             for FileRegion {
                                 mut start,
                                 mut length,
-- 
2.43.0


From ed037154c0c316ecf7fcb1392a46c99ff2731e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:10 +0000
Subject: [PATCH 17/24] fix: empty buffers with null pointers were undefined
 behaviour in the C API

---
 src/c_api/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/c_api/mod.rs b/src/c_api/mod.rs
index 8c9a250..e2f2a24 100644
--- a/src/c_api/mod.rs
+++ b/src/c_api/mod.rs
@@ -17,6 +17,10 @@ use super::*;
 
 impl AsRef<[u8]> for PossumBuf {
     fn as_ref(&self) -> &[u8] {
+        // Pointers to nothing are commonly null in C.
+        if self.size == 0 {
+            return &[];
+        }
         let ptr = self.ptr as _;
         unsafe { slice::from_raw_parts(ptr, self.size) }
     }
@@ -24,6 +28,9 @@ impl AsRef<[u8]> for PossumBuf {
 
 impl PossumBuf {
     fn as_mut_slice(&mut self) -> &mut [u8] {
+        if self.size == 0 {
+            return &mut [];
+        }
         let ptr = self.ptr as *mut u8;
         unsafe { slice::from_raw_parts_mut(ptr, self.size) }
     }
-- 
2.43.0


From 70ad6de14b7104662bf54df629cdb44df21aab12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:10 +0000
Subject: [PATCH 18/24] fix: failed copies ended up in the value

---
 src/lib.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ef06107..00f212d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -173,6 +173,7 @@ where
         Ok(ValueWriter {
             exclusive_file,
             value_file_offset: 0,
+            broken: false,
         })
     }
 
@@ -191,6 +192,7 @@ where
         Ok(ValueWriter {
             value_file_offset: exclusive_file.next_write_offset()?,
             exclusive_file,
+            broken: false,
         })
     }
 }
@@ -200,6 +202,8 @@ where
 pub struct ValueWriter {
     exclusive_file: ExclusiveFile,
     value_file_offset: u64,
+    // Set if the file has something in it that doesn't belong to the value.
+    broken: bool,
 }
 
 impl ValueWriter {
@@ -212,10 +216,18 @@ impl ValueWriter {
         let value_length = match std::io::copy(&mut value, &mut self.exclusive_file.inner) {
             Ok(ok) => ok,
             Err(err) => {
-                self.exclusive_file
-                    .inner
-                    .seek(Start(value_file_offset))
-                    .expect("should rewind failed copy");
+                // The file is append only, so rewinding doesn't undo a failed copy. Truncating it
+                // isn't an option either, there could be clones of the file that include the copy.
+                // If the value has nothing else in it, it can start after the failed copy instead.
+                if self.value_file_offset == value_file_offset {
+                    self.value_file_offset = self
+                        .exclusive_file
+                        .inner
+                        .seek(End(0))
+                        .expect("should skip failed copy");
+                } else {
+                    self.broken = true;
+                }
                 return Err(err.into());
             }
         };
@@ -338,6 +350,9 @@ where
     }
 
     pub fn stage_write(&mut self, key: Vec<u8>, mut value: ValueWriter) -> anyhow::Result<()> {
+        if value.broken {
+            bail!("value is incomplete due to an earlier error");
+        }
         let value_length = match value.value_length() {
             Ok(ok) => ok,
             Err(err) => {
-- 
2.43.0


From dfc1f4adc2a78e0bf92ecf2925fb4751d4937951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:27 +0000
Subject: [PATCH 19/24] fix: snapshot cleanup removed snapshots that were just
 being created

---
 src/handle.rs | 3 +++
 src/walk.rs   | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/handle.rs b/src/handle.rs
index 5247429..b2f48c1 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -207,6 +207,9 @@ impl Handle {
     }
 
     pub fn cleanup_snapshots(&self) -> PubResult<()> {
+        // Readers create their snapshots inside of write transactions. This prevents any from being
+        // cleaned up before they can be locked.
+        let _tx = self.start_immediate_transaction()?;
         delete_unused_snapshots(self.dir.path()).map_err(Into::into)
     }
 
diff --git a/src/walk.rs b/src/walk.rs
index 2808e21..383439a 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -86,7 +86,12 @@ where
     P: AsRef<Path>,
 {
     let mut ok = vec![];
-    for std_entry in read_dir(path)? {
+    let entries = match read_dir(path) {
+        // Snapshots go away whenever their owners are done with them.
+        Err(err) if err.kind() == ErrorKind::NotFound => return Ok(ok),
+        res => res?,
+    };
+    for std_entry in entries {
         let std_entry = std_entry?;
         let entry = DirEntry::try_from(&std_entry)?;
         let file_name = entry.file_name;
-- 
2.43.0


From 836dd776d8134a718dfc9b8e5d95723c1ccfaf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:45 +0000
Subject: [PATCH 20/24] fix: an I/O error in the value puncher stopped it for
 good

---
 src/handle.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/handle.rs b/src/handle.rs
index b2f48c1..2a1f1bd 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -108,6 +108,7 @@ impl Handle {
         let dir = Dir::new(dir).context("new Dir")?;
         let mut conn = Connection::open(dir.path().join(MANIFEST_DB_FILE_NAME))?;
         Self::init_sqlite_conn(&mut conn, &dir)?;
+        let value_puncher_conn = Self::open_value_puncher_conn(&dir)?;
         let (deleted_values, receiver) = sync::mpsc::sync_channel(10);
         let (value_puncher_done_sender, value_puncher_done) = sync::mpsc::sync_channel(0);
         let value_puncher_done = ValuePuncherDone(Arc::new(Mutex::new(value_puncher_done)));
@@ -122,7 +123,7 @@ impl Handle {
             // succeeds in punching everything.
             _value_puncher: Some(thread::spawn(move || -> () {
                 let _value_puncher_done_sender = value_puncher_done_sender;
-                if let Err(err) = Self::value_puncher(dir, receiver) {
+                if let Err(err) = Self::value_puncher(dir, value_puncher_conn, receiver) {
                     error!("value puncher thread failed with {err:?}");
                 }
             })),
@@ -325,19 +326,22 @@ impl Handle {
             .list_items(prefix)
     }
 
+    fn open_value_puncher_conn(dir: &Dir) -> rusqlite::Result<Connection> {
+        use rusqlite::OpenFlags;
+        Connection::open_with_flags(
+            dir.path().join(MANIFEST_DB_FILE_NAME),
+            OpenFlags::SQLITE_OPEN_READ_ONLY
+                | OpenFlags::SQLITE_OPEN_NO_MUTEX
+                | OpenFlags::SQLITE_OPEN_URI,
+        )
+    }
+
     /// Punches values in batches with its own dedicated connection and read-only transactions.
     fn value_puncher(
         dir: Dir,
+        mut conn: Connection,
         values_receiver: sync::mpsc::Receiver<Vec<NonzeroValueLocation>>,
     ) -> Result<()> {
-        let manifest_path = dir.path().join(MANIFEST_DB_FILE_NAME);
-        use rusqlite::OpenFlags;
-        let mut conn = Connection::open_with_flags(
-            manifest_path,
-            OpenFlags::SQLITE_OPEN_READ_ONLY
-                | OpenFlags::SQLITE_OPEN_NO_MUTEX
-                | OpenFlags::SQLITE_OPEN_URI,
-        )?;
         const RETRY_DURATION: Duration = Duration::from_secs(1);
         let mut pending_values: Vec<_> = Default::default();
         let mut values_receiver_opt = Some(values_receiver);
@@ -396,7 +400,7 @@ impl Handle {
             );
             debug!("{}", msg);
             // self.handle.clones.lock().unwrap().remove(&file_id);
-            if !punch_value(PunchValueOptions {
+            match punch_value(PunchValueOptions {
                 dir: dir.path(),
                 file_id,
                 offset: *file_offset,
@@ -405,9 +409,12 @@ impl Handle {
                 block_size: dir.block_size(),
                 constraints: Default::default(),
             })
-            .context(msg)?
+            .context(msg)
             {
-                failed.push(v);
+                Ok(true) => (),
+                Ok(false) => failed.push(v),
+                // Don't retry, it might never succeed. Other values can still be punched.
+                Err(err) => error!(?err, "punching value"),
             }
         }
         Ok(failed)
-- 
2.43.0


From 201218ebcc712d25298ccf974e21f14acef0b88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:45 +0000
Subject: [PATCH 21/24] fix: listing items panicked when its query failed to
 prepare

---
 src/tx.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tx.rs b/src/tx.rs
index d8fcc80..64aace6 100644
--- a/src/tx.rs
+++ b/src/tx.rs
@@ -135,8 +135,7 @@ fn list_items_inner(
     sql: &str,
     params: impl rusqlite::Params,
 ) -> PubResult<Vec<Item>> {
-    tx.prepare_cached_readonly(sql)
-        .unwrap()
+    tx.prepare_cached_readonly(sql)?
         .query_map(params, |row| {
             Ok(Item {
                 value: Value::from_row(row)?,
-- 
2.43.0


From 27ffd99ea745cf4023d49947fb3baf4f1e4f99b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:38 +0000
Subject: [PATCH 22/24] fix: go: report no bytes for reads that failed

The library only updates the size of the buffer when it has read. Otherwise the whole
length of the buffer was returned as having been read.
---
 go/cpossum/c-possum.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/go/cpossum/c-possum.go b/go/cpossum/c-possum.go
index f86c142..f31dde1 100644
--- a/go/cpossum/c-possum.go
+++ b/go/cpossum/c-possum.go
@@ -154,7 +154,10 @@ func SingleReadAt(handle *Handle, key string, buf []byte, offset uint64) (n int,
 		&pBuf,
 		C.uint64_t(offset),
 	))
-	n = int(pBuf.size)
+	// The size is only updated on success.
+	if err == nil {
+		n = int(pBuf.size)
+	}
 	return
 }
 
@@ -211,7 +214,10 @@ func ValueReadAt(v Value, buf []byte, offset int64) (n int, err error) {
 	defer pin.Unpin()
 	pin.Pin(pBuf.ptr)
 	err = mapError(C.possum_value_read_at(v, &pBuf, C.uint64_t(offset)))
-	n = int(pBuf.size)
+	// The size is only updated on success.
+	if err == nil {
+		n = int(pBuf.size)
+	}
 	return
 }
 
-- 
2.43.0


From 51fc541deaa8bd52fff9b910c1026573033169d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:03 +0000
Subject: [PATCH 23/24] fix: go: keep the key of values added to a reader

Value.Stat().Name() was always empty.
---
 go/go-possum.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/go/go-possum.go b/go/go-possum.go
index 05ea557..74dd107 100644
--- a/go/go-possum.go
+++ b/go/go-possum.go
@@ -13,6 +13,7 @@ type Reader struct {
 
 func (r Reader) Add(key string) (v Value, err error) {
 	v.c, err = possumC.ReaderAdd(r.pc, key)
+	v.key = key
 	return
 }
 
-- 
2.43.0


From 434c1e49a942981fa652b58300841e9f93506fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:05 +0000
Subject: [PATCH 24/24] fix: go: do not panic about a dropped Rc when it is
 collected

The finalizer did not look whether the Rc had been dropped.
---
 go/rc.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/go/rc.go b/go/rc.go
index c57a4d6..dca925e 100644
--- a/go/rc.go
+++ b/go/rc.go
@@ -42,8 +42,10 @@ func NewRc[T any](t T, dropValue func(T)) (rc *Rc[T]) {
 	runtime.SetFinalizer(
 		rc,
 		// This should be abstracted as an "is dropped", or "Drop" helper.
-		func(*Rc[T]) {
-			panic("rc not dropped")
+		func(rc *Rc[T]) {
+			if rc.inited {
+				panic("rc not dropped")
+			}
 		})
 	return
 }
-- 
2.43.0

