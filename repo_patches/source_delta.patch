From 94c5c50c8f969d6a234c8be8ab8ffe44843acf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 01/48] fix: pad fixed-length composite key fields so None can
 be decoded

---
 crates/bonsaidb-core/src/key.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/key.rs b/crates/bonsaidb-core/src/key.rs
index e16d0c1..0145079 100644
--- a/crates/bonsaidb-core/src/key.rs
+++ b/crates/bonsaidb-core/src/key.rs
@@ -1366,7 +1366,12 @@ where
             self.encoded_lengths.push(encoded_length);
         }
         self.bytes.extend_from_slice(&encoded);
-        if T::LENGTH.is_none() {
+        if let Some(length) = T::LENGTH {
+            // `Option::None` encodes as a single byte. To be decodable, a
+            // fixed-length field must occupy its full length.
+            self.bytes
+                .resize(self.bytes.len() + length.saturating_sub(encoded.len()), 0);
+        } else {
             // With variable length data, we need the key to have a delimiter to
             // ensure that "a" sorts before "aa".
             self.bytes.push(0);
-- 
2.43.0


From 0a6ede5f9e8bdd54bd12a07be92a33be14104aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 02/48] fix: return an error for unescaped null bytes in
 composite keys

---
 crates/bonsaidb-core/src/key.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-core/src/key.rs b/crates/bonsaidb-core/src/key.rs
index 0145079..a3e8647 100644
--- a/crates/bonsaidb-core/src/key.rs
+++ b/crates/bonsaidb-core/src/key.rs
@@ -1568,8 +1568,10 @@ impl CompositeKeyNullHandler for EscapeNullBytes {
                     bytes.remove(index);
                     index = next_index;
                 } else {
-                    todo!("error: unescaped null byte")
-                    // return Err(CompositeKeyError::new("unescaped null byte encountered"));
+                    return Err(CompositeKeyError::new(io::Error::new(
+                        ErrorKind::InvalidData,
+                        CompositeKeyFieldContainsNullByte,
+                    )));
                 }
 
                 // Find the next null byte, if one exists.
-- 
2.43.0


From 8c208da27825ae6ccb94c5ad5a05857fff442f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 03/48] fix: return an error when encoding a SystemTime before
 the unix epoch

---
 crates/bonsaidb-core/src/key/time.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/key/time.rs b/crates/bonsaidb-core/src/key/time.rs
index c3f78ea..18237a6 100644
--- a/crates/bonsaidb-core/src/key/time.rs
+++ b/crates/bonsaidb-core/src/key/time.rs
@@ -88,7 +88,9 @@ impl KeyEncoding<Self> for SystemTime {
     }
 
     fn as_ord_bytes(&self) -> Result<Cow<'_, [u8]>, Self::Error> {
-        let since_epoch = self.duration_since(UNIX_EPOCH).unwrap();
+        let since_epoch = self
+            .duration_since(UNIX_EPOCH)
+            .map_err(|_| TimeError::DeltaNotRepresentable)?;
         match since_epoch.as_ord_bytes()? {
             Cow::Owned(bytes) => Ok(Cow::Owned(bytes)),
             Cow::Borrowed(_) => unreachable!(),
-- 
2.43.0


From a20e72378c6f8c4399b5d48d55339f4103e46495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 04/48] fix: convert i64::MIN limited resolution durations
 without changing their value

---
 crates/bonsaidb-core/src/key/time.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/bonsaidb-core/src/key/time.rs b/crates/bonsaidb-core/src/key/time.rs
index 18237a6..a5a01d0 100644
--- a/crates/bonsaidb-core/src/key/time.rs
+++ b/crates/bonsaidb-core/src/key/time.rs
@@ -587,7 +587,7 @@ pub mod limited {
                 let positive = value
                     .checked_abs()
                     .and_then(|value| u64::try_from(value).ok())
-                    .unwrap_or(u64::MAX);
+                    .unwrap_or(I64_MIN_ABS_AS_U64);
                 Ok(SignedDuration::Negative(Duration::from_micros(positive)))
             }
         }
@@ -626,7 +626,7 @@ pub mod limited {
                 let positive = value
                     .checked_abs()
                     .and_then(|value| u64::try_from(value).ok())
-                    .unwrap_or(u64::MAX);
+                    .unwrap_or(I64_MIN_ABS_AS_U64);
                 Ok(SignedDuration::Negative(Duration::from_millis(positive)))
             }
         }
@@ -665,7 +665,7 @@ pub mod limited {
                 let positive = value
                     .checked_abs()
                     .and_then(|value| u64::try_from(value).ok())
-                    .unwrap_or(u64::MAX);
+                    .unwrap_or(I64_MIN_ABS_AS_U64);
                 Ok(SignedDuration::Negative(Duration::from_secs(positive)))
             }
         }
-- 
2.43.0


From 0629fd2c038c31a9c05185873ab3b46564f0cbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 05/48] fix: print document ids containing '$' so that they
 parse back

---
 crates/bonsaidb-core/src/document/id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/document/id.rs b/crates/bonsaidb-core/src/document/id.rs
index 1b1a8c5..337e465 100644
--- a/crates/bonsaidb-core/src/document/id.rs
+++ b/crates/bonsaidb-core/src/document/id.rs
@@ -35,7 +35,7 @@ impl std::fmt::Debug for DocumentId {
 impl Display for DocumentId {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         if let Ok(string) = std::str::from_utf8(self.as_ref()) {
-            if string.bytes().all(|b| (32..=127).contains(&b)) {
+            if string.bytes().all(|b| (32..=127).contains(&b) && b != b'$') {
                 return f.write_str(string);
             }
         }
-- 
2.43.0


From fc0cfbc03a3d0e095537cbae5542b8f754affedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 06/48] fix: return an error for malformed composite key
 lengths

---
 crates/bonsaidb-core/src/key.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/key.rs b/crates/bonsaidb-core/src/key.rs
index a3e8647..f987edb 100644
--- a/crates/bonsaidb-core/src/key.rs
+++ b/crates/bonsaidb-core/src/key.rs
@@ -1702,10 +1702,15 @@ where
 
             let bytes = self.bytes.as_ref();
 
-            let iterator = bytes[self.offset..self.end]
+            // The encoder never writes more than three bytes for a length, and
+            // malformed data may leave no bytes for this field.
+            let iterator = bytes
+                .get(self.offset..self.end)
+                .unwrap_or_default()
                 .iter()
                 .copied()
                 .rev()
+                .take(3)
                 .enumerate();
 
             for (index, byte) in iterator {
-- 
2.43.0


From 1dd0d81379a56d8fad3131e56df2bb6606dd21b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:24 +0000
Subject: [PATCH 07/48] fix: honor sort order and ignore repeated keys when
 querying views by multiple keys

---
 crates/bonsaidb-local/src/database.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 0456cc2..69b65d1 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -795,13 +795,15 @@ impl Database {
                 }
                 SerializedQueryKey::Multiple(mut list) => {
                     list.sort();
-
-                    values.extend(
-                        view_entries
-                            .get_multiple(list.iter().map(|bytes| bytes.as_slice()))?
-                            .into_iter()
-                            .map(|(_, value)| value),
-                    );
+                    list.dedup();
+
+                    let mut entries =
+                        view_entries.get_multiple(list.iter().map(|bytes| bytes.as_slice()))?;
+                    entries.sort_by(|a, b| a.0.cmp(&b.0));
+                    values.extend(entries.into_iter().map(|(_, value)| value));
+                    if !forwards {
+                        values.reverse();
+                    }
                 }
             }
         } else {
-- 
2.43.0


From 18d548f8f83c5e1c71d07c5eac20f6d67be0a8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:24 +0000
Subject: [PATCH 08/48] fix: return at most limit mappings from view queries

---
 crates/bonsaidb-local/src/database.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 69b65d1..91d7297 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1481,6 +1481,11 @@ impl LowLevelConnection for Database {
             }
             Ok(())
         })?;
+        // The limit was applied to the keys visited, but each key can have
+        // multiple mappings.
+        if let Some(limit) = limit {
+            results.truncate(usize::try_from(limit).unwrap_or(usize::MAX));
+        }
 
         Ok(results)
     }
-- 
2.43.0


From 5a58d1fd0309bdb5252b7f51afac0eee67f3327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:24 +0000
Subject: [PATCH 09/48] fix: delete each document once when a view query lists
 it under several keys

---
 crates/bonsaidb-local/src/database.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 91d7297..cd7f8e0 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1618,9 +1618,13 @@ impl LowLevelConnection for Database {
         let view = self.data.schema.view_by_name(view)?;
         let collection = view.collection();
         let mut transaction = Transaction::default();
+        // A document can be mapped to more than one key.
+        let mut deleted = HashSet::new();
         self.for_each_in_view(view, key, Sort::Ascending, None, access_policy, |entry| {
             for mapping in entry.mappings {
-                transaction.push(Operation::delete(collection.clone(), mapping.source));
+                if deleted.insert(mapping.source.id.clone()) {
+                    transaction.push(Operation::delete(collection.clone(), mapping.source));
+                }
             }
 
             Ok(())
-- 
2.43.0


From 58d01d7660481f67c17fe958537b247c1d27f22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:04 +0000
Subject: [PATCH 10/48] fix: do not wait for other jobs inside compaction jobs

---
 crates/bonsaidb-local/src/tasks.rs           | 12 ++---
 crates/bonsaidb-local/src/tasks/compactor.rs | 46 ++++++++++----------
 2 files changed, 27 insertions(+), 31 deletions(-)

diff --git a/crates/bonsaidb-local/src/tasks.rs b/crates/bonsaidb-local/src/tasks.rs
index daa6cdc..40e2c8c 100644
--- a/crates/bonsaidb-local/src/tasks.rs
+++ b/crates/bonsaidb-local/src/tasks.rs
@@ -204,15 +204,13 @@ impl TaskManager {
             .lookup_or_enqueue(Compactor::target(database, target))
     }
 
+    #[allow(clippy::unused_self, clippy::needless_pass_by_value)]
     pub fn compact_collection(
         &self,
         database: Database,
         collection_name: CollectionName,
     ) -> Result<(), Error> {
-        Ok(self
-            .jobs
-            .lookup_or_enqueue(Compactor::collection(database, collection_name))
-            .receive()??)
+        compactor::compact_collection(&database, &collection_name)
     }
 
     pub fn compact_key_value_store(&self, database: Database) -> Result<(), Error> {
@@ -222,10 +220,8 @@ impl TaskManager {
             .receive()??)
     }
 
+    #[allow(clippy::unused_self, clippy::needless_pass_by_value)]
     pub fn compact_database(&self, database: Database) -> Result<(), Error> {
-        Ok(self
-            .jobs
-            .lookup_or_enqueue(Compactor::database(database))
-            .receive()??)
+        compactor::compact_database(&database)
     }
 }
diff --git a/crates/bonsaidb-local/src/tasks/compactor.rs b/crates/bonsaidb-local/src/tasks/compactor.rs
index 8afeeb0..da31db5 100644
--- a/crates/bonsaidb-local/src/tasks/compactor.rs
+++ b/crates/bonsaidb-local/src/tasks/compactor.rs
@@ -30,14 +30,6 @@ impl Compactor {
         }
     }
 
-    pub fn collection(database: Database, collection: CollectionName) -> Self {
-        Self::target(database, Target::Collection(collection))
-    }
-
-    pub fn database(database: Database) -> Self {
-        Self::target(database, Target::Database)
-    }
-
     pub fn keyvalue(database: Database) -> Self {
         Self::target(database, Target::KeyValue)
     }
@@ -53,9 +45,7 @@ pub struct Compaction {
 pub enum Target {
     VersionedTree(String),
     UnversionedTree(String),
-    Collection(CollectionName),
     KeyValue,
-    Database,
 }
 
 impl Target {
@@ -63,20 +53,7 @@ impl Target {
         match self {
             Target::UnversionedTree(name) => compact_tree::<Unversioned, _>(database, name),
             Target::VersionedTree(name) => compact_tree::<Versioned, _>(database, name),
-            Target::Collection(collection) => {
-                let mut trees = Vec::new();
-                gather_collection_trees(database, &collection, &mut trees);
-                compact_trees(database, trees)
-            }
             Target::KeyValue => compact_tree::<Unversioned, _>(database, KEY_TREE),
-            Target::Database => {
-                let mut trees = Vec::new();
-                for collection in database.schematic().collections() {
-                    gather_collection_trees(database, collection, &mut trees);
-                }
-                trees.push(Target::KeyValue);
-                compact_trees(database, trees)
-            }
         }
     }
 }
@@ -115,6 +92,29 @@ fn gather_collection_trees(
     }
 }
 
+/// Compacts all trees of `collection`.
+///
+/// This function must not be called from within a job, as it waits for other
+/// jobs to finish.
+pub fn compact_collection(database: &Database, collection: &CollectionName) -> Result<(), Error> {
+    let mut trees = Vec::new();
+    gather_collection_trees(database, collection, &mut trees);
+    compact_trees(database, trees)
+}
+
+/// Compacts all trees of `database`.
+///
+/// This function must not be called from within a job, as it waits for other
+/// jobs to finish.
+pub fn compact_database(database: &Database) -> Result<(), Error> {
+    let mut trees = Vec::new();
+    for collection in database.schematic().collections() {
+        gather_collection_trees(database, collection, &mut trees);
+    }
+    trees.push(Target::KeyValue);
+    compact_trees(database, trees)
+}
+
 fn compact_trees(database: &Database, targets: Vec<Target>) -> Result<(), Error> {
     // Enqueue all the jobs
     let handles = targets
-- 
2.43.0


From 1af4c4374838c6c7c0823de76e4d5ecec36f7032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 11/48] fix: survive interruptions while the storage id and
 vault keys are first written

---
 crates/bonsaidb-local/src/storage.rs | 33 ++++++++++++++++------------
 crates/bonsaidb-local/src/vault.rs   | 16 +++++++++++---
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 18ae5bb..fd4e359 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1,7 +1,7 @@
 use std::borrow::Cow;
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Debug, Display};
-use std::fs::{self, File};
+use std::fs::{self, File, OpenOptions};
 use std::io::{Read, Write};
 use std::marker::PhantomData;
 use std::path::{Path, PathBuf};
@@ -402,25 +402,30 @@ impl Storage {
             // is numerical, the file contents are the ascii decimal, making it
             // easier for a human to view, and if needed, edit.
 
-            if id_path.exists() {
+            let mut file = OpenOptions::new()
+                .read(true)
+                .write(true)
+                .create(true)
+                .open(id_path)?;
+            file.lock_exclusive()?;
+            let mut bytes = Vec::new();
+            file.read_to_end(&mut bytes)?;
+            if bytes.is_empty() {
+                // Either the file is new, or the process that created it was
+                // interrupted before the id was stored.
+                let id = { thread_rng().gen::<u64>() };
+                file.write_all(id.to_string().as_bytes())?;
+                // The vault keys are stored using this id.
+                file.sync_all()?;
+
+                (id, file)
+            } else {
                 // This value is important enought to not allow launching the
                 // server if the file can't be read or contains unexpected data.
-                let mut file = File::open(id_path)?;
-                file.lock_exclusive()?;
-                let mut bytes = Vec::new();
-                file.read_to_end(&mut bytes)?;
                 let existing_id =
                     String::from_utf8(bytes).expect("server-id contains invalid data");
 
                 (existing_id.parse().expect("server-id isn't numeric"), file)
-            } else {
-                let id = { thread_rng().gen::<u64>() };
-                let mut file = File::create(id_path)?;
-                file.lock_exclusive()?;
-
-                file.write_all(id.to_string().as_bytes())?;
-
-                (id, file)
             }
         };
         Ok(StorageLock::new(StorageId(id), file))
diff --git a/crates/bonsaidb-local/src/vault.rs b/crates/bonsaidb-local/src/vault.rs
index fa3dc2d..dc5397f 100644
--- a/crates/bonsaidb-local/src/vault.rs
+++ b/crates/bonsaidb-local/src/vault.rs
@@ -253,8 +253,7 @@ impl Vault {
                 tag,
             })?;
 
-            File::create(master_keys_path)
-                .and_then(move |mut file| file.write_all(&encrypted_master_keys_payload))
+            write_atomically(master_keys_path, &encrypted_master_keys_payload)
                 .map_err(|err| Error::Initializing(format!("error saving vault key: {err:?}")))?;
 
             Ok(Self {
@@ -593,11 +592,22 @@ impl VaultKeyStorage for LocalVaultKeyStorage {
     fn set_vault_key_for(&self, server_id: StorageId, key: KeyPair) -> Result<(), Self::Error> {
         let server_file = self.directory.join(server_id.to_string());
         let bytes = bincode::serialize(&key)?;
-        File::create(server_file).and_then(|mut file| file.write_all(&bytes))?;
+        write_atomically(&server_file, &bytes)?;
         Ok(())
     }
 }
 
+/// Writes `contents` to `path` such that an interruption leaves either the
+/// previous state or the complete new file.
+fn write_atomically(path: &Path, contents: &[u8]) -> Result<(), std::io::Error> {
+    let temporary_path = path.with_extension("tmp");
+    let mut file = File::create(&temporary_path)?;
+    file.write_all(contents)?;
+    file.sync_all()?;
+    drop(file);
+    fs::rename(temporary_path, path)
+}
+
 #[derive(Serialize, Deserialize)]
 struct VaultPayload<'a> {
     // TODO make key_id be the additional data
-- 
2.43.0


From 032ef7a20ddd2237f3ab18b5ca22c6dbd398b694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 12/48] fix: only delete directories of existing databases

---
 crates/bonsaidb-local/src/storage.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index fd4e359..7492f3e 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1022,7 +1022,9 @@ impl StorageConnection for StorageInstance {
     fn delete_database(&self, name: &str) -> Result<(), bonsaidb_core::Error> {
         let admin = self.admin();
         let mut available_databases = self.data.available_databases.write();
-        available_databases.remove(name);
+        if available_databases.remove(name).is_none() {
+            return Err(bonsaidb_core::Error::DatabaseNotFound(name.to_string()));
+        }
 
         let mut open_roots = self.data.open_roots.lock();
         open_roots.remove(name);
-- 
2.43.0


From f6e20709d9fdbd72a6aeadc4b7e0e099f71a1ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 13/48] fix: reject empty database names

---
 crates/bonsaidb-local/src/storage.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 7492f3e..37b75bb 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -518,11 +518,13 @@ impl Storage {
     }
 
     fn validate_name(name: &str) -> Result<(), Error> {
-        if name.chars().enumerate().all(|(index, c)| {
-            c.is_ascii_alphanumeric()
-                || (index == 0 && c == '_')
-                || (index > 0 && (c == '.' || c == '-'))
-        }) {
+        if !name.is_empty()
+            && name.chars().enumerate().all(|(index, c)| {
+                c.is_ascii_alphanumeric()
+                    || (index == 0 && c == '_')
+                    || (index > 0 && (c == '.' || c == '-'))
+            })
+        {
             Ok(())
         } else {
             Err(Error::Core(bonsaidb_core::Error::InvalidDatabaseName(
-- 
2.43.0


From 7ebca32f54fe9b6cfd0e98c08debf2e2d01fd6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 14/48] fix: convert floats to integers only when the value is
 unchanged

---
 crates/bonsaidb-core/src/keyvalue.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/bonsaidb-core/src/keyvalue.rs b/crates/bonsaidb-core/src/keyvalue.rs
index 1df1b21..997f08a 100644
--- a/crates/bonsaidb-core/src/keyvalue.rs
+++ b/crates/bonsaidb-core/src/keyvalue.rs
@@ -548,16 +548,17 @@ impl Numeric {
     /// Returns this numeric as an `i64`. If this conversion cannot be done
     /// without losing precision or overflowing, None will be returned.
     #[must_use]
-    #[allow(clippy::cast_possible_truncation)]
+    #[allow(clippy::cast_possible_truncation, clippy::cast_precision_loss)]
     pub fn as_i64(&self) -> Option<i64> {
         match self {
             Self::Integer(value) => Some(*value),
             Self::UnsignedInteger(value) => (*value).try_into().ok(),
             Self::Float(value) => {
-                if value.fract().abs() > 0. {
-                    None
-                } else {
+                // `i64::MAX as f64` rounds up to 2^63, which doesn't fit.
+                if value.fract() == 0. && *value >= i64::MIN as f64 && *value < i64::MAX as f64 {
                     Some(*value as i64)
+                } else {
+                    None
                 }
             }
         }
@@ -585,13 +586,18 @@ impl Numeric {
     /// Returns this numeric as an `u64`. If this conversion cannot be done
     /// without losing precision or overflowing, None will be returned.
     #[must_use]
-    #[allow(clippy::cast_sign_loss, clippy::cast_possible_truncation)]
+    #[allow(
+        clippy::cast_sign_loss,
+        clippy::cast_possible_truncation,
+        clippy::cast_precision_loss
+    )]
     pub fn as_u64(&self) -> Option<u64> {
         match self {
             Self::UnsignedInteger(value) => Some(*value),
             Self::Integer(value) => (*value).try_into().ok(),
             Self::Float(value) => {
-                if value.fract() < f64::EPSILON && value.is_sign_positive() {
+                // `u64::MAX as f64` rounds up to 2^64, which doesn't fit.
+                if value.fract() == 0. && value.is_sign_positive() && *value < u64::MAX as f64 {
                     Some(*value as u64)
                 } else {
                     None
-- 
2.43.0


From f401ca961764f09e6bc660120f632121a72d8fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 15/48] fix: carry whole seconds when adding a duration to a
 timestamp

---
 crates/bonsaidb-core/src/keyvalue/timestamp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/keyvalue/timestamp.rs b/crates/bonsaidb-core/src/keyvalue/timestamp.rs
index 82dc9b9..6644a7f 100644
--- a/crates/bonsaidb-core/src/keyvalue/timestamp.rs
+++ b/crates/bonsaidb-core/src/keyvalue/timestamp.rs
@@ -67,7 +67,7 @@ impl std::ops::Add<Duration> for Timestamp {
     fn add(self, rhs: Duration) -> Self::Output {
         let mut nanos = self.nanos + rhs.subsec_nanos();
         let mut seconds = self.seconds.saturating_add(rhs.as_secs());
-        while nanos > 1_000_000_000 {
+        while nanos >= 1_000_000_000 {
             nanos -= 1_000_000_000;
             seconds = seconds.saturating_add(1);
         }
-- 
2.43.0


From 3a1d2ba5efe5a8fb8ce7af55df3c6e5ae6d5493e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:26 +0000
Subject: [PATCH 16/48] fix: persist all keys before closing the key-value
 store

---
 crates/bonsaidb-local/src/database/keyvalue.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 0435692..a2208eb 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -239,7 +239,9 @@ impl KeyValueState {
     }
 
     pub fn shutdown(&mut self, state: &Arc<Mutex<KeyValueState>>) -> Option<flume::Receiver<()>> {
-        if self.keys_being_persisted.is_none() && self.commit_dirty_keys(state) {
+        // When keys are already being persisted, the thread persisting them will
+        // also persist the remaining dirty keys before shutting down.
+        if self.keys_being_persisted.is_some() || self.commit_dirty_keys(state) {
             let (shutdown_sender, shutdown_receiver) = flume::bounded(1);
             self.shutdown = Some(shutdown_sender);
             Some(shutdown_receiver)
-- 
2.43.0


From 97f1342795cc00284da476c4e6bf6a1a40162bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 17/48] fix: release the key-value tree when no key needs to be
 written

---
 crates/bonsaidb-local/src/database/keyvalue.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index a2208eb..f494c76 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -735,6 +735,9 @@ impl KeyValueState {
                 )?)
                 .map_err(Error::from)?;
             transaction.commit().map_err(Error::from)?;
+        } else {
+            // Release the tree, as this function may recurse.
+            drop(transaction);
         }
 
         // If we are shutting down, check if we still have dirty keys.
-- 
2.43.0


From 1aac7429a614504f9f32a477ea5cb61228c844d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 18/48] fix: never return expired key-value entries after
 opening a database

---
 crates/bonsaidb-local/src/database/keyvalue.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index f494c76..246f470 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -590,7 +590,14 @@ impl KeyValueState {
         roots
             .tree(Unversioned::tree(KEY_TREE))?
             .get(key.as_bytes())
-            .map(|current| current.and_then(|current| bincode::deserialize::<Entry>(&current).ok()))
+            .map(|current| {
+                // The expirations of stored keys are loaded in the background,
+                // this key may have expired already.
+                let now = Timestamp::now();
+                current
+                    .and_then(|current| bincode::deserialize::<Entry>(&current).ok())
+                    .filter(|entry| entry.expiration.map_or(true, |expiration| expiration > now))
+            })
     }
 
     fn update_background_worker_target(&mut self) {
-- 
2.43.0


From 86e5c90e1c7081e24beb0a22e86cca9f9c9fcdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:01 +0000
Subject: [PATCH 19/48] fix: load key-value expirations without overriding
 concurrent changes

---
 crates/bonsaidb-local/src/database.rs          | 15 ++++-----------
 crates/bonsaidb-local/src/database/keyvalue.rs | 16 +++++++++++++---
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index cd7f8e0..c7173a7 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -14,7 +14,9 @@ use bonsaidb_core::connection::{
 #[cfg(any(feature = "encryption", feature = "compression"))]
 use bonsaidb_core::document::KeyId;
 use bonsaidb_core::document::{BorrowedDocument, DocumentId, Header, OwnedDocument, Revision};
-use bonsaidb_core::keyvalue::{KeyOperation, Output, Timestamp};
+#[cfg(test)]
+use bonsaidb_core::keyvalue::Timestamp;
+use bonsaidb_core::keyvalue::{KeyOperation, Output};
 use bonsaidb_core::limits::{
     LIST_TRANSACTIONS_DEFAULT_RESULT_COUNT, LIST_TRANSACTIONS_MAX_RESULTS,
 };
@@ -898,16 +900,6 @@ impl Database {
         Ok(tree)
     }
 
-    pub(crate) fn update_key_expiration<'key>(
-        &self,
-        tree_key: impl Into<Cow<'key, str>>,
-        expiration: Option<Timestamp>,
-    ) {
-        self.data
-            .context
-            .update_key_expiration(tree_key, expiration);
-    }
-
     /// Converts this instance into its blocking version, which is able to be
     /// used without async. The returned instance uses the current Tokio runtime
     /// handle to spawn blocking tasks.
@@ -1726,6 +1718,7 @@ impl Context {
         state.perform_kv_operation(op, &self.data.key_value_state)
     }
 
+    #[cfg(test)]
     pub(crate) fn update_key_expiration<'key>(
         &self,
         tree_key: impl Into<Cow<'key, str>>,
diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 246f470..8b4bb41 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -71,6 +71,13 @@ impl Database {
     ) -> Result<BTreeMap<(Option<String>, String), Entry>, Error> {
         // Lock the state so that new new modifications can be made while we gather this snapshot.
         let state = self.data.context.key_value_state.lock();
+        self.all_entries_in_state(&state)
+    }
+
+    fn all_entries_in_state(
+        &self,
+        state: &KeyValueState,
+    ) -> Result<BTreeMap<(Option<String>, String), Entry>, Error> {
         let database = self.clone();
         // Initialize our entries with any dirty keys and any keys that are about to be persisted.
         let mut all_entries = BTreeMap::new();
@@ -864,12 +871,15 @@ impl Job for ExpirationLoader {
         let database = self.database.clone();
         let launched_at = self.launched_at;
 
-        for ((namespace, key), entry) in database.all_key_value_entries()? {
+        // Keep the state locked, as a key could otherwise be changed after its
+        // entry was read and before its expiration is loaded.
+        let mut state = database.data.context.key_value_state.lock();
+        for ((namespace, key), entry) in database.all_entries_in_state(&state)? {
             if entry.last_updated < launched_at && entry.expiration.is_some() {
-                self.database
-                    .update_key_expiration(full_key(namespace.as_deref(), &key), entry.expiration);
+                state.update_key_expiration(full_key(namespace.as_deref(), &key), entry.expiration);
             }
         }
+        drop(state);
 
         self.database
             .storage()
-- 
2.43.0


From 0ab59e64defb0a16a9453f21886a7068145647d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:58 +0000
Subject: [PATCH 20/48] fix: reading a file into an empty buffer no longer
 skips its contents

---
 crates/bonsaidb-files/src/direct.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 3b6de45..06b13b8 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1014,6 +1014,9 @@ impl<Database: Connection + Clone, Config: FileConfig> Read
     for Contents<Blocking<Database>, Config>
 {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
         loop {
             match self.non_blocking_read(|block| {
                 let bytes_to_read = buf.len().min(block.len());
@@ -1116,6 +1119,9 @@ impl<
         cx: &mut std::task::Context<'_>,
         buf: &mut tokio::io::ReadBuf<'_>,
     ) -> Poll<std::io::Result<()>> {
+        if buf.remaining() == 0 {
+            return Poll::Ready(Ok(()));
+        }
         self.spawn_block_fetching_task();
         loop {
             match self.non_blocking_read(|block| {
-- 
2.43.0


From 118e8225bfb87529b237578b375bf22b48dc5e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:58 +0000
Subject: [PATCH 21/48] fix: seeking in a file reports invalid positions
 instead of panicking

---
 crates/bonsaidb-files/src/direct.rs | 35 ++++++++++++++++-------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 06b13b8..97da470 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1034,31 +1034,34 @@ impl<Database: Connection + Clone, Config: FileConfig> Read
 impl<Database: Clone, Config: FileConfig> Seek for Contents<Database, Config> {
     fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
         let seek_to = match pos {
-            SeekFrom::Start(offset) => offset,
+            SeekFrom::Start(offset) => Some(offset),
             SeekFrom::End(from_end) => {
                 if from_end < 0 {
-                    self.len() - u64::try_from(from_end.saturating_abs()).unwrap()
+                    self.len().checked_sub(from_end.unsigned_abs())
                 } else {
                     // Seek to the end
-                    self.len()
+                    Some(self.len())
                 }
             }
             SeekFrom::Current(from_current) => {
-                if self.blocks.is_empty() {
-                    return Ok(0);
+                // Once all blocks have been read, there is no current block.
+                let position = self.blocks.get(self.current_block).map_or_else(
+                    || self.len(),
+                    |block| block.offset + u64::try_from(self.offset).unwrap(),
+                );
+                if from_current < 0 {
+                    position.checked_sub(from_current.unsigned_abs())
+                } else {
+                    Some(position.saturating_add(from_current.unsigned_abs()))
                 }
-
-                u64::try_from(
-                    i64::try_from(
-                        self.blocks[self.current_block].offset
-                            + u64::try_from(self.offset).unwrap(),
-                    )
-                    .unwrap()
-                        + from_current,
-                )
-                .unwrap()
             }
-        };
+        }
+        .ok_or_else(|| {
+            std::io::Error::new(
+                ErrorKind::InvalidInput,
+                "invalid seek to a negative position",
+            )
+        })?;
         if let Some((index, block)) = self
             .blocks
             .iter()
-- 
2.43.0


From e3991d86e083187125b2ed4211f2a789577f4f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:58 +0000
Subject: [PATCH 22/48] fix: async file reads return what was read before
 waiting for more blocks

---
 crates/bonsaidb-files/src/direct.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 97da470..c5b7616 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -704,7 +704,8 @@ pub struct Contents<Database: Clone, Config: FileConfig> {
 struct AsyncBlockTask {
     block_receiver:
         flume::r#async::RecvFut<'static, Result<BTreeMap<u64, Vec<u8>>, std::io::Error>>,
-    requested: bool,
+    /// The index of the first block requested, if a request is outstanding.
+    requested: Option<usize>,
     request_sender: flume::Sender<Vec<u64>>,
 }
 
@@ -835,7 +836,7 @@ impl<
             self.async_blocks = Some(AsyncBlockTask {
                 block_receiver: block_receiver.into_recv_async(),
                 request_sender,
-                requested: false,
+                requested: None,
             });
         }
     }
@@ -844,7 +845,7 @@ impl<
         &mut self,
         cx: &mut std::task::Context<'_>,
     ) -> Poll<Result<bool, std::io::Error>> {
-        if self.async_blocks.as_mut().unwrap().requested {
+        if let Some(first_block) = self.async_blocks.as_mut().unwrap().requested {
             match ready!(self
                 .async_blocks
                 .as_mut()
@@ -853,10 +854,10 @@ impl<
                 .poll_unpin(cx))
             {
                 Ok(Ok(blocks)) => {
-                    self.async_blocks.as_mut().unwrap().requested = false;
+                    self.async_blocks.as_mut().unwrap().requested = None;
                     for (index, (_, contents)) in blocks.into_iter().enumerate() {
                         let loaded_block = LoadedBlock {
-                            index: self.current_block + index,
+                            index: first_block + index,
                             contents,
                         };
                         self.loaded.push_back(loaded_block);
@@ -874,7 +875,7 @@ impl<
                 return Poll::Ready(Ok(false));
             }
             self.loaded.clear();
-            self.async_blocks.as_mut().unwrap().requested = true;
+            self.async_blocks.as_mut().unwrap().requested = Some(self.current_block);
             if let Err(err) = self
                 .async_blocks
                 .as_mut()
@@ -1126,6 +1127,7 @@ impl<
             return Poll::Ready(Ok(()));
         }
         self.spawn_block_fetching_task();
+        let already_filled = buf.filled().len();
         loop {
             match self.non_blocking_read(|block| {
                 let bytes_to_read = buf.remaining().min(block.len());
@@ -1134,6 +1136,11 @@ impl<
             }) {
                 NonBlockingReadResult::NeedBlocks => match self.fetch_blocks(cx) {
                     Poll::Ready(Ok(true)) => continue,
+                    // Bytes that have been read must be reported before waiting
+                    // for more, as `buf` may not be provided again.
+                    Poll::Pending if buf.filled().len() > already_filled => {
+                        return Poll::Ready(Ok(()))
+                    }
                     Poll::Pending => return Poll::Pending,
                     Poll::Ready(Ok(false)) => return Poll::Ready(Ok(())),
                     Poll::Ready(Err(err)) => return Poll::Ready(Err(err)),
-- 
2.43.0


From 0fd5b5b7175b320e83f27d640454704cc6ef085f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:58 +0000
Subject: [PATCH 23/48] fix: async into_vec returns the remaining contents of a
 partially read file

---
 crates/bonsaidb-files/src/direct.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index c5b7616..fe0d5bb 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -795,8 +795,8 @@ impl<
     /// read, this returns the entire contents.
     #[allow(clippy::missing_panics_doc)] // Not reachable
     pub async fn into_vec(mut self) -> std::io::Result<Vec<u8>> {
-        let mut contents = vec![0; usize::try_from(self.len()).unwrap()];
-        <Self as tokio::io::AsyncReadExt>::read_exact(&mut self, &mut contents).await?;
+        let mut contents = Vec::with_capacity(usize::try_from(self.len()).unwrap());
+        <Self as tokio::io::AsyncReadExt>::read_to_end(&mut self, &mut contents).await?;
         Ok(contents)
     }
 
-- 
2.43.0


From a2a49d8a096634a08aba19235e28bdf055cee2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:58 +0000
Subject: [PATCH 24/48] fix: never poll a completed flush of an async file
 writer

---
 crates/bonsaidb-files/src/direct.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index fe0d5bb..95910c5 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1366,7 +1366,10 @@ impl<'a, Config: FileConfig, Database: AsyncConnection + Clone + 'static> tokio:
             }
             .boxed();
             let poll_result = flush_task.poll_unpin(cx);
-            self.flush_future = Some(flush_task);
+            // A completed future must not be polled again.
+            if poll_result.is_pending() {
+                self.flush_future = Some(flush_task);
+            }
             poll_result
         }
     }
-- 
2.43.0


From d4c0bdbffd46bcff14cd88b7b2369710cd8d751e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:58 +0000
Subject: [PATCH 25/48] fix: buffered file writers work when blocks are larger
 than a megabyte

---
 crates/bonsaidb-files/src/direct.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 95910c5..8b3ee25 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1242,9 +1242,10 @@ impl<'a, Config: FileConfig, Database: Connection + Clone> Write
         if self.buffer.capacity() == 0 {
             const ONE_MEGABYTE: usize = 1024 * 1024;
             // By default, reserve the largest multiple of BLOCK_SIZE that is
-            // less than or equal to 1 megabyte.
-            self.buffer
-                .reserve_exact(ONE_MEGABYTE / Config::BLOCK_SIZE * Config::BLOCK_SIZE);
+            // less than or equal to 1 megabyte, but at least one block.
+            self.buffer.reserve_exact(
+                (ONE_MEGABYTE / Config::BLOCK_SIZE * Config::BLOCK_SIZE).max(Config::BLOCK_SIZE),
+            );
         } else if self.buffer.capacity() == self.buffer.len() {
             self.flush()?;
         }
@@ -1316,9 +1317,10 @@ impl<'a, Config: FileConfig, Database: AsyncConnection + Clone + 'static> tokio:
         if self.buffer.capacity() == 0 {
             const ONE_MEGABYTE: usize = 1024 * 1024;
             // By default, reserve the largest multiple of BLOCK_SIZE that is
-            // less than or equal to 1 megabyte.
-            self.buffer
-                .reserve_exact(ONE_MEGABYTE / Config::BLOCK_SIZE * Config::BLOCK_SIZE);
+            // less than or equal to 1 megabyte, but at least one block.
+            self.buffer.reserve_exact(
+                (ONE_MEGABYTE / Config::BLOCK_SIZE * Config::BLOCK_SIZE).max(Config::BLOCK_SIZE),
+            );
         }
 
         if self.flush_future.is_some() {
-- 
2.43.0


From b218eab0b312e35d7bf19b78cebf7e4529e6bfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:28 +0000
Subject: [PATCH 26/48] fix: delete files together with their contents

---
 crates/bonsaidb-files/src/direct.rs      |  9 +----
 crates/bonsaidb-files/src/schema/file.rs | 47 ++++++++++++++++++++++++
 2 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 8b3ee25..4aaed2b 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -173,9 +173,7 @@ where
 
     /// Deletes the file.
     pub fn delete(&self) -> Result<(), Error> {
-        schema::block::Block::<Config>::delete_for_file(self.doc.header.id, &self.database.0)?;
-        self.doc.delete(&self.database.0)?;
-        Ok(())
+        schema::file::File::<Config>::delete_with_blocks(&self.doc, &self.database.0)
     }
 
     fn map_block_metadata<F: FnOnce(BlockAppendInfo) -> T, T>(
@@ -404,10 +402,7 @@ where
 
     /// Deletes the file.
     pub async fn delete(&self) -> Result<(), Error> {
-        schema::block::Block::<Config>::delete_for_file_async(self.doc.header.id, &self.database.0)
-            .await?;
-        self.doc.delete_async(&self.database.0).await?;
-        Ok(())
+        schema::file::File::<Config>::delete_with_blocks_async(&self.doc, &self.database.0).await
     }
 
     async fn map_block_metadata<F: FnOnce(BlockAppendInfo) -> T, T>(
diff --git a/crates/bonsaidb-files/src/schema/file.rs b/crates/bonsaidb-files/src/schema/file.rs
index 9442ed2..b160203 100644
--- a/crates/bonsaidb-files/src/schema/file.rs
+++ b/crates/bonsaidb-files/src/schema/file.rs
@@ -360,6 +360,53 @@ where
         tx.apply_async(database).await?;
         Ok(())
     }
+
+    /// Deletes the file and its blocks in a single transaction, so that nothing
+    /// is removed when `file` is out of date.
+    pub fn delete_with_blocks<Database: Connection>(
+        file: &CollectionDocument<Self>,
+        database: &Database,
+    ) -> Result<(), Error> {
+        let blocks = Block::<Config>::for_file(file.header.id, database)?;
+        Self::create_delete_transaction(file, &blocks)?.apply(database)?;
+        // Nothing can be appended to the file anymore. Remove what was appended
+        // after the blocks were listed.
+        Block::<Config>::delete_for_file(file.header.id, database)?;
+        Ok(())
+    }
+
+    #[cfg(feature = "async")]
+    pub async fn delete_with_blocks_async<Database: AsyncConnection>(
+        file: &CollectionDocument<Self>,
+        database: &Database,
+    ) -> Result<(), Error> {
+        let blocks = Block::<Config>::for_file_async(file.header.id, database).await?;
+        Self::create_delete_transaction(file, &blocks)?
+            .apply_async(database)
+            .await?;
+        // Nothing can be appended to the file anymore. Remove what was appended
+        // after the blocks were listed.
+        Block::<Config>::delete_for_file_async(file.header.id, database).await?;
+        Ok(())
+    }
+
+    fn create_delete_transaction(
+        file: &CollectionDocument<Self>,
+        blocks: &[BlockInfo],
+    ) -> Result<Transaction, bonsaidb_core::Error> {
+        let mut tx = Transaction::new();
+        tx.push(Operation::delete(
+            Self::collection_name(),
+            Header::try_from(file.header)?,
+        ));
+        for block in blocks {
+            tx.push(Operation::delete(
+                Block::<Config>::collection_name(),
+                Header::try_from(block.header)?,
+            ));
+        }
+        Ok(tx)
+    }
 }
 
 impl<Config> Collection for File<Config>
-- 
2.43.0


From 95204be2b334f0d96629decd93f292f33649c3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:48 +0000
Subject: [PATCH 27/48] fix: files cannot be renamed to an empty name

---
 crates/bonsaidb-files/src/direct.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 4aaed2b..97fb073 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -159,7 +159,7 @@ where
 
     /// Renames this file to the new name.
     pub fn rename(&mut self, new_name: String) -> Result<(), Error> {
-        if new_name.as_bytes().contains(&b'/') {
+        if new_name.is_empty() || new_name.as_bytes().contains(&b'/') {
             return Err(Error::InvalidName);
         }
 
@@ -388,7 +388,7 @@ where
 
     /// Renames this file to the new name.
     pub async fn rename(&mut self, new_name: String) -> Result<(), Error> {
-        if new_name.as_bytes().contains(&b'/') {
+        if new_name.is_empty() || new_name.as_bytes().contains(&b'/') {
             return Err(Error::InvalidName);
         }
 
-- 
2.43.0


From a42f1bafd5be52d3ca23ef8054a4593bb50c3130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:08 +0000
Subject: [PATCH 28/48] fix: deleted documents no longer count toward the limit
 of a list query

---
 crates/bonsaidb-local/src/database.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index c7173a7..445a443 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1253,7 +1253,12 @@ impl LowLevelConnection for Database {
                 Sort::Descending => false,
             },
             |_, _, _| ScanEvaluation::ReadData,
-            |_, _| {
+            |_, index| {
+                // Deleted documents remain in the index without a position.
+                if index.position == 0 {
+                    return ScanEvaluation::Skip;
+                }
+
                 if let Some(limit) = limit {
                     if keys_read >= limit {
                         return ScanEvaluation::Stop;
@@ -1316,7 +1321,12 @@ impl LowLevelConnection for Database {
                 Sort::Descending => false,
             },
             |_, _, _| ScanEvaluation::ReadData,
-            |_, _| {
+            |_, index| {
+                // Deleted documents remain in the index without a position.
+                if index.position == 0 {
+                    return ScanEvaluation::Skip;
+                }
+
                 if let Some(limit) = limit {
                     if keys_read >= limit {
                         return ScanEvaluation::Stop;
-- 
2.43.0


From b1b4a22342c164c5f495f6d786e13411ad0e9288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:50 +0000
Subject: [PATCH 29/48] fix: count only the documents within the range
 requested

Reducing the statistics of a range counts whole interior nodes whose
keys are partially outside of the range.
---
 crates/bonsaidb-local/src/database.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 445a443..1d2a988 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1378,9 +1378,31 @@ impl LowLevelConnection for Database {
             .tree(self.collection_tree::<Versioned, _>(collection, document_tree_name(collection))?)
             .map_err(Error::from)?;
         let ids = DocumentIdRange(ids);
-        let stats = tree.reduce(&ids.borrow_as_bytes()).map_err(Error::from)?;
+        if matches!(
+            (&ids.0.start, &ids.0.end),
+            (connection::Bound::Unbounded, connection::Bound::Unbounded)
+        ) {
+            let stats = tree.reduce(&ids.borrow_as_bytes()).map_err(Error::from)?;
+            return Ok(stats.alive_keys);
+        }
+
+        // Reducing is only exact when all nodes are included.
+        let mut alive_keys = 0;
+        tree.scan::<Infallible, _, _, _, _>(
+            &ids.borrow_as_bytes(),
+            true,
+            |_, _, _| ScanEvaluation::ReadData,
+            |_, index| {
+                if index.position > 0 {
+                    alive_keys += 1;
+                }
+                ScanEvaluation::Skip
+            },
+            |_, _, _| unreachable!(),
+        )
+        .map_err(Error::from)?;
 
-        Ok(stats.alive_keys)
+        Ok(alive_keys)
     }
 
     #[cfg_attr(feature = "tracing", tracing::instrument(
-- 
2.43.0


From d7ccbe8ab357ca81076bf32e3e389cccf955b3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 30/48] fix: forget what was known about a database once it is
 deleted

A new database of the same name was taken to have up-to-date views and
loaded key-value expirations.
---
 crates/bonsaidb-local/src/storage.rs |  1 +
 crates/bonsaidb-local/src/tasks.rs   | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 37b75bb..5578f22 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1038,6 +1038,7 @@ impl StorageConnection for StorageInstance {
                 .delete_directory(&database_folder)
                 .map_err(Error::Nebari)?;
         }
+        self.data.tasks.forget_database(name);
 
         if let Some(entry) = admin
             .view::<database::ByName>()
diff --git a/crates/bonsaidb-local/src/tasks.rs b/crates/bonsaidb-local/src/tasks.rs
index 40e2c8c..d69fef0 100644
--- a/crates/bonsaidb-local/src/tasks.rs
+++ b/crates/bonsaidb-local/src/tasks.rs
@@ -181,6 +181,20 @@ impl TaskManager {
             .insert((database, collection, view_name), transaction_id);
     }
 
+    /// Forgets everything known about a database that has been deleted.
+    pub fn forget_database(&self, name: &str) {
+        let mut statuses = self.statuses.write();
+        statuses
+            .completed_integrity_checks
+            .retain(|(database, _, _)| database.as_ref() != name);
+        statuses
+            .key_value_expiration_loads
+            .retain(|database| database.as_ref() != name);
+        statuses
+            .view_update_last_status
+            .retain(|(database, _, _), _| database.as_ref() != name);
+    }
+
     pub fn spawn_key_value_expiration_loader(
         &self,
         database: &Database,
-- 
2.43.0


From c6f49692bd13a05741f723f89df6032d883600ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:37 +0000
Subject: [PATCH 31/48] fix: users are granted the permissions of the roles
 they are assigned

The groups of the user were looked up in place of its roles.
---
 crates/bonsaidb-core/src/admin/user.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/admin/user.rs b/crates/bonsaidb-core/src/admin/user.rs
index 0894a4e..1a7a3d3 100644
--- a/crates/bonsaidb-core/src/admin/user.rs
+++ b/crates/bonsaidb-core/src/admin/user.rs
@@ -67,7 +67,7 @@ impl User {
         let role_groups = if self.roles.is_empty() {
             Vec::default()
         } else {
-            let roles = role::Role::get_multiple(self.groups.iter(), admin)?;
+            let roles = role::Role::get_multiple(self.roles.iter(), admin)?;
             roles
                 .into_iter()
                 .flat_map(|doc| doc.contents.groups)
-- 
2.43.0


From 7077d1c58e3196d7b38419ea8af7f97968e65ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:37 +0000
Subject: [PATCH 32/48] fix: roles are found by their own names when assigned
 to users

add_role_to_user looked up a permission group of that name.
---
 crates/bonsaidb-local/src/storage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 5578f22..70be448 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1205,7 +1205,7 @@ impl StorageConnection for StorageInstance {
         user: U,
         role: G,
     ) -> Result<(), bonsaidb_core::Error> {
-        self.update_user_with_named_id::<PermissionGroup, _, _, _>(user, role, |user, role_id| {
+        self.update_user_with_named_id::<Role, _, _, _>(user, role, |user, role_id| {
             Ok(Self::add_role_to_user_inner(user, role_id))
         })
     }
@@ -1464,7 +1464,7 @@ impl StorageConnection for Storage {
         role: G,
     ) -> Result<(), bonsaidb_core::Error> {
         self.instance
-            .update_user_with_named_id::<PermissionGroup, _, _, _>(user, role, |user, role_id| {
+            .update_user_with_named_id::<Role, _, _, _>(user, role, |user, role_id| {
                 self.check_permission(
                     user_resource_name(user.header.id),
                     &BonsaiAction::Server(ServerAction::ModifyUserRoles),
-- 
2.43.0


From 45829c4a06c6296d137ec4ddb46fecbfe2ea3563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:37 +0000
Subject: [PATCH 33/48] fix: check the permission to delete documents through a
 view

---
 crates/bonsaidb-local/src/database.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 1d2a988..fe58979 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1640,6 +1640,10 @@ impl LowLevelConnection for Database {
         access_policy: AccessPolicy,
     ) -> Result<u64, bonsaidb_core::Error> {
         let view = self.data.schema.view_by_name(view)?;
+        self.check_permission(
+            view_resource_name(self.name(), &view.view_name()),
+            &BonsaiAction::Database(DatabaseAction::View(ViewAction::DeleteDocs)),
+        )?;
         let collection = view.collection();
         let mut transaction = Transaction::default();
         // A document can be mapped to more than one key.
-- 
2.43.0


From 1febeb75c096efcbf66bc5dbebb4694286b6c00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:37 +0000
Subject: [PATCH 34/48] fix: databases opened through an authenticated storage
 keep its session

Opening a database by its schema returned one that every operation is
permitted on.
---
 crates/bonsaidb-local/src/storage.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 70be448..553d1f2 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1256,7 +1256,9 @@ impl StorageConnection for Storage {
     }
 
     fn database<DB: Schema>(&self, name: &str) -> Result<Self::Database, bonsaidb_core::Error> {
-        self.instance.database::<DB>(name)
+        self.instance
+            .database_without_schema(name, Some(self), Some(DB::schema_name()))
+            .map_err(bonsaidb_core::Error::from)
     }
 
     fn delete_database(&self, name: &str) -> Result<(), bonsaidb_core::Error> {
-- 
2.43.0


From 84ba665548e7f2a08007e3ef46d6dd0dc5185348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:57 +0000
Subject: [PATCH 35/48] fix: querying a view requires no permission beyond
 those documented

Whether a view is up to date was decided through the caller's permission to
list the last transaction id, so a user allowed to query a view was denied, and
failed the view's update job for others waiting on it.
---
 crates/bonsaidb-local/src/tasks.rs        | 5 +++--
 crates/bonsaidb-local/src/views/mapper.rs | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/bonsaidb-local/src/tasks.rs b/crates/bonsaidb-local/src/tasks.rs
index d69fef0..4ef1e55 100644
--- a/crates/bonsaidb-local/src/tasks.rs
+++ b/crates/bonsaidb-local/src/tasks.rs
@@ -2,7 +2,6 @@ use std::borrow::Cow;
 use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 
-use bonsaidb_core::connection::Connection;
 use bonsaidb_core::keyvalue::Timestamp;
 use bonsaidb_core::schema::{view, CollectionName, ViewName};
 use parking_lot::RwLock;
@@ -64,7 +63,9 @@ impl TaskManager {
         }
 
         // If there is no transaction id, there is no data, so the view is "up-to-date"
-        if let Some(current_transaction_id) = database.last_transaction_id()? {
+        if let Some(current_transaction_id) =
+            database.roots().transactions().current_transaction_id()
+        {
             let needs_reindex = {
                 // When views finish updating, they store the last transaction_id
                 // they mapped. If that value is current, we don't need to go
diff --git a/crates/bonsaidb-local/src/views/mapper.rs b/crates/bonsaidb-local/src/views/mapper.rs
index 98360b3..7a174d3 100644
--- a/crates/bonsaidb-local/src/views/mapper.rs
+++ b/crates/bonsaidb-local/src/views/mapper.rs
@@ -75,7 +75,9 @@ impl Job for Mapper {
 
         let transaction_id = self
             .database
-            .last_transaction_id()?
+            .roots()
+            .transactions()
+            .current_transaction_id()
             .expect("no way to have documents without a transaction");
 
         let storage = self.database.clone();
-- 
2.43.0


From 921beea0c100eb033d71f43910ce5d1e2d927509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:51 +0000
Subject: [PATCH 36/48] fix: listing executed transactions while others commit
 could skip transactions

A log that grew between looking up the next transaction id and the length of the
log made the search for an id that was not written yet start after transactions
written in the meantime: following the log with the last known id plus one missed
them for good. Only ids up to the last one written are searched for now.
---
 crates/bonsaidb-local/src/database.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index fe58979..3f08bcf 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1016,7 +1016,16 @@ impl Connection for Database {
                 .min(LIST_TRANSACTIONS_MAX_RESULTS),
         )
         .unwrap();
-        if result_limit > 0 {
+        // The log can grow while it is being scanned. Only completely written
+        // transactions are considered, and the log isn't searched for an id that
+        // hasn't been written yet: its position wouldn't be known, and
+        // transactions written in the meantime could be skipped.
+        let last_id = self
+            .roots()
+            .transactions()
+            .current_transaction_id()
+            .filter(|last_id| starting_id.map_or(true, |starting_id| starting_id <= *last_id));
+        if let (Some(last_id), true) = (last_id, result_limit > 0) {
             let range = if let Some(starting_id) = starting_id {
                 Range::from(starting_id..)
             } else {
@@ -1027,10 +1036,11 @@ impl Connection for Database {
             self.roots()
                 .transactions()
                 .scan(range, |entry| {
-                    if entry.data().is_some() {
+                    let more = entry.id < last_id;
+                    if entry.data().is_some() && entry.id <= last_id {
                         entries.push(entry);
                     }
-                    entries.len() < result_limit
+                    more && entries.len() < result_limit
                 })
                 .map_err(Error::from)?;
 
@@ -1051,8 +1061,9 @@ impl Connection for Database {
                 .collect::<Result<Vec<_>, Error>>()
                 .map_err(bonsaidb_core::Error::from)
         } else {
-            // A request was made to return an empty result? This should probably be
-            // an error, but technically this is a correct response.
+            // There are no transactions to return, or a request was made to return an
+            // empty result, which should probably be an error, but technically this
+            // is a correct response.
             Ok(Vec::default())
         }
     }
-- 
2.43.0


From 10b89bf936757a4e3568f776c788771af4bb3b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:50 +0000
Subject: [PATCH 37/48] fix: backups include the key-value entries of schemas
 without collections

The entries were stored once for each collection, and thus never for a schema
that has none.
---
 crates/bonsaidb-local/src/storage/backup.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage/backup.rs b/crates/bonsaidb-local/src/storage/backup.rs
index 6966bf6..3b2048d 100644
--- a/crates/bonsaidb-local/src/storage/backup.rs
+++ b/crates/bonsaidb-local/src/storage/backup.rs
@@ -120,16 +120,16 @@ impl Storage {
                     &document.contents,
                 )?;
             }
-            for ((namespace, key), entry) in database.all_key_value_entries()? {
-                let full_name = format!("{}._key._{key}", namespace.as_deref().unwrap_or(""));
-                location.store(
-                    &schema,
-                    database.name(),
-                    "_kv",
-                    &full_name,
-                    &pot::to_vec(&entry)?,
-                )?;
-            }
+        }
+        for ((namespace, key), entry) in database.all_key_value_entries()? {
+            let full_name = format!("{}._key._{key}", namespace.as_deref().unwrap_or(""));
+            location.store(
+                &schema,
+                database.name(),
+                "_kv",
+                &full_name,
+                &pot::to_vec(&entry)?,
+            )?;
         }
         Ok(())
     }
-- 
2.43.0


From 45bfdc6f3479ca79927deac506ffa5f1a598e09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:50 +0000
Subject: [PATCH 38/48] fix: restore key-value entries to the namespace they
 were stored in

A namespace that contains the separator between namespaces and keys was split
when it was restored, so the entry was restored under a different name.
---
 crates/bonsaidb-local/src/storage/backup.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage/backup.rs b/crates/bonsaidb-local/src/storage/backup.rs
index 3b2048d..d5e21eb 100644
--- a/crates/bonsaidb-local/src/storage/backup.rs
+++ b/crates/bonsaidb-local/src/storage/backup.rs
@@ -122,7 +122,7 @@ impl Storage {
             }
         }
         for ((namespace, key), entry) in database.all_key_value_entries()? {
-            let full_name = format!("{}._key._{key}", namespace.as_deref().unwrap_or(""));
+            let full_name = full_key_name(namespace.as_deref().unwrap_or(""), &key);
             location.store(
                 &schema,
                 database.name(),
@@ -168,13 +168,13 @@ impl Storage {
         database.apply_transaction(transaction)?;
 
         for full_key in location.list_stored(&schema, database.name(), "_kv")? {
-            if let Some((namespace, key)) = full_key.split_once("._key._") {
+            if let Some((namespace, key)) = split_key_name(&full_key) {
                 let entry = location.load(&schema, database.name(), "_kv", &full_key)?;
                 let entry = pot::from_slice::<Entry>(&entry)?;
                 let namespace = if namespace.is_empty() {
                     None
                 } else {
-                    Some(namespace.to_string())
+                    Some(namespace)
                 };
                 entry.restore(namespace, key.to_string(), database)?;
             }
@@ -184,6 +184,21 @@ impl Storage {
     }
 }
 
+const KEY_NAME_SEPARATOR: &str = "._key._";
+
+/// Returns the name a key-value entry is stored with. The namespace is escaped
+/// such that the separator cannot begin within it.
+fn full_key_name(namespace: &str, key: &str) -> String {
+    let namespace = namespace.replace('%', "%25").replace("._", "%2E_");
+    format!("{namespace}{KEY_NAME_SEPARATOR}{key}")
+}
+
+/// Returns the namespace and key that were passed to [`full_key_name()`].
+fn split_key_name(full_name: &str) -> Option<(String, &str)> {
+    let (namespace, key) = full_name.split_once(KEY_NAME_SEPARATOR)?;
+    Some((namespace.replace("%2E_", "._").replace("%25", "%"), key))
+}
+
 pub trait AnyBackupLocation: Send + Sync {
     fn store(
         &self,
-- 
2.43.0


From fe0142d2ed624ea4d3d4405360f4bde2eac60cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:50 +0000
Subject: [PATCH 39/48] fix: backups to a directory keep every name within its
 own file

The names of documents, keys and schemas were used as file names as they are:
names with path separators, empty names, "." and ".." could not be backed up,
were stored in a place where they are not restored from, or overwrote files
outside of the backup's directory.
---
 crates/bonsaidb-local/src/storage/backup.rs | 42 ++++++++++++++++++---
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage/backup.rs b/crates/bonsaidb-local/src/storage/backup.rs
index d5e21eb..802d227 100644
--- a/crates/bonsaidb-local/src/storage/backup.rs
+++ b/crates/bonsaidb-local/src/storage/backup.rs
@@ -291,7 +291,7 @@ impl BackupLocation for Path {
     ) -> Result<(), Self::Error> {
         let container_folder = container_folder(self, schema, database_name, container);
         std::fs::create_dir_all(&container_folder)?;
-        std::fs::write(container_folder.join(name), object)?;
+        std::fs::write(container_folder.join(encode_file_name(name)), object)?;
 
         Ok(())
     }
@@ -340,7 +340,9 @@ impl BackupLocation for Path {
         container: &str,
         name: &str,
     ) -> Result<Vec<u8>, Self::Error> {
-        std::fs::read(container_folder(self, schema, database_name, container).join(name))
+        std::fs::read(
+            container_folder(self, schema, database_name, container).join(encode_file_name(name)),
+        )
     }
 }
 
@@ -409,7 +411,7 @@ fn iterate_directory<T, F: FnMut(DirEntry, String) -> Result<Option<T>, std::io:
         .flatten()
     {
         if let Ok(file_name) = entry.file_name().into_string() {
-            if let Some(result) = callback(entry, file_name)? {
+            if let Some(result) = callback(entry, decode_file_name(&file_name))? {
                 collected.push(result);
             }
         }
@@ -438,11 +440,11 @@ impl<T> IoResultExt<T> for Result<T, std::io::Error> {
 }
 
 fn schema_folder(base: &Path, schema: &SchemaName) -> PathBuf {
-    base.join(schema.encoded())
+    base.join(encode_file_name(&schema.encoded()))
 }
 
 fn database_folder(base: &Path, schema: &SchemaName, database_name: &str) -> PathBuf {
-    schema_folder(base, schema).join(database_name)
+    schema_folder(base, schema).join(encode_file_name(database_name))
 }
 
 fn container_folder(
@@ -451,7 +453,35 @@ fn container_folder(
     database_name: &str,
     container: &str,
 ) -> PathBuf {
-    database_folder(base, schema, database_name).join(container)
+    database_folder(base, schema, database_name).join(encode_file_name(container))
+}
+
+/// Escapes `name` such that it always is the name of a single file or directory
+/// within its parent directory.
+fn encode_file_name(name: &str) -> String {
+    match name {
+        "" => String::from("%"),
+        "." => String::from("%2E"),
+        ".." => String::from("%2E%2E"),
+        name => name
+            .replace('%', "%25")
+            .replace('/', "%2F")
+            .replace('\\', "%5C")
+            .replace('\0', "%00"),
+    }
+}
+
+/// Returns the name that was passed to [`encode_file_name()`].
+fn decode_file_name(file_name: &str) -> String {
+    if file_name == "%" {
+        return String::new();
+    }
+    file_name
+        .replace("%2E", ".")
+        .replace("%2F", "/")
+        .replace("%5C", "\\")
+        .replace("%00", "\0")
+        .replace("%25", "%")
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1b9f2da5b59868e5f9259a354b0e8364b63e0560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:22 +0000
Subject: [PATCH 40/48] fix: compact encrypted collections with their own
 encryption settings

Compaction opened the trees of a collection with the storage's default settings:
collections with an encryption key of their own could not be compacted, or were
written without encryption when only compression was configured.
---
 crates/bonsaidb-local/src/tasks/compactor.rs | 46 +++++++++++---------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/crates/bonsaidb-local/src/tasks/compactor.rs b/crates/bonsaidb-local/src/tasks/compactor.rs
index da31db5..2691786 100644
--- a/crates/bonsaidb-local/src/tasks/compactor.rs
+++ b/crates/bonsaidb-local/src/tasks/compactor.rs
@@ -1,8 +1,7 @@
-use std::borrow::Cow;
-
 use bonsaidb_core::connection::Connection;
 use bonsaidb_core::schema::CollectionName;
-use nebari::tree::{Root, Unversioned, Versioned};
+use nebari::io::any::AnyFile;
+use nebari::tree::{Root, TreeRoot, Unversioned, Versioned};
 
 use crate::database::keyvalue::KEY_TREE;
 use crate::database::{document_tree_name, DatabaseNonBlocking};
@@ -43,17 +42,25 @@ pub struct Compaction {
 
 #[derive(Debug, Clone, Hash, Eq, PartialEq)]
 pub enum Target {
-    VersionedTree(String),
-    UnversionedTree(String),
+    VersionedTree(CollectionName, String),
+    UnversionedTree(CollectionName, String),
     KeyValue,
 }
 
 impl Target {
     fn compact(self, database: &Database) -> Result<(), Error> {
         match self {
-            Target::UnversionedTree(name) => compact_tree::<Unversioned, _>(database, name),
-            Target::VersionedTree(name) => compact_tree::<Versioned, _>(database, name),
-            Target::KeyValue => compact_tree::<Unversioned, _>(database, KEY_TREE),
+            // The trees of collections must be opened with the collection's
+            // encryption settings, because compacting rewrites the data.
+            Target::UnversionedTree(collection, name) => compact_tree(
+                database,
+                database.collection_tree::<Unversioned, _>(&collection, name)?,
+            ),
+            Target::VersionedTree(collection, name) => compact_tree(
+                database,
+                database.collection_tree::<Versioned, _>(&collection, name)?,
+            ),
+            Target::KeyValue => compact_tree(database, Unversioned::tree(KEY_TREE)),
         }
     }
 }
@@ -79,16 +86,18 @@ fn gather_collection_trees(
     collection: &CollectionName,
     trees: &mut Vec<Target>,
 ) {
-    trees.push(Target::VersionedTree(document_tree_name(collection)));
-    trees.push(Target::UnversionedTree(view_versions_tree_name(collection)));
+    trees.push(Target::VersionedTree(
+        collection.clone(),
+        document_tree_name(collection),
+    ));
+    let unversioned = |name| Target::UnversionedTree(collection.clone(), name);
+    trees.push(unversioned(view_versions_tree_name(collection)));
 
     for view in database.data.schema.views_in_collection(collection) {
         let name = view.view_name();
-        trees.push(Target::UnversionedTree(view_entries_tree_name(&name)));
-        trees.push(Target::UnversionedTree(view_document_map_tree_name(&name)));
-        trees.push(Target::UnversionedTree(view_invalidated_docs_tree_name(
-            &name,
-        )));
+        trees.push(unversioned(view_entries_tree_name(&name)));
+        trees.push(unversioned(view_document_map_tree_name(&name)));
+        trees.push(unversioned(view_invalidated_docs_tree_name(&name)));
     }
 }
 
@@ -134,11 +143,8 @@ fn compact_trees(database: &Database, targets: Vec<Target>) -> Result<(), Error>
     Ok(())
 }
 
-fn compact_tree<R: Root, S: Into<Cow<'static, str>>>(
-    database: &Database,
-    name: S,
-) -> Result<(), Error> {
-    let documents = database.roots().tree(R::tree(name))?;
+fn compact_tree<R: Root>(database: &Database, tree: TreeRoot<R, AnyFile>) -> Result<(), Error> {
+    let documents = database.roots().tree(tree)?;
     documents.compact()?;
     Ok(())
 }
-- 
2.43.0


From 505494880c7d37cc6ca98ed50987a2798fe359c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:50 +0000
Subject: [PATCH 41/48] fix: return an error when the vault key does not open
 the master keys

Opening a storage with another key than the one it was created with, or with a
damaged one, panicked.
---
 crates/bonsaidb-local/src/vault.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/crates/bonsaidb-local/src/vault.rs b/crates/bonsaidb-local/src/vault.rs
index dc5397f..242c191 100644
--- a/crates/bonsaidb-local/src/vault.rs
+++ b/crates/bonsaidb-local/src/vault.rs
@@ -292,17 +292,15 @@ impl Vault {
                             private,
                             &encrypted_master_keys.encapsulated_key,
                             b"",
-                        )
-                        .unwrap();
-
-                    decryption_context
-                        .open_in_place_detached(
-                            &mut encrypted_master_keys.payload.0,
-                            b"",
-                            &AeadTag::<ChaCha20Poly1305>::from_bytes(&encrypted_master_keys.tag)
-                                .unwrap(),
-                        )
-                        .unwrap();
+                        )?;
+
+                    // This fails if the vault key isn't the key that the master
+                    // keys were sealed with.
+                    decryption_context.open_in_place_detached(
+                        &mut encrypted_master_keys.payload.0,
+                        b"",
+                        &AeadTag::<ChaCha20Poly1305>::from_bytes(&encrypted_master_keys.tag)?,
+                    )?;
 
                     bincode::deserialize::<HashMap<u32, EncryptionKey>>(
                         &encrypted_master_keys.payload,
-- 
2.43.0


From 9c3297fbf8e5624f9f44853ca44e497523d0efc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:42 +0000
Subject: [PATCH 42/48] fix: keep the session's restrictions on the admin
 database

---
 crates/bonsaidb-local/src/storage.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 553d1f2..f6f864c 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1238,7 +1238,10 @@ impl StorageConnection for Storage {
     type Database = Database;
 
     fn admin(&self) -> Self::Database {
-        self.instance.admin()
+        let mut admin = self.instance.admin();
+        // The database must not grant more than this handle's session does.
+        admin.storage = self.clone();
+        admin
     }
 
     fn create_database_with_schema(
@@ -1297,7 +1300,7 @@ impl StorageConnection for Storage {
         &self,
         user: U,
     ) -> Result<(), bonsaidb_core::Error> {
-        let admin = self.admin();
+        let admin = self.instance.admin();
         let user = user.name()?;
         let user_id = user
             .id::<User, _>(&admin)?
@@ -1315,7 +1318,7 @@ impl StorageConnection for Storage {
         user: U,
         password: bonsaidb_core::connection::SensitiveString,
     ) -> Result<(), bonsaidb_core::Error> {
-        let admin = self.admin();
+        let admin = self.instance.admin();
         let user = user.name()?;
         let user_id = user
             .id::<User, _>(&admin)?
@@ -1334,7 +1337,7 @@ impl StorageConnection for Storage {
         &self,
         authentication: bonsaidb_core::connection::Authentication,
     ) -> Result<Self, bonsaidb_core::Error> {
-        let admin = self.admin();
+        let admin = self.instance.admin();
         let mut loaded_user = None;
         match &authentication {
             #[cfg(feature = "token-authentication")]
@@ -1377,7 +1380,7 @@ impl StorageConnection for Storage {
     ) -> Result<Self::Authenticated, bonsaidb_core::Error> {
         match identity {
             IdentityReference::User(user) => {
-                let admin = self.admin();
+                let admin = self.instance.admin();
                 let user =
                     User::load(user, &admin)?.ok_or(bonsaidb_core::Error::InvalidCredentials)?;
                 self.check_permission(
@@ -1387,7 +1390,7 @@ impl StorageConnection for Storage {
                 self.instance.assume_user(user, &admin)
             }
             IdentityReference::Role(role) => {
-                let admin = self.admin();
+                let admin = self.instance.admin();
                 let role =
                     Role::load(role, &admin)?.ok_or(bonsaidb_core::Error::InvalidCredentials)?;
                 self.check_permission(
-- 
2.43.0


From 24a9e77d9e8fd38fc97c59f37e60604b5a9024bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:17 +0000
Subject: [PATCH 43/48] fix: check permissions for the asynchronous
 last_transaction_id

---
 crates/bonsaidb-local/src/async.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/bonsaidb-local/src/async.rs b/crates/bonsaidb-local/src/async.rs
index 9936d52..8e0f8eb 100644
--- a/crates/bonsaidb-local/src/async.rs
+++ b/crates/bonsaidb-local/src/async.rs
@@ -609,11 +609,7 @@ impl AsyncConnection for AsyncDatabase {
     }
 
     async fn last_transaction_id(&self) -> Result<Option<u64>, bonsaidb_core::Error> {
-        Ok(self
-            .database
-            .roots()
-            .transactions()
-            .current_transaction_id())
+        Connection::last_transaction_id(&self.database)
     }
 
     async fn compact(&self) -> Result<(), bonsaidb_core::Error> {
-- 
2.43.0


From ca53e36770184b2841f8f6df8fc4f5487fe66744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:13 +0000
Subject: [PATCH 44/48] fix: answer requests that contain an error instead of
 panicking

---
 crates/bonsaidb-server/src/server.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/bonsaidb-server/src/server.rs b/crates/bonsaidb-server/src/server.rs
index 5e7de76..57c021e 100644
--- a/crates/bonsaidb-server/src/server.rs
+++ b/crates/bonsaidb-server/src/server.rs
@@ -144,13 +144,17 @@ impl<B: Backend> CustomServer<B> {
                                     storage,
                                 },
                             };
-                            ServerDispatcher::dispatch_api_request(
-                                client,
-                                &request.name,
-                                request.value.unwrap(),
-                            )
-                            .await
-                            .map_err(bonsaidb_core::Error::from)
+                            match request.value {
+                                Ok(value) => ServerDispatcher::dispatch_api_request(
+                                    client,
+                                    &request.name,
+                                    value,
+                                )
+                                .await
+                                .map_err(bonsaidb_core::Error::from),
+                                // Requests aren't expected to contain an error.
+                                Err(err) => Err(err),
+                            }
                         }
                         Err(err) => Err(err),
                     };
-- 
2.43.0


From 758ef53ca7c48d6d281f960281bf6714197a6054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:08 +0000
Subject: [PATCH 45/48] fix: end the subscriptions of disconnected clients

---
 crates/bonsaidb-server/src/server/connected_client.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/bonsaidb-server/src/server/connected_client.rs b/crates/bonsaidb-server/src/server/connected_client.rs
index 9b18014..8750fef 100644
--- a/crates/bonsaidb-server/src/server/connected_client.rs
+++ b/crates/bonsaidb-server/src/server/connected_client.rs
@@ -74,6 +74,12 @@ impl<B: Backend> ConnectedClient<B> {
 
     pub(crate) fn set_disconnected(&self) {
         self.data.connected.store(false, Ordering::Relaxed);
+        // The tasks forwarding messages to this client keep it alive for as
+        // long as its subscribers exist.
+        let mut sessions = self.data.sessions.write();
+        for session in sessions.values_mut() {
+            session.subscribers.clear();
+        }
     }
 
     pub(crate) fn logged_in_as(&self, session: Session) {
@@ -137,6 +143,9 @@ impl<B: Backend> ConnectedClient<B> {
         let receiver = subscriber.receiver().clone();
         {
             let mut sessions = self.data.sessions.write();
+            if !self.connected() {
+                return;
+            }
             if let Some(client_session) = sessions.get_mut(&session_id) {
                 client_session
                     .subscribers
-- 
2.43.0


From 91f6ab509ecf2a2a36ca716139d1c9701b4dc090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:39 +0000
Subject: [PATCH 46/48] fix: report lost connections to callers and subscribers

A WebSocket connection that the server closed cleanly ended the task that
reads responses without an error: requests waited for their timeout, and the
client never connected again. Subscribers of a QUIC connection were only
told of its end when the client was created.
---
 crates/bonsaidb-client/src/client/quic_worker.rs        | 6 ++++--
 crates/bonsaidb-client/src/client/tungstenite_worker.rs | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/bonsaidb-client/src/client/quic_worker.rs b/crates/bonsaidb-client/src/client/quic_worker.rs
index 7c3dcf0..5b06577 100644
--- a/crates/bonsaidb-client/src/client/quic_worker.rs
+++ b/crates/bonsaidb-client/src/client/quic_worker.rs
@@ -32,9 +32,11 @@ pub(super) async fn reconnecting_client_loop(
         let _: Result<_, _> = server.url.set_port(Some(5645));
     }
 
-    server.subscribers.clear();
     let mut pending_error = None;
-    while let Ok(request) = request_receiver.recv_async().await {
+    while let Ok(request) = {
+        server.subscribers.clear();
+        request_receiver.recv_async().await
+    } {
         if let Some(pending_error) = pending_error.take() {
             drop(request.responder.send(Err(pending_error)));
             continue;
diff --git a/crates/bonsaidb-client/src/client/tungstenite_worker.rs b/crates/bonsaidb-client/src/client/tungstenite_worker.rs
index 7437822..93fe75b 100644
--- a/crates/bonsaidb-client/src/client/tungstenite_worker.rs
+++ b/crates/bonsaidb-client/src/client/tungstenite_worker.rs
@@ -138,5 +138,6 @@ async fn response_processor(
         }
     }
 
-    Ok(())
+    // Return an error to make sure try_join returns.
+    Err(Error::disconnected())
 }
-- 
2.43.0


From 195d1c1d332de629db230b3a694a471efa7c49c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:39 +0000
Subject: [PATCH 47/48] fix: never use the session of a lost connection

After connecting again, possibly to a server that restarted, the id of the
old session could be the one of another session of the same client: requests
were executed with the permissions of someone else.
---
 crates/bonsaidb-client/src/client.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-client/src/client.rs b/crates/bonsaidb-client/src/client.rs
index 6f4ad04..6e32f47 100644
--- a/crates/bonsaidb-client/src/client.rs
+++ b/crates/bonsaidb-client/src/client.rs
@@ -493,7 +493,13 @@ impl AsyncClient {
         let id = self.data.request_id.fetch_add(1, Ordering::SeqCst);
         self.data.request_sender.send(PendingRequest {
             request: Payload {
-                session_id: self.session.session.id,
+                // A session ends with its connection. Its id might belong to
+                // another session by now.
+                session_id: if self.session_is_current() {
+                    self.session.session.id
+                } else {
+                    None
+                },
                 id: Some(id),
                 name,
                 value: Ok(bytes),
-- 
2.43.0


From 82e546695f87dd1851fef140c1f22e1f743ac60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:06 +0000
Subject: [PATCH 48/48] fix: tell QUIC clients when the server shuts down

Clients were not told: their requests waited for the request timeout, and new
connections were still accepted (close_incoming was never awaited) but not
served. Requests being processed when a graceful shutdown began were not
answered.
---
 crates/bonsaidb-server/src/server.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/bonsaidb-server/src/server.rs b/crates/bonsaidb-server/src/server.rs
index 57c021e..1b8d164 100644
--- a/crates/bonsaidb-server/src/server.rs
+++ b/crates/bonsaidb-server/src/server.rs
@@ -403,10 +403,15 @@ impl<B: Backend> CustomServer<B> {
 
         while let Some(incoming) = tokio::select! {
             shutdown_state = shutdown_watcher.wait_for_shutdown() => {
-                drop(server.close_incoming());
+                drop(server.close_incoming().await);
                 if matches!(shutdown_state, ShutdownState::GracefulShutdown) {
-                    server.wait_idle().await;
+                    // Clients may stay connected until the shutdown is forced.
+                    tokio::select! {
+                        () = server.wait_idle() => {}
+                        _ = shutdown_watcher.wait_for_shutdown() => {}
+                    }
                 }
+                server.close().await;
                 None
             },
             msg = server.next() => msg
@@ -711,7 +716,9 @@ impl<B: Backend> CustomServer<B> {
                                 break 'stream
                             }
                             shutdown = shutdown.wait_for_shutdown() => {
-                                if matches!(shutdown, ShutdownState::Shutdown | ShutdownState::GracefulShutdown) {
+                                // During a graceful shutdown, the requests
+                                // being processed are still answered.
+                                if matches!(shutdown, ShutdownState::Shutdown) {
                                     break 'stream
                                 }
                             }
@@ -721,6 +728,8 @@ impl<B: Backend> CustomServer<B> {
                         break;
                     }
                 }
+                // Tell the client that nothing else will be answered.
+                drop(sender.finish().await);
             }
         });
 
-- 
2.43.0

