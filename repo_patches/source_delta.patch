From e3ccd838bc66aa136aea8f85c733cb515a9c5038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:58 +0000
Subject: [PATCH 01/18] verif: guarded lock delays and small initial capacities
 (cfg bitcoin_indexer_verif)

---
 src/main.rs                            |  13 ++-
 src/store/transaction_store_backend.rs |   4 +-
 src/verif.rs                           | 111 +++++++++++++++++++++++++
 3 files changed, 122 insertions(+), 6 deletions(-)
 create mode 100644 src/verif.rs

diff --git a/src/main.rs b/src/main.rs
index 6debe75..696c4db 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 pub mod address;
 pub mod base58;
 pub mod base58_check;
@@ -27,6 +29,8 @@ pub mod store;
 pub mod thread_pool;
 pub mod transaction;
 pub mod transaction_output;
+#[cfg(bitcoin_indexer_verif)]
+pub mod verif;
 
 use self::{
     address::Address,
@@ -63,10 +67,11 @@ use std::{
     sync::Arc,
     time::SystemTime,
 };
-use tokio::{
-    sync::{Mutex, RwLock},
-    time::{sleep, Duration},
-};
+#[cfg(not(bitcoin_indexer_verif))]
+use tokio::sync::{Mutex, RwLock};
+use tokio::time::{sleep, Duration};
+#[cfg(bitcoin_indexer_verif)]
+use verif::{Mutex, RwLock};
 
 fn main() {
     let configuration = Configuration::new();
diff --git a/src/store/transaction_store_backend.rs b/src/store/transaction_store_backend.rs
index 88b5bb8..bbb90fa 100644
--- a/src/store/transaction_store_backend.rs
+++ b/src/store/transaction_store_backend.rs
@@ -20,8 +20,8 @@ impl IndexedTransactionStoreBackend {
 
     pub fn large() -> Self {
         Self {
-            unspent_txo_address_map: TransactionOutputHashMap::with_capacity(100_000_000),
-            address_unspent_txos_map: AddressHashMap::with_capacity(50_000_000),
+            unspent_txo_address_map: TransactionOutputHashMap::with_capacity(if cfg!(bitcoin_indexer_verif) { 0 } else { 100_000_000 }),
+            address_unspent_txos_map: AddressHashMap::with_capacity(if cfg!(bitcoin_indexer_verif) { 0 } else { 50_000_000 }),
         }
     }
 
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..32ae30e
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,111 @@
+//! Verification instrumentation, compiled only with `--cfg bitcoin_indexer_verif`.
+//!
+//! The lock types below behave like the ones of `tokio::sync` and additionally lose time before and after an acquisition,
+//! at points where the task could be descheduled anyway. `VERIF_DELAY_MS` bounds a delay, `VERIF_DELAY_PERCENT` is its
+//! probability and `VERIF_DELAY_SEED` makes the choices; without `VERIF_DELAY_PERCENT` nothing is delayed.
+
+use std::{
+    ops::Deref,
+    sync::{
+        atomic::{AtomicU64, Ordering},
+        OnceLock,
+    },
+    time::Duration,
+};
+use tokio::sync::{MutexGuard, RwLockReadGuard, RwLockWriteGuard};
+
+struct Plan {
+    percent: u64,
+    max_us: u64,
+}
+
+static STATE: AtomicU64 = AtomicU64::new(0);
+
+fn var(name: &str) -> Option<u64> {
+    std::env::var(name).ok()?.parse().ok()
+}
+
+fn plan() -> &'static Plan {
+    static PLAN: OnceLock<Plan> = OnceLock::new();
+    PLAN.get_or_init(|| {
+        STATE.store(var("VERIF_DELAY_SEED").unwrap_or(1), Ordering::Relaxed);
+        Plan {
+            percent: var("VERIF_DELAY_PERCENT").unwrap_or(0),
+            max_us: var("VERIF_DELAY_MS").unwrap_or(2) * 1000,
+        }
+    })
+}
+
+fn random() -> u64 {
+    let mut z = STATE.fetch_add(0x9E3779B97F4A7C15, Ordering::Relaxed).wrapping_add(0x9E3779B97F4A7C15);
+    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
+    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
+    z ^ (z >> 31)
+}
+
+async fn pause() {
+    let plan = plan();
+    if plan.percent == 0 || random() % 100 >= plan.percent {
+        return;
+    }
+    match random() % 3 {
+        0 => tokio::task::yield_now().await,
+        1 => tokio::time::sleep(Duration::from_micros(random() % (plan.max_us + 1))).await,
+        _ => std::thread::sleep(Duration::from_micros(random() % (plan.max_us / 4 + 1))),
+    }
+}
+
+#[derive(Debug)]
+pub struct RwLock<T>(tokio::sync::RwLock<T>);
+
+impl<T> RwLock<T> {
+    pub fn new(value: T) -> Self {
+        Self(tokio::sync::RwLock::new(value))
+    }
+
+    pub async fn read(&self) -> RwLockReadGuard<'_, T> {
+        pause().await;
+        let guard = self.0.read().await;
+        pause().await;
+        guard
+    }
+
+    pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
+        pause().await;
+        let guard = self.0.write().await;
+        pause().await;
+        guard
+    }
+}
+
+impl<T> Deref for RwLock<T> {
+    type Target = tokio::sync::RwLock<T>;
+
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+#[derive(Debug)]
+pub struct Mutex<T>(tokio::sync::Mutex<T>);
+
+impl<T> Mutex<T> {
+    pub fn new(value: T) -> Self {
+        Self(tokio::sync::Mutex::new(value))
+    }
+
+    pub async fn lock(&self) -> MutexGuard<'_, T> {
+        pause().await;
+        let guard = self.0.lock().await;
+        pause().await;
+        guard
+    }
+}
+
+impl<T> Deref for Mutex<T> {
+    type Target = tokio::sync::Mutex<T>;
+
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
-- 
2.43.0


From 6399719794fb577a9c0e1359924d04bc58d01e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 02/18] fix: replace the store file atomically

std::fs::write truncated the previous store first: a crash or a full disk during the
write left a partial file that made every later start panic.
---
 src/store/store.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/store/store.rs b/src/store/store.rs
index 20e635d..f5117da 100644
--- a/src/store/store.rs
+++ b/src/store/store.rs
@@ -3,6 +3,7 @@ use super::{
     IntermediaryTransactionStore, IntermediaryTransactionStoreBackend, TransactionStore, TransactionStoreBackendTrait,
 };
 use crate::{Batcher, BlockHeader, BlockTrait, BufferWriter, HashingBufferReader, Logger, PartialLogger, SequentialThreadPool, TryInto};
+use std::{fs::File, io::Write};
 
 #[derive(Debug)]
 pub struct Store<T: TransactionStoreBackendTrait> {
@@ -140,7 +141,12 @@ impl IndexedStore {
         let mut writer = BufferWriter::new();
         self.to_writer(&mut writer, logger);
         logger.log("writing buffer to file...");
-        std::fs::write(path, writer.buffer()).unwrap();
+        // a crash at any point must leave either the previous or the new store, so the file is replaced only once complete
+        let temporary_path = format!("{}.tmp", path);
+        let mut file = File::create(&temporary_path).unwrap();
+        file.write_all(&writer.buffer()).unwrap();
+        file.sync_all().unwrap();
+        std::fs::rename(&temporary_path, path).unwrap();
         logger.log("writing buffer to file done!");
         logger.log("writing store to file done!");
     }
-- 
2.43.0


From 76f2ba2905a912063e374271b82c3a32ad351704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:00 +0000
Subject: [PATCH 03/18] fix: hold the mutex while the store is being written

`let _ =` released it at once. A block promoted during a write blocked every query until
the write was over, and an update that met the mutex handed over to the writer did not
promote blocks and then failed the length assertion, which the longer tail violates.
---
 src/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index af43455..bd304fc 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -53,7 +53,7 @@ impl State {
             } else {
                 tail_blocks.augmentations(&store)
             };
-            assert!(augmentations.len() == self.confirmations);
+            assert!(augmentations.len() >= self.confirmations);
             Update::AugmentationsUpdate(augmentations, blocks)
         } else {
             Update::LastAugmentationUpdate(tail_blocks.last_augmentation(&store))
@@ -164,7 +164,7 @@ impl State {
     }
 
     pub async fn write(&self, file: &str) {
-        let _ = self.mutex.lock().await;
+        let _guard = self.mutex.lock().await;
         let store = self.store.read().await;
         let logger = Logger::new();
         store.to_file(file, &logger);
-- 
2.43.0


From 60bed391da8e4ff41894ed74267f1c0069f867c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:02 +0000
Subject: [PATCH 04/18] fix: start when the node has no block beyond the store

With CONFIRMATIONS=1 the first update usually finds no new block and indexed into the
still empty list of augmentations.
---
 src/state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index bd304fc..acc0c2b 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -35,10 +35,11 @@ impl State {
     }
 
     async fn compute_update(&self, update_store: bool, logger: &Logger) -> Update {
+        let first_update = self.augmentations.read().await.is_empty();
         let store = self.store.read().await;
         let mut tail_blocks = self.tail_blocks.lock().await;
         tail_blocks.update_mempool(&self.client, logger).await;
-        if tail_blocks.update_blocks(&store, &self.client, logger).await {
+        if tail_blocks.update_blocks(&store, &self.client, logger).await || first_update {
             let blocks = if update_store {
                 tail_blocks.pop(self.confirmations)
             } else {
-- 
2.43.0


From 8b884258d7c023c1c4a74f891e1a345fb489732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:03 +0000
Subject: [PATCH 05/18] fix: ignore repeated copies of a block in the block
 files

Each repeated block doubled the number of heads followed by the longest chain search, so
a few dozen of them (as left by an unclean node shutdown) never finished.
---
 src/block_file_reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/block_file_reader.rs b/src/block_file_reader.rs
index e390488..fd22182 100644
--- a/src/block_file_reader.rs
+++ b/src/block_file_reader.rs
@@ -61,6 +61,9 @@ impl BlockFileReader {
         let mut hashmap = HashMap::with_capacity(blocks.len());
         let mut reverse_hashmap = HashMap::with_capacity(blocks.len());
         for block in blocks {
+            if hashmap.contains_key(&block.hash()) {
+                continue;
+            }
             match reverse_hashmap.get_mut(&block.previous_block_hash()) {
                 None => {
                     reverse_hashmap.insert(block.previous_block_hash(), vec![block.hash()]);
-- 
2.43.0


From dab9fa8a8567135e53deb6b0ad36c638af3921af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:04 +0000
Subject: [PATCH 06/18] fix: accept less than 88 bytes of zero padding at the
 end of a block file

---
 src/block_file_reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/block_file_reader.rs b/src/block_file_reader.rs
index fd22182..fa26d37 100644
--- a/src/block_file_reader.rs
+++ b/src/block_file_reader.rs
@@ -118,6 +118,9 @@ impl BlockFileReader {
             if bytes == 0 {
                 break;
             }
+            if bytes < 88 && buffer[..bytes].iter().all(|&byte| byte == 0) {
+                break;
+            }
             assert!(bytes == 88);
             let mut reader = HashingBufferReader::new(&buffer);
             let magic = reader.read_u32_le(&mut None);
-- 
2.43.0


From 66495a97cc16643ae220df90d9c1c2388d78ee26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:29 +0000
Subject: [PATCH 07/18] fix: do not let the query string override path
 parameters

/addresses/A/balance?address=B answered for B.
---
 src/server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 4fe8f7c..bc4637a 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -129,7 +129,8 @@ impl<S> Router<S> {
     pub async fn route(&self, request: Request<Body>, body: Vec<u8>) -> Response<Body> {
         println!("{} {}", request.method(), request.uri());
         for route in &self.routes {
-            if let Some(mut parameters) = route.check(&request) {
+            if let Some(path_parameters) = route.check(&request) {
+                let mut parameters = HashMap::new();
                 if let Some(query) = request.uri().query() {
                     for part in query.split('&') {
                         let parts: Vec<&str> = part.split('=').collect();
@@ -138,6 +139,7 @@ impl<S> Router<S> {
                         }
                     }
                 }
+                parameters.extend(path_parameters);
                 return (route.handler)(request, parameters, body, self.state.clone()).await;
             }
         }
-- 
2.43.0


From 545da11b5ad824dec872b0fecee28e7a46c70424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:30 +0000
Subject: [PATCH 08/18] fix: base58::encode_into must not read beyond what it
 has written

With a larger output buffer holding values of 58 or more it panicked, and it overwrote the
rest of the buffer.
---
 src/base58/encode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base58/encode.rs b/src/base58/encode.rs
index b1ffedd..220cad7 100644
--- a/src/base58/encode.rs
+++ b/src/base58/encode.rs
@@ -49,7 +49,7 @@ impl<'a> Encoder<'a> {
             *output.get_mut(index).ok_or(Error::BufferTooSmall)? = 0;
             index += 1;
         }
-        for value in &mut output[..] {
+        for value in &mut output[..index] {
             *value = self.alphabet.encode(*value as usize);
         }
         output[0..index].reverse();
-- 
2.43.0


From 5dd378a56b996df50146a1ed6ec11e83b3a37c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:31 +0000
Subject: [PATCH 09/18] fix: refuse a zero BATCH_SIZE or CONFIRMATIONS

A zero BATCH_SIZE queued empty batches until memory ran out; a zero CONFIRMATIONS wrote a
store containing the tip and then panicked on every update.
---
 src/configuration.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index 3126388..56487e7 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -1,4 +1,4 @@
-use std::{env, error, net::IpAddr};
+use std::{env, error, net::IpAddr, num::NonZeroUsize};
 
 #[derive(Debug, Clone)]
 pub struct Configuration {
@@ -35,11 +35,11 @@ impl Configuration {
         let host = var_map("HOST", |host| host.parse(), Some("127.0.0.1".parse().unwrap())).unwrap();
         let port = var_map("PORT", |port| port.parse(), Some(8000)).unwrap();
         let threads = var_map("THREADS", |threads| threads.parse(), None).unwrap();
-        let batch_size = var_map("BATCH_SIZE", |threads| threads.parse(), None).unwrap();
+        let batch_size = var_map("BATCH_SIZE", |batch_size| batch_size.parse().map(NonZeroUsize::get), None).unwrap();
         let store_file_path = var("STORE_FILE_PATH", None).unwrap();
         let block_files_path = var("BLOCK_FILES_PATH", None).unwrap();
         let update_interval = var_map("UPDATE_INTERVAL", |interval| interval.parse(), Some(1000)).unwrap();
-        let confirmations = var_map("CONFIRMATIONS", |confirmations| confirmations.parse(), Some(6)).unwrap();
+        let confirmations = var_map("CONFIRMATIONS", |confirmations| confirmations.parse().map(NonZeroUsize::get), Some(6)).unwrap();
         let rpc_server_host = var("RPC_SERVER_HOST", None).unwrap();
         let rpc_server_port = var_map("RPC_SERVER_PORT", |port| port.parse(), None).unwrap();
         let rpc_server_user = var("RPC_SERVER_USER", None).unwrap();
-- 
2.43.0


From 9e361dc61e86bda0c8858ad8616a26e6f097aa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:32 +0000
Subject: [PATCH 10/18] fix: report excess bits in base64 input as an error
 instead of panicking

---
 src/base_binary/decode.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/base_binary/decode.rs b/src/base_binary/decode.rs
index abf55a3..2968835 100644
--- a/src/base_binary/decode.rs
+++ b/src/base_binary/decode.rs
@@ -46,11 +46,13 @@ impl<'a, const N: usize> Decoder<'a, N> {
         let mut accumulator: usize = 0;
         let mut bits: usize = 0;
         let mut output_index = 0;
+        let mut last = (0, 0);
         for (input_index, &value) in input.as_ref().iter().enumerate() {
             if value == 0x3d {
                 continue;
             }
             let byte = self.alphabet.decode(value, input_index)?;
+            last = (value, input_index);
             accumulator = (accumulator << self.bits) | (byte as usize);
             bits += self.bits;
             while bits >= 8 {
@@ -60,7 +62,12 @@ impl<'a, const N: usize> Decoder<'a, N> {
                 accumulator = accumulator & ((1 << bits) - 1);
             }
         }
-        assert!(accumulator == 0);
+        if accumulator != 0 {
+            return Err(Error::InvalidCharacter {
+                character: last.0 as char,
+                index: last.1,
+            });
+        }
         Ok(output_index)
     }
 
-- 
2.43.0


From f0b6bebc7de3deb7b481c042802012522db878fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:47 +0000
Subject: [PATCH 11/18] fix: ignore files without a UTF-8 name in the block
 directory

---
 src/block_file_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block_file_reader.rs b/src/block_file_reader.rs
index fa26d37..3743b08 100644
--- a/src/block_file_reader.rs
+++ b/src/block_file_reader.rs
@@ -49,7 +49,7 @@ impl BlockFileReader {
         let regex = Regex::new(r"^blk[0-9]{5}\.dat$").unwrap();
         let mut file_names: Vec<_> = read_dir(&self.path)
             .expect(&format!("Could not list files of directory {}", &self.path))
-            .map(|entry| entry.unwrap().file_name().into_string().unwrap())
+            .filter_map(|entry| entry.unwrap().file_name().into_string().ok())
             .filter(|file_name| regex.is_match(file_name))
             .collect();
         file_names.sort();
-- 
2.43.0


From 0434c42af18ae06ba446f987b1bd4e636c912659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:47 +0000
Subject: [PATCH 12/18] fix: do not drop a query parameter whose value contains
 an equals sign

---
 src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index bc4637a..12df335 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -133,7 +133,7 @@ impl<S> Router<S> {
                 let mut parameters = HashMap::new();
                 if let Some(query) = request.uri().query() {
                     for part in query.split('&') {
-                        let parts: Vec<&str> = part.split('=').collect();
+                        let parts: Vec<&str> = part.splitn(2, '=').collect();
                         if parts.len() == 2 {
                             parameters.insert(parts[0].to_string(), parts[1].to_string());
                         }
-- 
2.43.0


From b64241eeb77cea0fb2f54a8b8cf0e7a39d35996f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:20 +0000
Subject: [PATCH 13/18] fix: do not mistake the outputs left by a panicked
 worker thread for the complete result

---
 src/thread_pool.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/thread_pool.rs b/src/thread_pool.rs
index bd02761..d9b464b 100644
--- a/src/thread_pool.rs
+++ b/src/thread_pool.rs
@@ -3,11 +3,12 @@ use std::{
         mpsc::{channel, Receiver},
         Arc, Mutex,
     },
-    thread::spawn,
+    thread::{spawn, JoinHandle},
 };
 
 pub struct ThreadPool<Output> {
     output_receiver: Receiver<Output>,
+    handles: Vec<JoinHandle<()>>,
 }
 
 impl<Output> ThreadPool<Output>
@@ -24,11 +25,12 @@ where
         let (output_sender, output_receiver) = channel();
 
         let process_fn = Arc::new(process_fn);
+        let mut handles = Vec::with_capacity(threads);
         for _ in 0..threads {
             let input_receiver = input_receiver.clone();
             let output_sender = output_sender.clone();
             let process_fn = process_fn.clone();
-            spawn(move || loop {
+            handles.push(spawn(move || loop {
                 let input = input_receiver.lock().unwrap().recv();
                 match input {
                     Ok(input) => {
@@ -39,12 +41,12 @@ where
                         break;
                     }
                 }
-            });
+            }));
         }
         for input in inputs {
             input_sender.send(input).unwrap()
         }
-        Self { output_receiver }
+        Self { output_receiver, handles }
     }
 }
 
@@ -52,6 +54,15 @@ impl<Output> Iterator for ThreadPool<Output> {
     type Item = Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.output_receiver.recv().ok()
+        match self.output_receiver.recv() {
+            Ok(output) => Some(output),
+            Err(_) => {
+                // a worker that panicked has lost its item, the outputs of the others must not pass for the complete result
+                for handle in self.handles.drain(..) {
+                    handle.join().unwrap();
+                }
+                None
+            }
+        }
     }
 }
-- 
2.43.0


From 0519ab7c3ace5848e0cc4e38df1419d9c0b29806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:11 +0000
Subject: [PATCH 14/18] fix: refuse a mempool listing with too short a hash
 instead of padding it

---
 src/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 32f56a3..cb19a8d 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -76,7 +76,7 @@ impl Client {
             .iter()
             .map(|hash| {
                 let mut result = [0u8; 32];
-                reverse_hex::decode_into(hash, &mut result).unwrap();
+                assert_eq!(reverse_hex::decode_into(hash, &mut result).unwrap(), result.len());
                 result
             })
             .collect()
-- 
2.43.0


From 61180430b603afb8a36f5d8224e30549a7272a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:54 +0000
Subject: [PATCH 15/18] fix: refuse an optional setting that is not valid
 Unicode instead of using its default

---
 src/configuration.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index 56487e7..2417257 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -1,4 +1,9 @@
-use std::{env, error, net::IpAddr, num::NonZeroUsize};
+use std::{
+    env::{self, VarError},
+    error,
+    net::IpAddr,
+    num::NonZeroUsize,
+};
 
 #[derive(Debug, Clone)]
 pub struct Configuration {
@@ -19,14 +24,16 @@ pub struct Configuration {
 fn var(key: &str, default: Option<String>) -> Result<String, String> {
     match env::var(key) {
         Ok(value) => Ok(value),
-        Err(_) => default.ok_or(format!("Missing {}", key)),
+        Err(VarError::NotPresent) => default.ok_or(format!("Missing {}", key)),
+        Err(VarError::NotUnicode(value)) => Err(format!("Invalid {} {:?}", key, value)),
     }
 }
 
 fn var_map<T, E: error::Error>(key: &str, mut f: impl FnMut(&str) -> Result<T, E>, default: Option<T>) -> Result<T, String> {
-    match var(key, None) {
+    match env::var(key) {
         Ok(value) => f(&value).map_err(|_| format!("Invalid {} {}", key, value)),
-        Err(err) => default.ok_or(err),
+        Err(VarError::NotPresent) => default.ok_or(format!("Missing {}", key)),
+        Err(VarError::NotUnicode(value)) => Err(format!("Invalid {} {:?}", key, value)),
     }
 }
 
-- 
2.43.0


From 209a4315e22d223c89a9e39950556abb6b703e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:32 +0000
Subject: [PATCH 16/18] fix: do not stop at once when UPDATE_INTERVAL is close
 to the maximum

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 696c4db..800d23b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -114,7 +114,8 @@ fn main() {
         let configuration = configuration.clone();
         |state| async move {
             loop {
-                sleep(Duration::from_millis(configuration.update_interval())).await;
+                // the timer panics on values close to the maximum
+                sleep(Duration::from_millis(configuration.update_interval().min(u64::MAX / 2))).await;
                 if state.update().await {
                     tx.send(()).await.unwrap();
                 }
-- 
2.43.0


From b734c01c22d9b2fb3ddaa7ab6419abc418503912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:12 +0000
Subject: [PATCH 17/18] fix: survive the wall clock being set back while a
 duration is measured

---
 src/chronometer.rs | 8 ++++----
 src/main.rs        | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/chronometer.rs b/src/chronometer.rs
index aaeee76..de0083b 100644
--- a/src/chronometer.rs
+++ b/src/chronometer.rs
@@ -1,17 +1,17 @@
-use crate::SystemTime;
+use crate::Instant;
 
 #[derive(Clone, Copy)]
 pub struct Chronometer {
-    start: SystemTime,
+    start: Instant,
 }
 
 impl Chronometer {
     pub fn new() -> Self {
-        Self { start: SystemTime::now() }
+        Self { start: Instant::now() }
     }
 
     pub fn elapsed(&self) -> String {
-        let elapsed = SystemTime::now().duration_since(self.start).unwrap().as_millis();
+        let elapsed = self.start.elapsed().as_millis();
         format!("{:02}:{:02}.{:03}", elapsed / 60000, (elapsed % 60000) / 1000, elapsed % 1000)
     }
 }
diff --git a/src/main.rs b/src/main.rs
index 800d23b..9e01cf3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -65,7 +65,7 @@ use std::{
     convert::TryInto,
     net::SocketAddr,
     sync::Arc,
-    time::SystemTime,
+    time::Instant,
 };
 #[cfg(not(bitcoin_indexer_verif))]
 use tokio::sync::{Mutex, RwLock};
-- 
2.43.0


From 187ff470de86f015b3a74f1f5ae8ce61482b3bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:30 +0000
Subject: [PATCH 18/18] fix: answer clients that close their side of the
 connection after a request

---
 src/server.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 12df335..698e02b 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -203,7 +203,8 @@ impl<S: 'static + Send + Sync> Server<S> {
                 }))
             }
         });
-        let server = hyper::Server::bind(&address);
+        // a client that has sent its request may already have closed its side of the connection
+        let server = hyper::Server::bind(&address).http1_half_close(true);
         server.serve(make_service).await.unwrap();
     }
 }
-- 
2.43.0

