From 7cc5c27b3178cdbda9acffe44d12977a115f9c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:36 +0000
Subject: [PATCH 01/15] fix: hold the save mutex while the store is written

`let _ =` dropped the guard at once, so an update running during a save
folded blocks and waited for the save with the overlays locked
exclusively, blocking every query. While a save holds the mutex the tail
is not folded and may be longer than the configured confirmations.
---
 src/state.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index af43455..dfe7886 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -53,7 +53,11 @@ impl State {
             } else {
                 tail_blocks.augmentations(&store)
             };
-            assert!(augmentations.len() == self.confirmations);
+            if update_store {
+                assert!(augmentations.len() == self.confirmations);
+            } else {
+                assert!(augmentations.len() >= self.confirmations);
+            }
             Update::AugmentationsUpdate(augmentations, blocks)
         } else {
             Update::LastAugmentationUpdate(tail_blocks.last_augmentation(&store))
@@ -164,7 +168,7 @@ impl State {
     }
 
     pub async fn write(&self, file: &str) {
-        let _ = self.mutex.lock().await;
+        let _guard = self.mutex.lock().await;
         let store = self.store.read().await;
         let logger = Logger::new();
         store.to_file(file, &logger);
-- 
2.43.0


From df0ae59b29dcc88c13b76e1f6fdca74677f7e37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:37 +0000
Subject: [PATCH 02/15] fix: compute all overlays on the first update even
 without new blocks

With CONFIRMATIONS=1 and an up-to-date index the first update tried to
replace the last of zero overlays and panicked.
---
 src/state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index dfe7886..79bbe52 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -35,10 +35,11 @@ impl State {
     }
 
     async fn compute_update(&self, update_store: bool, logger: &Logger) -> Update {
+        let initialized = !self.augmentations.read().await.is_empty();
         let store = self.store.read().await;
         let mut tail_blocks = self.tail_blocks.lock().await;
         tail_blocks.update_mempool(&self.client, logger).await;
-        if tail_blocks.update_blocks(&store, &self.client, logger).await {
+        if tail_blocks.update_blocks(&store, &self.client, logger).await || !initialized {
             let blocks = if update_store {
                 tail_blocks.pop(self.confirmations)
             } else {
-- 
2.43.0


From 35b2625e48311a3516df458e75027a07232b037f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 03/15] fix: replace the store file atomically

Writing in place truncates the previously saved store first, so a crash
or a full disk during a save destroyed it.
---
 src/store/store.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/store/store.rs b/src/store/store.rs
index 20e635d..e609585 100644
--- a/src/store/store.rs
+++ b/src/store/store.rs
@@ -3,6 +3,7 @@ use super::{
     IntermediaryTransactionStore, IntermediaryTransactionStoreBackend, TransactionStore, TransactionStoreBackendTrait,
 };
 use crate::{Batcher, BlockHeader, BlockTrait, BufferWriter, HashingBufferReader, Logger, PartialLogger, SequentialThreadPool, TryInto};
+use std::{fs::File, io::Write};
 
 #[derive(Debug)]
 pub struct Store<T: TransactionStoreBackendTrait> {
@@ -140,7 +141,12 @@ impl IndexedStore {
         let mut writer = BufferWriter::new();
         self.to_writer(&mut writer, logger);
         logger.log("writing buffer to file...");
-        std::fs::write(path, writer.buffer()).unwrap();
+        let temporary_path = format!("{}.tmp", path);
+        let mut file = File::create(&temporary_path).unwrap();
+        file.write_all(&writer.buffer()).unwrap();
+        file.sync_all().unwrap();
+        drop(file);
+        std::fs::rename(&temporary_path, path).unwrap();
         logger.log("writing buffer to file done!");
         logger.log("writing store to file done!");
     }
-- 
2.43.0


From 1d4a1cf50b63e18fe2bd9c68358d97581b732151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:00 +0000
Subject: [PATCH 04/15] fix: do not let query parameters override path
 parameters

/addresses/A/balance?address=B was answered with the balance of B.
---
 src/server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 4fe8f7c..bc4637a 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -129,7 +129,8 @@ impl<S> Router<S> {
     pub async fn route(&self, request: Request<Body>, body: Vec<u8>) -> Response<Body> {
         println!("{} {}", request.method(), request.uri());
         for route in &self.routes {
-            if let Some(mut parameters) = route.check(&request) {
+            if let Some(path_parameters) = route.check(&request) {
+                let mut parameters = HashMap::new();
                 if let Some(query) = request.uri().query() {
                     for part in query.split('&') {
                         let parts: Vec<&str> = part.split('=').collect();
@@ -138,6 +139,7 @@ impl<S> Router<S> {
                         }
                     }
                 }
+                parameters.extend(path_parameters);
                 return (route.handler)(request, parameters, body, self.state.clone()).await;
             }
         }
-- 
2.43.0


From 567f1373db30619da760ac390b58007b889f14d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 05/15] fix: base58 encode_into must not touch the rest of the
 output buffer

Bytes behind the encoded text were mapped through the alphabet too, which
overwrote them or panicked for values of 58 and above.
---
 src/base58/encode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base58/encode.rs b/src/base58/encode.rs
index b1ffedd..220cad7 100644
--- a/src/base58/encode.rs
+++ b/src/base58/encode.rs
@@ -49,7 +49,7 @@ impl<'a> Encoder<'a> {
             *output.get_mut(index).ok_or(Error::BufferTooSmall)? = 0;
             index += 1;
         }
-        for value in &mut output[..] {
+        for value in &mut output[..index] {
             *value = self.alphabet.encode(*value as usize);
         }
         output[0..index].reverse();
-- 
2.43.0


From 065aacd50298bce56eb7807bfecb7ab5ee95d867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 06/15] fix: accept zero padding shorter than a record at the
 end of a block file

A file ending in 1 to 87 padding bytes made the scan panic.
---
 src/block_file_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block_file_reader.rs b/src/block_file_reader.rs
index e390488..097a07b 100644
--- a/src/block_file_reader.rs
+++ b/src/block_file_reader.rs
@@ -112,7 +112,7 @@ impl BlockFileReader {
         let mut blocks = Vec::new();
         loop {
             let bytes = file.read(&mut buffer).unwrap();
-            if bytes == 0 {
+            if bytes < buffer.len() && buffer[..bytes].iter().all(|byte| *byte == 0) {
                 break;
             }
             assert!(bytes == 88);
-- 
2.43.0


From 44562311afb27a38d4b1e0e704ec30de4ee6701d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 07/15] fix: consider a block stored twice in the block files
 only once

Every duplicate on the chain doubled the number of chain heads tracked
from there on.
---
 src/block_file_reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/block_file_reader.rs b/src/block_file_reader.rs
index 097a07b..b5dfbc8 100644
--- a/src/block_file_reader.rs
+++ b/src/block_file_reader.rs
@@ -61,6 +61,9 @@ impl BlockFileReader {
         let mut hashmap = HashMap::with_capacity(blocks.len());
         let mut reverse_hashmap = HashMap::with_capacity(blocks.len());
         for block in blocks {
+            if hashmap.contains_key(&block.hash()) {
+                continue;
+            }
             match reverse_hashmap.get_mut(&block.previous_block_hash()) {
                 None => {
                     reverse_hashmap.insert(block.previous_block_hash(), vec![block.hash()]);
-- 
2.43.0


From 622a23ad946a0b2afaf3b042e78da5a790bc1862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:04 +0000
Subject: [PATCH 08/15] fix: do not save in a loop once the update task is gone

recv() returns None immediately after the sender is dropped, so the save
loop kept saving without any block having been folded.
---
 src/main.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 6debe75..552cf1c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -120,8 +120,7 @@ fn main() {
     executor.spawn_runtime(state.clone(), {
         let configuration = configuration.clone();
         |state| async move {
-            loop {
-                rx.recv().await;
+            while let Some(()) = rx.recv().await {
                 state.write(configuration.store_file_path()).await;
             }
         }
-- 
2.43.0


From 4b7ac6fb2235bf49c7633bc7e896223a4e0b0b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 09/15] fix: refuse to build from a chain shorter than the
 confirmations

In release builds the subtraction wrapped around, and the truncation then
kept every block, indexing unconfirmed ones permanently.
---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 552cf1c..af14d95 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -77,7 +77,11 @@ fn main() {
         None => {
             let reader = BlockFileReader::new(configuration.block_files_path());
             let mut blocks = reader.blocks(configuration.threads(), &logger);
-            blocks.truncate(blocks.len() - configuration.confirmations() + 1);
+            let confirmed = blocks
+                .len()
+                .checked_sub(configuration.confirmations())
+                .expect("Not enough blocks for the configured confirmations");
+            blocks.truncate(confirmed + 1);
             let store = IndexedStore::from_blocks(blocks, configuration.threads(), configuration.batch_size(), logger);
             store.to_file(configuration.store_file_path(), &logger);
             store
-- 
2.43.0


From ac760e3a5e1dfa7370ce095c49bd708fdaabe963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:17 +0000
Subject: [PATCH 10/15] fix: deliver a failure to start a task's runtime or
 thread to the main thread

---
 src/executor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/executor.rs b/src/executor.rs
index 22c85d1..4f3677e 100644
--- a/src/executor.rs
+++ b/src/executor.rs
@@ -23,9 +23,9 @@ impl Executor {
         State: 'static + Send + Sync,
     {
         let sender = self.sender.clone();
+        let task = spawn(move || Runtime::new().unwrap().block_on(f(state)));
         spawn(move || {
-            let runtime = Runtime::new().unwrap();
-            let result = spawn(move || runtime.block_on(f(state))).join();
+            let result = task.join();
             #[allow(unused_must_use)]
             {
                 sender.send(result);
-- 
2.43.0


From 1c1ac716ff9472b2f9790cfd2989e177d48d76cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:01 +0000
Subject: [PATCH 11/15] fix: save the index when the initial update folded
 blocks into it

---
 src/main.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index af14d95..8cf3533 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -97,18 +97,23 @@ fn main() {
 
     let state = Arc::new(State::new(store, client, configuration.confirmations()));
 
+    let (tx, mut rx) = tokio::sync::mpsc::channel(256);
+
     let mut executor = Executor::new();
 
-    executor.spawn_runtime(state.clone(), |state| async move {
-        state.update().await;
+    executor.spawn_runtime(state.clone(), {
+        let tx = tx.clone();
+        |state| async move {
+            if state.update().await {
+                tx.send(()).await.unwrap();
+            }
+        }
     });
 
     executor.join();
 
     let mut executor = Executor::new();
 
-    let (tx, mut rx) = tokio::sync::mpsc::channel(256);
-
     executor.spawn_runtime(state.clone(), {
         let configuration = configuration.clone();
         |state| async move {
-- 
2.43.0


From 2f54895499c578a595db13b693d5533b96ee6645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:38 +0000
Subject: [PATCH 12/15] fix: stop on a mempool transaction hash that is not 32
 bytes long

---
 src/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 32f56a3..278d386 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -76,7 +76,7 @@ impl Client {
             .iter()
             .map(|hash| {
                 let mut result = [0u8; 32];
-                reverse_hex::decode_into(hash, &mut result).unwrap();
+                assert_eq!(reverse_hex::decode_into(hash, &mut result).unwrap(), 32);
                 result
             })
             .collect()
-- 
2.43.0


From 77f96c16dd5ca19fa6fda8c193c5b54f7ffa5d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:11 +0000
Subject: [PATCH 13/15] fix: fail when a worker thread fails instead of
 dropping its result

---
 src/thread_pool.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/thread_pool.rs b/src/thread_pool.rs
index bd02761..e27f69a 100644
--- a/src/thread_pool.rs
+++ b/src/thread_pool.rs
@@ -1,13 +1,15 @@
 use std::{
+    panic::resume_unwind,
     sync::{
         mpsc::{channel, Receiver},
         Arc, Mutex,
     },
-    thread::spawn,
+    thread::{spawn, JoinHandle},
 };
 
 pub struct ThreadPool<Output> {
     output_receiver: Receiver<Output>,
+    workers: Vec<JoinHandle<()>>,
 }
 
 impl<Output> ThreadPool<Output>
@@ -24,11 +26,12 @@ where
         let (output_sender, output_receiver) = channel();
 
         let process_fn = Arc::new(process_fn);
+        let mut workers = Vec::with_capacity(threads);
         for _ in 0..threads {
             let input_receiver = input_receiver.clone();
             let output_sender = output_sender.clone();
             let process_fn = process_fn.clone();
-            spawn(move || loop {
+            workers.push(spawn(move || loop {
                 let input = input_receiver.lock().unwrap().recv();
                 match input {
                     Ok(input) => {
@@ -39,12 +42,12 @@ where
                         break;
                     }
                 }
-            });
+            }));
         }
         for input in inputs {
             input_sender.send(input).unwrap()
         }
-        Self { output_receiver }
+        Self { output_receiver, workers }
     }
 }
 
@@ -52,6 +55,16 @@ impl<Output> Iterator for ThreadPool<Output> {
     type Item = Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.output_receiver.recv().ok()
+        match self.output_receiver.recv() {
+            Ok(output) => Some(output),
+            Err(_) => {
+                for worker in self.workers.drain(..) {
+                    if let Err(panic) = worker.join() {
+                        resume_unwind(panic);
+                    }
+                }
+                None
+            }
+        }
     }
 }
-- 
2.43.0


From dab81899871a6109a038912b4abab6d7d81a47ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 14/15] fix: logging does not fail when the system clock is set
 back

---
 src/chronometer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chronometer.rs b/src/chronometer.rs
index aaeee76..e14896d 100644
--- a/src/chronometer.rs
+++ b/src/chronometer.rs
@@ -11,7 +11,7 @@ impl Chronometer {
     }
 
     pub fn elapsed(&self) -> String {
-        let elapsed = SystemTime::now().duration_since(self.start).unwrap().as_millis();
+        let elapsed = SystemTime::now().duration_since(self.start).unwrap_or_default().as_millis();
         format!("{:02}:{:02}.{:03}", elapsed / 60000, (elapsed % 60000) / 1000, elapsed % 1000)
     }
 }
-- 
2.43.0


From be258eda7a909f114587adb8e40dfb5a98fd32a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 15/15] fix: a batch size of zero is refused instead of
 batching forever

---
 src/batcher.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/batcher.rs b/src/batcher.rs
index 84b36d3..993b4cd 100644
--- a/src/batcher.rs
+++ b/src/batcher.rs
@@ -6,6 +6,7 @@ pub struct Batcher<T: Clone> {
 
 impl<T: Clone> Batcher<T> {
     pub fn new(items: Vec<T>, size: usize) -> Self {
+        assert!(size > 0, "The batch size must not be zero");
         Self { items, size, offset: 0 }
     }
 }
-- 
2.43.0

