From c65012db2f40312ab6f704388d59c342241e62bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:04 +0000
Subject: [PATCH 01/25] hooks: cfg(verif_hooks) access for the verification
 harness

---
 tsfile-writer/src/lib.rs                   |  2 ++
 tsfile-writer/src/sync/mod.rs              | 36 ++++++++++++++++++++++
 tsfile-writer/src/sync/sync_sender.rs      | 22 +++++++++++++
 tsfile-writer/src/writer/mod.rs            | 13 ++++++++
 tsfile-writer/src/writer/ts_file_config.rs | 11 +++++++
 tsfile-writer/src/writer/tsfile_writer.rs  | 17 ++++++++++
 6 files changed, 101 insertions(+)

diff --git a/tsfile-writer/src/lib.rs b/tsfile-writer/src/lib.rs
index ab85dcf..626c6c9 100644
--- a/tsfile-writer/src/lib.rs
+++ b/tsfile-writer/src/lib.rs
@@ -80,6 +80,8 @@
 //! writer.write("d2", "s1", 1, IoTDBValue::LONG(14));
 //! writer.write("d2", "s2", 1, IoTDBValue::FLOAT(14.0 as f32));
 //! ```
+#![allow(unexpected_cfgs)] // verif_hooks
+
 #[cfg(feature = "sync_sender")]
 pub mod sync;
 pub mod writer;
diff --git a/tsfile-writer/src/sync/mod.rs b/tsfile-writer/src/sync/mod.rs
index 1daaf15..822ca94 100644
--- a/tsfile-writer/src/sync/mod.rs
+++ b/tsfile-writer/src/sync/mod.rs
@@ -8,3 +8,39 @@ mod mlog;
 #[allow(clippy::module_inception)] // is not exported
 mod sync;
 pub mod sync_sender;
+
+/// Access for the external verification harness, only with `--cfg verif_hooks`.
+#[cfg(verif_hooks)]
+pub mod verif {
+    pub use super::sync::*;
+
+    pub struct VerifMLog(super::mlog::MLog);
+
+    impl VerifMLog {
+        #[allow(clippy::new_without_default)]
+        pub fn new() -> VerifMLog {
+            VerifMLog(super::mlog::MLog::new())
+        }
+
+        pub fn create_plan(
+            &mut self,
+            path: &str,
+            data_type: crate::writer::TSDataType,
+            encoding: crate::writer::encoding::TSEncoding,
+            compression: crate::writer::compression::CompressionType,
+        ) -> Result<(), crate::writer::errors::TsFileError> {
+            self.0.create_plan(path, data_type, encoding, compression)
+        }
+
+        pub fn set_storage_group_plan(
+            &mut self,
+            path: &str,
+        ) -> Result<(), crate::writer::errors::TsFileError> {
+            self.0.set_storage_group_plan(path)
+        }
+
+        pub fn flush(&mut self, writer: &mut dyn std::io::Write) -> Result<usize, std::io::Error> {
+            self.0.flush(writer)
+        }
+    }
+}
diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index 8224cda..8535b8d 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -240,6 +240,28 @@ impl
     }
 }
 
+/// Access for the external verification harness, only with `--cfg verif_hooks`.
+#[cfg(verif_hooks)]
+impl
+    SyncSender<
+        TBinaryInputProtocol<TFramedReadTransport<ReadHalf<TTcpChannel>>>,
+        TBinaryOutputProtocol<TFramedWriteTransport<WriteHalf<TTcpChannel>>>,
+    >
+{
+    pub fn verif_sync(
+        &mut self,
+        filename: &str,
+        storage_group: &str,
+        schema: Schema,
+    ) -> Result<(), SyncSenderError> {
+        self.sync(filename, storage_group, schema)
+    }
+
+    pub fn verif_write_mlog(storage_group: &str, schema: Schema) -> Result<Vec<u8>, TsFileError> {
+        Self::write_mlog(storage_group, schema)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::sync::sync_sender::SyncSender;
diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index d047714..e4cde30 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -1806,3 +1806,16 @@ mod tests {
 
 pub const ONLY_ONE_PAGE_CHUNK_HEADER: u8 = 5;
 pub const CHUNK_HEADER: u8 = 1;
+
+/// Access for the external verification harness, only with `--cfg verif_hooks`.
+#[cfg(verif_hooks)]
+pub mod verif {
+    pub use crate::writer::utils::{
+        read_var_u32, size_var_i32, size_var_u32, write_var_i32, write_var_u32,
+    };
+
+    /// The wrapper used for files, around any sink
+    pub fn wrap<T: std::io::Write>(sink: T) -> crate::writer::WriteWrapper<T> {
+        crate::writer::WriteWrapper::new(sink)
+    }
+}
diff --git a/tsfile-writer/src/writer/ts_file_config.rs b/tsfile-writer/src/writer/ts_file_config.rs
index 2889385..224615c 100644
--- a/tsfile-writer/src/writer/ts_file_config.rs
+++ b/tsfile-writer/src/writer/ts_file_config.rs
@@ -22,3 +22,14 @@ impl Default for TsFileConfig {
         }
     }
 }
+
+/// Access for the external verification harness, only with `--cfg verif_hooks`.
+#[cfg(verif_hooks)]
+impl TsFileConfig {
+    pub fn verif_with_degree(max_degree_of_index_node: usize) -> TsFileConfig {
+        TsFileConfig {
+            max_degree_of_index_node,
+            ..Default::default()
+        }
+    }
+}
diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index dc2a561..6fe0e1e 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -346,3 +346,20 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         })
     }
 }
+
+/// Access for the external verification harness, only with `--cfg verif_hooks`.
+#[cfg(verif_hooks)]
+impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
+    pub fn verif_from_writer(
+        schema: Schema<'a>,
+        sink: T,
+        config: TsFileConfig,
+    ) -> Result<TsFileWriter<'a, T>, TsFileError> {
+        TsFileWriter::new_from_writer(schema, sink, config)
+    }
+
+    /// Flushes all chunk groups, as an automatic flush does
+    pub fn verif_flush(&mut self) -> Result<bool, TsFileError> {
+        self.flush_all_chunk_groups()
+    }
+}
-- 
2.43.0


From 1871b21a3ffe378994c1c6e4e9aaea8e0b18852e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:19 +0000
Subject: [PATCH 02/25] fix: bloom filter bytes are rounded up to whole bytes

With a filter size of 8n+1..8n+3 bits (e.g. 44 series) the last byte was
missing and closing the writer panicked.
---
 tsfile-writer/src/writer/mod.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index e4cde30..5464c75 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -735,11 +735,7 @@ impl BloomFilter {
     }
 
     fn serialize_bits(&self) -> Vec<u8> {
-        let number_of_bytes = if self.bit_set.len() % 8 == 0 {
-            self.bit_set.len() / 8
-        } else {
-            (self.bit_set.len() + (self.bit_set.len() % 8)) / 8
-        };
+        let number_of_bytes = (self.bit_set.len() + 7) / 8;
 
         let mut result = vec![0_u8; number_of_bytes];
 
-- 
2.43.0


From 7f45e54b5932830935f9217d7e4d9131b93054f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:19 +0000
Subject: [PATCH 03/25] fix: murmur hash wraps instead of overflowing

With overflow checks enabled closing a writer panicked for most paths.
---
 tsfile-writer/src/writer/murmur128.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/tsfile-writer/src/writer/murmur128.rs b/tsfile-writer/src/writer/murmur128.rs
index 6b3b217..c9c5016 100644
--- a/tsfile-writer/src/writer/murmur128.rs
+++ b/tsfile-writer/src/writer/murmur128.rs
@@ -57,20 +57,20 @@ impl Murmur128 {
         for i in 0..nblocks {
             let mut k1 = Self::get_block(key, offset, i * 2);
             let mut k2 = Self::get_block(key, offset, i * 2 + 1);
-            k1 *= c1;
+            k1 = k1.wrapping_mul(c1);
             k1 = Self::rotl64(k1, 31);
-            k1 *= c2;
+            k1 = k1.wrapping_mul(c2);
             h1 ^= k1;
             h1 = Self::rotl64(h1, 27);
-            h1 += h2;
-            h1 = h1 * 5 + 0x52dce729;
-            k2 *= c2;
+            h1 = h1.wrapping_add(h2);
+            h1 = h1.wrapping_mul(5).wrapping_add(0x52dce729);
+            k2 = k2.wrapping_mul(c2);
             k2 = Self::rotl64(k2, 33);
-            k2 *= c1;
+            k2 = k2.wrapping_mul(c1);
             h2 ^= k2;
             h2 = Self::rotl64(h2, 31);
-            h2 += h1;
-            h2 = h2 * 5 + 0x38495ab5;
+            h2 = h2.wrapping_add(h1);
+            h2 = h2.wrapping_mul(5).wrapping_add(0x38495ab5);
         }
         // ----------
         // tail
@@ -143,8 +143,8 @@ impl Murmur128 {
         // finalization
         h1 ^= length as i64;
         h2 ^= length as i64;
-        h1 += h2;
-        h2 += h1;
+        h1 = h1.wrapping_add(h2);
+        h2 = h2.wrapping_add(h1);
         h1 = Self::fmix(h1);
         h2 = Self::fmix(h2);
         h1 = ((h1 as i128) + (h2 as i128)) as i64;
-- 
2.43.0


From 73171da652baf0d631a53d4598cb4e76f777a77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:19 +0000
Subject: [PATCH 04/25] fix: hash value i32::MIN does not overflow or index
 negatively in the bloom filter

---
 tsfile-writer/src/writer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 5464c75..a526882 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -669,7 +669,7 @@ impl HashFunction {
 
     fn hash(&self, value: &str) -> usize {
         // return Math.abs(Murmur128Hash.hash(value, seed)) % cap;
-        (self._murmur_hash(value, self.seed).abs() % self.cap) as usize
+        (self._murmur_hash(value, self.seed).unsigned_abs() % self.cap as u32) as usize
     }
 }
 
-- 
2.43.0


From a2b951e63fac67cf55b8f00a31be8c419a241d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:53 +0000
Subject: [PATCH 05/25] fix: device entries of the metadata index are sorted

They were in the random order of a HashMap, so a binary search missed
devices and output was not deterministic.
---
 tsfile-writer/src/writer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index a526882..de25b85 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -507,7 +507,7 @@ impl MetadataIndexNode {
         file: &mut dyn PositionedWrite,
         config: &TsFileConfig,
     ) -> MetadataIndexNode {
-        let mut device_metadata_index_map: HashMap<String, MetadataIndexNode> = HashMap::new();
+        let mut device_metadata_index_map: BTreeMap<String, MetadataIndexNode> = BTreeMap::new();
 
         for (device, list_metadata) in device_timeseries_metadata_map.iter() {
             if list_metadata.is_empty() {
-- 
2.43.0


From 2eea3ded6a36082e8a68a6f58a777e6140ca9828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:53 +0000
Subject: [PATCH 06/25] fix: inner levels of the metadata index are built in
 order and written

With more than max_degree^2 measurements in a device the nodes were taken in
reverse, full nodes were not reset and the child nodes were never written.
---
 tsfile-writer/src/writer/mod.rs | 52 ++++++++++++++-------------------
 1 file changed, 22 insertions(+), 30 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index de25b85..bda50fd 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -85,7 +85,7 @@ extern crate core;
 
 use std::cmp::Ordering;
 use std::collections::hash_map::IntoIter;
-use std::collections::{BTreeMap, HashMap};
+use std::collections::{BTreeMap, HashMap, VecDeque};
 use std::fmt::{Display, Formatter};
 use std::hash::Hash;
 use std::io::Write;
@@ -417,19 +417,19 @@ impl MetadataIndexNode {
 
     fn add_current_index_node_to_queue(
         current_index_node: &mut MetadataIndexNode,
-        measurement_metadata_index_queue: &mut Vec<MetadataIndexNode>,
+        measurement_metadata_index_queue: &mut VecDeque<MetadataIndexNode>,
         file: &mut dyn PositionedWrite,
     ) {
         // TODO file.getPosition
         // currentIndexNode.setEndOffset(out.getPosition());
         current_index_node.end_offset = file.get_position() as usize;
         // metadataIndexNodeQueue.add(currentIndexNode);
-        measurement_metadata_index_queue.push(current_index_node.clone());
+        measurement_metadata_index_queue.push_back(current_index_node.clone());
     }
 
     #[allow(unused_variables)]
     fn generate_root_node(
-        mut measurement_metadata_index_queue: Vec<MetadataIndexNode>,
+        mut measurement_metadata_index_queue: VecDeque<MetadataIndexNode>,
         file: &mut dyn PositionedWrite,
         node_type: MetadataIndexNodeType,
         config: &TsFileConfig,
@@ -454,48 +454,40 @@ impl MetadataIndexNode {
         //   queueSize = metadataIndexNodeQueue.size();
         // }
         // return metadataIndexNodeQueue.poll();
-        // TODO
         let mut queue_size = measurement_metadata_index_queue.len();
-        let mut metadata_index_node;
-        let mut current_index_metadata = MetadataIndexNode::new(node_type.clone());
+        let mut current_index_node = MetadataIndexNode::new(node_type.clone());
 
         while queue_size != 1 {
-            for i in 0..queue_size {
-                metadata_index_node = measurement_metadata_index_queue.last().unwrap().clone();
-                let device = match metadata_index_node.children.get(0) {
-                    None => {
-                        panic!("...")
-                    }
-                    Some(inner) => inner.name.clone(),
-                };
-                measurement_metadata_index_queue.remove(measurement_metadata_index_queue.len() - 1);
-                if current_index_metadata.is_full(config) {
-                    current_index_metadata.end_offset = file.get_position() as usize;
-                    measurement_metadata_index_queue.push(current_index_metadata.clone());
+            for _ in 0..queue_size {
+                let metadata_index_node = measurement_metadata_index_queue
+                    .pop_front()
+                    .expect("queue_size nodes are queued");
+                if current_index_node.is_full(config) {
+                    Self::add_current_index_node_to_queue(
+                        &mut current_index_node,
+                        &mut measurement_metadata_index_queue,
+                        file,
+                    );
+                    current_index_node = MetadataIndexNode::new(node_type.clone());
                 }
-                // ...
                 let name = match metadata_index_node.children.get(0) {
                     None => {
                         panic!("This should not happen!")
                     }
                     Some(node) => node.name.clone(),
                 };
-                current_index_metadata.children.push(MetadataIndexEntry {
+                current_index_node.children.push(MetadataIndexEntry {
                     name,
                     offset: file.get_position() as usize,
                 });
+                metadata_index_node.serialize(file);
             }
-            // ...
             Self::add_current_index_node_to_queue(
-                &mut current_index_metadata,
+                &mut current_index_node,
                 &mut measurement_metadata_index_queue,
                 file,
             );
-            current_index_metadata = MetadataIndexNode {
-                children: vec![],
-                end_offset: 0,
-                node_type: node_type.clone(),
-            };
+            current_index_node = MetadataIndexNode::new(node_type.clone());
             queue_size = measurement_metadata_index_queue.len();
         }
         return measurement_metadata_index_queue.get(0).unwrap().clone();
@@ -514,7 +506,7 @@ impl MetadataIndexNode {
                 continue;
             }
 
-            let mut measurement_metadata_index_queue: Vec<MetadataIndexNode> = vec![];
+            let mut measurement_metadata_index_queue: VecDeque<MetadataIndexNode> = VecDeque::new();
 
             let timeseries_metadata: TimeseriesMetadata;
             let mut current_index_node: MetadataIndexNode =
@@ -547,7 +539,7 @@ impl MetadataIndexNode {
             //       generateRootNode(
             //           measurementMetadataIndexQueue, out, MetadataIndexNodeType.INTERNAL_MEASUREMENT));
             current_index_node.end_offset = file.get_position() as usize;
-            measurement_metadata_index_queue.push(current_index_node.clone());
+            measurement_metadata_index_queue.push_back(current_index_node.clone());
 
             let root_node = Self::generate_root_node(
                 measurement_metadata_index_queue,
-- 
2.43.0


From 30bac877db5021d149cd05f1c1b5349994150a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:53 +0000
Subject: [PATCH 07/25] fix: more devices than fit into one index node

Closing a writer with more than 256 devices with data panicked.
---
 tsfile-writer/src/writer/mod.rs | 68 +++++++++++++++++----------------
 1 file changed, 35 insertions(+), 33 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index bda50fd..0c793f0 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -328,6 +328,7 @@ enum MetadataIndexNodeType {
     LeafMeasurement,
     InternalMeasurement,
     LeafDevice,
+    InternalDevice,
 }
 
 impl Serializable for MetadataIndexNodeType {
@@ -347,6 +348,7 @@ impl Serializable for MetadataIndexNodeType {
             MetadataIndexNodeType::LeafMeasurement => 0x03,
             MetadataIndexNodeType::InternalMeasurement => 0x02,
             LeafDevice => 0x01,
+            MetadataIndexNodeType::InternalDevice => 0x00,
         };
         file.write(&[byte]);
 
@@ -564,39 +566,39 @@ impl MetadataIndexNode {
             return metadata_index_node;
         }
 
-        panic!("This is not yet implemented!");
-
-        // // if not exceed the max child nodes num, ignore the device index and directly point to the
-        // // measurement
-        // if (deviceMetadataIndexMap.size() <= config.getMaxDegreeOfIndexNode()) {
-        //   MetadataIndexNode metadataIndexNode =
-        //       new MetadataIndexNode(MetadataIndexNodeType.LEAF_DEVICE);
-        //   for (Map.Entry<String, MetadataIndexNode> entry : deviceMetadataIndexMap.entrySet()) {
-        //     metadataIndexNode.addEntry(new MetadataIndexEntry(entry.getKey(), out.getPosition()));
-        //     entry.getValue().serializeTo(out.wrapAsStream());
-        //   }
-        //   metadataIndexNode.setEndOffset(out.getPosition());
-        //   return metadataIndexNode;
-        // }
-        //
-        // // else, build level index for devices
-        // Queue<MetadataIndexNode> deviceMetadataIndexQueue = new ArrayDeque<>();
-        // MetadataIndexNode currentIndexNode = new MetadataIndexNode(MetadataIndexNodeType.LEAF_DEVICE);
-        //
-        // for (Map.Entry<String, MetadataIndexNode> entry : deviceMetadataIndexMap.entrySet()) {
-        //   // when constructing from internal node, each node is related to an entry
-        //   if (currentIndexNode.isFull()) {
-        //     addCurrentIndexNodeToQueue(currentIndexNode, deviceMetadataIndexQueue, out);
-        //     currentIndexNode = new MetadataIndexNode(MetadataIndexNodeType.LEAF_DEVICE);
-        //   }
-        //   currentIndexNode.addEntry(new MetadataIndexEntry(entry.getKey(), out.getPosition()));
-        //   entry.getValue().serializeTo(out.wrapAsStream());
-        // }
-        // addCurrentIndexNodeToQueue(currentIndexNode, deviceMetadataIndexQueue, out);
-        // MetadataIndexNode deviceMetadataIndexNode =
-        //     generateRootNode(deviceMetadataIndexQueue, out, MetadataIndexNodeType.INTERNAL_DEVICE);
-        // deviceMetadataIndexNode.setEndOffset(out.getPosition());
-        // return deviceMetadataIndexNode;
+        // else, build level index for devices
+        let mut device_metadata_index_queue: VecDeque<MetadataIndexNode> = VecDeque::new();
+        let mut current_index_node = MetadataIndexNode::new(LeafDevice);
+
+        for (s, value) in device_metadata_index_map {
+            // when constructing from internal node, each node is related to an entry
+            if current_index_node.is_full(config) {
+                Self::add_current_index_node_to_queue(
+                    &mut current_index_node,
+                    &mut device_metadata_index_queue,
+                    file,
+                );
+                current_index_node = MetadataIndexNode::new(LeafDevice);
+            }
+            current_index_node.children.push(MetadataIndexEntry {
+                name: s,
+                offset: file.get_position() as usize,
+            });
+            value.serialize(file);
+        }
+        Self::add_current_index_node_to_queue(
+            &mut current_index_node,
+            &mut device_metadata_index_queue,
+            file,
+        );
+        let mut device_metadata_index_node = Self::generate_root_node(
+            device_metadata_index_queue,
+            file,
+            MetadataIndexNodeType::InternalDevice,
+            config,
+        );
+        device_metadata_index_node.end_offset = file.get_position() as usize;
+        device_metadata_index_node
     }
     fn is_full(&self, config: &TsFileConfig) -> bool {
         self.children.len() >= config.max_degree_of_index_node
-- 
2.43.0


From eb9ea1d2a774e790f7cb8c9e36babc9e6fe168af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:16 +0000
Subject: [PATCH 08/25] fix: measurement ids with dots stay with their device

The device was derived by cutting the path at its last dot: a measurement id
containing a dot was filed under another device, and distinct series with
equal paths were merged.
---
 tsfile-writer/src/writer/tsfile_io_writer.rs | 57 +++++++-------------
 1 file changed, 18 insertions(+), 39 deletions(-)

diff --git a/tsfile-writer/src/writer/tsfile_io_writer.rs b/tsfile-writer/src/writer/tsfile_io_writer.rs
index aa85257..85b04f5 100644
--- a/tsfile-writer/src/writer/tsfile_io_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_io_writer.rs
@@ -141,22 +141,17 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         //     .collect();
 
         // Create metadata list
-        let mut chunk_metadata_map: BTreeMap<Path, Vec<ChunkMetadata>> = BTreeMap::new();
+        // by device and measurement (and not by path, as both may contain dots)
+        let mut chunk_metadata_map: BTreeMap<(String, String), Vec<ChunkMetadata>> =
+            BTreeMap::new();
         for group_metadata in &self.chunk_group_metadata_list {
             for chunk_metadata in &group_metadata.chunk_metadata {
-                let device_path = format!(
-                    "{}.{}",
-                    &group_metadata.device_id, &chunk_metadata.measurement_id
-                );
-                let path = Path {
-                    path: device_path.clone(),
-                };
-                if !&chunk_metadata_map.contains_key(&path) {
-                    chunk_metadata_map.insert(path.clone(), vec![]);
-                }
                 chunk_metadata_map
-                    .get_mut(&path)
-                    .unwrap()
+                    .entry((
+                        group_metadata.device_id.clone(),
+                        chunk_metadata.measurement_id.clone(),
+                    ))
+                    .or_insert_with(Vec::new)
                     .push(chunk_metadata.clone());
             }
         }
@@ -177,7 +172,12 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
 
         // Now serialize the Bloom Filter ?!
 
-        let paths = chunk_metadata_map.keys().into_iter().cloned().collect();
+        let paths = chunk_metadata_map
+            .keys()
+            .map(|(device_id, measurement_id)| Path {
+                path: format!("{}.{}", device_id, measurement_id),
+            })
+            .collect();
 
         let bloom_filter = BloomFilter::build(paths, &self.config);
 
@@ -193,21 +193,9 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
 
     fn flush_metadata_index(
         &mut self,
-        chunk_metadata_list: &BTreeMap<Path, Vec<ChunkMetadata>>,
+        chunk_metadata_list: &BTreeMap<(String, String), Vec<ChunkMetadata>>,
     ) -> MetadataIndexNode {
-        let mut last_path: Option<String> = None;
-        for (path, metadata) in chunk_metadata_list.iter() {
-            // TODO do we really need this check here?
-            // ensure that paths are printed in alphabetical order
-            match &last_path {
-                None => last_path = Some(path.path.clone()),
-                Some(p) => {
-                    assert!(
-                        p < &path.path,
-                        "Something went wrong.. footer was written in wrong order"
-                    );
-                }
-            }
+        for ((device_id, _), metadata) in chunk_metadata_list.iter() {
             // Now regular operation starts
             let data_type = metadata.get(0).unwrap().data_type;
             let serialize_statistic = metadata.len() > 1;
@@ -240,22 +228,13 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
             };
 
             // Add to the global struct
-            let split = path.path.split('.').collect::<Vec<&str>>();
-            let mut device_id = "".to_owned();
-            for i in 0..split.len() - 1 {
-                if i > 0 {
-                    device_id.push('.');
-                }
-                device_id.push_str(*split.get(i).unwrap());
-            }
-
-            if !self.timeseries_metadata_map.contains_key(&device_id) {
+            if !self.timeseries_metadata_map.contains_key(device_id) {
                 self.timeseries_metadata_map
                     .insert(device_id.clone(), vec![]);
             }
 
             self.timeseries_metadata_map
-                .get_mut(&device_id)
+                .get_mut(device_id)
                 .unwrap()
                 .push(Box::new(timeseries_metadata));
         }
-- 
2.43.0


From 49621b44719087605c40098a5c88d4eab877c436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:16 +0000
Subject: [PATCH 09/25] fix: timestamps stay ordered across flushes

The last timestamps were forgotten when the chunk groups were flushed, so a
point older than already written ones was accepted.
---
 tsfile-writer/src/writer/tsfile_writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 6fe0e1e..4cf45f5 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -242,6 +242,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         self.record_count = 0;
         // Reset Group Writers
         let schema = self.schema.clone();
+        let last_time_map = &self.non_aligned_timeseries_last_time_map;
         self.group_writers = schema
             .measurement_groups
             .into_iter()
@@ -265,7 +266,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                                 )
                             })
                             .collect(),
-                        last_time_map: BTreeMap::new(),
+                        last_time_map: last_time_map.get(path).cloned().unwrap_or_default(),
                     },
                 )
             })
-- 
2.43.0


From 682a6a92b2fb2ae67afc2049cb00feb04fce9d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:16 +0000
Subject: [PATCH 10/25] fix: values of the wrong type and unsupported encodings
 are refused with an error

Both panicked.
---
 tsfile-writer/src/writer/chunk_writer.rs | 6 ++++++
 tsfile-writer/src/writer/group_writer.rs | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/chunk_writer.rs b/tsfile-writer/src/writer/chunk_writer.rs
index 32decf5..f26674b 100644
--- a/tsfile-writer/src/writer/chunk_writer.rs
+++ b/tsfile-writer/src/writer/chunk_writer.rs
@@ -281,6 +281,12 @@ impl ChunkWriter {
     }
 
     pub fn write(&mut self, timestamp: i64, mut value: IoTDBValue) -> Result<u32, TsFileError> {
+        match (self.data_type, &value) {
+            (TSDataType::INT32, IoTDBValue::INT(_))
+            | (TSDataType::INT64, IoTDBValue::LONG(_))
+            | (TSDataType::FLOAT, IoTDBValue::FLOAT(_)) => {}
+            _ => return Err(TsFileError::WrongTypeForSeries),
+        }
         // self.statistics.update(timestamp, &value);
         match &mut self.current_page_writer {
             None => {
diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index 4c422c3..5bc6107 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -92,7 +92,7 @@ impl<'a> GroupWriter<'a> {
         self.check_is_history_data(measurement_id, timestamp)?;
 
         let record_count = match &mut self.chunk_writers.get_mut(measurement_id) {
-            Some(chunk_writer) => chunk_writer.write(timestamp, value).unwrap(),
+            Some(chunk_writer) => chunk_writer.write(timestamp, value)?,
             None => {
                 return Err(TsFileError::IllegalState {
                     source: Some("Unknown measurement id".to_owned()),
-- 
2.43.0


From 3b77060ecde527bf10e68bdf8eb5d390c67900ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:38 +0000
Subject: [PATCH 11/25] fix: points before a refused one in write_many are
 counted

They were buffered but not counted, so closing the writer could drop them
silently.
---
 tsfile-writer/src/writer/group_writer.rs  | 15 ---------------
 tsfile-writer/src/writer/tsfile_writer.rs |  6 ++++--
 2 files changed, 4 insertions(+), 17 deletions(-)

diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index 5bc6107..ae757d4 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -1,7 +1,6 @@
 use crate::writer::chunk_writer::ChunkWriter;
 use crate::writer::errors::TsFileError;
 use crate::writer::tsfile_io_writer::TsFileIoWriter;
-use crate::writer::tsfile_writer::DataPoint;
 use crate::writer::{IoTDBValue, PositionedWrite};
 use std::collections::BTreeMap;
 
@@ -11,20 +10,6 @@ pub struct GroupWriter<'a> {
     pub(crate) last_time_map: BTreeMap<&'a str, i64>,
 }
 
-impl<'a> GroupWriter<'a> {
-    pub(crate) fn write_many(
-        &mut self,
-        timestamp: i64,
-        values: impl IntoIterator<Item = DataPoint<'a>>,
-    ) -> Result<u32, TsFileError> {
-        let mut records = 0;
-        for dp in values {
-            records += self.write(dp.measurement_id, timestamp, dp.value)?;
-        }
-        Ok(records)
-    }
-}
-
 impl<'a> GroupWriter<'a> {
     pub(crate) fn get_last_time_map(&mut self) -> BTreeMap<&'a str, i64> {
         self.last_time_map.clone()
diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 4cf45f5..96f522a 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -158,8 +158,10 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
     ) -> Result<(), TsFileError> {
         match self.group_writers.get_mut(device) {
             Some(group) => {
-                let records_written = group.write_many(timestamp, values)?;
-                self.record_count += records_written;
+                for dp in values {
+                    let records_written = group.write(dp.measurement_id, timestamp, dp.value)?;
+                    self.record_count += records_written;
+                }
             }
             None => return Err(TsFileError::IllegalState { source: None }),
         }
-- 
2.43.0


From ede1f8a9641d00bd0a61e2864af3405691cc2a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:38 +0000
Subject: [PATCH 12/25] fix: deltas that overflow the type wrap around in
 TS_2DIFF

The encoder panicked with overflow checks enabled.
---
 tsfile-writer/src/writer/encoding/time_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/writer/encoding/time_encoder.rs b/tsfile-writer/src/writer/encoding/time_encoder.rs
index 1b2780d..5f4b108 100644
--- a/tsfile-writer/src/writer/encoding/time_encoder.rs
+++ b/tsfile-writer/src/writer/encoding/time_encoder.rs
@@ -45,7 +45,7 @@ macro_rules! ts2diff_encoder {
                     }
                     Some(_) => {
                         // calc delta
-                        let delta = value - self.previous_value;
+                        let delta = <$type>::wrapping_sub(value, self.previous_value);
                         // If delta is min, store it
                         if delta < self.min_delta {
                             self.min_delta = delta;
@@ -124,7 +124,7 @@ macro_rules! ts2diff_encoder {
                 let mut delta_block_buffer: Vec<$type> = vec![];
 
                 for delta in &self.values {
-                    delta_block_buffer.push(delta - self.min_delta);
+                    delta_block_buffer.push(delta.wrapping_sub(self.min_delta));
                 }
 
                 let write_width =
-- 
2.43.0


From 960f0612c6adf3aa927eb65152c51c99ef70e96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:38 +0000
Subject: [PATCH 13/25] fix: index nodes are written completely to sinks that
 take only a part

---
 tsfile-writer/src/writer/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 0c793f0..462653e 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -350,7 +350,7 @@ impl Serializable for MetadataIndexNodeType {
             LeafDevice => 0x01,
             MetadataIndexNodeType::InternalDevice => 0x00,
         };
-        file.write(&[byte]);
+        file.write_all(&[byte]);
 
         Ok(())
     }
@@ -371,7 +371,7 @@ impl Serializable for MetadataIndexEntry {
         // byteLen += ReadWriteIOUtils.write(offset, outputStream);
         // return byteLen;
         write_str(file, self.name.as_str());
-        file.write(&self.offset.to_be_bytes());
+        file.write_all(&self.offset.to_be_bytes());
         // file.write(&(self.offset as i64).to_be_bytes());
 
         Ok(())
@@ -401,7 +401,7 @@ impl Serializable for MetadataIndexNode {
             metadata_index_entry.serialize(file);
         }
 
-        file.write(&self.end_offset.to_be_bytes());
+        file.write_all(&self.end_offset.to_be_bytes());
         self.node_type.serialize(file);
 
         Ok(())
-- 
2.43.0


From 7d083082bcac2b1c52225b666a400806cf6cd967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 14/25] fix: errors of the sink are reported

Most results of the sink were dropped, close returned nothing: a full disk or a
failing flush went unnoticed and left a truncated file. A writer that failed
refuses to go on, as its file is incomplete.
---
 tsfile-writer-c/src/lib.rs                   |  2 +-
 tsfile-writer/src/writer/chunk_writer.rs     | 32 +++++-----
 tsfile-writer/src/writer/group_writer.rs     | 13 ++--
 tsfile-writer/src/writer/mod.rs              | 66 ++++++++++----------
 tsfile-writer/src/writer/tsfile_io_writer.rs | 28 +++++----
 tsfile-writer/src/writer/tsfile_writer.rs    | 39 +++++++++---
 6 files changed, 106 insertions(+), 74 deletions(-)

diff --git a/tsfile-writer-c/src/lib.rs b/tsfile-writer-c/src/lib.rs
index 95b0108..66af4ed 100644
--- a/tsfile-writer-c/src/lib.rs
+++ b/tsfile-writer-c/src/lib.rs
@@ -131,6 +131,6 @@ pub extern "C" fn file_writer_write_int32(
 pub extern "C" fn file_writer_close(writer: *mut TsFileWriter<WriteWrapper<File>>) {
     if !writer.is_null() {
         let mut _b = unsafe { Box::from_raw(writer) };
-        _b.close();
+        _b.close().unwrap();
     }
 }
diff --git a/tsfile-writer/src/writer/chunk_writer.rs b/tsfile-writer/src/writer/chunk_writer.rs
index f26674b..c442d57 100644
--- a/tsfile-writer/src/writer/chunk_writer.rs
+++ b/tsfile-writer/src/writer/chunk_writer.rs
@@ -177,15 +177,16 @@ impl ChunkWriter {
         }
     }
 
-    pub(crate) fn seal_current_page(&mut self) {
+    pub(crate) fn seal_current_page(&mut self) -> Result<(), TsFileError> {
         match &self.current_page_writer {
             None => {}
             Some(pw) => {
                 if pw.point_number > 0 {
-                    self.write_page_to_buffer();
+                    self.write_page_to_buffer()?;
                 }
             }
         }
+        Ok(())
     }
 
     pub(crate) fn get_serialized_chunk_size(&self) -> u64 {
@@ -208,24 +209,25 @@ impl ChunkWriter {
     pub(crate) fn write_to_file_writer<T: PositionedWrite>(
         &mut self,
         file_writer: &mut TsFileIoWriter<T>,
-    ) {
-        self.seal_current_page();
-        self.write_all_pages_of_chunk_to_ts_file(file_writer, &self.statistics);
+    ) -> Result<(), TsFileError> {
+        self.seal_current_page()?;
+        self.write_all_pages_of_chunk_to_ts_file(file_writer, &self.statistics)?;
 
         // re-init this chunk writer
         self.page_buffer.clear();
         self.num_pages = 0;
         self.first_page_statistics = None;
         self.statistics = Statistics::new(self.data_type);
+        Ok(())
     }
 
     fn write_all_pages_of_chunk_to_ts_file<T: PositionedWrite>(
         &self,
         file_writer: &mut TsFileIoWriter<T>,
         statistics: &Statistics,
-    ) {
+    ) -> Result<(), TsFileError> {
         if statistics.count() == 0 {
-            return;
+            return Ok(());
         }
         file_writer.start_flush_chunk(
             self.measurement_id.clone(),
@@ -236,13 +238,13 @@ impl ChunkWriter {
             self.page_buffer.len() as u32,
             self.num_pages,
             0,
-        );
+        )?;
 
         let data_offset = file_writer.out.get_position();
         log::trace!("Dumping pages at offset {}", data_offset);
 
         // Write the full page
-        file_writer.out.write_all(&self.page_buffer);
+        file_writer.out.write_all(&self.page_buffer)?;
 
         log::trace!("Offset after {}", file_writer.out.get_position());
 
@@ -258,6 +260,7 @@ impl ChunkWriter {
         // }
         //
         file_writer.end_current_chunk();
+        Ok(())
     }
 
     pub(crate) fn estimate_max_series_mem_size(&mut self) -> u32 {
@@ -303,17 +306,17 @@ impl ChunkWriter {
             }
             Some(page_writer) => page_writer.write(timestamp, &mut value).unwrap(),
         };
-        self.check_page_size_and_may_open_new_page();
+        self.check_page_size_and_may_open_new_page()?;
         Ok(records_written)
     }
 
-    fn check_page_size_and_may_open_new_page(&mut self) {
+    fn check_page_size_and_may_open_new_page(&mut self) -> Result<(), TsFileError> {
         if self.current_page_writer.is_none() {
-            return;
+            return Ok(());
         }
         let page_writer = self.current_page_writer.as_mut().unwrap();
         if page_writer.point_number > MAX_NUMBER_OF_POINTS_IN_PAGE {
-            self.write_page_to_buffer();
+            self.write_page_to_buffer()?;
         } else if page_writer.point_number >= self.value_count_in_one_page_for_next_check {
             let current_page_size = page_writer.estimate_max_mem_size();
 
@@ -324,7 +327,7 @@ impl ChunkWriter {
             PAGE_SIZE_THRESHOLD,
             current_page_size,
             page_writer.point_number);
-                self.write_page_to_buffer();
+                self.write_page_to_buffer()?;
                 self.value_count_in_one_page_for_next_check = MINIMUM_RECORD_COUNT_FOR_CHECK;
             } else {
                 // valueCountInOnePageForNextCheck =
@@ -334,6 +337,7 @@ impl ChunkWriter {
                         * (page_writer.point_number as f32)) as u32;
             }
         }
+        Ok(())
     }
 
     //   private void checkPageSizeAndMayOpenANewPage() {
diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index ae757d4..e3a2af8 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -20,18 +20,18 @@ impl<'a> GroupWriter<'a> {
     pub(crate) fn flush_to_filewriter<T: PositionedWrite>(
         &mut self,
         file_writer: &mut TsFileIoWriter<T>,
-    ) -> u64 {
+    ) -> Result<u64, TsFileError> {
         log::info!("Start flush device id: {}", &self.path);
 
-        self.seal_all_chunks();
+        self.seal_all_chunks()?;
 
         let current_chunk_group_size = self.get_current_chunk_group_size();
 
         for (_, series_writer) in self.chunk_writers.iter_mut() {
-            series_writer.write_to_file_writer(file_writer);
+            series_writer.write_to_file_writer(file_writer)?;
         }
 
-        current_chunk_group_size
+        Ok(current_chunk_group_size)
     }
 
     pub(crate) fn update_max_group_mem_size(&mut self) -> u32 {
@@ -47,10 +47,11 @@ impl<'a> GroupWriter<'a> {
         }
         buffer_size
     }
-    fn seal_all_chunks(&mut self) {
+    fn seal_all_chunks(&mut self) -> Result<(), TsFileError> {
         for (_, writer) in self.chunk_writers.iter_mut() {
-            writer.seal_current_page();
+            writer.seal_current_page()?;
         }
+        Ok(())
     }
     fn get_current_chunk_group_size(&mut self) -> u64 {
         // long size = 0;
diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 462653e..165ab23 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -350,7 +350,7 @@ impl Serializable for MetadataIndexNodeType {
             LeafDevice => 0x01,
             MetadataIndexNodeType::InternalDevice => 0x00,
         };
-        file.write_all(&[byte]);
+        file.write_all(&[byte])?;
 
         Ok(())
     }
@@ -370,8 +370,8 @@ impl Serializable for MetadataIndexEntry {
         // byteLen += ReadWriteIOUtils.writeVar(name, outputStream);
         // byteLen += ReadWriteIOUtils.write(offset, outputStream);
         // return byteLen;
-        write_str(file, self.name.as_str());
-        file.write_all(&self.offset.to_be_bytes());
+        write_str(file, self.name.as_str())?;
+        file.write_all(&self.offset.to_be_bytes())?;
         // file.write(&(self.offset as i64).to_be_bytes());
 
         Ok(())
@@ -395,14 +395,14 @@ impl Serializable for MetadataIndexNode {
         // byteLen += ReadWriteIOUtils.write(endOffset, outputStream);
         // byteLen += ReadWriteIOUtils.write(nodeType.serialize(), outputStream);
         // return byteLen;
-        write_var_u32(self.children.len() as u32, file);
+        write_var_u32(self.children.len() as u32, file)?;
 
         for metadata_index_entry in self.children.iter() {
-            metadata_index_entry.serialize(file);
+            metadata_index_entry.serialize(file)?;
         }
 
-        file.write_all(&self.end_offset.to_be_bytes());
-        self.node_type.serialize(file);
+        file.write_all(&self.end_offset.to_be_bytes())?;
+        self.node_type.serialize(file)?;
 
         Ok(())
     }
@@ -435,7 +435,7 @@ impl MetadataIndexNode {
         file: &mut dyn PositionedWrite,
         node_type: MetadataIndexNodeType,
         config: &TsFileConfig,
-    ) -> MetadataIndexNode {
+    ) -> Result<MetadataIndexNode, TsFileError> {
         // int queueSize = metadataIndexNodeQueue.size();
         // MetadataIndexNode metadataIndexNode;
         // MetadataIndexNode currentIndexNode = new MetadataIndexNode(type);
@@ -482,7 +482,7 @@ impl MetadataIndexNode {
                     name,
                     offset: file.get_position() as usize,
                 });
-                metadata_index_node.serialize(file);
+                metadata_index_node.serialize(file)?;
             }
             Self::add_current_index_node_to_queue(
                 &mut current_index_node,
@@ -492,7 +492,7 @@ impl MetadataIndexNode {
             current_index_node = MetadataIndexNode::new(node_type.clone());
             queue_size = measurement_metadata_index_queue.len();
         }
-        return measurement_metadata_index_queue.get(0).unwrap().clone();
+        Ok(measurement_metadata_index_queue.get(0).unwrap().clone())
     }
 
     #[allow(unused_variables)]
@@ -500,7 +500,7 @@ impl MetadataIndexNode {
         device_timeseries_metadata_map: &BTreeMap<String, Vec<Box<dyn TimeSeriesMetadatable>>>,
         file: &mut dyn PositionedWrite,
         config: &TsFileConfig,
-    ) -> MetadataIndexNode {
+    ) -> Result<MetadataIndexNode, TsFileError> {
         let mut device_metadata_index_map: BTreeMap<String, MetadataIndexNode> = BTreeMap::new();
 
         for (device, list_metadata) in device_timeseries_metadata_map.iter() {
@@ -533,7 +533,7 @@ impl MetadataIndexNode {
                         offset: file.get_position() as usize,
                     });
                 }
-                timeseries_metadata.serialize(file);
+                timeseries_metadata.serialize(file)?;
             }
             // addCurrentIndexNodeToQueue(currentIndexNode, measurementMetadataIndexQueue, out);
             // deviceMetadataIndexMap.put(
@@ -548,7 +548,7 @@ impl MetadataIndexNode {
                 file,
                 MetadataIndexNodeType::InternalMeasurement,
                 config,
-            );
+            )?;
             device_metadata_index_map.insert(device.clone(), root_node);
         }
 
@@ -560,10 +560,10 @@ impl MetadataIndexNode {
                     name: s.to_owned(),
                     offset: file.get_position() as usize,
                 });
-                value.serialize(file);
+                value.serialize(file)?;
             }
             metadata_index_node.end_offset = file.get_position() as usize;
-            return metadata_index_node;
+            return Ok(metadata_index_node);
         }
 
         // else, build level index for devices
@@ -584,7 +584,7 @@ impl MetadataIndexNode {
                 name: s,
                 offset: file.get_position() as usize,
             });
-            value.serialize(file);
+            value.serialize(file)?;
         }
         Self::add_current_index_node_to_queue(
             &mut current_index_node,
@@ -596,9 +596,9 @@ impl MetadataIndexNode {
             file,
             MetadataIndexNodeType::InternalDevice,
             config,
-        );
+        )?;
         device_metadata_index_node.end_offset = file.get_position() as usize;
-        device_metadata_index_node
+        Ok(device_metadata_index_node)
     }
     fn is_full(&self, config: &TsFileConfig) -> bool {
         self.children.len() >= config.max_degree_of_index_node
@@ -607,7 +607,7 @@ impl MetadataIndexNode {
 
 trait TimeSeriesMetadatable {
     fn get_measurement_id(&self) -> String;
-    fn serialize(&self, file: &mut dyn PositionedWrite) -> io::Result<()>;
+    fn serialize(&self, file: &mut dyn PositionedWrite) -> Result<(), TsFileError>;
 }
 
 impl TimeSeriesMetadatable for TimeSeriesMetadata {
@@ -615,13 +615,13 @@ impl TimeSeriesMetadatable for TimeSeriesMetadata {
         self.measurement_id.clone()
     }
 
-    fn serialize(&self, file: &mut dyn PositionedWrite) -> io::Result<()> {
-        file.write_all(&[self.time_series_metadata_type]);
-        write_str(file, self.measurement_id.as_str());
-        file.write_all(&[self.data_type.serialize()]);
-        write_var_u32(self.chunk_meta_data_list_data_size as u32, file);
-        self.statistics.serialize(file);
-        file.write_all(&self.buffer);
+    fn serialize(&self, file: &mut dyn PositionedWrite) -> Result<(), TsFileError> {
+        file.write_all(&[self.time_series_metadata_type])?;
+        write_str(file, self.measurement_id.as_str())?;
+        file.write_all(&[self.data_type.serialize()])?;
+        write_var_u32(self.chunk_meta_data_list_data_size as u32, file)?;
+        self.statistics.serialize(file)?;
+        file.write_all(&self.buffer)?;
         Ok(())
     }
 }
@@ -766,10 +766,10 @@ impl Serializable for BloomFilter {
         // Real
         let bytes = self.serialize_bits();
 
-        write_var_u32(bytes.len() as u32, file);
-        file.write_all(bytes.as_slice());
-        write_var_u32(self.size as u32, file);
-        write_var_u32(self.hash_function_size as u32, file);
+        write_var_u32(bytes.len() as u32, file)?;
+        file.write_all(bytes.as_slice())?;
+        write_var_u32(self.size as u32, file)?;
+        write_var_u32(self.hash_function_size as u32, file)?;
 
         Ok(())
     }
@@ -793,15 +793,15 @@ impl Serializable for TsFileMetadata {
     fn serialize(&self, file: &mut dyn PositionedWrite) -> Result<(), TsFileError> {
         match self.metadata_index.clone() {
             Some(index) => {
-                index.serialize(file);
+                index.serialize(file)?;
             }
             None => {
                 // Write 0 as 4 bytes (u32)
-                file.write_all(&0x00_u32.to_be_bytes());
+                file.write_all(&0x00_u32.to_be_bytes())?;
             }
         }
         // Meta Offset
-        file.write_all(&self.meta_offset.to_be_bytes());
+        file.write_all(&self.meta_offset.to_be_bytes())?;
 
         Ok(())
     }
diff --git a/tsfile-writer/src/writer/tsfile_io_writer.rs b/tsfile-writer/src/writer/tsfile_io_writer.rs
index 85b04f5..13a4d73 100644
--- a/tsfile-writer/src/writer/tsfile_io_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_io_writer.rs
@@ -43,7 +43,7 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         data_size: u32,
         num_pages: u32,
         mask: u8,
-    ) {
+    ) -> Result<(), TsFileError> {
         self.current_chunk_metadata = Some(ChunkMetadata::new(
             measurement_id.clone(),
             data_type,
@@ -60,7 +60,7 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
             num_pages,
             mask,
         );
-        header.serialize(&mut self.out);
+        header.serialize(&mut self.out)
     }
 }
 
@@ -112,9 +112,9 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
     //     chunkMetadataList = null;
     //     out.flush();
     //   }
-    pub(crate) fn end_chunk_group(&mut self) {
+    pub(crate) fn end_chunk_group(&mut self) -> Result<(), TsFileError> {
         if self.current_chunk_group_device_id == None || self.chunk_metadata_list.is_empty() {
-            return;
+            return Ok(());
         }
         let device_id = self.current_chunk_group_device_id.unwrap();
         // for chunk_metadata in &self.chunk_metadata_list {
@@ -128,10 +128,11 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         ));
         self.current_chunk_group_device_id = None;
         self.chunk_metadata_list.clear();
-        self.out.flush();
+        self.out.flush()?;
+        Ok(())
     }
 
-    pub(crate) fn end_file(&mut self) {
+    pub(crate) fn end_file(&mut self) -> Result<(), TsFileError> {
         // Statistics
         // Fetch all metadata
         // self.chunk_group_metadata = self
@@ -160,15 +161,15 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         let meta_offset = self.out.get_position();
 
         // Write Marker 0x02
-        self.out.write_all(&[0x02]);
+        self.out.write_all(&[0x02])?;
 
-        let metadata_index_node = self.flush_metadata_index(&chunk_metadata_map);
+        let metadata_index_node = self.flush_metadata_index(&chunk_metadata_map)?;
 
         let ts_file_metadata = TsFileMetadata::new(Some(metadata_index_node), meta_offset);
 
         let footer_index = self.out.get_position();
 
-        ts_file_metadata.serialize(&mut self.out);
+        ts_file_metadata.serialize(&mut self.out)?;
 
         // Now serialize the Bloom Filter ?!
 
@@ -181,20 +182,21 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
 
         let bloom_filter = BloomFilter::build(paths, &self.config);
 
-        bloom_filter.serialize(&mut self.out);
+        bloom_filter.serialize(&mut self.out)?;
 
         let size_of_footer = (self.out.get_position() - footer_index) as u32;
 
-        self.out.write_all(&size_of_footer.to_be_bytes());
+        self.out.write_all(&size_of_footer.to_be_bytes())?;
 
         // Footer
-        self.out.write_all("TsFile".as_bytes());
+        self.out.write_all("TsFile".as_bytes())?;
+        Ok(())
     }
 
     fn flush_metadata_index(
         &mut self,
         chunk_metadata_list: &BTreeMap<(String, String), Vec<ChunkMetadata>>,
-    ) -> MetadataIndexNode {
+    ) -> Result<MetadataIndexNode, TsFileError> {
         for ((device_id, _), metadata) in chunk_metadata_list.iter() {
             // Now regular operation starts
             let data_type = metadata.get(0).unwrap().data_type;
diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 96f522a..4c9f902 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -115,15 +115,30 @@ pub struct TsFileWriter<'a, T: PositionedWrite> {
     record_count_for_next_mem_check: u32,
     non_aligned_timeseries_last_time_map: BTreeMap<&'a str, BTreeMap<&'a str, i64>>,
     pub schema: Schema<'a>,
+    // an error left the file incomplete, it cannot be continued
+    failed: bool,
     #[allow(dead_code)]
     config: TsFileConfig,
 }
 
 impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
-    pub fn close(&mut self) {
+    /// Writes all remaining data and finishes the file.
+    /// The file is only complete if this returns `Ok`.
+    pub fn close(&mut self) -> Result<(), TsFileError> {
         log::info!("start close file");
-        self.flush_all_chunk_groups();
-        self.file_io_writer.end_file();
+        self.flush_all_chunk_groups()?;
+        let result = self.file_io_writer.end_file();
+        self.failed = result.is_err();
+        result
+    }
+
+    fn check_not_failed(&self) -> Result<(), TsFileError> {
+        if self.failed {
+            return Err(TsFileError::IllegalState {
+                source: Some("The file is incomplete due to an earlier error".to_owned()),
+            });
+        }
+        Ok(())
     }
 }
 
@@ -135,6 +150,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         timestamp: i64,
         value: IoTDBValue,
     ) -> Result<(), TsFileError> {
+        self.check_not_failed()?;
         match self.group_writers.get_mut(device) {
             Some(group) => {
                 let records_written = group.write(measurement_id, timestamp, value)?;
@@ -146,7 +162,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                 });
             }
         }
-        self.check_memory_size_and_may_flush_chunks();
+        self.check_memory_size_and_may_flush_chunks()?;
         Ok(())
     }
 
@@ -156,6 +172,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         timestamp: i64,
         values: impl IntoIterator<Item = DataPoint<'a>>,
     ) -> Result<(), TsFileError> {
+        self.check_not_failed()?;
         match self.group_writers.get_mut(device) {
             Some(group) => {
                 for dp in values {
@@ -165,7 +182,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             }
             None => return Err(TsFileError::IllegalState { source: None }),
         }
-        self.check_memory_size_and_may_flush_chunks();
+        self.check_memory_size_and_may_flush_chunks()?;
         Ok(())
     }
 
@@ -203,13 +220,20 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
     }
 
     fn flush_all_chunk_groups(&mut self) -> Result<bool, TsFileError> {
+        self.check_not_failed()?;
+        let result = self.try_flush_all_chunk_groups();
+        self.failed = result.is_err();
+        result
+    }
+
+    fn try_flush_all_chunk_groups(&mut self) -> Result<bool, TsFileError> {
         if self.record_count > 0 {
             for (&device_id, group_writer) in self.group_writers.iter_mut() {
                 // self.file_writer.start_chunk_group(device_id);
                 // self.file_writer
                 self.file_io_writer.start_chunk_group(device_id)?;
                 let pos = self.file_io_writer.out.get_position();
-                let data_size = group_writer.flush_to_filewriter(&mut self.file_io_writer);
+                let data_size = group_writer.flush_to_filewriter(&mut self.file_io_writer)?;
 
                 if self.file_io_writer.out.get_position() - pos != data_size {
                     return Err(TsFileError::IllegalState {
@@ -217,7 +241,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                     });
                 }
 
-                self.file_io_writer.end_chunk_group();
+                self.file_io_writer.end_chunk_group()?;
 
                 self.non_aligned_timeseries_last_time_map
                     .insert(device_id, group_writer.get_last_time_map());
@@ -338,6 +362,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         Ok(TsFileWriter {
             filename: String::from(""),
             schema,
+            failed: false,
             group_writers,
             chunk_group_metadata: vec![],
             timeseries_metadata_map: HashMap::new(),
-- 
2.43.0


From eb225114f08cf06b360ff7a43b10d2ab1ec2d261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 15/25] fix: failing to create the file is an error and no
 panic

---
 tsfile-writer/src/writer/tsfile_writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 4c9f902..186203a 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -314,9 +314,9 @@ impl<'a> TsFileWriter<'a, WriteWrapper<File>> {
                 return Err(TsFileError::Error { source: None });
             }
         };
-        create_dir_all(folder);
+        create_dir_all(folder)?;
         // Create the file
-        let file = WriteWrapper::new(File::create(filename).expect("create failed"));
+        let file = WriteWrapper::new(File::create(filename)?);
 
         TsFileWriter::new_from_writer(schema, file, config)
     }
-- 
2.43.0


From 2b655ae8f7e3c00accec65edb753b84ffc5b3b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 16/25] fix: statistics start from the first point

They started from the finite extremes: the minimum or maximum of infinities
and the first value at timestamp i64::MAX were wrong.
---
 tsfile-writer/src/writer/statistics.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tsfile-writer/src/writer/statistics.rs b/tsfile-writer/src/writer/statistics.rs
index 2411ce8..35999ab 100644
--- a/tsfile-writer/src/writer/statistics.rs
+++ b/tsfile-writer/src/writer/statistics.rs
@@ -136,18 +136,18 @@ macro_rules! implement_statistics {
             }
 
             pub(crate) fn merge(&mut self, statistics: &StatisticsStruct<$type, $sum>) {
-                if statistics.ts_first < self.ts_first {
+                if self.count == 0 || statistics.ts_first < self.ts_first {
                     self.ts_first = statistics.ts_first;
                     self.first_value = statistics.first_value;
                 }
-                if statistics.ts_last > self.ts_last {
+                if self.count == 0 || statistics.ts_last > self.ts_last {
                     self.ts_last = statistics.ts_last;
                     self.last_value = statistics.last_value;
                 }
-                if statistics.max_value > self.max_value {
+                if self.count == 0 || statistics.max_value > self.max_value {
                     self.max_value = statistics.max_value;
                 }
-                if statistics.min_value < self.min_value {
+                if self.count == 0 || statistics.min_value < self.min_value {
                     self.min_value = statistics.min_value;
                 }
                 self.count += statistics.count;
@@ -155,18 +155,18 @@ macro_rules! implement_statistics {
             }
 
             pub(crate) fn update(&mut self, timestamp: i64, value: $type) {
-                if timestamp < self.ts_first {
+                if self.count == 0 || timestamp < self.ts_first {
                     self.ts_first = timestamp;
                     self.first_value = value;
                 }
-                if timestamp > self.ts_last {
+                if self.count == 0 || timestamp > self.ts_last {
                     self.ts_last = timestamp;
                     self.last_value = value;
                 }
-                if value < self.min_value {
+                if self.count == 0 || value < self.min_value {
                     self.min_value = value;
                 }
-                if value > self.max_value {
+                if self.count == 0 || value > self.max_value {
                     self.max_value = value;
                 }
                 self.count += 1;
-- 
2.43.0


From 9d54b9ddd8988918c55b569f1344933b3f6da1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 17/25] fix: read_var_u32 continues after the byte 0xFF

---
 tsfile-writer/src/writer/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/utils.rs b/tsfile-writer/src/writer/utils.rs
index 3eeed38..87d4117 100644
--- a/tsfile-writer/src/writer/utils.rs
+++ b/tsfile-writer/src/writer/utils.rs
@@ -56,7 +56,7 @@ pub fn read_var_u32(buffer: &mut dyn Read) -> Result<u32, TsFileError> {
     let mut value: u32 = 0;
     let mut i: u8 = 0;
     let mut b = read_byte(buffer)?;
-    while b != u8::MAX && (b & 0x80) != 0 {
+    while (b & 0x80) != 0 {
         value |= ((b & 0x7F) as u32) << i;
         i += 7;
         b = read_byte(buffer)?;
-- 
2.43.0


From c4c14861b998343c1039e4dd8d97b35e3f6e1f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 18/25] fix: a closed file is not changed any more

Closing twice appended a second index and footer, and writes after closing
were accepted and lost.
---
 tsfile-writer/src/writer/tsfile_writer.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 186203a..cd26633 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -117,6 +117,7 @@ pub struct TsFileWriter<'a, T: PositionedWrite> {
     pub schema: Schema<'a>,
     // an error left the file incomplete, it cannot be continued
     failed: bool,
+    closed: bool,
     #[allow(dead_code)]
     config: TsFileConfig,
 }
@@ -125,13 +126,26 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
     /// Writes all remaining data and finishes the file.
     /// The file is only complete if this returns `Ok`.
     pub fn close(&mut self) -> Result<(), TsFileError> {
+        if self.closed {
+            return Ok(());
+        }
         log::info!("start close file");
         self.flush_all_chunk_groups()?;
         let result = self.file_io_writer.end_file();
         self.failed = result.is_err();
+        self.closed = result.is_ok();
         result
     }
 
+    fn check_not_closed(&self) -> Result<(), TsFileError> {
+        if self.closed {
+            return Err(TsFileError::IllegalState {
+                source: Some("The writer is closed".to_owned()),
+            });
+        }
+        Ok(())
+    }
+
     fn check_not_failed(&self) -> Result<(), TsFileError> {
         if self.failed {
             return Err(TsFileError::IllegalState {
@@ -150,6 +164,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         timestamp: i64,
         value: IoTDBValue,
     ) -> Result<(), TsFileError> {
+        self.check_not_closed()?;
         self.check_not_failed()?;
         match self.group_writers.get_mut(device) {
             Some(group) => {
@@ -172,6 +187,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         timestamp: i64,
         values: impl IntoIterator<Item = DataPoint<'a>>,
     ) -> Result<(), TsFileError> {
+        self.check_not_closed()?;
         self.check_not_failed()?;
         match self.group_writers.get_mut(device) {
             Some(group) => {
@@ -363,6 +379,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             filename: String::from(""),
             schema,
             failed: false,
+            closed: false,
             group_writers,
             chunk_group_metadata: vec![],
             timeseries_metadata_map: HashMap::new(),
-- 
2.43.0


From 83a7828776e2bbe31ef70c001ea0f2bd3eee118e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:18 +0000
Subject: [PATCH 19/25] fix: a rejected handshake is an error

The status of the receiver (-1: version or identity not accepted) was ignored.
---
 tsfile-writer/src/sync/sync_sender.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index 8535b8d..91dd12c 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -118,8 +118,8 @@ impl
         let result = self.client.check(confirm);
 
         match result {
-            Ok(_) => Ok(()),
-            Err(_) => Err(SyncSenderError::HandshakeError),
+            Ok(status) if status.code >= 0 => Ok(()),
+            _ => Err(SyncSenderError::HandshakeError),
         }
     }
 
-- 
2.43.0


From 5f594557144039230556db740957476054b9daa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:35 +0000
Subject: [PATCH 20/25] fix: a sync session transfers the given file and
 reports failures

The file was read from and announced as '0_0_' plus the whole path, a refused
digest of the file was ignored, and most failures panicked.
---
 tsfile-writer/src/sync/sync_sender.rs | 67 +++++++++++++--------------
 1 file changed, 31 insertions(+), 36 deletions(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index 91dd12c..781c6ec 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -14,7 +14,7 @@ use crate::writer::errors::TsFileError;
 use crate::writer::Schema;
 
 use crate::sync::mlog::MLog;
-use crate::sync::sync::{ConfirmInfo, SyncServiceSyncClient, TSyncServiceSyncClient};
+use crate::sync::sync::{ConfirmInfo, SyncServiceSyncClient, SyncStatus, TSyncServiceSyncClient};
 
 // TODO what is this?
 const PARTITION_INTERVAL: i64 = 604800;
@@ -36,6 +36,7 @@ pub enum SyncSenderError {
     UnableGenerateUuid,
     ConnectionError,
     HandshakeError,
+    SyncError,
 }
 
 impl From<thrift::Error> for SyncSenderError {
@@ -130,50 +131,44 @@ impl
         storage_group: &str,
         schema: Schema,
     ) -> Result<(), SyncSenderError> {
-        self.client.start_sync().expect("");
-        self.client.init(std::string::String::from(storage_group))?;
+        let path = std::path::Path::new(filename);
+        let basename = match path.file_name().and_then(|name| name.to_str()) {
+            Some(name) => name,
+            None => return Err(SyncSenderError::SyncError),
+        };
+        let bytes = fs::read(path).map_err(|_| SyncSenderError::SyncError)?;
 
-        // First sync a schema
-        self.client
-            .init_sync_data(std::string::String::from("mlog.bin"))?;
+        Self::check_status(self.client.start_sync()?)?;
+        Self::check_status(self.client.init(std::string::String::from(storage_group))?)?;
 
-        // Create the mlog
+        // First sync a schema
         let mlog_bytes: Vec<u8> =
-            Self::write_mlog(storage_group, schema).expect("Unable to write mlog");
-
-        self.client.sync_data(mlog_bytes.clone())?;
+            Self::write_mlog(storage_group, schema).map_err(|_| SyncSenderError::SyncError)?;
+        self.sync_file("mlog.bin", mlog_bytes)?;
 
-        let digest = Self::calculate_digest(&mlog_bytes);
-        println!("Digest of Sender: {}", digest);
-
-        match self.client.check_data_digest(digest) {
-            Ok(result) => {
-                println!("Result: {}, {}", result.code, result.msg);
-                if result.code == -1 {
-                    panic!("Digest does not match!")
-                }
-            }
-            _ => {
-                panic!("Error on digest!")
-            }
-        }
+        // Now the file itself, e.g. 0_0_1654074550252-1-0-0.tsfile
+        self.sync_file(&format!("0_0_{}", basename), bytes)?;
 
-        let filename = format!("0_0_{}", filename); // 1654074550252-1-0-0.tsfile";
+        Self::check_status(self.client.end_sync()?)?;
+        Ok(())
+    }
 
-        self.client.init_sync_data(filename.to_string()).expect("");
-        let bytes = fs::read(filename).expect("");
-        self.client.sync_data(bytes.clone()).expect("");
+    #[allow(dead_code)]
+    fn sync_file(&mut self, name: &str, bytes: Vec<u8>) -> Result<(), SyncSenderError> {
         let digest = Self::calculate_digest(&bytes);
         println!("Digest of Sender: {}", digest);
-        match self.client.check_data_digest(digest) {
-            Ok(result) => {
-                println!("Result: {}, {}", result.code, result.msg);
-            }
-            _ => {
-                println!("Error on digest!")
-            }
+
+        Self::check_status(self.client.init_sync_data(name.to_string())?)?;
+        Self::check_status(self.client.sync_data(bytes)?)?;
+        Self::check_status(self.client.check_data_digest(digest)?)
+    }
+
+    #[allow(dead_code)]
+    fn check_status(status: SyncStatus) -> Result<(), SyncSenderError> {
+        println!("Result: {}, {}", status.code, status.msg);
+        if status.code < 0 {
+            return Err(SyncSenderError::SyncError);
         }
-        self.client.end_sync()?;
         Ok(())
     }
 
-- 
2.43.0


From 46b203c1618fb4b00c3bb9d6de7ad236fb9d4657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:35 +0000
Subject: [PATCH 21/25] fix: python wrapper passes 64 bit timestamps

---
 tsfile-writer-c/rust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer-c/rust.py b/tsfile-writer-c/rust.py
index ec61128..346ed13 100644
--- a/tsfile-writer-c/rust.py
+++ b/tsfile-writer-c/rust.py
@@ -14,7 +14,7 @@ ffibuilder.cdef("""
     void schema_free(schema s);
     
     ts_file_writer file_writer_new(char* filename, schema s);
-    ts_file_writer file_writer_write_int32(ts_file_writer, char* device_id, char* measurement_id, int timestamp, int value);
+    ts_file_writer file_writer_write_int32(ts_file_writer, char* device_id, char* measurement_id, int64_t timestamp, int32_t value);
     void file_writer_close(ts_file_writer writer);
 """)
 
-- 
2.43.0


From 9155992a1f0834572cf3f3b2d4136778b18422f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:35 +0000
Subject: [PATCH 22/25] fix: unknown fields of the handshake's arguments are
 skipped

---
 tsfile-writer/src/sync/sync.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer/src/sync/sync.rs b/tsfile-writer/src/sync/sync.rs
index 7a2bf70..ca90be9 100644
--- a/tsfile-writer/src/sync/sync.rs
+++ b/tsfile-writer/src/sync/sync.rs
@@ -869,7 +869,7 @@ impl SyncServiceCheckArgs {
       }
       let field_id = field_id(&field_ident)?;
       match field_id {
-        neg1 => {
+        -1 => {
           let val = ConfirmInfo::read_from_in_protocol(i_prot)?;
           f_neg1 = Some(val);
         },
-- 
2.43.0


From 8e4e4e33aecb60fb5ad64e8ca9982c8649d0bf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:09 +0000
Subject: [PATCH 23/25] fix: check the buffered size after a partly refused
 multi-point write

---
 tsfile-writer/src/writer/tsfile_writer.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index cd26633..6a084a7 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -189,17 +189,24 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
     ) -> Result<(), TsFileError> {
         self.check_not_closed()?;
         self.check_not_failed()?;
+        let mut result = Ok(());
         match self.group_writers.get_mut(device) {
             Some(group) => {
                 for dp in values {
-                    let records_written = group.write(dp.measurement_id, timestamp, dp.value)?;
-                    self.record_count += records_written;
+                    match group.write(dp.measurement_id, timestamp, dp.value) {
+                        Ok(records_written) => self.record_count += records_written,
+                        Err(e) => {
+                            result = Err(e);
+                            break;
+                        }
+                    }
                 }
             }
             None => return Err(TsFileError::IllegalState { source: None }),
         }
+        // the points before a refused one are buffered as well
         self.check_memory_size_and_may_flush_chunks()?;
-        Ok(())
+        result
     }
 
     fn check_memory_size_and_may_flush_chunks(&mut self) -> Result<bool, TsFileError> {
-- 
2.43.0


From 53dade325abc0889d9f2f0c5cab11f8ac765afa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:33 +0000
Subject: [PATCH 24/25] fix: transfer large files in several pieces

---
 tsfile-writer/src/sync/sync_sender.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index 781c6ec..1892cd3 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -19,6 +19,9 @@ use crate::sync::sync::{ConfirmInfo, SyncServiceSyncClient, SyncStatus, TSyncSer
 // TODO what is this?
 const PARTITION_INTERVAL: i64 = 604800;
 
+// Files are transferred in pieces, as the size of a message is limited
+const DATA_PIECE_SIZE: usize = 64 * 1024 * 1024;
+
 pub struct SyncSender<IP, OP>
 where
     IP: TInputProtocol,
@@ -159,7 +162,11 @@ impl
         println!("Digest of Sender: {}", digest);
 
         Self::check_status(self.client.init_sync_data(name.to_string())?)?;
-        Self::check_status(self.client.sync_data(bytes)?)?;
+        // at least one piece, also of an empty file
+        for start in (0..bytes.len().max(1)).step_by(DATA_PIECE_SIZE) {
+            let end = bytes.len().min(start + DATA_PIECE_SIZE);
+            Self::check_status(self.client.sync_data(bytes[start..end].to_vec())?)?;
+        }
         Self::check_status(self.client.check_data_digest(digest)?)
     }
 
-- 
2.43.0


From 27bcf6dedb6592d023124e8edc78b5501e83751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:37 +0000
Subject: [PATCH 25/25] hooks: one cfg flag per group of hooks

---
 tsfile-writer/src/sync/mod.rs              |  8 ++++++--
 tsfile-writer/src/sync/sync_sender.rs      |  7 +++++--
 tsfile-writer/src/writer/mod.rs            |  7 +++++--
 tsfile-writer/src/writer/ts_file_config.rs |  5 +++--
 tsfile-writer/src/writer/tsfile_writer.rs  | 11 +++++++----
 5 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/tsfile-writer/src/sync/mod.rs b/tsfile-writer/src/sync/mod.rs
index 822ca94..ad6df61 100644
--- a/tsfile-writer/src/sync/mod.rs
+++ b/tsfile-writer/src/sync/mod.rs
@@ -9,13 +9,17 @@ mod mlog;
 mod sync;
 pub mod sync_sender;
 
-/// Access for the external verification harness, only with `--cfg verif_hooks`.
-#[cfg(verif_hooks)]
+/// Access for the external verification harness, only with `--cfg verif_hooks` (or, for a part of
+/// it, `--cfg verif_sync`, `--cfg verif_mlog`).
+#[cfg(any(verif_hooks, verif_sync, verif_mlog))]
 pub mod verif {
+    #[cfg(any(verif_hooks, verif_sync))]
     pub use super::sync::*;
 
+    #[cfg(any(verif_hooks, verif_mlog))]
     pub struct VerifMLog(super::mlog::MLog);
 
+    #[cfg(any(verif_hooks, verif_mlog))]
     impl VerifMLog {
         #[allow(clippy::new_without_default)]
         pub fn new() -> VerifMLog {
diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index 1892cd3..1499ff0 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -242,14 +242,16 @@ impl
     }
 }
 
-/// Access for the external verification harness, only with `--cfg verif_hooks`.
-#[cfg(verif_hooks)]
+/// Access for the external verification harness, only with `--cfg verif_hooks` (or, for a part of
+/// it, `--cfg verif_sync`, `--cfg verif_mlog`).
+#[cfg(any(verif_hooks, verif_sync, verif_mlog))]
 impl
     SyncSender<
         TBinaryInputProtocol<TFramedReadTransport<ReadHalf<TTcpChannel>>>,
         TBinaryOutputProtocol<TFramedWriteTransport<WriteHalf<TTcpChannel>>>,
     >
 {
+    #[cfg(any(verif_hooks, verif_sync))]
     pub fn verif_sync(
         &mut self,
         filename: &str,
@@ -259,6 +261,7 @@ impl
         self.sync(filename, storage_group, schema)
     }
 
+    #[cfg(any(verif_hooks, verif_mlog))]
     pub fn verif_write_mlog(storage_group: &str, schema: Schema) -> Result<Vec<u8>, TsFileError> {
         Self::write_mlog(storage_group, schema)
     }
diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 165ab23..60b6b67 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -1797,14 +1797,17 @@ mod tests {
 pub const ONLY_ONE_PAGE_CHUNK_HEADER: u8 = 5;
 pub const CHUNK_HEADER: u8 = 1;
 
-/// Access for the external verification harness, only with `--cfg verif_hooks`.
-#[cfg(verif_hooks)]
+/// Access for the external verification harness, only with `--cfg verif_hooks` (or, for a part of
+/// it, `--cfg verif_codec`, `--cfg verif_sink`).
+#[cfg(any(verif_hooks, verif_codec, verif_sink))]
 pub mod verif {
+    #[cfg(any(verif_hooks, verif_codec))]
     pub use crate::writer::utils::{
         read_var_u32, size_var_i32, size_var_u32, write_var_i32, write_var_u32,
     };
 
     /// The wrapper used for files, around any sink
+    #[cfg(any(verif_hooks, verif_sink))]
     pub fn wrap<T: std::io::Write>(sink: T) -> crate::writer::WriteWrapper<T> {
         crate::writer::WriteWrapper::new(sink)
     }
diff --git a/tsfile-writer/src/writer/ts_file_config.rs b/tsfile-writer/src/writer/ts_file_config.rs
index 224615c..69aa274 100644
--- a/tsfile-writer/src/writer/ts_file_config.rs
+++ b/tsfile-writer/src/writer/ts_file_config.rs
@@ -23,8 +23,9 @@ impl Default for TsFileConfig {
     }
 }
 
-/// Access for the external verification harness, only with `--cfg verif_hooks`.
-#[cfg(verif_hooks)]
+/// Access for the external verification harness, only with `--cfg verif_hooks` or
+/// `--cfg verif_degree`.
+#[cfg(any(verif_hooks, verif_degree))]
 impl TsFileConfig {
     pub fn verif_with_degree(max_degree_of_index_node: usize) -> TsFileConfig {
         TsFileConfig {
diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 6a084a7..5eff03a 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -399,9 +399,11 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
     }
 }
 
-/// Access for the external verification harness, only with `--cfg verif_hooks`.
-#[cfg(verif_hooks)]
+/// Access for the external verification harness, only with `--cfg verif_hooks` (or, for a part of
+/// it, `--cfg verif_sink`, `--cfg verif_flush`).
+#[cfg(any(verif_hooks, verif_sink, verif_flush))]
 impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
+    #[cfg(any(verif_hooks, verif_sink))]
     pub fn verif_from_writer(
         schema: Schema<'a>,
         sink: T,
@@ -411,7 +413,8 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
     }
 
     /// Flushes all chunk groups, as an automatic flush does
-    pub fn verif_flush(&mut self) -> Result<bool, TsFileError> {
-        self.flush_all_chunk_groups()
+    #[cfg(any(verif_hooks, verif_flush))]
+    pub fn verif_flush(&mut self) -> Result<(), TsFileError> {
+        self.flush_all_chunk_groups().map(|_| ())
     }
 }
-- 
2.43.0

