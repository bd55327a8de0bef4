From 97deb54989e5c7654173da75a93488b0dfbb375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 01/23] fix: order Element::Sentinel after every other element

---
 src/osm/model/element.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/osm/model/element.rs b/src/osm/model/element.rs
index 2d227a9..80a6ca0 100644
--- a/src/osm/model/element.rs
+++ b/src/osm/model/element.rs
@@ -300,13 +300,13 @@ impl Ord for Element {
             Element::Sentinel => {
                 match other {
                     Element::Node { .. } => {
-                        Ordering::Less
+                        Ordering::Greater
                     }
                     Element::Way { .. } => {
-                        Ordering::Less
+                        Ordering::Greater
                     }
                     Element::Relation { .. } => {
-                        Ordering::Less
+                        Ordering::Greater
                     }
                     Element::Sentinel => {
                         Ordering::Equal
-- 
2.43.0


From 925df503f861d583f6ffda3316fc0ba6cbfc4d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 02/23] fix: accept relations without ways and emit no empty
 block at a type change

---
 src/osm/pbf/element_accumulator.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/osm/pbf/element_accumulator.rs b/src/osm/pbf/element_accumulator.rs
index 70eaa6b..0d5868f 100644
--- a/src/osm/pbf/element_accumulator.rs
+++ b/src/osm/pbf/element_accumulator.rs
@@ -38,12 +38,19 @@ impl ElementAccumulator {
                     }
                     Element::Way { .. } => {
                         self.state = State::Ways;
-                        result = Some(std::mem::replace(&mut self.elements, Vec::with_capacity(self.block_size)));
-                        self.index += 1;
+                        if !self.elements.is_empty() {
+                            result = Some(std::mem::replace(&mut self.elements, Vec::with_capacity(self.block_size)));
+                            self.index += 1;
+                        }
                         self.add(element);
                     }
                     Element::Relation { .. } => {
-                        panic!("expected Element::Node or Element::Way but got Element::Relation");
+                        self.state = State::Relations;
+                        if !self.elements.is_empty() {
+                            result = Some(std::mem::replace(&mut self.elements, Vec::with_capacity(self.block_size)));
+                            self.index += 1;
+                        }
+                        self.add(element);
                     }
                     Element::Sentinel => {}
                 }
@@ -62,8 +69,10 @@ impl ElementAccumulator {
                     }
                     Element::Relation { .. } => {
                         self.state = State::Relations;
-                        result = Some(std::mem::replace(&mut self.elements, Vec::with_capacity(self.block_size)));
-                        self.index += 1;
+                        if !self.elements.is_empty() {
+                            result = Some(std::mem::replace(&mut self.elements, Vec::with_capacity(self.block_size)));
+                            self.index += 1;
+                        }
                         self.add(element);
                     }
                     Element::Sentinel => {}
-- 
2.43.0


From 7f82025052f81dbb3c8e43cb934dc3bf0e3c8fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 03/23] fix: write every element of a block that mixes element
 types

---
 src/osm/pbf/osm_data.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/osm/pbf/osm_data.rs b/src/osm/pbf/osm_data.rs
index fd3deba..dd6da8a 100644
--- a/src/osm/pbf/osm_data.rs
+++ b/src/osm/pbf/osm_data.rs
@@ -356,20 +356,22 @@ impl OsmData {
                 Element::Sentinel => {}
             }
         }
-        let mut primitivegroup = PrimitiveGroup::default();
+        let mut primitivegroup = Vec::<PrimitiveGroup>::new();
         if dense_group_builder.is_some() {
-            primitivegroup = dense_group_builder.unwrap().build();
-        } else if ways_group_builder.is_some() {
-            primitivegroup = ways_group_builder.unwrap().build();
-        } else if relations_group_builder.is_some() {
-            primitivegroup = relations_group_builder.unwrap().build();
+            primitivegroup.push(dense_group_builder.unwrap().build());
+        }
+        if ways_group_builder.is_some() {
+            primitivegroup.push(ways_group_builder.unwrap().build());
+        }
+        if relations_group_builder.is_some() {
+            primitivegroup.push(relations_group_builder.unwrap().build());
         }
 
         let stringtable = string_table_builder.build();
 
         let primitive_block = PrimitiveBlock {
             stringtable,
-            primitivegroup: vec![primitivegroup],
+            primitivegroup,
             granularity: Some(granularity),
             lat_offset: Some(lat_offset),
             lon_offset: Some(lon_offset),
-- 
2.43.0


From 636d6521c9fd9b1513a1c766f9b22ca01191764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 04/23] fix: read dense nodes whose DenseInfo carries only some
 of the fields

---
 src/osm/pbf/osm_data.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/osm/pbf/osm_data.rs b/src/osm/pbf/osm_data.rs
index dd6da8a..062f385 100644
--- a/src/osm/pbf/osm_data.rs
+++ b/src/osm/pbf/osm_data.rs
@@ -114,18 +114,18 @@ impl OsmData {
                 let mut version = 0_i32;
                 let mut user: String = String::default();
                 if let Some(info) = &dense.denseinfo {
-                    last_timestamp += info.timestamp[i];
+                    last_timestamp += info.timestamp.get(i).copied().unwrap_or(0);
                     timestamp = last_timestamp * date_granularity as i64;
-                    last_changeset += info.changeset[i];
-                    uid += info.uid[i];
-                    last_user_sid += info.user_sid[i];
+                    last_changeset += info.changeset.get(i).copied().unwrap_or(0);
+                    uid += info.uid.get(i).copied().unwrap_or(0);
+                    last_user_sid += info.user_sid.get(i).copied().unwrap_or(0);
                     let user_sid = last_user_sid as usize;
                     if info.visible.len() > i {
                         visible = info.visible[i];
                     } else {
                         visible = true;
                     }
-                    version = info.version[i];
+                    version = info.version.get(i).copied().unwrap_or(0);
                     user = string_table.index(user_sid).clone();
                 }
 
-- 
2.43.0


From 307cbf2809ea7e33e8a4f275d896d41483d37af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 05/23] fix: report a string table entry that is not UTF-8 as
 an error

---
 src/osm/pbf/osm_data.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/osm/pbf/osm_data.rs b/src/osm/pbf/osm_data.rs
index 062f385..599b97d 100644
--- a/src/osm/pbf/osm_data.rs
+++ b/src/osm/pbf/osm_data.rs
@@ -22,13 +22,13 @@ pub struct OsmData {
 impl OsmData {
     pub fn new(data: Vec<u8>) -> Result<OsmData, anyhow::Error> {
         let primitive_block = PrimitiveBlock::decode(&mut Cursor::new(data))?;
-        let string_table: Vec<String> = primitive_block.stringtable.s.iter()
+        let string_table = primitive_block.stringtable.s.iter()
             .map(
                 |e| {
-                    String::from_utf8(e.clone()).unwrap()
+                    String::from_utf8(e.clone())
                 }
             )
-            .collect();
+            .collect::<Result<Vec<String>, _>>()?;
         let granularity = primitive_block.granularity() as i64;
         let date_granularity = primitive_block.date_granularity();
         let lat_offset = primitive_block.lat_offset();
-- 
2.43.0


From c02f8178fefb5eba1b7d6d11877b50aaf632fcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 06/23] fix: round bounding box sides to the nearest nanodegree

---
 src/osm/pbf/osm_header.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/osm/pbf/osm_header.rs b/src/osm/pbf/osm_header.rs
index fac0fab..cf80fe6 100644
--- a/src/osm/pbf/osm_header.rs
+++ b/src/osm/pbf/osm_header.rs
@@ -62,10 +62,10 @@ impl OsmHeader {
 
     fn header_bbox(&self) -> Option<osmpbf::HeaderBBox> {
         self.info.bounding_box().as_ref().map(|bounding_box| osmpbf::HeaderBBox {
-            left: (bounding_box.left() * NANODEG) as i64,
-            right: (bounding_box.right() * NANODEG) as i64,
-            top: (bounding_box.top() * NANODEG) as i64,
-            bottom: (bounding_box.bottom() * NANODEG) as i64,
+            left: (bounding_box.left() * NANODEG).round() as i64,
+            right: (bounding_box.right() * NANODEG).round() as i64,
+            top: (bounding_box.top() * NANODEG).round() as i64,
+            bottom: (bounding_box.bottom() * NANODEG).round() as i64,
         })
     }
 
-- 
2.43.0


From 19108073c093e40a4dffcb3ab724f5881e31330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 07/23] fix: write a readable blob for a block whose encoding
 is empty

---
 src/osm/pbf/file_block.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/osm/pbf/file_block.rs b/src/osm/pbf/file_block.rs
index b211f4e..d65f85f 100644
--- a/src/osm/pbf/file_block.rs
+++ b/src/osm/pbf/file_block.rs
@@ -178,20 +178,16 @@ impl FileBlock {
             }
         };
 
-        let mut raw_size = None;
-        let mut data = None;
-        if !block_data.is_empty() {
-            raw_size = Some(block_data.len() as i32);
-            data = match compression {
-                CompressionType::Uncompressed => {
-                    Some(Data::Raw(block_data))
-                }
-                CompressionType::Zlib => {
-                    let encoded = Self::zlib_encode(block_data, compression_level)?;
-                    Some(Data::ZlibData(encoded))
-                }
-            };
-        }
+        let raw_size = Some(block_data.len() as i32);
+        let data = match compression {
+            CompressionType::Uncompressed => {
+                Some(Data::Raw(block_data))
+            }
+            CompressionType::Zlib => {
+                let encoded = Self::zlib_encode(block_data, compression_level)?;
+                Some(Data::ZlibData(encoded))
+            }
+        };
 
         let blob = osmpbf::Blob {
             raw_size,
-- 
2.43.0


From 6f689691622e417d4106c793c06dc6d0aebf6002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 08/23] fix: refuse zlib blobs that are truncated, corrupt or
 of another size than declared

---
 src/osm/pbf/file_block.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/osm/pbf/file_block.rs b/src/osm/pbf/file_block.rs
index d65f85f..e23e467 100644
--- a/src/osm/pbf/file_block.rs
+++ b/src/osm/pbf/file_block.rs
@@ -2,8 +2,7 @@ use std::fs::File;
 use std::io::{Cursor, Read, Seek, SeekFrom, Write};
 
 use anyhow::{anyhow, Context};
-use flate2::bufread::ZlibDecoder;
-use flate2::Compression;
+use flate2::{Compression, Decompress, FlushDecompress, Status};
 use flate2::write::ZlibEncoder;
 use prost::Message;
 
@@ -96,9 +95,12 @@ impl FileBlock {
     }
 
     fn zlib_decode(data: Vec<u8>, raw_size: usize) -> Result<Vec<u8>, anyhow::Error> {
-        let mut decoder = ZlibDecoder::new(data.as_slice());
-        let mut decoded = vec![0_u8; raw_size];
-        decoder.read_exact(&mut decoded)?;
+        // one spare byte, to notice data that is longer than declared
+        let mut decoded = Vec::with_capacity(raw_size + 1);
+        let status = Decompress::new(true).decompress_vec(&data, &mut decoded, FlushDecompress::Finish)?;
+        if status != Status::StreamEnd || decoded.len() != raw_size {
+            return Err(anyhow!("Corrupt zlib data: expected {} bytes", raw_size));
+        }
         Ok(decoded)
     }
 
@@ -124,8 +126,8 @@ impl FileBlock {
                         Ok(raw_data)
                     }
                     Data::ZlibData(zlib_data) => {
-                        // for now ignore that the uncompressed size is optional
-                        FileBlock::zlib_decode(zlib_data, blob.raw_size.unwrap() as usize)
+                        let raw_size = blob.raw_size.ok_or(anyhow!("Missing raw_size of zlib data"))?;
+                        FileBlock::zlib_decode(zlib_data, usize::try_from(raw_size)?)
                     }
                     Data::LzmaData(_) => {
                         Err(
-- 
2.43.0


From 83c081ae096721622923cccf67a69d27785d77e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 09/23] fix: iterate over any number of empty blocks and past
 repeated header blocks

---
 src/osm/pbf/element_iterator.rs | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/osm/pbf/element_iterator.rs b/src/osm/pbf/element_iterator.rs
index 256dd25..1e5736b 100644
--- a/src/osm/pbf/element_iterator.rs
+++ b/src/osm/pbf/element_iterator.rs
@@ -23,15 +23,12 @@ impl ElementIterator {
 
     #[allow(clippy::collapsible_match)]
     fn create_element_iterator(file_block_iterator: &mut FileBlockIterator) -> Option<IntoIter<Element>> {
-        if let Some(current_block) = file_block_iterator.next() {
+        while let Some(current_block) = file_block_iterator.next() {
             if let FileBlock::Data { metadata: _, mut data } = current_block {
-                Some(data.take_elements().into_iter())
-            } else {
-                None
+                return Some(data.take_elements().into_iter());
             }
-        } else {
-            None
         }
+        None
     }
 }
 
@@ -39,22 +36,17 @@ impl Iterator for ElementIterator {
     type Item = Element;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match &mut self.element_iterator {
-            None => {
-                None
-            }
-            Some(element_iterator) => {
-                let element = element_iterator.next();
-                match &element {
-                    None => {
-                        self.element_iterator = ElementIterator::create_element_iterator(&mut self.file_block_iterator);
-                        self.next()
-                    }
-                    Some(_) => {
-                        element
-                    }
+        while let Some(element_iterator) = &mut self.element_iterator {
+            let element = element_iterator.next();
+            match &element {
+                None => {
+                    self.element_iterator = ElementIterator::create_element_iterator(&mut self.file_block_iterator);
+                }
+                Some(_) => {
+                    return element;
                 }
             }
         }
+        None
     }
 }
-- 
2.43.0


From cb996999790306cb3db4faef312e720c391667b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 10/23] fix: report a file without nodes as an error when
 calculating its bounding box

---
 src/osm/pbf/bounding_box_calculator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/osm/pbf/bounding_box_calculator.rs b/src/osm/pbf/bounding_box_calculator.rs
index d9806f6..d5310e3 100644
--- a/src/osm/pbf/bounding_box_calculator.rs
+++ b/src/osm/pbf/bounding_box_calculator.rs
@@ -1,6 +1,7 @@
 use std::path::{Path, PathBuf};
 use std::sync::{Arc, Mutex};
 
+use anyhow::anyhow;
 use command_executor::shutdown_mode::ShutdownMode;
 use command_executor::thread_pool_builder::ThreadPoolBuilder;
 
@@ -47,6 +48,6 @@ impl BoundingBoxCalculator {
         tp.shutdown();
         tp.join()?;
         let mut result_guard = result.lock().unwrap();
-        Ok(result_guard.take().unwrap())
+        result_guard.take().ok_or(anyhow!("No nodes in {}", self.path.display()))
     }
 }
-- 
2.43.0


From 3a2ad378b7ed1c5bd010ec4256e61c4ed705c0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 11/23] fix: include nodes stored after ways or relations in
 the bounding box

---
 src/osm/pbf/calc_bounding_box_command.rs | 4 +---
 src/osm/pbf/osm_data.rs                  | 6 +++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/osm/pbf/calc_bounding_box_command.rs b/src/osm/pbf/calc_bounding_box_command.rs
index 4244201..b66c254 100644
--- a/src/osm/pbf/calc_bounding_box_command.rs
+++ b/src/osm/pbf/calc_bounding_box_command.rs
@@ -39,9 +39,7 @@ impl Command for CalcBoundingBoxCommand {
                             bounding_box.as_mut().unwrap().merge_point(node.coordinate());
                         }
                     }
-                    _ => {
-                        break;
-                    }
+                    _ => {}
                 }
             }
             if bounding_box.is_some() {
diff --git a/src/osm/pbf/osm_data.rs b/src/osm/pbf/osm_data.rs
index 599b97d..50de656 100644
--- a/src/osm/pbf/osm_data.rs
+++ b/src/osm/pbf/osm_data.rs
@@ -77,9 +77,9 @@ impl OsmData {
                         result.as_mut().unwrap().merge_point(node.coordinate());
                     }
                 }
-                Element::Way { .. } => { break; }
-                Element::Relation { .. } => { break; }
-                Element::Sentinel => { break; }
+                Element::Way { .. } => {}
+                Element::Relation { .. } => {}
+                Element::Sentinel => {}
             }
         }
         result
-- 
2.43.0


From 1bb48cfed327cf905b30471a77b91a48c98a47a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 12/23] fix: return the error of a failing call from
 parallel_for_each instead of panicking

---
 src/osm/pbf/reader.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/osm/pbf/reader.rs b/src/osm/pbf/reader.rs
index 57db0df..7e6114c 100644
--- a/src/osm/pbf/reader.rs
+++ b/src/osm/pbf/reader.rs
@@ -186,6 +186,7 @@ impl Reader {
             .with_queue_size(1024)
             .with_shutdown_mode(ShutdownMode::CompletePending)
             .with_name_str("parallel-element-iterator")
+            .with_join_error_handler(|name, message| log::error!("{name}: {message}"))
             .build()?;
 
         let f_wrapper = Arc::new(f);
-- 
2.43.0


From 78b5f503d0f5f1684096d3785546a6d64aaa2064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 13/23] fix: keep sentinels out of the blocks of the parallel
 writer

---
 src/osm/pbf/parallel_writer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index a53e951..379285f 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -160,6 +160,9 @@ impl Command for AddElementCommand {
         ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
             let mut element_guard = self.element.lock().unwrap();
             assert_order(element_guard.as_ref().unwrap());
+            if element_guard.as_ref().unwrap().is_sentinel() {
+                return;
+            }
             element_ordering_buffer.borrow_mut().push_back(element_guard.take().unwrap());
             if element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
                 flush_sorted_top()
@@ -187,6 +190,9 @@ impl Command for AddElementsCommand {
             let mut elements_guard = self.elements.lock().unwrap();
             for element in elements_guard.take().unwrap() {
                 assert_order(&element);
+                if element.is_sentinel() {
+                    continue;
+                }
                 element_ordering_buffer.borrow_mut().push_back(element);
             }
             if element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
-- 
2.43.0


From 98e0da64ce60e32917f1ca9670d2b7768404a8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 14/23] fix: compare late elements with the last element
 emitted by the parallel writer

---
 src/osm/pbf/parallel_writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index 379285f..f806d3e 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -39,7 +39,7 @@ fn flush_sorted_top() {
     ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
         element_ordering_buffer.borrow_mut().make_contiguous().sort();
         let elements = split_file_block(element_ordering_buffer);
-        set_current_min_element(elements.first());
+        set_current_min_element(elements.last());
         NEXT_THREAD_POOL.with(|thread_pool| {
             let thread_pool = thread_pool.borrow();
             let thread_pool_guard = thread_pool.as_ref().unwrap().read().unwrap();
@@ -54,7 +54,7 @@ fn flush_all_sorted() {
         element_ordering_buffer.borrow_mut().make_contiguous().sort();
         while !element_ordering_buffer.borrow().is_empty() {
             let elements = split_file_block(element_ordering_buffer);
-            set_current_min_element(elements.first());
+            set_current_min_element(elements.last());
             NEXT_THREAD_POOL.with(|thread_pool| {
                 let thread_pool = thread_pool.borrow();
                 let thread_pool_guard = thread_pool.as_ref().unwrap().read().unwrap();
-- 
2.43.0


From d454b92f6c24f3ce3cc5f890e2b823fa1e57f514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 15/23] fix: return an error from ParallelWriter::close for a
 late element instead of hanging

---
 src/osm/pbf/parallel_writer.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index f806d3e..b61fc2c 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -7,7 +7,7 @@ use std::path::PathBuf;
 use std::sync::{Arc, Mutex, RwLock};
 use std::thread::LocalKey;
 
-use anyhow::{anyhow, Error};
+use anyhow::{anyhow, ensure, Error};
 use command_executor::command::Command;
 use command_executor::shutdown_mode::ShutdownMode;
 use command_executor::thread_pool::ThreadPool;
@@ -106,9 +106,9 @@ fn compression_type() -> CompressionType {
     COMPRESSION_TYPE.with(|compression_type| compression_type.borrow().as_ref().unwrap().clone())
 }
 
-fn assert_order(element: &Element) {
+fn assert_order(element: &Element) -> Result<(), Error> {
     if !element.is_sentinel() {
-        assert!(
+        ensure!(
             compare_to_current_min_element(element).is_ge(),
             "Element order, required by OSM PBF definition is lost. \
                     Possible cause is that the length of the ordering buffer ({}) is too short \
@@ -117,6 +117,7 @@ fn assert_order(element: &Element) {
             element_ordering_buffer_size()
         );
     }
+    Ok(())
 }
 
 fn compare_to_current_min_element(element: &Element) -> Ordering {
@@ -159,16 +160,16 @@ impl Command for AddElementCommand {
     fn execute(&self) -> Result<(), Error> {
         ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
             let mut element_guard = self.element.lock().unwrap();
-            assert_order(element_guard.as_ref().unwrap());
+            assert_order(element_guard.as_ref().unwrap())?;
             if element_guard.as_ref().unwrap().is_sentinel() {
-                return;
+                return Ok(());
             }
             element_ordering_buffer.borrow_mut().push_back(element_guard.take().unwrap());
             if element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
                 flush_sorted_top()
             }
-        });
-        Ok(())
+            Ok(())
+        })
     }
 }
 
@@ -189,7 +190,7 @@ impl Command for AddElementsCommand {
         ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
             let mut elements_guard = self.elements.lock().unwrap();
             for element in elements_guard.take().unwrap() {
-                assert_order(&element);
+                assert_order(&element)?;
                 if element.is_sentinel() {
                     continue;
                 }
@@ -198,8 +199,8 @@ impl Command for AddElementsCommand {
             if element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
                 flush_sorted_top();
             }
-        });
-        Ok(())
+            Ok(())
+        })
     }
 }
 
@@ -417,6 +418,7 @@ impl ParallelWriter {
                         .with_tasks(tasks)
                         .with_queue_size(queue_size)
                         .with_shutdown_mode(ShutdownMode::CompletePending)
+                        .with_join_error_handler(|name, message| log::error!("{name}: {message}"))
                         .build()?
                 )
             )
-- 
2.43.0


From a9422ba5322655a9f7358702ff74a8b897900de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 16/23] fix: accept NULL changeset bounds and home zoom in
 apidb dumps

---
 src/osm/apidb_dump/read/changeset_record.rs | 24 ++++++++++-----------
 src/osm/apidb_dump/read/table_reader.rs     | 10 ++++-----
 src/osm/apidb_dump/read/user_record.rs      |  6 +++---
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/osm/apidb_dump/read/changeset_record.rs b/src/osm/apidb_dump/read/changeset_record.rs
index 928bacc..086d489 100644
--- a/src/osm/apidb_dump/read/changeset_record.rs
+++ b/src/osm/apidb_dump/read/changeset_record.rs
@@ -5,10 +5,10 @@ pub(crate) struct ChangesetRecord {
     id: i64,
     user_id: i64,
     created_at: NaiveDateTime,
-    min_lat: i32,
-    max_lat: i32,
-    min_lon: i32,
-    max_lon: i32,
+    min_lat: Option<i32>,
+    max_lat: Option<i32>,
+    min_lon: Option<i32>,
+    max_lon: Option<i32>,
     closed_at: NaiveDateTime,
     num_changes: i32,
 }
@@ -19,10 +19,10 @@ impl ChangesetRecord {
         id: i64,
         user_id: i64,
         created_at: NaiveDateTime,
-        min_lat: i32,
-        max_lat: i32,
-        min_lon: i32,
-        max_lon: i32,
+        min_lat: Option<i32>,
+        max_lat: Option<i32>,
+        min_lon: Option<i32>,
+        max_lon: Option<i32>,
         closed_at: NaiveDateTime,
         num_changes: i32,
     ) -> ChangesetRecord {
@@ -53,22 +53,22 @@ impl ChangesetRecord {
     }
 
     #[allow(dead_code)]
-    pub(crate) fn min_lat(&self) -> i32 {
+    pub(crate) fn min_lat(&self) -> Option<i32> {
         self.min_lat
     }
 
     #[allow(dead_code)]
-    pub(crate) fn max_lat(&self) -> i32 {
+    pub(crate) fn max_lat(&self) -> Option<i32> {
         self.max_lat
     }
 
     #[allow(dead_code)]
-    pub(crate) fn min_lon(&self) -> i32 {
+    pub(crate) fn min_lon(&self) -> Option<i32> {
         self.min_lon
     }
 
     #[allow(dead_code)]
-    pub(crate) fn max_lon(&self) -> i32 {
+    pub(crate) fn max_lon(&self) -> Option<i32> {
         self.max_lon
     }
 
diff --git a/src/osm/apidb_dump/read/table_reader.rs b/src/osm/apidb_dump/read/table_reader.rs
index ee4abbc..5e198da 100644
--- a/src/osm/apidb_dump/read/table_reader.rs
+++ b/src/osm/apidb_dump/read/table_reader.rs
@@ -375,10 +375,10 @@ impl TableReader {
                             i64::from_str(columns[*id]).unwrap(),
                             i64::from_str(columns[*user_id]).unwrap(),
                             parse_sql_time(columns[*created_at]).unwrap(),
-                            i32::from_str(columns[*min_lat]).unwrap(),
-                            i32::from_str(columns[*max_lat]).unwrap(),
-                            i32::from_str(columns[*min_lon]).unwrap(),
-                            i32::from_str(columns[*max_lon]).unwrap(),
+                            i32::from_str(columns[*min_lat]).ok(),
+                            i32::from_str(columns[*max_lat]).ok(),
+                            i32::from_str(columns[*min_lon]).ok(),
+                            i32::from_str(columns[*max_lon]).ok(),
                             parse_sql_time(columns[*closed_at]).unwrap(),
                             i32::from_str(columns[*num_changes]).unwrap(),
                         )
@@ -436,7 +436,7 @@ impl TableReader {
                             columns[*description].to_string(),
                             f64::from_str(columns[*home_lat]).ok(),
                             f64::from_str(columns[*home_lon]).ok(),
-                            i16::from_str(columns[*home_zoom]).unwrap(),
+                            i16::from_str(columns[*home_zoom]).ok(),
                             parse_sql_null_string(columns[*pass_salt]),
                             parse_sql_bool(columns[*email_valid]).unwrap(),
                             parse_sql_null_string(columns[*new_email]),
diff --git a/src/osm/apidb_dump/read/user_record.rs b/src/osm/apidb_dump/read/user_record.rs
index d0d9670..df15ff7 100644
--- a/src/osm/apidb_dump/read/user_record.rs
+++ b/src/osm/apidb_dump/read/user_record.rs
@@ -76,7 +76,7 @@ pub(crate) struct UserRecord {
     description: String,
     home_lat: Option<f64>,
     home_lon: Option<f64>,
-    home_zoom: i16,
+    home_zoom: Option<i16>,
     pass_salt: Option<String>,
     email_valid: bool,
     new_email: Option<String>,
@@ -110,7 +110,7 @@ impl UserRecord {
         description: String,
         home_lat: Option<f64>,
         home_lon: Option<f64>,
-        home_zoom: i16,
+        home_zoom: Option<i16>,
         pass_salt: Option<String>,
         email_valid: bool,
         new_email: Option<String>,
@@ -208,7 +208,7 @@ impl UserRecord {
     }
 
     #[allow(dead_code)]
-    pub(crate) fn home_zoom(&self) -> i16 {
+    pub(crate) fn home_zoom(&self) -> Option<i16> {
         self.home_zoom
     }
 
-- 
2.43.0


From 6d00a0dfe7c25b3c6d4de141626d7f3b1c2ac3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 17/23] fix: deliver relation members in sequence_id order

---
 src/osm/apidb_dump/read/table_pkey.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/osm/apidb_dump/read/table_pkey.rs b/src/osm/apidb_dump/read/table_pkey.rs
index 121b3c9..85c56d5 100644
--- a/src/osm/apidb_dump/read/table_pkey.rs
+++ b/src/osm/apidb_dump/read/table_pkey.rs
@@ -50,10 +50,11 @@ impl TablePkey {
                 // ADD CONSTRAINT relation_members_pkey PRIMARY KEY (relation_id, version, member_type, member_id, member_role, sequence_id);
                 key.push(Field::new(Self::index("relation_id", &fields)?, FieldType::Integer).with_str_name("relation_id"));
                 key.push(Field::new(Self::index("version", &fields)?, FieldType::Integer).with_str_name("version"));
+                // members are delivered in sequence_id order, so it precedes the rest of the key
+                key.push(Field::new(Self::index("sequence_id", &fields)?, FieldType::Integer).with_str_name("sequence_id"));
                 key.push(Field::new(Self::index("member_type", &fields)?, FieldType::String).with_str_name("member_type"));
                 key.push(Field::new(Self::index("member_id", &fields)?, FieldType::Integer).with_str_name("member_id"));
                 key.push(Field::new(Self::index("member_role", &fields)?, FieldType::String).with_str_name("member_role"));
-                key.push(Field::new(Self::index("sequence_id", &fields)?, FieldType::Integer).with_str_name("sequence_id"));
             }
             "public.relation_tags" => {
                 // ADD CONSTRAINT relation_tags_pkey PRIMARY KEY (relation_id, version, k);
-- 
2.43.0


From 0471219b074d1542273ec03c4d178345fa5d1ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 18/23] fix: report a missing users or changesets table as an
 error

---
 src/osm/apidb_dump/read/element_iterator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osm/apidb_dump/read/element_iterator.rs b/src/osm/apidb_dump/read/element_iterator.rs
index 23e92b1..8bfd798 100644
--- a/src/osm/apidb_dump/read/element_iterator.rs
+++ b/src/osm/apidb_dump/read/element_iterator.rs
@@ -73,7 +73,7 @@ impl ElementIterator {
 
     fn index_changesets(tables: &HashMap<String, TableDef>) -> Result<BtreeIndex<i64, i64>, anyhow::Error> {
         let mut changeset_user_index = BtreeIndex::<i64, i64>::with_capacity(BtreeConfig::default(), 0)?;
-        let reader = TableReader::new(tables.get("public.changesets").unwrap())?;
+        let reader = TableReader::new(tables.get("public.changesets").ok_or(anyhow!("missing table definition for public.changesets"))?)?;
         for record in reader {
             if let TableRecord::Changeset { changeset_record } = record {
                 changeset_user_index.insert(changeset_record.id(), changeset_record.user_id()).unwrap();
@@ -86,7 +86,7 @@ impl ElementIterator {
 
     fn index_users(tables: &HashMap<String, TableDef>) -> Result<BtreeIndex<i64, String>, anyhow::Error> {
         let mut user_index = BtreeIndex::<i64, String>::with_capacity(BtreeConfig::default(), 0)?;
-        let reader = TableReader::new(tables.get("public.users").unwrap())?;
+        let reader = TableReader::new(tables.get("public.users").ok_or(anyhow!("missing table definition for public.users"))?)?;
         for record in reader {
             if let TableRecord::User { user_record } = &record {
                 user_index.insert(user_record.id(), user_record.display_name().clone()).unwrap();
-- 
2.43.0


From 7bd33991d50e38018d08d5a32ae74a4471d21557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 19/23] fix: skip COPY text without a column list in the table
 of contents

---
 src/osm/apidb_dump/read/reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/osm/apidb_dump/read/reader.rs b/src/osm/apidb_dump/read/reader.rs
index a4d8d3d..b627e5a 100644
--- a/src/osm/apidb_dump/read/reader.rs
+++ b/src/osm/apidb_dump/read/reader.rs
@@ -39,7 +39,10 @@ impl Reader {
         let re = Regex::new("^([^ ]+) \\((.+)\\)$").unwrap();
         for raw_table_def in raw_table_defs {
             let table_data_path = input_path.join(&raw_table_def.1);
-            let captures = re.captures(&raw_table_def.0).unwrap();
+            let captures = match re.captures(&raw_table_def.0) {
+                None => { continue; }
+                Some(captures) => { captures }
+            };
             let name = captures.get(1).unwrap().as_str();
             if !TableFields::is_of_interest(name) {
                 continue;
-- 
2.43.0


From 1adf5691a1e3032756579df219f18ed5c928e325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 20/23] fix: escape and restore text of apidb dumps the way
 COPY does

---
 src/osm/apidb_dump/read/table_reader.rs | 21 ++++++------
 src/osm/apidb_dump/sql.rs               | 43 +++++++++++++++++++++++++
 src/osm/apidb_dump/write/writer.rs      | 18 +++++------
 3 files changed, 62 insertions(+), 20 deletions(-)

diff --git a/src/osm/apidb_dump/read/table_reader.rs b/src/osm/apidb_dump/read/table_reader.rs
index 5e198da..2627da3 100644
--- a/src/osm/apidb_dump/read/table_reader.rs
+++ b/src/osm/apidb_dump/read/table_reader.rs
@@ -4,7 +4,6 @@ use std::io::prelude::*;
 use std::str::FromStr;
 
 use anyhow::anyhow;
-use unescape::unescape;
 
 use crate::osm::apidb_dump::read::changeset_record::ChangesetRecord;
 use crate::osm::apidb_dump::read::node_record::NodeRecord;
@@ -19,7 +18,7 @@ use crate::osm::apidb_dump::read::user_record::{FormatEnum, UserRecord, UserStat
 use crate::osm::apidb_dump::read::way_node_record::WayNodeRecord;
 use crate::osm::apidb_dump::read::way_record::WayRecord;
 use crate::osm::apidb_dump::read::way_tag_record::WayTagRecord;
-use crate::osm::apidb_dump::sql::{parse_sql_bool, parse_sql_null_string, parse_sql_time};
+use crate::osm::apidb_dump::sql::{parse_sql_bool, parse_sql_null_string, parse_sql_time, unescape_sql_text};
 
 struct RecordBuilder {
     f: fn(&str, &TableDef, usize) -> Option<TableRecord>,
@@ -182,8 +181,8 @@ impl TableReader {
                         node_tag_record: NodeTagRecord::new(
                             i64::from_str(columns[*node_id]).unwrap(),
                             i64::from_str(columns[*version]).unwrap(),
-                            unescape(columns[*k]).unwrap_or(columns[*k].to_string()),
-                            unescape(columns[*v]).unwrap_or(columns[*v].to_string()),
+                            unescape_sql_text(columns[*k]),
+                            unescape_sql_text(columns[*v]),
                         )
                     }
                 )
@@ -261,8 +260,8 @@ impl TableReader {
                         way_tag_record: WayTagRecord::new(
                             i64::from_str(columns[*way_id]).unwrap(),
                             i64::from_str(columns[*version]).unwrap(),
-                            unescape(columns[*k]).unwrap_or(columns[*k].to_string()),
-                            unescape(columns[*v]).unwrap_or(columns[*v].to_string()),
+                            unescape_sql_text(columns[*k]),
+                            unescape_sql_text(columns[*v]),
                         )
                     }
                 )
@@ -318,7 +317,7 @@ impl TableReader {
                             i64::from_str(columns[*relation_id]).unwrap(),
                             RelationMemberType::try_from(columns[*member_type]).unwrap(),
                             i64::from_str(columns[*member_id]).unwrap(),
-                            unescape(columns[*member_role]).unwrap_or(columns[*member_role].to_string()),
+                            unescape_sql_text(columns[*member_role]),
                             i64::from_str(columns[*version]).unwrap(),
                             i64::from_str(columns[*sequence_id]).unwrap(),
                         )
@@ -344,8 +343,8 @@ impl TableReader {
                         relation_tag_record: RelationTagRecord::new(
                             i64::from_str(columns[*relation_id]).unwrap(),
                             i64::from_str(columns[*version]).unwrap(),
-                            unescape(columns[*k]).unwrap_or(columns[*k].to_string()),
-                            unescape(columns[*v]).unwrap_or(columns[*v].to_string()),
+                            unescape_sql_text(columns[*k]),
+                            unescape_sql_text(columns[*v]),
                         )
                     }
                 )
@@ -431,9 +430,9 @@ impl TableReader {
                             i64::from_str(columns[*id]).unwrap(),
                             columns[*pass_crypt].to_string(),
                             parse_sql_time(columns[*creation_time]).unwrap(),
-                            columns[*display_name].to_string(),
+                            unescape_sql_text(columns[*display_name]),
                             parse_sql_bool(columns[*data_public]).unwrap(),
-                            columns[*description].to_string(),
+                            unescape_sql_text(columns[*description]),
                             f64::from_str(columns[*home_lat]).ok(),
                             f64::from_str(columns[*home_lon]).ok(),
                             i16::from_str(columns[*home_zoom]).ok(),
diff --git a/src/osm/apidb_dump/sql.rs b/src/osm/apidb_dump/sql.rs
index f3cd056..b40f91a 100644
--- a/src/osm/apidb_dump/sql.rs
+++ b/src/osm/apidb_dump/sql.rs
@@ -35,6 +35,49 @@ pub(crate) fn parse_sql_null_string(s: &str) -> Option<String> {
     }
 }
 
+/// Escape a value the way COPY text format requires it
+pub(crate) fn escape_sql_text(s: &str) -> String {
+    let mut result = String::with_capacity(s.len());
+    for c in s.chars() {
+        match c {
+            '\\' => { result.push_str("\\\\"); }
+            '\u{0008}' => { result.push_str("\\b"); }
+            '\u{000C}' => { result.push_str("\\f"); }
+            '\n' => { result.push_str("\\n"); }
+            '\r' => { result.push_str("\\r"); }
+            '\t' => { result.push_str("\\t"); }
+            '\u{000B}' => { result.push_str("\\v"); }
+            _ => { result.push(c); }
+        }
+    }
+    result
+}
+
+/// Restore a value escaped by COPY text format
+pub(crate) fn unescape_sql_text(s: &str) -> String {
+    let mut result = String::with_capacity(s.len());
+    let mut escaped = false;
+    for c in s.chars() {
+        if escaped {
+            escaped = false;
+            match c {
+                'b' => { result.push('\u{0008}'); }
+                'f' => { result.push('\u{000C}'); }
+                'n' => { result.push('\n'); }
+                'r' => { result.push('\r'); }
+                't' => { result.push('\t'); }
+                'v' => { result.push('\u{000B}'); }
+                _ => { result.push(c); }
+            }
+        } else if c == '\\' {
+            escaped = true;
+        } else {
+            result.push(c);
+        }
+    }
+    result
+}
+
 pub(crate) fn to_sql_time_millis(t: i64) -> String {
     let datetime = DateTime::from_timestamp_millis(t).unwrap();
     let sql_time: String = datetime.to_rfc3339_opts(SecondsFormat::Secs, true);
diff --git a/src/osm/apidb_dump/write/writer.rs b/src/osm/apidb_dump/write/writer.rs
index 626a4ff..4e3965a 100644
--- a/src/osm/apidb_dump/write/writer.rs
+++ b/src/osm/apidb_dump/write/writer.rs
@@ -3,9 +3,8 @@ use std::io::Write;
 use std::path::PathBuf;
 
 use anyhow::{Context, Error};
-use escape_string::escape;
 
-use crate::osm::apidb_dump::sql::{calculate_tile, to_sql_bool, to_sql_time_millis, to_sql_time_micros};
+use crate::osm::apidb_dump::sql::{calculate_tile, escape_sql_text, to_sql_bool, to_sql_time_millis, to_sql_time_micros};
 use crate::osm::apidb_dump::write::current_object::{CurrentObjectLine, CurrentObjectLines};
 use crate::osm::apidb_dump::write::table_data_writers::TableDataWriters;
 use crate::osm::apidb_dump::write::toc::{load_template_mapping, write_toc};
@@ -121,8 +120,8 @@ impl Writer {
         for tag in tags {
             // public.node_tags (node_id, version, k, v)
             // template context: 4259.dat
-            let escaped_key = escape(tag.k());
-            let escaped_tag = escape(tag.v());
+            let escaped_key = escape_sql_text(tag.k());
+            let escaped_tag = escape_sql_text(tag.v());
             let node_tag_line = format!("{}\t{}\t{}\t{}\n",
                                         node.id(),
                                         node.version(),
@@ -196,8 +195,8 @@ impl Writer {
         for tag in way.take_tags() {
             // public.current_way_tags (way_id, k, v)
             // template context: 4235.dat
-            let escaped_key = escape(tag.k());
-            let escaped_tag = escape(tag.v());
+            let escaped_key = escape_sql_text(tag.k());
+            let escaped_tag = escape_sql_text(tag.v());
             let current_way_tag_line = format!("{}\t{}\t{}\n",
                                                way.id(),
                                                escaped_key,
@@ -277,7 +276,7 @@ impl Writer {
 
             // public.current_relation_members (relation_id, member_type, member_id, member_role, sequence_id)
             // template context: 4230.dat
-            let escaped_role = escape(member_role);
+            let escaped_role = escape_sql_text(member_role);
             let current_relation_member_line = format!("{}\t{}\t{}\t{}\t{}\n",
                                                        relation.id(),
                                                        member_type,
@@ -314,8 +313,8 @@ impl Writer {
         for tag in relation.take_tags() {
             // public.current_relation_tags (relation_id, k, v)
             // template context: 4231.dat
-            let escaped_key = escape(tag.k());
-            let escaped_tag = escape(tag.v());
+            let escaped_key = escape_sql_text(tag.k());
+            let escaped_tag = escape_sql_text(tag.v());
             let current_relation_tag_line = format!("{}\t{}\t{}\n",
                                                     relation.id(),
                                                     escaped_key,
@@ -422,6 +421,7 @@ impl Writer {
         // template context: 4290.dat
         for element in self.writers.user_index.range(..)? {
             let (user_id, user_name) = element?;
+            let user_name = escape_sql_text(&user_name);
 
             let t = chrono::offset::Utc::now();
             let osm_admin_user = format!("osm-admin-user-{}@example.com", user_id);
-- 
2.43.0


From f82609ac3feb8e3466df255f75b22e8b2205d05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 21/23] fix: return an error for a damaged block from
 BoundingBoxCalculator instead of panicking

---
 src/osm/pbf/bounding_box_calculator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/osm/pbf/bounding_box_calculator.rs b/src/osm/pbf/bounding_box_calculator.rs
index d5310e3..ec13845 100644
--- a/src/osm/pbf/bounding_box_calculator.rs
+++ b/src/osm/pbf/bounding_box_calculator.rs
@@ -26,6 +26,7 @@ impl BoundingBoxCalculator {
             .with_tasks(num_cpus::get())
             .with_queue_size(1024)
             .with_shutdown_mode(ShutdownMode::CompletePending)
+            .with_join_error_handler(|name, message| log::error!("{name}: {message}"))
             .build()?;
 
         let result = Arc::new(
-- 
2.43.0


From f29156b22c5995954d2c2f81b529329d91afee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:52 +0000
Subject: [PATCH 22/23] fix: parallel_for_each with more than 1024 tasks could
 hang on shutdown

---
 src/osm/pbf/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osm/pbf/reader.rs b/src/osm/pbf/reader.rs
index 7e6114c..87c7e2d 100644
--- a/src/osm/pbf/reader.rs
+++ b/src/osm/pbf/reader.rs
@@ -183,7 +183,7 @@ impl Reader {
     pub fn parallel_for_each(&self, tasks: usize, f: impl Fn(Element) -> Result<(), anyhow::Error> + Send + Sync + 'static) -> Result<(), anyhow::Error> {
         let mut iteration_pool = ThreadPoolBuilder::new()
             .with_tasks(tasks)
-            .with_queue_size(1024)
+            .with_queue_size(tasks.max(1024))
             .with_shutdown_mode(ShutdownMode::CompletePending)
             .with_name_str("parallel-element-iterator")
             .with_join_error_handler(|name, message| log::error!("{name}: {message}"))
-- 
2.43.0


From 2ac6ea07f66fe90f7827f7fccd427e5d47d4048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:52 +0000
Subject: [PATCH 23/23] fix: parallel_for_each with zero tasks never returned

---
 src/osm/pbf/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osm/pbf/reader.rs b/src/osm/pbf/reader.rs
index 87c7e2d..df2cd5f 100644
--- a/src/osm/pbf/reader.rs
+++ b/src/osm/pbf/reader.rs
@@ -182,7 +182,7 @@ impl Reader {
     /// ```
     pub fn parallel_for_each(&self, tasks: usize, f: impl Fn(Element) -> Result<(), anyhow::Error> + Send + Sync + 'static) -> Result<(), anyhow::Error> {
         let mut iteration_pool = ThreadPoolBuilder::new()
-            .with_tasks(tasks)
+            .with_tasks(tasks.max(1))
             .with_queue_size(tasks.max(1024))
             .with_shutdown_mode(ShutdownMode::CompletePending)
             .with_name_str("parallel-element-iterator")
-- 
2.43.0

