From d8d1cb6604b38e18343539343cca33636ceb90b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:23 +0000
Subject: [PATCH 01/55] fix: malformed RLE/bit-packed runs and LEB128 numbers
 are errors, not panics

A ULEB128 longer than 64 bits or not terminated, an RLE run whose value is cut
short, and an overflowing bit-packed length panicked (or wrapped); any number of
empty runs in sequence overflowed the stack.
---
 src/encoding/hybrid_rle/decoder.rs |  7 +++++-
 src/encoding/hybrid_rle/mod.rs     | 35 +++++++++++++++---------------
 src/encoding/uleb128.rs            |  8 +++----
 3 files changed, 27 insertions(+), 23 deletions(-)

diff --git a/src/encoding/hybrid_rle/decoder.rs b/src/encoding/hybrid_rle/decoder.rs
index 2dae52b..d0000ea 100644
--- a/src/encoding/hybrid_rle/decoder.rs
+++ b/src/encoding/hybrid_rle/decoder.rs
@@ -47,7 +47,7 @@ impl<'a> Iterator for Decoder<'a> {
 
         if indicator & 1 == 1 {
             // is bitpacking
-            let bytes = (indicator as usize >> 1) * self.num_bits;
+            let bytes = (indicator as usize >> 1).saturating_mul(self.num_bits);
             let bytes = std::cmp::min(bytes, self.values.len());
             let (result, remaining) = self.values.split_at(bytes);
             self.values = remaining;
@@ -57,6 +57,11 @@ impl<'a> Iterator for Decoder<'a> {
             let run_length = indicator as usize >> 1;
             // repeated-value := value that is repeated, using a fixed-width of round-up-to-next-byte(bit-width)
             let rle_bytes = ceil8(self.num_bits);
+            if rle_bytes > self.values.len() {
+                return Some(Err(Error::oos(
+                    "The value of an RLE run is cut short by the end of the data",
+                )));
+            }
             let (result, remaining) = self.values.split_at(rle_bytes);
             self.values = remaining;
             Some(Ok(HybridEncoded::Rle(result, run_length)))
diff --git a/src/encoding/hybrid_rle/mod.rs b/src/encoding/hybrid_rle/mod.rs
index 5886f46..4659e5e 100644
--- a/src/encoding/hybrid_rle/mod.rs
+++ b/src/encoding/hybrid_rle/mod.rs
@@ -84,26 +84,25 @@ impl<'a> Iterator for HybridRleDecoder<'a> {
         if self.remaining == 0 {
             return None;
         };
-        let result = match &mut self.state {
-            State::Single(opt_val) => {
-                // make sure to take so that next calls will return 'None'
-                // indicating that the iterator is finished.
-                opt_val.take()
+        // a loop, as there may be any number of empty runs
+        loop {
+            let result = match &mut self.state {
+                State::Single(opt_val) => {
+                    // make sure to take so that next calls will return 'None'
+                    // indicating that the iterator is finished.
+                    opt_val.take()
+                }
+                State::Bitpacked(decoder) => decoder.next(),
+                State::Rle(iter) => iter.next(),
+                State::None => Some(0),
+            };
+            if let Some(result) = result {
+                self.remaining -= 1;
+                return Some(Ok(result));
             }
-            State::Bitpacked(decoder) => decoder.next(),
-            State::Rle(iter) => iter.next(),
-            State::None => Some(0),
-        };
-        if let Some(result) = result {
-            self.remaining -= 1;
-            Some(Ok(result))
-        } else {
             match read_next(&mut self.decoder, self.remaining) {
-                Ok(state) => {
-                    self.state = state;
-                    self.next()
-                }
-                Err(e) => Some(Err(e)),
+                Ok(state) => self.state = state,
+                Err(e) => return Some(Err(e)),
             }
         }
     }
diff --git a/src/encoding/uleb128.rs b/src/encoding/uleb128.rs
index 5ca261e..6c6c61c 100644
--- a/src/encoding/uleb128.rs
+++ b/src/encoding/uleb128.rs
@@ -7,19 +7,19 @@ pub fn decode(values: &[u8]) -> Result<(u64, usize), Error> {
     let mut consumed = 0;
     for byte in values {
         consumed += 1;
-        if shift == 63 && *byte > 1 {
-            panic!()
+        if shift > 63 || (shift == 63 && *byte > 1) {
+            return Err(Error::oos("ULEB128 exceeds 64 bits"));
         };
 
         result |= u64::from(byte & 0b01111111) << shift;
 
         if byte & 0b10000000 == 0 {
-            break;
+            return Ok((result, consumed));
         }
 
         shift += 7;
     }
-    Ok((result, consumed))
+    Err(Error::oos("ULEB128 is not terminated"))
 }
 
 /// Encodes `value` in ULEB128 into `container`. The exact number of bytes written
-- 
2.43.0


From d1ce05f15d6b5a04945e499bbf95d5f483e3ae52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:41 +0000
Subject: [PATCH 02/55] fix: delta bit-packing wraps modulo 2^64 and rejects
 malformed headers

Differences that overflow i64 panicked (or, in release, were encoded with a wrong
bit width); zero or indivisible block sizes and bit widths above 64 panicked.
---
 src/encoding/delta_bitpacked/decoder.rs | 37 +++++++++++++++++++------
 src/encoding/delta_bitpacked/encoder.rs |  7 +++--
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/encoding/delta_bitpacked/decoder.rs b/src/encoding/delta_bitpacked/decoder.rs
index 86ce6c7..5fbd067 100644
--- a/src/encoding/delta_bitpacked/decoder.rs
+++ b/src/encoding/delta_bitpacked/decoder.rs
@@ -30,7 +30,10 @@ impl<'a> Block<'a> {
         values_per_mini_block: usize,
         length: usize,
     ) -> Result<Self, Error> {
-        let length = std::cmp::min(length, num_mini_blocks * values_per_mini_block);
+        let length = std::cmp::min(
+            length,
+            num_mini_blocks.saturating_mul(values_per_mini_block),
+        );
 
         let mut consumed_bytes = 0;
         let (min_delta, consumed) = zigzag_leb128::decode(values)?;
@@ -68,10 +71,14 @@ impl<'a> Block<'a> {
         // unwrap is ok: we sliced it by num_mini_blocks in try_new
         let num_bits = self.bitwidths.next().copied().unwrap() as usize;
 
+        if num_bits > 64 {
+            return Err(Error::oos("The bitwidth of a miniblock must be at most 64"));
+        }
+
         self.current_miniblock = if num_bits > 0 {
             let length = std::cmp::min(self.remaining, self.values_per_mini_block);
 
-            let miniblock_length = ceil8(self.values_per_mini_block * num_bits);
+            let miniblock_length = ceil8(self.values_per_mini_block.saturating_mul(num_bits));
             if miniblock_length > self.values.len() {
                 return Err(Error::oos(
                     "block must contain at least miniblock_length bytes (the mini block)",
@@ -99,12 +106,13 @@ impl<'a> Iterator for Block<'a> {
         if self.remaining == 0 {
             return None;
         }
-        let result = self.min_delta
-            + self
-                .current_miniblock
+        // deltas are defined modulo 2^64
+        let result = self.min_delta.wrapping_add(
+            self.current_miniblock
                 .as_mut()
                 .map(|x| x.next().unwrap_or_default())
-                .unwrap_or(0) as i64;
+                .unwrap_or(0) as i64,
+        );
         self.current_index += 1;
         self.remaining -= 1;
 
@@ -138,7 +146,9 @@ impl<'a> Decoder<'a> {
         let mut consumed_bytes = 0;
         let (block_size, consumed) = uleb128::decode(values)?;
         consumed_bytes += consumed;
-        assert_eq!(block_size % 128, 0);
+        if block_size == 0 || block_size % 128 != 0 {
+            return Err(Error::oos("The block size must be a multiple of 128"));
+        }
         values = &values[consumed..];
         let (num_mini_blocks, consumed) = uleb128::decode(values)?;
         let num_mini_blocks = num_mini_blocks as usize;
@@ -152,8 +162,17 @@ impl<'a> Decoder<'a> {
         consumed_bytes += consumed;
         values = &values[consumed..];
 
+        if num_mini_blocks == 0 || block_size as usize % num_mini_blocks != 0 {
+            return Err(Error::oos(
+                "The number of miniblocks must divide the block size",
+            ));
+        }
         let values_per_mini_block = block_size as usize / num_mini_blocks;
-        assert_eq!(values_per_mini_block % 8, 0);
+        if values_per_mini_block % 8 != 0 {
+            return Err(Error::oos(
+                "The number of values of a miniblock must be a multiple of 8",
+            ));
+        }
 
         // If we only have one value (first_value), there are no blocks.
         let current_block = if total_count > 1 {
@@ -234,7 +253,7 @@ impl<'a> Iterator for Decoder<'a> {
             Err(e) => return Some(Err(e)),
         };
 
-        self.next_value += delta;
+        self.next_value = self.next_value.wrapping_add(delta);
         result
     }
 
diff --git a/src/encoding/delta_bitpacked/encoder.rs b/src/encoding/delta_bitpacked/encoder.rs
index 7fa3b4a..e7c84b1 100644
--- a/src/encoding/delta_bitpacked/encoder.rs
+++ b/src/encoding/delta_bitpacked/encoder.rs
@@ -37,11 +37,12 @@ pub fn encode<I: Iterator<Item = i64>>(mut iterator: I, buffer: &mut Vec<u8>) {
         let mut max_delta = i64::MIN;
         let mut num_bits = 0;
         for (i, integer) in (0..128).zip(&mut iterator) {
-            let delta = integer - prev;
+            // deltas are defined modulo 2^64
+            let delta = integer.wrapping_sub(prev);
             min_delta = min_delta.min(delta);
             max_delta = max_delta.max(delta);
 
-            num_bits = 64 - (max_delta - min_delta).leading_zeros();
+            num_bits = 64 - max_delta.wrapping_sub(min_delta).leading_zeros();
             values[i] = delta;
             prev = integer;
         }
@@ -50,7 +51,7 @@ pub fn encode<I: Iterator<Item = i64>>(mut iterator: I, buffer: &mut Vec<u8>) {
         let values = &values[..consumed];
 
         values.iter().zip(deltas.iter_mut()).for_each(|(v, delta)| {
-            *delta = (v - min_delta) as u64;
+            *delta = v.wrapping_sub(min_delta) as u64;
         });
 
         // <min delta> <list of bitwidths of miniblocks> <miniblocks>
-- 
2.43.0


From bddcb5fdc0fe241acfbf63dfd8d98f7a03085635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:41 +0000
Subject: [PATCH 03/55] fix: delta byte array encoding of an item that is a
 prefix of the previous

The prefix length exceeded the item's length, which panicked.
---
 src/encoding/delta_byte_array/encoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/encoding/delta_byte_array/encoder.rs b/src/encoding/delta_byte_array/encoder.rs
index 10f6511..f35d5dd 100644
--- a/src/encoding/delta_byte_array/encoder.rs
+++ b/src/encoding/delta_byte_array/encoder.rs
@@ -16,7 +16,8 @@ pub fn encode<'a, I: Iterator<Item = &'a [u8]> + Clone>(iterator: I, buffer: &mu
                 .enumerate()
                 // find first difference
                 .find_map(|(length, (lhs, rhs))| (lhs != rhs).then_some(length))
-                .unwrap_or(previous.len());
+                // no difference => the shorter one is a prefix of the other
+                .unwrap_or_else(|| previous.len().min(item.len()));
             previous = item;
 
             sum_lengths += item.len() - prefix_length;
-- 
2.43.0


From a9edf6d049f714f14872fd5e2e7f5a38c34751a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:33 +0000
Subject: [PATCH 04/55] fix: a writer that failed or ended does not accept
 further writes

After a failed call the number of bytes written is unknown, so that what was
written afterwards (and the footer) had wrong offsets; the async writer could be
ended twice and both accepted row groups after the end.
---
 src/write/file.rs   | 11 ++++++-----
 src/write/mod.rs    | 18 ++++++++++++++++++
 src/write/stream.rs | 12 +++++++-----
 3 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/write/file.rs b/src/write/file.rs
index 1b28541..d6eaeab 100644
--- a/src/write/file.rs
+++ b/src/write/file.rs
@@ -124,6 +124,7 @@ impl<W: Write> FileWriter<W> {
     /// Returns an error if data has been written to the file.
     fn start(&mut self) -> Result<()> {
         if self.offset == 0 {
+            self.state = State::Failed; // until it succeeds
             self.offset = start_file(&mut self.writer)?;
             self.state = State::Started;
             Ok(())
@@ -142,9 +143,11 @@ impl<W: Write> FileWriter<W> {
         Error: From<E>,
         E: std::error::Error,
     {
+        self.state.check_writable()?;
         if self.offset == 0 {
             self.start()?;
         }
+        self.state = State::Failed; // until it succeeds
         let ordinal = self.row_groups.len();
         let (group, specs, size) = write_row_group(
             &mut self.writer,
@@ -156,21 +159,19 @@ impl<W: Write> FileWriter<W> {
         self.offset += size;
         self.row_groups.push(group);
         self.page_specs.push(specs);
+        self.state = State::Started;
         Ok(())
     }
 
     /// Writes the footer of the parquet file. Returns the total size of the file and the
     /// underlying writer.
     pub fn end(&mut self, key_value_metadata: Option<Vec<KeyValue>>) -> Result<u64> {
+        self.state.check_writable()?;
         if self.offset == 0 {
             self.start()?;
         }
+        self.state = State::Failed; // until it succeeds
 
-        if self.state != State::Started {
-            return Err(Error::InvalidParameter(
-                "End cannot be called twice".to_string(),
-            ));
-        }
         // compute file stats
         let num_rows = self.row_groups.iter().map(|group| group.num_rows).sum();
 
diff --git a/src/write/mod.rs b/src/write/mod.rs
index 16ba7ca..edf6702 100644
--- a/src/write/mod.rs
+++ b/src/write/mod.rs
@@ -21,6 +21,7 @@ pub use file::{write_metadata_sidecar, FileWriter};
 
 pub use row_group::ColumnOffsetsMetadata;
 
+use crate::error::{Error, Result};
 use crate::page::CompressedPage;
 
 pub type RowGroupIter<'a, E> =
@@ -48,6 +49,23 @@ enum State {
     Initialised,
     Started,
     Finished,
+    /// A previous call failed: an unknown number of bytes may have been written since
+    Failed,
+}
+
+impl State {
+    /// Errors unless row groups or the footer can still be written
+    fn check_writable(&self) -> Result<()> {
+        match self {
+            State::Initialised | State::Started => Ok(()),
+            State::Finished => Err(Error::InvalidParameter(
+                "The file has already been ended".to_string(),
+            )),
+            State::Failed => Err(Error::InvalidParameter(
+                "The file cannot be written to after a failed write".to_string(),
+            )),
+        }
+    }
 }
 
 impl From<Version> for i32 {
diff --git a/src/write/stream.rs b/src/write/stream.rs
index b750d9b..0eec309 100644
--- a/src/write/stream.rs
+++ b/src/write/stream.rs
@@ -98,6 +98,7 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
     /// Returns an error if data has been written to the file.
     async fn start(&mut self) -> Result<()> {
         if self.offset == 0 {
+            self.state = State::Failed; // until it succeeds
             self.offset = start_file(&mut self.writer).await? as u64;
             self.state = State::Started;
             Ok(())
@@ -114,9 +115,11 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
         Error: From<E>,
         E: std::error::Error,
     {
+        self.state.check_writable()?;
         if self.offset == 0 {
             self.start().await?;
         }
+        self.state = State::Failed; // until it succeeds
 
         let ordinal = self.row_groups.len();
         let (group, specs, size) = write_row_group_async(
@@ -130,21 +133,19 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
         self.offset += size;
         self.row_groups.push(group);
         self.page_specs.push(specs);
+        self.state = State::Started;
         Ok(())
     }
 
     /// Writes the footer of the parquet file. Returns the total size of the file and the
     /// underlying writer.
     pub async fn end(&mut self, key_value_metadata: Option<Vec<KeyValue>>) -> Result<u64> {
+        self.state.check_writable()?;
         if self.offset == 0 {
             self.start().await?;
         }
+        self.state = State::Failed; // until it succeeds
 
-        if self.state != State::Started {
-            return Err(Error::InvalidParameter(
-                "End cannot be called twice".to_string(),
-            ));
-        }
         // compute file stats
         let num_rows = self.row_groups.iter().map(|group| group.num_rows).sum();
 
@@ -184,6 +185,7 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
         );
 
         let len = end_file(&mut self.writer, metadata).await?;
+        self.state = State::Finished;
         Ok(self.offset + len)
     }
 
-- 
2.43.0


From 29d74dafab6be39a73a6d058f235231d71ce024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:58 +0000
Subject: [PATCH 05/55] fix: a row group must have a column chunk per column of
 the schema

Missing columns were written as a row group no reader accepts; surplus columns
were dropped silently.
---
 src/write/row_group.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/write/row_group.rs b/src/write/row_group.rs
index 2c07cb5..07fbb0d 100644
--- a/src/write/row_group.rs
+++ b/src/write/row_group.rs
@@ -75,6 +75,16 @@ fn compute_num_rows(columns: &[(ColumnChunk, Vec<PageWriteSpec>)]) -> Result<i64
         .unwrap_or(Ok(0))
 }
 
+fn check_num_columns(expected: usize, written: usize, has_more: bool) -> Result<()> {
+    if written != expected || has_more {
+        return Err(Error::InvalidParameter(format!(
+            "A row group must have exactly one column chunk per column of the schema ({})",
+            expected
+        )));
+    }
+    Ok(())
+}
+
 pub fn write_row_group<
     'a,
     W,
@@ -83,7 +93,10 @@ pub fn write_row_group<
     writer: &mut W,
     mut offset: u64,
     descriptors: &[ColumnDescriptor],
-    columns: DynIter<'a, std::result::Result<DynStreamingIterator<'a, CompressedPage, E>, E>>,
+    mut column_iters: DynIter<
+        'a,
+        std::result::Result<DynStreamingIterator<'a, CompressedPage, E>, E>,
+    >,
     ordinal: usize,
 ) -> Result<(RowGroup, Vec<Vec<PageWriteSpec>>, u64)>
 where
@@ -91,7 +104,7 @@ where
     Error: From<E>,
     E: std::error::Error,
 {
-    let column_iter = descriptors.iter().zip(columns);
+    let column_iter = descriptors.iter().zip(column_iters.by_ref());
 
     let initial = offset;
     let columns = column_iter
@@ -103,6 +116,7 @@ where
         })
         .collect::<Result<Vec<_>>>()?;
     let bytes_written = offset - initial;
+    check_num_columns(descriptors.len(), columns.len(), column_iters.next().is_some())?;
 
     let num_rows = compute_num_rows(&columns)?;
 
@@ -150,7 +164,10 @@ pub async fn write_row_group_async<
     writer: &mut W,
     mut offset: u64,
     descriptors: &[ColumnDescriptor],
-    columns: DynIter<'a, std::result::Result<DynStreamingIterator<'a, CompressedPage, E>, E>>,
+    mut column_iters: DynIter<
+        'a,
+        std::result::Result<DynStreamingIterator<'a, CompressedPage, E>, E>,
+    >,
     ordinal: usize,
 ) -> Result<(RowGroup, Vec<Vec<PageWriteSpec>>, u64)>
 where
@@ -158,7 +175,7 @@ where
     Error: From<E>,
     E: std::error::Error,
 {
-    let column_iter = descriptors.iter().zip(columns);
+    let column_iter = descriptors.iter().zip(column_iters.by_ref());
 
     let initial = offset;
     let mut columns = vec![];
@@ -169,6 +186,7 @@ where
         columns.push((column, page_specs));
     }
     let bytes_written = offset - initial;
+    check_num_columns(descriptors.len(), columns.len(), column_iters.next().is_some())?;
 
     let num_rows = compute_num_rows(&columns)?;
 
-- 
2.43.0


From 90ebf0946e92cb017ea3f73bec983120b89cb83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:05 +0000
Subject: [PATCH 06/55] fix: write whether a dictionary page is sorted

It was dropped, so that a sorted dictionary was read back as not sorted.
---
 src/write/page.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write/page.rs b/src/write/page.rs
index 0ba7fa4..ee56329 100644
--- a/src/write/page.rs
+++ b/src/write/page.rs
@@ -191,7 +191,7 @@ fn assemble_dict_page_header(page: &CompressedDictPage) -> Result<ParquetPageHea
         dictionary_page_header: Some(DictionaryPageHeader {
             num_values,
             encoding: Encoding::PLAIN,
-            is_sorted: None,
+            is_sorted: page.is_sorted.then_some(true),
         }),
         data_page_header_v2: None,
     })
-- 
2.43.0


From f7caf12d3070feb4e78ce0749fb6e310c201a0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:05 +0000
Subject: [PATCH 07/55] fix: order of a binary value and its prefix

A value that is a prefix of another is ordered before it; the chunk's minimum or
maximum was whichever came first.
---
 src/types.rs            | 2 +-
 src/write/statistics.rs | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 3e73688..cb64616 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -128,7 +128,7 @@ pub fn ord_binary<'a>(a: &'a [u8], b: &'a [u8]) -> std::cmp::Ordering {
             other => return other,
         }
     }
-    Equal
+    a.len().cmp(&b.len())
 }
 
 #[inline]
diff --git a/src/write/statistics.rs b/src/write/statistics.rs
index aaad15d..3653481 100644
--- a/src/write/statistics.rs
+++ b/src/write/statistics.rs
@@ -122,7 +122,12 @@ fn ord_binary(a: Vec<u8>, b: Vec<u8>, max: bool) -> Vec<u8> {
             _ => {}
         }
     }
-    a
+    // no difference => the shorter one is a prefix of the other and is ordered before it
+    if (a.len() > b.len()) == max {
+        a
+    } else {
+        b
+    }
 }
 
 fn reduce_boolean<'a, I: Iterator<Item = &'a BooleanStatistics>>(
-- 
2.43.0


From b8d07cc6d1f5c6f5c8debb25c4c4543dd8afe99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:05 +0000
Subject: [PATCH 08/55] fix: reduce the statistics of Int96 pages

Writing a column of this type with page statistics panicked (todo!()).
---
 src/write/statistics.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/write/statistics.rs b/src/write/statistics.rs
index 3653481..e8fe408 100644
--- a/src/write/statistics.rs
+++ b/src/write/statistics.rs
@@ -74,7 +74,24 @@ pub fn reduce(stats: &[&Option<Arc<dyn Statistics>>]) -> Result<Option<Arc<dyn S
             let stats = stats.iter().map(|x| x.as_any().downcast_ref().unwrap());
             Some(Arc::new(reduce_fix_len_binary(stats)))
         }
-        _ => todo!(),
+        PhysicalType::Int96 => {
+            let stats = stats.iter().map(|x| x.as_any().downcast_ref().unwrap());
+            Some(Arc::new(reduce_int96(stats)))
+        }
+    })
+}
+
+/// The order of Int96 is undefined and thus only the null count can be reduced
+fn reduce_int96<'a, I: Iterator<Item = &'a PrimitiveStatistics<[u32; 3]>>>(
+    mut stats: I,
+) -> PrimitiveStatistics<[u32; 3]> {
+    let initial = stats.next().unwrap().clone();
+    stats.fold(initial, |mut acc, new| {
+        acc.min_value = None;
+        acc.max_value = None;
+        acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
+        acc.distinct_count = None;
+        acc
     })
 }
 
-- 
2.43.0


From 9980cef159ae8df665714434d155674a6dcaa50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:14 +0000
Subject: [PATCH 09/55] fix: chunk statistics ignored pages whose statistics
 are unknown

The bounds and null count written for the chunk only covered the pages that had
them, so that readers could skip values of the other pages.
---
 src/write/column_chunk.rs | 15 ++++++++++++---
 src/write/statistics.rs   | 16 +++++++++++-----
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/write/column_chunk.rs b/src/write/column_chunk.rs
index 130455e..4ae8be5 100644
--- a/src/write/column_chunk.rs
+++ b/src/write/column_chunk.rs
@@ -22,7 +22,7 @@ use crate::{
 #[cfg(feature = "async")]
 use super::page::write_page_async;
 
-use super::page::{write_page, PageWriteSpec};
+use super::page::{is_data_page, write_page, PageWriteSpec};
 use super::statistics::reduce;
 use super::DynStreamingIterator;
 
@@ -176,8 +176,17 @@ fn build_column_chunk(
     // Sort the encodings to have deterministic metadata
     encodings.sort();
 
-    let statistics = specs.iter().map(|x| &x.statistics).collect::<Vec<_>>();
-    let statistics = reduce(&statistics)?;
+    let statistics = specs
+        .iter()
+        .filter(|x| is_data_page(x))
+        .map(|x| &x.statistics)
+        .collect::<Vec<_>>();
+    // a page without statistics may have any value => nothing is known about the chunk
+    let statistics = if statistics.iter().all(|x| x.is_some()) {
+        reduce(&statistics)?
+    } else {
+        None
+    };
     let statistics = statistics.map(|x| serialize_statistics(x.as_ref()));
 
     let (type_, _): (Type, Option<i32>) = descriptor.descriptor.primitive_type.physical_type.into();
diff --git a/src/write/statistics.rs b/src/write/statistics.rs
index e8fe408..39a95aa 100644
--- a/src/write/statistics.rs
+++ b/src/write/statistics.rs
@@ -15,6 +15,12 @@ fn reduce_single<T, F: Fn(T, T) -> T>(lhs: Option<T>, rhs: Option<T>, op: F) ->
     }
 }
 
+/// The null count of a chunk is only known if it is known for every page
+#[inline]
+fn reduce_null_count(lhs: Option<i64>, rhs: Option<i64>) -> Option<i64> {
+    Some(lhs? + rhs?)
+}
+
 #[inline]
 fn reduce_vec8(lhs: Option<Vec<u8>>, rhs: &Option<Vec<u8>>, max: bool) -> Option<Vec<u8>> {
     match (lhs, rhs) {
@@ -89,7 +95,7 @@ fn reduce_int96<'a, I: Iterator<Item = &'a PrimitiveStatistics<[u32; 3]>>>(
     stats.fold(initial, |mut acc, new| {
         acc.min_value = None;
         acc.max_value = None;
-        acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
+        acc.null_count = reduce_null_count(acc.null_count, new.null_count);
         acc.distinct_count = None;
         acc
     })
@@ -100,7 +106,7 @@ fn reduce_binary<'a, I: Iterator<Item = &'a BinaryStatistics>>(mut stats: I) ->
     stats.fold(initial, |mut acc, new| {
         acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false);
         acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true);
-        acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
+        acc.null_count = reduce_null_count(acc.null_count, new.null_count);
         acc.distinct_count = None;
         acc
     })
@@ -113,7 +119,7 @@ fn reduce_fix_len_binary<'a, I: Iterator<Item = &'a FixedLenStatistics>>(
     stats.fold(initial, |mut acc, new| {
         acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false);
         acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true);
-        acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
+        acc.null_count = reduce_null_count(acc.null_count, new.null_count);
         acc.distinct_count = None;
         acc
     })
@@ -162,7 +168,7 @@ fn reduce_boolean<'a, I: Iterator<Item = &'a BooleanStatistics>>(
             new.max_value,
             |x, y| if x & !(y) { x } else { y },
         );
-        acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
+        acc.null_count = reduce_null_count(acc.null_count, new.null_count);
         acc.distinct_count = None;
         acc
     })
@@ -187,7 +193,7 @@ fn reduce_primitive<
             new.max_value,
             |x, y| if x > y { x } else { y },
         );
-        acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
+        acc.null_count = reduce_null_count(acc.null_count, new.null_count);
         acc.distinct_count = None;
         acc
     })
-- 
2.43.0


From 638ff2a138a56b99db0cb6b4bdcc5fc40c8fbd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 10/55] fix: reduce statistics in the order of the column's
 type

Unsigned integers were compared as signed and decimals stored as bytes as
unsigned bytes, so that the bounds of the chunk did not cover its pages.
---
 src/write/statistics.rs | 60 +++++++++++++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 8 deletions(-)

diff --git a/src/write/statistics.rs b/src/write/statistics.rs
index 39a95aa..b58209d 100644
--- a/src/write/statistics.rs
+++ b/src/write/statistics.rs
@@ -1,7 +1,8 @@
 use std::sync::Arc;
 
 use crate::error::{Error, Result};
-use crate::schema::types::PhysicalType;
+use crate::metadata::{get_sort_order, SortOrder};
+use crate::schema::types::{PhysicalType, PrimitiveType};
 use crate::statistics::*;
 use crate::types::NativeType;
 
@@ -22,15 +23,29 @@ fn reduce_null_count(lhs: Option<i64>, rhs: Option<i64>) -> Option<i64> {
 }
 
 #[inline]
-fn reduce_vec8(lhs: Option<Vec<u8>>, rhs: &Option<Vec<u8>>, max: bool) -> Option<Vec<u8>> {
+fn reduce_vec8(
+    lhs: Option<Vec<u8>>,
+    rhs: &Option<Vec<u8>>,
+    max: bool,
+    is_signed: bool,
+) -> Option<Vec<u8>> {
     match (lhs, rhs) {
         (None, None) => None,
         (Some(x), None) => Some(x),
         (None, Some(x)) => Some(x.clone()),
+        (Some(x), Some(y)) if is_signed => Some(ord_signed(x, y.clone(), max)),
         (Some(x), Some(y)) => Some(ord_binary(x, y.clone(), max)),
     }
 }
 
+fn sort_order(type_: &PrimitiveType) -> SortOrder {
+    get_sort_order(
+        &type_.logical_type,
+        &type_.converted_type,
+        &type_.physical_type,
+    )
+}
+
 pub fn reduce(stats: &[&Option<Arc<dyn Statistics>>]) -> Result<Option<Arc<dyn Statistics>>> {
     if stats.is_empty() {
         return Ok(None);
@@ -103,9 +118,10 @@ fn reduce_int96<'a, I: Iterator<Item = &'a PrimitiveStatistics<[u32; 3]>>>(
 
 fn reduce_binary<'a, I: Iterator<Item = &'a BinaryStatistics>>(mut stats: I) -> BinaryStatistics {
     let initial = stats.next().unwrap().clone();
+    let is_signed = sort_order(&initial.primitive_type) == SortOrder::Signed;
     stats.fold(initial, |mut acc, new| {
-        acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false);
-        acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true);
+        acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false, is_signed);
+        acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true, is_signed);
         acc.null_count = reduce_null_count(acc.null_count, new.null_count);
         acc.distinct_count = None;
         acc
@@ -116,9 +132,10 @@ fn reduce_fix_len_binary<'a, I: Iterator<Item = &'a FixedLenStatistics>>(
     mut stats: I,
 ) -> FixedLenStatistics {
     let initial = stats.next().unwrap().clone();
+    let is_signed = sort_order(&initial.primitive_type) == SortOrder::Signed;
     stats.fold(initial, |mut acc, new| {
-        acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false);
-        acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true);
+        acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false, is_signed);
+        acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true, is_signed);
         acc.null_count = reduce_null_count(acc.null_count, new.null_count);
         acc.distinct_count = None;
         acc
@@ -153,6 +170,24 @@ fn ord_binary(a: Vec<u8>, b: Vec<u8>, max: bool) -> Vec<u8> {
     }
 }
 
+/// Same as [`ord_binary`] for big-endian two's complement numbers (e.g. decimals)
+fn ord_signed(a: Vec<u8>, b: Vec<u8>, max: bool) -> Vec<u8> {
+    let len = a.len().max(b.len());
+    // sign-extends to `len` bytes and flips the sign so that the order is the order of the bytes
+    let key = |x: &[u8]| {
+        let is_negative = x.first().map_or(false, |x| *x >= 0x80);
+        let mut key = vec![if is_negative { 0xff } else { 0 }; len - x.len()];
+        key.extend_from_slice(x);
+        key.insert(0, !is_negative as u8);
+        key
+    };
+    if (key(&a) > key(&b)) == max {
+        a
+    } else {
+        b
+    }
+}
+
 fn reduce_boolean<'a, I: Iterator<Item = &'a BooleanStatistics>>(
     mut stats: I,
 ) -> BooleanStatistics {
@@ -182,16 +217,25 @@ fn reduce_primitive<
     mut stats: I,
 ) -> PrimitiveStatistics<T> {
     let initial = stats.next().unwrap().clone();
+    let is_unsigned = sort_order(&initial.primitive_type) == SortOrder::Unsigned;
+    let gt = |x: &T, y: &T| {
+        if is_unsigned {
+            let (x, y) = (x.to_le_bytes(), y.to_le_bytes());
+            x.as_ref().iter().rev().gt(y.as_ref().iter().rev())
+        } else {
+            x > y
+        }
+    };
     stats.fold(initial, |mut acc, new| {
         acc.min_value = reduce_single(
             acc.min_value,
             new.min_value,
-            |x, y| if x > y { y } else { x },
+            |x, y| if gt(&x, &y) { y } else { x },
         );
         acc.max_value = reduce_single(
             acc.max_value,
             new.max_value,
-            |x, y| if x > y { x } else { y },
+            |x, y| if gt(&x, &y) { x } else { y },
         );
         acc.null_count = reduce_null_count(acc.null_count, new.null_count);
         acc.distinct_count = None;
-- 
2.43.0


From 977030d0242d16f4887e199747fcd48bfb6ec121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:45 +0000
Subject: [PATCH 11/55] fix: do not compress v2 pages declared as not
 compressed

---
 src/write/compression.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/write/compression.rs b/src/write/compression.rs
index d8ead08..e3d50e4 100644
--- a/src/write/compression.rs
+++ b/src/write/compression.rs
@@ -20,7 +20,12 @@ fn compress_data(
         selected_rows,
     } = page;
     let uncompressed_page_size = buffer.len();
-    if compression != CompressionOptions::Uncompressed {
+    // v2 pages may declare that they are not compressed
+    let is_compressed = match &header {
+        DataPageHeader::V1(_) => true,
+        DataPageHeader::V2(header) => header.is_compressed.unwrap_or(true),
+    };
+    if compression != CompressionOptions::Uncompressed && is_compressed {
         match &header {
             DataPageHeader::V1(_) => {
                 compression::compress(compression, &buffer, &mut compressed_buffer)?;
-- 
2.43.0


From 38e9aa20e91ff22e25d99fdb1b5f2eb5f674841d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:45 +0000
Subject: [PATCH 12/55] fix: clear the buffer given to compress

---
 src/write/compression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/write/compression.rs b/src/write/compression.rs
index e3d50e4..0656f9f 100644
--- a/src/write/compression.rs
+++ b/src/write/compression.rs
@@ -89,9 +89,10 @@ fn compress_dict(
 /// Errors if the compressor fails
 pub fn compress(
     page: Page,
-    compressed_buffer: Vec<u8>,
+    mut compressed_buffer: Vec<u8>,
     compression: CompressionOptions,
 ) -> Result<CompressedPage> {
+    compressed_buffer.clear(); // the codecs append to the buffer
     match page {
         Page::Data(page) => {
             compress_data(page, compressed_buffer, compression).map(CompressedPage::Data)
-- 
2.43.0


From 352a8b87c0d8c2ac0a50479fa99c60394a1a77a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:45 +0000
Subject: [PATCH 13/55] fix: compressing a page with invalid level lengths is
 an error, not a panic

---
 src/write/compression.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/write/compression.rs b/src/write/compression.rs
index 0656f9f..97ceb2a 100644
--- a/src/write/compression.rs
+++ b/src/write/compression.rs
@@ -31,15 +31,16 @@ fn compress_data(
                 compression::compress(compression, &buffer, &mut compressed_buffer)?;
             }
             DataPageHeader::V2(header) => {
-                let levels_byte_length = (header.repetition_levels_byte_length
-                    + header.definition_levels_byte_length)
-                    as usize;
-                compressed_buffer.extend_from_slice(&buffer[..levels_byte_length]);
-                compression::compress(
-                    compression,
-                    &buffer[levels_byte_length..],
-                    &mut compressed_buffer,
-                )?;
+                let levels_byte_length = header.repetition_levels_byte_length as i64
+                    + header.definition_levels_byte_length as i64;
+                if levels_byte_length < 0 || levels_byte_length > buffer.len() as i64 {
+                    return Err(Error::oos(
+                        "The length of the levels of a page must be within the page",
+                    ));
+                }
+                let (levels, values) = buffer.split_at(levels_byte_length as usize);
+                compressed_buffer.extend_from_slice(levels);
+                compression::compress(compression, values, &mut compressed_buffer)?;
             }
         };
     } else {
-- 
2.43.0


From f15dd0a5292ea3b53831febed403ec3dd21ae887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:45 +0000
Subject: [PATCH 14/55] fix: offset of a column chunk without pages

---
 src/write/column_chunk.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/write/column_chunk.rs b/src/write/column_chunk.rs
index 4ae8be5..c397dc4 100644
--- a/src/write/column_chunk.rs
+++ b/src/write/column_chunk.rs
@@ -49,7 +49,7 @@ where
     }
     let mut bytes_written = offset - initial;
 
-    let column_chunk = build_column_chunk(&specs, descriptor)?;
+    let column_chunk = build_column_chunk(initial, &specs, descriptor)?;
 
     // write metadata
     let mut protocol = TCompactOutputProtocol::new(writer);
@@ -85,7 +85,7 @@ where
     }
     let mut bytes_written = offset - initial;
 
-    let column_chunk = build_column_chunk(&specs, descriptor)?;
+    let column_chunk = build_column_chunk(initial, &specs, descriptor)?;
 
     // write metadata
     let mut protocol = TCompactOutputStreamProtocol::new(writer);
@@ -100,6 +100,7 @@ where
 }
 
 fn build_column_chunk(
+    initial: u64,
     specs: &[PageWriteSpec],
     descriptor: &ColumnDescriptor,
 ) -> Result<ColumnChunk> {
@@ -129,7 +130,7 @@ fn build_column_chunk(
         .iter()
         .map(|x| x.header_size as i64 + x.header.uncompressed_page_size as i64)
         .sum();
-    let data_page_offset = specs.first().map(|spec| spec.offset).unwrap_or(0) as i64;
+    let data_page_offset = specs.first().map(|spec| spec.offset).unwrap_or(initial) as i64;
     let num_values = specs
         .iter()
         .map(|spec| {
-- 
2.43.0


From dc93377d12f9b716912b95faef618a8d7351dc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:33 +0000
Subject: [PATCH 15/55] fix: pages and intervals without rows do not select
 anything

---
 src/indexes/intervals.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/indexes/intervals.rs b/src/indexes/intervals.rs
index b3e3e00..3572772 100644
--- a/src/indexes/intervals.rs
+++ b/src/indexes/intervals.rs
@@ -101,10 +101,11 @@ fn is_in(probe: Interval, intervals: &[Interval]) -> Vec<Interval> {
         .filter_map(|interval| {
             let interval_end = interval.start + interval.length;
             let probe_end = probe.start + probe.length;
-            let overlaps = (probe.start < interval_end) && (probe_end > interval.start);
+            let start = interval.start.max(probe.start);
+            let end = interval_end.min(probe_end);
+            // pages and intervals may be empty, in which case there is nothing to select
+            let overlaps = start < end;
             if overlaps {
-                let start = interval.start.max(probe.start);
-                let end = interval_end.min(probe_end);
                 Some(Interval::new(start - probe.start, end - start))
             } else {
                 None
-- 
2.43.0


From 1a74e6a9ce6ee29225502577aee733345912e7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:20 +0000
Subject: [PATCH 16/55] fix: read the indexes of any selection of column chunks

---
 src/read/indexes/read.rs | 138 ++++++++++++++++-----------------------
 1 file changed, 58 insertions(+), 80 deletions(-)

diff --git a/src/read/indexes/read.rs b/src/read/indexes/read.rs
index 546dd79..437573c 100644
--- a/src/read/indexes/read.rs
+++ b/src/read/indexes/read.rs
@@ -10,71 +10,56 @@ use crate::metadata::ColumnChunkMetaData;
 
 use super::deserialize::deserialize;
 
+/// Returns the position and length of the index of each chunk,
+/// empty if any of the chunks does not have it.
 fn prepare_read<F: Fn(&ColumnChunk) -> Option<i64>, G: Fn(&ColumnChunk) -> Option<i32>>(
     chunks: &[ColumnChunkMetaData],
     get_offset: F,
     get_length: G,
-) -> Result<(u64, Vec<usize>), Error> {
-    // c1: [start, length]
-    // ...
-    // cN: [start, length]
-
-    let first_chunk = if let Some(chunk) = chunks.first() {
-        chunk
-    } else {
-        return Ok((0, vec![]));
-    };
-    let metadata = first_chunk.column_chunk();
-
-    let offset: u64 = if let Some(offset) = get_offset(metadata) {
-        offset.try_into()?
-    } else {
-        return Ok((0, vec![]));
-    };
-
-    let lengths = chunks
-        .iter()
-        .map(|x| get_length(x.column_chunk()))
-        .map(|maybe_length| {
-            let index_length = maybe_length.ok_or_else(|| {
-                Error::oos("The column length must exist if column offset exists")
-            })?;
-
-            Ok(index_length.try_into()?)
+) -> Result<Vec<(u64, usize)>, Error> {
+    let metadata = chunks.iter().map(|x| x.column_chunk());
+
+    if metadata.clone().any(|x| get_offset(x).is_none()) {
+        return Ok(vec![]);
+    }
+
+    metadata
+        .map(|x| {
+            let offset = get_offset(x).unwrap().try_into()?;
+            let length = get_length(x)
+                .ok_or_else(|| {
+                    Error::oos("The column length must exist if column offset exists")
+                })?
+                .try_into()?;
+            Ok((offset, length))
         })
-        .collect::<Result<Vec<_>, Error>>()?;
-
-    Ok((offset, lengths))
+        .collect()
 }
 
-fn prepare_column_index_read(chunks: &[ColumnChunkMetaData]) -> Result<(u64, Vec<usize>), Error> {
+fn prepare_column_index_read(chunks: &[ColumnChunkMetaData]) -> Result<Vec<(u64, usize)>, Error> {
     prepare_read(chunks, |x| x.column_index_offset, |x| x.column_index_length)
 }
 
-fn prepare_offset_index_read(chunks: &[ColumnChunkMetaData]) -> Result<(u64, Vec<usize>), Error> {
+fn prepare_offset_index_read(chunks: &[ColumnChunkMetaData]) -> Result<Vec<(u64, usize)>, Error> {
     prepare_read(chunks, |x| x.offset_index_offset, |x| x.offset_index_length)
 }
 
-fn deserialize_column_indexes(
-    chunks: &[ColumnChunkMetaData],
-    data: &[u8],
-    lengths: Vec<usize>,
-) -> Result<Vec<Box<dyn Index>>, Error> {
-    let mut start = 0;
-    let data = lengths.into_iter().map(|length| {
-        let r = &data[start..start + length];
-        start += length;
-        r
-    });
+/// Reads `length` bytes at `offset` to `data`
+fn read_at<R: Read + Seek>(
+    reader: &mut R,
+    offset: u64,
+    length: usize,
+    data: &mut Vec<u8>,
+) -> Result<(), Error> {
+    reader.seek(SeekFrom::Start(offset))?;
 
-    chunks
-        .iter()
-        .zip(data)
-        .map(|(chunk, data)| {
-            let primitive_type = chunk.descriptor().descriptor.primitive_type.clone();
-            deserialize(data, primitive_type)
-        })
-        .collect()
+    data.clear();
+    data.try_reserve(length)?;
+    reader.by_ref().take(length as u64).read_to_end(data)?;
+    if data.len() != length {
+        return Err(Error::oos("The index of a column must be within the file"));
+    }
+    Ok(())
 }
 
 /// Reads the column indexes of all [`ColumnChunkMetaData`] and deserializes them into [`Index`].
@@ -83,33 +68,27 @@ pub fn read_columns_indexes<R: Read + Seek>(
     reader: &mut R,
     chunks: &[ColumnChunkMetaData],
 ) -> Result<Vec<Box<dyn Index>>, Error> {
-    let (offset, lengths) = prepare_column_index_read(chunks)?;
-
-    let length = lengths.iter().sum::<usize>();
-
-    reader.seek(SeekFrom::Start(offset))?;
+    let ranges = prepare_column_index_read(chunks)?;
 
     let mut data = vec![];
-    data.try_reserve(length)?;
-    reader.by_ref().take(length as u64).read_to_end(&mut data)?;
-
-    deserialize_column_indexes(chunks, &data, lengths)
+    chunks
+        .iter()
+        .zip(ranges)
+        .map(|(chunk, (offset, length))| {
+            read_at(reader, offset, length, &mut data)?;
+            let primitive_type = chunk.descriptor().descriptor.primitive_type.clone();
+            deserialize(&data, primitive_type)
+        })
+        .collect()
 }
 
-fn deserialize_page_locations(
-    data: &[u8],
-    column_number: usize,
-) -> Result<Vec<Vec<PageLocation>>, Error> {
+fn deserialize_page_locations(data: &[u8]) -> Result<Vec<PageLocation>, Error> {
     let len = data.len() * 2 + 1024;
     let mut reader = Cursor::new(data);
 
-    (0..column_number)
-        .map(|_| {
-            let mut prot = TCompactInputProtocol::new(&mut reader, len);
-            let offset = OffsetIndex::read_from_in_protocol(&mut prot)?;
-            Ok(offset.page_locations)
-        })
-        .collect()
+    let mut prot = TCompactInputProtocol::new(&mut reader, len);
+    let offset = OffsetIndex::read_from_in_protocol(&mut prot)?;
+    Ok(offset.page_locations)
 }
 
 /// Read [`PageLocation`]s from the [`ColumnChunkMetaData`]s.
@@ -118,15 +97,14 @@ pub fn read_pages_locations<R: Read + Seek>(
     reader: &mut R,
     chunks: &[ColumnChunkMetaData],
 ) -> Result<Vec<Vec<PageLocation>>, Error> {
-    let (offset, lengths) = prepare_offset_index_read(chunks)?;
-
-    let length = lengths.iter().sum::<usize>();
-
-    reader.seek(SeekFrom::Start(offset))?;
+    let ranges = prepare_offset_index_read(chunks)?;
 
     let mut data = vec![];
-    data.try_reserve(length)?;
-    reader.by_ref().take(length as u64).read_to_end(&mut data)?;
-
-    deserialize_page_locations(&data, chunks.len())
+    ranges
+        .into_iter()
+        .map(|(offset, length)| {
+            read_at(reader, offset, length, &mut data)?;
+            deserialize_page_locations(&data)
+        })
+        .collect()
 }
-- 
2.43.0


From ba80058918bde792cd32dfb17d8f917b7a9daa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:47 +0000
Subject: [PATCH 17/55] fix: pages with values but without bounds are not null
 pages

---
 src/write/indexes/serialize.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/write/indexes/serialize.rs b/src/write/indexes/serialize.rs
index df48153..e2d392b 100644
--- a/src/write/indexes/serialize.rs
+++ b/src/write/indexes/serialize.rs
@@ -35,6 +35,9 @@ pub fn serialize_column_index(pages: &[PageWriteSpec]) -> Result<ColumnIndex> {
                             .ok_or_else(|| Error::oos("max value of a page is required"))?,
                     );
                     null_pages.push(false)
+                } else if null_count != spec.num_values as i64 {
+                    // only pages without (non-null) values can be null pages
+                    return Err(Error::oos("min value of a page is required"));
                 } else {
                     min_values.push(vec![0]);
                     max_values.push(vec![0]);
-- 
2.43.0


From 06b5366571046c875e078b9a81098a4a8077bbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:42 +0000
Subject: [PATCH 18/55] fix: chunk bounds are unknown when the bounds of a page
 with values are

---
 src/write/column_chunk.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/write/column_chunk.rs b/src/write/column_chunk.rs
index c397dc4..8da3164 100644
--- a/src/write/column_chunk.rs
+++ b/src/write/column_chunk.rs
@@ -188,7 +188,23 @@ fn build_column_chunk(
     } else {
         None
     };
-    let statistics = statistics.map(|x| serialize_statistics(x.as_ref()));
+    let statistics = statistics.map(|x| {
+        let mut statistics = serialize_statistics(x.as_ref());
+        // a bound is only known if it is known for every page with (non-null) values
+        for spec in specs.iter().filter(|x| is_data_page(x)) {
+            let page = serialize_statistics(spec.statistics.as_ref().unwrap().as_ref());
+            if page.null_count == Some(spec.num_values as i64) {
+                continue;
+            }
+            if page.min_value.is_none() {
+                statistics.min_value = None;
+            }
+            if page.max_value.is_none() {
+                statistics.max_value = None;
+            }
+        }
+        statistics
+    });
 
     let (type_, _): (Type, Option<i32>) = descriptor.descriptor.primitive_type.physical_type.into();
 
-- 
2.43.0


From e7eb30d56ae0c2badc8496ad5fa2b1e9a0d27135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:16 +0000
Subject: [PATCH 19/55] fix: skip any number of filtered pages without
 recursion

---
 src/read/page/reader.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/read/page/reader.rs b/src/read/page/reader.rs
index a28ef69..66cb13c 100644
--- a/src/read/page/reader.rs
+++ b/src/read/page/reader.rs
@@ -141,22 +141,25 @@ impl<R: Read> Iterator for PageReader<R> {
     type Item = Result<CompressedPage>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let mut buffer = std::mem::take(&mut self.scratch);
-        let maybe_maybe_page = next_page(self, &mut buffer).transpose();
-        if let Some(ref maybe_page) = maybe_maybe_page {
-            if let Ok(CompressedPage::Data(page)) = maybe_page {
-                // check if we should filter it (only valid for data pages)
-                let to_consume = (self.pages_filter)(&self.descriptor, page.header());
-                if !to_consume {
-                    self.scratch = std::mem::take(&mut buffer);
-                    return self.next();
+        // a loop, since any number of consecutive pages may be filtered
+        loop {
+            let mut buffer = std::mem::take(&mut self.scratch);
+            let maybe_maybe_page = next_page(self, &mut buffer).transpose();
+            if let Some(ref maybe_page) = maybe_maybe_page {
+                if let Ok(CompressedPage::Data(page)) = maybe_page {
+                    // check if we should filter it (only valid for data pages)
+                    let to_consume = (self.pages_filter)(&self.descriptor, page.header());
+                    if !to_consume {
+                        self.scratch = std::mem::take(&mut buffer);
+                        continue;
+                    }
                 }
+            } else {
+                // no page => we take back the buffer
+                self.scratch = std::mem::take(&mut buffer);
             }
-        } else {
-            // no page => we take back the buffer
-            self.scratch = std::mem::take(&mut buffer);
+            return maybe_maybe_page;
         }
-        maybe_maybe_page
     }
 }
 
-- 
2.43.0


From 602694e46223e38e01a1048cd8201ee82526baf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:22 +0000
Subject: [PATCH 20/55] fix: the page reader does not continue after an error

---
 src/read/page/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/read/page/reader.rs b/src/read/page/reader.rs
index 66cb13c..068b32f 100644
--- a/src/read/page/reader.rs
+++ b/src/read/page/reader.rs
@@ -154,6 +154,10 @@ impl<R: Read> Iterator for PageReader<R> {
                         continue;
                     }
                 }
+                if maybe_page.is_err() {
+                    // the reader is no longer at the start of a page => there are no further pages
+                    self.seen_num_values = self.total_num_values;
+                }
             } else {
                 // no page => we take back the buffer
                 self.scratch = std::mem::take(&mut buffer);
-- 
2.43.0


From 18ce3f606c69a43fbc89151ce85390b4122709e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:50 +0000
Subject: [PATCH 21/55] fix: data pages with a negative number of values are
 errors

---
 src/read/page/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/read/page/reader.rs b/src/read/page/reader.rs
index 068b32f..05afd91 100644
--- a/src/read/page/reader.rs
+++ b/src/read/page/reader.rs
@@ -299,6 +299,7 @@ pub(super) fn get_page_header(header: &ParquetPageHeader) -> Result<Option<DataP
             let _: Encoding = header.encoding.try_into()?;
             let _: Encoding = header.repetition_level_encoding.try_into()?;
             let _: Encoding = header.definition_level_encoding.try_into()?;
+            let _: u32 = header.num_values.try_into()?;
 
             Some(DataPageHeader::V1(header))
         }
@@ -307,6 +308,7 @@ pub(super) fn get_page_header(header: &ParquetPageHeader) -> Result<Option<DataP
                 Error::oos("The page header type is a v1 data page but the v1 header is empty")
             })?;
             let _: Encoding = header.encoding.try_into()?;
+            let _: u32 = header.num_values.try_into()?;
             Some(DataPageHeader::V2(header))
         }
         _ => None,
-- 
2.43.0


From 0e53a70b1c5a8e748d4e924e5be8b88819654c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:56 +0000
Subject: [PATCH 22/55] fix: the page stream validates skipped pages as the
 page reader does

---
 src/read/page/stream.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/read/page/stream.rs b/src/read/page/stream.rs
index 2b114f4..afa0fee 100644
--- a/src/read/page/stream.rs
+++ b/src/read/page/stream.rs
@@ -92,18 +92,24 @@ fn _get_page_stream<R: AsyncRead + Unpin + Send>(
 
             let read_size: usize = page_header.compressed_page_size.try_into()?;
 
+            if read_size > max_page_size {
+                Err(Error::WouldOverAllocate)?
+            }
+
             if let Some(data_header) = data_header {
                 if !pages_filter(&descriptor, &data_header) {
                     // page to be skipped, we sill need to seek
-                    copy(reader.take(read_size as u64), &mut sink()).await?;
+                    let bytes_skipped = copy(reader.take(read_size as u64), &mut sink()).await?;
+                    if bytes_skipped != read_size as u64 {
+                        Err(Error::oos(
+                            "The page header reported the wrong page size".to_string(),
+                        ))?
+                    }
+                    let _: usize = page_header.uncompressed_page_size.try_into()?;
                     continue
                 }
             }
 
-            if read_size > max_page_size {
-                Err(Error::WouldOverAllocate)?
-            }
-
             // followed by the buffer
             scratch.clear();
             scratch.try_reserve(read_size)?;
-- 
2.43.0


From dbbfabad45b5805550bb1dd92dd5ba6e01f96b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:56 +0000
Subject: [PATCH 23/55] fix: column indexes of many pages could not be read

---
 src/read/indexes/deserialize.rs | 3 ++-
 src/read/indexes/read.rs        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/read/indexes/deserialize.rs b/src/read/indexes/deserialize.rs
index 10addf3..e9af381 100644
--- a/src/read/indexes/deserialize.rs
+++ b/src/read/indexes/deserialize.rs
@@ -6,7 +6,8 @@ use crate::schema::types::{PhysicalType, PrimitiveType};
 use crate::indexes::{BooleanIndex, ByteIndex, FixedLenByteIndex, Index, NativeIndex};
 
 pub fn deserialize(data: &[u8], primitive_type: PrimitiveType) -> Result<Box<dyn Index>, Error> {
-    let mut prot = TCompactInputProtocol::new(data, data.len() * 2 + 1024);
+    // every byte may be an element of a list, which counts as 8 bytes
+    let mut prot = TCompactInputProtocol::new(data, data.len() * 10 + 1024);
 
     let index = ColumnIndex::read_from_in_protocol(&mut prot)?;
 
diff --git a/src/read/indexes/read.rs b/src/read/indexes/read.rs
index 437573c..db1de71 100644
--- a/src/read/indexes/read.rs
+++ b/src/read/indexes/read.rs
@@ -83,7 +83,8 @@ pub fn read_columns_indexes<R: Read + Seek>(
 }
 
 fn deserialize_page_locations(data: &[u8]) -> Result<Vec<PageLocation>, Error> {
-    let len = data.len() * 2 + 1024;
+    // every byte may be an element of a list, which counts as 10 bytes
+    let len = data.len() * 10 + 1024;
     let mut reader = Cursor::new(data);
 
     let mut prot = TCompactInputProtocol::new(&mut reader, len);
-- 
2.43.0


From 3cd9a02d31585a54adf57b4020d81c8841b88bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:03 +0000
Subject: [PATCH 24/55] fix: metadata of many short items could not be read

---
 src/read/metadata.rs | 3 ++-
 src/read/stream.rs   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/read/metadata.rs b/src/read/metadata.rs
index 2381d0e..48efe04 100644
--- a/src/read/metadata.rs
+++ b/src/read/metadata.rs
@@ -91,7 +91,8 @@ pub fn read_metadata_with_size<R: Read + Seek>(
     };
 
     // a highly nested but sparse struct could result in many allocations
-    let max_size = reader.len() * 2 + 1024;
+    // (each byte of it may at most be a list element of a structure, which counts as 10 bytes)
+    let max_size = reader.len() * 10 + 1024;
 
     deserialize_metadata(reader, max_size)
 }
diff --git a/src/read/stream.rs b/src/read/stream.rs
index 3f59b74..7cb28fd 100644
--- a/src/read/stream.rs
+++ b/src/read/stream.rs
@@ -81,7 +81,8 @@ pub async fn read_metadata<R: AsyncRead + AsyncSeek + Send + std::marker::Unpin>
     };
 
     // a highly nested but sparse struct could result in many allocations
-    let max_size = reader.len() * 2 + 1024;
+    // (each byte of it may at most be a list element of a structure, which counts as 10 bytes)
+    let max_size = reader.len() * 10 + 1024;
 
     deserialize_metadata(reader, max_size)
 }
-- 
2.43.0


From fa55b29b719e77d900c11625fb45cecb4c890921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:38 +0000
Subject: [PATCH 25/55] fix: metadata must end where the footer starts

---
 src/read/metadata.rs | 3 +++
 src/read/stream.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/read/metadata.rs b/src/read/metadata.rs
index 48efe04..c9a36ef 100644
--- a/src/read/metadata.rs
+++ b/src/read/metadata.rs
@@ -90,6 +90,9 @@ pub fn read_metadata_with_size<R: Read + Seek>(
         &buffer
     };
 
+    // the metadata ends where the footer starts
+    let reader = &reader[..reader.len() - FOOTER_SIZE as usize];
+
     // a highly nested but sparse struct could result in many allocations
     // (each byte of it may at most be a list element of a structure, which counts as 10 bytes)
     let max_size = reader.len() * 10 + 1024;
diff --git a/src/read/stream.rs b/src/read/stream.rs
index 7cb28fd..dd4dfa7 100644
--- a/src/read/stream.rs
+++ b/src/read/stream.rs
@@ -80,6 +80,9 @@ pub async fn read_metadata<R: AsyncRead + AsyncSeek + Send + std::marker::Unpin>
         &buffer
     };
 
+    // the metadata ends where the footer starts
+    let reader = &reader[..reader.len() - FOOTER_SIZE as usize];
+
     // a highly nested but sparse struct could result in many allocations
     // (each byte of it may at most be a list element of a structure, which counts as 10 bytes)
     let max_size = reader.len() * 10 + 1024;
-- 
2.43.0


From edbb5911a6a543c4e2da2842f5dd67808277532a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:01 +0000
Subject: [PATCH 26/55] fix: the indexed page reader checks pages against their
 locations

---
 src/read/page/indexed_reader.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/read/page/indexed_reader.rs b/src/read/page/indexed_reader.rs
index 167d923..0f36077 100644
--- a/src/read/page/indexed_reader.rs
+++ b/src/read/page/indexed_reader.rs
@@ -11,7 +11,7 @@ use crate::{
     parquet_bridge::Compression,
 };
 
-use super::reader::{finish_page, read_page_header, PageMetaData};
+use super::reader::{finish_page, get_page_header, read_page_header, PageMetaData};
 
 #[derive(Debug, Clone, Copy)]
 enum State {
@@ -64,9 +64,16 @@ fn read_page<R: Read + Seek>(
     let header_size = reader.seek(SeekFrom::Current(0)).unwrap() as usize;
     let buffer = reader.into_inner();
 
-    // copy [data]
+    // validate the header of data pages
+    let _ = get_page_header(&page_header)?;
+
+    // copy [data], whose size is declared by the header
+    let data_size: usize = page_header.compressed_page_size.try_into()?;
+    let page_data = buffer[header_size..].get(..data_size).ok_or_else(|| {
+        Error::oos("The page header reported a size larger than the page's location")
+    })?;
     data.clear();
-    data.extend_from_slice(&buffer[header_size..]);
+    data.extend_from_slice(page_data);
     Ok(page_header)
 }
 
@@ -153,14 +160,15 @@ impl<R: Read + Seek> IndexedPageReader<R> {
         // a dictionary page exists iff the first data page is not at the start of
         // the column
         let (start, length) = match self.pages.get(0) {
-            Some(page) => {
-                let length = (page.start - self.column_start) as usize;
-                if length > 0 {
-                    (self.column_start, length)
-                } else {
-                    return None;
+            Some(page) => match page.start.checked_sub(self.column_start) {
+                Some(0) => return None,
+                Some(length) => (self.column_start, length as usize),
+                None => {
+                    return Some(Err(Error::oos(
+                        "A page cannot start before its column chunk",
+                    )))
                 }
-            }
+            },
             None => return None,
         };
 
-- 
2.43.0


From 00307efc14c1e1b016388dfaf3049050f22f752c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:01 +0000
Subject: [PATCH 27/55] fix: skip any number of pages without selected rows
 without recursion

---
 src/read/page/indexed_reader.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/read/page/indexed_reader.rs b/src/read/page/indexed_reader.rs
index 0f36077..7b36d84 100644
--- a/src/read/page/indexed_reader.rs
+++ b/src/read/page/indexed_reader.rs
@@ -202,15 +202,13 @@ impl<R: Read + Seek> Iterator for IndexedPageReader<R> {
                 }
             }
             State::Data => {
-                if let Some(page) = self.pages.pop_front() {
-                    if page.selected_rows.is_empty() {
-                        self.next()
-                    } else {
-                        Some(self.read_page(page.start, page.length, page.selected_rows))
+                // a loop, since any number of consecutive pages may be skipped
+                while let Some(page) = self.pages.pop_front() {
+                    if !page.selected_rows.is_empty() {
+                        return Some(self.read_page(page.start, page.length, page.selected_rows));
                     }
-                } else {
-                    None
                 }
+                None
             }
         }
     }
-- 
2.43.0


From 8d877d1df096e57d5a0ef9a2a4e4a6a3db28ff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:55 +0000
Subject: [PATCH 28/55] fix: decompressed data must have exactly its declared
 size

---
 src/compression.rs | 64 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 47 insertions(+), 17 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index bd7fd81..55fcbaa 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -129,17 +129,49 @@ pub fn compress(
     }
 }
 
+/// Reads `output_buf` from `decoder` of `input_buf`, which must have exactly that many bytes.
+/// Reading to its end also verifies its checksum, when there is one.
+#[cfg(any(feature = "brotli", feature = "gzip", feature = "zstd"))]
+fn read_exact_to_end<R: std::io::Read>(
+    mut decoder: R,
+    input_buf: &[u8],
+    output_buf: &mut [u8],
+) -> Result<()> {
+    if input_buf.is_empty() && output_buf.is_empty() {
+        return Ok(());
+    }
+    decoder.read_exact(output_buf)?;
+    if decoder.read(&mut [0])? != 0 {
+        return Err(Error::oos(
+            "The decompressed data is larger than its declared size",
+        ));
+    }
+    Ok(())
+}
+
+/// Errors if the data decompressed into `output_buf` does not fill it
+#[cfg(any(feature = "lz4_flex", feature = "lz4"))]
+fn check_size(size: usize, output_buf: &[u8]) -> Result<()> {
+    if size != output_buf.len() {
+        return Err(Error::oos(
+            "The decompressed data is smaller than its declared size",
+        ));
+    }
+    Ok(())
+}
+
 /// Decompresses data stored in slice `input_buf` and writes output to `output_buf`.
 /// Returns the total number of bytes written.
 pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [u8]) -> Result<()> {
     match compression {
         #[cfg(feature = "brotli")]
         Compression::Brotli => {
-            use std::io::Read;
             const BROTLI_DEFAULT_BUFFER_SIZE: usize = 4096;
-            brotli::Decompressor::new(input_buf, BROTLI_DEFAULT_BUFFER_SIZE)
-                .read_exact(output_buf)
-                .map_err(|e| e.into())
+            read_exact_to_end(
+                brotli::Decompressor::new(input_buf, BROTLI_DEFAULT_BUFFER_SIZE),
+                input_buf,
+                output_buf,
+            )
         }
         #[cfg(not(feature = "brotli"))]
         Compression::Brotli => Err(Error::FeatureNotActive(
@@ -147,11 +179,11 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
             "decompress with brotli".to_string(),
         )),
         #[cfg(feature = "gzip")]
-        Compression::Gzip => {
-            use std::io::Read;
-            let mut decoder = flate2::read::GzDecoder::new(input_buf);
-            decoder.read_exact(output_buf).map_err(|e| e.into())
-        }
+        Compression::Gzip => read_exact_to_end(
+            flate2::read::GzDecoder::new(input_buf),
+            input_buf,
+            output_buf,
+        ),
         #[cfg(not(feature = "gzip"))]
         Compression::Gzip => Err(Error::FeatureNotActive(
             crate::error::Feature::Gzip,
@@ -162,7 +194,7 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
             use snap::raw::{decompress_len, Decoder};
 
             let len = decompress_len(input_buf)?;
-            if len > output_buf.len() {
+            if len != output_buf.len() {
                 return Err(Error::OutOfSpec(String::from("snappy header out of spec")));
             }
             Decoder::new()
@@ -177,13 +209,13 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
         )),
         #[cfg(all(feature = "lz4_flex", not(feature = "lz4")))]
         Compression::Lz4Raw => lz4_flex::block::decompress_into(input_buf, output_buf)
-            .map(|_| {})
-            .map_err(|e| e.into()),
+            .map_err(|e| e.into())
+            .and_then(|size| check_size(size, output_buf)),
         #[cfg(feature = "lz4")]
         Compression::Lz4Raw => {
             lz4::block::decompress_to_buffer(input_buf, Some(output_buf.len() as i32), output_buf)
-                .map(|_| {})
                 .map_err(|e| e.into())
+                .and_then(|size| check_size(size, output_buf))
         }
         #[cfg(all(not(feature = "lz4"), not(feature = "lz4_flex")))]
         Compression::Lz4Raw => Err(Error::FeatureNotActive(
@@ -194,7 +226,7 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
         #[cfg(any(feature = "lz4_flex", feature = "lz4"))]
         Compression::Lz4 => try_decompress_hadoop(input_buf, output_buf).or_else(|_| {
             lz4_decompress_to_buffer(input_buf, Some(output_buf.len() as i32), output_buf)
-                .map(|_| {})
+                .and_then(|size| check_size(size, output_buf))
         }),
 
         #[cfg(all(not(feature = "lz4_flex"), not(feature = "lz4")))]
@@ -205,9 +237,7 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
 
         #[cfg(feature = "zstd")]
         Compression::Zstd => {
-            use std::io::Read;
-            let mut decoder = zstd::Decoder::new(input_buf)?;
-            decoder.read_exact(output_buf).map_err(|e| e.into())
+            read_exact_to_end(zstd::Decoder::new(input_buf)?, input_buf, output_buf)
         }
         #[cfg(not(feature = "zstd"))]
         Compression::Zstd => Err(Error::FeatureNotActive(
-- 
2.43.0


From e6f6337833bbf462dd3b0ac699fb5a97cc31dbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:55 +0000
Subject: [PATCH 29/55] fix: decompress legacy LZ4 of any number of frames

---
 src/compression.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index 55fcbaa..5236de2 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -302,17 +302,15 @@ fn try_decompress_hadoop(input_buf: &[u8], output_buf: &mut [u8]) -> Result<()>
         }
         input_len -= expected_compressed_size as usize;
         output_len -= expected_decompressed_size as usize;
-        if input_len > expected_compressed_size as usize {
-            input = &input[expected_compressed_size as usize..];
-            output = &mut output[expected_decompressed_size as usize..];
-        } else {
-            break;
-        }
+        input = &input[expected_compressed_size as usize..];
+        output = &mut output[expected_decompressed_size as usize..];
     }
-    if input_len == 0 {
-        Ok(())
-    } else {
+    if input_len != 0 {
         Err(Error::oos("Not all input are consumed"))
+    } else if output_len != 0 {
+        Err(Error::oos("Not all output was decompressed"))
+    } else {
+        Ok(())
     }
 }
 
-- 
2.43.0


From 42845b5717c4854585c96dd740e290b219fdc91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:58 +0000
Subject: [PATCH 30/55] fix: negative lengths of levels are errors when
 decompressing

---
 src/read/compression.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/read/compression.rs b/src/read/compression.rs
index 4ebf27f..5f6eb16 100644
--- a/src/read/compression.rs
+++ b/src/read/compression.rs
@@ -24,8 +24,11 @@ fn decompress_v2(
     //
     // We always use 0 offset for other pages other than v2, `true` flag means
     // that compression will be applied if decompressor is defined
-    let offset = (page_header.definition_levels_byte_length
-        + page_header.repetition_levels_byte_length) as usize;
+    let definition_levels_byte_length: usize =
+        page_header.definition_levels_byte_length.try_into()?;
+    let repetition_levels_byte_length: usize =
+        page_header.repetition_levels_byte_length.try_into()?;
+    let offset = definition_levels_byte_length + repetition_levels_byte_length;
     // When is_compressed flag is missing the page is considered compressed
     let can_decompress = page_header.is_compressed.unwrap_or(true);
 
-- 
2.43.0


From 81635e7acecd41375e67a415fe8ad46192623737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:36 +0000
Subject: [PATCH 31/55] fix: iterate pre-read columns in order

---
 src/read/column/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/read/column/mod.rs b/src/read/column/mod.rs
index b5bc44c..9ba697d 100644
--- a/src/read/column/mod.rs
+++ b/src/read/column/mod.rs
@@ -135,8 +135,9 @@ impl ReadColumnIterator {
     /// Returns a new [`ReadColumnIterator`]
     pub fn new(
         field: ParquetType,
-        chunks: Vec<(Vec<Result<CompressedPage, Error>>, ColumnChunkMetaData)>,
+        mut chunks: Vec<(Vec<Result<CompressedPage, Error>>, ColumnChunkMetaData)>,
     ) -> Self {
+        chunks.reverse(); // they are popped from the end
         Self {
             field,
             chunks,
-- 
2.43.0


From 066ee8012a8f778202daa3e1b7637579beb52c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:36 +0000
Subject: [PATCH 32/55] fix: reading a column chunk that is cut short is an
 error

---
 src/read/column/mod.rs    | 3 +++
 src/read/column/stream.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/read/column/mod.rs b/src/read/column/mod.rs
index 9ba697d..6e53bc4 100644
--- a/src/read/column/mod.rs
+++ b/src/read/column/mod.rs
@@ -198,6 +198,9 @@ where
     let mut chunk = vec![];
     chunk.try_reserve(length as usize)?;
     reader.by_ref().take(length).read_to_end(&mut chunk)?;
+    if chunk.len() as u64 != length {
+        return Err(Error::oos("The column chunk is cut short"));
+    }
     Ok(chunk)
 }
 
diff --git a/src/read/column/stream.rs b/src/read/column/stream.rs
index d8419e7..b068618 100644
--- a/src/read/column/stream.rs
+++ b/src/read/column/stream.rs
@@ -21,6 +21,9 @@ where
     let mut chunk = vec![];
     chunk.try_reserve(length as usize)?;
     reader.take(length as u64).read_to_end(&mut chunk).await?;
+    if chunk.len() as u64 != length {
+        return Err(Error::oos("The column chunk is cut short"));
+    }
     Result::Ok(chunk)
 }
 
-- 
2.43.0


From 03ed9ad322d6038377e6ad45e1277d0d4ac06201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:21 +0000
Subject: [PATCH 33/55] fix: a negative number of children is not a group

---
 src/schema/io_thrift/from_thrift.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/schema/io_thrift/from_thrift.rs b/src/schema/io_thrift/from_thrift.rs
index 68add24..4fb5706 100644
--- a/src/schema/io_thrift/from_thrift.rs
+++ b/src/schema/io_thrift/from_thrift.rs
@@ -45,6 +45,7 @@ fn from_thrift_helper(elements: &[SchemaElement], index: usize) -> Result<(usize
 
     let id = element.field_id;
     match element.num_children {
+        Some(n) if n < 0 => Err(Error::oos("The number of children must not be negative")),
         // From parquet-format:
         //   The children count is used to construct the nested relationship.
         //   This field is not set when the element is a primitive type
-- 
2.43.0


From ba83a435ddc31bab6bbfc54fa80624554a8cd5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:30 +0000
Subject: [PATCH 34/55] fix: schemas and groups without fields can be read

---
 src/schema/io_thrift/from_thrift.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/schema/io_thrift/from_thrift.rs b/src/schema/io_thrift/from_thrift.rs
index 4fb5706..ce229dd 100644
--- a/src/schema/io_thrift/from_thrift.rs
+++ b/src/schema/io_thrift/from_thrift.rs
@@ -44,15 +44,15 @@ fn from_thrift_helper(elements: &[SchemaElement], index: usize) -> Result<(usize
     let converted_type = element.converted_type;
 
     let id = element.field_id;
+    let is_primitive = element.num_children.is_none() || element.type_.is_some();
     match element.num_children {
         Some(n) if n < 0 => Err(Error::oos("The number of children must not be negative")),
         // From parquet-format:
         //   The children count is used to construct the nested relationship.
         //   This field is not set when the element is a primitive type
         // Sometimes parquet-cpp sets num_children field to 0 for primitive types, so we
-        // have to handle this case too.
-        None | Some(0) => {
-            // primitive type
+        // have to handle this case too. Groups without children have no physical type.
+        None | Some(0) if is_primitive => {
             let repetition = element
                 .repetition_type
                 .ok_or_else(|| Error::oos("Repetition level must be defined for a primitive type"))?
@@ -93,10 +93,11 @@ fn from_thrift_helper(elements: &[SchemaElement], index: usize) -> Result<(usize
 
             Ok((index + 1, tp))
         }
-        Some(n) => {
+        num_children => {
+            let num_children = num_children.unwrap_or(0);
             let mut fields = vec![];
             let mut next_index = index + 1;
-            for _ in 0..n {
+            for _ in 0..num_children {
                 let child_result = from_thrift_helper(elements, next_index)?;
                 next_index = child_result.0;
                 fields.push(child_result.1);
-- 
2.43.0


From bd50e3f965cfeb58aedf8d325a0560c865e09695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:39 +0000
Subject: [PATCH 35/55] fix: a message type must be complete and nothing may
 follow it

---
 src/schema/io_message/from_message.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index 3434932..84e49ab 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -299,6 +299,12 @@ impl<'a> Parser<'a> {
                     .next()
                     .ok_or_else(|| Error::oos("Expected name, found None"))?;
                 let fields = self.parse_child_types()?;
+                if let Some(token) = self.tokenizer.next() {
+                    return Err(Error::oos(format!(
+                        "Expected the end of the message, found token '{}'",
+                        token
+                    )));
+                }
                 Ok(ParquetType::new_root(name.to_string(), fields))
             }
             _ => Err(Error::oos("Message type does not start with 'message'")),
@@ -312,13 +318,13 @@ impl<'a> Parser<'a> {
         let mut vec = Vec::new();
         while let Some(value) = self.tokenizer.next() {
             if value == "}" {
-                break;
+                return Ok(vec);
             } else {
                 self.tokenizer.backtrack();
                 vec.push(self.add_type()?);
             }
         }
-        Ok(vec)
+        Err(Error::oos("Expected '}', but no token found (None)"))
     }
 
     fn add_type(&mut self) -> Result<ParquetType> {
-- 
2.43.0


From b162816fc14386e461207d2115aa15879e63c863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:47 +0000
Subject: [PATCH 36/55] fix: an invalid id in a message type is an error

---
 src/schema/io_message/from_message.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index 84e49ab..4221f85 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -368,7 +368,11 @@ impl<'a> Parser<'a> {
 
         // Parse optional id
         let id = if let Some("=") = self.tokenizer.next() {
-            self.tokenizer.next().and_then(|v| v.parse::<i32>().ok())
+            Some(parse_i32(
+                self.tokenizer.next(),
+                "Expected id, found None",
+                "Failed to parse id",
+            )?)
         } else {
             self.tokenizer.backtrack();
             None
@@ -453,7 +457,11 @@ impl<'a> Parser<'a> {
 
         // Parse optional id
         let id = if let Some("=") = self.tokenizer.next() {
-            self.tokenizer.next().and_then(|v| v.parse::<i32>().ok())
+            Some(parse_i32(
+                self.tokenizer.next(),
+                "Expected id, found None",
+                "Failed to parse id",
+            )?)
         } else {
             self.tokenizer.backtrack();
             None
-- 
2.43.0


From bc60351fd08194f31f9abf6ffdc9d8784a0bf838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:54 +0000
Subject: [PATCH 37/55] fix: an invalid width of an INTEGER in a message type
 is an error

---
 src/schema/io_message/from_message.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index 4221f85..10f70ba 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -618,6 +618,9 @@ impl<'a> Parser<'a> {
                     self.tokenizer.backtrack();
                     return Err(Error::oos("INTEGER requires width and sign"));
                 };
+                if ![8, 16, 32, 64].contains(&bit_width) {
+                    return Err(Error::oos("INTEGER requires a width of 8, 16, 32 or 64"));
+                }
                 PrimitiveLogicalType::Integer((bit_width, is_signed).into())
             }
             "STRING" => PrimitiveLogicalType::String,
-- 
2.43.0


From 66a4221a9ea58f0f0624be1870dcc937181b6a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:21 +0000
Subject: [PATCH 38/55] fix: MAP and LIST on a primitive type of a message type
 are errors

---
 src/schema/io_message/from_message.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index 10f70ba..aa4ffd7 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -629,7 +629,12 @@ impl<'a> Parser<'a> {
             "UUID" => PrimitiveLogicalType::Uuid,
             "UNKNOWN" => PrimitiveLogicalType::Unknown,
             "INTERVAL" => return Err(Error::oos("Interval logical type not yet supported")),
-            _ => unreachable!(),
+            other => {
+                return Err(Error::oos(format!(
+                    "{} cannot annotate a primitive type",
+                    other
+                )))
+            }
         })
     }
 }
-- 
2.43.0


From ceaccffcd754efe5fbb5f9c600be79b6ed9b82bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:29 +0000
Subject: [PATCH 39/55] fix: a delimiter is not a name in a message type

---
 src/schema/io_message/from_message.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index aa4ffd7..81cf44f 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -253,6 +253,18 @@ fn assert_token(token: Option<&str>, expected: &str) -> Result<()> {
     }
 }
 
+// Utility function to parse a name, which can not be a delimiter.
+fn parse_name(value: Option<&str>) -> Result<&str> {
+    match value {
+        Some(token) if token.starts_with(Tokenizer::is_schema_delim) => Err(Error::oos(format!(
+            "Expected name, found token '{}'",
+            token
+        ))),
+        Some(name) => Ok(name),
+        None => Err(Error::oos("Expected name, found None")),
+    }
+}
+
 // Utility function to parse i32 or return general error.
 fn parse_i32(value: Option<&str>, not_found_msg: &str, parse_fail_msg: &str) -> Result<i32> {
     value
@@ -294,10 +306,7 @@ impl<'a> Parser<'a> {
         // Check that message type starts with "message".
         match self.tokenizer.next() {
             Some("message") => {
-                let name = self
-                    .tokenizer
-                    .next()
-                    .ok_or_else(|| Error::oos("Expected name, found None"))?;
+                let name = parse_name(self.tokenizer.next())?;
                 let fields = self.parse_child_types()?;
                 if let Some(token) = self.tokenizer.next() {
                     return Err(Error::oos(format!(
@@ -347,10 +356,7 @@ impl<'a> Parser<'a> {
 
     fn add_group_type(&mut self, repetition: Repetition) -> Result<ParquetType> {
         // Parse name of the group type
-        let name = self
-            .tokenizer
-            .next()
-            .ok_or_else(|| Error::oos("Expected name, found None"))?;
+        let name = parse_name(self.tokenizer.next())?;
 
         // Parse converted type if exists
         let converted_type = if let Some("(") = self.tokenizer.next() {
@@ -409,10 +415,7 @@ impl<'a> Parser<'a> {
         };
 
         // Parse name of the primitive type
-        let name = self
-            .tokenizer
-            .next()
-            .ok_or_else(|| Error::oos("Expected name, found None"))?;
+        let name = parse_name(self.tokenizer.next())?;
 
         // Parse logical types
         let (converted_type, logical_type) = if let Some("(") = self.tokenizer.next() {
-- 
2.43.0


From 86062f03cb9d1519cc00355ac59f2c697eb1b551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:03 +0000
Subject: [PATCH 40/55] fix: keep the column orders when metadata is serialised

---
 src/metadata/file_metadata.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/metadata/file_metadata.rs b/src/metadata/file_metadata.rs
index 4d46882..0d9d662 100644
--- a/src/metadata/file_metadata.rs
+++ b/src/metadata/file_metadata.rs
@@ -97,13 +97,24 @@ impl FileMetaData {
                 .collect(),
             key_value_metadata: self.key_value_metadata,
             created_by: self.created_by,
-            column_orders: None, // todo
+            column_orders: self.column_orders.and_then(to_column_orders),
             encryption_algorithm: None,
             footer_signing_key_metadata: None,
         }
     }
 }
 
+/// Converts column orders to their Thrift definition, which can only express type defined orders.
+fn to_column_orders(orders: Vec<ColumnOrder>) -> Option<Vec<TColumnOrder>> {
+    orders
+        .into_iter()
+        .map(|order| match order {
+            ColumnOrder::TypeDefinedOrder(_) => Some(TColumnOrder::TYPEORDER(Default::default())),
+            ColumnOrder::Undefined => None,
+        })
+        .collect()
+}
+
 /// Parses [`ColumnOrder`] from Thrift definition.
 fn parse_column_orders(
     orders: &[TColumnOrder],
-- 
2.43.0


From 32a8cf8caa90c1affc5a3ad51977f37c1c3805f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:03 +0000
Subject: [PATCH 41/55] fix: the order of a column that has none is undefined

---
 src/metadata/file_metadata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/file_metadata.rs b/src/metadata/file_metadata.rs
index 0d9d662..82bbe94 100644
--- a/src/metadata/file_metadata.rs
+++ b/src/metadata/file_metadata.rs
@@ -55,7 +55,7 @@ impl FileMetaData {
     pub fn column_order(&self, i: usize) -> ColumnOrder {
         self.column_orders
             .as_ref()
-            .map(|data| data[i])
+            .and_then(|data| data.get(i).copied())
             .unwrap_or(ColumnOrder::Undefined)
     }
 
-- 
2.43.0


From d5bc2a652131ca30f596c3972d9a8da2c76704eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:51 +0000
Subject: [PATCH 42/55] fix: serialise column chunk metadata with serde

---
 src/metadata/column_chunk_metadata.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/metadata/column_chunk_metadata.rs b/src/metadata/column_chunk_metadata.rs
index e92c90b..7101097 100644
--- a/src/metadata/column_chunk_metadata.rs
+++ b/src/metadata/column_chunk_metadata.rs
@@ -48,8 +48,7 @@ where
     S: Serializer,
 {
     let mut buf = vec![];
-    let cursor = Cursor::new(&mut buf[..]);
-    let mut protocol = TCompactOutputProtocol::new(cursor);
+    let mut protocol = TCompactOutputProtocol::new(&mut buf);
     column_chunk
         .write_to_out_protocol(&mut protocol)
         .map_err(S::Error::custom)?;
-- 
2.43.0


From 035bcc8de73f9edbaf0e8a6a88ade69501e82d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:27 +0000
Subject: [PATCH 43/55] fix: report plain-encoded strings cut within their
 length instead of ending silently

---
 src/encoding/plain_byte_array.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/encoding/plain_byte_array.rs b/src/encoding/plain_byte_array.rs
index d549e94..6255596 100644
--- a/src/encoding/plain_byte_array.rs
+++ b/src/encoding/plain_byte_array.rs
@@ -21,9 +21,15 @@ impl<'a> Iterator for BinaryIter<'a> {
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.values.len() < 4 {
+        if self.values.is_empty() {
             return None;
         }
+        if self.values.len() < 4 {
+            self.values = &[];
+            return Some(Err(Error::oos(
+                "A string in plain encoding must start with its length in 4 bytes",
+            )));
+        }
         if let Some(x) = self.length.as_mut() {
             *x = x.saturating_sub(1)
         }
-- 
2.43.0


From 3e166b0c1f57806ba96f5abd822a6aae59116a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:24 +0000
Subject: [PATCH 44/55] fix: report a bloom filter cut by the end of the file
 instead of returning a part of it

---
 src/bloom_filter/read.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bloom_filter/read.rs b/src/bloom_filter/read.rs
index 21f05d9..af5f705 100644
--- a/src/bloom_filter/read.rs
+++ b/src/bloom_filter/read.rs
@@ -43,7 +43,10 @@ pub fn read<R: Read + Seek>(
 
     bitset.clear();
     bitset.try_reserve(length)?;
-    reader.by_ref().take(length as u64).read_to_end(bitset)?;
+    let read = reader.by_ref().take(length as u64).read_to_end(bitset)?;
+    if read != length {
+        return Err(Error::oos("The file ends within the bloom filter's bitset"));
+    }
 
     Ok(())
 }
-- 
2.43.0


From 018f87eb89c0cdaa969e0590f113743ad83a31ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:38 +0000
Subject: [PATCH 45/55] fix: iterate validity beyond the first run, and count
 the current run in its size hint

---
 src/deserialize/hybrid_rle.rs | 46 +++++++++++++++++------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/deserialize/hybrid_rle.rs b/src/deserialize/hybrid_rle.rs
index 4f457f3..61a38a5 100644
--- a/src/deserialize/hybrid_rle.rs
+++ b/src/deserialize/hybrid_rle.rs
@@ -162,41 +162,41 @@ where
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(run) = &mut self.current_run {
-            match run {
-                HybridBooleanState::Bitmap(bitmap) => bitmap.next().map(Ok),
-                HybridBooleanState::Repeated(value, remaining) => if *remaining == 0 {
-                    None
-                } else {
+        loop {
+            let item = match &mut self.current_run {
+                Some(HybridBooleanState::Bitmap(bitmap)) => bitmap.next(),
+                Some(HybridBooleanState::Repeated(_, 0)) | None => None,
+                Some(HybridBooleanState::Repeated(value, remaining)) => {
                     *remaining -= 1;
                     Some(*value)
                 }
-                .map(Ok),
+            };
+            if let Some(item) = item {
+                return Some(Ok(item));
             }
-        } else if let Some(run) = self.iter.next() {
-            let run = run.map(|run| match run {
-                HybridEncoded::Bitmap(bitmap, length) => {
-                    HybridBooleanState::Bitmap(BitmapIter::new(bitmap, 0, length))
+            // the run is exhausted => fetch the next
+            match self.iter.next()? {
+                Ok(HybridEncoded::Bitmap(bitmap, length)) => {
+                    self.current_run = Some(HybridBooleanState::Bitmap(BitmapIter::new(
+                        bitmap, 0, length,
+                    )))
                 }
-                HybridEncoded::Repeated(value, length) => {
-                    HybridBooleanState::Repeated(value, length)
+                Ok(HybridEncoded::Repeated(value, length)) => {
+                    self.current_run = Some(HybridBooleanState::Repeated(value, length))
                 }
-            });
-            match run {
-                Ok(run) => {
-                    self.current_run = Some(run);
-                    self.next()
-                }
-                Err(e) => Some(Err(e)),
+                Err(e) => return Some(Err(e)),
             }
-        } else {
-            None
         }
     }
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let exact = self.iter.number_of_elements();
+        let current = match &self.current_run {
+            Some(HybridBooleanState::Bitmap(bitmap)) => bitmap.size_hint().0,
+            Some(HybridBooleanState::Repeated(_, remaining)) => *remaining,
+            None => 0,
+        };
+        let exact = current + self.iter.number_of_elements();
         (exact, Some(exact))
     }
 }
-- 
2.43.0


From fe3323bb3a909cf5d6e576ca8115e6b311657c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:45 +0000
Subject: [PATCH 46/55] fix: skip empty intervals when filtering values instead
 of overflowing

---
 src/deserialize/utils.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/deserialize/utils.rs b/src/deserialize/utils.rs
index 0d0135e..72d1618 100644
--- a/src/deserialize/utils.rs
+++ b/src/deserialize/utils.rs
@@ -123,7 +123,12 @@ impl<T, I: Iterator<Item = T>> Iterator for SliceFilteredIter<I> {
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
         if self.current_remaining == 0 {
-            if let Some(interval) = self.selected_rows.pop_front() {
+            let mut interval = self.selected_rows.pop_front();
+            while interval.map_or(false, |interval| interval.length == 0) {
+                // an empty interval selects nothing
+                interval = self.selected_rows.pop_front();
+            }
+            if let Some(interval) = interval {
                 // skip the hole between the previous start and this start
                 // (start + length) - start
                 let item = self.iter.nth(interval.start - self.current);
-- 
2.43.0


From f8aad02e1e840a78478359c06542af3ae7ebd8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:52 +0000
Subject: [PATCH 47/55] fix: error on v2 pages whose levels are declared longer
 than the page

---
 src/page/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/page/mod.rs b/src/page/mod.rs
index 03b5425..bd6909d 100644
--- a/src/page/mod.rs
+++ b/src/page/mod.rs
@@ -403,11 +403,15 @@ pub fn split_buffer_v2(
     rep_level_buffer_length: usize,
     def_level_buffer_length: usize,
 ) -> Result<(&[u8], &[u8], &[u8])> {
-    Ok((
-        &buffer[..rep_level_buffer_length],
-        &buffer[rep_level_buffer_length..rep_level_buffer_length + def_level_buffer_length],
-        &buffer[rep_level_buffer_length + def_level_buffer_length..],
-    ))
+    let levels_length = rep_level_buffer_length
+        .checked_add(def_level_buffer_length)
+        .filter(|length| *length <= buffer.len())
+        .ok_or_else(|| {
+            Error::oos("The number of bytes declared in v2 levels is higher than the page size")
+        })?;
+    let (levels, values) = buffer.split_at(levels_length);
+    let (rep, def) = levels.split_at(rep_level_buffer_length);
+    Ok((rep, def, values))
 }
 
 /// Splits the page buffer into 3 slices corresponding to (encoded rep levels, encoded def levels, encoded values).
-- 
2.43.0


From 17575e9fe3b7c87d0f2186afc8d1d4e50e8a2dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:52 +0000
Subject: [PATCH 48/55] fix: error on dictionary-encoded pages without a bit
 width

---
 src/deserialize/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/deserialize/utils.rs b/src/deserialize/utils.rs
index 72d1618..7628e15 100644
--- a/src/deserialize/utils.rs
+++ b/src/deserialize/utils.rs
@@ -15,14 +15,14 @@ pub(super) fn dict_indices_decoder(page: &DataPage) -> Result<hybrid_rle::Hybrid
 
     // SPEC: Data page format: the bit width used to encode the entry ids stored as 1 byte (max bit width = 32),
     // SPEC: followed by the values encoded using RLE/Bit packed described above (with the given bit width).
-    let bit_width = indices_buffer[0];
+    let (&bit_width, indices_buffer) = indices_buffer.split_first().ok_or_else(|| {
+        Error::oos("A dictionary-encoded page must contain the bit width of its indices")
+    })?;
     if bit_width > 32 {
         return Err(Error::oos(
             "Bit width of dictionary pages cannot be larger than 32",
         ));
     }
-    let indices_buffer = &indices_buffer[1..];
-
     hybrid_rle::HybridRleDecoder::try_new(indices_buffer, bit_width as u32, page.num_values())
 }
 
-- 
2.43.0


From a6a75806109ad2e69fbf201fb5912661bd988f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:03 +0000
Subject: [PATCH 49/55] fix: error on fixed-length pages whose size is not a
 multiple of the type's length

---
 src/deserialize/fixed_len.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/deserialize/fixed_len.rs b/src/deserialize/fixed_len.rs
index 7aecda8..4bcaeaa 100644
--- a/src/deserialize/fixed_len.rs
+++ b/src/deserialize/fixed_len.rs
@@ -20,6 +20,17 @@ impl<'a> FixexBinaryIter<'a> {
     }
 }
 
+/// Views the values of the data page as [`FixexBinaryIter`] of items of `size` bytes.
+fn fixed_len_iter(page: &DataPage, size: usize) -> Result<FixexBinaryIter, Error> {
+    let (_, _, values) = split_buffer(page)?;
+    if size == 0 || values.len() % size != 0 {
+        return Err(Error::oos(
+            "A fixed length page data's len must be a multiple of the type's length",
+        ));
+    }
+    Ok(FixexBinaryIter::new(values, size))
+}
+
 impl<'a> Iterator for FixexBinaryIter<'a> {
     type Item = &'a [u8];
 
@@ -88,19 +99,12 @@ impl<'a, P> FixedLenBinaryPageState<'a, P> {
                 ))
             }
             (Encoding::Plain, _, true) => {
-                let (_, _, values) = split_buffer(page)?;
-
                 let validity = utils::DefLevelsDecoder::try_new(page)?;
-                let values = FixexBinaryIter::new(values, size);
+                let values = fixed_len_iter(page, size)?;
 
                 Ok(Self::Optional(validity, values))
             }
-            (Encoding::Plain, _, false) => {
-                let (_, _, values) = split_buffer(page)?;
-                let values = FixexBinaryIter::new(values, size);
-
-                Ok(Self::Required(values))
-            }
+            (Encoding::Plain, _, false) => fixed_len_iter(page, size).map(Self::Required),
             _ => Err(Error::FeatureNotSupported(format!(
                 "Viewing page for encoding {:?} for binary type",
                 page.encoding(),
-- 
2.43.0


From d1c399691f510242653dc8e6c180c9e361d1aaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:32 +0000
Subject: [PATCH 50/55] fix: refuse column indexes whose lists disagree on the
 number of pages

---
 src/read/indexes/deserialize.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/read/indexes/deserialize.rs b/src/read/indexes/deserialize.rs
index e9af381..4f785f9 100644
--- a/src/read/indexes/deserialize.rs
+++ b/src/read/indexes/deserialize.rs
@@ -11,6 +11,16 @@ pub fn deserialize(data: &[u8], primitive_type: PrimitiveType) -> Result<Box<dyn
 
     let index = ColumnIndex::read_from_in_protocol(&mut prot)?;
 
+    let pages = index.null_pages.len();
+    if index.min_values.len() != pages
+        || index.max_values.len() != pages
+        || matches!(&index.null_counts, Some(x) if x.len() != pages)
+    {
+        return Err(Error::oos(
+            "The lists of a column index must have an item per page",
+        ));
+    }
+
     let index = match primitive_type.physical_type {
         PhysicalType::Boolean => Box::new(BooleanIndex::try_new(index)?) as Box<dyn Index>,
         PhysicalType::Int32 => Box::new(NativeIndex::<i32>::try_new(index, primitive_type)?),
-- 
2.43.0


From f0928de3931fd48c67cf9a3cf66f2249899f4ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:44 +0000
Subject: [PATCH 51/55] fix: do not panic on empty bounds in the column index
 of booleans

---
 src/indexes/index.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/indexes/index.rs b/src/indexes/index.rs
index 8242ac2..4b88d2d 100644
--- a/src/indexes/index.rs
+++ b/src/indexes/index.rs
@@ -291,9 +291,11 @@ impl BooleanIndex {
                 let (min, max) = if is_null {
                     (None, None)
                 } else {
-                    let min = min[0] == 1;
-                    let max = max[0] == 1;
-                    (Some(min), Some(max))
+                    let bound = |x: Vec<u8>| match x.as_slice() {
+                        [x] => Ok(*x == 1),
+                        _ => Err(Error::oos("The bounds of a boolean page must have one byte")),
+                    };
+                    (Some(bound(min)?), Some(bound(max)?))
                 };
                 Ok(PageIndex {
                     min,
-- 
2.43.0


From 322c834264297c442da715f64c07a6e49c8bd753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:02 +0000
Subject: [PATCH 52/55] fix: blocks that do not fit in the page are errors, not
 panics, with lz4_flex

---
 src/compression.rs | 45 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index 5236de2..72adc08 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -208,8 +208,7 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
             "decompress with snappy".to_string(),
         )),
         #[cfg(all(feature = "lz4_flex", not(feature = "lz4")))]
-        Compression::Lz4Raw => lz4_flex::block::decompress_into(input_buf, output_buf)
-            .map_err(|e| e.into())
+        Compression::Lz4Raw => lz4_decompress_to_buffer(input_buf, None, output_buf)
             .and_then(|size| check_size(size, output_buf)),
         #[cfg(feature = "lz4")]
         Compression::Lz4Raw => {
@@ -332,10 +331,52 @@ fn lz4_decompress_to_buffer(
     _uncompressed_size: Option<i32>,
     buffer: &mut [u8],
 ) -> Result<usize> {
+    // `lz4_flex` panics on blocks that do not fit in `buffer`
+    if !lz4_block_fits(src, buffer.len()) {
+        return Err(Error::oos(
+            "The decompressed data is larger than its declared size",
+        ));
+    }
     let size = lz4_flex::block::decompress_into(src, buffer)?;
     Ok(size)
 }
 
+/// Whether the sequences of literals and matches of the LZ4 block `src` have at most `size` bytes.
+#[cfg(all(feature = "lz4_flex", not(feature = "lz4")))]
+fn lz4_block_fits(src: &[u8], size: usize) -> bool {
+    // lengths of 15 or more are followed by bytes to add, of which the first below 255 is the last
+    fn length<'a>(nibble: u8, bytes: &mut impl Iterator<Item = &'a u8>) -> usize {
+        let mut length = nibble as usize;
+        if nibble == 15 {
+            for byte in bytes {
+                length += *byte as usize;
+                if *byte != 255 {
+                    break;
+                }
+            }
+        }
+        length
+    }
+
+    let mut bytes = src.iter();
+    let mut total = 0;
+    while let Some(token) = bytes.next() {
+        let literal = length(token >> 4, &mut bytes);
+        total += literal;
+        if literal > 0 {
+            bytes.nth(literal - 1);
+        }
+        // the last sequence has no match
+        if bytes.nth(1).is_some() {
+            total += 4 + length(token & 0xF, &mut bytes);
+        }
+        if total > size {
+            return false;
+        }
+    }
+    true
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 9611f8ec91759c595e0d4c21e679f1ea33a7fbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:59 +0000
Subject: [PATCH 53/55] fix: build with both LZ4 libraries

---
 src/compression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compression.rs b/src/compression.rs
index 72adc08..dd9fad7 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -313,7 +313,7 @@ fn try_decompress_hadoop(input_buf: &[u8], output_buf: &mut [u8]) -> Result<()>
     }
 }
 
-#[cfg(all(feature = "lz4", not(feature = "lz4_flex")))]
+#[cfg(feature = "lz4")]
 #[inline]
 fn lz4_decompress_to_buffer(
     src: &[u8],
-- 
2.43.0


From 96cd97a8616e13916fe7ea604b8076377d9fc06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:24 +0000
Subject: [PATCH 54/55] fix: 96-bit timestamps compare by their instants
 without overflowing

---
 src/types.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index cb64616..62ada0f 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -95,18 +95,24 @@ impl NativeType for [u32; 3] {
 
     #[inline]
     fn ord(&self, other: &Self) -> std::cmp::Ordering {
-        int96_to_i64_ns(*self).ord(&int96_to_i64_ns(*other))
+        int96_to_i128_ns(*self).cmp(&int96_to_i128_ns(*other))
     }
 }
 
+/// Nanoseconds since 1970-01-01, wrapping around when they do not fit in 64 bits.
 #[inline]
 pub fn int96_to_i64_ns(value: [u32; 3]) -> i64 {
-    const JULIAN_DAY_OF_EPOCH: i64 = 2_440_588;
-    const SECONDS_PER_DAY: i64 = 86_400;
-    const NANOS_PER_SECOND: i64 = 1_000_000_000;
+    int96_to_i128_ns(value) as i64
+}
+
+#[inline]
+fn int96_to_i128_ns(value: [u32; 3]) -> i128 {
+    const JULIAN_DAY_OF_EPOCH: i128 = 2_440_588;
+    const SECONDS_PER_DAY: i128 = 86_400;
+    const NANOS_PER_SECOND: i128 = 1_000_000_000;
 
-    let day = value[2] as i64;
-    let nanoseconds = ((value[1] as i64) << 32) + value[0] as i64;
+    let day = value[2] as i128;
+    let nanoseconds = ((value[1] as i128) << 32) + value[0] as i128;
     let seconds = (day - JULIAN_DAY_OF_EPOCH) * SECONDS_PER_DAY;
 
     seconds * NANOS_PER_SECOND + nanoseconds
-- 
2.43.0


From 5499ea2f200a8eda17fa64dfb2e9af5c03ae268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:14 +0000
Subject: [PATCH 55/55] fix: a malformed block does not copy from what the
 reused buffer had

---
 src/read/compression.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/read/compression.rs b/src/read/compression.rs
index 5f6eb16..142716d 100644
--- a/src/read/compression.rs
+++ b/src/read/compression.rs
@@ -68,12 +68,11 @@ pub fn decompress_buffer(
             // dealloc and ignore region, replacing it by a new region.
             // This won't reallocate - it frees and calls `alloc_zeroed`
             *buffer = vec![0; read_size];
-        } else if read_size > buffer.len() {
-            // fill what we need with zeros so that we can use them in `Read`.
+        } else {
+            // fill it with zeros, since a malformed (LZ4) block may copy from what it had.
             // This won't reallocate
+            buffer.clear();
             buffer.resize(read_size, 0);
-        } else {
-            buffer.truncate(read_size);
         }
         match compressed_page {
             CompressedPage::Data(compressed_page) => match compressed_page.header() {
-- 
2.43.0

