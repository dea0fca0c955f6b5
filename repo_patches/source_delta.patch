From beda4cf468f90f8b849d95392cd39df154250bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:58 +0000
Subject: [PATCH 01/40] fix: version 1 RGB compression and decompression of
 upper bytes

The decompressor OR-ed the new upper byte onto the old one, and the
compressor coded the upper blue byte with the context of the upper green
one, so points whose colors change did not survive a round trip.
---
 src/las/rgb.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/las/rgb.rs b/src/las/rgb.rs
index bf4ffc1..941d968 100644
--- a/src/las/rgb.rs
+++ b/src/las/rgb.rs
@@ -263,12 +263,12 @@ pub mod v1 {
             }
 
             if color_diff.upper_red_byte_changed() {
-                self.last.red |= (self.decompress_byte(
+                let new_upper_red = self.decompress_byte(
                     decoder,
                     UPPER_RED_BYTE_CONTEXT,
                     upper_byte(self.last.red),
-                )? as u16)
-                    << 8;
+                )?;
+                self.last.red = (new_upper_red as u16) << 8 | self.last.red & 0x00FF;
             }
 
             if color_diff.lower_green_byte_changed() {
@@ -281,12 +281,12 @@ pub mod v1 {
             }
 
             if color_diff.upper_green_byte_changed() {
-                self.last.green |= (self.decompress_byte(
+                let new_upper_green = self.decompress_byte(
                     decoder,
                     UPPER_GREEN_BYTE_CONTEXT,
                     upper_byte(self.last.green),
-                )? as u16)
-                    << 8;
+                )?;
+                self.last.green = (new_upper_green as u16) << 8 | self.last.green & 0x00FF;
             }
 
             if color_diff.lower_blue_byte_changed() {
@@ -299,12 +299,12 @@ pub mod v1 {
             }
 
             if color_diff.upper_blue_byte_changed() {
-                self.last.blue |= (self.decompress_byte(
+                let new_upper_blue = self.decompress_byte(
                     decoder,
                     UPPER_BLUE_BYTE_CONTEXT,
                     upper_byte(self.last.blue),
-                )? as u16)
-                    << 8;
+                )?;
+                self.last.blue = (new_upper_blue as u16) << 8 | self.last.blue & 0x00FF;
             }
             self.last.pack_into(buf);
             Ok(())
@@ -387,7 +387,7 @@ pub mod v1 {
                     &mut encoder,
                     i32::from(upper_byte(self.last.blue)),
                     i32::from(upper_byte(current_point.blue)),
-                    UPPER_GREEN_BYTE_CONTEXT,
+                    UPPER_BLUE_BYTE_CONTEXT,
                 )?;
             }
             self.last = current_point;
-- 
2.43.0


From a1c622e0902e1cfb22964cba8b6290f6f46abcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 02/40] fix: closing an empty first chunk lost the place of the
 table offset

finish_current_chunk (and compress_chunks with an empty first chunk) wrote
the chunk without having reserved the 8 bytes of the offset before it.
---
 src/laszip/sequential/compression.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/laszip/sequential/compression.rs b/src/laszip/sequential/compression.rs
index 192a88b..b9e64b4 100644
--- a/src/laszip/sequential/compression.rs
+++ b/src/laszip/sequential/compression.rs
@@ -225,6 +225,10 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
 
     #[inline]
     fn finish_current_chunk_impl(&mut self) -> std::io::Result<()> {
+        if self.chunk_start_pos == 0 {
+            // Nothing was written yet, the offset has to come before the chunk
+            self.reserve_offset_to_chunk_table()?;
+        }
         self.record_compressor.done()?;
         self.record_compressor.reset();
         self.record_compressor
-- 
2.43.0


From a68fff1b809ec7022b98cbb90b78f9fa7c6925a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 03/40] fix: non-chunked files whose chunk size field is 0 or
 u32::MAX

The chunk size of a vlr with the PointWise compressor means nothing, but
reading panicked because the file looked like one with variable-size chunks
and no chunk table.
---
 src/laszip/sequential/decompression.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 34653c6..d3ab56f 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -148,7 +148,10 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
         self.chunk_points_read += 1;
 
         if self.chunk_points_read == 1 {
-            if self.vlr.uses_variable_size_chunks() {
+            if self.vlr.compressor == CompressorType::PointWise {
+                // One chunk with everything, whatever the chunk size of the vlr is
+                self.num_points_in_chunk = u64::from(u32::MAX);
+            } else if self.vlr.uses_variable_size_chunks() {
                 self.num_points_in_chunk = match (&self.seek_info, self.vlr.compressor) {
                     (Some(seek_info), _) => seek_info.chunk_table[self.current_chunk].point_count,
                     (None, CompressorType::LayeredChunked) => {
@@ -160,8 +163,6 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                         panic!("Variable-size chunks, but no chunk table");
                     }
                 }
-            } else if self.vlr.compressor == CompressorType::PointWise {
-                self.num_points_in_chunk = u64::from(u32::MAX);
             } else {
                 self.num_points_in_chunk = u64::from(self.vlr.chunk_size());
             }
-- 
2.43.0


From 1e9243306195795db3e48da14674b48e462a2138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 04/40] fix: sequential seek in variable-size chunks and to the
 last points

- the position in the chunk was computed as if all the chunks before had
  the size of the chunk sought to
- existing points of the last chunk whose data was already completely read
  by the decoder were taken for points that do not exist
- after a seek to a point that does not exist, the decoder could still
  make up points with the bytes it held
---
 src/laszip/sequential/decompression.rs | 27 +++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index d3ab56f..1ecef0f 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -203,7 +203,12 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
 
         if let Some((chunk_of_point, start_of_chunk)) = chunk_info {
             self.current_chunk = chunk_of_point as usize;
-            let delta = point_idx % chunk_table[self.current_chunk].point_count;
+            // Chunks do not necessarily all have the same number of points
+            let num_points_before_chunk = chunk_table[..self.current_chunk]
+                .iter()
+                .map(|entry| entry.point_count)
+                .sum::<u64>();
+            let delta = point_idx - num_points_before_chunk;
             let seeked_point_belong_to_last_chunk = chunk_of_point == (chunk_table.len() - 1);
             // When the index of the point belongs to the last chunk
             // we try to be careful as that point may not exist, and there may be a
@@ -231,9 +236,10 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                     self.decompress_one(&mut tmp_out)?;
                     let current_pos = self.get_mut().seek(SeekFrom::Current(0))?;
 
-                    if current_pos >= offset_to_chunk_table {
-                        self.get_mut().seek(SeekFrom::End(0))?;
-                        return Ok(());
+                    // Being exactly at the chunk table is fine, the decoder may hold
+                    // everything it needs to decompress the last points.
+                    if current_pos > offset_to_chunk_table {
+                        return self.move_to_end();
                     }
                 }
             } else {
@@ -249,13 +255,20 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
             // the requested point it out of bounds (ie higher than the number of
             // points compressed)
 
-            // Seek to the end so that the next call to decompress causes en error
-            // like "Failed to fill whole buffer (seeking past end is allowed by the Seek Trait)
-            self.record_decompressor.get_mut().seek(SeekFrom::End(0))?;
+            self.move_to_end()?;
         }
         Ok(())
     }
 
+    /// Seek to the end so that the next call to decompress causes en error
+    /// like "Failed to fill whole buffer (seeking past end is allowed by the Seek Trait)
+    fn move_to_end(&mut self) -> crate::Result<()> {
+        self.get_mut().seek(SeekFrom::End(0))?;
+        // Without this the decoder could go on with the bytes it already has
+        self.reset_for_new_chunk();
+        Ok(())
+    }
+
     /// Returns the vlr used.
     pub fn vlr(&self) -> &LazVlr {
         &self.vlr
-- 
2.43.0


From a167b1cb0177820f7b0630ef098bd22a67ad6412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 05/40] fix: sequential reading of variable-size chunks without
 points

Points were read from chunks the chunk table says are empty, and reading
past the last chunk panicked. Past the end of fixed-size chunks the chunk
table was taken for points.
---
 src/laszip/chunk_table.rs              | 19 ++++++--
 src/laszip/sequential/decompression.rs | 64 +++++++++++++++++++++++++-
 2 files changed, 77 insertions(+), 6 deletions(-)

diff --git a/src/laszip/chunk_table.rs b/src/laszip/chunk_table.rs
index a9c5b96..0ea7394 100644
--- a/src/laszip/chunk_table.rs
+++ b/src/laszip/chunk_table.rs
@@ -59,6 +59,14 @@ impl ChunkTable {
     /// For `variable-size` chunks the `point_count` of each entry is the one read
     /// from the source.
     pub fn read_from<R: Read + Seek>(mut src: R, vlr: &LazVlr) -> crate::Result<Self> {
+        Self::read_with_position_from(&mut src, vlr).map(|(chunk_table, _)| chunk_table)
+    }
+
+    /// Same as [ChunkTable::read_from] but also returns the position of the chunk table
+    pub(crate) fn read_with_position_from<R: Read + Seek>(
+        mut src: R,
+        vlr: &LazVlr,
+    ) -> crate::Result<(Self, u64)> {
         if vlr.uses_variable_size_chunks() {
             ChunkTable::read_as_variably_sized(&mut src)
         } else {
@@ -75,20 +83,23 @@ impl ChunkTable {
     ///
     /// This of course will only give correct results if the chunk table stored in the source
     /// contains both these information. Which is the case for **variable-sized** chunks.
-    fn read_as_variably_sized<R: Read + Seek>(mut src: R) -> crate::Result<Self> {
+    fn read_as_variably_sized<R: Read + Seek>(mut src: R) -> crate::Result<(Self, u64)> {
         let (data_start, chunk_table_start) =
             Self::read_offset(&mut src)?.ok_or(LasZipError::MissingChunkTable)?;
         src.seek(SeekFrom::Start(chunk_table_start))?;
         let chunk_table = Self::read(&mut src, true)?;
         src.seek(SeekFrom::Start(data_start + 8))?;
-        Ok(chunk_table)
+        Ok((chunk_table, chunk_table_start))
     }
 
     /// Reads the chunk table that contains only `point_count`.
     ///
     /// This is for the case when chunks are  **fixed-size**.
     /// Each chunk entry will have the given `point_count` as the point_count.
-    fn read_as_fixed_size<R: Read + Seek>(mut src: R, point_count: u64) -> crate::Result<Self> {
+    fn read_as_fixed_size<R: Read + Seek>(
+        mut src: R,
+        point_count: u64,
+    ) -> crate::Result<(Self, u64)> {
         let (data_start, chunk_table_start) =
             Self::read_offset(&mut src)?.ok_or(LasZipError::MissingChunkTable)?;
         src.seek(SeekFrom::Start(chunk_table_start))?;
@@ -98,7 +109,7 @@ impl ChunkTable {
         for entry in &mut chunk_table.0 {
             entry.point_count = point_count;
         }
-        Ok(chunk_table)
+        Ok((chunk_table, chunk_table_start))
     }
 
     /// Reads the offset to the chunk table.
diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 1ecef0f..1337b6d 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -5,7 +5,7 @@ use crate::las::selective::DecompressionSelection;
 use crate::record::RecordDecompressor;
 use crate::LasZipError;
 
-use crate::laszip::chunk_table::ChunkTable;
+use crate::laszip::chunk_table::{ChunkTable, ChunkTableEntry};
 use crate::laszip::{details, CompressorType, LazVlr};
 
 /// SeekInfo aggregates the two information needed to be able to seek
@@ -14,6 +14,8 @@ pub(super) struct SeekInfo {
     // offset to the first point
     pub(super) data_start: u64,
     pub(super) chunk_table: ChunkTable,
+    // where the chunk table was read
+    pub(super) chunk_table_position: u64,
 }
 
 impl SeekInfo {
@@ -21,12 +23,14 @@ impl SeekInfo {
         mut source: &mut T,
         vlr: &LazVlr,
     ) -> crate::Result<Self> {
-        let chunk_table = ChunkTable::read_from(&mut source, vlr)?;
+        let (chunk_table, chunk_table_position) =
+            ChunkTable::read_with_position_from(&mut source, vlr)?;
         let data_start = source.seek(SeekFrom::Current(0))?;
 
         Ok(Self {
             data_start,
             chunk_table,
+            chunk_table_position,
         })
     }
 
@@ -144,6 +148,10 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
             self.current_chunk += 1;
         }
 
+        if self.chunk_points_read == 0 {
+            self.ensure_chunk_has_points()?;
+        }
+
         self.record_decompressor.decompress_next(&mut out)?;
         self.chunk_points_read += 1;
 
@@ -195,6 +203,7 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
         let SeekInfo {
             data_start,
             chunk_table,
+            ..
         } = self.seek_info.as_ref().ok_or(MissingChunkTable)?;
 
         let chunk_info = chunk_table
@@ -266,6 +275,10 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
         self.get_mut().seek(SeekFrom::End(0))?;
         // Without this the decoder could go on with the bytes it already has
         self.reset_for_new_chunk();
+        self.current_chunk = self
+            .seek_info
+            .as_ref()
+            .map_or(0, |seek_info| seek_info.chunk_table.len());
         Ok(())
     }
 
@@ -288,6 +301,53 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
         self.record_decompressor.get()
     }
 
+    /// To be called when about to read the first point of a chunk
+    ///
+    /// Moves past chunks known to hold no points, and fails if there are no more chunks.
+    fn ensure_chunk_has_points(&mut self) -> std::io::Result<()> {
+        let Some(seek_info) = &self.seek_info else {
+            return Ok(());
+        };
+        let chunk_table = seek_info.chunk_table.as_ref();
+
+        let mut chunk_index = self.current_chunk;
+        if self.vlr.uses_variable_size_chunks() {
+            let mut num_bytes_to_skip = 0;
+            while let Some(&ChunkTableEntry {
+                point_count: 0,
+                byte_count,
+            }) = chunk_table.get(chunk_index)
+            {
+                num_bytes_to_skip += byte_count;
+                chunk_index += 1;
+            }
+
+            if num_bytes_to_skip > 0 {
+                self.record_decompressor
+                    .get_mut()
+                    .seek(SeekFrom::Current(num_bytes_to_skip as i64))?;
+            }
+            self.current_chunk = chunk_index;
+        }
+
+        if chunk_index >= chunk_table.len() {
+            // If the writer did not finish its work the table may not list all the chunks
+            let is_past_end = self.vlr.uses_variable_size_chunks()
+                || self
+                    .record_decompressor
+                    .get_mut()
+                    .seek(SeekFrom::Current(0))?
+                    >= seek_info.chunk_table_position;
+            if is_past_end {
+                return Err(std::io::Error::new(
+                    std::io::ErrorKind::UnexpectedEof,
+                    "no more chunks in the chunk table",
+                ));
+            }
+        }
+        Ok(())
+    }
+
     #[inline(always)]
     fn reset_for_new_chunk(&mut self) {
         self.chunk_points_read = 0;
-- 
2.43.0


From 46b090cbbb5115302dea464aa165790af56d6b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:00 +0000
Subject: [PATCH 06/40] fix: lost sign of zero GPS times in layered compression

0.0 followed by -0.0 (or the other way round) was compressed as an unchanged
GPS time.
---
 src/las/point6.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/las/point6.rs b/src/las/point6.rs
index 87424e0..26fbbc4 100644
--- a/src/las/point6.rs
+++ b/src/las/point6.rs
@@ -1665,7 +1665,9 @@ mod v3_v4 {
 
             // determine changed attributes
             let point_source_changed = last_point.point_source_id != current_point.point_source_id;
-            let gps_time_changed = last_point.gps_time != current_point.gps_time;
+            // compare the bits, as -0.0 == 0.0
+            let gps_time_changed =
+                last_point.gps_time.to_bits() != current_point.gps_time.to_bits();
             let scan_angle_changed = last_point.scan_angle_rank != current_point.scan_angle_rank;
 
             // get last and current return counts
-- 
2.43.0


From 49aa2659a9ce927074a60771502fcb15997d6d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:26 +0000
Subject: [PATCH 07/40] fix: wave packet offsets following a packet of 2 GiB or
 more

The encoder compared the difference of offsets with the size of the
previous packet as a signed 32 bits integer while the decoder adds the
unsigned size, so the upper bytes of the offset were not restored.
---
 src/las/wavepacket.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/las/wavepacket.rs b/src/las/wavepacket.rs
index 583c8a5..2638e3e 100644
--- a/src/las/wavepacket.rs
+++ b/src/las/wavepacket.rs
@@ -166,8 +166,10 @@ pub mod v1 {
                     current_wavepacket.offset = self.last_wavepacket.offset;
                 }
                 1 => {
-                    current_wavepacket.offset =
-                        self.last_wavepacket.offset + u64::from(self.last_wavepacket.size);
+                    current_wavepacket.offset = self
+                        .last_wavepacket
+                        .offset
+                        .wrapping_add(u64::from(self.last_wavepacket.size));
                 }
                 2 => {
                     self.last_offset_diff =
@@ -283,7 +285,8 @@ pub mod v1 {
                 u32::from(current_item.descriptor_index),
             )?;
 
-            let offset_diff_64 = current_item.offset as i64 - self.last_wavepacket.offset as i64;
+            let offset_diff_64 =
+                (current_item.offset as i64).wrapping_sub(self.last_wavepacket.offset as i64);
             let offset_diff_32 = offset_diff_64 as i32;
 
             if offset_diff_64 == offset_diff_32 as i64 {
@@ -291,7 +294,7 @@ pub mod v1 {
 
                 let new_syn_offset_diff = if offset_diff_32 == 0 {
                     0
-                } else if offset_diff_32 == self.last_wavepacket.size as i32 {
+                } else if offset_diff_64 == i64::from(self.last_wavepacket.size) {
                     1
                 } else {
                     2
-- 
2.43.0


From 2ceb89f31a3b1b1047074605c6abd8da7f516856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:10 +0000
Subject: [PATCH 08/40] fix: reading of points when the chunk table cannot be
 read

When the offset to the chunk table was readable but not what it points to,
the source was left elsewhere than at the start of points.
---
 src/laszip/sequential/decompression.rs | 61 +++++++++++++++-----------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 1337b6d..6b3fefb 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -85,37 +85,18 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                 None
             }
             CompressorType::PointWiseChunked => {
-                let result = SeekInfo::read_from(&mut source, &vlr);
-                match (result, vlr.uses_variable_size_chunks()) {
-                    (Ok(info), _) => Some(info),
-                    (Err(_), false) => {
-                        // The error is probably due to a seek error
-                        // (Eg for a source that is not actually seekable).
-                        // So we _may_ still be at the start of point data,
-                        // we need to skip the chunk table offset otherwise
-                        // decompression won't be correct.
-                        let mut tmp = [0u8; ChunkTable::OFFSET_SIZE];
-                        source.read_exact(&mut tmp)?;
-                        None
-                    }
-                    (Err(err), true) => {
-                        // For for point wise chunked with variable size chunks,
-                        // we absolutely need the chunk table to be able to know when a
-                        // chunk ends.
-                        return Err(err);
-                    }
+                match Self::read_seek_info(&mut source, &vlr)? {
+                    // For for point wise chunked with variable size chunks,
+                    // we absolutely need the chunk table to be able to know when a
+                    // chunk ends.
+                    Err(err) if vlr.uses_variable_size_chunks() => return Err(err),
+                    result => result.ok(),
                 }
             }
             CompressorType::LayeredChunked => {
                 // Layered Chunks embeds the point count at the start of the chunk
                 // So its fine if we don't have a chunk table
-                let seek_info = SeekInfo::read_from(&mut source, &vlr).ok();
-                if seek_info.is_none() {
-                    // Same as in PointWiseChunked
-                    let mut tmp = [0u8; ChunkTable::OFFSET_SIZE];
-                    source.read_exact(&mut tmp)?;
-                }
-                seek_info
+                Self::read_seek_info(&mut source, &vlr)?.ok()
             }
             _ => {
                 return Err(LasZipError::UnsupportedCompressorType(vlr.compressor));
@@ -137,6 +118,34 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
         })
     }
 
+    /// Tries to read the seek info, the source must be at the start of point data
+    ///
+    /// Whether the chunk table could be read or not, the source ends up right after
+    /// the chunk table offset, as decompression won't be correct otherwise.
+    fn read_seek_info(source: &mut R, vlr: &LazVlr) -> crate::Result<crate::Result<SeekInfo>> {
+        let start_of_data = source
+            .seek(SeekFrom::Current(0))
+            .and_then(|position| source.seek(SeekFrom::Start(position)));
+
+        match start_of_data {
+            Ok(start_of_data) => {
+                let result = SeekInfo::read_from(&mut *source, vlr);
+                if result.is_err() {
+                    let start_of_points = start_of_data + ChunkTable::OFFSET_SIZE as u64;
+                    source.seek(SeekFrom::Start(start_of_points))?;
+                }
+                Ok(result)
+            }
+            Err(err) => {
+                // The source is probably not actually seekable,
+                // so we are still at the start of point data.
+                let mut tmp = [0u8; ChunkTable::OFFSET_SIZE];
+                source.read_exact(&mut tmp)?;
+                Ok(Err(err.into()))
+            }
+        }
+    }
+
     /// Decompress the next point and write the uncompressed data to the out buffer.
     ///
     /// - The buffer should have at least enough byte to store the decompressed data
-- 
2.43.0


From 90a80a31f43d8c5c4500600328983347fbb74709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:26 +0000
Subject: [PATCH 09/40] fix: chunk table entries of 2^31 points or bytes and
 more

The values are unsigned 32 bits integers, they were sign extended.
---
 src/laszip/chunk_table.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/laszip/chunk_table.rs b/src/laszip/chunk_table.rs
index 0ea7394..44428ef 100644
--- a/src/laszip/chunk_table.rs
+++ b/src/laszip/chunk_table.rs
@@ -170,17 +170,17 @@ impl ChunkTable {
                 byte_count: 0,
             };
             if contains_point_count {
-                current_entry.point_count = u64::from_le(decompressor.decompress(
+                current_entry.point_count = u64::from(decompressor.decompress(
                     &mut decoder,
                     previous_entry.point_count as i32,
                     POINT_COUNT_CONTEXT,
-                )? as u64);
+                )? as u32);
             }
-            current_entry.byte_count = u64::from_le(decompressor.decompress(
+            current_entry.byte_count = u64::from(decompressor.decompress(
                 &mut decoder,
                 previous_entry.byte_count as i32,
                 BYTE_COUNT_CONTEXT,
-            )? as u64);
+            )? as u32);
 
             chunk_table.0.push(current_entry);
             previous_entry = current_entry;
-- 
2.43.0


From 7649ce6c627961b84aa904865032c03fd971351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:27 +0000
Subject: [PATCH 10/40] fix: memory allocated for a corrupted number of chunks

---
 src/laszip/chunk_table.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/laszip/chunk_table.rs b/src/laszip/chunk_table.rs
index 44428ef..34d882d 100644
--- a/src/laszip/chunk_table.rs
+++ b/src/laszip/chunk_table.rs
@@ -162,7 +162,10 @@ impl ChunkTable {
         let mut decoder = ArithmeticDecoder::new(&mut src);
         decoder.read_init_bytes()?;
 
-        let mut chunk_table = ChunkTable::with_capacity(number_of_chunks as usize);
+        // The number of chunks comes from the source, do not let it alone decide how much
+        // memory we allocate
+        let capacity = number_of_chunks.min(1 << 16) as usize;
+        let mut chunk_table = ChunkTable::with_capacity(capacity);
         let mut previous_entry = ChunkTableEntry::default();
         for _ in 1..=number_of_chunks {
             let mut current_entry = ChunkTableEntry {
-- 
2.43.0


From 7f419c743e6f7083c1e95eadee45eaf97d9b2b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:27 +0000
Subject: [PATCH 11/40] fix: variable-size layered chunks without a chunk table

The number of points of the chunk was read but never remembered, so after the
first chunk's points the decompressor did not move to the next chunk.
---
 src/record.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/record.rs b/src/record.rs
index da13149..8863cbe 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -350,6 +350,7 @@ pub struct LayeredPointRecordDecompressor<'a, R: Read + Seek> {
     is_first_decompression: bool,
     fields_sizes: Vec<usize>,
     record_size: usize,
+    record_count: u32,
     context: usize,
 }
 
@@ -363,6 +364,7 @@ impl<'a, R: Read + Seek> LayeredPointRecordDecompressor<'a, R> {
             is_first_decompression: true,
             fields_sizes: vec![],
             record_size: 0,
+            record_count: 0,
             context: 0,
         }
     }
@@ -454,6 +456,10 @@ impl<'a, R: Read + Seek> RecordDecompressor<R> for LayeredPointRecordDecompresso
         self.record_size
     }
 
+    fn record_count(&self) -> u64 {
+        u64::from(self.record_count)
+    }
+
     fn decompress_next(&mut self, out: &mut [u8]) -> std::io::Result<()> {
         let decompressors_and_data =
             self.field_decompressors
@@ -472,7 +478,7 @@ impl<'a, R: Read + Seek> RecordDecompressor<R> for LayeredPointRecordDecompresso
                 )?;
             }
 
-            let _count = self.input.read_u32::<LittleEndian>()?;
+            self.record_count = self.input.read_u32::<LittleEndian>()?;
             for field in &mut self.field_decompressors {
                 field.read_layers_sizes(&mut self.input)?;
             }
@@ -493,6 +499,7 @@ impl<'a, R: Read + Seek> RecordDecompressor<R> for LayeredPointRecordDecompresso
         self.is_first_decompression = true;
         self.field_decompressors.clear();
         self.record_size = 0;
+        self.record_count = 0;
         self.fields_sizes.clear();
     }
 
-- 
2.43.0


From c99e649a8453d1cd2a10e81a578d5acc211aca32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:43 +0000
Subject: [PATCH 12/40] fix: seeking with the parallel decompressor

- variable-size chunks: the position in the chunk was computed with the
  chunk size that fixed-size chunks have
- sources doing short reads left parts of the chunk unread
- the selection of fields was ignored
- the last chunk was followed by zeroed points
- points past the end could be returned after a seek outside of the file
---
 src/laszip/parallel/decompression.rs | 53 ++++++++++++++--------------
 src/laszip/vlr.rs                    | 10 ++----
 2 files changed, 29 insertions(+), 34 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 29c1eaa..de5fa33 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -224,47 +224,48 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
             Some(v) => v,
             None => {
                 let _ = self.source.seek(SeekFrom::End(0))?;
+                // There is nothing left to decompress, force EOF error on next decompression
+                self.last_chunk_read = self.chunk_table.len() as isize - 1;
                 return Ok(());
             }
         };
 
         let start_of_chunk_pos = self.start_of_data + byte_offset;
         self.source.seek(SeekFrom::Start(start_of_chunk_pos))?;
+        let chunk_entry = self.chunk_table[chunk_of_point];
         self.internal_buffer
-            .resize(self.chunk_table[chunk_of_point].byte_count as usize, 0u8);
-        self.source.read(&mut self.internal_buffer)?;
+            .resize(chunk_entry.byte_count as usize, 0u8);
+        self.source.read_exact(&mut self.internal_buffer)?;
 
         // Completely decompress the chunk
-        let num_bytes = match self.vlr.num_bytes_in_decompressed_chunk() {
-            crate::laszip::vlr::DecompressedChunkSize::Fixed { num_bytes } => num_bytes,
-            crate::laszip::vlr::DecompressedChunkSize::Variable {
-                num_bytes_per_point,
-            } => num_bytes_per_point * self.chunk_table[chunk_of_point].point_count as usize,
-        };
-        self.rest.get_mut().resize(num_bytes, 0u8);
+        let is_last_chunk = chunk_of_point == (self.chunk_table.len() - 1);
         let mut decompressor = record_decompressor_from_laz_items(
             self.vlr.items(),
             std::io::Cursor::new(&self.internal_buffer),
         )?;
-        let is_last_chunk = chunk_of_point == (self.chunk_table.len() - 1);
-        if is_last_chunk {
-            let num_bytes_decompressed =
-                decompressor.decompress_until_end_of_file(self.rest.get_mut())?;
-            let num_points_in_last_chunk = num_bytes_decompressed / self.vlr.items_size() as usize;
-            let pos_in_chunk = index % self.vlr.chunk_size() as u64;
-            if pos_in_chunk as usize >= num_points_in_last_chunk as usize {
-                // Make the rest appear as fully consumed to
-                // force EOF error on next decompression
-                self.rest.set_position(self.rest.get_ref().len() as u64);
-                return Ok(());
-            }
+        decompressor.set_selection(self.selection);
+        let point_size = self.vlr.items_size();
+        let mut points = vec![0u8; (chunk_entry.point_count * point_size) as usize];
+        if is_last_chunk && !self.vlr.uses_variable_size_chunks() {
+            // When fixed-size chunks are used, for the last chunk, the number of point
+            // is unknown, so we have to decompress it until an end of file appears
+            let num_bytes_decompressed = decompressor.decompress_until_end_of_file(&mut points)?;
+            points.truncate(num_bytes_decompressed);
         } else {
-            decompressor.decompress_many(self.rest.get_mut())?;
+            decompressor.decompress_many(&mut points)?;
         }
-        // This effectively discard points that were
-        // before the one we just seeked to
-        let pos_in_chunk = index % self.vlr.chunk_size() as u64;
-        self.rest.set_position(pos_in_chunk * self.vlr.items_size());
+
+        // Discard points that are before the one we just seeked to,
+        // if it does not exist, the rest will appear as fully consumed to
+        // force EOF error on next decompression
+        let num_points_before_chunk = self.chunk_table[..chunk_of_point]
+            .iter()
+            .map(|entry| entry.point_count)
+            .sum::<u64>();
+        let pos_in_chunk = (index - num_points_before_chunk) * point_size;
+        self.rest
+            .set_position(pos_in_chunk.min(points.len() as u64));
+        *self.rest.get_mut() = points;
         self.last_chunk_read = chunk_of_point as isize;
         Ok(())
     }
diff --git a/src/laszip/vlr.rs b/src/laszip/vlr.rs
index 3c2d58c..fcb3c92 100644
--- a/src/laszip/vlr.rs
+++ b/src/laszip/vlr.rs
@@ -521,13 +521,7 @@ impl LazVlr {
     #[inline]
     pub(crate) fn num_bytes_in_decompressed_chunk(&self) -> DecompressedChunkSize {
         if self.uses_variable_size_chunks() {
-            let num_bytes_per_point = self
-                .items_size()
-                .try_into()
-                .expect("u64 does not fit in a usize");
-            DecompressedChunkSize::Variable {
-                num_bytes_per_point,
-            }
+            DecompressedChunkSize::Variable
         } else {
             let num_bytes = (self.chunk_size as u64 * self.items_size() as u64)
                 .try_into()
@@ -540,7 +534,7 @@ impl LazVlr {
 #[cfg(feature = "parallel")]
 pub(crate) enum DecompressedChunkSize {
     Fixed { num_bytes: usize },
-    Variable { num_bytes_per_point: usize },
+    Variable,
 }
 
 #[cfg(feature = "parallel")]
-- 
2.43.0


From 8979eff33e60cb8f47002d5f9fbcff355391e6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 13/40] fix: asking the parallel decompressor for more points
 than there are

Slicing the caller's buffer panicked instead of returning an error.
Also do not keep points of a failed decompression.
---
 src/laszip/parallel/decompression.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index de5fa33..941097c 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -133,17 +133,14 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         }
         let end_index = start_index + num_chunks_to_decompress;
 
-        if num_chunks_to_decompress == 0 {
+        if num_points < num_requested_points_left {
             return Err(LasZipError::IoError(std::io::Error::new(
                 std::io::ErrorKind::UnexpectedEof,
-                "no chunks available in chunk table",
+                "not enough points in the chunks of the chunk table",
             )));
         }
 
         debug_assert!(num_chunks_to_decompress >= 1);
-        debug_assert!(num_points >= num_requested_points_left);
-        // TODO if num_points >= num_requested_points_left then the user ask to decompress more points
-        //      than there are
 
         // Read the necessary compressed bytes into our internal buffer
         self.internal_buffer.resize(num_bytes_to_read, 0u8);
@@ -205,8 +202,11 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
                 Ok(())
             },
         );
-        res1?;
-        res2?;
+        if let Err(err) = res1.and(res2) {
+            // What could be in there is not usable
+            rest.get_mut().clear();
+            return Err(err);
+        }
 
         self.last_chunk_read += num_chunks_to_decompress as isize;
         Ok(())
-- 
2.43.0


From e8544cf575cf403b41c02167341c1a2595aa5606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 14/40] fix: parallel decompression of a buffer

- the end of the compressed points was 8 bytes too early
- buffers that do not fill the last chunk, or smaller than the points
  that are available, were a panic
- same for a chunk table that does not match the data
---
 src/laszip/parallel/decompression.rs | 40 +++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 941097c..ad8ab1e 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -134,10 +134,9 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         let end_index = start_index + num_chunks_to_decompress;
 
         if num_points < num_requested_points_left {
-            return Err(LasZipError::IoError(std::io::Error::new(
-                std::io::ErrorKind::UnexpectedEof,
+            return Err(unexpected_eof(
                 "not enough points in the chunks of the chunk table",
-            )));
+            ));
         }
 
         debug_assert!(num_chunks_to_decompress >= 1);
@@ -324,7 +323,11 @@ pub fn par_decompress_buffer(
         .map(|entry| entry.byte_count as usize)
         .sum::<usize>();
 
-    let compressed_points = &compressed_points_data[std::mem::size_of::<i64>()..num_point_bytes];
+    let start_of_points = ChunkTable::OFFSET_SIZE;
+    let compressed_points = start_of_points
+        .checked_add(num_point_bytes)
+        .and_then(|end_of_points| compressed_points_data.get(start_of_points..end_of_points))
+        .ok_or_else(|| unexpected_eof("the chunks are bigger than the data"))?;
     par_decompress(
         compressed_points,
         decompressed_points,
@@ -333,6 +336,10 @@ pub fn par_decompress_buffer(
     )
 }
 
+fn unexpected_eof(msg: &'static str) -> LasZipError {
+    LasZipError::IoError(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, msg))
+}
+
 /// Actual the parallel decompression
 ///
 /// `compressed_points` must contains only the bytes corresponding to the points
@@ -348,9 +355,30 @@ pub fn par_decompress_selective(
 ) -> crate::Result<()> {
     use crate::byteslice::ChunksIrregular;
     let sizes = chunk_table.iter().map(|entry| entry.byte_count as usize);
-    let counts = chunk_table
+
+    let num_bytes_in_chunks = chunk_table
         .iter()
-        .map(|entry| (entry.point_count * laz_vlr.items_size()) as usize);
+        .map(|entry| entry.byte_count)
+        .sum::<u64>();
+    if num_bytes_in_chunks > compressed_points.len() as u64 {
+        return Err(unexpected_eof("the chunks are bigger than the data"));
+    }
+
+    // The output may not be able to hold all the points, and the last fixed-size chunk
+    // may have less points than what its entry says.
+    let mut num_bytes_left = decompressed_points.len();
+    let mut counts = Vec::with_capacity(chunk_table.len());
+    for entry in chunk_table {
+        let num_bytes = (entry.point_count * laz_vlr.items_size()) as usize;
+        counts.push(num_bytes.min(num_bytes_left));
+        num_bytes_left -= counts[counts.len() - 1];
+    }
+    if num_bytes_left != 0 {
+        return Err(unexpected_eof(
+            "not enough points in the chunks of the chunk table",
+        ));
+    }
+
     let input_chunks_iter = ChunksIrregular::new(compressed_points, sizes);
     let output_chunks_iter = ChunksIrregularMut::new(decompressed_points, counts);
 
-- 
2.43.0


From 33130343783d151d1807aca8682e4762002ebb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 15/40] fix: appending with a point count of 0 or greater than
 the real one

0 was an underflow, and for variable-size chunks a count that was too great
made the last chunk yield points it does not have.
---
 src/laszip/sequential/appender.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/laszip/sequential/appender.rs b/src/laszip/sequential/appender.rs
index d4366a8..6faba14 100644
--- a/src/laszip/sequential/appender.rs
+++ b/src/laszip/sequential/appender.rs
@@ -40,7 +40,10 @@ where
     let mut chunk_table = ChunkTable::read_from(&mut data, &vlr)?;
 
     let mut data_to_recompress = vec![];
-    if !chunk_table.is_empty() {
+    if point_count == 0 {
+        // Nothing to keep
+        chunk_table.truncate(0);
+    } else if !chunk_table.is_empty() {
         let (chunk_index, chunk_start_pos) = chunk_table
             .chunk_of_point(point_count - 1)
             .unwrap_or_else(|| {
@@ -68,6 +71,8 @@ where
             // but, we chose not to completely trust the point count we received
             points_to_read = u64::from(vlr.chunk_size());
         }
+        // point_count may be greater than the actual number of points
+        points_to_read = points_to_read.min(chunk_table[chunk_index].point_count);
 
         if points_to_read > 0 {
             let size_of_chunk = chunk_table[chunk_index].byte_count;
-- 
2.43.0


From 42091b80a931e64f6273290363dd3941563cb322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:29 +0000
Subject: [PATCH 16/40] fix: size of the first chunk written when appending

The sequential appender counted the bytes of the chunks that are kept in the
size of the first chunk it writes, which made the chunk table wrong.
---
 src/laszip/parallel/appender.rs      |  6 +++++-
 src/laszip/sequential/appender.rs    | 19 +++++++++++++------
 src/laszip/sequential/compression.rs | 11 +++++++++++
 3 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/laszip/parallel/appender.rs b/src/laszip/parallel/appender.rs
index 1d1fd01..da1bd8a 100644
--- a/src/laszip/parallel/appender.rs
+++ b/src/laszip/parallel/appender.rs
@@ -21,7 +21,11 @@ where
             vlr,
             point_count,
             ParLasZipCompressor::new,
-            ParLasZipCompressor::get_mut,
+            |compressor, num_bytes| {
+                let dest = compressor.get_mut();
+                dest.seek(SeekFrom::Current(num_bytes as i64)).map(|_| ())
+            },
+            ParLasZipCompressor::compress_many,
         )?;
 
         Ok(Self {
diff --git a/src/laszip/sequential/appender.rs b/src/laszip/sequential/appender.rs
index 6faba14..95096e9 100644
--- a/src/laszip/sequential/appender.rs
+++ b/src/laszip/sequential/appender.rs
@@ -15,17 +15,23 @@ use std::io::{Cursor, Read, Seek, SeekFrom, Write};
 /// * If `point_count` is greater than the actual number of points,
 ///   the function will stop at when we know for sure no other points
 ///   could be present
-pub(crate) fn prepare_compressor_for_appending<W, F, F2, Compressor>(
+///
+/// `skip_chunks`: makes the compressor write after the number of bytes of chunks to keep
+///
+/// `recompress`: compresses the points of the chunk that has to be rewritten
+pub(crate) fn prepare_compressor_for_appending<W, F, F2, F3, Compressor>(
     mut data: W,
     vlr: LazVlr,
     point_count: u64,
     compressor_creator: F,
-    get_mut_dest_of_compressor: F2,
+    skip_chunks: F2,
+    recompress: F3,
 ) -> crate::Result<(Compressor, ChunkTable)>
 where
     W: Write + Read + Seek + Sync,
     F: FnOnce(W, LazVlr) -> crate::Result<Compressor>,
-    F2: FnOnce(&mut Compressor) -> &mut W,
+    F2: FnOnce(&mut Compressor, u64) -> std::io::Result<()>,
+    F3: FnOnce(&mut Compressor, &[u8]) -> std::io::Result<()>,
     Compressor: LazCompressor,
 {
     // Technically we could support PointWise compressor
@@ -104,10 +110,10 @@ where
     // offset is.
     compressor.reserve_offset_to_chunk_table()?;
     let last_chunk_pos = chunk_table.chunk_position(chunk_table.len()).unwrap();
-    get_mut_dest_of_compressor(&mut compressor).seek(SeekFrom::Current(last_chunk_pos as i64))?;
+    skip_chunks(&mut compressor, last_chunk_pos)?;
     // Rewrite the last chunk we read
     if !data_to_recompress.is_empty() {
-        compressor.compress_many(&data_to_recompress)?;
+        recompress(&mut compressor, &data_to_recompress)?;
     }
 
     Ok((compressor, chunk_table))
@@ -130,7 +136,8 @@ where
             vlr,
             point_count,
             LasZipCompressor::new,
-            LasZipCompressor::get_mut,
+            LasZipCompressor::skip_chunks,
+            LasZipCompressor::compress_many,
         )?;
 
         Ok(Self {
diff --git a/src/laszip/sequential/compression.rs b/src/laszip/sequential/compression.rs
index b9e64b4..a529883 100644
--- a/src/laszip/sequential/compression.rs
+++ b/src/laszip/sequential/compression.rs
@@ -206,6 +206,17 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
         self.start_pos as i64
     }
 
+    /// Moves past `num_bytes` of chunks that are already in the destination.
+    ///
+    /// To be called after [Self::reserve_offset_to_chunk_table], and before any compression
+    pub(crate) fn skip_chunks(&mut self, num_bytes: u64) -> std::io::Result<()> {
+        self.chunk_start_pos += num_bytes;
+        self.record_compressor
+            .get_mut()
+            .seek(SeekFrom::Start(self.chunk_start_pos))?;
+        Ok(())
+    }
+
     /// Returns the current chunk table
     pub(crate) fn chunk_table(&self) -> &ChunkTable {
         &self.chunk_table
-- 
2.43.0


From c2099087f562f5d5af58dd00482f87b3ed0cfd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:30 +0000
Subject: [PATCH 17/40] fix: parallel appending to a file with variable-size
 chunks

Creating the appender always panicked.
---
 src/laszip/parallel/appender.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/laszip/parallel/appender.rs b/src/laszip/parallel/appender.rs
index da1bd8a..1fe8137 100644
--- a/src/laszip/parallel/appender.rs
+++ b/src/laszip/parallel/appender.rs
@@ -25,7 +25,13 @@ where
                 let dest = compressor.get_mut();
                 dest.seek(SeekFrom::Current(num_bytes as i64)).map(|_| ())
             },
-            ParLasZipCompressor::compress_many,
+            |compressor, points| {
+                if compressor.vlr().uses_variable_size_chunks() {
+                    compressor.compress_chunks([points])
+                } else {
+                    compressor.compress_many(points)
+                }
+            },
         )?;
 
         Ok(Self {
-- 
2.43.0


From 9e613256a61230ebca1d5ca2c7605711b0c77fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:32 +0000
Subject: [PATCH 18/40] fix: memory allocated for a corrupted layer size

---
 src/las/utils.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/las/utils.rs b/src/las/utils.rs
index fe31a2b..349236b 100644
--- a/src/las/utils.rs
+++ b/src/las/utils.rs
@@ -174,8 +174,13 @@ pub(crate) fn copy_bytes_into_decoder<R: Read + Seek>(
     let inner_vec = decoder.get_mut().get_mut();
     if is_requested {
         if num_bytes > 0 {
-            inner_vec.resize(num_bytes, 0);
-            src.read_exact(&mut inner_vec[..num_bytes])?;
+            // The number of bytes comes from the source, so we do not allocate more
+            // than what there is to read
+            inner_vec.clear();
+            let num_read = src.take(num_bytes as u64).read_to_end(inner_vec)?;
+            if num_read < num_bytes {
+                return Err(std::io::ErrorKind::UnexpectedEof.into());
+            }
             decoder.read_init_bytes()?;
             Ok(true)
         } else {
@@ -188,8 +193,11 @@ pub(crate) fn copy_bytes_into_decoder<R: Read + Seek>(
                 // This is mainly to accommodate python bindings,
                 // where the stream might not be seekable and return an error
                 // so we instead try to read data to skip it
-                let mut unused_data = vec![0u8; num_bytes];
-                src.read_exact(unused_data.as_mut_slice())?;
+                let mut unused_data = src.take(num_bytes as u64);
+                let num_skipped = std::io::copy(&mut unused_data, &mut std::io::sink())?;
+                if num_skipped < num_bytes as u64 {
+                    return Err(std::io::ErrorKind::UnexpectedEof.into());
+                }
             }
         }
         Ok(false)
-- 
2.43.0


From eb255f93bf4bb2b0ec085e18c19eea71766c8105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 19/40] fix: stack overflow on corrupted gps times

Switching to another sequence of times was recursive, data that switches
again and again exhausted the stack.
---
 src/las/gps.rs    | 56 +++++++++++++++++++++++++++++++----------------
 src/las/point6.rs | 16 +++++++++++---
 2 files changed, 50 insertions(+), 22 deletions(-)

diff --git a/src/las/gps.rs b/src/las/gps.rs
index df371b5..4c4109b 100644
--- a/src/las/gps.rs
+++ b/src/las/gps.rs
@@ -852,24 +852,16 @@ pub mod v2 {
         }
     }
 
-    impl<R: Read> FieldDecompressor<R> for GpsTimeDecompressor {
-        fn size_of_field(&self) -> usize {
-            std::mem::size_of::<i64>()
-        }
-
-        fn decompress_first(&mut self, src: &mut R, first_point: &mut [u8]) -> std::io::Result<()> {
-            unsafe {
-                *self.common.last_gps_times.get_unchecked_mut(0) =
-                    read_and_unpack::<_, GpsTime>(src, first_point)?;
-            }
-            Ok(())
-        }
-
-        fn decompress_with(
+    impl GpsTimeDecompressor {
+        /// Decompresses the next gps time, or the switch to another sequence that precedes it
+        ///
+        /// Returns whether it was a switch.
+        ///
+        /// Not recursive: invalid data may hold any number of switches in a row
+        fn switched_sequence_instead_of_decompress<R: Read>(
             &mut self,
             mut decoder: &mut ArithmeticDecoder<R>,
-            buf: &mut [u8],
-        ) -> std::io::Result<()> {
+        ) -> std::io::Result<bool> {
             let mut multi: i32;
             debug_assert!(self.common.last < 4);
             unsafe {
@@ -941,7 +933,7 @@ pub mod v2 {
                     } else if multi > 2 {
                         // we switch to another sequence
                         self.common.last = (self.common.last + multi as usize - 2) & 3;
-                        self.decompress_with(&mut decoder, buf)?;
+                        return Ok(true);
                     }
                 } else {
                     multi = decoder.decode_symbol(&mut self.common.gps_time_multi)? as i32;
@@ -1131,15 +1123,41 @@ pub mod v2 {
                         self.common.last = (self.common.last + multi as usize
                             - LASZIP_GPS_TIME_MULTI_CODE_FULL as usize)
                             & 3;
-                        self.decompress_with(&mut decoder, buf)?;
+                        return Ok(true);
                     }
                 }
+                Ok(false)
+            }
+        }
+    }
+
+    impl<R: Read> FieldDecompressor<R> for GpsTimeDecompressor {
+        fn size_of_field(&self) -> usize {
+            std::mem::size_of::<i64>()
+        }
+
+        fn decompress_first(&mut self, src: &mut R, first_point: &mut [u8]) -> std::io::Result<()> {
+            unsafe {
+                *self.common.last_gps_times.get_unchecked_mut(0) =
+                    read_and_unpack::<_, GpsTime>(src, first_point)?;
+            }
+            Ok(())
+        }
+
+        fn decompress_with(
+            &mut self,
+            decoder: &mut ArithmeticDecoder<R>,
+            buf: &mut [u8],
+        ) -> std::io::Result<()> {
+            while self.switched_sequence_instead_of_decompress(decoder)? {}
+            debug_assert!(self.common.last < 4);
+            unsafe {
                 self.common
                     .last_gps_times
                     .get_unchecked(self.common.last)
                     .pack_into_unchecked(buf);
-                Ok(())
             }
+            Ok(())
         }
     }
 }
diff --git a/src/las/point6.rs b/src/las/point6.rs
index 26fbbc4..3919ca9 100644
--- a/src/las/point6.rs
+++ b/src/las/point6.rs
@@ -687,6 +687,16 @@ mod v3_v4 {
 
     impl<const VERSION: usize> LasPoint6DecompressorImpl<VERSION> {
         fn read_gps_time(&mut self) -> std::io::Result<()> {
+            while self.switched_gps_sequence_instead_of_read()? {}
+            Ok(())
+        }
+
+        /// Reads the next gps time, or the switch to another sequence that precedes it
+        ///
+        /// Returns whether it was a switch.
+        ///
+        /// Not recursive: invalid data may hold any number of switches in a row
+        fn switched_gps_sequence_instead_of_read(&mut self) -> std::io::Result<bool> {
             let the_context = &mut self.contexts[self.current_context];
 
             let mut multi: i32;
@@ -736,7 +746,7 @@ mod v3_v4 {
                     // We switch to another sequence
                     the_context.gps_sequences.last =
                         (the_context.gps_sequences.last + multi as usize - 1) & 3;
-                    self.read_gps_time()?;
+                    return Ok(true);
                 }
             } else {
                 multi = self
@@ -873,10 +883,10 @@ mod v3_v4 {
                         + multi as usize
                         - LASZIP_GPS_TIME_MULTI_CODE_FULL as usize)
                         & 3;
-                    self.read_gps_time()?;
+                    return Ok(true);
                 }
             }
-            Ok(())
+            Ok(false)
         }
     }
 
-- 
2.43.0


From 1bfd33d0afd35b469776458bd45b3fb76701df88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:43 +0000
Subject: [PATCH 20/40] fix: panics when decompressing corrupted points

An initial value outside of the interval cannot come from an encoder and
made the decoder look for symbols out of its tables.
---
 src/decoders.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/decoders.rs b/src/decoders.rs
index d557ad9..5beedc4 100644
--- a/src/decoders.rs
+++ b/src/decoders.rs
@@ -125,6 +125,13 @@ impl<T: Read> ArithmeticDecoder<T> {
 
         self.value =
             u32::from(v[0]) << 24 | u32::from(v[1]) << 16 | u32::from(v[2]) << 8 | u32::from(v[3]);
+        // The value has to be within the interval, and from there decoding keeps it so
+        if self.value >= self.length {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "ArithmeticDecoder invalid initial value",
+            ));
+        }
         Ok(())
     }
 
-- 
2.43.0


From dbe3903c0b4a982645278fbdc726ffb89af3f096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:17 +0000
Subject: [PATCH 21/40] fix: arithmetic overflow panics in debug builds with
 extreme gps times and coordinates

The differences wrap around (as they do in release builds and in LASzip).
---
 src/las/gps.rs    | 67 +++++++++++++++++++++++++----------------------
 src/las/point0.rs |  8 +++---
 src/las/point6.rs |  7 +++--
 3 files changed, 43 insertions(+), 39 deletions(-)

diff --git a/src/las/gps.rs b/src/las/gps.rs
index 4c4109b..c3fabe0 100644
--- a/src/las/gps.rs
+++ b/src/las/gps.rs
@@ -85,7 +85,7 @@ impl Add<f64> for GpsTime {
     type Output = Self;
 
     fn add(self, rhs: f64) -> Self::Output {
-        Self::from(self.value + rhs.to_bits() as i64)
+        Self::from(self.value.wrapping_add(rhs.to_bits() as i64))
     }
 }
 
@@ -93,19 +93,19 @@ impl Add<i64> for GpsTime {
     type Output = Self;
 
     fn add(self, rhs: i64) -> Self::Output {
-        Self::from(self.value + rhs)
+        Self::from(self.value.wrapping_add(rhs))
     }
 }
 
 impl AddAssign<f64> for GpsTime {
     fn add_assign(&mut self, rhs: f64) {
-        self.value += rhs.to_bits() as i64;
+        self.value = self.value.wrapping_add(rhs.to_bits() as i64);
     }
 }
 
 impl AddAssign<i64> for GpsTime {
     fn add_assign(&mut self, rhs: i64) {
-        self.value += rhs;
+        self.value = self.value.wrapping_add(rhs);
     }
 }
 
@@ -265,7 +265,8 @@ pub mod v1 {
                 if current_gps_time_value == self.last_gps {
                     encoder.encode_symbol(&mut self.gps_time_0_diff_model, 0)?;
                 } else {
-                    let current_gps_time_diff_64 = current_gps_time_value - self.last_gps;
+                    let current_gps_time_diff_64 =
+                        current_gps_time_value.wrapping_sub(self.last_gps);
                     let current_gps_time_diff_32 = current_gps_time_diff_64 as i32;
 
                     if current_gps_time_diff_64 == i64::from(current_gps_time_diff_32) {
@@ -293,7 +294,8 @@ pub mod v1 {
                         LASZIP_GPS_TIME_MULTI_MAX - 1,
                     )?;
                 } else {
-                    let current_gps_time_diff_64 = current_gps_time_value - self.last_gps;
+                    let current_gps_time_diff_64 =
+                        current_gps_time_value.wrapping_sub(self.last_gps);
                     let current_gps_time_diff_32 = current_gps_time_diff_64 as i32;
 
                     if current_gps_time_diff_64 == i64::from(current_gps_time_diff_32) {
@@ -331,21 +333,21 @@ pub mod v1 {
                         } else if multi < 10 {
                             self.ic_gps_time.compress(
                                 &mut encoder,
-                                self.last_gps_time_diff * multi,
+                                self.last_gps_time_diff.wrapping_mul(multi),
                                 current_gps_time_diff_32,
                                 3,
                             )?;
                         } else if multi < 50 {
                             self.ic_gps_time.compress(
                                 &mut encoder,
-                                self.last_gps_time_diff * multi,
+                                self.last_gps_time_diff.wrapping_mul(multi),
                                 current_gps_time_diff_32,
                                 4,
                             )?;
                         } else {
                             self.ic_gps_time.compress(
                                 &mut encoder,
-                                self.last_gps_time_diff * multi,
+                                self.last_gps_time_diff.wrapping_mul(multi),
                                 current_gps_time_diff_32,
                                 5,
                             )?;
@@ -395,7 +397,9 @@ pub mod v1 {
                 if multi == 1 {
                     // the difference can be represented with 32 bits
                     self.last_gps_time_diff = self.ic_gps_time.decompress(&mut decoder, 0, 0)?;
-                    self.last_gps += i64::from(self.last_gps_time_diff);
+                    self.last_gps = self
+                        .last_gps
+                        .wrapping_add(i64::from(self.last_gps_time_diff));
                 } else if multi == 2 {
                     // the difference is huge,
                     // the gps was written as is
@@ -436,7 +440,7 @@ pub mod v1 {
 
                         gps_time_diff = self.ic_gps_time.decompress(
                             &mut decoder,
-                            self.last_gps_time_diff * multi as i32,
+                            self.last_gps_time_diff.wrapping_mul(multi as i32),
                             context,
                         )?;
 
@@ -448,7 +452,7 @@ pub mod v1 {
                             }
                         }
                     }
-                    self.last_gps += i64::from(gps_time_diff);
+                    self.last_gps = self.last_gps.wrapping_add(i64::from(gps_time_diff));
                 } else if multi < LASZIP_GPS_TIME_MULTI_MAX - 1 {
                     self.last_gps = decoder.read_int_64()? as i64;
                 }
@@ -578,12 +582,12 @@ pub mod v2 {
                             // the difference is huge
                             // maybe the double belongs to another time sequence
                             for i in 1..4 {
-                                let other_gps_time_diff_64 = this_val.value
-                                    - self
-                                        .common
+                                let other_gps_time_diff_64 = this_val.value.wrapping_sub(
+                                    self.common
                                         .last_gps_times
                                         .get_unchecked((self.common.last + i) & 3)
-                                        .value;
+                                        .value,
+                                );
                                 let other_gps_time_diff_32 = other_gps_time_diff_64 as i32;
 
                                 if other_gps_time_diff_64 == i64::from(other_gps_time_diff_32) {
@@ -644,12 +648,12 @@ pub mod v2 {
                         )?;
                     } else {
                         // the last integer difference was *not* zero
-                        let curr_gps_time_diff_64 = this_val.value
-                            - self
-                                .common
+                        let curr_gps_time_diff_64 = this_val.value.wrapping_sub(
+                            self.common
                                 .last_gps_times
                                 .get_unchecked(self.common.last)
-                                .value;
+                                .value,
+                        );
                         let curr_gps_time_diff_32 = curr_gps_time_diff_64 as i32;
 
                         // if the current gps time difference can be represented with 32 bits
@@ -784,8 +788,9 @@ pub mod v2 {
                             // the difference is huge
                             // maybe the double belongs to another time sequence
                             for i in 1..4 {
-                                let other_gps_time_diff_64 = this_val.value
-                                    - self.common.last_gps_times[(self.common.last + i) & 3].value;
+                                let other_gps_time_diff_64 = this_val.value.wrapping_sub(
+                                    self.common.last_gps_times[(self.common.last + i) & 3].value,
+                                );
                                 let other_gps_time_diff_32 = other_gps_time_diff_64 as i32;
 
                                 if other_gps_time_diff_64 == i64::from(other_gps_time_diff_32) {
@@ -881,10 +886,10 @@ pub mod v2 {
                             .last_gps_time_diffs
                             .get_unchecked_mut(self.common.last) =
                             self.ic_gps_time.decompress(&mut decoder, 0, 0)?;
-                        self.common
+                        *self
+                            .common
                             .last_gps_times
-                            .get_unchecked_mut(self.common.last)
-                            .value += i64::from(
+                            .get_unchecked_mut(self.common.last) += i64::from(
                             *self
                                 .common
                                 .last_gps_time_diffs
@@ -939,10 +944,10 @@ pub mod v2 {
                     multi = decoder.decode_symbol(&mut self.common.gps_time_multi)? as i32;
 
                     if multi == 1 {
-                        self.common
+                        *self
+                            .common
                             .last_gps_times
-                            .get_unchecked_mut(self.common.last)
-                            .value += i64::from(
+                            .get_unchecked_mut(self.common.last) += i64::from(
                             self.ic_gps_time.decompress(
                                 &mut decoder,
                                 *self
@@ -1081,10 +1086,10 @@ pub mod v2 {
                                 }
                             }
                         }
-                        self.common
+                        *self
+                            .common
                             .last_gps_times
-                            .get_unchecked_mut(self.common.last)
-                            .value += i64::from(gps_time_diff);
+                            .get_unchecked_mut(self.common.last) += i64::from(gps_time_diff);
                     } else if multi == LASZIP_GPS_TIME_MULTI_CODE_FULL {
                         self.common.next = (self.common.next + 1) & 3;
                         self.common
diff --git a/src/las/point0.rs b/src/las/point0.rs
index ebab126..213191e 100644
--- a/src/las/point0.rs
+++ b/src/las/point0.rs
@@ -431,8 +431,8 @@ pub mod v1 {
             let median_x = median_diff(&self.last_x_diffs);
             let median_y = median_diff(&self.last_y_diffs);
 
-            let x_diff = current_point.x() - self.last_point.x();
-            let y_diff = current_point.y() - self.last_point.y();
+            let x_diff = current_point.x().wrapping_sub(self.last_point.x());
+            let y_diff = current_point.y().wrapping_sub(self.last_point.y());
 
             self.ic_dx
                 .compress(encoder, median_x, x_diff, DEFAULT_COMPRESS_CONTEXTS)?;
@@ -545,7 +545,7 @@ pub mod v1 {
             let x_diff =
                 self.ic_dx
                     .decompress(&mut decoder, median_x, DEFAULT_DECOMPRESS_CONTEXTS)?;
-            self.last_point.x += x_diff;
+            self.last_point.x = self.last_point.x.wrapping_add(x_diff);
             // we use the number k of bits corrector bits to switch contexts
             let k_bits = self.ic_dx.k();
             let y_diff = self.ic_dy.decompress(
@@ -553,7 +553,7 @@ pub mod v1 {
                 median_y,
                 if k_bits < 19 { k_bits } else { 19 },
             )?;
-            self.last_point.y += y_diff;
+            self.last_point.y = self.last_point.y.wrapping_add(y_diff);
             let k_bits = (k_bits + self.ic_dy.k()) / 2;
             self.last_point.z = self.ic_dz.decompress(
                 &mut decoder,
diff --git a/src/las/point6.rs b/src/las/point6.rs
index 3919ca9..7f4f11c 100644
--- a/src/las/point6.rs
+++ b/src/las/point6.rs
@@ -1453,10 +1453,9 @@ mod v3_v4 {
                 }
             } else {
                 // the last integer difference was *not* zero
-                let curr_gps_time_diff_64 = i64::from(gps_time)
-                    - i64::from(
-                        the_context.gps_sequences.last_gps_times[the_context.gps_sequences.last],
-                    );
+                let curr_gps_time_diff_64 = i64::from(gps_time).wrapping_sub(i64::from(
+                    the_context.gps_sequences.last_gps_times[the_context.gps_sequences.last],
+                ));
                 let curr_gps_time_diff = curr_gps_time_diff_64 as i32;
 
                 if curr_gps_time_diff_64 == i64::from(curr_gps_time_diff) {
-- 
2.43.0


From f8b0c815c5d09d3047d8b84287566f56efa53d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:41 +0000
Subject: [PATCH 22/40] fix: reading again after the compressed data ended
 early panicked

---
 src/decoders.rs | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/decoders.rs b/src/decoders.rs
index 5beedc4..05f2b28 100644
--- a/src/decoders.rs
+++ b/src/decoders.rs
@@ -166,12 +166,7 @@ impl<T: Read> ArithmeticDecoder<T> {
         if !model.decoder_table.is_empty() {
             // use table look-up for faster decoding
             self.length >>= DM_LENGTH_SHIFT;
-            if self.length == 0 {
-                return Err(std::io::Error::new(
-                    std::io::ErrorKind::UnexpectedEof,
-                    "ArithmeticDecoder length is zero",
-                ));
-            }
+            self.check_length()?;
             let dv = self.value / self.length;
             let t = dv >> model.table_shift;
 
@@ -233,6 +228,7 @@ impl<T: Read> ArithmeticDecoder<T> {
     pub fn read_bit(&mut self) -> std::io::Result<u32> {
         // decode symbol, change length
         self.length >>= 1;
+        self.check_length()?;
         let sym = self.value / self.length;
         // update interval
         self.value -= self.length * sym;
@@ -253,6 +249,7 @@ impl<T: Read> ArithmeticDecoder<T> {
         } else {
             // decode symbol, change length
             self.length >>= bits;
+            self.check_length()?;
             let sym = self.value / self.length;
 
             // update interval
@@ -269,6 +266,7 @@ impl<T: Read> ArithmeticDecoder<T> {
     fn read_byte(&mut self) -> std::io::Result<u8> {
         // decode symbol, change length
         self.length >>= 8;
+        self.check_length()?;
         let sym = self.value / self.length;
         // update interval
         self.value -= self.length * sym;
@@ -282,6 +280,7 @@ impl<T: Read> ArithmeticDecoder<T> {
     fn read_short(&mut self) -> std::io::Result<u16> {
         // decode symbol, change length
         self.length >>= 16;
+        self.check_length()?;
         let sym = self.value / self.length;
         // update interval
         self.value -= self.length * sym;
@@ -304,9 +303,30 @@ impl<T: Read> ArithmeticDecoder<T> {
         Ok((upper_int << 32) | lower_int)
     }
 
+    /// The length is zero once the source failed to give the bytes that were needed
+    #[inline(always)]
+    fn check_length(&self) -> std::io::Result<()> {
+        if self.length == 0 {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::UnexpectedEof,
+                "ArithmeticDecoder length is zero",
+            ));
+        }
+        Ok(())
+    }
+
     fn renorm_dec_interval(&mut self) -> std::io::Result<()> {
+        self.check_length()?;
         loop {
-            self.value = (self.value << 8) | u32::from(self.in_stream.read_u8()?);
+            let byte = match self.in_stream.read_u8() {
+                Ok(byte) => byte,
+                Err(err) => {
+                    // What is left of the interval is not usable
+                    self.length = 0;
+                    return Err(err);
+                }
+            };
+            self.value = (self.value << 8) | u32::from(byte);
             self.length <<= 8;
             if self.length >= AC_MIN_LENGTH {
                 break;
-- 
2.43.0


From dc04a0ad2da9c4dc5f305c9ce9630ac4376887c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:39 +0000
Subject: [PATCH 23/40] fix: debug builds panicked on raw bits no encoder
 writes

---
 src/decoders.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/decoders.rs b/src/decoders.rs
index 05f2b28..3613209 100644
--- a/src/decoders.rs
+++ b/src/decoders.rs
@@ -229,7 +229,7 @@ impl<T: Read> ArithmeticDecoder<T> {
         // decode symbol, change length
         self.length >>= 1;
         self.check_length()?;
-        let sym = self.value / self.length;
+        let sym = self.raw_symbol(1)?;
         // update interval
         self.value -= self.length * sym;
 
@@ -250,7 +250,7 @@ impl<T: Read> ArithmeticDecoder<T> {
             // decode symbol, change length
             self.length >>= bits;
             self.check_length()?;
-            let sym = self.value / self.length;
+            let sym = self.raw_symbol(bits)?;
 
             // update interval
             self.value -= self.length * sym;
@@ -267,13 +267,12 @@ impl<T: Read> ArithmeticDecoder<T> {
         // decode symbol, change length
         self.length >>= 8;
         self.check_length()?;
-        let sym = self.value / self.length;
+        let sym = self.raw_symbol(8)?;
         // update interval
         self.value -= self.length * sym;
         if self.length < AC_MIN_LENGTH {
             self.renorm_dec_interval()?;
         }
-        debug_assert!(sym < (1 << 8));
         Ok(sym as u8)
     }
 
@@ -281,13 +280,12 @@ impl<T: Read> ArithmeticDecoder<T> {
         // decode symbol, change length
         self.length >>= 16;
         self.check_length()?;
-        let sym = self.value / self.length;
+        let sym = self.raw_symbol(16)?;
         // update interval
         self.value -= self.length * sym;
         if self.length < AC_MIN_LENGTH {
             self.renorm_dec_interval()?;
         }
-        debug_assert!(sym < (1 << 16));
         Ok(sym as u16)
     }
 
@@ -315,6 +313,19 @@ impl<T: Read> ArithmeticDecoder<T> {
         Ok(())
     }
 
+    /// What encoders never write can give more than `bits` bits
+    #[inline(always)]
+    fn raw_symbol(&self, bits: u32) -> std::io::Result<u32> {
+        let sym = self.value / self.length;
+        if sym >= (1 << bits) {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "ArithmeticDecoder invalid raw bits",
+            ));
+        }
+        Ok(sym)
+    }
+
     fn renorm_dec_interval(&mut self) -> std::io::Result<()> {
         self.check_length()?;
         loop {
-- 
2.43.0


From e9bf61d1aa2d5bf10c20839b599d2cd515b00364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:57 +0000
Subject: [PATCH 24/40] fix: number of extra bytes panicked for compressed
 files and for formats with wave packets

---
 src/las/file.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/las/file.rs b/src/las/file.rs
index 49e3aa0..5d40a90 100644
--- a/src/las/file.rs
+++ b/src/las/file.rs
@@ -57,18 +57,23 @@ impl QuickHeader {
     }
 
     pub fn num_extra_bytes(&self) -> u16 {
-        let point_size_wo_extra = match self.point_format_id {
-            0 => 20,
-            1 => 28,
-            2 => 26,
-            3 => 34,
-            6 => 30,
-            7 => 36,
-            8 => 38,
-            _ => panic!("Unknown fmt id"),
-        };
+        let point_size_wo_extra =
+            match point_format_id_compressed_to_uncompressd(self.point_format_id) {
+                0 => 20,
+                1 => 28,
+                2 => 26,
+                3 => 34,
+                4 => 57,
+                5 => 63,
+                6 => 30,
+                7 => 36,
+                8 => 38,
+                9 => 59,
+                10 => 67,
+                _ => panic!("Unknown fmt id"),
+            };
 
-        self.point_size - point_size_wo_extra
+        self.point_size.saturating_sub(point_size_wo_extra)
     }
 }
 
-- 
2.43.0


From 0d882544948e172c83f15bfa839601a1f7dcd92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:03 +0000
Subject: [PATCH 25/40] fix: opening a damaged LAS or LAZ file panicked instead
 of returning an error

---
 src/las/file.rs | 46 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/las/file.rs b/src/las/file.rs
index 5d40a90..a517734 100644
--- a/src/las/file.rs
+++ b/src/las/file.rs
@@ -9,6 +9,7 @@ use std::io::{Read, Seek, SeekFrom};
 use byteorder::{LittleEndian, ReadBytesExt};
 
 use crate::laszip::{LasZipDecompressor, LazVlr};
+use crate::LasZipError;
 
 /// LAS header with only the minimum information
 /// to be able to read points contained in a LAS file.
@@ -111,18 +112,37 @@ impl Vlr {
     }
 }
 
+/// Reads the vlrs and returns the laszip one if there is one
+///
+/// # Panics
+///
+/// Will panic if the vlrs cannot be read.
 pub fn read_vlrs_and_get_laszip_vlr<R: Read>(src: &mut R, header: &QuickHeader) -> Option<LazVlr> {
+    try_read_laszip_vlr(src, header).unwrap()
+}
+
+fn try_read_laszip_vlr<R: Read>(
+    src: &mut R,
+    header: &QuickHeader,
+) -> std::io::Result<Option<LazVlr>> {
     let mut laszip_vlr = None;
     for _i in 0..header.num_vlrs {
-        let vlr = Vlr::read_from(src).unwrap();
+        let vlr = Vlr::read_from(src)?;
         if vlr.record_id == 22204
             && String::from_utf8_lossy(&vlr.user_id).trim_end_matches(|c| c as u8 == 0)
                 == "laszip encoded"
         {
-            laszip_vlr = Some(LazVlr::read_from(vlr.data.as_slice()).unwrap());
+            laszip_vlr = Some(LazVlr::read_from(vlr.data.as_slice()).map_err(into_io_error)?);
         }
     }
-    laszip_vlr
+    Ok(laszip_vlr)
+}
+
+fn into_io_error(error: LasZipError) -> std::io::Error {
+    match error {
+        LasZipError::IoError(error) => error,
+        error => std::io::Error::new(std::io::ErrorKind::InvalidData, error),
+    }
 }
 
 pub fn read_header_and_vlrs<R: Read + Seek>(
@@ -130,7 +150,7 @@ pub fn read_header_and_vlrs<R: Read + Seek>(
 ) -> std::io::Result<(QuickHeader, Option<LazVlr>)> {
     let hdr = QuickHeader::read_from(src)?;
     src.seek(SeekFrom::Start(hdr.header_size as u64))?;
-    let laz_vlr = read_vlrs_and_get_laszip_vlr(src, &hdr);
+    let laz_vlr = try_read_laszip_vlr(src, &hdr)?;
     src.seek(SeekFrom::Start(hdr.offset_to_points as u64))?;
     Ok((hdr, laz_vlr))
 }
@@ -179,17 +199,19 @@ impl<'a> SimpleReader<'a> {
     pub fn new<R: Read + Seek + Send + Sync + 'a>(mut src: R) -> std::io::Result<Self> {
         let mut header = QuickHeader::read_from(&mut src)?;
         src.seek(SeekFrom::Start(header.header_size as u64))?;
-        let laszip_vlr = read_vlrs_and_get_laszip_vlr(&mut src, &header);
+        let laszip_vlr = try_read_laszip_vlr(&mut src, &header)?;
         src.seek(SeekFrom::Start(header.offset_to_points as u64))?;
         let point_reader: Box<dyn LasPointReader> =
             if is_point_format_compressed(header.point_format_id) {
-                Box::new(
-                    LasZipDecompressor::new(
-                        src,
-                        laszip_vlr.expect("Compressed data, but no Laszip Vlr found"),
-                    )
-                    .unwrap(),
-                )
+                let laszip_vlr = laszip_vlr
+                    .filter(|vlr| vlr.items_size() == u64::from(header.point_size))
+                    .ok_or_else(|| {
+                        std::io::Error::new(
+                            std::io::ErrorKind::InvalidData,
+                            "Compressed data, but no Laszip Vlr for its points found",
+                        )
+                    })?;
+                Box::new(LasZipDecompressor::new(src, laszip_vlr).map_err(into_io_error)?)
             } else {
                 Box::new(RawPointReader { src })
             };
-- 
2.43.0


From 8c3e7731d1d65111c86430ebfcde6e28e602394e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:14 +0000
Subject: [PATCH 26/40] fix: the number of points announced by a damaged LAS
 header alone decided how much memory was allocated

---
 src/las/file.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/las/file.rs b/src/las/file.rs
index a517734..89fba3c 100644
--- a/src/las/file.rs
+++ b/src/las/file.rs
@@ -241,14 +241,9 @@ impl<'a> SimpleReader<'a> {
     pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> std::io::Result<usize> {
         assert!(buf.is_empty());
         let mut num_read = 0usize;
-        buf.resize(
-            self.header.num_points as usize * self.header.point_size as usize,
-            0u8,
-        );
-        let slc = buf.as_mut_slice();
+        // The number of points comes from the file, it may have far less of them
         while let Some(point) = self.read_next() {
-            let point = point?;
-            slc[num_read * point.len()..(num_read + 1) * point.len()].copy_from_slice(point);
+            buf.extend_from_slice(point?);
             num_read += 1;
         }
         Ok(num_read)
-- 
2.43.0


From 214b81ef01461987454f67047293e14f82259f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:14 +0000
Subject: [PATCH 27/40] fix: reading a LAS file whose points have no bytes
 never ended

---
 src/las/file.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/las/file.rs b/src/las/file.rs
index 89fba3c..ba1e50b 100644
--- a/src/las/file.rs
+++ b/src/las/file.rs
@@ -199,6 +199,12 @@ impl<'a> SimpleReader<'a> {
     pub fn new<R: Read + Seek + Send + Sync + 'a>(mut src: R) -> std::io::Result<Self> {
         let mut header = QuickHeader::read_from(&mut src)?;
         src.seek(SeekFrom::Start(header.header_size as u64))?;
+        if header.point_size == 0 {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "The size of the points is 0",
+            ));
+        }
         let laszip_vlr = try_read_laszip_vlr(&mut src, &header)?;
         src.seek(SeekFrom::Start(header.offset_to_points as u64))?;
         let point_reader: Box<dyn LasPointReader> =
-- 
2.43.0


From 297023b8103905f03ce71fd667eee8724adeb522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:35 +0000
Subject: [PATCH 28/40] fix: items whose stored size is not the one of their
 type made readers panic

---
 src/laszip/vlr.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/laszip/vlr.rs b/src/laszip/vlr.rs
index fcb3c92..8fbf987 100644
--- a/src/laszip/vlr.rs
+++ b/src/laszip/vlr.rs
@@ -176,6 +176,11 @@ impl LazItem {
         let size = src.read_u16::<LittleEndian>()?;
         let item_type = LazItemType::from_u16(item_type, size)
             .ok_or_else(|| LasZipError::UnknownLazItem(item_type))?;
+        if size != item_type.size() {
+            return Err(invalid_data(
+                "The size of an item is not the one of its type",
+            ));
+        }
         Ok(Self {
             item_type,
             size,
@@ -327,6 +332,10 @@ impl LazItemRecordBuilder {
     }
 }
 
+fn invalid_data(msg: &'static str) -> LasZipError {
+    LasZipError::IoError(std::io::Error::new(std::io::ErrorKind::InvalidData, msg))
+}
+
 fn read_laz_items_from<R: Read>(mut src: &mut R) -> crate::Result<Vec<LazItem>> {
     let num_items = src.read_u16::<LittleEndian>()?;
     let mut items = Vec::<LazItem>::with_capacity(num_items as usize);
@@ -513,7 +522,7 @@ impl LazVlr {
     /// expected size of points (uncompressed).
     #[inline]
     pub fn items_size(&self) -> u64 {
-        u64::from(self.items.iter().map(|item| item.size).sum::<u16>())
+        self.items.iter().map(|item| u64::from(item.size)).sum()
     }
 
     /// returns how many bytes a decompressed chunk contains
-- 
2.43.0


From e98c57875f9158711a34dab418ed8adaa749a1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:56 +0000
Subject: [PATCH 29/40] fix: descriptions of points that hold nothing, or no
 leading Point14, made readers and writers panic

---
 src/laszip/details.rs                | 30 +++++++++++++++++++++-------
 src/laszip/parallel/compression.rs   |  3 ++-
 src/laszip/parallel/decompression.rs |  3 ++-
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/laszip/details.rs b/src/laszip/details.rs
index 9448d03..cffac35 100644
--- a/src/laszip/details.rs
+++ b/src/laszip/details.rs
@@ -4,15 +4,33 @@ use crate::record::{
     LayeredPointRecordCompressor, LayeredPointRecordDecompressor, RecordCompressor,
     RecordDecompressor, SequentialPointRecordCompressor, SequentialPointRecordDecompressor,
 };
-use crate::{LasZipError, LazItem};
+use crate::{LasZipError, LazItem, LazItemType};
+
+/// Checks that the items can describe points, and returns the first one
+pub(super) fn check_items(items: &[LazItem]) -> crate::Result<&LazItem> {
+    let invalid_data = |msg| {
+        let error = std::io::Error::new(std::io::ErrorKind::InvalidData, msg);
+        Err(LasZipError::IoError(error))
+    };
+
+    let Some(first_item) = items.first() else {
+        return invalid_data("There should be at least one LazItem");
+    };
+    if matches!(first_item.version, 3 | 4) && first_item.item_type != LazItemType::Point14 {
+        // The context of the other fields comes from it
+        return invalid_data("The first LazItem should be the Point14");
+    }
+    if items.iter().all(|item| item.size == 0) {
+        return invalid_data("The LazItems should not all be empty");
+    }
+    Ok(first_item)
+}
 
 pub(super) fn record_decompressor_from_laz_items<'a, R: Read + Seek + Send + Sync + 'a>(
     items: &Vec<LazItem>,
     input: R,
 ) -> crate::Result<Box<dyn RecordDecompressor<R> + Send + Sync + 'a>> {
-    let first_item = items
-        .get(0)
-        .expect("There should be at least one LazItem to be able to create a RecordDecompressor");
+    let first_item = check_items(items)?;
 
     let mut decompressor = match first_item.version {
         1 | 2 => {
@@ -39,9 +57,7 @@ pub(super) fn record_compressor_from_laz_items<'a, W: Write + Send + Sync + 'a>(
     items: &Vec<LazItem>,
     output: W,
 ) -> crate::Result<Box<dyn RecordCompressor<W> + Send + Sync + 'a>> {
-    let first_item = items
-        .get(0)
-        .expect("There should be at least one LazItem to be able to create a RecordCompressor");
+    let first_item = check_items(items)?;
 
     let mut compressor = match first_item.version {
         1 | 2 => {
diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 49369f8..ae318b8 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -4,7 +4,7 @@ use byteorder::{LittleEndian, WriteBytesExt};
 use rayon::prelude::*;
 
 use crate::laszip::chunk_table::{update_chunk_table_offset, ChunkTable, ChunkTableEntry};
-use crate::laszip::details::record_compressor_from_laz_items;
+use crate::laszip::details::{check_items, record_compressor_from_laz_items};
 use crate::laszip::{CompressorType, DecompressedChunkSize};
 use crate::{LasZipError, LazVlr};
 
@@ -60,6 +60,7 @@ impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
         {
             return Err(LasZipError::UnsupportedCompressorType(vlr.compressor));
         }
+        check_items(vlr.items())?;
 
         let mut rest = Vec::<u8>::new();
         if let DecompressedChunkSize::Fixed { num_bytes } = vlr.num_bytes_in_decompressed_chunk() {
diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index ad8ab1e..3963acc 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -5,7 +5,7 @@ use rayon::prelude::*;
 use crate::byteslice::ChunksIrregularMut;
 use crate::las::selective::DecompressionSelection;
 use crate::laszip::chunk_table::{ChunkTable, ChunkTableEntry};
-use crate::laszip::details::record_decompressor_from_laz_items;
+use crate::laszip::details::{check_items, record_decompressor_from_laz_items};
 use crate::laszip::CompressorType;
 use crate::{LasZipError, LazVlr};
 
@@ -59,6 +59,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         {
             return Err(LasZipError::UnsupportedCompressorType(vlr.compressor));
         }
+        check_items(vlr.items())?;
         let chunk_table = ChunkTable::read_from(&mut source, &vlr)?;
         let start_of_data = source.seek(SeekFrom::Current(0))?;
         let biggest_chunk = chunk_table
-- 
2.43.0


From 71266b0f1768af7cbdc7e984592486a7445bed78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:29 +0000
Subject: [PATCH 30/40] fix: more points than a layered chunk holds could be
 read from it

---
 src/laszip/sequential/decompression.rs | 15 +++++++++++++++
 src/record.rs                          | 13 +++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 6b3fefb..0a61b87 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -266,6 +266,9 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                 let mut tmp_out = vec![0u8; self.record_decompressor.record_size()];
 
                 for _i in 0..delta {
+                    if self.is_at_end_of_last_layered_chunk() {
+                        return self.move_to_end();
+                    }
                     self.decompress_one(&mut tmp_out)?;
                 }
             }
@@ -278,6 +281,18 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
         Ok(())
     }
 
+    /// Returns whether all the points that the last chunk says it has were decompressed
+    fn is_at_end_of_last_layered_chunk(&self) -> bool {
+        let num_chunks = self
+            .seek_info
+            .as_ref()
+            .map_or(0, |seek_info| seek_info.chunk_table.len());
+        self.vlr.compressor == CompressorType::LayeredChunked
+            && self.current_chunk + 1 == num_chunks
+            && self.chunk_points_read > 0
+            && self.chunk_points_read == self.record_decompressor.record_count()
+    }
+
     /// Seek to the end so that the next call to decompress causes en error
     /// like "Failed to fill whole buffer (seeking past end is allowed by the Seek Trait)
     fn move_to_end(&mut self) -> crate::Result<()> {
diff --git a/src/record.rs b/src/record.rs
index 8863cbe..c8622b5 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -350,7 +350,10 @@ pub struct LayeredPointRecordDecompressor<'a, R: Read + Seek> {
     is_first_decompression: bool,
     fields_sizes: Vec<usize>,
     record_size: usize,
+    /// Number of records the current chunk has
     record_count: u32,
+    /// Number of records of the current chunk that were decompressed
+    num_decompressed: u32,
     context: usize,
 }
 
@@ -365,6 +368,7 @@ impl<'a, R: Read + Seek> LayeredPointRecordDecompressor<'a, R> {
             fields_sizes: vec![],
             record_size: 0,
             record_count: 0,
+            num_decompressed: 0,
             context: 0,
         }
     }
@@ -487,11 +491,19 @@ impl<'a, R: Read + Seek> RecordDecompressor<R> for LayeredPointRecordDecompresso
             }
             self.is_first_decompression = false;
         } else {
+            if self.num_decompressed >= self.record_count {
+                // The layers may hold bits that could be decoded as points
+                return Err(std::io::Error::new(
+                    std::io::ErrorKind::UnexpectedEof,
+                    "no more points in the chunk",
+                ));
+            }
             self.context = 0;
             for (field_decompressor, out_field_data) in decompressors_and_data {
                 field_decompressor.decompress_field_with(out_field_data, &mut self.context)?;
             }
         }
+        self.num_decompressed += 1;
         Ok(())
     }
 
@@ -500,6 +512,7 @@ impl<'a, R: Read + Seek> RecordDecompressor<R> for LayeredPointRecordDecompresso
         self.field_decompressors.clear();
         self.record_size = 0;
         self.record_count = 0;
+        self.num_decompressed = 0;
         self.fields_sizes.clear();
     }
 
-- 
2.43.0


From 49ea3a352ebc46796c49ef59927d1fd5eb541bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:20 +0000
Subject: [PATCH 31/40] fix: sizes stored in a file alone decided how much
 memory the parallel reader and writer and the appenders allocated

---
 src/laszip/parallel/compression.rs   |  6 ++-
 src/laszip/parallel/decompression.rs | 66 ++++++++++++++--------------
 src/laszip/sequential/appender.rs    | 18 ++++----
 src/record.rs                        | 28 ++++++++++++
 4 files changed, 77 insertions(+), 41 deletions(-)

diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index ae318b8..aa49084 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -8,6 +8,9 @@ use crate::laszip::details::{check_items, record_compressor_from_laz_items};
 use crate::laszip::{CompressorType, DecompressedChunkSize};
 use crate::{LasZipError, LazVlr};
 
+/// Limit to the memory reserved upfront for the points of the current chunk
+const MAX_RESERVED_BYTES: usize = 16 * 1024 * 1024;
+
 /// LasZip compressor that compresses using multiple threads
 ///
 /// This supports both **variable-size** and **fixed-size** chunks.
@@ -64,7 +67,8 @@ impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
 
         let mut rest = Vec::<u8>::new();
         if let DecompressedChunkSize::Fixed { num_bytes } = vlr.num_bytes_in_decompressed_chunk() {
-            rest.reserve(num_bytes);
+            // There may never be enough points to fill a (very big) chunk
+            rest.reserve(num_bytes.min(MAX_RESERVED_BYTES));
         }
 
         Ok(Self {
diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 3963acc..f705457 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -62,20 +62,12 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         check_items(vlr.items())?;
         let chunk_table = ChunkTable::read_from(&mut source, &vlr)?;
         let start_of_data = source.seek(SeekFrom::Current(0))?;
-        let biggest_chunk = chunk_table
-            .as_ref()
-            .into_iter()
-            .map(|entry| entry.point_count)
-            .max()
-            .unwrap_or(0);
-        let vec = Vec::<u8>::with_capacity(biggest_chunk as usize);
-        let rest = std::io::Cursor::new(vec);
 
         Ok(Self {
             source,
             vlr,
             chunk_table,
-            rest,
+            rest: std::io::Cursor::new(vec![]),
             internal_buffer: vec![],
             last_chunk_read: -1,
             start_of_data,
@@ -143,8 +135,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         debug_assert!(num_chunks_to_decompress >= 1);
 
         // Read the necessary compressed bytes into our internal buffer
-        self.internal_buffer.resize(num_bytes_to_read, 0u8);
-        self.source.read_exact(&mut self.internal_buffer)?;
+        self.read_internal_buffer(num_bytes_to_read)?;
 
         // 3. Decompress
         // The idea is that if we have `n` chunks to decompress
@@ -187,16 +178,13 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
                 // Then, decompress what we did not, into our rest buffer
                 let num_bytes_left =
                     (tail_chunk_entry.point_count as usize * point_size) - tail_output.len();
-                if !vlr.uses_variable_size_chunks() && end_index == chunk_table_len {
-                    // When fixed-size chunks are used, for the last chunk, the number of point
-                    // is unknown, so we have to decompress it until an end of file appears
-                    rest.get_mut().resize(num_bytes_left, 0u8);
-                    let num_actually_decompressed =
-                        decompressor.decompress_until_end_of_file(rest.get_mut())?;
-                    rest.get_mut().resize(num_actually_decompressed, 0u8);
-                } else {
-                    rest.get_mut().resize(num_bytes_left, 0u8);
-                    decompressor.decompress_many(rest.get_mut())?;
+                decompressor.decompress_until_end_of_file_into(rest.get_mut(), num_bytes_left)?;
+                // When fixed-size chunks are used, for the last chunk, the number of point
+                // is unknown, so we have to decompress it until an end of file appears
+                let num_points_is_unknown =
+                    !vlr.uses_variable_size_chunks() && end_index == chunk_table_len;
+                if !num_points_is_unknown && rest.get_ref().len() != num_bytes_left {
+                    return Err(unexpected_eof("not enough points in the chunk"));
                 }
                 rest.set_position(0);
                 Ok(())
@@ -233,9 +221,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         let start_of_chunk_pos = self.start_of_data + byte_offset;
         self.source.seek(SeekFrom::Start(start_of_chunk_pos))?;
         let chunk_entry = self.chunk_table[chunk_of_point];
-        self.internal_buffer
-            .resize(chunk_entry.byte_count as usize, 0u8);
-        self.source.read_exact(&mut self.internal_buffer)?;
+        self.read_internal_buffer(chunk_entry.byte_count as usize)?;
 
         // Completely decompress the chunk
         let is_last_chunk = chunk_of_point == (self.chunk_table.len() - 1);
@@ -245,14 +231,14 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         )?;
         decompressor.set_selection(self.selection);
         let point_size = self.vlr.items_size();
-        let mut points = vec![0u8; (chunk_entry.point_count * point_size) as usize];
-        if is_last_chunk && !self.vlr.uses_variable_size_chunks() {
-            // When fixed-size chunks are used, for the last chunk, the number of point
-            // is unknown, so we have to decompress it until an end of file appears
-            let num_bytes_decompressed = decompressor.decompress_until_end_of_file(&mut points)?;
-            points.truncate(num_bytes_decompressed);
-        } else {
-            decompressor.decompress_many(&mut points)?;
+        let num_bytes_in_chunk = (chunk_entry.point_count * point_size) as usize;
+        let mut points = vec![];
+        decompressor.decompress_until_end_of_file_into(&mut points, num_bytes_in_chunk)?;
+        // When fixed-size chunks are used, for the last chunk, the number of point
+        // is unknown, so we have to decompress it until an end of file appears
+        let num_points_is_unknown = is_last_chunk && !self.vlr.uses_variable_size_chunks();
+        if !num_points_is_unknown && points.len() != num_bytes_in_chunk {
+            return Err(unexpected_eof("not enough points in the chunk"));
         }
 
         // Discard points that are before the one we just seeked to,
@@ -270,6 +256,22 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         Ok(())
     }
 
+    /// Reads the next `num_bytes` bytes of the source in the internal buffer
+    ///
+    /// `num_bytes` comes from the chunk table, the source may have far less of them,
+    /// so it does not decide alone how much memory is allocated.
+    fn read_internal_buffer(&mut self, num_bytes: usize) -> std::io::Result<()> {
+        self.internal_buffer.clear();
+        self.source
+            .by_ref()
+            .take(num_bytes as u64)
+            .read_to_end(&mut self.internal_buffer)?;
+        if self.internal_buffer.len() != num_bytes {
+            return Err(std::io::ErrorKind::UnexpectedEof.into());
+        }
+        Ok(())
+    }
+
     pub fn into_inner(self) -> R {
         self.source
     }
diff --git a/src/laszip/sequential/appender.rs b/src/laszip/sequential/appender.rs
index 95096e9..42c83bc 100644
--- a/src/laszip/sequential/appender.rs
+++ b/src/laszip/sequential/appender.rs
@@ -84,19 +84,21 @@ where
             let size_of_chunk = chunk_table[chunk_index].byte_count;
             // In PointWiseChunked, we don't know if the last chunk is complete or not
             // so we read it, rewrite it so the compressor is in the right state to append points
-            let mut chunk_data = vec![0u8; size_of_chunk as usize];
-
-            data.read_exact(&mut chunk_data)?;
+            let mut chunk_data = vec![];
+            Read::by_ref(&mut data)
+                .take(size_of_chunk)
+                .read_to_end(&mut chunk_data)?;
+            if chunk_data.len() as u64 != size_of_chunk {
+                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+            }
 
             let mut chunk_data = Cursor::new(chunk_data);
             let mut decompressor =
                 record_decompressor_from_laz_items(vlr.items(), &mut chunk_data)?;
 
-            // Resize the output buffer so that we decompresse data until its either full,
-            // or EOF was reached
-            data_to_recompress.resize((points_to_read * vlr.items_size()) as usize, 0);
-            let byte_len = decompressor.decompress_until_end_of_file(&mut data_to_recompress)?;
-            data_to_recompress.resize(byte_len, 0);
+            // Decompress data until either we have all the points, or EOF was reached
+            let num_bytes = (points_to_read * vlr.items_size()) as usize;
+            decompressor.decompress_until_end_of_file_into(&mut data_to_recompress, num_bytes)?;
         }
 
         // Drop chunk table entry/entries that are after the our point
diff --git a/src/record.rs b/src/record.rs
index c8622b5..d2f08fe 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -137,6 +137,34 @@ pub trait RecordDecompressor<R> {
         Ok(out.len())
     }
 
+    /// Decompress up to `num_bytes` bytes of points, until the end of the source is reached,
+    /// and appends them to `out`
+    ///
+    /// Memory is only taken as points get decompressed: how many of them there could be
+    /// generally comes from the file, which may have far less of them.
+    fn decompress_until_end_of_file_into(
+        &mut self,
+        out: &mut Vec<u8>,
+        num_bytes: usize,
+    ) -> std::io::Result<()> {
+        let mut num_points_left = num_bytes / self.record_size();
+        let mut num_points = 1024;
+        while num_points_left != 0 {
+            num_points = num_points.min(num_points_left);
+            let start = out.len();
+            let end = start + num_points * self.record_size();
+            out.resize(end, 0);
+            let num_decompressed = self.decompress_until_end_of_file(&mut out[start..])?;
+            out.truncate(start + num_decompressed);
+            if out.len() != end {
+                break;
+            }
+            num_points_left -= num_points;
+            num_points *= 2;
+        }
+        Ok(())
+    }
+
     /// Resets the `RecordDecompressor` to its initial state
     fn reset(&mut self);
 
-- 
2.43.0


From 4d00fb4ad4c3d7d70dda6436396798d6cee9d461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:46 +0000
Subject: [PATCH 32/40] fix: the parallel writer and appender panicked on item
 versions that are not supported

---
 src/laszip/parallel/compression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index aa49084..5422dfe 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -371,7 +371,8 @@ fn compress_one_chunk<W: Write + Seek + Send + Sync>(
 ) -> std::io::Result<u64> {
     let start = dest.seek(SeekFrom::Current(0))?;
     {
-        let mut compressor = record_compressor_from_laz_items(&vlr.items(), &mut dest).unwrap();
+        let mut compressor = record_compressor_from_laz_items(&vlr.items(), &mut dest)
+            .map_err(|err| std::io::Error::new(std::io::ErrorKind::Other, err))?;
         compressor.compress_many(chunk_data)?;
         compressor.done()?;
     }
-- 
2.43.0


From 5515636405705a7df86f38d19ba68434de6b0b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:01 +0000
Subject: [PATCH 33/40] fix: decompressing after invalid initial bytes indexed
 out of bounds

---
 src/decoders.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decoders.rs b/src/decoders.rs
index 3613209..a8dfd87 100644
--- a/src/decoders.rs
+++ b/src/decoders.rs
@@ -120,18 +120,21 @@ impl<T: Read> ArithmeticDecoder<T> {
     }
 
     pub fn read_init_bytes(&mut self) -> std::io::Result<()> {
+        // Until we have the bytes there is no usable interval
+        self.length = 0;
         let mut v = [0u8; 4];
         self.in_stream.read_exact(&mut v)?;
 
         self.value =
             u32::from(v[0]) << 24 | u32::from(v[1]) << 16 | u32::from(v[2]) << 8 | u32::from(v[3]);
         // The value has to be within the interval, and from there decoding keeps it so
-        if self.value >= self.length {
+        if self.value >= AC_MAX_LENGTH {
             return Err(std::io::Error::new(
                 std::io::ErrorKind::InvalidData,
                 "ArithmeticDecoder invalid initial value",
             ));
         }
+        self.length = AC_MAX_LENGTH;
         Ok(())
     }
 
-- 
2.43.0


From a8090a5d17ea4704b2ed8e24f731bf268813a10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 34/40] fix: layered chunks lost the sign of wave packet fields
 that turn from 0.0 to -0.0

---
 src/las/wavepacket.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/las/wavepacket.rs b/src/las/wavepacket.rs
index 2638e3e..785c695 100644
--- a/src/las/wavepacket.rs
+++ b/src/las/wavepacket.rs
@@ -16,6 +16,17 @@ pub struct LasWavepacket {
 
 impl LasWavepacket {
     pub(crate) const SIZE: usize = 29;
+
+    /// Whether both are the same bytes once packed, unlike `==` for the fields that are floats
+    fn is_same_as(&self, other: &Self) -> bool {
+        self.descriptor_index == other.descriptor_index
+            && self.offset == other.offset
+            && self.size == other.size
+            && self.return_point.to_bits() == other.return_point.to_bits()
+            && self.dx.to_bits() == other.dx.to_bits()
+            && self.dy.to_bits() == other.dy.to_bits()
+            && self.dz.to_bits() == other.dz.to_bits()
+    }
 }
 
 impl Packable for LasWavepacket {
@@ -635,7 +646,7 @@ mod v3_v4 {
                 }
             }
 
-            if self.last_wavepackets[last_idx] != current_wavepacket {
+            if !self.last_wavepackets[last_idx].is_same_as(&current_wavepacket) {
                 self.has_changed = true;
             }
 
-- 
2.43.0


From 1483b4fe54231ccaf0983fb0b7dd37864db45535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 35/40] fix: one-shot functions divided by zero when the
 description of the points holds nothing

---
 src/laszip/parallel/compression.rs     | 1 +
 src/laszip/parallel/decompression.rs   | 1 +
 src/laszip/sequential/compression.rs   | 1 +
 src/laszip/sequential/decompression.rs | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 5422dfe..30bc670 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -311,6 +311,7 @@ pub fn par_compress<W: Write>(
     uncompressed_points: &[u8],
     laz_vlr: &LazVlr,
 ) -> crate::Result<ChunkTable> {
+    check_items(laz_vlr.items())?;
     debug_assert!(!laz_vlr.uses_variable_size_chunks());
     debug_assert_eq!(uncompressed_points.len() % laz_vlr.items_size() as usize, 0);
 
diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index f705457..e7bfdb5 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -316,6 +316,7 @@ pub fn par_decompress_buffer(
     decompressed_points: &mut [u8],
     laz_vlr: &LazVlr,
 ) -> crate::Result<()> {
+    check_items(laz_vlr.items())?;
     debug_assert_eq!(decompressed_points.len() % laz_vlr.items_size() as usize, 0);
     let mut cursor = std::io::Cursor::new(compressed_points_data);
     let chunk_table = ChunkTable::read_from(&mut cursor, &laz_vlr)?;
diff --git a/src/laszip/sequential/compression.rs b/src/laszip/sequential/compression.rs
index a529883..dff6540 100644
--- a/src/laszip/sequential/compression.rs
+++ b/src/laszip/sequential/compression.rs
@@ -305,6 +305,7 @@ pub fn compress_buffer<W: Write + Seek + Send + Sync>(
     uncompressed_points: &[u8],
     laz_vlr: LazVlr,
 ) -> crate::Result<()> {
+    details::check_items(laz_vlr.items())?;
     debug_assert_eq!(uncompressed_points.len() % laz_vlr.items_size() as usize, 0);
     let mut compressor = LasZipCompressor::new(dst, laz_vlr)?;
     compressor.compress_many(uncompressed_points)?;
diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 0a61b87..22cf745 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -426,6 +426,7 @@ pub fn decompress_buffer(
     decompressed_points: &mut [u8],
     laz_vlr: LazVlr,
 ) -> crate::Result<()> {
+    details::check_items(laz_vlr.items())?;
     debug_assert_eq!(decompressed_points.len() % laz_vlr.items_size() as usize, 0);
     let src = std::io::Cursor::new(compressed_points_data);
     LasZipDecompressor::new(src, laz_vlr).and_then(|mut decompressor| {
-- 
2.43.0


From ffe9504ec8b79ee893fa6280f6f963ca53b520c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 36/40] fix: debug builds panicked on the largest corrector,
 which no encoder writes

---
 src/decompressors.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decompressors.rs b/src/decompressors.rs
index ca99838..75fa61c 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -156,7 +156,7 @@ impl IntegerDecompressor {
                         if c >= (1u32 << (self.k - 1)) as i32 {
                             // if c is in the interval [ 2^(k-1)  ...  + 2^k - 1 ]
                             // so we translate c back into the interval [ 2^(k-1) + 1  ...  2^k ] by adding 1
-                            c += 1;
+                            c = c.wrapping_add(1);
                         } else {
                             // otherwise c is in the interval [ 0 ...  + 2^(k-1) - 1 ]
                             // so we translate c back into the interval [ - (2^k - 1)  ...  - (2^(k-1)) ] by subtracting (2^k - 1)
@@ -193,7 +193,7 @@ impl IntegerDecompressor {
                         // translate c back into its correct interval
                         if c >= (1u32 << (self.k - 1)) as i32 {
                             // so we translate c back into the interval [ 2^(k-1) + 1  ...  2^k ] by adding 1
-                            c += 1;
+                            c = c.wrapping_add(1);
                         } else {
                             // otherwise c is in the interval [ 0 ...  + 2^(k-1) - 1 ]
                             // so we translate c back into the interval [ - (2^k - 1)  ...  - (2^(k-1)) ] by subtracting (2^k - 1)
-- 
2.43.0


From 6762d004e6a39a4a6442d5159d079db92862a0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:33 +0000
Subject: [PATCH 37/40] fix: debug builds panicked on layered GPS time steps of
 more than 500 times the previous one

---
 src/las/point6.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/las/point6.rs b/src/las/point6.rs
index 7f4f11c..7c7a05f 100644
--- a/src/las/point6.rs
+++ b/src/las/point6.rs
@@ -806,9 +806,10 @@ mod v3_v4 {
                     } else if multi == LASZIP_GPS_TIME_MULTI {
                         gps_time_diff = the_context.decompressors.gps_time.decompress(
                             &mut self.decoders.gps_time,
-                            LASZIP_GPS_TIME_MULTI
-                                * the_context.gps_sequences.last_gps_diffs
+                            LASZIP_GPS_TIME_MULTI.wrapping_mul(
+                                the_context.gps_sequences.last_gps_diffs
                                     [the_context.gps_sequences.last],
+                            ),
                             4,
                         )?;
                         the_context.gps_sequences.multi_extreme_counter
@@ -1504,9 +1505,10 @@ mod v3_v4 {
                             )?;
                             the_context.compressors.gps_time.compress(
                                 &mut self.encoders.gps_time,
-                                LASZIP_GPS_TIME_MULTI
-                                    * the_context.gps_sequences.last_gps_diffs
+                                LASZIP_GPS_TIME_MULTI.wrapping_mul(
+                                    the_context.gps_sequences.last_gps_diffs
                                         [the_context.gps_sequences.last],
+                                ),
                                 curr_gps_time_diff,
                                 4,
                             )?;
-- 
2.43.0


From 8dc2fb965232700972058dfddee5504d68ddb398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 38/40] fix: keep bytes a carry can still change

The arithmetic encoder wrote the older half of its buffer as soon as it needed
the room. When the half that follows is all 0xFF, a carry still has to go into
the bytes that were written: it was lost, and the data decoded wrongly from
there on. Such bytes are now held back until it is decided.
---
 src/encoders.rs | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/encoders.rs b/src/encoders.rs
index c127adc..b839514 100644
--- a/src/encoders.rs
+++ b/src/encoders.rs
@@ -104,6 +104,10 @@ pub struct ArithmeticEncoder<T: Write> {
     base: u32,
     length: u32,
 
+    /// Bytes that have left the buffer, but that a carry may still change:
+    /// the whole half of the buffer that follows them is 0xFF
+    held: Vec<u8>,
+
     out_stream: T,
 }
 
@@ -120,6 +124,7 @@ impl<T: Write> ArithmeticEncoder<T> {
             end_byte,
             base: 0,
             length: decoders::AC_MAX_LENGTH,
+            held: Vec::new(),
             out_stream,
         }
     }
@@ -132,6 +137,7 @@ impl<T: Write> ArithmeticEncoder<T> {
     pub fn reset(&mut self) {
         self.base = 0;
         self.length = decoders::AC_MAX_LENGTH;
+        self.held.clear();
         self.out_buffer.fill(0);
         self.out_byte = self.out_buffer.as_mut_ptr();
         self.end_byte = self.end_of_buffer();
@@ -160,6 +166,7 @@ impl<T: Write> ArithmeticEncoder<T> {
         }
         self.renorm_enc_interval()?;
 
+        self.write_held()?;
         if self.end_byte != self.end_of_buffer() {
             debug_assert!(
                 (self.out_byte.cast_const())
@@ -370,10 +377,25 @@ impl<T: Write> ArithmeticEncoder<T> {
         } else {
             self.out_byte.wrapping_sub(1)
         };
+        // the oldest byte that is still in the buffer
+        let oldest = if self.end_byte == self.end_of_buffer() {
+            self.out_buffer.as_ptr()
+        } else {
+            self.end_byte
+        };
 
         unsafe {
             while *p == 0xFFu8 {
                 *p = 0;
+                if p.cast_const() == oldest {
+                    for byte in self.held.iter_mut().rev() {
+                        *byte = byte.wrapping_add(1);
+                        if *byte != 0 {
+                            break;
+                        }
+                    }
+                    return;
+                }
                 if p.cast_const() == self.out_buffer.as_ptr() {
                     p = self.end_of_buffer().wrapping_sub(1).cast_mut()
                 } else {
@@ -409,6 +431,14 @@ impl<T: Write> ArithmeticEncoder<T> {
         Ok(())
     }
 
+    fn write_held(&mut self) -> std::io::Result<()> {
+        if !self.held.is_empty() {
+            self.out_stream.write_all(&self.held)?;
+            self.held.clear();
+        }
+        Ok(())
+    }
+
     fn manage_out_buffer(&mut self) -> std::io::Result<()> {
         debug_assert!(self.out_byte.cast_const() == self.end_byte);
 
@@ -416,8 +446,16 @@ impl<T: Write> ArithmeticEncoder<T> {
             self.out_byte = self.out_buffer.as_mut_ptr();
         }
 
-        let slc = unsafe { std::slice::from_raw_parts(self.out_byte, AC_BUFFER_SIZE) };
-        self.out_stream.write_all(slc)?;
+        let start = self.out_byte as usize - self.out_buffer.as_ptr() as usize;
+        let oldest = start..start + AC_BUFFER_SIZE;
+        let newest = AC_BUFFER_SIZE - start..2 * AC_BUFFER_SIZE - start;
+        if self.out_buffer[newest].iter().all(|byte| *byte == 0xFF) {
+            // a carry would go on into the oldest half
+            self.held.extend_from_slice(&self.out_buffer[oldest]);
+        } else {
+            self.write_held()?;
+            self.out_stream.write_all(&self.out_buffer[oldest])?;
+        }
         self.end_byte = self.out_byte.wrapping_add(AC_BUFFER_SIZE);
 
         debug_assert!(self.end_byte > self.out_byte);
-- 
2.43.0


From ae5789d37f1f40201781f753e5de1972ae6a06f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 39/40] fix: let write_bits take 32 bits in debug builds

Its assertion allows 32 bits, but computed 1u32 << 32, which panics.
---
 src/encoders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoders.rs b/src/encoders.rs
index b839514..6603aab 100644
--- a/src/encoders.rs
+++ b/src/encoders.rs
@@ -288,7 +288,7 @@ impl<T: Write> ArithmeticEncoder<T> {
     }
 
     pub fn write_bits(&mut self, mut bits: u32, mut sym: u32) -> std::io::Result<()> {
-        debug_assert!(bits <= 32 && sym < (1u32 << bits));
+        debug_assert!(bits <= 32 && u64::from(sym) < (1u64 << bits));
 
         if bits > 19 {
             self.write_short((sym & u32::from(std::u16::MAX)) as u16)?;
-- 
2.43.0


From f60e889f2ada06cee9cd0f174eb1100af78af177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 40/40] fix: refuse chunk tables whose sizes add up to more
 than 64 bits

par_decompress sums and multiplies what the caller's chunk table says. When
that overflowed the table looked fine and splitting the data panicked.
---
 src/laszip/parallel/decompression.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index e7bfdb5..a3663f7 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -362,8 +362,7 @@ pub fn par_decompress_selective(
 
     let num_bytes_in_chunks = chunk_table
         .iter()
-        .map(|entry| entry.byte_count)
-        .sum::<u64>();
+        .fold(0u64, |sum, entry| sum.saturating_add(entry.byte_count));
     if num_bytes_in_chunks > compressed_points.len() as u64 {
         return Err(unexpected_eof("the chunks are bigger than the data"));
     }
@@ -373,8 +372,8 @@ pub fn par_decompress_selective(
     let mut num_bytes_left = decompressed_points.len();
     let mut counts = Vec::with_capacity(chunk_table.len());
     for entry in chunk_table {
-        let num_bytes = (entry.point_count * laz_vlr.items_size()) as usize;
-        counts.push(num_bytes.min(num_bytes_left));
+        let num_bytes = entry.point_count.saturating_mul(laz_vlr.items_size());
+        counts.push(num_bytes.min(num_bytes_left as u64) as usize);
         num_bytes_left -= counts[counts.len() - 1];
     }
     if num_bytes_left != 0 {
-- 
2.43.0

