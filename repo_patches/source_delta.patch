From 62da896353dbc9402e8b92184963a5c2ab98cfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 01/12] fix: report a writer that returns Ok(0) as WriteZero
 instead of retrying forever

---
 src/compress.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/compress.rs b/src/compress.rs
index 8223609..786daf0 100644
--- a/src/compress.rs
+++ b/src/compress.rs
@@ -76,6 +76,11 @@ fn write_stored_block(input: &[u8], mut writer: &mut LsbWriter, final_block: boo
     }
 }
 
+/// The error for a writer that accepts no more data (like `Write::write_all`).
+fn write_zero() -> io::Error {
+    io::Error::new(io::ErrorKind::WriteZero, "failed to write compressed data")
+}
+
 /// Inner compression function used by both the writers and the simple compression functions.
 pub fn compress_data_dynamic_n<W: Write>(
     input: &[u8],
@@ -101,6 +106,9 @@ pub fn compress_data_dynamic_n<W: Write>(
                 .write(&deflate_state.encoder_state.inner_vec()[output_buf_pos..])?;
 
             if written < output_buf_len.checked_sub(output_buf_pos).unwrap() {
+                if written == 0 {
+                    return Err(write_zero());
+                }
                 // Only some of the data was flushed, so keep track of where we were.
                 deflate_state.output_buf_pos += written;
             } else {
@@ -290,6 +298,9 @@ pub fn compress_data_dynamic_n<W: Write>(
             .checked_sub(output_buf_pos)
             .unwrap()
     {
+        if written_to_writer == 0 {
+            return Err(write_zero());
+        }
         deflate_state.output_buf_pos += written_to_writer;
     } else {
         // If we sucessfully wrote all the data, we can clear the output buffer.
-- 
2.43.0


From 6b8d4e57b0ce152f6866e1189bb7a73199f9a720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:29 +0000
Subject: [PATCH 02/12] fix: do not lose track of consumed input when the
 writer fails in the middle of a write

---
 src/compress.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/compress.rs b/src/compress.rs
index 786daf0..d005dc6 100644
--- a/src/compress.rs
+++ b/src/compress.rs
@@ -99,6 +99,12 @@ pub fn compress_data_dynamic_n<W: Write>(
         // If the output buffer has too much data in it already, flush it before doing anything
         // else.
         if output_buf_len > LARGEST_OUTPUT_BUF_SIZE {
+            if bytes_written > 0 {
+                // Report the input consumed so far before trying the writer, an error from it
+                // would make the caller believe that nothing was consumed.
+                return Ok(bytes_written);
+            }
+
             let written = deflate_state
                 .inner
                 .as_mut()
@@ -111,14 +117,7 @@ pub fn compress_data_dynamic_n<W: Write>(
                 }
                 // Only some of the data was flushed, so keep track of where we were.
                 deflate_state.output_buf_pos += written;
-            } else {
-                // If we flushed all of the output, reset the output buffer.
-                deflate_state.needs_flush = false;
-                deflate_state.output_buf_pos = 0;
-                deflate_state.output_buf().clear();
-            }
 
-            if bytes_written == 0 {
                 // If the buffer was already full when the function was called, this has to be
                 // returned rather than Ok(0) to indicate that we didn't write anything, but are
                 // not done yet.
@@ -127,7 +126,11 @@ pub fn compress_data_dynamic_n<W: Write>(
                     "Internal buffer full.",
                 ));
             } else {
-                return Ok(bytes_written);
+                // If we flushed all of the output, reset the output buffer.
+                deflate_state.needs_flush = false;
+                deflate_state.output_buf_pos = 0;
+                deflate_state.output_buf().clear();
+                continue;
             }
         }
 
-- 
2.43.0


From a40a12f1896688fd73b0f97684ce49ca14c1b6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 03/12] fix: keep taking input when a write follows a sync
 flush that could not be delivered

---
 src/compress.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compress.rs b/src/compress.rs
index d005dc6..fdc52b0 100644
--- a/src/compress.rs
+++ b/src/compress.rs
@@ -93,12 +93,12 @@ pub fn compress_data_dynamic_n<W: Write>(
 
     // enter the decompression loop unless we did a sync flush, in case we want to make sure
     // everything is output before continuing.
-    while !deflate_state.needs_flush {
+    while !(deflate_state.needs_flush && flush == Flush::Sync) {
         let output_buf_len = deflate_state.output_buf().len();
         let output_buf_pos = deflate_state.output_buf_pos;
-        // If the output buffer has too much data in it already, flush it before doing anything
-        // else.
-        if output_buf_len > LARGEST_OUTPUT_BUF_SIZE {
+        // If the output buffer has too much data in it already, or there is something left of an
+        // earlier sync flush, flush it before doing anything else.
+        if output_buf_len > LARGEST_OUTPUT_BUF_SIZE || deflate_state.needs_flush {
             if bytes_written > 0 {
                 // Report the input consumed so far before trying the writer, an error from it
                 // would make the caller believe that nothing was consumed.
-- 
2.43.0


From 72d840aa4785d46f30da8dce0f36860c332300f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 04/12] fix: only add the consumed part of the input to the
 checksum

---
 src/writer.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 1888a11..43d8c5e 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -256,10 +256,7 @@ impl<W: Write> io::Write for ZlibEncoder<W> {
         let flush_mode = self.deflate_state.flush_mode;
         let res = compress_data_dynamic_n(buf, &mut self.deflate_state, flush_mode);
         match res {
-            // If this is returned, the whole buffer was consumed
-            Ok(0) => self.checksum.update_from_slice(buf),
-            // Otherwise, only part of it was consumed, so only that part
-            // added to the checksum.
+            // Only the part of the buffer that was consumed is added to the checksum.
             Ok(n) => self.checksum.update_from_slice(&buf[0..n]),
             _ => (),
         };
@@ -436,7 +433,6 @@ pub mod gzip {
             self.check_write_header();
             let res = self.inner.write(buf);
             match res {
-                Ok(0) => self.checksum.update(buf),
                 Ok(n) => self.checksum.update(&buf[0..n]),
                 _ => (),
             };
-- 
2.43.0


From a188eb4331006187b68abf68aa3d6e39cf9f641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 05/12] fix: write the zlib/gzip header before flushing an
 encoder nothing was written to

---
 src/writer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index 43d8c5e..1ff3615 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -269,6 +269,7 @@ impl<W: Write> io::Write for ZlibEncoder<W> {
     /// This essentially finishes the current block, and sends an additional empty stored block to
     /// the writer.
     fn flush(&mut self) -> io::Result<()> {
+        self.check_write_header()?;
         compress_until_done(&[], &mut self.deflate_state, Flush::Sync)
     }
 }
@@ -445,6 +446,7 @@ pub mod gzip {
         /// This essentially finishes the current block, and sends an additional empty stored
         /// block to the writer.
         fn flush(&mut self) -> io::Result<()> {
+            self.check_write_header();
             self.inner.flush()
         }
     }
-- 
2.43.0


From 5a2ed720e3e7ee0becd009c31677bf3da0cfeadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:23 +0000
Subject: [PATCH 06/12] fix: do not repeat parts of the zlib/gzip trailer when
 finishing is retried after an error

---
 src/writer.rs | 49 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 1ff3615..147f3f5 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -184,6 +184,7 @@ pub struct ZlibEncoder<W: Write> {
     deflate_state: DeflateState<W>,
     checksum: Adler32Checksum,
     header_written: bool,
+    trailer_written: bool,
 }
 
 impl<W: Write> ZlibEncoder<W> {
@@ -193,6 +194,7 @@ impl<W: Write> ZlibEncoder<W> {
             deflate_state: DeflateState::new(options.into(), writer),
             checksum: Adler32Checksum::new(),
             header_written: false,
+            trailer_written: false,
         }
     }
 
@@ -218,6 +220,7 @@ impl<W: Write> ZlibEncoder<W> {
     pub fn reset(&mut self, writer: W) -> io::Result<W> {
         self.output_all()?;
         self.header_written = false;
+        self.trailer_written = false;
         self.checksum = Adler32Checksum::new();
         self.deflate_state.reset(writer)
     }
@@ -233,15 +236,19 @@ impl<W: Write> ZlibEncoder<W> {
 
     /// Write the trailer, which for zlib is the Adler32 checksum.
     fn write_trailer(&mut self) -> io::Result<()> {
+        // If outputting the trailer failed earlier, what was left of it is still in the output
+        // buffer and is output with the rest of the data.
+        if self.trailer_written {
+            return Ok(());
+        }
+
         let hash = self.checksum.current_hash();
 
         self.deflate_state
-            .inner
-            .as_mut()
-            .expect(ERR_STR)
-            .write_all(&hash.to_be_bytes())?;
-
-        Ok(())
+            .output_buf()
+            .extend_from_slice(&hash.to_be_bytes());
+        self.trailer_written = true;
+        compress_until_done(&[], &mut self.deflate_state, Flush::Finish)
     }
 
     /// Return the adler32 checksum of the currently consumed data.
@@ -290,7 +297,7 @@ impl<W: Write> Drop for ZlibEncoder<W> {
 #[cfg(feature = "gzip")]
 pub mod gzip {
 
-    use std::io::{Cursor, Write};
+    use std::io::Write;
     use std::{io, thread};
 
     use super::*;
@@ -330,6 +337,7 @@ pub mod gzip {
         inner: DeflateEncoder<W>,
         checksum: Crc,
         header: Vec<u8>,
+        trailer_written: bool,
     }
 
     impl<W: Write> GzEncoder<W> {
@@ -350,6 +358,7 @@ pub mod gzip {
                 inner: DeflateEncoder::new(writer, options),
                 checksum: Crc::new(),
                 header: builder.into_header(),
+                trailer_written: false,
             }
         }
 
@@ -383,6 +392,7 @@ pub mod gzip {
 
         fn reset_no_header(&mut self, writer: W) -> io::Result<W> {
             self.output_all()?;
+            self.trailer_written = false;
             self.checksum = Crc::new();
             self.inner.deflate_state.reset(writer)
         }
@@ -406,21 +416,22 @@ pub mod gzip {
 
         /// Write the checksum and number of bytes mod 2^32 to the output writer.
         fn write_trailer(&mut self) -> io::Result<()> {
+            // If outputting the trailer failed earlier, what was left of it is still in the
+            // output buffer and is output with the rest of the data.
+            if self.trailer_written {
+                return Ok(());
+            }
+
             let crc = self.checksum.sum();
             let amount = self.checksum.amt_as_u32();
 
-            // We use a buffer here to make sure we don't end up writing only half the header if
-            // writing fails.
-            let mut buf = [0u8; 8];
-            let mut temp = Cursor::new(&mut buf[..]);
-            temp.write_all(&crc.to_le_bytes()).unwrap();
-            temp.write_all(&amount.to_le_bytes()).unwrap();
-            self.inner
-                .deflate_state
-                .inner
-                .as_mut()
-                .expect(ERR_STR)
-                .write_all(temp.into_inner())
+            // The trailer goes through the output buffer to make sure we don't end up with only
+            // half of it, or with it repeated, if writing fails.
+            let output_buf = self.inner.deflate_state.output_buf();
+            output_buf.extend_from_slice(&crc.to_le_bytes());
+            output_buf.extend_from_slice(&amount.to_le_bytes());
+            self.trailer_written = true;
+            self.inner.output_all()
         }
 
         /// Get the crc32 checksum of the data consumed so far.
-- 
2.43.0


From 312bb34f9031cc27f956e4a4b620092fadb8ee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:23 +0000
Subject: [PATCH 07/12] fix: do not put the header for the next gzip member
 into the current one when a reset fails

---
 src/writer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 147f3f5..7d752bf 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -400,18 +400,18 @@ pub mod gzip {
         /// Resets the encoder (except the compression options), replacing the current writer
         /// with a new one, returning the old one. (Using a blank header).
         pub fn reset(&mut self, writer: W) -> io::Result<W> {
-            let w = self.reset_no_header(writer);
+            let w = self.reset_no_header(writer)?;
             self.header = GzBuilder::new().into_header();
-            w
+            Ok(w)
         }
 
         /// Resets the encoder (except the compression options), replacing the current writer
         /// with a new one, returning the old one, and using the provided `GzBuilder` to
         /// create the header.
         pub fn reset_with_builder(&mut self, writer: W, builder: GzBuilder) -> io::Result<W> {
-            let w = self.reset_no_header(writer);
+            let w = self.reset_no_header(writer)?;
             self.header = builder.into_header();
-            w
+            Ok(w)
         }
 
         /// Write the checksum and number of bytes mod 2^32 to the output writer.
-- 
2.43.0


From f6ae047db3614b9e7f16c6bfc0a4c70a9752e80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:33 +0000
Subject: [PATCH 08/12] fix: reset the hash chains when an encoder is reset

---
 src/chained_hash_table.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/chained_hash_table.rs b/src/chained_hash_table.rs
index 61c3fa2..fbe496c 100644
--- a/src/chained_hash_table.rs
+++ b/src/chained_hash_table.rs
@@ -98,11 +98,7 @@ impl ChainedHashTable {
     pub fn reset(&mut self) {
         self.current_hash = 0;
         reset_array(&mut self.c.head);
-        {
-            let h = self.c.head;
-            let mut c = self.c.prev;
-            c[..].copy_from_slice(&h[..]);
-        }
+        self.c.fill_prev();
         /*if cfg!(debug_assertions) {
             self.count.reset();
         }*/
-- 
2.43.0


From 6b704f846ac92f68df44410c77be86e9a47bc3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 09/12] Add guarded hooks for deterministic simulation (--cfg
 deflate_sim)

---
 src/compress.rs      | 22 +++++++++++++++++++-
 src/lib.rs           |  5 +++++
 src/lz77.rs          |  3 +++
 src/output_writer.rs |  6 ++++++
 src/sim.rs           | 48 ++++++++++++++++++++++++++++++++++++++++++++
 5 files changed, 83 insertions(+), 1 deletion(-)
 create mode 100644 src/sim.rs

diff --git a/src/compress.rs b/src/compress.rs
index fdc52b0..9252bf7 100644
--- a/src/compress.rs
+++ b/src/compress.rs
@@ -11,6 +11,17 @@ use crate::stored_block::{compress_block_stored, write_stored_header, MAX_STORED
 
 const LARGEST_OUTPUT_BUF_SIZE: usize = 1024 * 32;
 
+/// How much data the output buffer can hold before it has to be written.
+#[cfg(not(deflate_sim))]
+const fn output_limit() -> usize {
+    LARGEST_OUTPUT_BUF_SIZE
+}
+
+#[cfg(deflate_sim)]
+fn output_limit() -> usize {
+    crate::sim::output_limit(LARGEST_OUTPUT_BUF_SIZE)
+}
+
 /// Flush mode to use when compressing input received in multiple steps.
 ///
 /// (The more obscure ZLIB flush modes are not implemented.)
@@ -94,11 +105,14 @@ pub fn compress_data_dynamic_n<W: Write>(
     // enter the decompression loop unless we did a sync flush, in case we want to make sure
     // everything is output before continuing.
     while !(deflate_state.needs_flush && flush == Flush::Sync) {
+        #[cfg(deflate_sim)]
+        crate::sim::yield_point();
+
         let output_buf_len = deflate_state.output_buf().len();
         let output_buf_pos = deflate_state.output_buf_pos;
         // If the output buffer has too much data in it already, or there is something left of an
         // earlier sync flush, flush it before doing anything else.
-        if output_buf_len > LARGEST_OUTPUT_BUF_SIZE || deflate_state.needs_flush {
+        if output_buf_len > output_limit() || deflate_state.needs_flush {
             if bytes_written > 0 {
                 // Report the input consumed so far before trying the writer, an error from it
                 // would make the caller believe that nothing was consumed.
@@ -193,6 +207,9 @@ pub fn compress_data_dynamic_n<W: Write>(
             )
         };
 
+        #[cfg(deflate_sim)]
+        crate::sim::yield_point();
+
         // Check if we've actually managed to compress the input, and output stored blocks
         // if not.
         match res {
@@ -257,6 +274,9 @@ pub fn compress_data_dynamic_n<W: Write>(
             }
         };
 
+        #[cfg(deflate_sim)]
+        crate::sim::yield_point();
+
         // Clear the current lz77 data in the writer for the next call.
         deflate_state.lz77_writer.clear();
         // We are done with the block, so we reset the number of bytes taken
diff --git a/src/lib.rs b/src/lib.rs
index cdce2cb..f147a03 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -48,6 +48,8 @@
 //! ```
 
 #![forbid(unsafe_code)]
+// For `deflate_sim`, see the sim module.
+#![allow(unknown_lints, unexpected_cfgs)]
 #![cfg_attr(all(feature = "benchmarks", test), feature(test))]
 
 #[cfg(all(test, feature = "benchmarks"))]
@@ -77,6 +79,9 @@ mod lzvalue;
 mod matching;
 mod output_writer;
 mod rle;
+#[cfg(deflate_sim)]
+#[doc(hidden)]
+pub mod sim;
 mod stored_block;
 #[cfg(test)]
 mod test_utils;
diff --git a/src/lz77.rs b/src/lz77.rs
index 49c712e..0b9bcd1 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -617,6 +617,9 @@ pub fn lz77_compress_block(
     let mut remaining_data = buffer.add_data(data);
 
     loop {
+        #[cfg(deflate_sim)]
+        crate::sim::yield_point();
+
         // Note if there is a pending byte from the previous call to process_chunk,
         // so we get the block input size right.
         let pending_previous = state.pending_byte_as_num();
diff --git a/src/output_writer.rs b/src/output_writer.rs
index 5ea9e02..d25ca2f 100644
--- a/src/output_writer.rs
+++ b/src/output_writer.rs
@@ -36,6 +36,12 @@ pub struct DynamicWriter {
 impl DynamicWriter {
     #[inline]
     pub fn check_buffer_length(&self) -> BufferStatus {
+        #[cfg(deflate_sim)]
+        {
+            if self.buffer.len() >= crate::sim::block_length(MAX_BUFFER_LENGTH) {
+                return BufferStatus::Full;
+            }
+        }
         if self.buffer.len() >= MAX_BUFFER_LENGTH {
             BufferStatus::Full
         } else {
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..05eba66
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,48 @@
+//! Hooks for deterministic simulation. Only compiled with `--cfg deflate_sim`.
+//!
+//! Lets a test harness lower two internal limits, so that rare states (a full block, a full
+//! output buffer) can be reached with little data, and get control at points inside a call.
+use std::cell::{Cell, RefCell};
+use std::cmp;
+
+thread_local! {
+    static BLOCK_LENGTH: Cell<usize> = const { Cell::new(0) };
+    static OUTPUT_LIMIT: Cell<usize> = const { Cell::new(0) };
+    static YIELD: RefCell<Option<Box<dyn Fn()>>> = const { RefCell::new(None) };
+}
+
+fn lowered(knob: usize, default: usize) -> usize {
+    if knob == 0 {
+        default
+    } else {
+        cmp::min(knob, default)
+    }
+}
+
+/// Lower the number of lz77 values in a block and the size of the output buffer that is written
+/// before compression continues, for the current thread. 0 means the normal value.
+pub fn set_knobs(block_length: usize, output_limit: usize) {
+    BLOCK_LENGTH.with(|c| c.set(block_length));
+    OUTPUT_LIMIT.with(|c| c.set(output_limit));
+}
+
+/// Set a function that is called at points inside the compression functions on this thread.
+pub fn set_yield(f: Option<Box<dyn Fn()>>) {
+    YIELD.with(|c| *c.borrow_mut() = f);
+}
+
+pub(crate) fn block_length(default: usize) -> usize {
+    lowered(BLOCK_LENGTH.with(Cell::get), default)
+}
+
+pub(crate) fn output_limit(default: usize) -> usize {
+    lowered(OUTPUT_LIMIT.with(Cell::get), default)
+}
+
+pub(crate) fn yield_point() {
+    YIELD.with(|c| {
+        if let Some(f) = c.borrow().as_ref() {
+            f()
+        }
+    });
+}
-- 
2.43.0


From d4cc3cfed98af028d20a20e43ce0f433e03b7685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:24 +0000
Subject: [PATCH 10/12] fix: store the right data when a block ends with a
 match into the next window

---
 src/lz77.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lz77.rs b/src/lz77.rs
index 0b9bcd1..772d689 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -671,7 +671,7 @@ pub fn lz77_compress_block(
 
             state.bytes_to_hash = overlap;
 
-            if let ProcessStatus::BufferFull(written) = p_status {
+            if let ProcessStatus::BufferFull(mut written) = p_status {
                 state.current_block_input_bytes +=
                     (written - start + pending_previous - state.pending_byte_as_num()) as u64;
 
@@ -687,6 +687,8 @@ pub fn lz77_compress_block(
                             state.hash_table.slide(window_size);
                         }
                         remaining_data = buffer.slide(remaining_data.unwrap_or(&[]));
+                        // The processed data moved as well, which matters if it is to be stored.
+                        written -= window_size;
                     } else {
                         state.is_first_window = false;
                     }
-- 
2.43.0


From b76ed27381f0c950a7a317c8718a2e6e11938d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:30 +0000
Subject: [PATCH 11/12] fix: count the last byte when a block ends with a match
 one byte into the lookahead

---
 src/lz77.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lz77.rs b/src/lz77.rs
index 772d689..5fdd117 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -461,7 +461,7 @@ fn process_chunk_lazy(
                 if let BufferStatus::Full = b_status {
                     // TODO: These bytes should be hashed when doing a sync flush.
                     // This can't be done here as the new input data does not exist yet.
-                    return (overlap, buffer_full(end));
+                    return (overlap, buffer_full(end + overlap));
                 } else {
                     return (overlap, ProcessStatus::Ok);
                 }
-- 
2.43.0


From f763102043967ebe6c9409e9f82cd26c7f5173f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:37 +0000
Subject: [PATCH 12/12] fix: use the fixed distance code's lengths when
 estimating the size of a fixed block

---
 src/huffman_lengths.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/huffman_lengths.rs b/src/huffman_lengths.rs
index a5a153a..0046645 100644
--- a/src/huffman_lengths.rs
+++ b/src/huffman_lengths.rs
@@ -2,8 +2,8 @@ use crate::bitstream::LsbWriter;
 use crate::deflate_state::LengthBuffers;
 use crate::huffman_table::{
     create_codes_in_place, num_extra_bits_for_distance_code, num_extra_bits_for_length_code,
-    HuffmanTable, FIXED_CODE_LENGTHS, LENGTH_BITS_START, MAX_CODE_LENGTH, NUM_DISTANCE_CODES,
-    NUM_LITERALS_AND_LENGTHS,
+    HuffmanTable, FIXED_CODE_LENGTHS, FIXED_CODE_LENGTHS_DISTANCE, LENGTH_BITS_START,
+    MAX_CODE_LENGTH, NUM_DISTANCE_CODES, NUM_LITERALS_AND_LENGTHS,
 };
 use crate::length_encode::{
     encode_lengths_m, huffman_lengths_from_frequency_m, EncodedLength, COPY_PREVIOUS,
@@ -71,11 +71,12 @@ fn calculate_huffman_length(frequencies: &[FrequencyType], code_lengths: &[u8])
 /// code lengths (first return value) and static code lengths (second return value).
 ///
 /// Parameters:
-/// Frequencies, length of dynamic codes, and a function to get how many extra bits in addition
-/// to the length of the Huffman code the symbol will use.
+/// Frequencies, length of dynamic codes, length of static codes, and a function to get how many
+/// extra bits in addition to the length of the Huffman code the symbol will use.
 fn calculate_block_length<F>(
     frequencies: &[FrequencyType],
     dyn_code_lengths: &[u8],
+    static_code_lengths: &[u8],
     get_num_extra_bits: &F,
 ) -> (u64, u64)
 where
@@ -88,7 +89,7 @@ where
 
     let iter = frequencies
         .iter()
-        .zip(dyn_code_lengths.iter().zip(FIXED_CODE_LENGTHS.iter()))
+        .zip(dyn_code_lengths.iter().zip(static_code_lengths.iter()))
         .enumerate();
 
     // This could maybe be optimised a bit by splitting the iteration of codes using extra bits and
@@ -241,14 +242,17 @@ pub fn gen_huffman_lengths(
     // (excluding the 3-bit block header since it's used in all block types).
 
     // Total length of the compressed literals/lengths.
-    let (d_ll_length, s_ll_length) = calculate_block_length(l_freqs, l_lengths, &|c| {
-        num_extra_bits_for_length_code(c.saturating_sub(LENGTH_BITS_START as usize) as u8).into()
-    });
+    let (d_ll_length, s_ll_length) =
+        calculate_block_length(l_freqs, l_lengths, &FIXED_CODE_LENGTHS, &|c| {
+            num_extra_bits_for_length_code(c.saturating_sub(LENGTH_BITS_START as usize) as u8)
+                .into()
+        });
 
     // Total length of the compressed distances.
-    let (d_dist_length, s_dist_length) = calculate_block_length(d_freqs, d_lengths, &|c| {
-        num_extra_bits_for_distance_code(c as u8).into()
-    });
+    let (d_dist_length, s_dist_length) =
+        calculate_block_length(d_freqs, d_lengths, &FIXED_CODE_LENGTHS_DISTANCE, &|c| {
+            num_extra_bits_for_distance_code(c as u8).into()
+        });
 
     // Total length of the compressed huffman code lengths.
     let huff_table_length = calculate_huffman_length(&freqs, &huffman_table_lengths);
-- 
2.43.0

