From ac89fb139d7201a9fdf30bbd2c3adce3c1f7010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 1/9] fix: consume data that follows the trailer instead of
 looping forever

---
 src/reader/decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 35994f3..9808ac1 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -777,7 +777,8 @@ impl StreamingDecoder {
                 debug_assert_eq!(0, b);
                 goto!(BlockEnd, emit Decoded::DataEnd)
             }
-            Trailer => goto!(0, Trailer, emit Decoded::Nothing),
+            // data past the end of the file is ignored, but must be consumed for `update` to finish
+            Trailer => goto!(buf.len(), Trailer),
         }
     }
 
-- 
2.43.0


From 098d5deaf31e25dcc15796f7db055e86237110a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 2/9] fix: accept a trailer right after the global palette

---
 src/reader/decoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 9808ac1..f605cd6 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -613,7 +613,9 @@ impl StreamingDecoder {
                     }
                     goto!(n, GlobalPalette(left - n))
                 } else {
-                    goto!(BlockStart(b), emit Decoded::GlobalPalette(
+                    // the trailer can't be consumed yet, see `BlockEnd`
+                    let consumed = usize::from(b != Block::Trailer as u8);
+                    goto!(consumed, BlockStart(b), emit Decoded::GlobalPalette(
                         mem::take(&mut self.global_color_table).into_boxed_slice()
                     ))
                 }
-- 
2.43.0


From 7607fcc2274c25355d7de243c65a2578dcda2d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 3/9] fix: don't treat unknown blocks as a continuation of the
 previous extension

---
 src/reader/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index f605cd6..b52a526 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -645,6 +645,9 @@ impl StreamingDecoder {
                     }
                     None => {
                         if self.allow_unknown_blocks {
+                            // don't mix it up with the previous extension
+                            self.ext.data.clear();
+                            self.ext.id = AnyExtension(0);
                             goto!(ExtensionDataBlock(b as usize))
                         } else {
                             Err(DecodingError::format("unknown block type encountered"))
-- 
2.43.0


From 5034cee651f7df162616b1c4f8f04b15da614147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:42 +0000
Subject: [PATCH 4/9] fix: decode discarded image data to find the LZW end code

---
 src/reader/decoder.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index b52a526..1637786 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -309,6 +309,22 @@ impl LzwReader {
         }
         Ok((decoded.consumed_in, decoded.consumed_out))
     }
+
+    /// Skips data that isn't needed. Finding the end code requires decoding it anyway.
+    ///
+    /// Empty `lzw_data` means the end of the data.
+    pub fn discard_bytes(&mut self, lzw_data: &[u8]) -> io::Result<()> {
+        let mut data = lzw_data;
+        let mut discarded = [0; 256];
+        while self.check_for_end_code && !self.has_ended() {
+            let (bytes_read, _) = self.decode_bytes(data, &mut OutputBuffer::Slice(&mut discarded))?;
+            data = data.get(bytes_read..).unwrap_or_default();
+            if data.is_empty() && !lzw_data.is_empty() {
+                break;
+            }
+        }
+        Ok(())
+    }
 }
 
 /// GIF decoder which emits [low-level events](Decoded) for items in the GIF file
@@ -747,6 +763,7 @@ impl StreamingDecoder {
                 if left > 0 {
                     let n = cmp::min(left, buf.len());
                     if self.lzw_reader.has_ended() || matches!(write_into, OutputBuffer::None) {
+                        self.lzw_reader.discard_bytes(&buf[..n])?;
                         return goto!(n, DecodeSubBlock(left - n), emit Decoded::Nothing);
                     }
 
@@ -766,6 +783,9 @@ impl StreamingDecoder {
                 } else if b != 0 {
                     // decode next sub-block
                     goto!(DecodeSubBlock(b as usize))
+                } else if matches!(write_into, OutputBuffer::None) {
+                    self.lzw_reader.discard_bytes(&[])?;
+                    goto!(0, FrameDecoded)
                 } else {
                     let (_, bytes_len) = self.lzw_reader.decode_bytes(&[], write_into)?;
 
-- 
2.43.0


From e0ef42e5bc788089854937e1e73917c0f8a1be3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:42 +0000
Subject: [PATCH 5/9] fix: don't end frame iteration early at an empty frame

---
 src/reader/mod.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index 8911d8e..c51040b 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -363,11 +363,8 @@ impl<R> Decoder<R> where R: Read {
     }
 
     /// This is private for iterator's use
-    fn take_current_frame(&mut self) -> Option<Frame<'static>> {
-        if self.current_frame.buffer.is_empty() {
-            return None;
-        }
-        Some(self.current_frame.take())
+    fn take_current_frame(&mut self) -> Frame<'static> {
+        self.current_frame.take()
     }
 
     /// Reads the data of the current frame into a pre-allocated buffer.
@@ -496,7 +493,7 @@ impl<R: Read> Iterator for DecoderIter<R> {
     fn next(&mut self) -> Option<Self::Item> {
         if !self.ended {
             match self.inner.read_next_frame() {
-                Ok(Some(_)) => self.inner.take_current_frame().map(Ok),
+                Ok(Some(_)) => Some(Ok(self.inner.take_current_frame())),
                 Ok(None) => {
                     self.ended = true;
                     None
-- 
2.43.0


From 4bd43e9225863a8ab197b8c0ef4fe4ce4b96599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:42 +0000
Subject: [PATCH 6/9] fix: respect the memory limit when reserving memory for
 LZW data

---
 src/reader/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index c51040b..c30e38c 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -349,9 +349,11 @@ impl<R> Decoder<R> where R: Read {
                     } else {
                         Vec::new()
                     };
-                    // Guesstimate 2bpp
-                    vec.try_reserve(usize::from(self.current_frame.width) * usize::from(self.current_frame.height) / 4)
-                        .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
+                    // Guesstimate 2bpp, unless the frame is too large for the memory limit
+                    if self.pixel_converter.check_buffer_size(&self.current_frame).is_ok() {
+                        vec.try_reserve(usize::from(self.current_frame.width) * usize::from(self.current_frame.height) / 4)
+                            .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
+                    }
                     self.copy_lzw_into_buffer(min_code_size, &mut vec)?;
                     self.current_frame.buffer = Cow::Owned(vec);
                 },
-- 
2.43.0


From c0de0e08ac10520477954ce4c391c29b7a9a6dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:42 +0000
Subject: [PATCH 7/9] fix: keep all transparent pixels transparent in
 Frame::from_rgba

---
 src/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 2458d06..869951e 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -218,7 +218,9 @@ impl Frame<'static> {
             if pix[3] != 0 {
                 pix[3] = 0xFF;
             } else {
-                transparent = Some([pix[0], pix[1], pix[2], pix[3]]);
+                // there's only one transparent index, so all transparent pixels must use the same color
+                let color = *transparent.get_or_insert([pix[0], pix[1], pix[2], pix[3]]);
+                pix.copy_from_slice(&color);
             }
         }
 
-- 
2.43.0


From ccbb156ead6f7aafc1b8991faf7313ca46a65bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:56 +0000
Subject: [PATCH 8/9] fix: handle blocks that have no sub-blocks

---
 src/reader/decoder.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 1637786..6a08f1d 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -664,7 +664,7 @@ impl StreamingDecoder {
                             // don't mix it up with the previous extension
                             self.ext.data.clear();
                             self.ext.id = AnyExtension(0);
-                            goto!(ExtensionDataBlock(b as usize))
+                            goto!(usize::from(b != 0), ExtensionDataBlock(b as usize))
                         } else {
                             Err(DecodingError::format("unknown block type encountered"))
                         }
@@ -682,7 +682,8 @@ impl StreamingDecoder {
             }
             ExtensionBlockStart => {
                 self.ext.data.push(b);
-                goto!(ExtensionDataBlock(b as usize))
+                // there may be no sub-blocks at all, and the terminator is consumed in `ExtensionDataBlock`
+                goto!(usize::from(b != 0), ExtensionDataBlock(b as usize))
             }
             ExtensionDataBlock(left) => {
                 if left > 0 {
@@ -737,13 +738,15 @@ impl StreamingDecoder {
                 }
             }
             LzwInit(min_code_size) => {
+                // there may be no sub-blocks at all, and the terminator can't be consumed yet
+                let consumed = usize::from(b != 0);
                 if !self.skip_frame_decoding {
                     // Reset validates the min code size
                     self.lzw_reader.reset(min_code_size)?;
-                    goto!(DecodeSubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Pixels))
+                    goto!(consumed, DecodeSubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Pixels))
                 } else {
                     LzwReader::check_code_size(min_code_size)?;
-                    goto!(CopySubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Lzw { min_code_size }))
+                    goto!(consumed, CopySubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Lzw { min_code_size }))
                 }
             }
             CopySubBlock(left) => {
-- 
2.43.0


From 375e38ee6ed1021146bdb5d94530fe38b9738d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:14 +0000
Subject: [PATCH 9/9] fix: continue LZW decoding after clear codes

---
 src/reader/decoder.rs | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 6a08f1d..0d8d91e 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -294,20 +294,35 @@ impl LzwReader {
             OutputBuffer::Vec(_) => return Err(io::Error::from(io::ErrorKind::Unsupported)),
         };
 
-        let decoded = decoder.decode_bytes(lzw_data, decode_buffer);
-
-        match decoded.status {
-            Ok(LzwStatus::Done | LzwStatus::Ok) => {},
-            Ok(LzwStatus::NoProgress) => {
-                if self.check_for_end_code {
-                    return Err(io::Error::new(io::ErrorKind::InvalidData, "no end code in lzw stream"));
+        // The LZW decoder stops at clear codes, even when there are more codes in its internal buffer.
+        // That may look like no progress, but then the next call makes progress.
+        let mut consumed_in = 0;
+        let mut consumed_out = 0;
+        let mut stalled = false;
+        loop {
+            let decoded = decoder.decode_bytes(&lzw_data[consumed_in..], &mut decode_buffer[consumed_out..]);
+            consumed_in += decoded.consumed_in;
+            consumed_out += decoded.consumed_out;
+
+            match decoded.status {
+                Ok(LzwStatus::Done) => break,
+                Ok(_) if consumed_out == decode_buffer.len() => break,
+                Ok(LzwStatus::NoProgress) if decoded.consumed_out == 0 => {
+                    if stalled {
+                        if self.check_for_end_code && consumed_in == 0 && consumed_out == 0 {
+                            return Err(io::Error::new(io::ErrorKind::InvalidData, "no end code in lzw stream"));
+                        }
+                        break;
+                    }
+                    stalled = true;
+                },
+                Ok(_) => stalled = false,
+                Err(err @ LzwError::InvalidCode) => {
+                    return Err(io::Error::new(io::ErrorKind::InvalidData, err));
                 }
-            },
-            Err(err @ LzwError::InvalidCode) => {
-                return Err(io::Error::new(io::ErrorKind::InvalidData, err));
             }
         }
-        Ok((decoded.consumed_in, decoded.consumed_out))
+        Ok((consumed_in, consumed_out))
     }
 
     /// Skips data that isn't needed. Finding the end code requires decoding it anyway.
-- 
2.43.0

