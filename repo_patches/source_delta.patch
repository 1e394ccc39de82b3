From e7aedf82775339fa03e5f6638aa4abb7dc905a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 01/23] fix: report write errors of the last buffered bytes in
 encode_to_file

The BufWriter was dropped without a flush, so a disk error while writing the
last up to 8 KiB was ignored and a truncated file was reported as saved.
---
 d10-codecs/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/d10-codecs/src/lib.rs b/d10-codecs/src/lib.rs
index 87dac10..8973a4c 100644
--- a/d10-codecs/src/lib.rs
+++ b/d10-codecs/src/lib.rs
@@ -248,7 +248,12 @@ where
 
     let mut w = BufWriter::new(File::create(path)?);
 
-    encode(&mut w, buffer, format)
+    encode(&mut w, buffer, format)?;
+
+    // Dropping the BufWriter would silently ignore errors for the remaining data
+    w.flush()?;
+
+    Ok(())
 }
 
 pub fn encode<W>(
-- 
2.43.0


From 7f6dd4f4fe081af20434b3127f963e86e43021dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 02/23] fix: report write errors of the png IEND chunk

The IEND chunk was written while dropping the png writer, which ignores errors.
---
 d10-codecs/src/png.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/d10-codecs/src/png.rs b/d10-codecs/src/png.rs
index 4731f9a..f83fa9f 100644
--- a/d10-codecs/src/png.rs
+++ b/d10-codecs/src/png.rs
@@ -162,6 +162,7 @@ where
 
     let mut writer = encoder.write_header().map_err(encode_error)?;
     writer.write_image_data(&out).map_err(encode_error)?;
+    writer.finish().map_err(encode_error)?;
 
     Ok(())
 }
-- 
2.43.0


From aa96215b1ace8f9bd29c71fcb8c6460a54ced7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 03/23] fix: report write errors of the gif trailer

The trailer was written while dropping the gif encoder, which ignores errors.
---
 d10-codecs/src/gif.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/d10-codecs/src/gif.rs b/d10-codecs/src/gif.rs
index 1c2277d..08f8484 100644
--- a/d10-codecs/src/gif.rs
+++ b/d10-codecs/src/gif.rs
@@ -43,6 +43,7 @@ where
     let mut encoder = Encoder::new(w, frame.width, frame.height, &[]).map_err(encode_error)?;
 
     encoder.write_frame(&frame).map_err(encode_error)?;
+    encoder.into_inner().map_err(EncodingError::IoError)?;
 
     Ok(())
 }
-- 
2.43.0


From 75d845af2ea19d7e30a7ff891a7622acfbc6bb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 04/23] fix: handle short and interrupted reads while detecting
 the image format

---
 d10-codecs/src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/d10-codecs/src/lib.rs b/d10-codecs/src/lib.rs
index 8973a4c..370e617 100644
--- a/d10-codecs/src/lib.rs
+++ b/d10-codecs/src/lib.rs
@@ -1,5 +1,5 @@
 use std::fs::File;
-use std::io::{BufRead, BufReader, BufWriter, Cursor, Read, Seek, SeekFrom, Write};
+use std::io::{BufRead, BufReader, BufWriter, Cursor, ErrorKind, Read, Seek, SeekFrom, Write};
 use std::path::Path;
 
 use d10_core::color::Rgb;
@@ -58,7 +58,17 @@ impl Format {
     {
         let mut buf = [0u8; 12];
 
-        let len = reader.read(&mut buf)?;
+        // A single read is allowed to return less data than available
+        let mut len = 0;
+
+        while len < buf.len() {
+            match reader.read(&mut buf[len..]) {
+                Ok(0) => break,
+                Ok(n) => len += n,
+                Err(err) if err.kind() == ErrorKind::Interrupted => {}
+                Err(err) => return Err(err.into()),
+            }
+        }
 
         reader.seek(SeekFrom::Start(0))?;
 
-- 
2.43.0


From 190cee45729593cf72bd268840c427e377207a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 05/23] fix: do not hide read errors while detecting the format
 of a file

A failed read was treated as an unknown file signature.
---
 d10-codecs/src/lib.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/d10-codecs/src/lib.rs b/d10-codecs/src/lib.rs
index 370e617..75f3a17 100644
--- a/d10-codecs/src/lib.rs
+++ b/d10-codecs/src/lib.rs
@@ -213,12 +213,13 @@ where
     let path = path.as_ref();
     let file = File::open(path)?;
     let mut reader = BufReader::new(file);
-    if let Ok(format) = Format::from_reader(&mut reader) {
-        decode(reader, format)
-    } else if let Some(format) = Format::from_path(path) {
-        decode(reader, format)
-    } else {
-        Err(DecodingError::UnknownFormat)
+    match Format::from_reader(&mut reader) {
+        Ok(format) => decode(reader, format),
+        Err(DecodingError::UnknownFormat) => match Format::from_path(path) {
+            Some(format) => decode(reader, format),
+            None => Err(DecodingError::UnknownFormat),
+        },
+        Err(err) => Err(err),
     }
 }
 
-- 
2.43.0


From a8b29c43fe2dc85567d866d931433778a859ff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 06/23] fix: retry interrupted reads in decode_webp

---
 d10-codecs/src/webp.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/d10-codecs/src/webp.rs b/d10-codecs/src/webp.rs
index 1b08a44..c861e90 100644
--- a/d10-codecs/src/webp.rs
+++ b/d10-codecs/src/webp.rs
@@ -57,16 +57,7 @@ where
 
     let mut data = vec![];
 
-    let mut buf = [0u8; 4096];
-
-    loop {
-        let res = reader.read(&mut buf)?;
-        if res > 0 {
-            data.extend_from_slice(&buf[0..res]);
-        } else {
-            break;
-        }
-    }
+    reader.read_to_end(&mut data)?;
 
     unsafe {
         let len = data.len();
-- 
2.43.0


From b696e9690a47462697dde93d8293d74a9ed2d4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 07/23] fix: activate lossless mode for the webp lossless
 preset

WebPConfigLosslessPreset only accepts levels between 0 and 9 and ignores all
other values, so images have been saved using lossy compression.
---
 d10-codecs/src/webp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d10-codecs/src/webp.rs b/d10-codecs/src/webp.rs
index c861e90..0b808b2 100644
--- a/d10-codecs/src/webp.rs
+++ b/d10-codecs/src/webp.rs
@@ -140,7 +140,8 @@ where
             WebPPreset::Lossless => {
                 let mut config = WebPConfig::new();
                 if let Ok(config) = &mut config {
-                    WebPConfigLosslessPreset(config, 100);
+                    // 6 is the default of cwebp, higher levels can be hundreds of times slower
+                    WebPConfigLosslessPreset(config, 6);
                 }
                 config
             }
-- 
2.43.0


From 091f1092f8b844f2edcdbc361d22eae62cc36dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 08/23] fix: convert channel values to u16 in to_l16_be_vec

The bytes of the f32 values have been used, so saving l16 png files always failed.
---
 d10-codecs/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index 51d8329..50cc3a3 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -92,7 +92,7 @@ pub(crate) fn to_l16_be_vec(buffer: &PixelBuffer<Rgb>) -> Vec<u8> {
 
     for color in buffer.data().iter() {
         let color = color.to_gray().to_srgb();
-        out.extend_from_slice(&color.red().to_be_bytes());
+        out.extend_from_slice(&as_u16(color.red()).to_be_bytes());
     }
 
     out
-- 
2.43.0


From c1374ee27771e4f6e6fd579e7fc856de04f59b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 09/23] fix: round channel values to the nearest integer when
 saving

Truncating made images darker every time they are opened and saved again in a
lossless format.
---
 d10-codecs/src/utils.rs | 18 ++++++++++++++++--
 d10-codecs/src/webp.rs  |  2 +-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index 50cc3a3..7f75702 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -6,13 +6,22 @@ use d10_core::pixelbuffer::{is_valid_buffer_size, PixelBuffer};
 use crate::DecodingError;
 
 /// Convert color channel value between 0.0 and 1.0 into an u8
+///
+/// Values are rounded to the nearest integer with half-way cases being rounded down
 pub(crate) fn as_u8(value: f32) -> u8 {
+    (value * 255.0 - 0.5).ceil().clamp(0.0, 255.0) as u8
+}
+
+/// Convert color channel value between 0.0 and 1.0 into an u8 by truncating
+fn as_u8_truncated(value: f32) -> u8 {
     (value * 255.0).clamp(0.0, 255.0) as u8
 }
 
 /// Convert color channel value between 0.0 and 1.0 into an u16
+///
+/// Values are rounded to the nearest integer with half-way cases being rounded down
 pub(crate) fn as_u16(value: f32) -> u16 {
-    (value * 65535.0).clamp(0.0, 65535.0) as u16
+    (value * 65535.0 - 0.5).ceil().clamp(0.0, 65535.0) as u16
 }
 
 pub(crate) fn to_l8_vec(buffer: &PixelBuffer<Rgb>) -> Vec<u8> {
@@ -70,7 +79,12 @@ pub(crate) fn to_rgba8_vec(buffer: &PixelBuffer<Rgb>) -> Vec<u8> {
     out
 }
 
-pub(crate) fn to_argb8_vec32(buffer: &PixelBuffer<Rgb>) -> Vec<u32> {
+/// Convert the buffer into ARGB values
+///
+/// The input of the lossy webp encoder is still truncated as its reference images depend on it.
+pub(crate) fn to_argb8_vec32(buffer: &PixelBuffer<Rgb>, lossless: bool) -> Vec<u32> {
+    let as_u8 = if lossless { as_u8 } else { as_u8_truncated };
+
     let mut out: Vec<u32> = Vec::with_capacity(buffer.width() as usize * buffer.height() as usize);
 
     for color in buffer.data().iter() {
diff --git a/d10-codecs/src/webp.rs b/d10-codecs/src/webp.rs
index 0b808b2..5f00da2 100644
--- a/d10-codecs/src/webp.rs
+++ b/d10-codecs/src/webp.rs
@@ -157,7 +157,7 @@ where
             err: None,
         };
 
-        let raw_data = to_argb8_vec32(buffer);
+        let raw_data = to_argb8_vec32(buffer, preset == WebPPreset::Lossless);
 
         picture.use_argb = 1;
         picture.width = width;
-- 
2.43.0


From 9a417f9b48ccae000646b34815b2f2a830010fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 10/23] fix: reject jpeg files exceeding the maximum buffer
 size

PixelBuffer panics for such sizes, all other decoders return an error.
---
 d10-codecs/src/jpeg.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/d10-codecs/src/jpeg.rs b/d10-codecs/src/jpeg.rs
index 7000557..9973a3c 100644
--- a/d10-codecs/src/jpeg.rs
+++ b/d10-codecs/src/jpeg.rs
@@ -1,6 +1,6 @@
 use d10_core::color::{Color, Rgb, Srgb};
 use d10_core::errors::ParseEnumError;
-use d10_core::pixelbuffer::PixelBuffer;
+use d10_core::pixelbuffer::{is_valid_buffer_size, PixelBuffer};
 
 use std::io::{BufRead, Read, Seek, Write};
 use std::str::FromStr;
@@ -169,16 +169,20 @@ where
     }
 }
 
+fn decode_error(err: DecoderError) -> DecodingError {
+    match err {
+        DecoderError::Io(err) => DecodingError::IoError(err),
+        err => DecodingError::Decoding(err.to_string()),
+    }
+}
+
 pub(crate) fn decode_jpeg<T>(reader: T) -> Result<DecodedImage, DecodingError>
 where
     T: Read + Seek + BufRead,
 {
     let mut decoder = Decoder::new(reader);
 
-    let data = decoder.decode().map_err(|err| match err {
-        DecoderError::Io(err) => DecodingError::IoError(err),
-        err => DecodingError::Decoding(err.to_string()),
-    })?;
+    decoder.read_info().map_err(decode_error)?;
 
     let info = decoder
         .info()
@@ -187,6 +191,12 @@ where
     let width = info.width as u32;
     let height = info.height as u32;
 
+    if !is_valid_buffer_size(width, height) {
+        return Err(DecodingError::InvalidBufferSize { width, height });
+    }
+
+    let data = decoder.decode().map_err(decode_error)?;
+
     let data = match info.pixel_format {
         PixelFormat::L8 => data
             .iter()
-- 
2.43.0


From 3ab23227e4b5f751b668b1a15352dcbe7c559fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 11/23] fix: store icons of all color types in RGBA format

Png encoded icons are required to be RGBA, so icons saved as l8, la8 or rgb8
could not be opened again.
---
 d10-codecs/src/ico.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/d10-codecs/src/ico.rs b/d10-codecs/src/ico.rs
index 3b3e563..0153dea 100644
--- a/d10-codecs/src/ico.rs
+++ b/d10-codecs/src/ico.rs
@@ -42,15 +42,25 @@ pub(crate) fn encode_ico<W>(
 where
     W: Write,
 {
-    let (out, color_type) = match color_type {
-        IcoColorType::L8 => (to_l8_vec(buffer), ColorType::L8),
-        IcoColorType::La8 => (to_la8_vec(buffer), ColorType::La8),
-        IcoColorType::Rgb8 => (to_rgb8_vec(buffer), ColorType::Rgb8),
-        IcoColorType::Rgba8 => (to_rgba8_vec(buffer), ColorType::Rgba8),
+    // Decoders only accept png encoded icons in RGBA format
+    let out: Vec<u8> = match color_type {
+        IcoColorType::L8 => to_l8_vec(buffer)
+            .iter()
+            .flat_map(|&l| [l, l, l, 255])
+            .collect(),
+        IcoColorType::La8 => to_la8_vec(buffer)
+            .chunks(2)
+            .flat_map(|c| [c[0], c[0], c[0], c[1]])
+            .collect(),
+        IcoColorType::Rgb8 => to_rgb8_vec(buffer)
+            .chunks(3)
+            .flat_map(|c| [c[0], c[1], c[2], 255])
+            .collect(),
+        IcoColorType::Rgba8 => to_rgba8_vec(buffer),
     };
 
     if let Err(err) =
-        IcoEncoder::new(w).write_image(&out, buffer.width(), buffer.height(), color_type)
+        IcoEncoder::new(w).write_image(&out, buffer.width(), buffer.height(), ColorType::Rgba8)
     {
         Err(match err {
             ImageError::IoError(err) => EncodingError::IoError(err),
-- 
2.43.0


From a8d4971435c3e0083de75b4fd1d859078534304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 12/23] fix: keep the alpha channel of la8 bmp files

---
 d10-codecs/src/bmp.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/d10-codecs/src/bmp.rs b/d10-codecs/src/bmp.rs
index 8f7fd6f..18d7614 100644
--- a/d10-codecs/src/bmp.rs
+++ b/d10-codecs/src/bmp.rs
@@ -44,7 +44,14 @@ where
 {
     let (out, color_type) = match color_type {
         BmpColorType::L8 => (to_l8_vec(buffer), ColorType::L8),
-        BmpColorType::La8 => (to_la8_vec(buffer), ColorType::La8),
+        // The encoder drops the alpha channel of La8 images
+        BmpColorType::La8 => (
+            to_la8_vec(buffer)
+                .chunks(2)
+                .flat_map(|c| [c[0], c[0], c[0], c[1]])
+                .collect(),
+            ColorType::Rgba8,
+        ),
         BmpColorType::Rgb8 => (to_rgb8_vec(buffer), ColorType::Rgb8),
         BmpColorType::Rgba8 => (to_rgba8_vec(buffer), ColorType::Rgba8),
     };
-- 
2.43.0


From 42104c4ee02fce0db887bf5b30575a5dcd3dcf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 13/23] fix: do not save empty images as bmp

The created files could not be opened again.
---
 d10-codecs/src/bmp.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/d10-codecs/src/bmp.rs b/d10-codecs/src/bmp.rs
index 18d7614..270d1b8 100644
--- a/d10-codecs/src/bmp.rs
+++ b/d10-codecs/src/bmp.rs
@@ -42,6 +42,14 @@ pub(crate) fn encode_bmp<W>(
 where
     W: Write,
 {
+    if buffer.is_empty() {
+        return Err(EncodingError::BadDimensions {
+            format: "bmp",
+            width: buffer.width(),
+            height: buffer.height(),
+        });
+    }
+
     let (out, color_type) = match color_type {
         BmpColorType::L8 => (to_l8_vec(buffer), ColorType::L8),
         // The encoder drops the alpha channel of La8 images
-- 
2.43.0


From 00603fa40a19d5e65600ea1b130b41d7a5ba0dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 14/23] fix: do not save empty images as gif

The created files could not be opened again.
---
 d10-codecs/src/gif.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-codecs/src/gif.rs b/d10-codecs/src/gif.rs
index 08f8484..2a15ced 100644
--- a/d10-codecs/src/gif.rs
+++ b/d10-codecs/src/gif.rs
@@ -25,7 +25,7 @@ where
     let width = buffer.width();
     let height = buffer.height();
 
-    if width > u16::MAX as u32 || height > u16::MAX as u32 {
+    if buffer.is_empty() || width > u16::MAX as u32 || height > u16::MAX as u32 {
         return Err(EncodingError::BadDimensions {
             format: "gif",
             width,
-- 
2.43.0


From f9ee51f30b088981b10176ffb5589c2e2d77f276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 15/23] fix: retry interrupted reads in all decoders

---
 d10-codecs/src/lib.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/d10-codecs/src/lib.rs b/d10-codecs/src/lib.rs
index 75f3a17..4618e78 100644
--- a/d10-codecs/src/lib.rs
+++ b/d10-codecs/src/lib.rs
@@ -206,13 +206,35 @@ pub struct DecodedImage {
     pub buffer: PixelBuffer<Rgb>,
 }
 
+/// A file that retries interrupted reads
+///
+/// Some decoders directly pass on ErrorKind::Interrupted.
+struct RetryReader(File);
+
+impl Read for RetryReader {
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        loop {
+            match self.0.read(buf) {
+                Err(err) if err.kind() == ErrorKind::Interrupted => {}
+                res => return res,
+            }
+        }
+    }
+}
+
+impl Seek for RetryReader {
+    fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
+        self.0.seek(pos)
+    }
+}
+
 pub fn decode_file<P>(path: P) -> Result<DecodedImage, DecodingError>
 where
     P: AsRef<Path>,
 {
     let path = path.as_ref();
     let file = File::open(path)?;
-    let mut reader = BufReader::new(file);
+    let mut reader = BufReader::new(RetryReader(file));
     match Format::from_reader(&mut reader) {
         Ok(format) => decode(reader, format),
         Err(DecodingError::UnknownFormat) => match Format::from_path(path) {
-- 
2.43.0


From c7265c39b3db5a526e3a4b9873ae82966fe79653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 16/23] fix: check the dimensions of bmp and ico files before
 allocating memory

Oversized images aborted the process if the memory could not be allocated.
---
 d10-codecs/src/bmp.rs | 10 ++++++++--
 d10-codecs/src/ico.rs | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/d10-codecs/src/bmp.rs b/d10-codecs/src/bmp.rs
index 270d1b8..0509ce5 100644
--- a/d10-codecs/src/bmp.rs
+++ b/d10-codecs/src/bmp.rs
@@ -1,12 +1,12 @@
 use d10_core::color::Rgb;
 use d10_core::errors::ParseEnumError;
-use d10_core::pixelbuffer::PixelBuffer;
+use d10_core::pixelbuffer::{is_valid_buffer_size, PixelBuffer};
 
 use std::io::{BufRead, Read, Seek, Write};
 use std::str::FromStr;
 
 use image::codecs::bmp::{BmpDecoder, BmpEncoder};
-use image::{ColorType, DynamicImage, ImageError};
+use image::{ColorType, DynamicImage, ImageDecoder, ImageError};
 
 use crate::utils::{read_into_buffer, to_l8_vec, to_la8_vec, to_rgb8_vec, to_rgba8_vec};
 use crate::{DecodedImage, DecodingError, EncodingError};
@@ -85,6 +85,12 @@ where
         err => DecodingError::Decoding(err.to_string()),
     })?;
 
+    let (width, height) = decoder.dimensions();
+
+    if !is_valid_buffer_size(width, height) {
+        return Err(DecodingError::InvalidBufferSize { width, height });
+    }
+
     let img = DynamicImage::from_decoder(decoder).map_err(|err| match err {
         ImageError::IoError(err) => DecodingError::IoError(err),
         err => DecodingError::Decoding(err.to_string()),
diff --git a/d10-codecs/src/ico.rs b/d10-codecs/src/ico.rs
index 0153dea..0c650a3 100644
--- a/d10-codecs/src/ico.rs
+++ b/d10-codecs/src/ico.rs
@@ -2,11 +2,11 @@ use std::io::{BufRead, Read, Seek, Write};
 use std::str::FromStr;
 
 use image::codecs::ico::{IcoDecoder, IcoEncoder};
-use image::{ColorType, DynamicImage, ImageEncoder, ImageError};
+use image::{ColorType, DynamicImage, ImageDecoder, ImageEncoder, ImageError};
 
 use d10_core::color::Rgb;
 use d10_core::errors::ParseEnumError;
-use d10_core::pixelbuffer::PixelBuffer;
+use d10_core::pixelbuffer::{is_valid_buffer_size, PixelBuffer};
 
 use crate::utils::*;
 use crate::{DecodedImage, DecodingError, EncodingError};
@@ -80,6 +80,12 @@ where
         err => DecodingError::Decoding(err.to_string()),
     })?;
 
+    let (width, height) = decoder.dimensions();
+
+    if !is_valid_buffer_size(width, height) {
+        return Err(DecodingError::InvalidBufferSize { width, height });
+    }
+
     let img = DynamicImage::from_decoder(decoder).map_err(|err| match err {
         ImageError::IoError(err) => DecodingError::IoError(err),
         err => DecodingError::Decoding(err.to_string()),
-- 
2.43.0


From b341e54113a4cb4fb6539c38c71455fee481cb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 17/23] fix: decode gif files from memory

The result for damaged files depended on how the data has been split while reading.
---
 d10-codecs/src/gif.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/d10-codecs/src/gif.rs b/d10-codecs/src/gif.rs
index 2a15ced..6faaa51 100644
--- a/d10-codecs/src/gif.rs
+++ b/d10-codecs/src/gif.rs
@@ -55,15 +55,20 @@ fn decode_error(err: GIFDecodingError) -> DecodingError {
     }
 }
 
-pub(crate) fn decode_gif<T>(reader: T) -> Result<DecodedImage, DecodingError>
+pub(crate) fn decode_gif<T>(mut reader: T) -> Result<DecodedImage, DecodingError>
 where
     T: Read + Seek + BufRead,
 {
+    // The result of decoding damaged images depends on the size of the chunks passed to the decoder
+    let mut data = vec![];
+
+    reader.read_to_end(&mut data)?;
+
     let mut decoder = DecodeOptions::new();
 
     decoder.set_color_output(gif::ColorOutput::RGBA);
 
-    let mut decoder = decoder.read_info(reader).map_err(decode_error)?;
+    let mut decoder = decoder.read_info(data.as_slice()).map_err(decode_error)?;
 
     if let Some(frame) = decoder.read_next_frame().map_err(decode_error)? {
         let data = frame
-- 
2.43.0


From 0af64fed4b37f6b0a701d6e4e1aeb2b595875232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 18/23] fix: raise an exception instead of panicking when
 composing an image in use

---
 d10-python/src/image.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 1df7e4f..76cd7eb 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -297,7 +297,10 @@ impl Image {
             .map(|i| i.downcast::<PyCell<Image>>().map_err(|err| err.into()))
             .collect::<PyResult<Vec<_>>>()?;
 
-        let images = images.into_iter().map(|r| r.borrow()).collect::<Vec<_>>();
+        let images = images
+            .into_iter()
+            .map(|r| r.try_borrow().map_err(|err| err.into()))
+            .collect::<PyResult<Vec<_>>>()?;
 
         let images = images.iter().map(|r| &r.inner).collect::<Vec<_>>();
 
-- 
2.43.0


From ef99876c76046a67dbdce5467bbf1db709a8313d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 19/23] fix: do not save bmp images exceeding 65535 pixels

The decoder refuses such files, so they were saved but could not be opened again.
---
 d10-codecs/src/bmp.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/d10-codecs/src/bmp.rs b/d10-codecs/src/bmp.rs
index 0509ce5..3522602 100644
--- a/d10-codecs/src/bmp.rs
+++ b/d10-codecs/src/bmp.rs
@@ -42,11 +42,15 @@ pub(crate) fn encode_bmp<W>(
 where
     W: Write,
 {
-    if buffer.is_empty() {
+    let width = buffer.width();
+    let height = buffer.height();
+
+    // The decoder rejects larger images
+    if buffer.is_empty() || width > u16::MAX as u32 || height > u16::MAX as u32 {
         return Err(EncodingError::BadDimensions {
             format: "bmp",
-            width: buffer.width(),
-            height: buffer.height(),
+            width,
+            height,
         });
     }
 
@@ -64,9 +68,7 @@ where
         BmpColorType::Rgba8 => (to_rgba8_vec(buffer), ColorType::Rgba8),
     };
 
-    if let Err(err) =
-        BmpEncoder::new(&mut w).encode(&out, buffer.width(), buffer.height(), color_type)
-    {
+    if let Err(err) = BmpEncoder::new(&mut w).encode(&out, width, height, color_type) {
         Err(match err {
             ImageError::IoError(err) => EncodingError::IoError(err),
             err => EncodingError::Encoding(err.to_string()),
-- 
2.43.0


From 58009f5319813d11fb515c55b053f435313c2d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:51 +0000
Subject: [PATCH 20/23] fix: keep all transparent pixels transparent when
 saving GIF files

---
 d10-codecs/src/gif.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/d10-codecs/src/gif.rs b/d10-codecs/src/gif.rs
index 6faaa51..d26593c 100644
--- a/d10-codecs/src/gif.rs
+++ b/d10-codecs/src/gif.rs
@@ -38,6 +38,13 @@ where
 
     let mut raw = to_rgba8_vec(buffer);
 
+    // There is only one transparent color in a GIF, so all transparent pixels have to share it
+    for pixel in raw.chunks_exact_mut(4) {
+        if pixel[3] == 0 {
+            pixel.fill(0);
+        }
+    }
+
     let frame = Frame::from_rgba_speed(width, height, &mut raw, 10);
 
     let mut encoder = Encoder::new(w, frame.width, frame.height, &[]).map_err(encode_error)?;
-- 
2.43.0


From 377fa300a7836af58ffd86d1eb2938013e0028a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:28 +0000
Subject: [PATCH 21/23] fix: open GIF files of more than 12.5 million pixels

---
 d10-codecs/src/gif.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/d10-codecs/src/gif.rs b/d10-codecs/src/gif.rs
index d26593c..c25563f 100644
--- a/d10-codecs/src/gif.rs
+++ b/d10-codecs/src/gif.rs
@@ -77,9 +77,22 @@ where
 
     let mut decoder = decoder.read_info(data.as_slice()).map_err(decode_error)?;
 
-    if let Some(frame) = decoder.read_next_frame().map_err(decode_error)? {
-        let data = frame
-            .buffer
+    if let Some(frame) = decoder.next_frame_info().map_err(decode_error)? {
+        let width = frame.width as u32;
+        let height = frame.height as u32;
+
+        if !is_valid_buffer_size(width, height) {
+            return Err(DecodingError::InvalidBufferSize { width, height });
+        }
+
+        // The limit of read_next_frame is below the size of images that can be saved
+        let mut frame_data = vec![0; decoder.buffer_size()];
+
+        decoder
+            .read_into_buffer(&mut frame_data)
+            .map_err(decode_error)?;
+
+        let data = frame_data
             .chunks(4)
             .map(|chunks| {
                 Srgb::new_with_alpha(
@@ -92,13 +105,6 @@ where
             })
             .collect();
 
-        let width = frame.width as u32;
-        let height = frame.height as u32;
-
-        if !is_valid_buffer_size(width, height) {
-            return Err(DecodingError::InvalidBufferSize { width, height });
-        }
-
         let buffer = PixelBuffer::new_from_raw(width, height, data);
 
         Ok(DecodedImage { buffer })
-- 
2.43.0


From 75c67565575dc011a36ae15d6e732c72e0459128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:24 +0000
Subject: [PATCH 22/23] fix: open interlaced GIF files the decoder reported as
 truncated

---
 d10-codecs/src/gif.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/d10-codecs/src/gif.rs b/d10-codecs/src/gif.rs
index c25563f..50487d3 100644
--- a/d10-codecs/src/gif.rs
+++ b/d10-codecs/src/gif.rs
@@ -62,6 +62,21 @@ fn decode_error(err: GIFDecodingError) -> DecodingError {
     }
 }
 
+/// Reorder the rows of the four passes of an interlaced image
+fn deinterlace(data: &[u8], row_len: usize, height: usize) -> Vec<u8> {
+    let mut out = vec![0; data.len()];
+
+    let rows = [(0, 8), (4, 8), (2, 4), (1, 2)]
+        .into_iter()
+        .flat_map(|(start, step)| (start..height).step_by(step));
+
+    for (row, y) in data.chunks(row_len).zip(rows) {
+        out[y * row_len..(y + 1) * row_len].copy_from_slice(row);
+    }
+
+    out
+}
+
 pub(crate) fn decode_gif<T>(mut reader: T) -> Result<DecodedImage, DecodingError>
 where
     T: Read + Seek + BufRead,
@@ -80,6 +95,7 @@ where
     if let Some(frame) = decoder.next_frame_info().map_err(decode_error)? {
         let width = frame.width as u32;
         let height = frame.height as u32;
+        let interlaced = frame.interlaced;
 
         if !is_valid_buffer_size(width, height) {
             return Err(DecodingError::InvalidBufferSize { width, height });
@@ -88,9 +104,14 @@ where
         // The limit of read_next_frame is below the size of images that can be saved
         let mut frame_data = vec![0; decoder.buffer_size()];
 
-        decoder
-            .read_into_buffer(&mut frame_data)
-            .map_err(decode_error)?;
+        // Not using read_into_buffer as it fails for some valid interlaced images
+        if !decoder.fill_buffer(&mut frame_data).map_err(decode_error)? {
+            return Err(DecodingError::Decoding("image truncated".to_owned()));
+        }
+
+        if interlaced {
+            frame_data = deinterlace(&frame_data, width as usize * 4, height as usize);
+        }
 
         let data = frame_data
             .chunks(4)
-- 
2.43.0


From f8b8091e977dc2fa8291bafd32b97f1c6304dc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:26 +0000
Subject: [PATCH 23/23] fix: white in CMYK images is no longer slightly gray

---
 d10-codecs/src/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index 7f75702..341357a 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -329,9 +329,9 @@ pub fn cmyk_to_rgb(c: u8, m: u8, y: u8, k: u8) -> Rgb {
     let y = 255.0 - y as f32;
     let k = 255.0 - k as f32;
 
-    let r = c * k / 65536.0;
-    let g = m * k / 65536.0;
-    let b = y * k / 65536.0;
+    let r = c * k / 65025.0;
+    let g = m * k / 65025.0;
+    let b = y * k / 65025.0;
 
     Srgb::new(r, g, b).to_rgb()
 }
-- 
2.43.0

