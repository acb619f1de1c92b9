From 635aecdabc660091f366a86d49335a9b351617b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 1/7] fix: do not replay stale bytes when reading is retried
 after an I/O error

BufferedReader reset its position before the read that may fail, which made
the already consumed contents of the buffer available again.
---
 src/input.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 4ec5b7d..1706b10 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -133,8 +133,8 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
     fn read_u8(&mut self) -> io::Result<u8> {
         if self.pos == self.num_valid {
             // The buffer was depleted, replenish it first.
-            self.pos = 0;
             self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+            self.pos = 0;
 
             if self.num_valid == 0 {
                 return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
@@ -153,8 +153,8 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
     fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> {
         if self.pos == self.num_valid {
             // The buffer was depleted, try to replenish it first.
-            self.pos = 0;
             self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+            self.pos = 0;
 
             if self.num_valid == 0 {
                 return Ok(None);
@@ -177,8 +177,8 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
 
             if bytes_left > 0 {
                 // Replenish the buffer if there is more to be read.
-                self.pos = 0;
                 self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+                self.pos = 0;
                 if self.num_valid == 0 {
                     return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
                                               "Expected more bytes."))
@@ -198,8 +198,8 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
 
             if amount > 0 {
                 // If there is more to skip, refill the buffer first.
-                self.pos = 0;
                 self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+                self.pos = 0;
 
                 if self.num_valid == 0 {
                     return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
-- 
2.43.0


From 85c0d87c5390f3ff37cdcbae4735acd8d010f379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 2/7] fix: report a stream that ends inside of the sync code as
 truncated

A single byte after the last frame was silently dropped and reported as a
clean end of stream.
---
 src/input.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 1706b10..ee5273d 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -93,9 +93,9 @@ pub trait ReadBytes {
     /// Reads two bytes and interprets them as a big-endian 16-bit unsigned integer.
     fn read_be_u16_or_eof(&mut self) -> io::Result<Option<u16>> {
         if let Some(b0) = try!(self.read_u8_or_eof()) {
-            if let Some(b1) = try!(self.read_u8_or_eof()) {
-                return Ok(Some((b0 as u16) << 8 | (b1 as u16)));
-            }
+            // Having read one byte, we are past the point where EOF is fine.
+            let b1 = try!(self.read_u8());
+            return Ok(Some((b0 as u16) << 8 | (b1 as u16)));
         }
         Ok(None)
     }
-- 
2.43.0


From 9228a6467316a8f9614f528d1d5df8b23da30147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 3/7] fix: do not read past the last desired metadata block

With metadata_only set and read_vorbis_comment unset, one block after the
streaminfo block was read nonetheless, and errors in it were reported.
---
 src/lib.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b94ee64..1a6a9a2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -250,7 +250,12 @@ impl<R: io::Read> FlacReader<R> {
             let mut vorbis_comment = None;
 
             // There might be more metadata blocks, read and store them.
-            for block_result in metadata_iter {
+            // Stop early once all desired blocks have been collected.
+            while opts_current.has_desired_blocks() {
+                let block_result = match metadata_iter.next() {
+                    Some(block_result) => block_result,
+                    None => break,
+                };
                 match try!(block_result) {
                     MetadataBlock::VorbisComment(vc) => {
                         // The Vorbis comment block need not be present, but
@@ -270,12 +275,6 @@ impl<R: io::Read> FlacReader<R> {
                     // Other blocks are currently not handled.
                     _block => {}
                 }
-
-                // Early-out reading metadata once all desired blocks have been
-                // collected.
-                if !opts_current.has_desired_blocks() {
-                    break
-                }
             }
 
             // TODO: Rather than discarding afterwards, never parse it in the
-- 
2.43.0


From aead73c217b9bfc8fea0034b3d7450ad856b47ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 4/7] fix: reject 0xff as the first byte of a variable-length
 integer

The coded sample number has at most 36 bits, in seven bytes.
---
 src/frame.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 9c06852..4bded28 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -76,9 +76,10 @@ fn read_var_length_int<R: ReadBytes>(input: &mut R) -> Result<u64> {
         mask_mark = mask_mark >> 1;
     }
 
-    // A single leading 1 is a follow-up byte and thus invalid.
+    // A single leading 1 is a follow-up byte and thus invalid. Eight leading 1s
+    // would be the start of a 42-bit integer, which the format does not have.
     if read_additional > 0 {
-        if read_additional == 1 {
+        if read_additional == 1 || read_additional == 8 {
             return fmt_err("invalid variable-length integer");
         } else {
             // The number of 1s (if > 1) is the total number of bytes, not the
-- 
2.43.0


From 3d17412795b6598ec3b870675a04ea1d3142ab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 5/7] fix: do not overflow on 2^32 or more zero bits in a unary
 code

---
 src/input.rs    | 4 +++-
 src/subframe.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index ee5273d..400e2e0 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -497,7 +497,9 @@ impl<R: ReadBytes> Bitstream<R> {
             loop {
                 let fresh_byte = try!(self.reader.read_u8());
                 let zeros = fresh_byte.leading_zeros();
-                n = n + zeros;
+                // More zeros than fit are never valid, there is no need to be
+                // exact about how many there were.
+                n = n.saturating_add(zeros);
                 if zeros < 8 {
                     // We consumed the zeros, plus the one following it.
                     self.bits_left = 8 - (zeros + 1);
diff --git a/src/subframe.rs b/src/subframe.rs
index 06c637b..cbe01eb 100644
--- a/src/subframe.rs
+++ b/src/subframe.rs
@@ -73,7 +73,7 @@ fn read_subframe_header<R: ReadBytes>(input: &mut Bitstream<R>) -> Result<Subfra
     let wasted_bits = if !wastes_bits {
         0
     } else {
-        1 + try!(input.read_unary())
+        try!(input.read_unary()).saturating_add(1)
     };
 
     // The spec puts no bounds on the number of wasted bits per sample, but more
-- 
2.43.0


From edbbc7184a589e20d3ff9d7d184b72907fc3612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 6/7] fix: compute the time of a short last block from the
 stream's block size

The time of a block in a stream with fixed block size is its frame number
times the block size of the stream. The last frame is usually shorter than
that, but its own size was used, which made its time too early.
---
 Cargo.lock   | 74 +++++++++++++++++++++++++++-------------------------
 src/frame.rs | 21 ++++++++++++++-
 src/lib.rs   | 16 +++++++++---
 3 files changed, 71 insertions(+), 40 deletions(-)

diff --git a/Cargo.lock b/Cargo.lock
index 56aa924..7a3a8f1 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -1,123 +1,125 @@
+# This file is automatically @generated by Cargo.
+# It is not intended for manual editing.
+version = 4
+
 [[package]]
 name = "bitreader"
 version = "0.3.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "a13e712f6e04f0e507a913abf5e008ba2a342ec26d9fac34ba0766bd77ced5b8"
 
 [[package]]
 name = "byteorder"
 version = "1.1.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ff81738b726f5d099632ceaffe7fb65b90212e8dce59d518729e7e8634032d3d"
 
 [[package]]
 name = "claxon"
 version = "0.4.3"
 dependencies = [
- "hound 3.3.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "mp4parse 0.8.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "ogg 0.5.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "time 0.1.38 (registry+https://github.com/rust-lang/crates.io-index)",
- "walkdir 1.0.7 (registry+https://github.com/rust-lang/crates.io-index)",
+ "hound",
+ "mp4parse",
+ "ogg",
+ "time",
+ "walkdir",
 ]
 
 [[package]]
 name = "hound"
 version = "3.3.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "2fce9b1b615fbfc7e0f91609d4d37cbad1df43cd6e2b25b0d09bb1f38eef1be9"
 
 [[package]]
 name = "kernel32-sys"
 version = "0.2.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7507624b29483431c0ba2d82aece8ca6cdba9382bff4ddd0f7490560c056098d"
 dependencies = [
- "winapi 0.2.8 (registry+https://github.com/rust-lang/crates.io-index)",
- "winapi-build 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "winapi",
+ "winapi-build",
 ]
 
 [[package]]
 name = "libc"
 version = "0.2.30"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "2370ca07ec338939e356443dac2296f581453c35fe1e3a3ed06023c49435f915"
 
 [[package]]
 name = "mp4parse"
 version = "0.8.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "99942c1e9fa8b6fc9b63c6eb65bc6d442df3bcd8b8889de5b436f5527fd81adf"
 dependencies = [
- "bitreader 0.3.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "byteorder 1.1.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "num-traits 0.1.40 (registry+https://github.com/rust-lang/crates.io-index)",
+ "bitreader",
+ "byteorder",
+ "num-traits",
 ]
 
 [[package]]
 name = "num-traits"
 version = "0.1.40"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "99843c856d68d8b4313b03a17e33c4bb42ae8f6610ea81b28abe076ac721b9b0"
 
 [[package]]
 name = "ogg"
 version = "0.5.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "3f8de5433300a8a0ba60a3207766a3ce9efdede6aaab23311b5a8cf1664fe2e9"
 dependencies = [
- "byteorder 1.1.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "byteorder",
 ]
 
 [[package]]
 name = "redox_syscall"
 version = "0.1.31"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "8dde11f18c108289bef24469638a04dce49da56084f2d50618b226e47eb04509"
 
 [[package]]
 name = "same-file"
 version = "0.1.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d931a44fdaa43b8637009e7632a02adc4f2b2e0733c08caa4cf00e8da4a117a7"
 dependencies = [
- "kernel32-sys 0.2.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "winapi 0.2.8 (registry+https://github.com/rust-lang/crates.io-index)",
+ "kernel32-sys",
+ "winapi",
 ]
 
 [[package]]
 name = "time"
 version = "0.1.38"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d5d788d3aa77bc0ef3e9621256885555368b47bd495c13dd2e7413c89f845520"
 dependencies = [
- "kernel32-sys 0.2.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "libc 0.2.30 (registry+https://github.com/rust-lang/crates.io-index)",
- "redox_syscall 0.1.31 (registry+https://github.com/rust-lang/crates.io-index)",
- "winapi 0.2.8 (registry+https://github.com/rust-lang/crates.io-index)",
+ "kernel32-sys",
+ "libc",
+ "redox_syscall",
+ "winapi",
 ]
 
 [[package]]
 name = "walkdir"
 version = "1.0.7"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "bb08f9e670fab86099470b97cd2b252d6527f0b3cc1401acdb595ffc9dd288ff"
 dependencies = [
- "kernel32-sys 0.2.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "same-file 0.1.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "winapi 0.2.8 (registry+https://github.com/rust-lang/crates.io-index)",
+ "kernel32-sys",
+ "same-file",
+ "winapi",
 ]
 
 [[package]]
 name = "winapi"
 version = "0.2.8"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "167dc9d6949a9b857f3451275e911c3f44255842c1f7a76f33c55103a909087a"
 
 [[package]]
 name = "winapi-build"
 version = "0.1.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-
-[metadata]
-"checksum bitreader 0.3.1 (registry+https://github.com/rust-lang/crates.io-index)" = "a13e712f6e04f0e507a913abf5e008ba2a342ec26d9fac34ba0766bd77ced5b8"
-"checksum byteorder 1.1.0 (registry+https://github.com/rust-lang/crates.io-index)" = "ff81738b726f5d099632ceaffe7fb65b90212e8dce59d518729e7e8634032d3d"
-"checksum hound 3.3.0 (registry+https://github.com/rust-lang/crates.io-index)" = "2fce9b1b615fbfc7e0f91609d4d37cbad1df43cd6e2b25b0d09bb1f38eef1be9"
-"checksum kernel32-sys 0.2.2 (registry+https://github.com/rust-lang/crates.io-index)" = "7507624b29483431c0ba2d82aece8ca6cdba9382bff4ddd0f7490560c056098d"
-"checksum libc 0.2.30 (registry+https://github.com/rust-lang/crates.io-index)" = "2370ca07ec338939e356443dac2296f581453c35fe1e3a3ed06023c49435f915"
-"checksum mp4parse 0.8.0 (registry+https://github.com/rust-lang/crates.io-index)" = "99942c1e9fa8b6fc9b63c6eb65bc6d442df3bcd8b8889de5b436f5527fd81adf"
-"checksum num-traits 0.1.40 (registry+https://github.com/rust-lang/crates.io-index)" = "99843c856d68d8b4313b03a17e33c4bb42ae8f6610ea81b28abe076ac721b9b0"
-"checksum ogg 0.5.1 (registry+https://github.com/rust-lang/crates.io-index)" = "3f8de5433300a8a0ba60a3207766a3ce9efdede6aaab23311b5a8cf1664fe2e9"
-"checksum redox_syscall 0.1.31 (registry+https://github.com/rust-lang/crates.io-index)" = "8dde11f18c108289bef24469638a04dce49da56084f2d50618b226e47eb04509"
-"checksum same-file 0.1.3 (registry+https://github.com/rust-lang/crates.io-index)" = "d931a44fdaa43b8637009e7632a02adc4f2b2e0733c08caa4cf00e8da4a117a7"
-"checksum time 0.1.38 (registry+https://github.com/rust-lang/crates.io-index)" = "d5d788d3aa77bc0ef3e9621256885555368b47bd495c13dd2e7413c89f845520"
-"checksum walkdir 1.0.7 (registry+https://github.com/rust-lang/crates.io-index)" = "bb08f9e670fab86099470b97cd2b252d6527f0b3cc1401acdb595ffc9dd288ff"
-"checksum winapi 0.2.8 (registry+https://github.com/rust-lang/crates.io-index)" = "167dc9d6949a9b857f3451275e911c3f44255842c1f7a76f33c55103a909087a"
-"checksum winapi-build 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)" = "2d315eee3b34aca4797b2da6b13ed88266e6d612562a0c46390af8299fc699bc"
+checksum = "2d315eee3b34aca4797b2da6b13ed88266e6d612562a0c46390af8299fc699bc"
diff --git a/src/frame.rs b/src/frame.rs
index 4bded28..46a4d70 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -603,6 +603,9 @@ fn verify_block_stereo_samples_iterator() {
 /// no searching for a sync code is performed at the moment.
 pub struct FrameReader<R: ReadBytes> {
     input: R,
+
+    /// The block size of the stream, if it is known to be fixed.
+    fixed_block_size: Option<u16>,
 }
 
 /// Either a `Block` or an `Error`.
@@ -653,6 +656,19 @@ impl<R: ReadBytes> FrameReader<R> {
     pub fn new(input: R) -> FrameReader<R> {
         FrameReader {
             input: input,
+            fixed_block_size: None,
+        }
+    }
+
+    /// Creates a frame reader for a stream with the given, fixed block size.
+    ///
+    /// A frame in such a stream stores its frame number instead of its time.
+    /// The last frame may be smaller than the others, so knowing the block size
+    /// of the stream is required to compute the time of that frame.
+    pub fn with_block_size(input: R, block_size: u16) -> FrameReader<R> {
+        FrameReader {
+            input: input,
+            fixed_block_size: Some(block_size),
         }
     }
 
@@ -770,7 +786,10 @@ impl<R: ReadBytes> FrameReader<R> {
         // TODO: constant block size should be verified if a frame number is
         // encountered.
         let time = match header.block_time {
-            BlockTime::FrameNumber(fnr) => header.block_size as u64 * fnr as u64,
+            BlockTime::FrameNumber(fnr) => {
+                let block_size = self.fixed_block_size.unwrap_or(header.block_size);
+                block_size as u64 * fnr as u64
+            }
             BlockTime::SampleNumber(snr) => snr,
         };
 
diff --git a/src/lib.rs b/src/lib.rs
index 1a6a9a2..7b43b7d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -204,6 +204,16 @@ fn read_stream_header<R: ReadBytes>(input: &mut R) -> Result<()> {
     }
 }
 
+/// Constructs a frame reader for the frames that follow the metadata.
+fn new_frame_reader<R: ReadBytes>(input: R, streaminfo: &StreamInfo) -> FrameReader<R> {
+    // The block size is fixed if the bounds on it are equal.
+    if streaminfo.min_block_size == streaminfo.max_block_size {
+        FrameReader::with_block_size(input, streaminfo.max_block_size)
+    } else {
+        FrameReader::new(input)
+    }
+}
+
 impl<R: io::Read> FlacReader<R> {
     /// Create a reader that reads the FLAC format.
     ///
@@ -365,7 +375,7 @@ impl<R: io::Read> FlacReader<R> {
     /// the FLAC format. For a higher-level interface, see `samples()`.
     pub fn blocks<'r>(&'r mut self) -> FrameReader<&'r mut BufferedReader<R>> {
         match self.input {
-            FlacReaderState::Full(ref mut inp) => FrameReader::new(inp),
+            FlacReaderState::Full(ref mut inp) => new_frame_reader(inp, &self.streaminfo),
             FlacReaderState::MetadataOnly(..) =>
                 panic!("FlacReaderOptions::metadata_only must be false \
                        to be able to use FlacReader::blocks()"),
@@ -396,7 +406,7 @@ impl<R: io::Read> FlacReader<R> {
         match self.input {
             FlacReaderState::Full(ref mut inp) => {
                 FlacSamples {
-                    frame_reader: frame::FrameReader::new(inp),
+                    frame_reader: new_frame_reader(inp, &self.streaminfo),
                     block: Block::empty(),
                     sample: 0,
                     channel: 0,
@@ -418,7 +428,7 @@ impl<R: io::Read> FlacReader<R> {
             FlacReaderState::Full(inp) => {
                 FlacIntoSamples {
                     inner: FlacSamples {
-                        frame_reader: frame::FrameReader::new(inp),
+                        frame_reader: new_frame_reader(inp, &self.streaminfo),
                         block: Block::empty(),
                         sample: 0,
                         channel: 0,
-- 
2.43.0


From 091952a186731ae8584839161dd98c80fad9b4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:49 +0000
Subject: [PATCH 7/7] fix: do not overflow when a cursor is positioned far past
 its end

---
 src/input.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 400e2e0..81bfc7b 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -255,7 +255,9 @@ impl<T: AsRef<[u8]>> ReadBytes for io::Cursor<T> {
 
     fn read_into(&mut self, buffer: &mut [u8]) -> io::Result<()> {
         let pos = self.position();
-        if pos + buffer.len() as u64 <= self.get_ref().as_ref().len() as u64 {
+        let len = self.get_ref().as_ref().len() as u64;
+        // The cursor may be anywhere, take care not to overflow when adding.
+        if pos <= len && buffer.len() as u64 <= len - pos {
             let start = pos as usize;
             let end = pos as usize + buffer.len();
             buffer.copy_from_slice(&self.get_ref().as_ref()[start..end]);
@@ -268,7 +270,8 @@ impl<T: AsRef<[u8]>> ReadBytes for io::Cursor<T> {
 
     fn skip(&mut self, amount: u32) -> io::Result<()> {
         let pos = self.position();
-        if pos + amount as u64 <= self.get_ref().as_ref().len() as u64 {
+        let len = self.get_ref().as_ref().len() as u64;
+        if pos <= len && amount as u64 <= len - pos {
             self.set_position(pos + amount as u64);
             Ok(())
         } else {
-- 
2.43.0

