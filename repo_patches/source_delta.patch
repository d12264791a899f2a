From ed7243e1490ea6acef8cb7294660f7ccd0522c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 01/10] hook: expose BitWriter under cfg(rezip_sim)

---
 lib/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index 3e0d2a8..4741989 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -28,6 +28,10 @@ use more_asserts::assert_le;
 
 use crate::bit::BitVec;
 
+// Hook for the simulation harness: `compressed_block` takes a `BitWriter`, which is otherwise private.
+#[cfg(rezip_sim)]
+pub use crate::bit::BitWriter;
+
 pub use crate::circles::CircularBuffer;
 pub use crate::parse::parse_deflate;
 pub use crate::serialise::compressed_block;
-- 
2.43.0


From 63d4409aa614f3416ad751687dffdb708f9a2d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 02/10] fix: write stored-block lengths in little-endian order

---
 lib/src/bit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/bit.rs b/lib/src/bit.rs
index 5e8bd36..94eeed7 100644
--- a/lib/src/bit.rs
+++ b/lib/src/bit.rs
@@ -163,8 +163,8 @@ impl<W: Write> BitWriter<W> {
 
     pub fn write_aligned_u16(&mut self, val: u16) -> Result<(), Error> {
         self.inner.write_all(&[
-            u8::try_from(val >> 8).expect("bitshift"),
             u8::try_from(val & 0xFF).expect("mask"),
+            u8::try_from(val >> 8).expect("bitshift"),
         ])?;
         Ok(())
     }
-- 
2.43.0


From 72059b2f244561687e8da2418ae9f57174cb7b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 03/10] fix: look a literal up behind the preroll

---
 lib/src/technique.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/technique.rs b/lib/src/technique.rs
index 1fa8a43..4241ad5 100644
--- a/lib/src/technique.rs
+++ b/lib/src/technique.rs
@@ -64,7 +64,7 @@ impl<'a, 'p, 'd> Technique<'a, 'p, 'd> {
     }
 
     pub fn byte_at(&self, pos: usize) -> u8 {
-        self.all_refs.data[pos]
+        self.all_refs.get(pos)
     }
 }
 
-- 
2.43.0


From a331b9b5b661b23571aa048230f5635f76475ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 04/10] fix: keep zero's chunks within the stored-block limit

---
 rezippers/src/zero.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rezippers/src/zero.rs b/rezippers/src/zero.rs
index c728268..9f06e47 100644
--- a/rezippers/src/zero.rs
+++ b/rezippers/src/zero.rs
@@ -15,7 +15,8 @@ const CRC32: Crc<u32> = Crc::<u32>::new(&CRC_32_ISO_HDLC);
 
 const RSYNC_MIN: usize = 1024 * 8;
 const RSYNC_MOD: usize = 1024 * 4;
-const RSYNC_MAX: usize = 1024 * 64;
+/// The longest chunk a single stored block can hold.
+const RSYNC_MAX: usize = 1024 * 64 - 1;
 
 /// Return: empty iff input is empty.
 fn take_rsync<I: Iterator<Item = io::Result<u8>>>(from: &mut I) -> io::Result<Vec<u8>> {
-- 
2.43.0


From c9ff1edf0509a4654e5e9facf59661ef31a510af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 05/10] fix: report a failure to write the last bytes of cat's
 output

---
 rezippers/src/cat.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rezippers/src/cat.rs b/rezippers/src/cat.rs
index 051b0d5..93d9741 100644
--- a/rezippers/src/cat.rs
+++ b/rezippers/src/cat.rs
@@ -1,5 +1,6 @@
 use std::io;
 use std::io::Read;
+use std::io::Write;
 
 use anyhow::Error;
 use librezip;
@@ -17,5 +18,6 @@ pub fn run<R: Read>(mut reader: R) -> Result<(), Error> {
         librezip::decompressed_block(&mut stdout, &mut dictionary, &block?)?;
     }
 
+    stdout.flush()?;
     Ok(())
 }
-- 
2.43.0


From 893adf361243ad71729dc4bc4f7600d63741f7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 06/10] fix: report a failure to write the last bytes of zero's
 output

---
 rezippers/src/zero.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rezippers/src/zero.rs b/rezippers/src/zero.rs
index 9f06e47..6160dad 100644
--- a/rezippers/src/zero.rs
+++ b/rezippers/src/zero.rs
@@ -95,5 +95,6 @@ pub fn run<R: Read>(mut reader: R) -> Result<(), Error> {
 
     writer.write_u32::<LE>(data_csum.finalize())?;
     writer.write_u32::<LE>(data_len)?;
+    writer.flush()?;
     Ok(())
 }
-- 
2.43.0


From fe00b42044239543d7a5c90ed66c78258dcca2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 07/10] fix: list the contents of a full window of the largest
 capacity

---
 lib/src/circles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/circles.rs b/lib/src/circles.rs
index 1fde300..66dac66 100644
--- a/lib/src/circles.rs
+++ b/lib/src/circles.rs
@@ -100,7 +100,7 @@ impl CircularBuffer {
         // TODO: optimise
 
         let mut ret = Vec::with_capacity(usize::from(self.valid_cap));
-        for pos in (1..1 + self.valid_cap).rev() {
+        for pos in (1..=self.valid_cap).rev() {
             ret.push(self.get_at_dist(pos));
         }
 
-- 
2.43.0


From abd212740d4c66cf4443d0e3d73a158e2400029c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 08/10] fix: refuse trace bytes that end inside an entry

---
 lib/src/serialise_trace.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/lib/src/serialise_trace.rs b/lib/src/serialise_trace.rs
index d45725f..d85db9d 100644
--- a/lib/src/serialise_trace.rs
+++ b/lib/src/serialise_trace.rs
@@ -65,12 +65,8 @@ pub fn write(traces: &[Trace]) -> Vec<u8> {
 pub fn read<R: Read>(mut data: R) -> Result<Vec<Trace>, Error> {
     let mut ret = Vec::new();
 
-    loop {
-        let first = match data.read_u16::<LE>() {
-            Ok(first) => first,
-            Err(ref e) if e.kind() == io::ErrorKind::UnexpectedEof => break,
-            Err(e) => bail!(e),
-        };
+    while let Some(low) = read_byte_or_end(&mut data)? {
+        let first = u16::from_le_bytes([low, data.read_u8()?]);
 
         if 0 == first {
             ret.push(Trace::ActuallyLiteral);
@@ -89,6 +85,19 @@ pub fn read<R: Read>(mut data: R) -> Result<Vec<Trace>, Error> {
     Ok(ret)
 }
 
+/// The next byte, or None if the data ends here, which is only fine between entries.
+fn read_byte_or_end<R: Read>(mut data: R) -> Result<Option<u8>, Error> {
+    let mut buf = [0u8; 1];
+    loop {
+        return match data.read(&mut buf) {
+            Ok(0) => Ok(None),
+            Ok(_) => Ok(Some(buf[0])),
+            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
+            Err(e) => bail!(e),
+        };
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::Trace;
-- 
2.43.0


From 4eb43c401154680a7dc9f0235ba67e9085861af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 09/10] fix: end the iteration over blocks after an error

---
 lib/src/parse.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/lib/src/parse.rs b/lib/src/parse.rs
index 75e7394..f5b42e6 100644
--- a/lib/src/parse.rs
+++ b/lib/src/parse.rs
@@ -16,18 +16,18 @@ pub fn parse_deflate<R: Read>(bytes: R) -> BlockIter<R> {
     BlockIter {
         inner: BitReader::new(bytes),
         end: false,
+        failed: false,
     }
 }
 
 pub struct BlockIter<R: Read> {
     inner: BitReader<R>,
     end: bool,
+    failed: bool,
 }
 
-impl<R: Read> Iterator for BlockIter<R> {
-    type Item = Result<Block, Error>;
-
-    fn next(&mut self) -> Option<Self::Item> {
+impl<R: Read> BlockIter<R> {
+    fn next_block(&mut self) -> Option<Result<Block, Error>> {
         if self.end {
             return match self.inner.align() {
                 Ok(()) => None,
@@ -44,6 +44,21 @@ impl<R: Read> Iterator for BlockIter<R> {
     }
 }
 
+impl<R: Read> Iterator for BlockIter<R> {
+    type Item = Result<Block, Error>;
+
+    fn next(&mut self) -> Option<Self::Item> {
+        if self.failed {
+            // the position in the stream is lost
+            return None;
+        }
+
+        let item = self.next_block();
+        self.failed = matches!(item, Some(Err(_)));
+        item
+    }
+}
+
 fn read_block<R: Read>(reader: &mut BitReader<R>) -> Result<Block, Error> {
     match reader.read_part(2)? {
         0 => {
-- 
2.43.0


From e1877ad51d73635f2ec05e62943d0988df0f9795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 10/10] fix: decode zero's input with the library, which
 refuses references before the start

---
 rezippers/src/zero.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/rezippers/src/zero.rs b/rezippers/src/zero.rs
index 6160dad..374ebe3 100644
--- a/rezippers/src/zero.rs
+++ b/rezippers/src/zero.rs
@@ -7,8 +7,8 @@ use byteorder::WriteBytesExt;
 use byteorder::LE;
 use crc::Crc;
 use crc::CRC_32_ISO_HDLC;
-use flate2;
 use librezip;
+use librezip::CircularBuffer;
 
 /// gzip/zlib use the CRC-32/ISO-HDLC variant (the old `crc` crate's `IEEE`).
 const CRC32: Crc<u32> = Crc::<u32>::new(&CRC_32_ISO_HDLC);
@@ -52,11 +52,23 @@ fn take_rsync<I: Iterator<Item = io::Result<u8>>>(from: &mut I) -> io::Result<Ve
     Ok(buf)
 }
 
+/// The bytes of the stream, then the first thing that is wrong with it, if any.
+fn decompressed<R: Read>(reader: R) -> impl Iterator<Item = io::Result<u8>> {
+    let mut dictionary = CircularBuffer::new();
+    librezip::parse_deflate(reader).flat_map(move |block| {
+        let mut data = Vec::new();
+        let err = block
+            .and_then(|block| librezip::decompressed_block(&mut data, &mut dictionary, &block))
+            .err()
+            .map(|e| Err(io::Error::new(io::ErrorKind::InvalidData, e)));
+        data.into_iter().map(Ok).chain(err)
+    })
+}
+
 pub fn run<R: Read>(mut reader: R) -> Result<(), Error> {
     let orig_header = librezip::gzip::discard_header(&mut reader)?;
 
-    let reader = flate2::bufread::DeflateDecoder::new(io::BufReader::new(reader));
-    let mut reader = reader.bytes().peekable();
+    let mut reader = decompressed(io::BufReader::new(reader)).peekable();
     let writer = io::stdout();
     let mut writer = writer.lock();
 
-- 
2.43.0

