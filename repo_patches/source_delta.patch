From 9660fe57cc82ded75fdb8f93c1d3aac9d97bcf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 1/5] fix: LimitedReader::skip checks the limit before
 consuming data

The default Reader::skip() reads 512 byte chunks, so a skip beyond the
limit consumed data from the inner reader before failing.
---
 src/io/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/io/mod.rs b/src/io/mod.rs
index 2c19e58..1445ff1 100644
--- a/src/io/mod.rs
+++ b/src/io/mod.rs
@@ -293,4 +293,13 @@ impl<'a> Reader for LimitedReader<'a> {
         }
         ret
     }
+
+    fn skip(&mut self, count: usize) -> Result<()> {
+        self.can_read(count)?;
+        let ret = self.source.skip(count);
+        if ret.is_ok() {
+            self.available -= count;
+        }
+        ret
+    }
 }
-- 
2.43.0


From 1916bcc4944d35e662e83f749651af971b32ee28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 2/5] fix: SizedSeek::available underflows when positioned past
 the end

---
 src/io/std_io/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index f853b52..3b0a467 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -66,7 +66,7 @@ pub trait SizedSeek {
     fn offset(&mut self) -> Result<u64>;
     /// Returns the number of bytes available for reading.
     fn available(&mut self) -> Result<u64> {
-        Ok(self.len()? - self.offset()?)
+        Ok(self.len()?.saturating_sub(self.offset()?))
     }
 }
 
-- 
2.43.0


From 64eb2eabd9f0a37c0dfa582bacac49a4e6f430f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 3/5] fix: failed skip on a seekable stream moves to the end or
 overflows

The position is restored when there is not enough data to skip, so a
failed attempt does not consume data.
---
 src/io/std_io/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index 3b0a467..0d1c0c5 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -197,12 +197,15 @@ where
             if curr_pos == end_pos {
                 Err(ErrorKind::EndOfData)
             } else {
-                let new_pos = curr_pos + count;
-                if new_pos <= end_pos {
-                    self.seek(std::io::SeekFrom::Start(new_pos))?;
-                    Ok(())
-                } else {
-                    Err(ErrorKind::UnableToReadData)
+                match curr_pos.checked_add(count) {
+                    Some(new_pos) if new_pos <= end_pos => {
+                        self.seek(std::io::SeekFrom::Start(new_pos))?;
+                        Ok(())
+                    }
+                    _ => {
+                        self.seek(std::io::SeekFrom::Start(curr_pos))?;
+                        Err(ErrorKind::UnableToReadData)
+                    }
                 }
             }
         }
-- 
2.43.0


From 965d29cc6247738731200821bdd0765b167f1afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 4/5] fix: BorrowedVecWriter::bytes_written underflows after
 set_offset

The offset may be moved before the initial offset by set_offset().
---
 src/io/array/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/array/mod.rs b/src/io/array/mod.rs
index dfb734f..9b21170 100644
--- a/src/io/array/mod.rs
+++ b/src/io/array/mod.rs
@@ -446,7 +446,7 @@ impl<'a> BorrowedVecWriter<'a> {
 
     /// Returns the number of bytes actually written.
     pub fn bytes_written(&self) -> usize {
-        self.offset - self.initial_offset
+        self.offset.saturating_sub(self.initial_offset)
     }
 }
 
-- 
2.43.0


From 42641301a8b36f39aef3fec8995b773de2386a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 5/5] fix: RawTagScanner offsets assume canonical ILInt
 encodings

The header size was computed from the decoded id and value size instead
of the bytes used by them, thus every offset past a non canonical ILInt
was wrong. Adding a huge value size to the offset also overflowed.
---
 src/tags/raw/mod.rs | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/tags/raw/mod.rs b/src/tags/raw/mod.rs
index 2769d90..d5f50ff 100644
--- a/src/tags/raw/mod.rs
+++ b/src/tags/raw/mod.rs
@@ -221,14 +221,18 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
 
     /// Returns the information about the next tag.
     pub fn next_tag(&mut self) -> Result<Option<RawTagOffset>> {
-        let id: u64 = self.reader.deserialize_ilint()?;
+        let (id, id_size) = self.read_ilint()?;
         let size_info = self.extract_tag_size(id)?;
-        let header_size: u64 = crate::ilint::encoded_size(id) as u64 + size_info.0;
+        let header_size: u64 = id_size + size_info.0;
         let value_size: u64 = size_info.1;
         let bytes_to_skip: u64 = size_info.2;
         let offset = self.offset;
-        self.offset += header_size + value_size;
+        let next_offset = header_size
+            .checked_add(value_size)
+            .and_then(|size| offset.checked_add(size))
+            .ok_or(ErrorKind::TagTooLarge)?;
         self.reader.skip_u64(bytes_to_skip)?;
+        self.offset = next_offset;
         Ok(Some(RawTagOffset {
             id,
             offset,
@@ -272,15 +276,32 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
                 }
             }
         } else {
-            let value_size = self.reader.deserialize_ilint()?;
-            (
-                crate::ilint::encoded_size(value_size) as u64,
-                value_size,
-                value_size,
-            )
+            let (value_size, size_size) = self.read_ilint()?;
+            (size_size, value_size, value_size)
         })
     }
 
+    /// Reads an ILInt from the reader.
+    ///
+    /// Returns (u64, u64) where:
+    /// - 0: The value;
+    /// - 1: The number of bytes used to encode it. It may be larger than
+    ///   the size of the canonical encoding of the value;
+    fn read_ilint(&mut self) -> Result<(u64, u64)> {
+        let header = self.reader.read()?;
+        let size = crate::ilint::decoded_size(header);
+        if size == 1 {
+            return Ok((header as u64, 1));
+        }
+        let mut body = [0u8; 8];
+        let body = &mut body[..size - 1];
+        self.reader.read_all(body)?;
+        match crate::ilint::decode_body(body) {
+            Ok(value) => Ok((value, size as u64)),
+            Err(_) => Err(crate::io::ErrorKind::CorruptedData.into()),
+        }
+    }
+
     /// Extracts the size of an implicit ILInt tag from the reader.
     ///
     /// Returns (u64, u64, u64) where:
-- 
2.43.0

