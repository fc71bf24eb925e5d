From d4f966487087410aff3627ff9644748054ff002c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 01/10] fix: ILTag::size() takes exponential time on nested
 tags

The default size() called value_size() twice, so each level of nesting
doubled the work needed to compute the size of the innermost tag.
---
 src/tags/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tags/mod.rs b/src/tags/mod.rs
index 58d116c..56a8f36 100644
--- a/src/tags/mod.rs
+++ b/src/tags/mod.rs
@@ -196,11 +196,13 @@ pub trait ILTag: Any + Send + Sync {
 
     /// Returns the total size of the tag in bytes.
     fn size(&self) -> u64 {
+        // value_size() may have to visit all inner tags, so it must be called only once.
+        let value_size = self.value_size();
         let mut size: u64 = encoded_size(self.id()) as u64;
         if !self.is_implicity() {
-            size += encoded_size(self.value_size()) as u64;
+            size += encoded_size(value_size) as u64;
         }
-        size + self.value_size()
+        size + value_size
     }
 
     /// Serializes the payload of this tag.
-- 
2.43.0


From fddb9405ecfb3ba961e28ec2e6d8bd11d8d681e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 02/10] fix: RawTagScanner overflows on a value size close to
 2^64

A malformed header with a huge value size caused an arithmetic overflow
(panic in debug, wrapped offsets in release).
---
 src/tags/raw/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tags/raw/mod.rs b/src/tags/raw/mod.rs
index 2769d90..420acce 100644
--- a/src/tags/raw/mod.rs
+++ b/src/tags/raw/mod.rs
@@ -227,7 +227,13 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
         let value_size: u64 = size_info.1;
         let bytes_to_skip: u64 = size_info.2;
         let offset = self.offset;
-        self.offset += header_size + value_size;
+        self.offset = match header_size
+            .checked_add(value_size)
+            .and_then(|size| offset.checked_add(size))
+        {
+            Some(next_offset) => next_offset,
+            None => return Err(ErrorKind::CorruptedData),
+        };
         self.reader.skip_u64(bytes_to_skip)?;
         Ok(Some(RawTagOffset {
             id,
-- 
2.43.0


From 4453c88622d5442a50f69f5ec77dc3c33c819e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 03/10] fix: RawTagScanner reports wrong offsets for non
 minimal ILInt headers

The size of the header was computed from the values of the id and of the
size instead of from the number of bytes read.
---
 src/tags/raw/mod.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/tags/raw/mod.rs b/src/tags/raw/mod.rs
index 420acce..c76f529 100644
--- a/src/tags/raw/mod.rs
+++ b/src/tags/raw/mod.rs
@@ -41,7 +41,6 @@
 #[cfg(test)]
 mod tests;
 use crate::io::Reader;
-use crate::tags::serialization::*;
 use crate::tags::standard::constants::*;
 use crate::tags::{is_implicit_tag, ErrorKind, Result};
 
@@ -221,9 +220,9 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
 
     /// Returns the information about the next tag.
     pub fn next_tag(&mut self) -> Result<Option<RawTagOffset>> {
-        let id: u64 = self.reader.deserialize_ilint()?;
+        let (id, id_size) = self.read_ilint()?;
         let size_info = self.extract_tag_size(id)?;
-        let header_size: u64 = crate::ilint::encoded_size(id) as u64 + size_info.0;
+        let header_size: u64 = id_size + size_info.0;
         let value_size: u64 = size_info.1;
         let bytes_to_skip: u64 = size_info.2;
         let offset = self.offset;
@@ -259,6 +258,23 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
         }
     }
 
+    /// Reads an ILInt from the reader.
+    ///
+    /// Returns (u64, u64) where:
+    /// - 0: The value;
+    /// - 1: Number of bytes actually used by the ILInt. It may be larger than
+    ///   the size of the minimal encoding of the value;
+    fn read_ilint(&mut self) -> Result<(u64, u64)> {
+        let mut buff: [u8; 9] = [0; 9];
+        buff[0] = self.reader.read()?;
+        let size = crate::ilint::decoded_size(buff[0]);
+        self.reader.read_all(&mut buff[1..size])?;
+        match crate::ilint::decode_from_bytes(&buff[..size]) {
+            Ok((value, _)) => Ok((value, size as u64)),
+            Err(_) => Err(crate::io::ErrorKind::CorruptedData.into()),
+        }
+    }
+
     /// Extracts the size of the tag from the reader.
     ///
     /// Returns (u64, u64, u64) where:
@@ -278,12 +294,8 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
                 }
             }
         } else {
-            let value_size = self.reader.deserialize_ilint()?;
-            (
-                crate::ilint::encoded_size(value_size) as u64,
-                value_size,
-                value_size,
-            )
+            let (value_size, size_size) = self.read_ilint()?;
+            (size_size, value_size, value_size)
         })
     }
 
-- 
2.43.0


From 5071febacc7297c459d624ceadc25dcc84b9ab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 04/10] fix: failed LimitedReader::skip() consumes data from
 the inner reader

The default skip() tested the limit one 512 byte chunk at a time, so a
skip beyond the limit consumed the initial chunks before failing.
---
 src/io/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/io/mod.rs b/src/io/mod.rs
index 2c19e58..1445ff1 100644
--- a/src/io/mod.rs
+++ b/src/io/mod.rs
@@ -293,4 +293,13 @@ impl<'a> Reader for LimitedReader<'a> {
         }
         ret
     }
+
+    fn skip(&mut self, count: usize) -> Result<()> {
+        self.can_read(count)?;
+        let ret = self.source.skip(count);
+        if ret.is_ok() {
+            self.available -= count;
+        }
+        ret
+    }
 }
-- 
2.43.0


From 8219f41b09bb7dd1353643030bd9417cfad0cdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 05/10] fix: skip_u64() over Read + Seek overflows on large
 counts

The new position overflowed (panic in debug, backwards seek in release).
---
 src/io/std_io/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index f853b52..48d89b3 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -197,12 +197,12 @@ where
             if curr_pos == end_pos {
                 Err(ErrorKind::EndOfData)
             } else {
-                let new_pos = curr_pos + count;
-                if new_pos <= end_pos {
-                    self.seek(std::io::SeekFrom::Start(new_pos))?;
-                    Ok(())
-                } else {
-                    Err(ErrorKind::UnableToReadData)
+                match curr_pos.checked_add(count) {
+                    Some(new_pos) if new_pos <= end_pos => {
+                        self.seek(std::io::SeekFrom::Start(new_pos))?;
+                        Ok(())
+                    }
+                    _ => Err(ErrorKind::UnableToReadData),
                 }
             }
         }
-- 
2.43.0


From f70b1ca848a1284fb334a332531f8c7b3b53cec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 06/10] fix: failed skip_u64() over Read + Seek moves the
 stream to its end

---
 src/io/std_io/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index 48d89b3..220744a 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -202,7 +202,11 @@ where
                         self.seek(std::io::SeekFrom::Start(new_pos))?;
                         Ok(())
                     }
-                    _ => Err(ErrorKind::UnableToReadData),
+                    _ => {
+                        // All or nothing. Restore the original position.
+                        self.seek(std::io::SeekFrom::Start(curr_pos))?;
+                        Err(ErrorKind::UnableToReadData)
+                    }
                 }
             }
         }
-- 
2.43.0


From 6333fac0f61781fc171d11960b310b9608d73907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 07/10] fix: SizedSeek::available() underflows when positioned
 past the end

---
 src/io/std_io/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index 220744a..c218e36 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -66,7 +66,7 @@ pub trait SizedSeek {
     fn offset(&mut self) -> Result<u64>;
     /// Returns the number of bytes available for reading.
     fn available(&mut self) -> Result<u64> {
-        Ok(self.len()? - self.offset()?)
+        Ok(self.len()?.saturating_sub(self.offset()?))
     }
 }
 
-- 
2.43.0


From 36dd15e78c53a5040879b52f67964de1bade75a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 08/10] fix: BorrowedVecWriter::bytes_written() underflows

set_offset() may move the offset to before the initial offset.
---
 src/io/array/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/array/mod.rs b/src/io/array/mod.rs
index dfb734f..9b21170 100644
--- a/src/io/array/mod.rs
+++ b/src/io/array/mod.rs
@@ -446,7 +446,7 @@ impl<'a> BorrowedVecWriter<'a> {
 
     /// Returns the number of bytes actually written.
     pub fn bytes_written(&self) -> usize {
-        self.offset - self.initial_offset
+        self.offset.saturating_sub(self.initial_offset)
     }
 }
 
-- 
2.43.0


From 912a7501cff417430ed176f104f431b4aca8ba8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 09/10] fix: WriteWriter fails on short or interrupted writes

std::io::Write::write() may write less bytes than requested or return
ErrorKind::Interrupted. Both are not errors.
---
 src/io/std_io/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index c218e36..0b59c7b 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -143,17 +143,17 @@ impl<'a> WriteWriter<'a> {
 impl<'a> Writer for WriteWriter<'a> {
     fn write(&mut self, value: u8) -> Result<()> {
         let tmp: [u8; 1] = [value];
-        match self.dest.write(&tmp) {
-            Ok(1) => Ok(()),
-            Ok(_) => Err(ErrorKind::UnableToWriteData),
-            Err(e) => Err(ErrorKind::IOError(e)),
-        }
+        self.write_all(&tmp)
     }
 
     fn write_all(&mut self, buff: &[u8]) -> Result<()> {
-        match self.dest.write(&buff) {
-            Ok(n) if n == buff.len() => Ok(()),
-            Ok(_) => Err(ErrorKind::UnableToWriteData),
+        // Write::write() is allowed to write less than requested or to be
+        // interrupted, so it cannot be used here.
+        match self.dest.write_all(buff) {
+            Ok(()) => Ok(()),
+            Err(e) if e.kind() == std::io::ErrorKind::WriteZero => {
+                Err(ErrorKind::UnableToWriteData)
+            }
             Err(e) => Err(ErrorKind::IOError(e)),
         }
     }
-- 
2.43.0


From 69b1bf371484a59823e5674328da921e57e497a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 10/10] fix: array tags reserve up to 8GB of memory for a tiny
 input

The number of entries was only limited by the declared value size, so a
few bytes were enough to request 512M entries, which may abort the process.
---
 src/tags/standard/explicit/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/tags/standard/explicit/mod.rs b/src/tags/standard/explicit/mod.rs
index ce92b0a..9540813 100644
--- a/src/tags/standard/explicit/mod.rs
+++ b/src/tags/standard/explicit/mod.rs
@@ -98,6 +98,18 @@ macro_rules! std_byte_array_tag_func_impl {
     };
 }
 
+/// Maximum number of entries reserved in advance by the deserialization of arrays.
+const MAX_INITIAL_CAPACITY: u64 = 1024;
+
+/// Returns the initial capacity to be reserved for the given number of entries.
+///
+/// The number of entries comes from the data stream and cannot be trusted before
+/// the entries are actually read, so it must not define the amount of memory to be
+/// allocated by itself.
+fn initial_capacity(count: u64) -> usize {
+    std::cmp::min(count, MAX_INITIAL_CAPACITY) as usize
+}
+
 //=============================================================================
 // ILByteArrayTag
 //-----------------------------------------------------------------------------
@@ -534,7 +546,7 @@ impl ILTag for ILILIntArrayTag {
             return Err(ErrorKind::CorruptedData);
         }
         self.value.clear();
-        self.value.reserve(count as usize);
+        self.value.reserve(initial_capacity(count));
         for _i in 0..count {
             self.value.push(lreader.deserialize_ilint()?);
         }
@@ -686,7 +698,7 @@ impl ILTag for ILTagArrayTag {
             return Err(ErrorKind::CorruptedData);
         }
         self.inner.value.clear();
-        self.inner.value.reserve(count as usize);
+        self.inner.value.reserve(initial_capacity(count));
         for _i in 0..count {
             self.inner.value.push(factory.deserialize(&mut lreader)?);
         }
-- 
2.43.0

