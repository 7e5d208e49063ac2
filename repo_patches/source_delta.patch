From 526104215b37b419a5037c45e241e2902bb128dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:41 +0000
Subject: [PATCH 01/10] fix: end member iteration at an unknown member type
 instead of panicking

---
 src/elements.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/elements.rs b/src/elements.rs
index 9d52e10..893c33f 100644
--- a/src/elements.rs
+++ b/src/elements.rs
@@ -492,6 +492,8 @@ impl<'a> Iterator for RelMemberIter<'a> {
         ) {
             (Some(role_sid), Some(mem_id_delta), Some(member_type)) => {
                 self.current_member_id += *mem_id_delta;
+                // A member with an unknown type ends the iteration.
+                member_type.enum_value().ok()?;
                 Some(RelMember {
                     block: self.block,
                     role_sid: *role_sid,
-- 
2.43.0


From 56d6a9af84ba028b9200c27e783ae53aedcab6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:41 +0000
Subject: [PATCH 02/10] fix: stop iterating a memory map after an error

---
 src/mmap_blob.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mmap_blob.rs b/src/mmap_blob.rs
index e07c733..ed8569d 100644
--- a/src/mmap_blob.rs
+++ b/src/mmap_blob.rs
@@ -175,6 +175,7 @@ impl MmapBlobReader<'_> {
     /// ```
     pub fn seek(&mut self, pos: ByteOffset) {
         self.offset = pos.0 as usize;
+        self.last_blob_ok = true;
     }
 }
 
@@ -182,6 +183,11 @@ impl<'a> Iterator for MmapBlobReader<'a> {
     type Item = Result<MmapBlob<'a>>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // Stop iteration if there was an error.
+        if !self.last_blob_ok {
+            return None;
+        }
+
         let slice = &self.mmap.as_slice()[self.offset..];
 
         match slice.len() {
-- 
2.43.0


From 34bd25814764f85624aafbae292aa1b18dde98d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:41 +0000
Subject: [PATCH 03/10] fix: do not panic when seeking beyond the end of a
 memory map

---
 src/mmap_blob.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmap_blob.rs b/src/mmap_blob.rs
index ed8569d..b7700f1 100644
--- a/src/mmap_blob.rs
+++ b/src/mmap_blob.rs
@@ -188,7 +188,7 @@ impl<'a> Iterator for MmapBlobReader<'a> {
             return None;
         }
 
-        let slice = &self.mmap.as_slice()[self.offset..];
+        let slice = self.mmap.as_slice().get(self.offset..)?;
 
         match slice.len() {
             0 => return None,
-- 
2.43.0


From 5f6b56523f7eb163c5fc6451a581521350c7367b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:41 +0000
Subject: [PATCH 04/10] fix: reject a negative blob size in the memory map
 reader

---
 src/mmap_blob.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mmap_blob.rs b/src/mmap_blob.rs
index b7700f1..1773077 100644
--- a/src/mmap_blob.rs
+++ b/src/mmap_blob.rs
@@ -225,6 +225,13 @@ impl<'a> Iterator for MmapBlobReader<'a> {
             }
         };
 
+        if header.datasize() < 0 {
+            self.last_blob_ok = false;
+            let io_error =
+                ::std::io::Error::new(::std::io::ErrorKind::InvalidData, "negative blob size");
+            return Some(Err(io_error.into()));
+        }
+
         let data_size = header.datasize() as usize;
         let chunk_size = 4 + header_size + data_size;
 
-- 
2.43.0


From 1454fd9358368f1011143954243f319a028e5f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:41 +0000
Subject: [PATCH 05/10] fix: reject a negative blob size in the stream reader

---
 src/blob.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/blob.rs b/src/blob.rs
index 92f7328..39cd75c 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -224,6 +224,15 @@ impl<R: Read + Send> BlobReader<R> {
             }
         };
 
+        if header.datasize() < 0 {
+            self.offset = None;
+            self.last_blob_ok = false;
+            return Some(Err(new_error(ErrorKind::Io(::std::io::Error::new(
+                ::std::io::ErrorKind::InvalidData,
+                "negative blob size",
+            )))));
+        }
+
         self.offset = self.offset.map(|x| ByteOffset(x.0 + header_size));
 
         Some(Ok(header))
-- 
2.43.0


From afb608a1d29a984a86a4ca3177d30537162dec3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:41 +0000
Subject: [PATCH 06/10] fix: continue reading after a successful seek, also
 after an earlier error

---
 src/blob.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blob.rs b/src/blob.rs
index 39cd75c..01365cc 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -385,6 +385,7 @@ impl<R: Read + Seek + Send> BlobReader<R> {
         match self.reader.seek(SeekFrom::Start(pos.0)) {
             Ok(offset) => {
                 self.offset = Some(ByteOffset(offset));
+                self.last_blob_ok = true;
                 Ok(())
             }
             Err(e) => {
@@ -399,6 +400,7 @@ impl<R: Read + Seek + Send> BlobReader<R> {
         match self.reader.seek(pos) {
             Ok(offset) => {
                 self.offset = Some(ByteOffset(offset));
+                self.last_blob_ok = true;
                 Ok(offset)
             }
             Err(e) => {
-- 
2.43.0


From 4bf5f855058afe03934325c72a53780900c8d95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:41 +0000
Subject: [PATCH 07/10] fix: report a stream that ends inside of a blob or its
 header

---
 src/blob.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/blob.rs b/src/blob.rs
index 01365cc..e7354d6 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -223,6 +223,14 @@ impl<R: Read + Send> BlobReader<R> {
                 return Some(Err(new_protobuf_error(e, "blob header")));
             }
         };
+        if reader.limit() > 0 {
+            self.offset = None;
+            self.last_blob_ok = false;
+            return Some(Err(new_error(ErrorKind::Io(::std::io::Error::new(
+                ::std::io::ErrorKind::UnexpectedEof,
+                "content too short for header",
+            )))));
+        }
 
         if header.datasize() < 0 {
             self.offset = None;
@@ -294,6 +302,14 @@ impl<R: Read + Send> Iterator for BlobReader<R> {
                 return Some(Err(new_protobuf_error(e, "blob content")));
             }
         };
+        if reader.limit() > 0 {
+            self.offset = None;
+            self.last_blob_ok = false;
+            return Some(Err(new_error(ErrorKind::Io(::std::io::Error::new(
+                ::std::io::ErrorKind::UnexpectedEof,
+                "content too short for block data",
+            )))));
+        }
 
         self.offset = self
             .offset
-- 
2.43.0


From 61f7c29f2d291c4123e65ff6e2d9243bb4257b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:41 +0000
Subject: [PATCH 08/10] fix: report compressed content above the size limit
 instead of cutting it off

---
 src/blob.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/blob.rs b/src/blob.rs
index e7354d6..6ac6001 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -489,7 +489,15 @@ pub(crate) fn decode_blob<T: Message>(blob: &fileformat::Blob) -> Result<T> {
         }
     } else if blob.has_zlib_data() {
         let mut decoder = ZlibDecoder::new(blob.zlib_data()).take(MAX_BLOB_MESSAGE_SIZE);
-        T::parse_from_reader(&mut decoder).map_err(|e| new_protobuf_error(e, "blob zlib data"))
+        let message = T::parse_from_reader(&mut decoder)
+            .map_err(|e| new_protobuf_error(e, "blob zlib data"))?;
+        if decoder.limit() > 0 {
+            Ok(message)
+        } else {
+            // There may be more data than the decoder was allowed to return.
+            let size = MAX_BLOB_MESSAGE_SIZE;
+            Err(new_blob_error(BlobError::MessageTooBig { size }))
+        }
     } else {
         Err(new_blob_error(BlobError::Empty))
     }
-- 
2.43.0


From f4584675a32172e91a498f570cacf9fca28cbf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:41 +0000
Subject: [PATCH 09/10] fix: report a stream that ends inside of a header size

---
 src/blob.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/blob.rs b/src/blob.rs
index 6ac6001..e6cc830 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -187,18 +187,17 @@ impl<R: Read + Send> BlobReader<R> {
     }
 
     fn read_blob_header(&mut self) -> Option<Result<fileformat::BlobHeader>> {
-        let header_size: u64 = match self.reader.read_u32::<byteorder::BigEndian>() {
+        let mut size_reader = self.reader.by_ref().take(4);
+        let header_size: u64 = match size_reader.read_u32::<byteorder::BigEndian>() {
             Ok(n) => {
                 self.offset = self.offset.map(|x| ByteOffset(x.0 + 4));
                 u64::from(n)
             }
             Err(e) => {
+                let at_end = size_reader.limit() == 4;
                 self.offset = None;
                 return match e.kind() {
-                    ::std::io::ErrorKind::UnexpectedEof => {
-                        //TODO This also accepts corrupted files in the case of 1-3 available bytes
-                        None
-                    }
+                    ::std::io::ErrorKind::UnexpectedEof if at_end => None,
                     _ => {
                         self.last_blob_ok = false;
                         Some(Err(new_blob_error(BlobError::InvalidHeaderSize)))
-- 
2.43.0


From a064e5497ae74956ababb93278baf3c28da21129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:41 +0000
Subject: [PATCH 10/10] fix: do not keep a partial index after an error

---
 src/indexed.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/indexed.rs b/src/indexed.rs
index 8168326..eba8076 100644
--- a/src/indexed.rs
+++ b/src/indexed.rs
@@ -151,6 +151,9 @@ impl<R: Read + Seek + Send> IndexedReader<R> {
         // Seek to the beginning of the reader.
         self.reader.seek(ByteOffset(0))?;
 
+        // Keep the index empty until it is complete, so that an error is reported again.
+        let mut index = vec![];
+
         while let Some(result) = self.reader.next_header_skip_blob() {
             let (header, offset) = result?;
             // Reader is seekable, so offset should be Some(ByteOffset)
@@ -161,13 +164,14 @@ impl<R: Read + Seek + Send> IndexedReader<R> {
                 BlobType::Unknown(_) => SimpleBlobType::Unknown,
             };
 
-            self.index.push(BlobInfo {
+            index.push(BlobInfo {
                 offset,
                 blob_type,
                 id_ranges: None,
             });
         }
 
+        self.index = index;
         Ok(())
     }
 
-- 
2.43.0

