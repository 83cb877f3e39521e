From 5781e95c70071592146253b99dc134b7b26eb10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 01/19] fix: message type info is the upper four bits of the
 message info byte

The mask was 0x15 << 4, which does not fit into the byte and keeps only bits 4
and 6: fatal and warn decoded alike, error decoded as nothing.
---
 rapiddlt/src/dlt_v1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index 68d285d..bf14e1b 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -204,7 +204,7 @@ pub enum DltControlMessageTypeInfo {
 enum DltMessageInfoMask {
     Verbose = 0x1,
     MessageType = 0x7 << 1,
-    MessageTypeInfo = 0x15 << 4,
+    MessageTypeInfo = 0xf << 4,
 }
 
 #[derive(AsBytes,FromBytes,FromZeroes)]
-- 
2.43.0


From 7b047f9fb7a686099e1831b45f1aafccf4bdd704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 02/19] fix: encode the message type, not an address

`DltMessageType::DltTypeLog as u8` casts the variant's constructor function to
u8: the low byte of a code address ended up in the message type bits.
---
 rapiddlt/src/dlt_v1.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index bf14e1b..bfc843c 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -239,19 +239,19 @@ impl MessageType {
         }
         match typ {
             DltMessageType::DltTypeLog(mtin) => {
-                msin |= ((DltMessageType::DltTypeLog as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x0 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
             DltMessageType::DltTypeAppTrace(mtin) => {
-                msin |= ((DltMessageType::DltTypeAppTrace as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x1 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
             DltMessageType::DltTypeNwTrace(mtin) => {
-                msin |= ((DltMessageType::DltTypeNwTrace as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x2 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
             DltMessageType::DltTypeControl(mtin) => {
-                msin |= ((DltMessageType::DltTypeControl as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x3 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
         }
-- 
2.43.0


From 6bdcbf89ebe9499bd20e2c724d9f4c34bbeea53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 03/19] fix: DltStorageEntry::max_len has to include the
 storage header

---
 rapiddlt/src/dlt_v1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index bfc843c..9a61dc8 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -331,7 +331,7 @@ impl<'bytes> FromBytesReadableTrait<'bytes> for DltStorageEntry<'bytes> {
     }
 
     fn max_len() -> usize {
-        u16::MAX as usize
+        u16::MAX as usize + DltStorageHeader::size()
     }
 }
 
-- 
2.43.0


From 9ee8f0a1fb64f822c701b3353284c5d4bfc1ab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 04/19] fix: do not panic on messages that end within their
 optional header fields

A message whose length field leaves no room for the fields its header type
announces made ecu_id(), extended_header() and payload() panic.
---
 rapiddlt/src/dlt_v1.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index 9a61dc8..592b2fa 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -345,7 +345,7 @@ impl<'bytes> DltEntry<'bytes> {
     #[inline(always)]
     pub fn ecu_id(&self) -> Option<u32> {
         if self.header.header_type.is_with_ecu_id() {
-            Some(U32::ref_from_prefix(&self.tail[..4])?.get())
+            Some(U32::ref_from_prefix(self.tail)?.get())
         } else {
             None
         }
@@ -385,7 +385,7 @@ impl<'bytes> DltEntry<'bytes> {
         if self.header.header_type.is_with_timestamp() {
             offset += 4;
         }
-        DltExtendedHeader::ref_from_prefix(&self.tail[offset..])
+        DltExtendedHeader::ref_from_prefix(self.tail.get(offset..)?)
     }
 
     #[inline(always)]
@@ -401,7 +401,7 @@ impl<'bytes> DltEntry<'bytes> {
             offset += 4;
         }
         if self.header.header_type.is_extended_header() {
-            DltExtendedHeader::ref_from_prefix(&self.tail[offset..])?;
+            DltExtendedHeader::ref_from_prefix(self.tail.get(offset..)?)?;
             offset += DltExtendedHeader::size();
         }
         if offset > self.tail.len() {
-- 
2.43.0


From c634d7af3fc9d1879b9b31c3892898c0c1a6d46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 05/19] fix: ReadFallbackIterator stopped at the first
 corrupted T

A marker that is not followed by a complete T ended the iteration, all valid Ts
behind it were lost. Continue the search for markers behind it.
---
 matchit/src/searchable/readfallbackit.rs | 42 ++++++++----------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/matchit/src/searchable/readfallbackit.rs b/matchit/src/searchable/readfallbackit.rs
index 90e0836..ff85bfd 100644
--- a/matchit/src/searchable/readfallbackit.rs
+++ b/matchit/src/searchable/readfallbackit.rs
@@ -45,38 +45,24 @@ impl<'bytes, T> Iterator for ReadFallbackIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<WithOffset<T>> {
-        if self.offset + T::marker().len() >= self.bytes.len() {
-            return None
-        }
-        if &self.bytes[self.offset..self.offset+T::marker().len()] == T::marker() {
-            // a valid T at offset
-            match T::try_read_valid_marker(&self.bytes[self.offset..]) {
-                Some((bytes_read, val)) => {
+        loop {
+            // there need to be bytes behind the marker
+            if self.offset >= self.bytes.len() || self.bytes.len() - self.offset <= T::marker().len() {
+                return None
+            }
+            if &self.bytes[self.offset..self.offset+T::marker().len()] == T::marker() {
+                // a valid T at offset
+                if let Some((bytes_read, val)) = T::try_read_valid_marker(&self.bytes[self.offset..]) {
                     let _off = self.offset;
                     self.offset += bytes_read;
-                    Some((_off, val))
-                },
-                None => {
-                    None
+                    return Some((_off, val))
                 }
-            }
-        } else {
+                // a marker without a valid T, continue behind it
+                self.offset += T::marker().len();
+            } else {
                 // no valid T at offset, searching for a marker
-                match search_marker::<T>(&self.bytes[self.offset..]) {
-                    Some(position) => {
-                        if position == 0 {
-                            // a match with offset = 0 indicates a slice starting with a valid marker
-                            // without containing a valid result
-                            None
-                        } else {
-                            self.offset += position;
-                            self.next()
-                        }
-                    }
-                    None => {
-                        None
-                    },
-                }
+                self.offset += search_marker::<T>(&self.bytes[self.offset..])?;
+            }
         }
     }
 }
-- 
2.43.0


From d76a9902c06eb661e6735d28b6ce1e9f056a3d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 06/19] fix: stack overflow of SearchIterator and
 RevSearchIterator on raw data

Both recursed once per marker length of data without a valid T: about 1 MB of it
was enough to abort the process.
---
 matchit/src/searchable/searchit.rs | 50 +++++++++++++++++-------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/matchit/src/searchable/searchit.rs b/matchit/src/searchable/searchit.rs
index e543534..bc5fb6e 100644
--- a/matchit/src/searchable/searchit.rs
+++ b/matchit/src/searchable/searchit.rs
@@ -51,17 +51,20 @@ impl<'bytes, T> Iterator for SearchIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        match self.search(self.bytes, self.offset) {
-            Some((offset, t)) => {
-                self.offset = offset + t.len();
-                Some((offset, t))
+        loop {
+            if self.offset >= self.bytes.len() {
+                return None
             }
-            None => {
-                self.offset += T::marker().len();
-                if self.offset >= self.bytes.len() {
-                    return None
+            match self.search(self.bytes, self.offset) {
+                Some((offset, t)) => {
+                    self.offset = offset + t.len();
+                    return Some((offset, t))
+                }
+                None => {
+                    // continue behind a marker without a valid T
+                    let candidate = self.finder.find(&self.bytes[self.offset..])?;
+                    self.offset += candidate + T::marker().len();
                 }
-                self.next()
             }
         }
     }
@@ -107,20 +110,25 @@ impl<'bytes, T> Iterator for RevSearchIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        match self.search(self.bytes, self.offset) {
-            Some((offset, t)) => {
-                self.offset = offset;
-                Some((self.offset, t))
+        loop {
+            if self.offset == usize::MAX {
+                return None
+            }
+            if self.offset > self.bytes.len() {
+                self.offset = self.bytes.len();
             }
-            None => {
-                match self.offset.checked_sub(T::marker().len()) {
-                    Some(sub) => self.offset = sub,
-                    None => self.offset = usize::MAX,
-                };
-                if self.offset == usize::MAX {
-                    return None
+            match self.search(self.bytes, self.offset) {
+                Some((offset, t)) => {
+                    self.offset = offset;
+                    return Some((self.offset, t))
+                }
+                None => {
+                    // continue in front of a marker without a valid T
+                    match self.finder.rfind(&self.bytes[..self.offset]) {
+                        Some(candidate) => self.offset = candidate,
+                        None => self.offset = usize::MAX,
+                    };
                 }
-                self.next()
             }
         }
     }
-- 
2.43.0


From 06b0770e62dbfa1345d33211690ee498065c0f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 07/19] fix: stack overflow and endless loop of the regex
 iterators

GrepIterator and RegExMatcherIterator recursed once per match outside of a T
(100 kB of such matches abort the process), did not make progress on empty
matches and emitted the same T over and over for an empty match at its end. A
capture group that does not take part in a match ended the iteration.
---
 matchit/src/searchable/grepit.rs | 73 ++++++++++++++------------------
 1 file changed, 32 insertions(+), 41 deletions(-)

diff --git a/matchit/src/searchable/grepit.rs b/matchit/src/searchable/grepit.rs
index a23914d..672e487 100644
--- a/matchit/src/searchable/grepit.rs
+++ b/matchit/src/searchable/grepit.rs
@@ -32,28 +32,22 @@ impl<'bytes, T> GrepIterator<'bytes, T>
 {
     #[inline(always)]
     pub fn search(&self, bytes: &'bytes [u8], offset: usize) -> Option<WithOffset<T>> {
-        if offset >= bytes.len() {
-            return None
-        }
-        let foundit = self.finder.find_at(bytes, offset)?.range();
-
-        match self.iter.search(bytes, foundit.start) {
-            Some((_off, val)) => {
-                if _off < foundit.start &&  _off + val.len() < foundit.end {
-                    // match not included
-                    self.search(bytes, foundit.end)
-                } else {
-                    Some((_off, val))
-                }
-            },
-            None => {
-                if foundit.end >= bytes.len() {
-                    return None
+        let mut offset = offset;
+        loop {
+            if offset >= bytes.len() {
+                return None
+            }
+            let foundit = self.finder.find_at(bytes, offset)?.range();
+
+            if let Some((_off, val)) = self.iter.search(bytes, foundit.start) {
+                // an empty match at the end of val is not included
+                if foundit.start < _off + val.len() && foundit.end <= _off + val.len() {
+                    return Some((_off, val))
                 }
-                self.search(bytes, foundit.end)
-            },
+            }
+            // match not included, make sure that an empty match is not found again
+            offset = if foundit.end > foundit.start { foundit.end } else { foundit.end + 1 };
         }
-
     }
 }
 
@@ -101,29 +95,26 @@ where
 {
     #[inline(always)]
     pub fn capture(&self, bytes: &'bytes [u8], offset: usize) -> Option<WithOffset<(usize,usize)>> {
-        if offset >= bytes.len() {
-            return None
-        }
+        let mut offset = offset;
         let mut locs = self.finder.capture_locations();
-        let captures = self.finder.captures_read_at(&mut locs, bytes, offset)?;
-
-        let foundit = captures.range();
-
-        match self.iter.search(bytes, foundit.start) {
-            Some((_off, val)) => {
-                if _off < foundit.start &&  _off + val.len() < foundit.end {
-                    // match not included
-                    self.capture(bytes, foundit.end)
-                } else {
-                    Some((_off, locs.get(1)?))
-                }
-            },
-            None => {
-                if foundit.end >= bytes.len() {
-                    return None
+        loop {
+            if offset >= bytes.len() {
+                return None
+            }
+            let captures = self.finder.captures_read_at(&mut locs, bytes, offset)?;
+
+            let foundit = captures.range();
+
+            if let Some((_off, val)) = self.iter.search(bytes, foundit.start) {
+                // an empty match at the end of val is not included
+                if foundit.start < _off + val.len() && foundit.end <= _off + val.len() {
+                    if let Some(group) = locs.get(1) {
+                        return Some((_off, group))
+                    }
                 }
-                self.capture(bytes, foundit.end)
-            },
+            }
+            // match not included, make sure that an empty match is not found again
+            offset = if foundit.end > foundit.start { foundit.end } else { foundit.end + 1 };
         }
     }
 }
-- 
2.43.0


From 5484fd44d2c3d9c00f8e4831767d7e298a73b44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 08/19] fix: RegExMatcherIterator skipped matches

The end of the capture group is an offset into the bytes already; added to the
offset of the DLT entry, it skipped about as many bytes as had been processed.
---
 matchit/src/searchable/grepit.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matchit/src/searchable/grepit.rs b/matchit/src/searchable/grepit.rs
index 672e487..88f3382 100644
--- a/matchit/src/searchable/grepit.rs
+++ b/matchit/src/searchable/grepit.rs
@@ -131,7 +131,8 @@ where
 
         // we need to go at the end of a DLT entry in order
         // not to emit the same DLT entry twice
-        self.offset = offset + val.1;
+        let (_, entry) = T::try_read_valid_marker(&self.bytes[offset..])?;
+        self.offset = offset + entry.len();
 
         Some((offset, val))
     }
-- 
2.43.0


From 4b47b35ca0d4589ac838f7aed92dc62259ad6a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 09/19] fix: contained_by rejected a payload that ends at the
 end of the bytes

---
 matchit/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matchit/src/lib.rs b/matchit/src/lib.rs
index 753bb5a..bcee98d 100644
--- a/matchit/src/lib.rs
+++ b/matchit/src/lib.rs
@@ -76,7 +76,7 @@ where
     #[inline(always)]
     pub fn contained_by(&self, bytes: &'bytes [u8], payload: (usize, usize)) -> Option<(usize, T)> 
     {
-        if payload.0 >= bytes.len() || payload.1 >= bytes.len() || payload.0 >= payload.1 || payload.1 == 0 {
+        if payload.0 >= bytes.len() || payload.1 > bytes.len() || payload.0 >= payload.1 || payload.1 == 0 {
             return None
         }
         
-- 
2.43.0


From 40744759022cad311e1e724f5a7a8658affeb3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 10/19] fix: contained_by missed a container that ends within
 the marker of a candidate

A T is part of another T when its first byte is; a split at such a candidate cuts
the other T into two.
---
 matchit/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matchit/src/lib.rs b/matchit/src/lib.rs
index bcee98d..e023a8e 100644
--- a/matchit/src/lib.rs
+++ b/matchit/src/lib.rs
@@ -97,7 +97,7 @@ where
                 // needs to contain payload.1
                 if candidate_idx + container.len() >= payload.1 {
                     // recursively check whether the current container is contained in another container
-                    return match self.contained_by(bytes, (candidate_idx, candidate_idx + T::marker().len())) {
+                    return match self.contained_by(bytes, (candidate_idx, candidate_idx + 1)) {
                         Some(_) => continue,
                         None => Some((candidate_idx, container)),
                     };
-- 
2.43.0


From e50b5574448907c18097e81043d7056af7d202eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 11/19] fix: partition_from lost data

The rest of the bytes was dropped when a candidate exceeded the bytes or a T was
larger than a partition, e.g. three messages in eight partitions gave none.
---
 matchit/src/lib.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/matchit/src/lib.rs b/matchit/src/lib.rs
index e023a8e..01e79ee 100644
--- a/matchit/src/lib.rs
+++ b/matchit/src/lib.rs
@@ -114,16 +114,21 @@ where
 pub fn partition_from<'bytes, T: SearchableMarkerTrait<'bytes>>(bytes: &'bytes [u8], num: usize) -> Vec<&'bytes [u8]> {
     let mut result: Vec<&[u8]> = vec![];
 
-    let size = bytes.len() / num;
+    // at least one byte, otherwise there is no progress
+    let size = std::cmp::max(bytes.len() / num, 1);
     let mut candidate = (0, size);
 
     let search = ContainedBySearch::<T>::new();
     loop {
         // out of bounds checks: canidates may not exceed ``bytes`` slice and
-        if candidate.0 > bytes.len() || candidate.1 > bytes.len() {
+        if candidate.1 >= bytes.len() {
+            // the remaining bytes are the last partition
+            if candidate.0 < bytes.len() {
+                result.push(&bytes[candidate.0..]);
+            }
             break;
         }
-        candidate.1 = match search.contained_by(bytes, (candidate.1, candidate.1+1)) {
+        let split = match search.contained_by(bytes, (candidate.1, candidate.1+1)) {
             Some((container ,_)) => {
                 // in ~99 percent of the cases, candidate.1 points to a valid T.
                 container
@@ -136,9 +141,12 @@ pub fn partition_from<'bytes, T: SearchableMarkerTrait<'bytes>>(bytes: &'bytes [
         };
         
         // candidate.1 may not point to a container that is part of another partition
-        if candidate.0 >= candidate.1 {
-            break;
+        if candidate.0 >= split {
+            // the container does not fit into this partition, extend it
+            candidate.1 += size;
+            continue;
         }
+        candidate.1 = split;
 
         // store result and check for the next candidate for a split
         if candidate.1 + size /4 >= bytes.len() {
-- 
2.43.0


From 87b4fca1877a0c1f18b8ac1e0f531e1a801762aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 12/19] fix: groupby dropped inputs of non-reflexive relations

An input that is not related to itself was kept as the possible start of a group,
so the inputs after it were dropped instead.
---
 matchit/src/generator/groupby.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/matchit/src/generator/groupby.rs b/matchit/src/generator/groupby.rs
index f1fc265..841d7e8 100644
--- a/matchit/src/generator/groupby.rs
+++ b/matchit/src/generator/groupby.rs
@@ -47,6 +47,7 @@ where
                     self.1 = GroupByState::Consumed(next);
                     ControlFlow::Continue(Some((prev.clone(), prev.clone())))
                 } else {
+                    self.1 = GroupByState::Consumed(next);
                     ControlFlow::Continue(None)
                 }
             },
-- 
2.43.0


From ab197aeb059f45af57813300dc19276e37521218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 13/19] fix: report read errors of DltBuffer::read_file

---
 rapiddlt/src/dltbuffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rapiddlt/src/dltbuffer.rs b/rapiddlt/src/dltbuffer.rs
index 7eac240..6e8ba1d 100644
--- a/rapiddlt/src/dltbuffer.rs
+++ b/rapiddlt/src/dltbuffer.rs
@@ -16,7 +16,7 @@ impl DltBuffer {
         let file = File::open(filename)?;
         let mut rdr = BufReader::new(file);
         let mut buf: Vec<u8> = vec![];
-        let _ = rdr.read_to_end(&mut buf);
+        rdr.read_to_end(&mut buf)?;
         Ok(DltBuffer::Read(buf))
     }
     pub fn len(&self) -> usize {
-- 
2.43.0


From 5ec5af97b68169e0abf5ce2141a863edfcc94eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 14/19] fix: ripdlt panicked on messages that end within their
 header fields

The header type announces a timestamp, an extended header or a payload that the
length of the message leaves no room for: leave such messages out.
---
 ripdlt/src/main.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ripdlt/src/main.rs b/ripdlt/src/main.rs
index edfe799..fd71c34 100644
--- a/ripdlt/src/main.rs
+++ b/ripdlt/src/main.rs
@@ -106,7 +106,7 @@ fn count_hello_world(mmap: &[u8]) -> usize {
 
     let it = dltit(mmap);
 
-    let predicate = |a: &DltStorageEntry<'_>| finder.find_iter(a.dlt.payload().expect("needs to be a valid DLT")).next().is_some();
+    let predicate = |a: &DltStorageEntry<'_>| finder.find_iter(a.dlt.payload().unwrap_or(&[0u8;0])).next().is_some();
     let result = it
         .filter(predicate)
         .count();
@@ -153,7 +153,7 @@ fn mstp_info_histogram(mmap: DltBuffer) -> BTreeMap<(bool, Option<DltMessageType
     let it = dltit(mmap.as_slice());
 
     it
-        .filter(|dlt| dlt.dlt.header.header_type.is_extended_header())
+        .filter(|dlt| dlt.dlt.extended_header().is_some())
         .split(|dlt|  dlt.dlt.extended_header().unwrap().msin.info(), |_| Generator::count() )
 }
 
@@ -164,7 +164,7 @@ fn lifecycle_splitit(mmap: DltBuffer) -> BTreeMap<[u8;4],  (BTreeMap<u32, usize>
     let mapping = |r: &(DltStorageEntry<'_>,DltStorageEntry<'_>)| (r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap()) / 10000;
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .split(
             |a: &DltStorageEntry<'_>| a.storage_header.ecu,
             |_| Generator::fork(
@@ -227,7 +227,7 @@ fn lifecycle_histogram(mmap: DltBuffer) -> BTreeMap<usize, usize> {
     let predicate = |a: &DltStorageEntry<'_>, b: &DltStorageEntry<'_>| a.dlt.ecu_id() == b.dlt.ecu_id() && b.dlt.timestamp() >= a.dlt.timestamp();
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .groupby(predicate)
         .map(|r| r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap())
     ;
@@ -265,7 +265,7 @@ fn lifecycle_iter(mmap: &[u8]) -> usize {
     let predicate = |a: &DltStorageEntry<'_>, b: &DltStorageEntry<'_>| b.dlt.timestamp() >= a.dlt.timestamp();
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .groupby(predicate)
         .filter(|r| r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap() >= MIN_TIME_DMS)
     ;
@@ -281,7 +281,7 @@ fn lifecycle_itertools(mmap: &[u8]) -> usize {
     let predicate = |a: &DltStorageEntry<'_>, b: &DltStorageEntry<'_>| b.dlt.timestamp() >= a.dlt.timestamp();
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .tuple_windows()
         .filter( |(a,b) |(predicate)(a,b))
         .filter(|r| r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap() >= MIN_TIME_DMS)
-- 
2.43.0


From 1f4900f142427e5d6f0338cc185b9e0f24b52016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 15/19] fix: ripdlt panicked on ECU ids that are not valid
 UTF-8

---
 ripdlt/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ripdlt/src/main.rs b/ripdlt/src/main.rs
index fd71c34..5838b77 100644
--- a/ripdlt/src/main.rs
+++ b/ripdlt/src/main.rs
@@ -321,19 +321,19 @@ fn main() {
         "split_lifecycles" =>{
             println!("Distribution of lifecycle durations:");
             for (k,v) in lifecycle_splitit(mmap) {
-                println!("{} #lifecycles: {:?}", String::from_utf8(k.to_vec()).unwrap(), v);
+                println!("{} #lifecycles: {:?}", String::from_utf8_lossy(&k), v);
             }
         },
         "split_timestamp" =>{
             println!("Durations of periods where DLT storage header timestamps are continuous:");
             for (k,v) in timestamp_splitit(mmap.as_slice()) {
-                println!("{} #lifecycles: {:?}", String::from_utf8(k.to_vec()).unwrap(), v);
+                println!("{} #lifecycles: {:?}", String::from_utf8_lossy(&k), v);
             }
         },
         "par_split_timestamp" =>{
             println!("Durations of periods where DLT storage header timestamps are continuous:");
             for (k,v) in par_timestamp_splitit(mmap) {
-                println!("{} #lifecycles: {:?}", String::from_utf8(k.to_vec()).unwrap(), v);
+                println!("{} #lifecycles: {:?}", String::from_utf8_lossy(&k), v);
             }
         },
         "histogram_timestamp" =>{
-- 
2.43.0


From f16b94e489409845e7ef3936c928db8cf0308c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 16/19] fix: dd_dlt has to write all bytes of a message

write() may write fewer bytes than it is given.
---
 dd_dlt/src/main.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index ec4950d..87d1434 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -47,12 +47,12 @@ fn main() -> Result<(), std::io::Error> {
                 appid.try_into().expect("app id incorrect")
         );
 
-        io::stdout().write(sh.as_bytes())?;
-        io::stdout().write(h.as_bytes())?;
+        io::stdout().write_all(sh.as_bytes())?;
+        io::stdout().write_all(h.as_bytes())?;
         // TODO ecu_id, session_id
-        io::stdout().write(U32::from(count * 100).as_bytes())?;
-        io::stdout().write(eh.as_bytes())?;
-        io::stdout().write(buf.as_bytes())?;
+        io::stdout().write_all(U32::from(count * 100).as_bytes())?;
+        io::stdout().write_all(eh.as_bytes())?;
+        io::stdout().write_all(buf.as_bytes())?;
 
         count += 1;
     }
-- 
2.43.0


From b782a52c8f02999fdaf6fc4e51c1ac6e34df23cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 17/19] fix: dd_dlt accepted payload sizes it cannot write

The length field overflowed for sizes above 65517, size 0 never came to an end.
---
 dd_dlt/src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index 87d1434..0ea2651 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -17,8 +17,9 @@ fn main() -> Result<(), std::io::Error> {
     let appid = args[2].as_bytes();
 
     let payload_size: u16 = match args[3].parse::<u16>() {
-        Ok(val) => val,
-        Err(_) => panic!("wrong parameter"),
+        // the length of a message without storage header is an u16, there is no end of input without payload
+        Ok(val) if val > 0 && val <= u16::MAX - (4 + 10 + 4) => val,
+        _ => panic!("wrong parameter"),
     };
 
     let mut buf = vec![0u8; payload_size as usize];
-- 
2.43.0


From 9226f24236afb4c35920e576839e10483b859060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 18/19] fix: the timestamp of dd_dlt messages may wrap around

count * 100 overflows after 42949672 messages.
---
 dd_dlt/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index 0ea2651..ff26278 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -23,7 +23,7 @@ fn main() -> Result<(), std::io::Error> {
     };
 
     let mut buf = vec![0u8; payload_size as usize];
-    let mut count = 0;
+    let mut count = 0u32;
 
     loop {
         match io::stdin().lock().read_exact(&mut buf) {
@@ -51,7 +51,7 @@ fn main() -> Result<(), std::io::Error> {
         io::stdout().write_all(sh.as_bytes())?;
         io::stdout().write_all(h.as_bytes())?;
         // TODO ecu_id, session_id
-        io::stdout().write_all(U32::from(count * 100).as_bytes())?;
+        io::stdout().write_all(U32::from(count.wrapping_mul(100)).as_bytes())?;
         io::stdout().write_all(eh.as_bytes())?;
         io::stdout().write_all(buf.as_bytes())?;
 
-- 
2.43.0


From 996a57a282dd5ff818be513f23b8a0b7f3092493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:56 +0000
Subject: [PATCH 19/19] fix: contained_by must not recurse into each containing
 record

The recursion was exponential in the number of records that contain each
other, and as deep as the chain of records that overlap each other: some
hundred kB of repeated record headers did not terminate or overflowed the
stack.
---
 matchit/src/lib.rs | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/matchit/src/lib.rs b/matchit/src/lib.rs
index 01e79ee..acd9444 100644
--- a/matchit/src/lib.rs
+++ b/matchit/src/lib.rs
@@ -6,7 +6,7 @@ pub mod readit;
 
 use std::{marker::PhantomData};
 
-use memchr::memmem::Finder;
+use memchr::memmem::{self, Finder};
 use searchable::SearchableMarkerTrait;
 
 pub type WithOffset<T> = (usize, T);
@@ -66,13 +66,13 @@ where
         Self(Finder::new(T::marker()), PhantomData)
     }
 
-    /// Recursively searches for a valid ``T``that contains the slice ``(payload.0 .. payload.1)``.
+    /// Searches for a valid ``T``that contains the slice ``(payload.0 .. payload.1)``.
     /// 
     /// Let's assume ``T(payload)`` denotes that ``payload`` is contained by ``T``.
     /// If a valid ``T0(payload)`` is found, the algorithm makes sure this is in turn not
     /// contained by a previous ``T1(T0(payload))``.
-    /// This validity check is performed recursively until no containing ``T_n(...(T1(payload))`` 
-    /// is found anymore.
+    /// For this, it goes back to a position which no valid ``T`` spans over, any valid ``T``
+    /// found from there on is not contained by a previous one.
     #[inline(always)]
     pub fn contained_by(&self, bytes: &'bytes [u8], payload: (usize, usize)) -> Option<(usize, T)> 
     {
@@ -80,28 +80,40 @@ where
             return None
         }
         
-        // go back max payload size
-        let backwards_offset = match payload.0.checked_sub(T::max_len()) {
-            Some(val) => val,
-            None => 0,
-        };
+        // go back to a position which no valid ``T`` spans over
+        let mut backwards_offset = payload.0;
+        let end = std::cmp::min(payload.0 + T::marker().len(), bytes.len());
+
+        for candidate_idx in memmem::rfind_iter(&bytes[..end], T::marker()) {
+            // more than max payload size
+            if candidate_idx < backwards_offset.saturating_sub(T::max_len()) {
+                break;
+            }
+            if let Some((_, container)) = T::try_read(&bytes[candidate_idx..]) {
+                if candidate_idx + container.len() > backwards_offset {
+                    backwards_offset = candidate_idx;
+                }
+            }
+        }
         
+        let mut next_idx = backwards_offset;
         let iter = self.0.find_iter(&bytes[backwards_offset..]);
         
         for candidate_idx in iter.map(|x| x + backwards_offset) {
             if candidate_idx >= payload.0 {
                 return None
             }
+            // contained by the previous container
+            if candidate_idx < next_idx {
+                continue;
+            }
             if let Some((_, container)) = T::try_read(&bytes[candidate_idx..]) {
 
                 // needs to contain payload.1
                 if candidate_idx + container.len() >= payload.1 {
-                    // recursively check whether the current container is contained in another container
-                    return match self.contained_by(bytes, (candidate_idx, candidate_idx + 1)) {
-                        Some(_) => continue,
-                        None => Some((candidate_idx, container)),
-                    };
+                    return Some((candidate_idx, container));
                 }
+                next_idx = candidate_idx + container.len();
             }
         }
         None
-- 
2.43.0

