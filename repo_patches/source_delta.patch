From 3076bd4c552caa3dce2577e1ddebab0face7b8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:34 +0000
Subject: [PATCH 01/26] fix: do not sign-extend the low byte when classifying
 UTF-16BE characters

U+0080..U+00FF in a big-endian UTF-16 document indexed the type table with a
sign-extended value and panicked.
---
 src/lib/xmltok.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index aaf97f9..09702c2 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -1019,7 +1019,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Big2EncodingImpl<T> {
     fn byte_type(&self, p: *const c_char) -> ByteType {
         let bytes = unsafe { (*p, *p.offset(1)) };
         if bytes.0 == 0 {
-            T::types[bytes.1 as usize]
+            T::types[bytes.1 as u8 as usize]
         } else {
             unicode_byte_type(bytes.0, bytes.1)
         }
-- 
2.43.0


From 6b60974230fe57ac7a7d0e4967446ef42be150f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:34 +0000
Subject: [PATCH 02/26] fix: terminate a 127-byte encoding name without
 panicking

findEncoding and findEncodingNS wrote the terminator through the remaining
output span, which is empty when the name fills it completely.
---
 src/lib/xmltok.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 09702c2..3893488 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -2559,7 +2559,8 @@ pub fn findEncoding(
     if !buf.is_empty() {
         return None;
     }
-    p[0] = 0;
+    let len = 127 - p.len();
+    out_buf[len] = 0;
     unsafe {
         if streqci(out_buf.as_ptr(), KW_UTF_16.as_ptr()) != 0 && (*enc).minBytesPerChar() == 2 {
             return Some(enc.clone());
@@ -2587,7 +2588,8 @@ pub fn findEncodingNS(
     if !buf.is_empty() {
         return None;
     }
-    p[0] = 0;
+    let len = 127 - p.len();
+    out_buf[len] = 0;
     unsafe {
         if streqci(out_buf.as_ptr(), KW_UTF_16.as_ptr()) != 0 && (*enc).minBytesPerChar() == 2 {
             return Some(enc.clone());
-- 
2.43.0


From 182eefe4497cca8c5bba6ccee303396b43e84601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:34 +0000
Subject: [PATCH 03/26] fix: advance the input buffer when a suspended parse is
 resumed

XML_ResumeParser dropped the position reported by the processor, so everything
processed by the resumed parse was parsed and reported again by the next
XML_Parse; it also panicked when the parse was suspended at the very end of a
full buffer.
---
 src/lib/xmlparse.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 4aaba1b..0a429e4 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2942,11 +2942,13 @@ impl XML_ParserStruct {
             return XML_Status::ERROR;
         }
         self.m_parsingStatus.parsing = XML_Parsing::PARSING;
+        let mut start = self.m_buffer.as_ptr().wrapping_add(self.m_bufferStart);
         self.m_errorCode = self.m_processor.expect("non-null function pointer")(
             self,
             self.m_buffer[self.m_bufferStart..self.m_parseEndIdx].into(),
-            &mut (&self.m_buffer[self.m_bufferStart] as *const _),
+            &mut start,
         );
+        self.m_bufferStart = start.wrapping_offset_from(self.m_buffer.as_ptr()) as usize;
         if self.m_errorCode != XML_Error::NONE {
             self.m_eventEndPtr = self.m_eventPtr;
             self.m_processor = Some(errorProcessor as Processor);
@@ -2971,8 +2973,8 @@ impl XML_ParserStruct {
 
         #[cfg(feature = "mozilla")]
         {
-            self.m_eventPtr = &self.m_buffer[self.m_bufferStart];
-            self.m_eventEndPtr = &self.m_buffer[self.m_bufferStart];
+            self.m_eventPtr = start;
+            self.m_eventEndPtr = start;
         }
 
         result
-- 
2.43.0


From 43f967e22497c3114543dc4563938b9beb29bf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:34 +0000
Subject: [PATCH 04/26] fix: allow querying the position after XML_GetBuffer
 moved the buffer

XML_GetBuffer clears the stored position; XML_GetCurrentLineNumber and
XML_GetCurrentColumnNumber then panicked instead of reporting the position
computed so far.
---
 src/lib/xmlparse.rs | 52 ++++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 0a429e4..19c638a 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3103,18 +3103,20 @@ pub unsafe extern "C" fn XML_GetCurrentLineNumber(mut parser: XML_Parser) -> XML
     if parser.is_null() {
         return 0;
     }
-    let positionPtr = (*parser).m_buffer.as_ptr().wrapping_add((*parser).m_positionIdx.unwrap());
-    if !(*parser).m_eventPtr.is_null() && (*parser).m_eventPtr >= positionPtr {
-        (*(*parser).m_encoding).updatePosition(
-            ExpatBufRef::new(
-                positionPtr,
-                (*parser).m_eventPtr,
-            ),
-            &mut (*parser).m_position,
-        );
-        (*parser).m_positionIdx = Some(
-            (*parser).m_eventPtr.wrapping_offset_from((*parser).m_buffer.as_ptr()) as usize
-        );
+    if let Some(positionIdx) = (*parser).m_positionIdx {
+        let positionPtr = (*parser).m_buffer.as_ptr().wrapping_add(positionIdx);
+        if !(*parser).m_eventPtr.is_null() && (*parser).m_eventPtr >= positionPtr {
+            (*(*parser).m_encoding).updatePosition(
+                ExpatBufRef::new(
+                    positionPtr,
+                    (*parser).m_eventPtr,
+                ),
+                &mut (*parser).m_position,
+            );
+            (*parser).m_positionIdx = Some(
+                (*parser).m_eventPtr.wrapping_offset_from((*parser).m_buffer.as_ptr()) as usize
+            );
+        }
     }
     (*parser).m_position.lineNumber.wrapping_add(1)
 }
@@ -3123,18 +3125,20 @@ pub unsafe extern "C" fn XML_GetCurrentColumnNumber(mut parser: XML_Parser) -> X
     if parser.is_null() {
         return 0;
     }
-    let positionPtr = (*parser).m_buffer.as_ptr().wrapping_add((*parser).m_positionIdx.unwrap());
-    if !(*parser).m_eventPtr.is_null() && (*parser).m_eventPtr >= positionPtr {
-        (*(*parser).m_encoding).updatePosition(
-            ExpatBufRef::new(
-                positionPtr,
-                (*parser).m_eventPtr,
-            ),
-            &mut (*parser).m_position,
-        );
-        (*parser).m_positionIdx = Some(
-            (*parser).m_eventPtr.wrapping_offset_from((*parser).m_buffer.as_ptr()) as usize
-        );
+    if let Some(positionIdx) = (*parser).m_positionIdx {
+        let positionPtr = (*parser).m_buffer.as_ptr().wrapping_add(positionIdx);
+        if !(*parser).m_eventPtr.is_null() && (*parser).m_eventPtr >= positionPtr {
+            (*(*parser).m_encoding).updatePosition(
+                ExpatBufRef::new(
+                    positionPtr,
+                    (*parser).m_eventPtr,
+                ),
+                &mut (*parser).m_position,
+            );
+            (*parser).m_positionIdx = Some(
+                (*parser).m_eventPtr.wrapping_offset_from((*parser).m_buffer.as_ptr()) as usize
+            );
+        }
     }
     (*parser).m_position.columnNumber
 }
-- 
2.43.0


From 7a22f3b6e1c81a4dfda8e07d1c133c502f3e5e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:34 +0000
Subject: [PATCH 05/26] fix: accept an event position at the end of a full
 input buffer

XML_GetCurrentByteIndex panicked when the document fills the buffer exactly.
---
 src/lib/xmlparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 19c638a..fb52044 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -850,7 +850,7 @@ impl XML_ParserStruct {
     // TODO(SJC): add a better err type
     fn buffer_index(&self, p: *const c_char) -> Result<usize, ()> {
         if p < self.m_buffer.as_ptr()
-            || p >= self.m_buffer.as_ptr().wrapping_add(self.m_buffer.len())
+            || p > self.m_buffer.as_ptr().wrapping_add(self.m_buffer.len())
         {
             Err(())
         } else {
-- 
2.43.0


From 3f62911d7c1ec6756cef2f4bb6d2f553be119466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:34 +0000
Subject: [PATCH 06/26] fix: convert Latin-1 to UTF-16

The loop ran only when there was no room for output, and would have
sign-extended bytes above 0x7F.
---
 src/lib/xmltok.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 3893488..b30ff84 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -1919,8 +1919,8 @@ fn latin1_toUtf16(
     mut from: &mut ExpatBufRef,
     to: &mut ExpatBufRefMut<u16>,
 ) -> XML_Convert_Result {
-    while !from.is_empty() && to.is_empty() {
-        to[0] = from[0] as u16;
+    while !from.is_empty() && !to.is_empty() {
+        to[0] = from[0] as u8 as u16;
         to.inc_start(1);
         *from = from.inc_start(1);
     }
-- 
2.43.0


From 19696694fba472e9eaeef284be02cd52b5fc31e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:34 +0000
Subject: [PATCH 07/26] fix: advance the input when converting multi-byte UTF-8
 to UTF-16

Two- and three-byte sequences were stored without being consumed, and an
incomplete trailing sequence was reported as exhausted output.
---
 src/lib/xmltok.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index b30ff84..aa0d238 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -601,7 +601,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Utf8EncodingImpl<T> {
                                  | from[1] as c_int & 0x3f)
                             as c_ushort;
                         to.inc_start(1);
-                        from.inc_start(2);
+                        *from = from.inc_start(2);
                     }
                 }
                 6 => {
@@ -614,7 +614,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Utf8EncodingImpl<T> {
                                  | from[2] as c_int & 0x3f)
                             as c_ushort;
                         to.inc_start(1);
-                        from.inc_start(3);
+                        *from = from.inc_start(3);
                     }
                 }
                 7 => {
@@ -644,7 +644,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Utf8EncodingImpl<T> {
                 }
             }
         }
-        if !from.is_empty() {
+        if to.is_empty() && !from.is_empty() {
             res = XML_Convert_Result::OUTPUT_EXHAUSTED
         }
         res
-- 
2.43.0


From f42dfd1337f0fd60171632824536677efedf138c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:34 +0000
Subject: [PATCH 08/26] fix: report the offending position after the encoding
 pseudo-attribute

The error position of a malformed XML declaration was the end of the encoding
value rather than the place where the following pseudo-attribute is malformed.
---
 src/lib/xmltok.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index aa0d238..ddb40fb 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -3061,7 +3061,7 @@ fn doParseXmlDecl<'a>(
         ) };
         let mut pseudo_ptr = buf.as_ptr();
         if parsePseudoAttribute(enc, buf, &mut name, &mut val_buf, &mut pseudo_ptr) == 0 {
-            *badPtr = buf.as_ptr();
+            *badPtr = pseudo_ptr;
             return 0;
         }
         buf = buf.with_start(pseudo_ptr);
-- 
2.43.0


From 2d1ea008564143d3615bd287c4af2043da4b77c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:48 +0000
Subject: [PATCH 09/26] fix: reject malformed multi-byte sequences in names

The name character tests look at the payload bits only, so an element, attribute or
declaration name could contain bytes that are not well-formed in the document encoding.
---
 src/lib/xmltok_impl.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmltok_impl.rs b/src/lib/xmltok_impl.rs
index 5d41751..0128a78 100644
--- a/src/lib/xmltok_impl.rs
+++ b/src/lib/xmltok_impl.rs
@@ -68,7 +68,9 @@ macro_rules! CHECK_NAME_CASES {
                 if $buf.len() < n as usize {
                     return XML_TOK::PARTIAL_CHAR;
                 }
-                if !$self.is_name_char($buf.as_ptr(), n) {
+                if $self.is_invalid_char($buf.as_ptr(), n)
+                    || !$self.is_name_char($buf.as_ptr(), n)
+                {
                     *$nextTokPtr = $buf.as_ptr();
                     return XML_TOK::INVALID;
                 }
@@ -98,7 +100,9 @@ macro_rules! CHECK_NMSTRT_CASES {
                 if $buf.len() < n as usize {
                     return XML_TOK::PARTIAL_CHAR;
                 }
-                if !$self.is_nmstrt_char($buf.as_ptr(), n) {
+                if $self.is_invalid_char($buf.as_ptr(), n)
+                    || !$self.is_nmstrt_char($buf.as_ptr(), n)
+                {
                     *$nextTokPtr = $buf.as_ptr();
                     return XML_TOK::INVALID;
                 }
@@ -1062,6 +1066,10 @@ impl<T: XmlEncodingImpl+XmlTokImpl> XmlEncoding for T {
                 if (buf.len() as c_long) < n as c_long {
                     return XML_TOK::PARTIAL_CHAR;
                 }
+                if self.is_invalid_char(buf.as_ptr(), n) {
+                    *nextTokPtr = buf.as_ptr();
+                    return XML_TOK::INVALID;
+                }
                 if self.is_nmstrt_char(buf.as_ptr(), n) {
                     buf = buf.inc_start(n as isize);
                     tok = XML_TOK::NAME;
-- 
2.43.0


From 29c74a057c96ef882c822d695b359218c400e2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:27 +0000
Subject: [PATCH 10/26] fix: reject a UTF-16 high surrogate without its low
 surrogate

---
 src/lib/xmltok.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index ddb40fb..9efaed3 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -871,8 +871,9 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Little2EncodingImpl<T> {
     }
 
     #[inline]
-    fn is_invalid_char(&self, _p: *const c_char, _n: isize) -> bool {
-        false
+    fn is_invalid_char(&self, p: *const c_char, _n: isize) -> bool {
+        // a high surrogate must be followed by a low surrogate
+        unsafe { *p.offset(3) as u8 & 0xfc != 0xdc }
     }
 
     #[inline]
@@ -1045,8 +1046,9 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Big2EncodingImpl<T> {
     }
 
     #[inline]
-    fn is_invalid_char(&self, _p: *const c_char, _n: isize) -> bool {
-        false
+    fn is_invalid_char(&self, p: *const c_char, _n: isize) -> bool {
+        // a high surrogate must be followed by a low surrogate
+        unsafe { *p.offset(2) as u8 & 0xfc != 0xdc }
     }
 
     #[inline]
-- 
2.43.0


From 20518f50d20113c877550a35ac5c055a741f4f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:02:32 +0000
Subject: [PATCH 11/26] fix: hand terminated version and encoding strings to
 the XML declaration handler

---
 src/lib/xmlparse.rs | 6 +++---
 src/lib/xmltok.rs   | 5 ++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index fb52044..540b1f6 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5271,7 +5271,7 @@ impl XML_ParserStruct {
                     return XML_Error::NO_MEMORY;
                 }
 
-                storedEncName = self.m_temp2Pool.current_start();
+                storedEncName = self.m_temp2Pool.finish_string().as_ptr();
             }
             if let Some(version_buf) = version_buf {
                 let successful = self.m_temp2Pool.store_c_string(
@@ -5282,7 +5282,7 @@ impl XML_ParserStruct {
                     return XML_Error::NO_MEMORY;
                 }
 
-                storedversion = self.m_temp2Pool.current_start();
+                storedversion = self.m_temp2Pool.finish_string().as_ptr();
             }
             self.m_handlers.xmlDecl(
                 storedversion,
@@ -5321,7 +5321,7 @@ impl XML_ParserStruct {
                         return XML_Error::NO_MEMORY;
                     }
 
-                    storedEncName = self.m_temp2Pool.current_start();
+                    storedEncName = self.m_temp2Pool.finish_string().as_ptr();
                 };
                 result = self.m_handlers.handleUnknownEncoding(storedEncName, self.m_ns, &mut self.m_encoding);
                 self.m_temp2Pool.clear();
diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 9efaed3..f8e6d72 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -3017,7 +3017,10 @@ fn doParseXmlDecl<'a>(
             return 0;
         }
     } else {
-        *versionBuf = val_buf;
+        *versionBuf = val_buf.map(|val| {
+            val.with_end(pseudo_ptr)
+                .dec_end(((*enc).minBytesPerChar()) as usize)
+        });
         #[cfg(feature = "mozilla")]
         {
             if !(*enc).nameMatchesAscii(val_buf
-- 
2.43.0


From 3ee8f66adaa848233f15964fb161300870988837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:03:25 +0000
Subject: [PATCH 12/26] fix: detect duplicate expanded attribute names with
 namespace triplets

---
 src/lib/xmlparse.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 540b1f6..c2b73d4 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -4532,9 +4532,18 @@ impl XML_ParserStruct {
                     if ret != XML_Error::NONE {
                         return ret;
                     }
+                    /* the expanded name without its prefix is what must be unique */
+                    let uriName = self.m_tempPool.finish_string().as_ptr();
+                    self.m_nsAtts.insert(HashKey::from(uriName as KEY));
+                    /* store expanded name in attribute list */
+                    self.m_atts[i].name = uriName;
                     if self.m_ns_triplets {
                         /* append namespace separator and prefix */
-                        self.m_tempPool.replace_last_char(self.m_namespaceSeparator);
+                        if !self.m_tempPool.append_c_string(uriName)
+                            || !self.m_tempPool.append_char(self.m_namespaceSeparator)
+                        {
+                            return XML_Error::NO_MEMORY;
+                        }
                         s = (*(*b).prefix).name;
                         loop {
                             if !self.m_tempPool.append_char(*s) {
@@ -4546,12 +4555,8 @@ impl XML_ParserStruct {
                                 break;
                             }
                         }
+                        self.m_atts[i].name = self.m_tempPool.finish_string().as_ptr();
                     }
-                    if ret != XML_Error::NONE { return ret; }
-                    /* store expanded name in attribute list */
-                    self.m_atts[i].name = self.m_tempPool.finish_string().as_ptr();
-                    let hk = HashKey::from(self.m_atts[i].name as KEY);
-                    self.m_nsAtts.insert(hk);
                     nPrefixes -= 1;
                     if nPrefixes == 0 && nXMLNSDeclarations == 0 {
                         i += 1;
-- 
2.43.0


From 6fcda20999152fefd67781612e906fd52b3c8fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:56:36 +0000
Subject: [PATCH 13/26] fix: resume every internal entity that was open when
 parsing was suspended

---
 src/lib/xmlparse.rs | 83 +++++++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 40 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index c2b73d4..3e47c25 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7018,7 +7018,7 @@ impl XML_ParserStruct {
             )
         }
         if result == XML_Error::NONE {
-            if text_buf.end() != next && self.m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
+            if self.m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
                 (*entity).processed = next.wrapping_offset_from(text_buf.as_ptr()) as i32;
                 self.m_processor = Some(internalEntityProcessor as Processor)
             } else {
@@ -7068,49 +7068,52 @@ unsafe extern "C" fn internalEntityProcessor(
     if openEntity.is_null() {
         return XML_Error::UNEXPECTED_STATE;
     }
-    entity = (*openEntity).entity;
-    let text_buf = ExpatBufRef::new(
-        ((*entity).textPtr as *mut c_char).offset((*entity).processed as isize),
-        (*entity).textPtr.offset((*entity).textLen as isize) as *mut c_char,
-    );
-    /* Set a safe default value in case 'next' does not get set */
-    next = text_buf.as_ptr();
-    if (*entity).is_param {
-        let mut tok =
-            (*(*parser).m_internalEncoding).xmlTok(XML_STATE::PROLOG, text_buf, &mut next);
-        result = (*parser).doProlog(
-            EncodingType::Internal,
-            text_buf,
-            tok,
-            next,
-            &mut next,
-            false,
-            true,
-        )
-    } else {
-        /* XML_DTD */
-        result = (*parser).doContent(
-            (*openEntity).startTagLevel,
-            EncodingType::Internal,
-            text_buf,
-            &mut next,
-            false,
-        )
-    }
-    if result != XML_Error::NONE {
-        return result;
-    } else {
-        if text_buf.end() != next && (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
+    /* The entities that were open when parsing was suspended have to be
+       finished one after another, starting with the innermost. */
+    while !openEntity.is_null() {
+        entity = (*openEntity).entity;
+        let text_buf = ExpatBufRef::new(
+            ((*entity).textPtr as *mut c_char).offset((*entity).processed as isize),
+            (*entity).textPtr.offset((*entity).textLen as isize) as *mut c_char,
+        );
+        /* Set a safe default value in case 'next' does not get set */
+        next = text_buf.as_ptr();
+        if (*entity).is_param {
+            let mut tok =
+                (*(*parser).m_internalEncoding).xmlTok(XML_STATE::PROLOG, text_buf, &mut next);
+            result = (*parser).doProlog(
+                EncodingType::Internal,
+                text_buf,
+                tok,
+                next,
+                &mut next,
+                false,
+                false,
+            )
+        } else {
+            /* XML_DTD */
+            result = (*parser).doContent(
+                (*openEntity).startTagLevel,
+                EncodingType::Internal,
+                text_buf,
+                &mut next,
+                false,
+            )
+        }
+        if result != XML_Error::NONE {
+            return result;
+        }
+        if (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
             (*entity).processed =
                 next.wrapping_offset_from((*entity).textPtr as *mut c_char) as c_int;
             return result;
-        } else {
-            (*entity).open = false;
-            (*parser).m_openInternalEntities = (*openEntity).next;
-            /* put openEntity back in list of free instances */
-            (*openEntity).next = (*parser).m_freeInternalEntities;
-            (*parser).m_freeInternalEntities = openEntity
         }
+        (*entity).open = false;
+        (*parser).m_openInternalEntities = (*openEntity).next;
+        /* put openEntity back in list of free instances */
+        (*openEntity).next = (*parser).m_freeInternalEntities;
+        (*parser).m_freeInternalEntities = openEntity;
+        openEntity = (*parser).m_openInternalEntities;
     }
     if (*entity).is_param {
         (*parser).m_processor = Some(prologProcessor as Processor);
-- 
2.43.0


From 1e9c08b10fdf28e5a7fded23e02328b3fddf7640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:57:42 +0000
Subject: [PATCH 14/26] fix: resume inside a CDATA section of an internal
 entity

---
 src/lib/xmlparse.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 3e47c25..098eb73 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1413,6 +1413,7 @@ pub struct OpenInternalEntity {
     pub entity: *mut Entity,
     pub startTagLevel: c_int,
     pub betweenDecl: XML_Bool,
+    pub inCdataSection: XML_Bool,
 }
 
 pub type Processor = unsafe extern "C" fn(
@@ -4103,7 +4104,11 @@ impl XML_ParserStruct {
                     if result_2 != XML_Error::NONE {
                         return result_2;
                     } else if next.is_null() {
-                        self.m_processor = Some(cdataSectionProcessor as Processor);
+                        if enc_type.is_internal() {
+                            (*self.m_openInternalEntities).inCdataSection = true;
+                        } else {
+                            self.m_processor = Some(cdataSectionProcessor as Processor);
+                        }
                         return result_2;
                     }
                 }
@@ -6987,6 +6992,7 @@ impl XML_ParserStruct {
         (*openEntity).entity = entity;
         (*openEntity).startTagLevel = self.m_tagLevel;
         (*openEntity).betweenDecl = betweenDecl;
+        (*openEntity).inCdataSection = false;
         (*openEntity).internalEventPtr = ptr::null();
         (*openEntity).internalEventEndPtr = ptr::null();
         let text_buf = ExpatBufRef::new(
@@ -7072,13 +7078,23 @@ unsafe extern "C" fn internalEntityProcessor(
        finished one after another, starting with the innermost. */
     while !openEntity.is_null() {
         entity = (*openEntity).entity;
-        let text_buf = ExpatBufRef::new(
+        let mut text_buf = ExpatBufRef::new(
             ((*entity).textPtr as *mut c_char).offset((*entity).processed as isize),
             (*entity).textPtr.offset((*entity).textLen as isize) as *mut c_char,
         );
         /* Set a safe default value in case 'next' does not get set */
         next = text_buf.as_ptr();
-        if (*entity).is_param {
+        if (*openEntity).inCdataSection {
+            let mut rest = Some(text_buf);
+            result = doCdataSection(parser, EncodingType::Internal, &mut rest, &mut next, false);
+            if let Some(rest) = rest {
+                (*openEntity).inCdataSection = false;
+                text_buf = rest;
+            }
+        }
+        if result != XML_Error::NONE || (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
+            /* the CDATA section was left by an error or another suspension */
+        } else if (*entity).is_param {
             let mut tok =
                 (*(*parser).m_internalEncoding).xmlTok(XML_STATE::PROLOG, text_buf, &mut next);
             result = (*parser).doProlog(
-- 
2.43.0


From 5690064dbef98febe15e181710ee222cfe105d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:07:25 +0000
Subject: [PATCH 15/26] fix: reject a negative length in XML_ParseBuffer

---
 src/lib/xmlparse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 098eb73..a983f7d 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2757,6 +2757,10 @@ pub unsafe extern "C" fn XML_ParseBuffer(
     if parser.is_null() {
         return XML_Status::ERROR;
     }
+    if len < 0 {
+        (*parser).m_errorCode = XML_Error::INVALID_ARGUMENT;
+        return XML_Status::ERROR;
+    }
 
     (*parser).parseBuffer(len, isFinal)
 }
-- 
2.43.0


From 61d5edc572662e501fc574a3b01dcb651ab28a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:08:25 +0000
Subject: [PATCH 16/26] fix: reject XML_StopParser before parsing has begun

---
 src/expat_h.rs      | 4 +++-
 src/lib/xmlparse.rs | 7 +++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/expat_h.rs b/src/expat_h.rs
index 948b1f9..d7c863b 100644
--- a/src/expat_h.rs
+++ b/src/expat_h.rs
@@ -110,7 +110,9 @@ pub enum XML_Error {
     RESERVED_PREFIX_XMLNS,
     RESERVED_NAMESPACE_URI,
     /* Added in 2.2.1. */
-    INVALID_ARGUMENT
+    INVALID_ARGUMENT,
+    /* Added in 2.6.4. */
+    NOT_STARTED = 44,
 }
 pub type XML_ErrorCode = libc::c_uint;
 impl XML_Error {
diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index a983f7d..6c61648 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2874,6 +2874,7 @@ pub unsafe extern "C" fn XML_GetBuffer(mut parser: XML_Parser, mut len: c_int) -
    - XML_Error::SUSPENDED: when suspending an already suspended parser.
    - XML_Error::FINISHED: when the parser has already finished.
    - XML_Error::SUSPEND_PE: when suspending while parsing an external PE.
+   - XML_Error::NOT_STARTED: when parsing has not begun.
 
    When resumable != 0 (true) then parsing is suspended, that is,
    XML_Parse() and XML_ParseBuffer() return XML_STATUS_SUSPENDED.
@@ -2900,6 +2901,10 @@ impl XML_ParserStruct {
                 }
                 self.m_parsingStatus.parsing = XML_Parsing::FINISHED
             }
+            XML_Parsing::INITIALIZED => {
+                self.m_errorCode = XML_Error::NOT_STARTED;
+                return XML_Status::ERROR;
+            }
             XML_Parsing::FINISHED => {
                 self.m_errorCode = XML_Error::FINISHED;
                 return XML_Status::ERROR;
@@ -3282,6 +3287,8 @@ impl XML_Error {
                 /* Constant added in 2.2.1, already */
                 wch!("invalid argument\x00")
             }
+            /* Added in 2.6.4. */
+            XML_Error::NOT_STARTED => wch!("parser not started\x00"),
         }
     }
 }
-- 
2.43.0


From 4f9cf2c05df1e5db6d3d2ca2dc9e7d0cd4059d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:11:58 +0000
Subject: [PATCH 17/26] fix: a default handler may unset itself while a long
 text is delivered in parts

---
 src/lib/xmlparse.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 6c61648..770f254 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7757,16 +7757,12 @@ unsafe extern "C" fn reportDefault(
             convert_res = XmlConvert!(enc, &mut buf, &mut data_buf);
             *eventEndPP = buf.as_ptr();
 
-            let defaultRan = (*parser).m_handlers.default(
+            // The handler may have unset itself after an earlier part
+            let _ = (*parser).m_handlers.default(
                 (*parser).m_dataBuf.as_ptr(),
                 data_buf.as_ptr().wrapping_offset_from((*parser).m_dataBuf.as_ptr()).try_into().unwrap(),
             );
 
-            // Previously unwrapped an Option
-            if !defaultRan {
-                panic!("Expected default handler to be set");
-            }
-
             *eventPP = buf.as_ptr();
             if !(convert_res != super::xmltok::XML_Convert_Result::COMPLETED
                 && convert_res != super::xmltok::XML_Convert_Result::INPUT_INCOMPLETE)
-- 
2.43.0


From 94fda5255d6ffee2eac0571a1509e0250cfab9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:30:21 +0000
Subject: [PATCH 18/26] fix: consult the not-standalone handler once, and only
 for entities that were read

doPrologHandleEntityRef already asks the handler when the external
parameter entity has been read; asking again afterwards called it twice,
and refused documents whose parameter entities were internal or skipped.
---
 src/lib/xmlparse.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 770f254..206ff76 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -6596,10 +6596,6 @@ impl XML_ParserStruct {
                             if let Some(r) = self.doPrologHandleEntityRef(entity, role, &mut handleDefault) {
                                 return r;
                             }
-                            /* XML_DTD */
-                            if !self.m_dtd.standalone.get() && self.m_handlers.notStandalone() == Ok(0) {
-                                return XML_Error::NOT_STANDALONE;
-                            }
                         } else if entity.is_null() {
                             self.m_dtd.keepProcessing.set(self.m_dtd.standalone.get());
                             /* cannot report skipped entities in declarations */
@@ -6617,10 +6613,6 @@ impl XML_ParserStruct {
                             if let Some(r) = self.doPrologHandleEntityRef(entity, role, &mut handleDefault) {
                                 return r;
                             }
-                            /* XML_DTD */
-                            if !self.m_dtd.standalone.get() && self.m_handlers.notStandalone() == Ok(0) {
-                                return XML_Error::NOT_STANDALONE;
-                            }
                         }
                     }
                 }
-- 
2.43.0


From 44054e705df622ea7c72eefb1d370d2449aa68e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:19:57 +0000
Subject: [PATCH 19/26] fix: keep a copied DTD in one place from the start

try_clone stored pointers to the new DTD's default prefix and then moved
the DTD into its Rc, so that in an external entity attributes declared as
'xmlns' bound a prefix on a stack frame that was gone.
---
 src/lib/xmlparse.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 206ff76..63bbc44 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1154,8 +1154,10 @@ impl DTD {
         self.standalone.set(false);
     }
 
-    fn try_clone(&self) -> Result<DTD, TryReserveError> {
-        let mut newDtd = DTD {
+    fn try_clone(&self) -> Result<Rc<DTD>, TryReserveError> {
+        // The attribute ids may point to `defaultPrefix`,
+        // so the new DTD has to be in its final place from the start
+        let newDtd = Rc::try_new(DTD {
             pool: StringPool::try_new().map_err(|_| TryReserveError::CapacityOverflow)?,
             entityValuePool: StringPool::try_new().map_err(|_| TryReserveError::CapacityOverflow)?,
             tables: Default::default(),
@@ -1168,7 +1170,7 @@ impl DTD {
             /* Don't want deep copying for scaffolding */
             scaffold: Rc::clone(&self.scaffold),
             contentStringLen: self.contentStringLen.clone(),
-        };
+        })?;
 
         unsafe {
             let mut new_tables = newDtd.tables.borrow_mut();
@@ -1274,7 +1276,7 @@ impl DTD {
             /* Copy the entity tables. */
             if copyEntityTable(
                 &mut new_tables.generalEntities,
-                &mut newDtd.pool,
+                &newDtd.pool,
                 &old_tables.generalEntities,
             ) == 0
             {
@@ -1282,7 +1284,7 @@ impl DTD {
             }
             if copyEntityTable(
                 &mut new_tables.paramEntities,
-                &mut newDtd.pool,
+                &newDtd.pool,
                 &old_tables.paramEntities,
             ) == 0
             {
@@ -1949,7 +1951,7 @@ pub unsafe extern "C" fn XML_ExternalEntityParserCreate(
     let newDtd = if context.is_null() {
         Rc::clone(&oldParser.m_dtd)
     } else {
-        match oldParser.m_dtd.try_clone().and_then(Rc::try_new) {
+        match oldParser.m_dtd.try_clone() {
             Ok(newDtd) => newDtd,
             Err(_) => return ptr::null_mut()
         }
-- 
2.43.0


From 897d251190ed4ea67ffc73f7b67bbc1576453b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:30:58 +0000
Subject: [PATCH 20/26] fix: XML_DefaultCurrent where the event has no text

The handler of an entity declaration whose value has an error is called
with the start of the event behind its end: the parser panicked or did
not return.
---
 src/lib/xmlparse.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 63bbc44..8515c29 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3197,24 +3197,23 @@ pub unsafe extern "C" fn XML_DefaultCurrent(mut parser: XML_Parser) {
         return;
     }
     if (*parser).m_handlers.hasDefault() {
-        if !(*parser).m_openInternalEntities.is_null() {
-            reportDefault(
-                parser,
+        let (enc_type, start, end) = if !(*parser).m_openInternalEntities.is_null() {
+            (
                 EncodingType::Internal,
-                ExpatBufRef::new(
-                    (*(*parser).m_openInternalEntities).internalEventPtr,
-                    (*(*parser).m_openInternalEntities).internalEventEndPtr,
-                ),
-            );
+                (*(*parser).m_openInternalEntities).internalEventPtr,
+                (*(*parser).m_openInternalEntities).internalEventEndPtr,
+            )
         } else {
-            reportDefault(
-                parser,
+            (
                 EncodingType::Normal,
-                ExpatBufRef::new(
-                    (*parser).m_eventPtr,
-                    (*parser).m_eventEndPtr,
-                ),
-            );
+                (*parser).m_eventPtr,
+                (*parser).m_eventEndPtr,
+            )
+        };
+        // An entity declaration is reported even if its value has an error,
+        // and the event then starts at that error, behind its end
+        if start <= end {
+            reportDefault(parser, enc_type, ExpatBufRef::new(start, end));
         }
     };
 }
-- 
2.43.0


From a0013516ee809b7535c9a8b0de97fac9c8ced2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:59:15 +0000
Subject: [PATCH 21/26] fix: hand the unknown encoding handler's data on to
 external entity parsers (CVE-2026-24515)

---
 src/lib/xmlparse.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 8515c29..a9abf6f 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1993,6 +1993,8 @@ pub unsafe extern "C" fn XML_ExternalEntityParserCreate(
     (*parser).m_handlers.setExternalEntityRef(oldParser.m_handlers.m_externalEntityRefHandler);
     (*parser).m_handlers.setSkippedEntity(oldParser.m_handlers.m_skippedEntityHandler);
     (*parser).m_handlers.setUnknownEncoding(oldParser.m_handlers.m_unknownEncodingHandler);
+    (*parser).m_handlers.m_unknownEncodingHandlerData =
+        oldParser.m_handlers.m_unknownEncodingHandlerData;
     (*parser).m_handlers.setElementDecl(oldParser.m_handlers.m_elementDeclHandler);
     (*parser).m_handlers.setAttlistDecl(oldParser.m_handlers.m_attlistDeclHandler);
     (*parser).m_handlers.setEntityDecl(oldParser.m_handlers.m_entityDeclHandler);
-- 
2.43.0


From b4152424715aaa62610df5b019d0c469cfd3782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:11:21 +0000
Subject: [PATCH 22/26] fix: build content models without recursion
 (CVE-2022-25313)

---
 src/lib/xmlparse.rs | 89 +++++++++++++++++++--------------------------
 1 file changed, 38 insertions(+), 51 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index a9abf6f..7184afa 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -8263,50 +8263,6 @@ unsafe extern "C" fn keylen(mut s: KEY) -> size_t {
 
 
 impl XML_ParserStruct {
-    fn build_node<'a, 'b>(
-        &self,
-        src_node: usize,
-        dest: &mut XML_Content,
-        mut contpos: &'a mut [XML_Content],
-        mut strpos: &'b mut [XML_Char],
-    ) -> (&'a mut [XML_Content], &'b mut [XML_Char]) {
-        let scf = RefCell::borrow(&self.m_dtd.scaffold);
-        dest.type_0 = scf.scaffold[src_node].type_0;
-        dest.quant = scf.scaffold[src_node].quant;
-        if dest.type_0 == XML_Content_Type::NAME {
-            dest.name = (*strpos).as_ptr() as *mut XML_Char;
-            dest.numchildren = 0;
-            dest.children = ptr::null_mut();
-
-            let mut src = scf.scaffold[src_node].name;
-            loop {
-                let (first, rest) = strpos.split_first_mut().unwrap();
-                *first = unsafe { *src };
-                if *first == 0 {
-                    return (contpos, rest);
-                }
-                unsafe { src = src.offset(1) };
-                strpos = rest;
-            }
-        } else {
-            let (children, rest) = contpos.split_at_mut(scf.scaffold[src_node].childcnt);
-            contpos = rest;
-
-            dest.name = ptr::null_mut();
-            dest.numchildren = children.len().try_into().unwrap();
-            dest.children = children.as_ptr() as *mut XML_Content;
-
-            let mut cn = scf.scaffold[src_node].firstchild;
-            for child in children {
-                let (ncp, nsp) = self.build_node(cn, child, contpos, strpos);
-                cn = scf.scaffold[cn].nextsib;
-                contpos = ncp;
-                strpos = nsp;
-            }
-        }
-        (contpos, strpos)
-    }
-
     unsafe fn build_model(&mut self) -> *mut XML_Content {
         let mut ret: *mut XML_Content = ptr::null_mut();
         let scaffold_len = self.m_dtd.scaffold.borrow().scaffold.len();
@@ -8320,13 +8276,44 @@ impl XML_ParserStruct {
         if ret.is_null() {
             return ptr::null_mut();
         }
-        let str = std::slice::from_raw_parts_mut(
-            ret.add(scaffold_len) as *mut XML_Char,
-            self.m_dtd.contentStringLen.get() as usize);
-        let cpos = std::slice::from_raw_parts_mut(
-            ret.offset(1) as *mut XML_Content,
-            scaffold_len as usize - 1);
-        self.build_node(0, &mut *ret, cpos, str);
+        let scf = self.m_dtd.scaffold.borrow();
+        let mut strpos = ret.add(scaffold_len) as *mut XML_Char;
+        /* The nodes are built in the order in which they are found, without
+         * recursion. A node that has been found but not built yet keeps the
+         * number of its scaffold in numchildren.
+         */
+        let mut found: usize = 1;
+        (*ret).numchildren = 0;
+        for i in 0..scaffold_len {
+            let dest = ret.add(i);
+            let src = &scf.scaffold[(*dest).numchildren as usize];
+            (*dest).type_0 = src.type_0;
+            (*dest).quant = src.quant;
+            if src.type_0 == XML_Content_Type::NAME {
+                (*dest).name = strpos;
+                (*dest).numchildren = 0;
+                (*dest).children = ptr::null_mut();
+                let mut s = src.name;
+                loop {
+                    *strpos = *s;
+                    strpos = strpos.offset(1);
+                    if *s == 0 {
+                        break;
+                    }
+                    s = s.offset(1);
+                }
+            } else {
+                (*dest).name = ptr::null_mut();
+                (*dest).numchildren = src.childcnt.try_into().unwrap();
+                (*dest).children = ret.add(found);
+                let mut cn = src.firstchild;
+                for _ in 0..src.childcnt {
+                    (*ret.add(found)).numchildren = cn.try_into().unwrap();
+                    found += 1;
+                    cn = scf.scaffold[cn].nextsib;
+                }
+            }
+        }
         ret
     }
 
-- 
2.43.0


From 94c9a8c73269009b2a6f7efcc97ac5336727e2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:41:54 +0000
Subject: [PATCH 23/26] fix: resume content behind an internal entity with the
 processor of the parser (CVE-2022-40674)

---
 src/lib/xmlparse.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 7184afa..91444c0 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7151,19 +7151,13 @@ unsafe extern "C" fn internalEntityProcessor(
         )
     } else {
         /* XML_DTD */
-        (*parser).m_processor = Some(contentProcessor as Processor);
-        /* see externalEntityContentProcessor vs contentProcessor */
-        (*parser).doContent(
-            if (*parser).is_child_parser {
-                1i32
-            } else {
-                0i32
-            },
-            EncodingType::Normal,
-            buf,
-            nextPtr,
-            !(*parser).m_parsingStatus.finalBuffer,
-        )
+        let processor: Processor = if (*parser).is_child_parser {
+            externalEntityContentProcessor
+        } else {
+            contentProcessor
+        };
+        (*parser).m_processor = Some(processor);
+        processor(parser, buf, nextPtr)
     } /* save one level of indirection */
 }
 
-- 
2.43.0


From c10014e711fd1b8a7ad96774feca4182a0aad23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:51:25 +0000
Subject: [PATCH 24/26] fix: an element declaration left unfinished by the
 parser of a parameter entity

---
 src/lib/xmlparse.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 91444c0..2fb7a80 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1310,6 +1310,13 @@ pub struct DTDScaffold {
 }
 
 impl DTDScaffold {
+    /// Whether a group of an element declaration is open. It need not be in
+    /// the middle of one: a parser of a parameter entity that began another
+    /// element declaration can have been given up.
+    fn in_group(&self) -> bool {
+        !self.index.is_empty()
+    }
+
     fn next_part(&mut self) -> Option<usize> {
         if self.scaffold.try_reserve(1).is_err() {
             return None;
@@ -6510,6 +6517,7 @@ impl XML_ParserStruct {
                         return XML_Error::SYNTAX;
                     }
                     if self.m_dtd.in_eldecl.get()
+                        && self.m_dtd.scaffold.borrow().in_group()
                         && *self
                         .m_groupConnector
                         .offset(self.m_prologState.level as isize)
@@ -6658,7 +6666,7 @@ impl XML_ParserStruct {
                     }
                 }
                 XML_ROLE::CONTENT_PCDATA => {
-                    if self.m_dtd.in_eldecl.get() {
+                    if self.m_dtd.in_eldecl.get() && self.m_dtd.scaffold.borrow().in_group() {
                         let mut scf = self.m_dtd.scaffold.borrow_mut();
                         let idx = scf.index.last().copied().unwrap();
                         scf.scaffold[idx].type_0 = XML_Content_Type::MIXED;
@@ -6755,7 +6763,7 @@ impl XML_ParserStruct {
                 XML_ROLE::CONTENT_ELEMENT_OPT | 
                 XML_ROLE::CONTENT_ELEMENT_REP | 
                 XML_ROLE::CONTENT_ELEMENT_PLUS => {
-                    if self.m_dtd.in_eldecl.get() {
+                    if self.m_dtd.in_eldecl.get() && self.m_dtd.scaffold.borrow().in_group() {
                         let mut nxt: *const c_char = if quant == XML_Content_Quant::NONE {
                             next
                         } else {
@@ -6798,7 +6806,7 @@ impl XML_ParserStruct {
                 XML_ROLE::GROUP_CLOSE_OPT |
                 XML_ROLE::GROUP_CLOSE_REP |
                 XML_ROLE::GROUP_CLOSE_PLUS => {
-                    if self.m_dtd.in_eldecl.get() {
+                    if self.m_dtd.in_eldecl.get() && self.m_dtd.scaffold.borrow().in_group() {
                         if self.m_handlers.hasElementDecl() {
                             handleDefault = false
                         }
-- 
2.43.0


From de50b722e9e5a01f1851e88dd84cb7f719d85014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:16:38 +0000
Subject: [PATCH 25/26] fix: the size of a content model is computed without
 overflow

---
 src/lib/xmlparse.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 2fb7a80..16c3e5d 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1096,7 +1096,7 @@ pub struct DTD {
     paramEntityRead: Cell<XML_Bool>,
     defaultPrefix: Cell<Prefix>,
     in_eldecl: Cell<XML_Bool>,
-    contentStringLen: Cell<c_uint>,
+    contentStringLen: Cell<usize>,
 }
 
 #[derive(Default)]
@@ -6785,7 +6785,7 @@ impl XML_ParserStruct {
                         scf.scaffold[myindex].name = (*el).name;
 
                         let mut name_2 = (*el).name;
-                        let mut nameLen = 0;
+                        let mut nameLen: usize = 0;
                         loop {
                             let fresh37 = nameLen;
                             nameLen = nameLen + 1;
@@ -6796,7 +6796,7 @@ impl XML_ParserStruct {
                         self.m_dtd.contentStringLen.set(self.m_dtd
                             .contentStringLen
                             .get()
-                            .wrapping_add(nameLen as c_uint));
+                            .wrapping_add(nameLen));
                         if self.m_handlers.hasElementDecl() {
                             handleDefault = false
                         }
@@ -8268,13 +8268,12 @@ impl XML_ParserStruct {
     unsafe fn build_model(&mut self) -> *mut XML_Content {
         let mut ret: *mut XML_Content = ptr::null_mut();
         let scaffold_len = self.m_dtd.scaffold.borrow().scaffold.len();
-        let mut allocsize: c_int = (scaffold_len as c_ulong)
-            .wrapping_mul(::std::mem::size_of::<XML_Content>() as c_ulong)
-            .wrapping_add(
-                (self.m_dtd.contentStringLen.get() as c_ulong)
-                    .wrapping_mul(::std::mem::size_of::<XML_Char>() as c_ulong),
-            ) as c_int;
-        ret = MALLOC!(allocsize as size_t) as *mut XML_Content;
+        if scaffold_len > c_uint::MAX as usize {
+            return ptr::null_mut();
+        }
+        let allocsize = scaffold_len * mem::size_of::<XML_Content>()
+            + self.m_dtd.contentStringLen.get() * mem::size_of::<XML_Char>();
+        ret = MALLOC!(allocsize) as *mut XML_Content;
         if ret.is_null() {
             return ptr::null_mut();
         }
-- 
2.43.0


From d609631c2a7f9f9f374e8f3328f86a63fe7890bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:16:38 +0000
Subject: [PATCH 26/26] fix: the memory for open groups does not overflow its
 size (CVE-2021-46143)

---
 src/lib/xmlparse.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 16c3e5d..cab11b5 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -6456,14 +6456,17 @@ impl XML_ParserStruct {
                     /* XML_DTD */
                     if self.m_prologState.level >= self.m_groupSize {
                         if self.m_groupSize != 0 {
-                            self.m_groupSize = self.m_groupSize.wrapping_mul(2);
+                            let new_size = match self.m_groupSize.checked_mul(2) {
+                                Some(new_size) => new_size,
+                                None => return XML_Error::NO_MEMORY,
+                            };
                             let new_connector = REALLOC!(
-                                self.m_groupConnector => [c_char; self.m_groupSize]);
+                                self.m_groupConnector => [c_char; new_size]);
                             if new_connector.is_null() {
-                                self.m_groupSize = self.m_groupSize.wrapping_div(2);
                                 return XML_Error::NO_MEMORY;
                             }
                             self.m_groupConnector = new_connector;
+                            self.m_groupSize = new_size;
                         } else {
                             self.m_groupSize = 32;
                             self.m_groupConnector = MALLOC![c_char; self.m_groupSize];
-- 
2.43.0

