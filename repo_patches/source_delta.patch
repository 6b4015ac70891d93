From e9ad776b05448c70a2e338af07f4af708aa4a53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 01/23] fix: end mark of an implicit DOCUMENT-START event

The event is empty: libyaml reports the start of the first token as both its
start and its end, not the end of that token.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0e6f522..b03b077 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -279,7 +279,7 @@ impl<R: BufRead> Parser<R> {
                     implicit: true,
                 },
                 start_mark: token.start_mark,
-                end_mark: token.end_mark,
+                end_mark: token.start_mark,
             };
             self.process_directives(None, None)?;
             self.inner.states.push(ParserState::DocumentEnd);
-- 
2.43.0


From ad329c62f91c8ad7be2d1100f4b93bd80b4f459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 02/23] fix: scan the token after the node properties before
 resolving the tag

Like libyaml, report a scanner error in the content before complaining about
an undefined tag handle.
---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b03b077..3ff290c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -419,6 +419,8 @@ impl<R: BufRead> Parser<R> {
             }
         }
 
+        let token = self.scanner.peek_mut()?;
+
         if let Some(ref tag_handle_value) = tag_handle {
             if tag_handle_value.is_empty() {
                 tag = tag_suffix;
@@ -441,8 +443,6 @@ impl<R: BufRead> Parser<R> {
             }
         }
 
-        let token = self.scanner.peek_mut()?;
-
         let implicit = tag.is_none() || tag.as_deref() == Some("");
 
         if indentless_sequence && matches!(token.data, TokenData::BlockEntry) {
-- 
2.43.0


From 35ef1b5462318107e3253534286b75f5753473bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 03/23] fix: end mark of the MAPPING-END event of a single pair
 in a flow sequence

The event is empty: libyaml reports the start of the next token as both its
start and its end.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3ff290c..00a7542 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -803,7 +803,7 @@ impl<R: BufRead> Parser<R> {
     fn parse_flow_sequence_entry_mapping_end(&mut self) -> Result<Event> {
         let token = self.scanner.peek()?;
         let start_mark = token.start_mark;
-        let end_mark = token.end_mark;
+        let end_mark = token.start_mark;
         self.inner.state = ParserState::FlowSequenceEntry;
         Ok(Event {
             data: EventData::MappingEnd,
-- 
2.43.0


From 585188907cd1fcea759297a5f1b5483a092673ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 04/23] fix: panic on a tag directly followed by ',' in flow
 context

libyaml accepts the tag.
---
 src/scanner.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index ab97696..e1dc172 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1109,7 +1109,6 @@ impl<R: BufRead> Scanner<R> {
                     "did not find expected whitespace or line break",
                 );
             }
-            panic!("TODO: What is expected here?");
         }
 
         let end_mark: Mark = self.mark;
-- 
2.43.0


From f8964c6184853c92c419a1297c3f5e24eabd1dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 05/23] fix: decode %XX escapes in tags and %TAG prefixes as
 UTF-8
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Every octet used to be appended as a Latin-1 character, so '!%C3%A9' yielded
'!Ã©'. Collect the octets of one character and decode them; octet sequences
that are not UTF-8 (which libyaml copies verbatim) are reported as an error.
---
 src/scanner.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index e1dc172..656e323 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1224,7 +1224,9 @@ impl<R: BufRead> Scanner<R> {
         start_mark: Mark,
         string: &mut String,
     ) -> Result<()> {
-        let mut width: i32 = 0;
+        let mut octets = [0u8; 4];
+        let mut length: usize = 0;
+        let mut width: usize = 0;
         loop {
             self.cache(3)?;
             if !(CHECK!(self.buffer, '%')
@@ -1254,7 +1256,6 @@ impl<R: BufRead> Scanner<R> {
                 } else {
                     0
                 };
-                // TODO: Something is fishy here, why isn't `width` being used?
                 if width == 0 {
                     return self.set_scanner_error(
                         if directive {
@@ -1277,16 +1278,31 @@ impl<R: BufRead> Scanner<R> {
                     "found an incorrect trailing UTF-8 octet",
                 );
             }
-            string.push(char::from_u32(octet as _).expect("invalid Unicode"));
+            octets[length] = octet;
+            length += 1;
             self.skip_char();
             self.skip_char();
             self.skip_char();
-            width -= 1;
-            if width == 0 {
+            if length == width {
                 break;
             }
         }
-        Ok(())
+        match core::str::from_utf8(&octets[..length]) {
+            Ok(decoded) => {
+                string.push_str(decoded);
+                Ok(())
+            }
+            // Overlong sequences, surrogates and out of range values.
+            Err(_) => self.set_scanner_error(
+                if directive {
+                    "while parsing a %TAG directive"
+                } else {
+                    "while parsing a tag"
+                },
+                start_mark,
+                "found an incorrect trailing UTF-8 octet",
+            ),
+        }
     }
 
     fn scan_block_scalar(&mut self, literal: bool) -> Result<Token> {
-- 
2.43.0


From d7e136fc2d6b65c10566299556f7d6f516673a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 06/23] fix: end mark of the SEQUENCE-END event of an
 indentless sequence

The event is empty: libyaml reports the start of the next token as both its
start and its end.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 00a7542..23a49eb 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -632,7 +632,7 @@ impl<R: BufRead> Parser<R> {
             let event = Event {
                 data: EventData::SequenceEnd,
                 start_mark: token.start_mark,
-                end_mark: token.end_mark,
+                end_mark: token.start_mark,
             };
             self.inner.state = self.inner.states.pop().unwrap();
             Ok(event)
-- 
2.43.0


From 6bd494b12b24a474be3cc487f40ad7f9c9e85fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 07/23] fix: panic on a block scalar whose last line has no
 line break

Like the libyaml macro, reading a line break at the end of the input is a
no-op.
---
 src/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 656e323..ac141a0 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -163,7 +163,7 @@ impl<R: BufRead> Scanner<R> {
     fn read_line_break(&mut self, string: &mut String) {
         let front = match self.buffer.front().copied() {
             Some(front) => front,
-            None => panic!("unexpected end of input"),
+            None => return,
         };
 
         if let ('\r', Some('\n')) = (front, self.buffer.get(1).copied()) {
-- 
2.43.0


From c6a5262e4255cece1d4122541a8371fc06f1888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 08/23] fix: panic on a backslash at the end of the input

libyaml reports an unknown escape character.
---
 src/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index ac141a0..97467d6 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1553,7 +1553,7 @@ impl<R: BufRead> Scanner<R> {
                         break;
                     } else if !single && CHECK!(self.buffer, '\\') {
                         let mut code_length = 0usize;
-                        match self.buffer.get(1).copied().unwrap() {
+                        match self.buffer.get(1).copied().unwrap_or('\0') {
                             '0' => {
                                 string.push('\0');
                             }
-- 
2.43.0


From ab85865d47669da55c8f444835f4b37e60769223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 09/23] fix: report UTF-8 as the encoding of an empty stream

The STREAM-START of an empty input carried Encoding::Any; like libyaml, fall
back to UTF-8.
---
 src/reader.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reader.rs b/src/reader.rs
index f70cd50..fed4e97 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -298,6 +298,7 @@ pub(crate) fn yaml_parser_update_buffer<R: BufRead>(
         if let Some(encoding) = yaml_parser_determine_encoding(reader)? {
             parser.encoding = encoding;
         } else {
+            parser.encoding = Encoding::Utf8;
             parser.eof = true;
             return Ok(());
         }
-- 
2.43.0


From da70526a56bb6d54977e2db3dc34254c3fd51eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 10/23] fix: consume UTF-16 input in bytes rather than in code
 units

Only half of the decoded bytes were consumed, so UTF-16 input was decoded over
and over again, and the offset was advanced twice. The debug assertion did not
hold for unpaired surrogates and for surrogate pairs split between two chunks.
---
 src/reader.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index fed4e97..1a5b34a 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -175,7 +175,8 @@ fn read_utf16_buffered<const BIG_ENDIAN: bool>(
         match ch {
             Ok(ch) => {
                 push_char(out, ch, *offset)?;
-                let n = ch.len_utf16();
+                // Every code unit takes two bytes.
+                let n = ch.len_utf16() * 2;
                 *offset += n;
                 used += n;
             }
@@ -193,10 +194,8 @@ fn read_utf16_buffered<const BIG_ENDIAN: bool>(
 
     if used != 0 {
         reader.consume(used);
-        *offset += used;
         Ok(true)
     } else {
-        debug_assert!(!available.is_empty() && available.len() < 2);
         read_utf16_char_unbuffered::<BIG_ENDIAN>(reader, out, offset)?;
         Ok(true)
     }
-- 
2.43.0


From 457328f4496f7d4719f89caa9d96ae4c4738eb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 11/23] fix: report truncated input as a reader error

A multi-byte character cut short by the end of the input is a decoding error
(as in libyaml), not an I/O error: the reader did not fail.
---
 src/reader.rs | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 1a5b34a..d7fe569 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -106,9 +106,6 @@ fn read_utf8_buffered(
                         // The beginning of the buffer was an incomplete UTF-8
                         // sequence. Read the whole character unbuffered.
                         //
-                        // This will return `UnexpectedEof` if the sequence
-                        // cannot be completed. Note that `read_exact()` handles
-                        // interrupt automatically.
                         let initial = available[0];
                         read_utf8_char_unbuffered(reader, out, initial, offset)?;
                         Ok(true)
@@ -127,7 +124,13 @@ fn read_utf8_char_unbuffered(
 ) -> Result<()> {
     let width = utf8_char_width(initial);
     let mut buffer = [0; 4];
-    reader.read_exact(&mut buffer[..width])?;
+    if read_full(reader, &mut buffer[..width])? != width {
+        return Err(Error::reader(
+            "incomplete UTF-8 octet sequence",
+            *offset,
+            -1,
+        ));
+    }
     if let Ok(valid) = core::str::from_utf8(&buffer[..width]) {
         // We read a whole, valid character.
         let ch = match valid.chars().next() {
@@ -207,7 +210,9 @@ fn read_utf16_char_unbuffered<const BIG_ENDIAN: bool>(
     offset: &mut usize,
 ) -> Result<()> {
     let mut buffer = [0; 2];
-    reader.read_exact(&mut buffer)?;
+    if read_full(reader, &mut buffer)? != 2 {
+        return Err(Error::reader("incomplete UTF-16 character", *offset, -1));
+    }
     let first = if BIG_ENDIAN {
         u16::from_be_bytes(buffer)
     } else {
@@ -215,7 +220,13 @@ fn read_utf16_char_unbuffered<const BIG_ENDIAN: bool>(
     };
 
     if is_utf16_surrogate(first) {
-        reader.read_exact(&mut buffer)?;
+        if read_full(reader, &mut buffer)? != 2 {
+            return Err(Error::reader(
+                "incomplete UTF-16 surrogate pair",
+                *offset,
+                -1,
+            ));
+        }
         let second = if BIG_ENDIAN {
             u16::from_be_bytes(buffer)
         } else {
@@ -247,6 +258,21 @@ fn read_utf16_char_unbuffered<const BIG_ENDIAN: bool>(
     }
 }
 
+/// Read until `buffer` is full or the end of the input is reached, and return
+/// the number of bytes read.
+fn read_full(reader: &mut dyn BufRead, buffer: &mut [u8]) -> Result<usize> {
+    let mut len = 0;
+    while len < buffer.len() {
+        match reader.read(&mut buffer[len..]) {
+            Ok(0) => break,
+            Ok(n) => len += n,
+            Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),
+            Err(err) => return Err(err.into()),
+        }
+    }
+    Ok(len)
+}
+
 fn utf8_char_width(initial: u8) -> usize {
     if initial & 0x80 == 0 {
         1
-- 
2.43.0


From 2bf2d3e49f3331d06280faa50a15c3ddad8c7f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 12/23] fix: detection of the byte order mark

Input starting with any three-byte character whose first byte is 0xEF was
rejected, an incomplete byte order mark was reported as an I/O error,
interrupted reads were not retried, and the offset did not count the mark.
---
 src/reader.rs | 50 +++++++++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index d7fe569..a5677db 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4,36 +4,42 @@ use alloc::collections::VecDeque;
 
 use crate::{Encoding, Error, Result, scanner::Scanner};
 
-const BOM_UTF8: [u8; 3] = [0xef, 0xbb, 0xbf];
+const BOM: char = '\u{feff}';
 const BOM_UTF16LE: [u8; 2] = [0xff, 0xfe];
 const BOM_UTF16BE: [u8; 2] = [0xfe, 0xff];
 
-fn yaml_parser_determine_encoding(reader: &mut dyn BufRead) -> Result<Option<Encoding>> {
-    let initial_bytes = reader.fill_buf()?;
-    if initial_bytes.is_empty() {
-        return Ok(None);
-    }
+fn yaml_parser_determine_encoding(
+    reader: &mut dyn BufRead,
+    out: &mut VecDeque<char>,
+    offset: &mut usize,
+) -> Result<Option<Encoding>> {
+    let initial = loop {
+        match reader.fill_buf() {
+            Ok([]) => return Ok(None),
+            Ok(available) => break available[0],
+            Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),
+            Err(err) => return Err(err.into()),
+        }
+    };
 
-    match initial_bytes[0] {
+    match initial {
         0xef => {
-            let mut bom = [0; 3];
-            reader.read_exact(&mut bom)?;
-            if bom == BOM_UTF8 {
-                Ok(Some(Encoding::Utf8))
-            } else {
-                Err(Error::reader(
-                    "invalid byte order marker",
-                    0,
-                    i32::from_be_bytes([bom[0], bom[1], bom[2], 0]),
-                ))
+            // Either a byte order mark, or some other character that takes
+            // three bytes in UTF-8.
+            read_utf8_char_unbuffered(reader, out, initial, offset)?;
+            if out.front() == Some(&BOM) {
+                out.pop_front();
             }
+            Ok(Some(Encoding::Utf8))
         }
         0xff | 0xfe => {
             let mut bom = [0; 2];
-            reader.read_exact(&mut bom)?;
-            if bom == BOM_UTF16LE {
+            let len = read_full(reader, &mut bom)?;
+            if len == 2 && bom == BOM_UTF16LE {
+                *offset += 2;
                 Ok(Some(Encoding::Utf16Le))
-            } else if bom == BOM_UTF16BE {
+            } else if len == 2 && bom == BOM_UTF16BE {
+                *offset += 2;
                 Ok(Some(Encoding::Utf16Be))
             } else {
                 Err(Error::reader(
@@ -320,7 +326,9 @@ pub(crate) fn yaml_parser_update_buffer<R: BufRead>(
         return Ok(());
     }
     if parser.encoding == Encoding::Any {
-        if let Some(encoding) = yaml_parser_determine_encoding(reader)? {
+        if let Some(encoding) =
+            yaml_parser_determine_encoding(reader, &mut parser.buffer, &mut parser.offset)?
+        {
             parser.encoding = encoding;
         } else {
             parser.encoding = Encoding::Utf8;
-- 
2.43.0


From 5329cf5519021cd4f0fc53d74633ffa7f7a2c748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 13/23] fix: recognise the byte order mark in emitted scalars

A typo made the emitter test for U+7EFF instead of U+FEFF.
---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index f91e4f6..ddd01ec 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -109,7 +109,7 @@ macro_rules! IS_BOM {
 }
 
 pub(crate) fn is_bom(ch: char) -> bool {
-    ch == '\u{7eff}'
+    ch == '\u{feff}'
 }
 
 macro_rules! IS_SPACE_AT {
-- 
2.43.0


From 9274478dfbc5aadbd597cf22c89c7d0d0eb98899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 14/23] fix: end the event stream after a parser error

Resuming after an error could panic, repeat the error forever (also through
the iterator, which claims to be fused), or produce events for a malformed
stream. Like in libyaml, an error is final: parse() then reports the end of
the stream, the iterator ends, and Document::load() returns an empty document.
---
 src/document.rs | 8 ++++++--
 src/parser.rs   | 7 ++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 69d21ba..3af5948 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -2,8 +2,8 @@ use std::io::BufRead;
 
 use crate::{
     AliasData, Anchors, DEFAULT_MAPPING_TAG, DEFAULT_SCALAR_TAG, DEFAULT_SEQUENCE_TAG, Emitter,
-    Error, Event, EventData, MappingStyle, Mark, Parser, ParserInner, Result, ScalarStyle,
-    SequenceStyle, TagDirective, VersionDirective,
+    Error, Event, EventData, MappingStyle, Mark, Parser, ParserInner, ParserState, Result,
+    ScalarStyle, SequenceStyle, TagDirective, VersionDirective,
 };
 
 /// The document structure.
@@ -252,6 +252,9 @@ impl Document {
         let mut document = Document::new(None, &[], false, false);
         document.nodes.reserve(16);
 
+        if parser.inner.state == ParserState::End {
+            return Ok(document);
+        }
         if !parser.scanner.stream_start_produced {
             match parser.parse() {
                 Ok(Event {
@@ -286,6 +289,7 @@ impl Document {
             Err(e) => err = e,
         }
         parser.inner.delete_aliases();
+        parser.inner.state = ParserState::End;
         Err(err)
     }
 
diff --git a/src/parser.rs b/src/parser.rs
index 23a49eb..1644f93 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -189,7 +189,12 @@ impl<R: BufRead> Parser<R> {
         if self.scanner.stream_end_produced || self.inner.state == ParserState::End {
             return Ok(Event::stream_end());
         }
-        self.state_machine()
+        let result = self.state_machine();
+        if result.is_err() {
+            // There is no way to resume after an error.
+            self.inner.state = ParserState::End;
+        }
+        result
     }
 
     fn state_machine(&mut self) -> Result<Event> {
-- 
2.43.0


From 4c8ce6141200569195471463d10ebc975cd5e5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 15/23] fix: end the token stream after a scanner error

Same as for the parser: an error is final, so that the iterator is fused and
no tokens are produced from the middle of a malformed construct.
---
 src/scanner.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 97467d6..4c9bebf 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -202,7 +202,11 @@ impl<R: BufRead> Scanner<R> {
             });
         }
         if !self.token_available {
-            self.fetch_more_tokens()?;
+            if let Err(err) = self.fetch_more_tokens() {
+                // There is no way to resume after an error.
+                self.stream_end_produced = true;
+                return Err(err);
+            }
         }
         if let Some(token) = self.tokens.pop_front() {
             self.token_available = false;
-- 
2.43.0


From 6e49af27e9ae361b2681e29ca4bcbc64c65c64cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 16/23] fix: Document::get_node(0) panics instead of returning
 None

---
 src/document.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 3af5948..af9c567 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -108,14 +108,14 @@ impl Document {
     ///
     /// Returns the node object or `None` if `index` is out of range.
     pub fn get_node_mut(&mut self, index: i32) -> Option<&mut Node> {
-        self.nodes.get_mut(index as usize - 1)
+        self.nodes.get_mut((index as usize).checked_sub(1)?)
     }
 
     /// Get a node of a YAML document.
     ///
     /// Returns the node object or `None` if `index` is out of range.
     pub fn get_node(&self, index: i32) -> Option<&Node> {
-        self.nodes.get(index as usize - 1)
+        self.nodes.get((index as usize).checked_sub(1)?)
     }
 
     /// Get the root of a YAML document node.
-- 
2.43.0


From d240d70361ea52163de35e18df52eb5eeccd619b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 17/23] fix: panic when dumping a document with aliases to
 nested nodes

References were only counted for the direct children of the root, so that a
deeper node which is referenced twice did not get an anchor.
---
 src/document.rs | 6 +++---
 src/emitter.rs  | 8 --------
 2 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index af9c567..0d4e4fe 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -610,13 +610,13 @@ impl Document {
             match &node.data {
                 NodeData::Sequence { items, .. } => {
                     for item in items {
-                        emitter.anchor_node_sub(*item);
+                        self.anchor_node(emitter, *item);
                     }
                 }
                 NodeData::Mapping { pairs, .. } => {
                     for pair in pairs {
-                        emitter.anchor_node_sub(pair.key);
-                        emitter.anchor_node_sub(pair.value);
+                        self.anchor_node(emitter, pair.key);
+                        self.anchor_node(emitter, pair.value);
                     }
                 }
                 _ => {}
diff --git a/src/emitter.rs b/src/emitter.rs
index 7647c65..fc6bb6e 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1816,14 +1816,6 @@ impl<'w> Emitter<'w> {
         self.last_anchor_id = 0;
     }
 
-    pub(crate) fn anchor_node_sub(&mut self, index: i32) {
-        self.anchors[index as usize - 1].references += 1;
-        if self.anchors[index as usize - 1].references == 2 {
-            self.last_anchor_id += 1;
-            self.anchors[index as usize - 1].anchor = self.last_anchor_id;
-        }
-    }
-
     pub(crate) fn generate_anchor(anchor_id: i32) -> String {
         alloc::format!("id{anchor_id:03}")
     }
-- 
2.43.0


From 294e49f8f6b2a939c91fd16a8d404be5c47c2a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 18/23] fix: panic when emitting a tag that is not ASCII

Slicing the tag at the length of a tag prefix panics when that is in the
middle of a character.
---
 src/emitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index fc6bb6e..a07d3a9 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1130,7 +1130,7 @@ impl<'w> Emitter<'w> {
 
         for tag_directive in tag_directives {
             let prefix_len = tag_directive.prefix.len();
-            if prefix_len < tag.len() && tag_directive.prefix == tag[0..prefix_len] {
+            if prefix_len < tag.len() && tag.starts_with(&tag_directive.prefix) {
                 handle = &tag_directive.handle;
                 suffix = &tag[prefix_len..];
                 break;
-- 
2.43.0


From ff2244dc40f907a3d66c7b26cc4b303b66033809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 19/23] fix: line breaks in folded scalars

The character after the line breaks was skipped when looking for a blank, so
that the wrong number of line breaks was written for some scalars, e.g. before
lines with a single character and before more-indented lines.
---
 src/emitter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index a07d3a9..948e188 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1735,8 +1735,11 @@ impl<'w> Emitter<'w> {
             if is_break(ch) {
                 if !breaks && !leading_spaces && ch == '\n' {
                     let mut skip_breaks = chars.clone();
-                    while is_break(skip_breaks.next()) {}
-                    if !is_blankz(skip_breaks.next()) {
+                    let mut next = skip_breaks.next();
+                    while is_break(next) {
+                        next = skip_breaks.next();
+                    }
+                    if !is_blankz(next) {
                         self.put_break()?;
                     }
                 }
-- 
2.43.0


From 866d35796990cbdbcc7953223bb14c5f37602e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 20/23] fix: panic when emitting after an event was refused

---
 src/emitter.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index 948e188..7c33623 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -304,14 +304,22 @@ impl<'w> Emitter<'w> {
         while let Some(event) = self.needs_mode_events() {
             let tag_directives = core::mem::take(&mut self.tag_directives);
 
-            let mut analysis = self.analyze_event(&event, &tag_directives)?;
-            self.state_machine(&event, &mut analysis)?;
+            let result = self
+                .analyze_event(&event, &tag_directives)
+                .and_then(|mut analysis| self.state_machine(&event, &mut analysis));
 
             // The DOCUMENT-START event populates the tag directives, and this
             // happens only once, so don't swap out the tags in that case.
             if self.tag_directives.is_empty() {
                 self.tag_directives = tag_directives;
             }
+
+            if let Err(err) = result {
+                // An event that could not be emitted stays in the queue, so
+                // that nothing following it is emitted out of context.
+                self.events.push_front(event);
+                return Err(err);
+            }
         }
         Ok(())
     }
-- 
2.43.0


From 29f531782b4d28bbb59ea0e61b6864a3f0cf3e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:29 +0000
Subject: [PATCH 21/23] fix: keep run-emitter-test-suite from reading anchors
 and tags out of scalar values

---
 src/bin/run-emitter-test-suite.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/bin/run-emitter-test-suite.rs b/src/bin/run-emitter-test-suite.rs
index efeddc1..63f483e 100644
--- a/src/bin/run-emitter-test-suite.rs
+++ b/src/bin/run-emitter-test-suite.rs
@@ -96,20 +96,27 @@ pub(crate) fn test_main(
     }
 }
 
-fn get_anchor(sigil: char, line: &str) -> Option<&str> {
-    let (_, from_sigil) = line.split_once(sigil)?;
-    if let Some((until_space, _tail)) = from_sigil.split_once(' ') {
-        Some(until_space)
-    } else if !from_sigil.is_empty() {
-        Some(from_sigil)
-    } else {
-        None
+/// The part of an event line that precedes the value, if it has one.
+fn properties(line: &str) -> &str {
+    if !line.starts_with("=VAL") {
+        return line;
     }
+    line.match_indices(' ')
+        .map(|(i, _)| line.split_at(i))
+        .find(|(_, tail)| tail[1..].starts_with(|ch| matches!(ch, ':' | '\'' | '"' | '|' | '>')))
+        .map_or(line, |(before, _)| before)
+}
+
+fn get_anchor(sigil: char, line: &str) -> Option<&str> {
+    properties(line)
+        .split(' ')
+        .find_map(|property| property.strip_prefix(sigil))
+        .filter(|anchor| !anchor.is_empty())
 }
 
 fn get_tag(line: &str) -> Option<&str> {
-    let (_, from_angle_open) = line.split_once('<')?;
-    let (until_angle_close, _) = from_angle_open.split_once('>')?;
+    let (_, from_angle_open) = properties(line).split_once('<')?;
+    let (until_angle_close, _) = from_angle_open.rsplit_once('>')?;
     Some(until_angle_close)
 }
 
-- 
2.43.0


From abc738ca2ecca96abc9fb49b3d5ecf4da36ddc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:54 +0000
Subject: [PATCH 22/23] fix: stack overflow when dumping a deeply nested
 document

Document::dump() recursed into the nodes, so that a document of some ten
thousand nested collections, which is loaded without trouble, aborted the
process.
---
 src/document.rs | 83 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 51 insertions(+), 32 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 0d4e4fe..eb21741 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -82,6 +82,14 @@ pub struct NodePair {
     pub value: i32,
 }
 
+/// What is left to be done by [`Document::dump()`].
+enum Pending {
+    /// Dump a node.
+    Node(i32),
+    /// End the collection whose items have been dumped.
+    End(Event),
+}
+
 impl Document {
     /// Create a YAML document.
     pub fn new(
@@ -594,7 +602,13 @@ impl Document {
             });
             emitter.emit(event)?;
             self.anchor_node(emitter, 1);
-            self.dump_node(emitter, 1)?;
+            let mut pending = vec![Pending::Node(1)];
+            while let Some(next) = pending.pop() {
+                match next {
+                    Pending::Node(index) => self.dump_node(emitter, index, &mut pending)?,
+                    Pending::End(event) => emitter.emit(event)?,
+                }
+            }
             let event = Event::document_end(self.end_implicit);
             emitter.emit(event)?;
         }
@@ -604,30 +618,37 @@ impl Document {
     }
 
     fn anchor_node(&self, emitter: &mut Emitter, index: i32) {
-        let node = &self.nodes[index as usize - 1];
-        emitter.anchors[index as usize - 1].references += 1;
-        if emitter.anchors[index as usize - 1].references == 1 {
-            match &node.data {
-                NodeData::Sequence { items, .. } => {
-                    for item in items {
-                        self.anchor_node(emitter, *item);
+        // Not recursive, because nodes may be nested deeper than the stack is.
+        let mut pending = vec![index];
+        while let Some(index) = pending.pop() {
+            let node = &self.nodes[index as usize - 1];
+            emitter.anchors[index as usize - 1].references += 1;
+            if emitter.anchors[index as usize - 1].references == 1 {
+                match &node.data {
+                    NodeData::Sequence { items, .. } => {
+                        pending.extend(items.iter().rev());
                     }
-                }
-                NodeData::Mapping { pairs, .. } => {
-                    for pair in pairs {
-                        self.anchor_node(emitter, pair.key);
-                        self.anchor_node(emitter, pair.value);
+                    NodeData::Mapping { pairs, .. } => {
+                        for pair in pairs.iter().rev() {
+                            pending.push(pair.value);
+                            pending.push(pair.key);
+                        }
                     }
+                    _ => {}
                 }
-                _ => {}
+            } else if emitter.anchors[index as usize - 1].references == 2 {
+                emitter.last_anchor_id += 1;
+                emitter.anchors[index as usize - 1].anchor = emitter.last_anchor_id;
             }
-        } else if emitter.anchors[index as usize - 1].references == 2 {
-            emitter.last_anchor_id += 1;
-            emitter.anchors[index as usize - 1].anchor = emitter.last_anchor_id;
         }
     }
 
-    fn dump_node(&mut self, emitter: &mut Emitter, index: i32) -> Result<()> {
+    fn dump_node(
+        &mut self,
+        emitter: &mut Emitter,
+        index: i32,
+        pending: &mut Vec<Pending>,
+    ) -> Result<()> {
         assert!(index > 0);
         let node = &mut self.nodes[index as usize - 1];
         let anchor_id: i32 = emitter.anchors[index as usize - 1].anchor;
@@ -643,8 +664,8 @@ impl Document {
         let node = core::mem::take(node);
         match node.data {
             NodeData::Scalar { .. } => Self::dump_scalar(emitter, node, anchor),
-            NodeData::Sequence { .. } => self.dump_sequence(emitter, node, anchor),
-            NodeData::Mapping { .. } => self.dump_mapping(emitter, node, anchor),
+            NodeData::Sequence { .. } => Self::dump_sequence(emitter, node, anchor, pending),
+            NodeData::Mapping { .. } => Self::dump_mapping(emitter, node, anchor, pending),
             _ => unreachable!("document node is neither a scalar, sequence, or a mapping"),
         }
     }
@@ -674,10 +695,10 @@ impl Document {
     }
 
     fn dump_sequence(
-        &mut self,
         emitter: &mut Emitter,
         node: Node,
         anchor: Option<String>,
+        pending: &mut Vec<Pending>,
     ) -> Result<()> {
         let implicit = node.tag.as_deref() == Some(DEFAULT_SEQUENCE_TAG);
 
@@ -693,18 +714,16 @@ impl Document {
         });
 
         emitter.emit(event)?;
-        for item in items {
-            self.dump_node(emitter, item)?;
-        }
-        let event = Event::sequence_end();
-        emitter.emit(event)
+        pending.push(Pending::End(Event::sequence_end()));
+        pending.extend(items.into_iter().rev().map(Pending::Node));
+        Ok(())
     }
 
     fn dump_mapping(
-        &mut self,
         emitter: &mut Emitter,
         node: Node,
         anchor: Option<String>,
+        pending: &mut Vec<Pending>,
     ) -> Result<()> {
         let implicit = node.tag.as_deref() == Some(DEFAULT_MAPPING_TAG);
 
@@ -720,11 +739,11 @@ impl Document {
         });
 
         emitter.emit(event)?;
-        for pair in pairs {
-            self.dump_node(emitter, pair.key)?;
-            self.dump_node(emitter, pair.value)?;
+        pending.push(Pending::End(Event::mapping_end()));
+        for pair in pairs.into_iter().rev() {
+            pending.push(Pending::Node(pair.value));
+            pending.push(Pending::Node(pair.key));
         }
-        let event = Event::mapping_end();
-        emitter.emit(event)
+        Ok(())
     }
 }
-- 
2.43.0


From 7c8209bc1d83337924e9ef17b9d5f78183b1b635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:32 +0000
Subject: [PATCH 23/23] fix: panic when emitting again after a write failed at
 the end of a flow collection

---
 src/emitter.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index 7c33623..b125f94 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -653,13 +653,16 @@ impl<'w> Emitter<'w> {
             self.flow_level += 1;
         }
         if let EventData::SequenceEnd = &event.data {
-            self.flow_level -= 1;
-            self.indent = self.indents.pop().unwrap();
+            // A failed write leaves the event to be emitted again, so nothing is
+            // popped before everything is written.
             if self.canonical && !first {
                 self.write_indicator(",", false, false, false)?;
+                self.indent = *self.indents.last().unwrap();
                 self.write_indent()?;
             }
             self.write_indicator("]", false, false, false)?;
+            self.flow_level -= 1;
+            self.indent = self.indents.pop().unwrap();
             self.state = self.states.pop().unwrap();
             return Ok(());
         }
@@ -686,13 +689,16 @@ impl<'w> Emitter<'w> {
         }
         if let EventData::MappingEnd = &event.data {
             assert!(!self.indents.is_empty(), "self.indents should not be empty");
-            self.flow_level -= 1;
-            self.indent = self.indents.pop().unwrap();
+            // A failed write leaves the event to be emitted again, so nothing is
+            // popped before everything is written.
             if self.canonical && !first {
                 self.write_indicator(",", false, false, false)?;
+                self.indent = *self.indents.last().unwrap();
                 self.write_indent()?;
             }
             self.write_indicator("}", false, false, false)?;
+            self.flow_level -= 1;
+            self.indent = self.indents.pop().unwrap();
             self.state = self.states.pop().unwrap();
             return Ok(());
         }
-- 
2.43.0

