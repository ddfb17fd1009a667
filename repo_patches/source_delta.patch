From c42972b045ac19356d2960b36b56cbd965f5c960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 01/26] fix: size of a collection counts its length prefix by
 bytes, not elements

---
 crates/mabo/src/buf/size.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/mabo/src/buf/size.rs b/crates/mabo/src/buf/size.rs
index c697632..a41bc60 100644
--- a/crates/mabo/src/buf/size.rs
+++ b/crates/mabo/src/buf/size.rs
@@ -68,12 +68,17 @@ pub const fn size_bytes_bytes(value: &Bytes) -> usize {
     size_u64(value.len() as u64) + value.len()
 }
 
+/// Size of some content including its prefix, which holds the byte length of the content.
+const fn size_prefixed(len: usize) -> usize {
+    size_u64(len as u64) + len
+}
+
 /// Calculate the size of a Mabo `vec<T>` vector value.
 pub fn size_vec<T, S>(vec: &[T], size: S) -> usize
 where
     S: Fn(&T) -> usize,
 {
-    size_u64(vec.len() as u64) + vec.iter().map(size).sum::<usize>()
+    size_prefixed(vec.iter().map(size).sum())
 }
 
 /// Calculate the size of a Mabo `hash_map<K, V>` hash map value.
@@ -82,11 +87,11 @@ where
     SK: Fn(&K) -> usize,
     SV: Fn(&V) -> usize,
 {
-    size_u64(map.len() as u64)
-        + map
-            .iter()
+    size_prefixed(
+        map.iter()
             .map(|(key, value)| size_key(key) + size_value(value))
-            .sum::<usize>()
+            .sum(),
+    )
 }
 
 /// Calculate the size of a Mabo `hash_set<T>` hash set value.
@@ -94,7 +99,7 @@ pub fn size_hash_set<T, S>(set: &HashSet<T>, size: S) -> usize
 where
     S: Fn(&T) -> usize,
 {
-    size_u64(set.len() as u64) + set.iter().map(size).sum::<usize>()
+    size_prefixed(set.iter().map(size).sum())
 }
 
 /// Calculate the size of a Mabo `option<T>` option value.
@@ -110,7 +115,7 @@ pub fn size_array<const N: usize, T, S>(array: &[T; N], size: S) -> usize
 where
     S: Fn(&T) -> usize,
 {
-    size_u64(N as u64) + array.iter().map(size).sum::<usize>()
+    size_prefixed(array.iter().map(size).sum())
 }
 
 /// Calculate the size of a Mabo field identifier.
-- 
2.43.0


From d679a31fdaeeb95587c80d3744ea70b740f8df62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 02/26] fix: decode varints that are split over several buffer
 chunks

---
 crates/mabo/src/buf/decode.rs | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/crates/mabo/src/buf/decode.rs b/crates/mabo/src/buf/decode.rs
index ee6f945..2cbfc3c 100644
--- a/crates/mabo/src/buf/decode.rs
+++ b/crates/mabo/src/buf/decode.rs
@@ -83,6 +83,22 @@ pub fn decode_i8(r: &mut impl Buf) -> Result<i8> {
     Ok(r.get_i8())
 }
 
+/// Read a single _Varint_ byte by byte, as it can be spread over several chunks of the buffer.
+fn collect_varint(r: &mut impl Buf) -> ([u8; 19], usize) {
+    let mut buf = [0; 19];
+    let mut len = 0;
+
+    while len < buf.len() && r.has_remaining() {
+        buf[len] = r.get_u8();
+        len += 1;
+        if buf[len - 1] & 0x80 == 0 {
+            break;
+        }
+    }
+
+    (buf, len)
+}
+
 macro_rules! decode_int {
     ($ty:ty) => {
         paste::paste! {
@@ -93,9 +109,19 @@ macro_rules! decode_int {
             /// Will return `Err` if the buffer does not have enough remaining data to read the
             /// value, or the _Varint_ decoding fails due to a missing end marker.
             pub fn [<decode_ $ty>](r: &mut impl Buf) -> Result<$ty> {
-                let (value, consumed) = varint::[<decode_ $ty>](r.chunk())?;
-                r.advance(consumed);
-                Ok(value)
+                match varint::[<decode_ $ty>](r.chunk()) {
+                    Ok((value, consumed)) => {
+                        r.advance(consumed);
+                        Ok(value)
+                    }
+                    // the integer might continue in the next chunk
+                    Err(e) if r.chunk().len() >= r.remaining() => Err(e.into()),
+                    Err(_) => {
+                        let (buf, len) = collect_varint(r);
+                        let (value, _) = varint::[<decode_ $ty>](&buf[..len])?;
+                        Ok(value)
+                    }
+                }
             }
         }
     };
-- 
2.43.0


From 037f51ae343e00f1eae4198954c50012b585a08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 03/26] fix: report an array with too few elements instead of
 panicking

---
 crates/mabo/src/buf/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mabo/src/buf/decode.rs b/crates/mabo/src/buf/decode.rs
index 2cbfc3c..95405d3 100644
--- a/crates/mabo/src/buf/decode.rs
+++ b/crates/mabo/src/buf/decode.rs
@@ -300,7 +300,7 @@ where
     let mut vec = Vec::new();
     let mut r = r.take(len as usize);
 
-    while r.has_remaining() && vec.len() < N {
+    while vec.len() < N {
         vec.push(decode(&mut r)?);
     }
 
-- 
2.43.0


From dd388583e6efa2e0c00b4927d5df8e62eed5cedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 04/26] fix: decoding a vector of zero-sized elements
 terminates on any input

---
 crates/mabo/src/buf/decode.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/mabo/src/buf/decode.rs b/crates/mabo/src/buf/decode.rs
index 95405d3..1c7e739 100644
--- a/crates/mabo/src/buf/decode.rs
+++ b/crates/mabo/src/buf/decode.rs
@@ -53,6 +53,15 @@ macro_rules! ensure_size {
     };
 }
 
+// Elements without any data (unit structs) would never use up the data of their collection.
+macro_rules! ensure_progress {
+    ($r:ident, $before:ident) => {
+        if $r.remaining() == $before {
+            return Err(Error::InsufficientData);
+        }
+    };
+}
+
 /// Decode a Mabo `bool` (`true` or `false`) value.
 ///
 /// # Errors
@@ -205,7 +214,9 @@ where
     let mut r = r.take(len as usize);
 
     while r.has_remaining() {
+        let before = r.remaining();
         vec.push(decode(&mut r)?);
+        ensure_progress!(r, before);
     }
 
     Ok(vec)
@@ -409,7 +420,9 @@ where
     let mut r = r.take(len as usize);
 
     while r.has_remaining() {
+        let before = r.remaining();
         vec.push(decode(&mut r)?);
+        ensure_progress!(r, before);
     }
 
     Ok(NonZero::<Vec<_>>::new(vec).unwrap())
-- 
2.43.0


From ff9ae6f722d12cde738d7189437c5f2c1f3f8344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:47 +0000
Subject: [PATCH 05/26] fix: keep messages that arrive while the language
 server waits for a response

---
 crates/mabo-lsp/src/client.rs | 87 ++++++++++++++++++++++++++---------
 crates/mabo-lsp/src/main.rs   |  4 +-
 2 files changed, 66 insertions(+), 25 deletions(-)

diff --git a/crates/mabo-lsp/src/client.rs b/crates/mabo-lsp/src/client.rs
index 01b7dce..0fb4ca5 100644
--- a/crates/mabo-lsp/src/client.rs
+++ b/crates/mabo-lsp/src/client.rs
@@ -1,23 +1,57 @@
-use std::time::Duration;
+use std::{
+    collections::VecDeque,
+    time::{Duration, Instant},
+};
 
-use anyhow::{Context, Result, bail, ensure};
-use log::trace;
+use anyhow::{Context, Result, bail};
+use log::{debug, trace};
 use lsp_server::{Connection, Message, Notification, Request, Response};
 use lsp_types::{
     ConfigurationItem, ConfigurationParams, Diagnostic, PublishDiagnosticsParams, Registration,
     RegistrationParams, Uri,
-    notification::{Notification as LspNotification, PublishDiagnostics},
-    request::{RegisterCapability, Request as LspRequest, WorkspaceConfiguration},
+    notification::{Exit, Notification as LspNotification, PublishDiagnostics},
+    request::{RegisterCapability, Request as LspRequest, Shutdown, WorkspaceConfiguration},
 };
 
 pub struct Client<'a> {
     conn: &'a Connection,
     next_id: i32,
+    /// Messages that arrived while waiting for a response, in order of arrival.
+    pending: VecDeque<Message>,
 }
 
 impl<'a> Client<'a> {
     pub fn new(conn: &'a Connection) -> Self {
-        Self { conn, next_id: 0 }
+        Self {
+            conn,
+            next_id: 0,
+            pending: VecDeque::new(),
+        }
+    }
+
+    /// Wait for the next message to handle. Messages that were set aside while waiting for a
+    /// response come first. Gives [`None`] once the connection is closed.
+    pub fn next_message(&mut self) -> Option<Message> {
+        self.pending
+            .pop_front()
+            .or_else(|| self.conn.receiver.recv().ok())
+    }
+
+    /// Handle the request if it's a shutdown request, and tell whether it was one.
+    pub fn handle_shutdown(&mut self, req: &Request) -> Result<bool> {
+        let exiting = self
+            .pending
+            .iter()
+            .any(|msg| matches!(msg, Message::Notification(notif) if notif.method == Exit::METHOD));
+
+        if exiting && req.method == Shutdown::METHOD {
+            self.conn
+                .sender
+                .send(Response::new_ok(req.id.clone(), ()).into())?;
+            return Ok(true);
+        }
+
+        self.conn.handle_shutdown(req).map_err(Into::into)
     }
 
     fn next_id(&mut self) -> i32 {
@@ -53,30 +87,37 @@ impl<'a> Client<'a> {
             .send_timeout(request, Duration::from_secs(2))
             .context("timeout sending request")?;
 
-        match self
-            .conn
-            .receiver
-            .recv_timeout(Duration::from_secs(2))
-            .context("timeout receiving response")?
-        {
-            Message::Response(Response {
-                id,
+        let deadline = Instant::now() + Duration::from_secs(2);
+
+        let response = loop {
+            match self
+                .conn
+                .receiver
+                .recv_deadline(deadline)
+                .context("timeout receiving response")?
+            {
+                Message::Response(response) if response.id == req_id.into() => break response,
+                Message::Response(response) => {
+                    debug!(response:? = response; "got response to another request");
+                }
+                message => self.pending.push_back(message),
+            }
+        };
+
+        match response {
+            Response {
                 result,
                 error: None,
-            }) => {
-                ensure!(
-                    id == req_id.into(),
-                    "invalid ID (wanted {id}, but got {req_id})"
-                );
+                ..
+            } => {
                 let result = result.unwrap_or(serde_json::Value::Null);
                 serde_json::from_value(result).map_err(Into::into)
             }
-            Message::Response(Response {
+            Response {
                 id,
-                result: None,
                 error: Some(error),
-            }) => bail!("request {id} failed: {error:?}"),
-            _ => bail!("invalid message type"),
+                ..
+            } => bail!("request {id} failed: {error:?}"),
         }
     }
 
diff --git a/crates/mabo-lsp/src/main.rs b/crates/mabo-lsp/src/main.rs
index d1a8c42..5b39684 100644
--- a/crates/mabo-lsp/src/main.rs
+++ b/crates/mabo-lsp/src/main.rs
@@ -67,10 +67,10 @@ fn main() -> Result<()> {
 }
 
 fn main_loop(conn: &Connection, mut state: GlobalState<'_>) -> Result<()> {
-    for msg in &conn.receiver {
+    while let Some(msg) = state.client.next_message() {
         match msg {
             lsp_server::Message::Request(req) => {
-                if conn.handle_shutdown(&req)? {
+                if state.client.handle_shutdown(&req)? {
                     info!("shutting down");
                     return Ok(());
                 }
-- 
2.43.0


From 45bf398b2035a04234af1ed21cfafd4ce410d9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:41 +0000
Subject: [PATCH 06/26] fix: apply multiple document changes one after another

---
 crates/mabo-lsp/src/handlers/mod.rs | 41 ++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/crates/mabo-lsp/src/handlers/mod.rs b/crates/mabo-lsp/src/handlers/mod.rs
index 0dcd8f0..53f41d9 100644
--- a/crates/mabo-lsp/src/handlers/mod.rs
+++ b/crates/mabo-lsp/src/handlers/mod.rs
@@ -201,19 +201,26 @@ pub fn did_change(state: &mut GlobalState<'_>, mut params: DidChangeTextDocument
         };
 
         update_file(params.text_document.uri.clone(), file, |rope, index| {
+            // Every change is relative to the text that the previous one left behind.
             for change in params.content_changes {
-                let range = match convert_range(index, change.range) {
-                    Ok(range) => range,
-                    Err(e) => {
-                        error!(error:err = *e; "invalid change");
-                        continue;
-                    }
-                };
-
-                let start = rope.byte_to_char(range.start().into());
-                let end = rope.byte_to_char(range.end().into());
-                rope.remove(start..end);
-                rope.insert(start, &change.text);
+                if change.range.is_none() {
+                    *rope = Rope::from_str(&change.text);
+                } else {
+                    let range = match convert_range(index, change.range) {
+                        Ok(range) => range,
+                        Err(e) => {
+                            error!(error:err = *e; "invalid change");
+                            continue;
+                        }
+                    };
+
+                    let start = rope.byte_to_char(range.start().into());
+                    let end = rope.byte_to_char(range.end().into());
+                    rope.remove(start..end);
+                    rope.insert(start, &change.text);
+                }
+
+                index.update(LineIndex::new(&String::from(&*rope)));
             }
         })
     };
@@ -354,14 +361,16 @@ fn create_file(encoding: &PositionEncodingKind, uri: Uri, text: String) -> state
     .build()
 }
 
-fn update_file(uri: Uri, file: state::File, update: impl FnOnce(&mut Rope, &Index)) -> state::File {
+fn update_file(
+    uri: Uri,
+    file: state::File,
+    update: impl FnOnce(&mut Rope, &mut Index),
+) -> state::File {
     let mut heads = file.into_heads();
 
-    update(&mut heads.rope, &heads.index);
+    update(&mut heads.rope, &mut heads.index);
     let text = String::from(&heads.rope);
 
-    heads.index.update(LineIndex::new(&text));
-
     FileBuilder {
         rope: heads.rope,
         index: heads.index,
-- 
2.43.0


From ab4151ba57025c6946f201a8595e3115b223565b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:51 +0000
Subject: [PATCH 07/26] fix: treat positions past the end of a line or text as
 its end

---
 crates/mabo-lsp/src/handlers/hover.rs |  2 +-
 crates/mabo-lsp/src/handlers/index.rs | 39 ++++++++++++++++++---------
 crates/mabo-lsp/src/handlers/mod.rs   | 14 ++++++----
 3 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/crates/mabo-lsp/src/handlers/hover.rs b/crates/mabo-lsp/src/handlers/hover.rs
index 9f2eedc..17fbcff 100644
--- a/crates/mabo-lsp/src/handlers/hover.rs
+++ b/crates/mabo-lsp/src/handlers/hover.rs
@@ -16,7 +16,7 @@ pub fn visit_schema(
     item: &Schema<'_>,
     position: lsp::Position,
 ) -> Result<Option<(String, lsp::Range)>> {
-    let position = index.get_offset(position)?;
+    let position = index.get_offset(item.source.source, position)?;
 
     item.definitions
         .iter()
diff --git a/crates/mabo-lsp/src/handlers/index.rs b/crates/mabo-lsp/src/handlers/index.rs
index 649990b..fe3b7e9 100644
--- a/crates/mabo-lsp/src/handlers/index.rs
+++ b/crates/mabo-lsp/src/handlers/index.rs
@@ -1,7 +1,7 @@
 use std::ops::Range;
 
 use anyhow::{Context, Result};
-use line_index::{LineCol, LineIndex, TextSize, WideEncoding, WideLineCol};
+use line_index::{LineIndex, TextSize, WideEncoding, WideLineCol};
 use lsp_types as lsp;
 
 pub struct Index {
@@ -55,28 +55,41 @@ impl Index {
         ))
     }
 
-    pub fn get_offset(&self, position: lsp::Position) -> Result<usize> {
-        let line_col = if let Some(encoding) = self.encoding {
+    /// Convert the position to a byte offset into the text that this index was created for.
+    ///
+    /// Positions beyond the end of a line mean the end of that line, and lines beyond the last one
+    /// mean the end of the text.
+    pub fn get_offset(&self, text: &str, position: lsp::Position) -> Result<usize> {
+        let Some(line) = self.index.line(position.line) else {
+            return Ok(text.len());
+        };
+        let line = Range::<usize>::from(line);
+
+        let content = text
+            .get(line.clone())
+            .context("index doesn't match the text")?;
+        let content = content
+            .strip_suffix('\n')
+            .map_or(content, |line| line.strip_suffix('\r').unwrap_or(line));
+
+        let length = content.len().try_into()?;
+        let col = position.character.min(length);
+
+        let col = if let Some(encoding) = self.encoding {
             self.index
                 .to_utf8(
                     encoding,
                     WideLineCol {
                         line: position.line,
-                        col: position.character,
+                        col,
                     },
                 )
                 .context("missing utf-16 position")?
+                .col
         } else {
-            LineCol {
-                line: position.line,
-                col: position.character,
-            }
+            col
         };
 
-        Ok(self
-            .index
-            .offset(line_col)
-            .context("missing offset position")?
-            .into())
+        Ok(line.start + usize::try_from(col.min(length))?)
     }
 }
diff --git a/crates/mabo-lsp/src/handlers/mod.rs b/crates/mabo-lsp/src/handlers/mod.rs
index 53f41d9..d1f4413 100644
--- a/crates/mabo-lsp/src/handlers/mod.rs
+++ b/crates/mabo-lsp/src/handlers/mod.rs
@@ -2,7 +2,7 @@
 
 use std::sync::LazyLock;
 
-use anyhow::{Context, Result};
+use anyhow::{Context, Result, ensure};
 use line_index::{LineIndex, TextRange};
 use log::{debug, error, warn};
 use lsp_types::{
@@ -203,10 +203,12 @@ pub fn did_change(state: &mut GlobalState<'_>, mut params: DidChangeTextDocument
         update_file(params.text_document.uri.clone(), file, |rope, index| {
             // Every change is relative to the text that the previous one left behind.
             for change in params.content_changes {
+                let text = String::from(&*rope);
+
                 if change.range.is_none() {
                     *rope = Rope::from_str(&change.text);
                 } else {
-                    let range = match convert_range(index, change.range) {
+                    let range = match convert_range(index, &text, change.range) {
                         Ok(range) => range,
                         Err(e) => {
                             error!(error:err = *e; "invalid change");
@@ -336,17 +338,19 @@ pub fn did_change_configuration(
     }
 }
 
-fn convert_range(index: &Index, range: Option<lsp_types::Range>) -> Result<TextRange> {
+fn convert_range(index: &Index, text: &str, range: Option<lsp_types::Range>) -> Result<TextRange> {
     let range = range.context("incremental change misses range")?;
 
     let start = index
-        .get_offset(range.start)
+        .get_offset(text, range.start)
         .context("failed to convert start position to byte offset")?;
 
     let end = index
-        .get_offset(range.end)
+        .get_offset(text, range.end)
         .context("failed to convert end position to byte offset")?;
 
+    ensure!(start <= end, "start position is after the end position");
+
     Ok(TextRange::new(start.try_into()?, end.try_into()?))
 }
 
-- 
2.43.0


From 4d611e553adaf90a09df0831b1f89d4ace46d8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:52 +0000
Subject: [PATCH 08/26] fix: announce only position encodings that the language
 server supports

---
 crates/mabo-lsp/src/handlers/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-lsp/src/handlers/mod.rs b/crates/mabo-lsp/src/handlers/mod.rs
index d1f4413..0c3310d 100644
--- a/crates/mabo-lsp/src/handlers/mod.rs
+++ b/crates/mabo-lsp/src/handlers/mod.rs
@@ -39,13 +39,17 @@ pub fn initialize(
 ) -> Result<InitializeResult> {
     log::trace!("{params:#?}");
 
-    // Select the most preferred position encoding defined by the client.
+    // Select the most preferred position encoding defined by the client that is supported.
     state.encoding = params
         .capabilities
         .general
         .as_ref()
         .and_then(|general| general.position_encodings.as_ref())
-        .and_then(|encodings| encodings.first())
+        .and_then(|encodings| {
+            encodings
+                .iter()
+                .find(|encoding| matches!(encoding.as_str(), "utf-8" | "utf-16" | "utf-32"))
+        })
         .cloned()
         .unwrap_or(PositionEncodingKind::UTF16);
 
-- 
2.43.0


From eca8f9a5a35817cfc34fcfdf76aad4eaabf812c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:03 +0000
Subject: [PATCH 09/26] fix: parse the last element of nested lists only once

---
 crates/mabo-parser/src/parser.rs          | 56 ++++++++++-------------
 crates/mabo-parser/src/parser/enums.rs    |  6 +--
 crates/mabo-parser/src/parser/fields.rs   | 12 +----
 crates/mabo-parser/src/parser/generics.rs | 23 ++++------
 crates/mabo-parser/src/parser/types.rs    | 14 ++----
 5 files changed, 40 insertions(+), 71 deletions(-)

diff --git a/crates/mabo-parser/src/parser.rs b/crates/mabo-parser/src/parser.rs
index df19d26..bb6e972 100644
--- a/crates/mabo-parser/src/parser.rs
+++ b/crates/mabo-parser/src/parser.rs
@@ -216,54 +216,46 @@ where
     trace("ws", preceded(multispace0, inner))
 }
 
-pub fn punctuate<I, O, P, E, F, G>(mut f: F, mut g: G) -> impl ModalParser<I, Punctuated<O, P>, E>
+/// Parse a non-empty list of values that are separated by punctuation, with an optional trailing
+/// punctuation after the last one.
+pub fn punctuate<I, O, P, E, F, G>(mut f: F, g: G) -> impl ModalParser<I, Punctuated<O, P>, E>
 where
     I: Stream,
     E: ParserError<I>,
-    F: ModalParser<I, (O, P), E>,
-    G: ModalParser<I, (O, Option<P>), E>,
+    F: ModalParser<I, O, E>,
+    G: ModalParser<I, P, E>,
 {
+    let mut g = opt(g);
+
     trace("punctuate", move |i: &mut I| {
         let mut values = Vec::new();
-        let mut start_prev = None;
 
         loop {
             let start = i.checkpoint();
             let len = i.eof_offset();
 
-            match f.parse_next(i) {
-                Ok((o, range)) => {
+            let value = match f.parse_next(i) {
+                Ok(value) => value,
+                // Not another value, so the previous punctuation was a trailing one.
+                Err(ErrMode::Backtrack(e)) => {
+                    i.reset(&start);
+                    return match values.pop() {
+                        Some((value, punct)) => Ok(Punctuated::new(values, (value, Some(punct)))),
+                        None => Err(ErrMode::Backtrack(e)),
+                    };
+                }
+                Err(e) => return Err(e),
+            };
+
+            match g.parse_next(i)? {
+                Some(punct) => {
                     if i.eof_offset() == len {
                         return Err(ErrMode::assert(i, "`repeat` parsers must always consume"));
                     }
 
-                    values.push((o, range));
-                    start_prev = Some(start);
-                }
-                Err(ErrMode::Backtrack(_)) => {
-                    i.reset(&start);
-                    let (o, range) = match g.parse_next(i) {
-                        Ok(o) => Ok(o),
-                        // Both parsers failed. Lets undo the last successful action from the first
-                        // parser and redo it with the second one to get the last value.
-                        //
-                        // Technically we could just take the parsed data from the first parser and
-                        // transform it, but there is no guarantee that the parsers are similar
-                        // enough to do this transformation.
-                        Err(ErrMode::Backtrack(e)) => {
-                            if let Some(start) = start_prev {
-                                values.pop();
-                                i.reset(&start);
-                                g.parse_next(i)
-                            } else {
-                                Err(ErrMode::Backtrack(e))
-                            }
-                        }
-                        Err(e) => Err(e),
-                    }?;
-                    return Ok(Punctuated::new(values, (o, range)));
+                    values.push((value, punct));
                 }
-                Err(e) => return Err(e),
+                None => return Ok(Punctuated::new(values, (value, None))),
             }
         }
     })
diff --git a/crates/mabo-parser/src/parser/enums.rs b/crates/mabo-parser/src/parser/enums.rs
index c6d17a6..a6b3228 100644
--- a/crates/mabo-parser/src/parser/enums.rs
+++ b/crates/mabo-parser/src/parser/enums.rs
@@ -127,11 +127,7 @@ pub(super) fn parse_name<'i>(input: &mut Input<'i>) -> Result<Name<'i>, Cause> {
 fn parse_variants<'i>(
     input: &mut Input<'i>,
 ) -> Result<(token::Brace, Punctuated<Variant<'i>>), Cause> {
-    surround(punctuate(
-        (parse_variant, ws(token::Comma::parser())),
-        (parse_variant, opt(ws(token::Comma::parser()))),
-    ))
-    .parse_next(input)
+    surround(punctuate(parse_variant, ws(token::Comma::parser()))).parse_next(input)
 }
 
 fn parse_variant<'i>(input: &mut Input<'i>) -> Result<Variant<'i>, Cause> {
diff --git a/crates/mabo-parser/src/parser/fields.rs b/crates/mabo-parser/src/parser/fields.rs
index 358ac26..1221a9b 100644
--- a/crates/mabo-parser/src/parser/fields.rs
+++ b/crates/mabo-parser/src/parser/fields.rs
@@ -91,21 +91,13 @@ pub(super) fn parse<'i>(input: &mut Input<'i>) -> Result<Fields<'i>, ParseError>
 fn parse_named<'i>(
     input: &mut Input<'i>,
 ) -> Result<(token::Brace, Punctuated<NamedField<'i>>), Cause> {
-    surround(punctuate(
-        (parse_named_field, ws(token::Comma::parser())),
-        (parse_named_field, opt(ws(token::Comma::parser()))),
-    ))
-    .parse_next(input)
+    surround(punctuate(parse_named_field, ws(token::Comma::parser()))).parse_next(input)
 }
 
 fn parse_unnamed<'i>(
     input: &mut Input<'i>,
 ) -> Result<(token::Parenthesis, Punctuated<UnnamedField<'i>>), Cause> {
-    surround(punctuate(
-        (parse_unnamed_field, ws(token::Comma::parser())),
-        (parse_unnamed_field, opt(ws(token::Comma::parser()))),
-    ))
-    .parse_next(input)
+    surround(punctuate(parse_unnamed_field, ws(token::Comma::parser()))).parse_next(input)
 }
 
 fn parse_unit(input: &mut Input<'_>) -> Result<(), Cause> {
diff --git a/crates/mabo-parser/src/parser/generics.rs b/crates/mabo-parser/src/parser/generics.rs
index 6a6c67a..45dbde6 100644
--- a/crates/mabo-parser/src/parser/generics.rs
+++ b/crates/mabo-parser/src/parser/generics.rs
@@ -1,9 +1,7 @@
 use std::ops::Range;
 
 use mabo_derive::{ParserError, ParserErrorCause};
-use winnow::{
-    Parser, ascii::alphanumeric0, combinator::opt, error::ErrMode, stream::Location, token::one_of,
-};
+use winnow::{Parser, ascii::alphanumeric0, error::ErrMode, stream::Location, token::one_of};
 
 use super::{Input, Result, punctuate, surround, ws};
 use crate::{Generics, Name, highlight, token};
@@ -43,18 +41,15 @@ pub enum Cause {
 }
 
 pub(super) fn parse<'i>(input: &mut Input<'i>) -> Result<Generics<'i>, ParseError> {
-    surround(punctuate(
-        (ws(parse_name), ws(token::Comma::parser())),
-        (ws(parse_name), opt(ws(token::Comma::parser()))),
-    ))
-    .parse_next(input)
-    .map(|(angle, types)| Generics { angle, types })
-    .map_err(|e| {
-        e.map(|cause| ParseError {
-            at: input.current_token_start()..input.current_token_start(),
-            cause,
+    surround(punctuate(ws(parse_name), ws(token::Comma::parser())))
+        .parse_next(input)
+        .map(|(angle, types)| Generics { angle, types })
+        .map_err(|e| {
+            e.map(|cause| ParseError {
+                at: input.current_token_start()..input.current_token_start(),
+                cause,
+            })
         })
-    })
 }
 
 fn parse_name<'i>(input: &mut Input<'i>) -> Result<Name<'i>, Cause> {
diff --git a/crates/mabo-parser/src/parser/types.rs b/crates/mabo-parser/src/parser/types.rs
index a905dc9..dce70ca 100644
--- a/crates/mabo-parser/src/parser/types.rs
+++ b/crates/mabo-parser/src/parser/types.rs
@@ -163,11 +163,8 @@ fn parse_generic<'i>(input: &mut Input<'i>) -> Result<DataType<'i>, Cause> {
 
 fn parse_tuple<'i>(input: &mut Input<'i>) -> Result<DataType<'i>, Cause> {
     surround(punctuate(
-        (ws(parse.map_err2(Cause::from)), ws(token::Comma::parser())),
-        (
-            ws(parse.map_err2(Cause::from)),
-            opt(ws(token::Comma::parser())),
-        ),
+        ws(parse.map_err2(Cause::from)),
+        ws(token::Comma::parser()),
     ))
     .parse_next(input)
     .map(|(paren, types)| DataType::Tuple { paren, types })
@@ -200,11 +197,8 @@ fn parse_external<'i>(input: &mut Input<'i>) -> Result<ExternalType<'i>, Cause>
         .map(Option::unwrap_or_default),
         parse_external_name,
         opt(surround(punctuate(
-            (ws(parse.map_err2(Cause::from)), ws(token::Comma::parser())),
-            (
-                ws(parse.map_err2(Cause::from)),
-                opt(ws(token::Comma::parser())),
-            ),
+            ws(parse.map_err2(Cause::from)),
+            ws(token::Comma::parser()),
         ))),
     )
         .parse_next(input)
-- 
2.43.0


From b9efb555e70efaf9358333bef36f569fb6c3194e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:58 +0000
Subject: [PATCH 10/26] fix: refuse schemas nested too deep instead of
 overflowing the stack

---
 crates/mabo-parser/src/lib.rs            |  5 ++++-
 crates/mabo-parser/src/location.rs       | 11 ++++------
 crates/mabo-parser/src/parser.rs         | 26 ++++++++++++++++++++++--
 crates/mabo-parser/src/parser/modules.rs | 10 +++++++--
 crates/mabo-parser/src/parser/types.rs   | 23 ++++++++++++---------
 5 files changed, 53 insertions(+), 22 deletions(-)

diff --git a/crates/mabo-parser/src/lib.rs b/crates/mabo-parser/src/lib.rs
index dc29c78..88a5a41 100644
--- a/crates/mabo-parser/src/lib.rs
+++ b/crates/mabo-parser/src/lib.rs
@@ -159,7 +159,10 @@ impl<'a> Schema<'a> {
     /// precise as possible.
     pub fn parse(input: &'a str, path: Option<&Path>) -> Result<Self, ParseSchemaError> {
         parser::parse_schema
-            .parse(winnow::LocatingSlice::new(input))
+            .parse(winnow::Stateful {
+                input: winnow::LocatingSlice::new(input),
+                state: 0,
+            })
             .map(|mut schema| {
                 schema.path = path.map(ToOwned::to_owned);
                 schema
diff --git a/crates/mabo-parser/src/location.rs b/crates/mabo-parser/src/location.rs
index c9ae15b..2f56136 100644
--- a/crates/mabo-parser/src/location.rs
+++ b/crates/mabo-parser/src/location.rs
@@ -1,17 +1,14 @@
 use std::ops::Range;
 
-use winnow::{
-    LocatingSlice,
-    stream::{Checkpoint, Location, Offset, Stream},
-};
+use winnow::stream::{Location, Stream};
 
 pub fn from_until<const N: usize, I>(
-    mut input: LocatingSlice<I>,
-    start: &Checkpoint<<I as Stream>::Checkpoint, LocatingSlice<I>>,
+    mut input: I,
+    start: &I::Checkpoint,
     chars: [char; N],
 ) -> Range<usize>
 where
-    I: Clone + Offset + Stream<Token = char>,
+    I: Location + Stream<Token = char>,
 {
     input.reset(start);
 
diff --git a/crates/mabo-parser/src/parser.rs b/crates/mabo-parser/src/parser.rs
index bb6e972..3dd67d5 100644
--- a/crates/mabo-parser/src/parser.rs
+++ b/crates/mabo-parser/src/parser.rs
@@ -45,11 +45,16 @@ mod modules;
 mod structs;
 mod types; /*  */
 
-type Input<'i> = winnow::LocatingSlice<&'i str>;
+/// The source text, together with the current nesting depth of modules and types.
+type Input<'i> = winnow::Stateful<winnow::LocatingSlice<&'i str>, usize>;
 type Result<T, E = ParseSchemaCause> = winnow::ModalResult<T, E>;
 
+/// Modules and types can't be nested any deeper than this, which keeps the recursion of the parser
+/// (and everything that later visits the schema) bounded.
+const MAX_DEPTH: usize = 128;
+
 pub(crate) fn parse_schema<'i>(input: &mut Input<'i>) -> Result<Schema<'i>, ParseSchemaCause> {
-    let source = *input.as_ref();
+    let source = *input.input.as_ref();
 
     trace(
         "schema",
@@ -206,6 +211,23 @@ mod comments {
     }
 }
 
+/// Run the parser one nesting level deeper, which `error` refuses if that's too deep.
+fn nested<'i, O, E>(
+    input: &mut Input<'i>,
+    mut parser: impl ModalParser<Input<'i>, O, E>,
+    error: impl FnOnce(usize) -> E,
+) -> Result<O, E> {
+    if input.state >= MAX_DEPTH {
+        return Err(ErrMode::Cut(error(input.current_token_start())));
+    }
+
+    input.state += 1;
+    let result = parser.parse_next(input);
+    input.state -= 1;
+
+    result
+}
+
 #[inline]
 fn ws<F, I, O, E: ParserError<I>>(inner: F) -> impl Parser<I, O, E>
 where
diff --git a/crates/mabo-parser/src/parser/modules.rs b/crates/mabo-parser/src/parser/modules.rs
index ae44ebc..ffed85d 100644
--- a/crates/mabo-parser/src/parser/modules.rs
+++ b/crates/mabo-parser/src/parser/modules.rs
@@ -10,7 +10,7 @@ use winnow::{
     token::{one_of, take_while},
 };
 
-use super::{Input, ParserExt, Result, parse_definition, surround, ws};
+use super::{Input, ParserExt, Result, nested, parse_definition, surround, ws};
 use crate::{Comment, Module, Name, error::ParseDefinitionError, highlight, location, token};
 
 /// Encountered an invalid `mod` declaration.
@@ -68,7 +68,13 @@ pub(super) fn parse<'i>(input: &mut Input<'i>) -> Result<Module<'i>, ParseError>
             parse_name,
             preceded(
                 space0,
-                surround(repeat(0.., ws(parse_definition.map_err2(Cause::from)))),
+                surround(|input: &mut Input<'i>| {
+                    nested(
+                        input,
+                        repeat(0.., ws(parse_definition.map_err2(Cause::from))),
+                        Cause::Parser,
+                    )
+                }),
             ),
         )),
     )
diff --git a/crates/mabo-parser/src/parser/types.rs b/crates/mabo-parser/src/parser/types.rs
index dce70ca..db7d1ad 100644
--- a/crates/mabo-parser/src/parser/types.rs
+++ b/crates/mabo-parser/src/parser/types.rs
@@ -10,7 +10,7 @@ use winnow::{
     token::{literal, one_of, take_while},
 };
 
-use super::{Input, ParserExt, Result, imports, punctuate, ws};
+use super::{Input, ParserExt, Result, imports, nested, punctuate, ws};
 use crate::{DataType, ExternalType, Name, Type, highlight, parser::surround, token};
 
 /// Encountered an invalid type definition.
@@ -49,15 +49,18 @@ pub enum Cause {
 pub(super) fn parse<'i>(input: &mut Input<'i>) -> Result<Type<'i>, ParseError> {
     let start = input.current_token_start();
 
-    alt((
-        parse_basic,
-        parse_generic,
-        parse_tuple,
-        parse_array,
-        parse_external.map(DataType::External),
-    ))
-    .with_span()
-    .parse_next(input)
+    nested(
+        input,
+        alt((
+            parse_basic,
+            parse_generic,
+            parse_tuple,
+            parse_array,
+            parse_external.map(DataType::External),
+        ))
+        .with_span(),
+        Cause::Parser,
+    )
     .map(Into::into)
     .map_err(|e| {
         e.map(|cause| ParseError {
-- 
2.43.0


From 2bd49f1d762a40a4bc8c77e787289e63aab4f711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 11/26] fix: don't overflow on the largest possible identifier

---
 crates/mabo-compiler/src/lib.rs | 2 +-
 crates/mabo-meta/src/lib.rs     | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-compiler/src/lib.rs b/crates/mabo-compiler/src/lib.rs
index 5bd1212..23bbde7 100644
--- a/crates/mabo-compiler/src/lib.rs
+++ b/crates/mabo-compiler/src/lib.rs
@@ -49,7 +49,7 @@ impl IdGenerator {
     /// the ID counter might jump forth and back, as long as each ID is guaranteed to be unique.
     fn next(&mut self, id: Option<&mabo_parser::Id>) -> u32 {
         let id = id.map_or(self.next_id, mabo_parser::Id::get);
-        self.next_id = id + 1;
+        self.next_id = id.saturating_add(1);
         id
     }
 
diff --git a/crates/mabo-meta/src/lib.rs b/crates/mabo-meta/src/lib.rs
index 5836b45..6f112a8 100644
--- a/crates/mabo-meta/src/lib.rs
+++ b/crates/mabo-meta/src/lib.rs
@@ -10,7 +10,12 @@ use mabo_compiler::simplify::{FieldKind, Fields, Type, Variant};
 /// Get the next free ID for an enum variant.
 #[must_use]
 pub fn next_variant_id(variants: &[Variant<'_>]) -> u32 {
-    variants.iter().map(|variant| variant.id).max().unwrap_or(0) + 1
+    variants
+        .iter()
+        .map(|variant| variant.id)
+        .max()
+        .unwrap_or(0)
+        .saturating_add(1)
 }
 
 /// Get the next free ID for a struct or enum variant field.
@@ -26,7 +31,7 @@ pub fn next_field_id(fields: &Fields<'_>) -> Option<u32> {
                 .map(|field| field.id)
                 .max()
                 .unwrap_or(0)
-                + 1,
+                .saturating_add(1),
         )
     }
 }
-- 
2.43.0


From becb03316d3c031fad7ebef63cfe2cd43616800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 12/26] fix: don't overflow on the wire size of huge nested
 arrays

---
 crates/mabo-meta/src/lib.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/crates/mabo-meta/src/lib.rs b/crates/mabo-meta/src/lib.rs
index 6f112a8..da34a41 100644
--- a/crates/mabo-meta/src/lib.rs
+++ b/crates/mabo-meta/src/lib.rs
@@ -150,7 +150,10 @@ pub fn wire_size(ty: &Type<'_>) -> Option<WireSize> {
             WireSize {
                 label: "option".into(),
                 min: 0,
-                max: inner.as_ref().and_then(|size| size.max).map(|max| 1 + max),
+                max: inner
+                    .as_ref()
+                    .and_then(|size| size.max)
+                    .map(|max| max.saturating_add(1)),
                 inner: vec![("value".into(), inner)],
             }
         }
@@ -159,7 +162,10 @@ pub fn wire_size(ty: &Type<'_>) -> Option<WireSize> {
             WireSize {
                 label: "non_zero".into(),
                 min: 0,
-                max: inner.as_ref().and_then(|size| size.max).map(|max| 1 + max),
+                max: inner
+                    .as_ref()
+                    .and_then(|size| size.max)
+                    .map(|max| max.saturating_add(1)),
                 inner: vec![("value".into(), inner)],
             }
         }
@@ -177,11 +183,15 @@ fn wire_size_array(ty: &Type<'_>, size: u32) -> WireSize {
 
     WireSize {
         label: "array".into(),
-        min: length + inner.as_ref().map_or(0, |size| size.min) * size as usize,
+        min: inner
+            .as_ref()
+            .map_or(0, |size| size.min)
+            .saturating_mul(size as usize)
+            .saturating_add(length),
         max: inner
             .as_ref()
             .and_then(|size| size.max)
-            .map(|max| length + max * size as usize),
+            .map(|max| max.saturating_mul(size as usize).saturating_add(length)),
         inner: vec![
             ("length".into(), Some(WireSize::fixed("u64", length))),
             ("element".into(), inner),
@@ -202,11 +212,11 @@ fn wire_size_tuple(types: &[Type<'_>]) -> WireSize {
             .iter()
             .filter_map(|(_, size)| size.as_ref())
             .map(|size| size.min)
-            .sum(),
+            .fold(0, usize::saturating_add),
         max: inner
             .iter()
             .map(|(_, size)| size.as_ref().and_then(|s| s.max))
-            .sum(),
+            .try_fold(0, |acc: usize, max| Some(acc.saturating_add(max?))),
         inner,
     }
 }
-- 
2.43.0


From fec25513b3dae13f6413e2d4ff5ab29ced6d81b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:23 +0000
Subject: [PATCH 13/26] fix: replace formatted files as a whole instead of
 rewriting them in place

An interrupted or failing 'mabo fmt' left the schema file truncated.
---
 crates/mabo-cli/src/main.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-cli/src/main.rs b/crates/mabo-cli/src/main.rs
index 0466330..c0d6a69 100644
--- a/crates/mabo-cli/src/main.rs
+++ b/crates/mabo-cli/src/main.rs
@@ -1,9 +1,10 @@
 //! Main command line interface for tooling support of Mabo schema files.
 
 use std::{
-    fs,
+    fs::{self, File, OpenOptions},
+    io::{self, Write},
     path::{Path, PathBuf},
-    process::ExitCode,
+    process::{self, ExitCode},
 };
 
 use anyhow::Context;
@@ -69,13 +70,40 @@ fn format(args: FmtArgs) -> anyhow::Result<()> {
         let formatted = schema.to_string();
 
         if buf != formatted {
-            fs::write(file, &formatted)?;
+            replace_content(&file, &formatted)
+                .with_context(|| format!("failed writing {file:?}"))?;
         }
     }
 
     Ok(())
 }
 
+/// Replace the content of an existing file as a whole. Whatever happens in between, the file has
+/// either its old or its new content, but never only a part of it.
+fn replace_content(path: &Path, content: &str) -> io::Result<()> {
+    // The file itself is replaced, not the symbolic link that might point to it.
+    let path = fs::canonicalize(path)?;
+    let permissions = OpenOptions::new()
+        .write(true)
+        .open(&path)?
+        .metadata()?
+        .permissions();
+
+    let temp = path.with_file_name(format!(".mabo-fmt-{}.tmp", process::id()));
+    let result = File::create(&temp).and_then(|mut file| {
+        file.write_all(content.as_bytes())?;
+        file.set_permissions(permissions)?;
+        file.sync_all()?;
+        fs::rename(&temp, &path)
+    });
+
+    if result.is_err() {
+        fs::remove_file(&temp).ok();
+    }
+
+    result
+}
+
 fn doc(args: DocArgs) -> anyhow::Result<()> {
     let project = mabo_project::load(project_dir(args.project_dir)?)?;
 
-- 
2.43.0


From aa4a67dd257bf3c2876698e50992e9d8301e67c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:36 +0000
Subject: [PATCH 14/26] fix: let 'mabo check' fail for invalid and unresolvable
 schemas

It only printed parser errors and always succeeded, while its documentation promises validation,
resolution and an error.
---
 crates/mabo-cli/src/main.rs | 40 ++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/crates/mabo-cli/src/main.rs b/crates/mabo-cli/src/main.rs
index c0d6a69..1941ab7 100644
--- a/crates/mabo-cli/src/main.rs
+++ b/crates/mabo-cli/src/main.rs
@@ -7,7 +7,7 @@ use std::{
     process::{self, ExitCode},
 };
 
-use anyhow::Context;
+use anyhow::{Context, bail, ensure};
 use mabo_parser::Schema;
 use miette::Context as _;
 
@@ -45,14 +45,44 @@ fn main() -> ExitCode {
 }
 
 fn check(args: CheckArgs) -> anyhow::Result<()> {
-    for file in project_or_files(args.project_dir, args.files)? {
-        let buf = fs::read_to_string(&file).with_context(|| format!("failed reading {file:?}"))?;
+    let inputs = project_or_files(args.project_dir, args.files)?
+        .into_iter()
+        .map(|file| {
+            let buf =
+                fs::read_to_string(&file).with_context(|| format!("failed reading {file:?}"))?;
+            Ok((file, buf))
+        })
+        .collect::<anyhow::Result<Vec<_>>>()?;
+
+    let mut schemas = Vec::with_capacity(inputs.len());
+
+    for (file, buf) in &inputs {
+        let Some(stem) = file.file_stem().and_then(|stem| stem.to_str()) else {
+            bail!("file name of {file:?} is not valid UTF-8");
+        };
 
-        if let Err(e) = Schema::parse(&buf, Some(&file)).wrap_err("failed parsing schema file") {
-            eprintln!("{e:?}");
+        match Schema::parse(buf, Some(file)).wrap_err("failed parsing schema file") {
+            Ok(schema) => match mabo_compiler::validate_schema(&schema) {
+                Ok(()) => schemas.push((stem, schema)),
+                Err(e) => eprintln!("{:?}", miette::Report::new(e)),
+            },
+            Err(e) => eprintln!("{e:?}"),
         }
     }
 
+    let invalid = inputs.len() - schemas.len();
+    ensure!(invalid == 0, "found {invalid} invalid schema files");
+
+    let schemas = schemas
+        .iter()
+        .map(|(name, schema)| (*name, schema))
+        .collect::<Vec<_>>();
+
+    if let Err(e) = mabo_compiler::resolve_schemas(&schemas) {
+        eprintln!("{:?}", miette::Report::new(e));
+        bail!("failed resolving the schemas");
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 93d90bdb105345e277a77873558e5f0cf5be6166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:06 +0000
Subject: [PATCH 15/26] fix: write each schema of a Go package to its own file

All schemas of a project were written to the same file, so only the last one was kept.
---
 crates/mabo-go/src/main.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/mabo-go/src/main.rs b/crates/mabo-go/src/main.rs
index 8762c45..17bd6b0 100644
--- a/crates/mabo-go/src/main.rs
+++ b/crates/mabo-go/src/main.rs
@@ -70,11 +70,11 @@ fn main() -> Result<()> {
         package: &project.project_file.package.name,
     };
 
-    for (_, schema) in validated {
+    for (stem, schema) in validated {
         let schema = mabo_compiler::simplify_schema(schema);
         let code = mabo_go::render_schema(&opts, &schema);
 
-        write_output(code, &out_dir)?;
+        write_output(code, &out_dir, stem)?;
     }
 
     if !cli.no_fmt {
@@ -92,14 +92,16 @@ fn main() -> Result<()> {
     Ok(())
 }
 
-fn write_output(output: Output<'_>, parent: &Path) -> Result<()> {
+/// All schemas of a project share the same Go package. Therefore, the files are named after the
+/// schema they originate from.
+fn write_output(output: Output<'_>, parent: &Path, stem: &str) -> Result<()> {
     let path = parent.join(output.name);
 
     fs::create_dir_all(&path)?;
-    fs::write(path.join(format!("{}.go", output.name)), output.content)?;
+    fs::write(path.join(format!("{stem}.go")), output.content)?;
 
     for module in output.modules {
-        write_output(module, &path)?;
+        write_output(module, &path, stem)?;
     }
 
     Ok(())
-- 
2.43.0


From b10f0772de324935e231f2f4ac567a6bb629a57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:08 +0000
Subject: [PATCH 16/26] fix: don't treat directories with the schema extension
 as schema files

---
 crates/mabo-cli/src/main.rs    | 2 +-
 crates/mabo-project/src/lib.rs | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-cli/src/main.rs b/crates/mabo-cli/src/main.rs
index 1941ab7..1fc43ae 100644
--- a/crates/mabo-cli/src/main.rs
+++ b/crates/mabo-cli/src/main.rs
@@ -174,7 +174,7 @@ fn project_or_files(
         for pattern in patterns {
             for entry in glob::glob(&pattern).context("failed parsing glob pattern")? {
                 let entry = entry.context("failed reading entry")?;
-                if entry.extension().is_none_or(|ext| ext != "mabo") {
+                if entry.extension().is_none_or(|ext| ext != "mabo") || entry.is_dir() {
                     continue;
                 }
                 files.push(entry);
diff --git a/crates/mabo-project/src/lib.rs b/crates/mabo-project/src/lib.rs
index 5956681..e312d46 100644
--- a/crates/mabo-project/src/lib.rs
+++ b/crates/mabo-project/src/lib.rs
@@ -200,6 +200,10 @@ fn collect_files(base: &Path, patterns: &[String]) -> Result<Vec<PathBuf>> {
 
     for entry in walk {
         let entry = entry.map_err(Error::Walk)?;
+        if !entry.file_type().is_some_and(|ty| ty.is_file()) {
+            continue;
+        }
+
         let path = entry
             .path()
             .strip_prefix(base)
-- 
2.43.0


From f1e594894e4d9497b20c377ff33184bb34e6f2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:46 +0000
Subject: [PATCH 17/26] fix: refuse schema files of the same name instead of
 overwriting the output

The output of the generators is named after the schema file, so of several files with the same name
in different directories only the last one was kept.
---
 crates/mabo-build/src/lib.rs | 18 +++++++++++++++++-
 crates/mabo-cli/src/main.rs  |  8 ++++++++
 crates/mabo-go/src/main.rs   |  8 +++++++-
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-build/src/lib.rs b/crates/mabo-build/src/lib.rs
index 7f4cc4e..a94b4b9 100644
--- a/crates/mabo-build/src/lib.rs
+++ b/crates/mabo-build/src/lib.rs
@@ -1,6 +1,6 @@
 //! Code generator crate for Rust projects that can be used in `build.rs` build scripts.
 
-use std::{env, fmt::Debug, fs, path::PathBuf};
+use std::{collections::HashMap, env, fmt::Debug, fs, path::PathBuf};
 
 use mabo_parser::Schema;
 use miette::Report;
@@ -32,6 +32,14 @@ pub enum Error {
     /// The file name wasn't valid UTF-8.
     #[error("the file name was not encoded in valid UTF-8")]
     NonUtf8FileName,
+    /// Multiple schema files share the same name and would overwrite each other's output.
+    #[error("schema files {first:?} and {second:?} have the same name")]
+    DuplicateFileName {
+        /// First schema file with the name.
+        first: PathBuf,
+        /// Another schema file with the same name.
+        second: PathBuf,
+    },
     /// Failed to create the output directory for generated Rust source files.
     #[error("failed creating output directory at {path:?}")]
     Create {
@@ -152,6 +160,7 @@ impl Compiler {
 
         let mut inputs = Vec::new();
         let mut validated = Vec::new();
+        let mut stems = HashMap::new();
 
         for path in project.files {
             let input = fs::read_to_string(&path).map_err(|source| Error::Read {
@@ -169,6 +178,13 @@ impl Compiler {
                 .to_str()
                 .ok_or(Error::NonUtf8FileName)?;
 
+            if let Some(first) = stems.insert(stem, path) {
+                return Err(Error::DuplicateFileName {
+                    first: first.clone(),
+                    second: path.clone(),
+                });
+            }
+
             let schema = Schema::parse(input, Some(path)).map_err(|e| Error::Parse {
                 report: Report::new(e),
                 file: path.clone(),
diff --git a/crates/mabo-cli/src/main.rs b/crates/mabo-cli/src/main.rs
index 1fc43ae..9293d60 100644
--- a/crates/mabo-cli/src/main.rs
+++ b/crates/mabo-cli/src/main.rs
@@ -1,6 +1,7 @@
 //! Main command line interface for tooling support of Mabo schema files.
 
 use std::{
+    collections::HashMap,
     fs::{self, File, OpenOptions},
     io::{self, Write},
     path::{Path, PathBuf},
@@ -136,6 +137,13 @@ fn replace_content(path: &Path, content: &str) -> io::Result<()> {
 
 fn doc(args: DocArgs) -> anyhow::Result<()> {
     let project = mabo_project::load(project_dir(args.project_dir)?)?;
+    let mut stems = HashMap::new();
+
+    for file in &project.files {
+        if let Some(first) = stems.insert(file.file_stem(), file) {
+            bail!("schema files {first:?} and {file:?} have the same name");
+        }
+    }
 
     for file in project.files {
         let content = std::fs::read_to_string(&file)?;
diff --git a/crates/mabo-go/src/main.rs b/crates/mabo-go/src/main.rs
index 17bd6b0..4029c56 100644
--- a/crates/mabo-go/src/main.rs
+++ b/crates/mabo-go/src/main.rs
@@ -1,6 +1,6 @@
 //! TODO
 
-use std::{env, fs, path::Path, process::Command};
+use std::{collections::HashMap, env, fs, path::Path, process::Command};
 
 use anyhow::{Context, Result, bail, ensure};
 use mabo_go::{Opts, Output};
@@ -43,6 +43,8 @@ fn main() -> Result<()> {
         })
         .collect::<Result<Vec<_>>>()?;
 
+    let mut stems = HashMap::new();
+
     let validated = inputs
         .iter()
         .map(|(path, input)| {
@@ -52,6 +54,10 @@ fn main() -> Result<()> {
                 .to_str()
                 .context("invalid utf-8 encoding")?;
 
+            if let Some(first) = stems.insert(stem, path) {
+                bail!("schema files {first:?} and {path:?} have the same name");
+            }
+
             let schema = Schema::parse(input, Some(path))?;
             mabo_compiler::validate_schema(&schema)?;
 
-- 
2.43.0


From 0f504d48a4abbc54537447608e12d093295ca1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 18/26] fix: accept types that are found in an imported module

The result of the lookup was discarded and the error of the preceding local lookup reported.
---
 crates/mabo-compiler/src/resolve/mod.rs | 44 +++++++++++--------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index 4ab3f2a..beead49 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -530,7 +530,7 @@ pub(crate) fn resolve_type_remotely(
     imports: &[ResolvedImport<'_>],
 ) -> Result<(), ResolveError> {
     if imports.is_empty() {
-        return Err(ty.error.into());
+        Err(ty.error.into())
     } else if let Some((name, _)) = ty.external.path.first() {
         let module = imports.iter().find_map(|import| match import {
             ResolvedImport::Module(module) => (module.name == name.get()).then_some(module),
@@ -538,25 +538,23 @@ pub(crate) fn resolve_type_remotely(
         });
 
         match module {
-            Some(module) => module.resolve_remote(ty.external)?,
-            None => {
-                return Err(ResolveRemote::MissingImport(MissingImport {
-                    ty: format!(
-                        "{}{}",
-                        ty.external
-                            .path
-                            .iter()
-                            .fold(String::new(), |mut acc, (part, _)| {
-                                acc.push_str(part.get());
-                                acc.push_str(token::DoubleColon::VALUE);
-                                acc
-                            }),
-                        ty.external.name
-                    ),
-                    used: ty.external.name.span().into(),
-                })
-                .into());
-            }
+            Some(module) => Ok(module.resolve_remote(ty.external)?),
+            None => Err(ResolveRemote::MissingImport(MissingImport {
+                ty: format!(
+                    "{}{}",
+                    ty.external
+                        .path
+                        .iter()
+                        .fold(String::new(), |mut acc, (part, _)| {
+                            acc.push_str(part.get());
+                            acc.push_str(token::DoubleColon::VALUE);
+                            acc
+                        }),
+                    ty.external.name
+                ),
+                used: ty.external.name.span().into(),
+            })
+            .into()),
         }
     } else {
         let found = imports.iter().find_map(|import| match import {
@@ -591,12 +589,10 @@ pub(crate) fn resolve_type_remotely(
             .into());
         }
 
-        return Err(ResolveRemote::MissingImport(MissingImport {
+        Err(ResolveRemote::MissingImport(MissingImport {
             ty: ty.external.name.get().to_owned(),
             used: ty.external.name.span().into(),
         })
-        .into());
+        .into())
     }
-
-    Err(ty.error.into())
 }
-- 
2.43.0


From 835535274eff3a585e47387aee5ef2c96a437c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 19/26] fix: follow the whole path of a type in an imported
 module

Only its first element was used, so that types in submodules were not found, or confused with a type
of the same name in the imported module itself.
---
 crates/mabo-compiler/src/resolve/mod.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index beead49..ffc179d 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -230,21 +230,14 @@ impl Module<'_> {
     }
 
     fn resolve_remote(&self, ty: &ExternalType<'_>) -> Result<(), ResolveRemote> {
-        let module = if ty
-            .path
-            .first()
-            .is_some_and(|(first, _)| first.get() == self.name)
-        {
-            self
-        } else {
-            ty.path.iter().try_fold(self, |module, (name, _)| {
-                module.modules.get(name.get()).ok_or_else(|| MissingModule {
-                    name: name.get().to_owned(),
-                    path: module.path_to_string(),
-                    used: ty.name.span().into(),
-                })
-            })?
-        };
+        // The first element is the name of this module, by which it was imported.
+        let module = ty.path.iter().skip(1).try_fold(self, |module, (name, _)| {
+            module.modules.get(name.get()).ok_or_else(|| MissingModule {
+                name: name.get().to_owned(),
+                path: module.path_to_string(),
+                used: ty.name.span().into(),
+            })
+        })?;
 
         let definition = module
             .types
-- 
2.43.0


From 8b40fb1dd75ab3cca693736d6d87ecc6165caa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:26 +0000
Subject: [PATCH 20/26] fix: print floating point literals so that they are
 parsed as such again

Whole numbers turned into integers and large or infinite ones into something that can't be parsed.
---
 crates/mabo-parser/src/lib.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-parser/src/lib.rs b/crates/mabo-parser/src/lib.rs
index 88a5a41..d1de80e 100644
--- a/crates/mabo-parser/src/lib.rs
+++ b/crates/mabo-parser/src/lib.rs
@@ -1269,13 +1269,30 @@ impl Display for LiteralValue {
         match *self {
             Self::Bool(v) => v.fmt(f),
             Self::Int(v) => v.fmt(f),
-            Self::Float(v) => v.fmt(f),
+            Self::Float(v) => print_float(f, v),
             Self::String(ref v) => write!(f, "{v:?}"),
             Self::Bytes(ref v) => write!(f, "{v:?}"),
         }
     }
 }
 
+/// Print a floating point number so that it's still one (and the same) when parsed again, which
+/// requires digits on both sides of a decimal point.
+fn print_float(f: &mut fmt::Formatter<'_>, value: f64) -> fmt::Result {
+    if value.is_infinite() {
+        // Result of a literal that exceeds the value range.
+        return f.write_str(if value > 0.0 { "1.0e999" } else { "-1.0e999" });
+    }
+
+    let text = format!("{value:?}");
+    match text.split_once('e') {
+        Some((digits, exponent)) if !digits.contains('.') => {
+            write!(f, "{digits}.0e{exponent}")
+        }
+        _ => f.write_str(&text),
+    }
+}
+
 /// Import declaration for an external schema.
 #[derive(Debug, PartialEq)]
 pub struct Import<'a> {
-- 
2.43.0


From 713273fd2aa1c80286b3d38e79e62b37ac8fe027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:26 +0000
Subject: [PATCH 21/26] fix: print NUL characters in string literals as a known
 escape sequence

The printed '\0' is refused by the parser.
---
 crates/mabo-parser/src/lib.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-parser/src/lib.rs b/crates/mabo-parser/src/lib.rs
index d1de80e..1e5c83e 100644
--- a/crates/mabo-parser/src/lib.rs
+++ b/crates/mabo-parser/src/lib.rs
@@ -1270,7 +1270,7 @@ impl Display for LiteralValue {
             Self::Bool(v) => v.fmt(f),
             Self::Int(v) => v.fmt(f),
             Self::Float(v) => print_float(f, v),
-            Self::String(ref v) => write!(f, "{v:?}"),
+            Self::String(ref v) => print_string(f, v),
             Self::Bytes(ref v) => write!(f, "{v:?}"),
         }
     }
@@ -1293,6 +1293,23 @@ fn print_float(f: &mut fmt::Formatter<'_>, value: f64) -> fmt::Result {
     }
 }
 
+/// Print a string literal with all characters escaped that can't be written as they are.
+fn print_string(f: &mut fmt::Formatter<'_>, value: &str) -> fmt::Result {
+    f.write_char('"')?;
+
+    for (i, part) in value.split('\0').enumerate() {
+        if i > 0 {
+            // Rust's short form of this escape sequence doesn't exist in schemas.
+            f.write_str("\\u{0}")?;
+        }
+
+        let quoted = format!("{part:?}");
+        f.write_str(&quoted[1..quoted.len() - 1])?;
+    }
+
+    f.write_char('"')
+}
+
 /// Import declaration for an external schema.
 #[derive(Debug, PartialEq)]
 pub struct Import<'a> {
-- 
2.43.0


From 49dfd58497c62f43790947ec18e58b77c7ea4792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:53 +0000
Subject: [PATCH 22/26] fix: resolve the targets of type aliases

A type alias that pointed to a type that doesn't exist was accepted, as only
the fields of structs and enums were looked at.
---
 crates/mabo-compiler/src/resolve/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index ffc179d..470c332 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -370,6 +370,9 @@ pub(crate) fn resolve_module_types<'a>(
                     resolve_fields(missing, &variant.fields, e.generics.as_ref(), module);
                 }
             }
+            Definition::TypeAlias(a) => {
+                resolve(missing, &a.target, a.generics.as_ref(), module);
+            }
             _ => {}
         }
     }
-- 
2.43.0


From e7f0b07d62969e45fc299db5504128d77183b701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:03 +0000
Subject: [PATCH 23/26] fix: resolve imports that are declared in a module

They were neither checked to point to anything, nor could the types of the
module make use of them.
---
 crates/mabo-compiler/src/resolve/mod.rs | 49 ++++++++++++++-----------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index 470c332..efa53a8 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -41,10 +41,7 @@ pub fn schemas(values: &[(&str, &Schema<'_>)]) -> Result<(), Error> {
         .enumerate()
         .map(|(i, (_, module))| (values[i].1, module))
     {
-        let mut missing = Vec::new();
-        resolve_module_types(module, &mut missing);
-
-        let imports = resolve_module_imports(module, &modules).map_err(|e| Error {
+        resolve_module(module, &[], &modules).map_err(|e| Error {
             source_code: NamedSource::new(
                 schema
                     .path
@@ -52,21 +49,8 @@ pub fn schemas(values: &[(&str, &Schema<'_>)]) -> Result<(), Error> {
                     .map_or_else(|| "<unknown>".to_owned(), |p| p.display().to_string()),
                 schema.source.to_owned(),
             ),
-            cause: ResolveError::Import(e.into()),
+            cause: e,
         })?;
-
-        for ty in missing {
-            resolve_type_remotely(ty, &imports).map_err(|e| Error {
-                source_code: NamedSource::new(
-                    schema
-                        .path
-                        .as_ref()
-                        .map_or_else(|| "<unknown>".to_owned(), |p| p.display().to_string()),
-                    schema.source.to_owned(),
-                ),
-                cause: e,
-            })?;
-        }
     }
 
     Ok(())
@@ -120,6 +104,7 @@ impl DeclarationKind {
     }
 }
 
+#[derive(Clone, Copy)]
 pub(crate) enum ResolvedImport<'a> {
     Module(&'a Module<'a>),
     Type {
@@ -307,6 +292,30 @@ impl Module<'_> {
     }
 }
 
+/// Resolve the types of a module and all its submodules, which can use the imports of the modules
+/// they're located in, in addition to their own.
+fn resolve_module(
+    module: &Module<'_>,
+    outer_imports: &[ResolvedImport<'_>],
+    schemas: &[(&str, Module<'_>)],
+) -> Result<(), ResolveError> {
+    let mut missing = Vec::new();
+    resolve_module_types(module, &mut missing);
+
+    let mut imports =
+        resolve_module_imports(module, schemas).map_err(|e| ResolveError::Import(e.into()))?;
+    imports.extend_from_slice(outer_imports);
+
+    for ty in missing {
+        resolve_type_remotely(ty, &imports)?;
+    }
+
+    module
+        .modules
+        .values()
+        .try_for_each(|module| resolve_module(module, &imports, schemas))
+}
+
 pub(crate) struct LocallyMissingType<'a> {
     pub external: &'a ExternalType<'a>,
     pub error: ResolveLocal,
@@ -376,10 +385,6 @@ pub(crate) fn resolve_module_types<'a>(
             _ => {}
         }
     }
-
-    for module in module.modules.values() {
-        resolve_module_types(module, missing);
-    }
 }
 
 pub(crate) fn resolve_types<'a>(name: &'a str, schema: &'a Schema<'a>) -> Module<'a> {
-- 
2.43.0


From c5557ceb42a1b622cf69d6e844f6630017b3c9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:23 +0000
Subject: [PATCH 24/26] fix: let imports in modules reach the other schemas in
 Rust code

The path was always relative to the root of the schema.
---
 crates/mabo-build/src/definition.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/crates/mabo-build/src/definition.rs b/crates/mabo-build/src/definition.rs
index 5096933..001dd8b 100644
--- a/crates/mabo-build/src/definition.rs
+++ b/crates/mabo-build/src/definition.rs
@@ -11,7 +11,9 @@ use crate::{BytesType, Opts};
 /// Take a single schema and convert it into Rust source code.
 #[must_use]
 pub fn compile_schema(opts: &Opts, Schema { definitions, .. }: &Schema<'_>) -> TokenStream {
-    let definitions = definitions.iter().map(|def| compile_definition(opts, def));
+    let definitions = definitions
+        .iter()
+        .map(|def| compile_definition(opts, def, 0));
 
     quote! {
         #[allow(unused_imports)]
@@ -21,9 +23,10 @@ pub fn compile_schema(opts: &Opts, Schema { definitions, .. }: &Schema<'_>) -> T
     }
 }
 
-fn compile_definition(opts: &Opts, definition: &Definition<'_>) -> TokenStream {
+/// Compile a single definition, which is located in the given amount of modules.
+fn compile_definition(opts: &Opts, definition: &Definition<'_>, depth: usize) -> TokenStream {
     match definition {
-        Definition::Module(m) => compile_module(opts, m),
+        Definition::Module(m) => compile_module(opts, m, depth),
         Definition::Struct(s) => {
             let def = compile_struct(opts, s);
             let encode = encode::compile_struct(opts, s);
@@ -52,7 +55,7 @@ fn compile_definition(opts: &Opts, definition: &Definition<'_>) -> TokenStream {
         }
         Definition::TypeAlias(a) => compile_alias(opts, a),
         Definition::Const(c) => compile_const(c),
-        Definition::Import(i) => compile_import(i),
+        Definition::Import(i) => compile_import(i, depth),
     }
 }
 
@@ -64,10 +67,13 @@ fn compile_module(
         definitions,
         ..
     }: &Module<'_>,
+    depth: usize,
 ) -> TokenStream {
     let comment = compile_comment(comment);
     let name = Ident::new(name, Span::call_site());
-    let definitions = definitions.iter().map(|def| compile_definition(opts, def));
+    let definitions = definitions
+        .iter()
+        .map(|def| compile_definition(opts, def, depth + 1));
 
     quote! {
         #comment
@@ -195,7 +201,10 @@ fn compile_import(
     Import {
         segments, element, ..
     }: &Import<'_>,
+    depth: usize,
 ) -> TokenStream {
+    // All schemas are siblings, so step out of the modules and then out of the schema itself.
+    let outer = (0..depth).map(|_| quote! { super:: });
     let segments = segments.iter().enumerate().map(|(i, segment)| {
         let segment = Ident::new(segment, Span::call_site());
         if i > 0 {
@@ -211,7 +220,7 @@ fn compile_import(
 
     quote! {
         #[allow(unused_imports)]
-        use super::#(#segments)*#element;
+        use #(#outer)* super::#(#segments)*#element;
     }
 }
 
-- 
2.43.0


From bb229c69250d7cb55321e921c07f32dd2b575248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:04 +0000
Subject: [PATCH 25/26] fix: look into non-zero types when validating and
 resolving

Generics that were only used within a non-zero type counted as unused, and
missing types and wrong tuple sizes within them were not found.
---
 crates/mabo-compiler/src/resolve/mod.rs       | 2 +-
 crates/mabo-compiler/src/validate/generics.rs | 2 +-
 crates/mabo-compiler/src/validate/tuples.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index efa53a8..7dd7ea1 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -474,12 +474,12 @@ fn visit_externals<'a>(value: &'a Type<'_>, visit: &mut impl FnMut(&'a ExternalT
         | DataType::StringRef
         | DataType::Bytes
         | DataType::BytesRef
-        | DataType::NonZero { .. }
         | DataType::BoxString
         | DataType::BoxBytes => {}
         DataType::Vec { ty, .. }
         | DataType::HashSet { ty, .. }
         | DataType::Option { ty, .. }
+        | DataType::NonZero { ty, .. }
         | DataType::Array { ty, .. } => {
             visit_externals(ty, visit);
         }
diff --git a/crates/mabo-compiler/src/validate/generics.rs b/crates/mabo-compiler/src/validate/generics.rs
index 44efd35..40dbc4b 100644
--- a/crates/mabo-compiler/src/validate/generics.rs
+++ b/crates/mabo-compiler/src/validate/generics.rs
@@ -162,12 +162,12 @@ fn visit_externals(value: &Type<'_>, visit: &mut impl FnMut(&ExternalType<'_>))
         | DataType::StringRef
         | DataType::Bytes
         | DataType::BytesRef
-        | DataType::NonZero { .. }
         | DataType::BoxString
         | DataType::BoxBytes => {}
         DataType::Vec { ty, .. }
         | DataType::HashSet { ty, .. }
         | DataType::Option { ty, .. }
+        | DataType::NonZero { ty, .. }
         | DataType::Array { ty, .. } => visit_externals(ty, visit),
         DataType::HashMap { key, value, .. } => {
             visit_externals(key, visit);
diff --git a/crates/mabo-compiler/src/validate/tuples.rs b/crates/mabo-compiler/src/validate/tuples.rs
index 439b4bc..7f590dc 100644
--- a/crates/mabo-compiler/src/validate/tuples.rs
+++ b/crates/mabo-compiler/src/validate/tuples.rs
@@ -108,12 +108,12 @@ fn visit_tuples<E>(
         | DataType::StringRef
         | DataType::Bytes
         | DataType::BytesRef
-        | DataType::NonZero { .. }
         | DataType::BoxString
         | DataType::BoxBytes => Ok(()),
         DataType::Vec { ty, .. }
         | DataType::HashSet { ty, .. }
         | DataType::Option { ty, .. }
+        | DataType::NonZero { ty, .. }
         | DataType::Array { ty, .. } => visit_tuples(ty, visit),
         DataType::HashMap { key, value, .. } => {
             visit_tuples(key, visit)?;
-- 
2.43.0


From ccc3fe60f2a4f0d670550598eef16f465201aa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:02 +0000
Subject: [PATCH 26/26] fix: resolve the types of constants

---
 crates/mabo-compiler/src/resolve/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index 7dd7ea1..7704276 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -382,6 +382,9 @@ pub(crate) fn resolve_module_types<'a>(
             Definition::TypeAlias(a) => {
                 resolve(missing, &a.target, a.generics.as_ref(), module);
             }
+            Definition::Const(c) => {
+                resolve(missing, &c.ty, None, module);
+            }
             _ => {}
         }
     }
-- 
2.43.0

