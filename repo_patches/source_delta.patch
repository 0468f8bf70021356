From 42527d7d953c1dbc0721e7894889275b44aec0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:28 +0000
Subject: [PATCH 1/7] fix: dot-stuff a message that starts with a dot

RFC 5321, section 4.5.2 requires every line of the mail data that starts
with a period to be escaped. The codec started in the middle of a line, so
the first line of the message was never escaped and a message starting with
".\r\n" ended the mail data early.
---
 src/codec.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/codec.rs b/src/codec.rs
index b91bcdf..78202b2 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -6,11 +6,19 @@ use tokio::io::{AsyncWrite as Write, AsyncWriteExt};
 use futures::io;
 
 /// The codec used for transparency
-#[derive(Default, Clone, Copy, Debug)]
+#[derive(Clone, Copy, Debug)]
 pub struct ClientCodec {
     escape_count: u8,
 }
 
+impl Default for ClientCodec {
+    fn default() -> Self {
+        // The message starts at the beginning of a line,
+        // right after the CRLF of the DATA command.
+        ClientCodec { escape_count: 2 }
+    }
+}
+
 impl ClientCodec {
     /// Creates a new client codec
     pub fn new() -> Self {
@@ -31,7 +39,7 @@ impl ClientCodec {
                     2 => buf.write_all(b".\r\n").await?,
                     _ => unreachable!(),
                 }
-                self.escape_count = 0;
+                self.escape_count = 2;
                 Ok(())
             }
             _ => {
-- 
2.43.0


From e6f06091934e5a0b88cd811c1693fec3c4f6f092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:28 +0000
Subject: [PATCH 2/7] fix: recognize CRLF after a repeated CR when dot-stuffing

After "\r\r" the codec forgot about the second CR, so in "\r\r\n.\r\n" the
dot was not escaped and the message ended the mail data early.
---
 src/codec.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/codec.rs b/src/codec.rs
index 78202b2..1457e46 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -47,7 +47,15 @@ impl ClientCodec {
                 for (idx, byte) in frame.iter().enumerate() {
                     match self.escape_count {
                         0 => self.escape_count = if *byte == b'\r' { 1 } else { 0 },
-                        1 => self.escape_count = if *byte == b'\n' { 2 } else { 0 },
+                        1 => {
+                            self.escape_count = if *byte == b'\n' {
+                                2
+                            } else if *byte == b'\r' {
+                                1
+                            } else {
+                                0
+                            }
+                        }
                         2 => {
                             self.escape_count = if *byte == b'.' {
                                 3
-- 
2.43.0


From 88006d373b884c26eb73a591856453335b694b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:28 +0000
Subject: [PATCH 3/7] fix: end the mail data exactly once

Encoding an empty message already wrote the end of mail data indicator,
which was then written a second time and left an extra line for the server
to answer. A message that ended with CRLF got an extra empty line, which
RFC 5321, section 4.1.1.4 forbids. Let the codec write the indicator, as it
knows how the message ended.
---
 src/stream.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index cf8153b..440a185 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -108,8 +108,11 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
         message_reader.read_to_end(&mut message_bytes).await?;
 
         let res: Result<(), Error> = async {
-            codec.encode(&message_bytes, &mut self.inner).await?;
-            self.inner.write_all(b"\r\n.\r\n").await?;
+            if !message_bytes.is_empty() {
+                codec.encode(&message_bytes, &mut self.inner).await?;
+            }
+            // An empty frame ends the mail data.
+            codec.encode(&[], &mut self.inner).await?;
             self.inner.flush().await?;
             Ok(())
         }
-- 
2.43.0


From 81655ae5628aa35e89612bb537cbdb56d870661a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:28 +0000
Subject: [PATCH 4/7] fix: encode xtext with two hexadecimal digits

RFC 3461, section 4 requires exactly two digits, otherwise "\nB" is decoded
as the octet 0xAB, and allows no DEL outside of a hexchar.
---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index e6fa07d..27ba38e 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -11,13 +11,13 @@ pub struct XText<'a>(pub &'a str);
 impl<'a> Display for XText<'a> {
     fn fmt(&self, f: &mut Formatter) -> FmtResult {
         let mut rest = self.0;
-        while let Some(idx) = rest.find(|c| c < '!' || c == '+' || c == '=') {
+        while let Some(idx) = rest.find(|c| c < '!' || c == '+' || c == '=' || c == '\x7f') {
             let (start, end) = rest.split_at(idx);
             f.write_str(start)?;
 
             let mut end_iter = end.char_indices();
             let (_, c) = end_iter.next().expect("char");
-            write!(f, "+{:X}", c as u8)?;
+            write!(f, "+{:02X}", c as u8)?;
 
             if let Some((idx, _)) = end_iter.next() {
                 rest = &end[idx..];
-- 
2.43.0


From f1a4f1e57e2c31397a17f20ac54c78efe3478b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:54 +0000
Subject: [PATCH 5/7] fix: do not look for EHLO keywords in the greeting line

RFC 5321, section 4.1.1.1: the first line of the reply is the domain of the
server and an optional greeting. A server called "starttls" does not
announce the extension of that name.
---
 src/extension.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extension.rs b/src/extension.rs
index c4a53ae..ca4dc9c 100644
--- a/src/extension.rs
+++ b/src/extension.rs
@@ -143,7 +143,8 @@ impl ServerInfo {
 
         let mut features: HashSet<Extension> = HashSet::new();
 
-        for line in response.message.as_slice() {
+        // The first line only contains the domain and the greeting.
+        for line in response.message.iter().skip(1) {
             if line.is_empty() {
                 continue;
             }
-- 
2.43.0


From e5f31ab424d7c2122416175393634f5d872c3d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:55 +0000
Subject: [PATCH 6/7] fix: recognize EHLO keywords in any case

RFC 5321, section 4.1.1.1: EHLO keywords MUST always be recognized and
processed in a case-insensitive manner.
---
 src/extension.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extension.rs b/src/extension.rs
index ca4dc9c..5299b7d 100644
--- a/src/extension.rs
+++ b/src/extension.rs
@@ -150,7 +150,8 @@ impl ServerInfo {
             }
 
             let split: Vec<&str> = line.split_whitespace().collect();
-            match split.first().copied() {
+            let keyword = split.first().map(|keyword| keyword.to_ascii_uppercase());
+            match keyword.as_deref() {
                 Some("PIPELINING") => {
                     features.insert(Extension::Pipelining);
                 }
-- 
2.43.0


From 1df3dca412729fb765d60dcb5e2f253aa90100a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:53 +0000
Subject: [PATCH 7/7] fix: accept a reply without text

Servers may omit the space after the reply code of the last line when
there is no text (RFC 5321, section 4.2: clients MUST be prepared for it
to be omitted). Such a reply was rejected as a parsing error.
---
 src/response.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 82c7966..74fb161 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -9,7 +9,7 @@ use std::string::ToString;
 use nom::{
     branch::alt,
     bytes::streaming::{tag, take_until},
-    combinator::{complete, map},
+    combinator::{complete, map, peek},
     multi::many0,
     sequence::{preceded, tuple},
     IResult,
@@ -227,8 +227,14 @@ pub(crate) fn parse_response(i: &str) -> IResult<&str, Response> {
         preceded(tag("-"), take_until("\r\n")),
         tag("\r\n"),
     )))(i)?;
-    let (i, (last_code, last_line)) =
-        tuple((parse_code, preceded(tag(" "), take_until("\r\n"))))(i)?;
+    // The space may be omitted if there is no text.
+    let (i, (last_code, last_line)) = tuple((
+        parse_code,
+        alt((
+            preceded(tag(" "), take_until("\r\n")),
+            map(peek(tag("\r\n")), |_| ""),
+        )),
+    ))(i)?;
     let (i, _) = complete(tag("\r\n"))(i)?;
 
     // Check that all codes are equal.
-- 
2.43.0

