From 60c10e21f62d194f2d864a528d49f74e4242803a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 01/35] fix: write HEAD as a plain method, and parse it as one

`Method::Head` was written as `HEAD /`, so that the request target of the
message became two words, and a parsed HEAD became an `OtherMethod`.
---
 puck/src/request/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 7985430..eb4cb50 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -223,6 +223,7 @@ impl Method {
         match str.to_ascii_lowercase().as_str() {
             "get" => Self::Get,
             "post" => Self::Post,
+            "head" => Self::Head,
             _ => Self::OtherMethod(str.to_string()),
         }
     }
@@ -232,7 +233,7 @@ impl Method {
         let to_write = match self {
             Method::Get => "GET",
             Method::Post => "POST",
-            Method::Head => "HEAD /",
+            Method::Head => "HEAD",
             Method::OtherMethod(name) => name,
         };
         write!(write, "{}", to_write)
-- 
2.43.0


From 8136a76fe23789a4fb151e8f15c1247f769d65e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 02/35] fix: keep the query string when writing a request

---
 puck/src/request/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index eb4cb50..0c830b9 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -118,7 +118,11 @@ impl Request {
     /// in-place; specifically, it will empty the contents of this `Request`'s body.
     pub fn write(&mut self, write: &mut impl Write) -> io::Result<()> {
         self.method.write(write)?;
-        write!(write, " {} ", self.url.path())?;
+        write!(write, " {}", self.url.path())?;
+        if let Some(query) = self.url.query() {
+            write!(write, "?{}", query)?;
+        }
+        write!(write, " ")?;
         write!(write, "HTTP/1.1\r\n")?;
         for (key, value) in &self.headers {
             write!(write, "{}: {}\r\n", key, value)?;
-- 
2.43.0


From 5a298e7b9875be58bedefa6dfddc2d95c3e1940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 03/35] fix: delimit the body of a parsed response by its
 Content-Length

The length was looked up in the Content-Type header.
---
 puck/src/response/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index b6fce84..35c391a 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -108,7 +108,7 @@ impl Response {
             reader,
             headers
                 .iter()
-                .find(|(key, _)| key.eq_ignore_ascii_case("content-type"))
+                .find(|(key, _)| key.eq_ignore_ascii_case("content-length"))
                 .and_then(|(_, len)| len.as_str().parse::<usize>().ok()),
         );
 
-- 
2.43.0


From b01a766600bb4ce5c69431f413132d0be8f34e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 04/35] fix: report a response head which cannot be parsed

The result of the parser was dropped, so that a malformed head (or one with
too many headers) became a response with whatever had been parsed so far.
---
 puck/src/response/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index 35c391a..0ff16d0 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -75,7 +75,7 @@ impl Response {
             }
         }
 
-        let _ = res.parse(&buf);
+        let _ = res.parse(&buf)?;
 
         let headers = {
             let mut map = HashMap::new();
@@ -148,6 +148,8 @@ pub enum ParseResponseError {
     MissingReason,
     #[error("utf8 error")]
     Utf8Error,
+    #[error("could not parse")]
+    CouldNotParse(httparse::Error),
 }
 
 impl From<io::Error> for ParseResponseError {
@@ -155,3 +157,9 @@ impl From<io::Error> for ParseResponseError {
         Self::IoError(error)
     }
 }
+
+impl From<httparse::Error> for ParseResponseError {
+    fn from(error: httparse::Error) -> Self {
+        Self::CouldNotParse(error)
+    }
+}
-- 
2.43.0


From d5aba7f0f7c80f42863d2a15ff2019bc1506bd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 05/35] fix: choose among repeated headers by their order, not
 by a random one

Host and Content-Length were looked up in the map of headers without regard
to case. If a client sends such a header twice in different cases, the map
has both, and which of them was used depended on the order of the `HashMap`,
so that the same bytes could be parsed as different requests.
---
 puck/src/request/mod.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 0c830b9..dbc4801 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -81,8 +81,18 @@ impl Request {
             map
         };
 
+        // if a header was sent several times, the last one counts (whatever the case of its name)
+        let last_header = |name: &str| {
+            let header = req
+                .headers
+                .iter()
+                .rev()
+                .find(|header| header.name.eq_ignore_ascii_case(name))?;
+            std::str::from_utf8(header.value).ok()
+        };
+
         let url =
-            if let Some((_, host)) = headers.iter().find(|(k, _)| k.eq_ignore_ascii_case("host")) {
+            if let Some(host) = last_header("host") {
                 let url = req.path.ok_or(RequestParseError::InvalidUrl)?;
                 if url.starts_with("http://") || url.starts_with("https://") {
                     Url::parse(url)
@@ -100,10 +110,7 @@ impl Request {
 
         let body = Body::from_reader(
             reader,
-            headers
-                .iter()
-                .find(|(key, _)| key.eq_ignore_ascii_case("content-length"))
-                .and_then(|(_, len)| len.as_str().parse::<usize>().ok()),
+            last_header("content-length").and_then(|len| len.parse::<usize>().ok()),
         );
 
         Ok(Some(Self {
-- 
2.43.0


From d2a066b9f8445d56b94f2bad925dd50aea52c1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 06/35] fix: reject a Host header which would spill into the
 path of the URL

The URL is put together as `http://{host}{target}`. With a Host such as
`example.com/other?` the path which routes see was not the one in the request
line.
---
 puck/src/request/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index dbc4801..b58b890 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -93,6 +93,11 @@ impl Request {
 
         let url =
             if let Some(host) = last_header("host") {
+                // these characters would end the authority, and move the rest of the header into
+                // another part of the URL; without any host, the path would be taken for one
+                if host.is_empty() || host.contains(&['/', '\\', '?', '#', '@'][..]) {
+                    return Err(RequestParseError::InvalidUrl);
+                }
                 let url = req.path.ok_or(RequestParseError::InvalidUrl)?;
                 if url.starts_with("http://") || url.starts_with("https://") {
                     Url::parse(url)
-- 
2.43.0


From df06067279ead471216d3e85ffc278c0e4ec0328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 07/35] fix: do not allocate what a Content-Length claims in
 Body::into_string

A large Content-Length made `String::with_capacity` panic or abort before any
byte of the body was read.
---
 puck/src/body/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/puck/src/body/mod.rs b/puck/src/body/mod.rs
index 059f130..dfdbe63 100644
--- a/puck/src/body/mod.rs
+++ b/puck/src/body/mod.rs
@@ -77,7 +77,8 @@ impl Body {
     /// Reads to completion from the underlying IO source, and returns the result as a
     /// `String`.
     pub fn into_string(mut self) -> std::io::Result<String> {
-        let mut result = String::with_capacity(self.length.unwrap_or(0));
+        // `length` may be what the other side claims, so it is not a size to allocate up front
+        let mut result = String::new();
         self.read_to_string(&mut result)?;
         Ok(result)
     }
-- 
2.43.0


From 96a6c5a8ceb6db998dc28ae14e8dff50e1b99dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 08/35] fix: answer requests which cannot be parsed with a 400

`Core::serve_router` unwrapped the error, `Core::for_each` ran into a `todo!`
and `Router::run` closed the connection without an answer.
---
 puck/src/core/mod.rs        | 5 +++--
 puck/src/core/router/mod.rs | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/puck/src/core/mod.rs b/puck/src/core/mod.rs
index 571f59f..b24ea34 100644
--- a/puck/src/core/mod.rs
+++ b/puck/src/core/mod.rs
@@ -48,7 +48,7 @@ where
                     |(stream, ints, state), _: Mailbox<()>| {
                         let router = Router::<STATE>::from_ints(ints);
 
-                        let req = if let Some(req) = Request::parse(stream.clone()).unwrap() {
+                        let req = if let Ok(Some(req)) = Request::parse(stream.clone()) {
                             req
                         } else {
                             let stream = Stream::new(stream, false);
@@ -98,7 +98,8 @@ where
                                 let _recovered_stream = (reconstructed_func)(req, stream, state);
                             }
                             _ => {
-                                todo!()
+                                // can't do much if this fails
+                                let _ = Stream::new(stream, false).respond(crate::err_400());
                             }
                         }
                     },
diff --git a/puck/src/core/router/mod.rs b/puck/src/core/router/mod.rs
index e1e4d39..023373d 100644
--- a/puck/src/core/router/mod.rs
+++ b/puck/src/core/router/mod.rs
@@ -108,6 +108,9 @@ impl<STATE: Serialize + DeserializeOwned + Clone> Router<STATE> {
                     if let Ok(Some(req)) = Request::parse(stream.clone()) {
                         let router = Router::<STATE>::from_ints(ints);
                         router.respond(req, Stream::new(stream, false), state);
+                    } else {
+                        // can't do much if this fails
+                        let _ = Stream::new(stream, false).respond(crate::err_400());
                     }
                 },
             );
-- 
2.43.0


From ee5c8a6aa95fe6a7e3948c81330846909f85003c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 09/35] fix: take exactly one frame from the stream in
 Frame::parse

Each call wrapped the stream in a new `BufReader`, which read ahead: frames
which arrived together with the one being parsed were lost. A header which
arrived in pieces was an error, as `read` may return less than was asked for.
And the masking key of an empty frame was taken for the next frame.
---
 puck/src/ws/frame.rs | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index b2a0993..a5c977a 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -1,6 +1,6 @@
 //! WebSocket frame parsing.
 
-use std::io::{BufReader, Read, Write};
+use std::io::{Read, Write};
 
 use byteorder::{NetworkEndian, ReadBytesExt, WriteBytesExt};
 
@@ -19,14 +19,13 @@ pub struct Frame {
 
 impl Frame {
     /// Parse a frame from the given stream.
-    pub fn parse(stream: impl Read) -> Result<Self, ParseFrameError> {
-        let mut bufread = BufReader::new(stream);
-
+    ///
+    /// This takes exactly one frame from the stream. (So the stream must not be buffered here: what
+    /// a buffer holds beyond the end of the frame would be lost.)
+    pub fn parse(mut stream: impl Read) -> Result<Self, ParseFrameError> {
         let (first, second) = {
             let mut buffer = [0_u8; 2];
-            if bufread.read(&mut buffer)? != 2 {
-                return Err(ParseFrameError::InsufficientData);
-            }
+            stream.read_exact(&mut buffer)?;
             (buffer[0], buffer[1])
         };
 
@@ -51,8 +50,8 @@ impl Frame {
         let masked = second & 0x80 != 0;
 
         let payload_length = match second & 0x7F {
-            126 => bufread.read_uint::<NetworkEndian>(2)?,
-            127 => bufread.read_uint::<NetworkEndian>(8)?,
+            126 => stream.read_uint::<NetworkEndian>(2)?,
+            127 => stream.read_uint::<NetworkEndian>(8)?,
             i => i as u64,
         };
 
@@ -60,15 +59,15 @@ impl Frame {
             return Err(ParseFrameError::MaskNotSet);
         }
 
-        let decoded = if payload_length > 0 {
-            let mut masking_key = [0_u8; 4];
-            if bufread.read(&mut masking_key)? != 4 {
-                return Err(ParseFrameError::InsufficientData);
-            }
+        let mut masking_key = [0_u8; 4];
+        if masked {
+            stream.read_exact(&mut masking_key)?;
+        }
 
+        let decoded = if payload_length > 0 {
             let mut encoded = Vec::with_capacity(payload_length as usize);
 
-            let n = bufread.take(payload_length).read_to_end(&mut encoded)?;
+            let n = stream.take(payload_length).read_to_end(&mut encoded)?;
             if n != payload_length as usize {
                 if !fin && payload_length > n as u64 {
                     return Err(ParseFrameError::WaitForNextFrame(payload_length - n as u64));
@@ -195,8 +194,11 @@ pub enum ParseFrameError {
 }
 
 impl From<std::io::Error> for ParseFrameError {
-    fn from(_: std::io::Error) -> Self {
-        Self::IoError
+    fn from(e: std::io::Error) -> Self {
+        match e.kind() {
+            std::io::ErrorKind::UnexpectedEof => Self::InsufficientData,
+            _ => Self::IoError,
+        }
     }
 }
 
-- 
2.43.0


From a253b06eb2d702c98a599402276b413047ec9314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 10/35] fix: do not allocate the length which a WebSocket frame
 claims

A header of ten bytes could make the process panic or run out of memory, and
on 32 bits the length was truncated, so that the payload was split at the
wrong place.
---
 puck/src/ws/frame.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index a5c977a..6be4e4c 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -59,13 +59,18 @@ impl Frame {
             return Err(ParseFrameError::MaskNotSet);
         }
 
+        if payload_length > isize::MAX as u64 {
+            return Err(ParseFrameError::PayloadTooLong);
+        }
+
         let mut masking_key = [0_u8; 4];
         if masked {
             stream.read_exact(&mut masking_key)?;
         }
 
         let decoded = if payload_length > 0 {
-            let mut encoded = Vec::with_capacity(payload_length as usize);
+            // grows as the payload arrives: the length is only what the client claims
+            let mut encoded = Vec::new();
 
             let n = stream.take(payload_length).read_to_end(&mut encoded)?;
             if n != payload_length as usize {
@@ -191,6 +196,8 @@ pub enum ParseFrameError {
     InsufficientData,
     #[error("wait for next frame")]
     WaitForNextFrame(u64),
+    #[error("the payload is too long")]
+    PayloadTooLong,
 }
 
 impl From<std::io::Error> for ParseFrameError {
-- 
2.43.0


From 1eca166f9218148e798ba5f976442633f77312e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 11/35] fix: use the shortest length for a frame of 65535 bytes

---
 puck/src/ws/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index 6be4e4c..4b3a094 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -135,7 +135,7 @@ impl Frame {
 
         let len = self.decoded.len();
 
-        if len >= 126_usize && len < u16::MAX as usize {
+        if len >= 126_usize && len <= u16::MAX as usize {
             to.write_u16::<NetworkEndian>(len as u16)?;
         } else if len >= 126 {
             to.write_u64::<NetworkEndian>(len as u64)?;
@@ -147,7 +147,7 @@ impl Frame {
     pub(crate) fn format_length(len: u64) -> u8 {
         if len < 126 {
             len as u8
-        } else if len < u16::MAX as u64 {
+        } else if len <= u16::MAX as u64 {
             126
         } else {
             127
-- 
2.43.0


From 6dfe6fd3ce56d53f6da6c87d1f6694921caa1911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 12/35] fix: send a WebSocket frame with one write

The header and the payload were written separately (the header in up to two
parts), so that the frames of two processes which hold the same connection, as
in puck_liveview and examples/chat, could be interleaved.
---
 puck/src/ws/send.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/puck/src/ws/send.rs b/puck/src/ws/send.rs
index cd329a5..2cc7d14 100644
--- a/puck/src/ws/send.rs
+++ b/puck/src/ws/send.rs
@@ -10,8 +10,11 @@ pub(crate) fn send(stream: impl Write, msg: Message) -> Result<(), SendFrameErro
 }
 
 pub(crate) fn send_frame(mut stream: impl Write, frame: Frame) -> Result<(), SendFrameError> {
-    frame.format(&mut stream)?;
-    stream.write_all(frame.decoded())?;
+    // one write, so that frames which several processes send do not get mixed up
+    let mut buffer = Vec::with_capacity(10 + frame.decoded().len());
+    frame.format(&mut buffer)?;
+    buffer.extend_from_slice(frame.decoded());
+    stream.write_all(&buffer)?;
 
     Ok(())
 }
-- 
2.43.0


From 98ace19eeabd9af23fe8f9fbf32e6ca1967a496b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 13/35] fix: reject reserved bits, and fragmented or long
 control frames

RFC 6455 requires to fail the connection (5.2, 5.5). In particular a ping of
more than 125 bytes was answered with a pong of the same, invalid, length.
---
 puck/src/ws/message.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/puck/src/ws/message.rs b/puck/src/ws/message.rs
index 835b195..7559049 100644
--- a/puck/src/ws/message.rs
+++ b/puck/src/ws/message.rs
@@ -24,7 +24,7 @@ impl Message {
     /// Parse the next message from the stream.
     pub fn next(stream: impl Read + Clone) -> Result<Self, DecodeMessageError> {
         log::trace!("trying to parse next message");
-        let first = Frame::parse(stream.clone())?;
+        let first = Self::next_frame(stream.clone())?;
 
         if first.op_code() == &OpCode::Terminate {
             trace!("Client asked to close connection");
@@ -63,7 +63,7 @@ impl Message {
         let mut payload = first.take_decoded();
 
         loop {
-            let msg = Frame::parse(stream.clone())?;
+            let msg = Self::next_frame(stream.clone())?;
 
             if msg.op_code() == &OpCode::Terminate {
                 trace!("Client asked to close connection");
@@ -101,6 +101,26 @@ impl Message {
             }
         }
     }
+
+    /// Parse the next frame, and check what does not depend on the frames before it.
+    fn next_frame(stream: impl Read) -> Result<Frame, DecodeMessageError> {
+        let frame = Frame::parse(stream)?;
+
+        // no extension was negotiated which would give these a meaning
+        if frame.rsv1 || frame.rsv2 || frame.rsv3 {
+            return Err(DecodeMessageError::ClientProtocolViolationError);
+        }
+
+        let is_control = matches!(
+            frame.op_code(),
+            OpCode::Terminate | OpCode::Ping | OpCode::Pong
+        );
+        if is_control && (!frame.fin() || frame.decoded().len() > 125) {
+            return Err(DecodeMessageError::ClientProtocolViolationError);
+        }
+
+        Ok(frame)
+    }
 }
 
 #[derive(thiserror::Error, Debug)]
-- 
2.43.0


From 87b34e1058275919e27ce50fff5efa445eae26ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 14/35] fix: accept control frames between the fragments of a
 message

RFC 6455, 5.4: "Control frames MAY be injected in the middle of a fragmented
message", and an endpoint must be able to handle them. They were taken for a
protocol violation. A `WebSocket` now keeps the fragments while it hands out
the control frame.
---
 puck/src/ws/message.rs   | 112 +++++++++++++++++++--------------------
 puck/src/ws/websocket.rs |  11 +++-
 2 files changed, 63 insertions(+), 60 deletions(-)

diff --git a/puck/src/ws/message.rs b/puck/src/ws/message.rs
index 7559049..c3730c5 100644
--- a/puck/src/ws/message.rs
+++ b/puck/src/ws/message.rs
@@ -23,81 +23,70 @@ pub enum Message {
 impl Message {
     /// Parse the next message from the stream.
     pub fn next(stream: impl Read + Clone) -> Result<Self, DecodeMessageError> {
-        log::trace!("trying to parse next message");
-        let first = Self::next_frame(stream.clone())?;
-
-        if first.op_code() == &OpCode::Terminate {
-            trace!("Client asked to close connection");
-            return Err(DecodeMessageError::ClientSentCloseFrame);
+        let mut fragments = None;
+        let message = Self::next_with(stream, &mut fragments)?;
+        if fragments.is_some() {
+            // a control frame in the middle of a fragmented message, which needs `next_with`
+            return Err(DecodeMessageError::ClientProtocolViolationError);
         }
+        Ok(message)
+    }
+
+    /// Parse the next message from the stream. A control frame may arrive between the fragments of
+    /// a message: it is returned at once, and `fragments` holds what the message has so far.
+    pub(crate) fn next_with(
+        stream: impl Read + Clone,
+        fragments: &mut Option<Fragments>,
+    ) -> Result<Self, DecodeMessageError> {
+        log::trace!("trying to parse next message");
+        loop {
+            let frame = Self::next_frame(stream.clone())?;
+            let fin = *frame.fin();
 
-        if *first.fin() {
-            return match first.op_code() {
-                crate::ws::frame::OpCode::Binary => Ok(Self::Binary(first.take_decoded())),
-                crate::ws::frame::OpCode::Text => Ok(Self::Text(
-                    String::from_utf8(first.take_decoded())
-                        .map_err(|_| DecodeMessageError::ClientProtocolViolationError)?,
-                )),
-                crate::ws::frame::OpCode::Ping => {
-                    let payload = first.take_decoded();
-                    Ok(Self::Ping(if !payload.is_empty() {
+            match *frame.op_code() {
+                OpCode::Terminate => {
+                    trace!("Client asked to close connection");
+                    return Err(DecodeMessageError::ClientSentCloseFrame);
+                }
+                OpCode::Ping => {
+                    let payload = frame.take_decoded();
+                    return Ok(Self::Ping(if !payload.is_empty() {
                         Some(payload)
                     } else {
                         None
-                    }))
+                    }));
                 }
-                crate::ws::frame::OpCode::Pong => {
-                    let payload = first.take_decoded();
-                    Ok(Self::Pong(if !payload.is_empty() {
+                OpCode::Pong => {
+                    let payload = frame.take_decoded();
+                    return Ok(Self::Pong(if !payload.is_empty() {
                         Some(payload)
                     } else {
                         None
-                    }))
+                    }));
                 }
-                _ => Err(DecodeMessageError::ClientProtocolViolationError),
-            };
-        }
-
-        let op_code = *first.op_code();
-
-        let mut payload = first.take_decoded();
-
-        loop {
-            let msg = Self::next_frame(stream.clone())?;
-
-            if msg.op_code() == &OpCode::Terminate {
-                trace!("Client asked to close connection");
-                return Err(DecodeMessageError::ClientSentCloseFrame);
-            }
-
-            if msg.op_code() != &OpCode::Continue {
-                return Err(DecodeMessageError::ClientProtocolViolationError);
+                OpCode::Text | OpCode::Binary if fragments.is_none() => {
+                    *fragments = Some(Fragments {
+                        text: frame.op_code() == &OpCode::Text,
+                        payload: frame.take_decoded(),
+                    });
+                }
+                OpCode::Continue => match fragments {
+                    Some(fragments) => fragments.payload.extend(frame.take_decoded()),
+                    None => return Err(DecodeMessageError::ClientProtocolViolationError),
+                },
+                _ => return Err(DecodeMessageError::ClientProtocolViolationError),
             }
 
-            let fin = *msg.fin();
-
-            payload.extend(msg.take_decoded());
-
             if fin {
-                return match op_code {
-                    crate::ws::frame::OpCode::Binary => Ok(Self::Binary(payload)),
-                    crate::ws::frame::OpCode::Text => {
+                if let Some(Fragments { text, payload }) = fragments.take() {
+                    return if text {
                         Ok(Self::Text(String::from_utf8(payload).map_err(|_| {
                             DecodeMessageError::ClientProtocolViolationError
                         })?))
-                    }
-                    crate::ws::frame::OpCode::Ping => Ok(Self::Ping(if !payload.is_empty() {
-                        Some(payload)
-                    } else {
-                        None
-                    })),
-                    crate::ws::frame::OpCode::Pong => Ok(Self::Pong(if !payload.is_empty() {
-                        Some(payload)
                     } else {
-                        None
-                    })),
-                    _ => Err(DecodeMessageError::ClientProtocolViolationError),
-                };
+                        Ok(Self::Binary(payload))
+                    };
+                }
             }
         }
     }
@@ -123,6 +112,13 @@ impl Message {
     }
 }
 
+/// The part which has arrived of a message which was sent in several frames.
+#[derive(Debug, Clone, Serialize, Deserialize)]
+pub(crate) struct Fragments {
+    text: bool,
+    payload: Vec<u8>,
+}
+
 #[derive(thiserror::Error, Debug)]
 /// An error encountered when trying to decode a WebSocket message.
 #[allow(missing_docs)]
diff --git a/puck/src/ws/websocket.rs b/puck/src/ws/websocket.rs
index 9df687d..043c122 100644
--- a/puck/src/ws/websocket.rs
+++ b/puck/src/ws/websocket.rs
@@ -7,7 +7,7 @@ use crate::core::UsedStream;
 
 use super::{
     frame::Frame,
-    message::Message,
+    message::{Fragments, Message},
     send::{self, send_frame, SendFrameError},
 };
 
@@ -20,6 +20,8 @@ use super::{
 pub struct WebSocket {
     stream: TcpStream,
     state: WebSocketState,
+    /// The fragments of a message whose end has not arrived yet.
+    fragments: Option<Fragments>,
 }
 
 #[derive(Debug, serde::Serialize, serde::Deserialize, Clone, Copy)]
@@ -37,6 +39,7 @@ impl WebSocket {
         Self {
             stream,
             state: WebSocketState::Open,
+            fragments: None,
         }
     }
 
@@ -75,6 +78,7 @@ impl WebSocket {
         Self {
             stream: self.stream.clone(),
             state: self.state,
+            fragments: self.fragments.clone(),
         }
     }
 }
@@ -84,7 +88,10 @@ impl Iterator for WebSocket {
 
     fn next(&mut self) -> Option<Result<Message, NextMessageError>> {
         Some(match self.state {
-            WebSocketState::Open => match Message::next(self.stream.clone()) {
+            WebSocketState::Open => match Message::next_with(
+                self.stream.clone(),
+                &mut self.fragments,
+            ) {
                 Ok(msg) => {
                     if let Message::Ping(ref payload) = msg {
                         send_frame(
-- 
2.43.0


From 2d5c4fc5c34f9f05b3220363f0a7f62ac2aa3c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 15/35] fix: end a WebSocket after a protocol violation or the
 end of the stream

The connection stayed open: after a violation the rest of the bytes was parsed
as if a frame started there, and at the end of the stream the iterator yielded
`ClientError` forever (so that `puck_liveview` would loop forever).
---
 puck/src/ws/websocket.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/puck/src/ws/websocket.rs b/puck/src/ws/websocket.rs
index 043c122..4edce5b 100644
--- a/puck/src/ws/websocket.rs
+++ b/puck/src/ws/websocket.rs
@@ -111,6 +111,8 @@ impl Iterator for WebSocket {
                 }
                 Err(e) => match e {
                     super::message::DecodeMessageError::ClientProtocolViolationError => {
+                        // what follows cannot be told apart into frames
+                        self.state = WebSocketState::Closed;
                         Err(NextMessageError::ClientError)
                     }
                     super::message::DecodeMessageError::ClientSentCloseFrame => {
-- 
2.43.0


From 16e5eaf6093547727e197575b312a8c8b234517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 16/35] fix: do not panic when a pong or close frame cannot be
 written

A client which disconnects without waiting for the answer is nothing unusual,
and `WebSocket::close` has a `Result` to report it.
---
 puck/src/ws/websocket.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/puck/src/ws/websocket.rs b/puck/src/ws/websocket.rs
index 4edce5b..19a129b 100644
--- a/puck/src/ws/websocket.rs
+++ b/puck/src/ws/websocket.rs
@@ -62,7 +62,7 @@ impl WebSocket {
     pub fn close(self) -> Result<UsedStream, SendFrameError> {
         match self.state {
             WebSocketState::Open => {
-                send_close_frame(self.stream.clone());
+                send_close_frame(self.stream.clone())?;
             }
             WebSocketState::Closed => {}
         };
@@ -94,7 +94,8 @@ impl Iterator for WebSocket {
             ) {
                 Ok(msg) => {
                     if let Message::Ping(ref payload) = msg {
-                        send_frame(
+                        // if the client is gone, reading from the stream will tell
+                        let _ = send_frame(
                             self.stream.clone(),
                             Frame {
                                 fin: true,
@@ -104,8 +105,7 @@ impl Iterator for WebSocket {
                                 op_code: super::frame::OpCode::Pong,
                                 decoded: payload.clone().unwrap_or_default(),
                             },
-                        )
-                        .expect("failed to send pong");
+                        );
                     }
                     Ok(msg)
                 }
@@ -117,7 +117,8 @@ impl Iterator for WebSocket {
                     }
                     super::message::DecodeMessageError::ClientSentCloseFrame => {
                         self.state = WebSocketState::Closed;
-                        send_close_frame(self.stream.clone());
+                        // the client may not wait for the answer
+                        let _ = send_close_frame(self.stream.clone());
                         Err(NextMessageError::ConnectionClosed)
                     }
                 },
@@ -138,7 +139,7 @@ pub enum NextMessageError {
     ConnectionClosed,
 }
 
-fn send_close_frame(stream: impl Write) {
+fn send_close_frame(stream: impl Write) -> Result<(), SendFrameError> {
     trace!("Sending close frame");
     send_frame(
         stream,
@@ -151,5 +152,4 @@ fn send_close_frame(stream: impl Write) {
             decoded: vec![],
         },
     )
-    .expect("failed to send close frame");
 }
-- 
2.43.0


From 125dae20627324724237f73109eae978ee14d717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 17/35] fix: recognise the headers of a WebSocket handshake as
 HTTP defines them

The names of headers are case-insensitive (proxies and HTTP/2 gateways send
them in lower case), and Connection is a list of options, so that
`Connection: no-upgrade` does not ask for an upgrade.
---
 puck/src/ws/upgrade.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/puck/src/ws/upgrade.rs b/puck/src/ws/upgrade.rs
index 96b1745..56ea9fe 100644
--- a/puck/src/ws/upgrade.rs
+++ b/puck/src/ws/upgrade.rs
@@ -8,18 +8,26 @@ use crate::{err_400, write_response, Response};
 
 /// Compute whether or not this request can be upgraded.
 pub fn should_upgrade(req: &crate::Request) -> bool {
-    req.headers
-        .get("Upgrade")
+    get_header(req, "Upgrade")
         .map(|val| val.to_ascii_lowercase() == "websocket")
         .unwrap_or_default()
         // todo: read the spec to check if the check for the upgrade header is correct!
-        && req
-            .headers
-            .get("Connection")
-            .map(|val| val.to_ascii_lowercase().contains("upgrade"))
+        && get_header(req, "Connection")
+            .map(|val| {
+                val.split(',')
+                    .any(|option| option.trim().eq_ignore_ascii_case("upgrade"))
+            })
             .unwrap_or_default()
 }
 
+/// Look up a header. The names of headers are case-insensitive.
+fn get_header<'req>(req: &'req crate::Request, name: &str) -> Option<&'req String> {
+    req.headers
+        .iter()
+        .find(|(key, _)| key.eq_ignore_ascii_case(name))
+        .map(|(_, value)| value)
+}
+
 /// The 'magic string' used to upgrade WebSocket connections.
 const GUID: &str = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
 
@@ -28,7 +36,7 @@ const GUID: &str = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
 /// Returns true if this is successful, and false if it is not. Automatically sends a 400 Bad
 /// Request response if the request fails.
 pub fn perform_upgrade(req: &crate::Request, stream: impl Write) -> bool {
-    let key = match req.headers.get("Sec-WebSocket-Key") {
+    let key = match get_header(req, "Sec-WebSocket-Key") {
         Some(t) => t,
         None => {
             trace!("Rejecting WebSocket upgrade because of missing `Sec-WebSocket-Key` header.");
-- 
2.43.0


From c4a497ceb0c908fa8f2758791fe5e723317593f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 18/35] fix: do not panic when the answer to a handshake cannot
 be written

A client which is gone by then made the process of the connection panic,
although `Stream::upgrade` and `perform_upgrade` can report the failure.
---
 puck/src/core/mod.rs   |  4 +++-
 puck/src/ws/upgrade.rs | 13 ++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/puck/src/core/mod.rs b/puck/src/core/mod.rs
index b24ea34..89ed6e8 100644
--- a/puck/src/core/mod.rs
+++ b/puck/src/core/mod.rs
@@ -138,7 +138,9 @@ impl Stream {
         self.keep_alive = false;
 
         if !ws::should_upgrade(req) {
-            return Err(self.respond(crate::err_400()).unwrap());
+            return Err(self
+                .respond(crate::err_400())
+                .unwrap_or_else(|_| UsedStream::empty()));
         }
 
         if !ws::perform_upgrade(req, self.stream.clone()) {
diff --git a/puck/src/ws/upgrade.rs b/puck/src/ws/upgrade.rs
index 56ea9fe..fb4dc14 100644
--- a/puck/src/ws/upgrade.rs
+++ b/puck/src/ws/upgrade.rs
@@ -4,7 +4,7 @@ use base64::encode;
 use log::trace;
 use sha1::{Digest, Sha1};
 
-use crate::{err_400, write_response, Response};
+use crate::{err_400, response::encoder::Encoder, Response};
 
 /// Compute whether or not this request can be upgraded.
 pub fn should_upgrade(req: &crate::Request) -> bool {
@@ -40,24 +40,23 @@ pub fn perform_upgrade(req: &crate::Request, stream: impl Write) -> bool {
         Some(t) => t,
         None => {
             trace!("Rejecting WebSocket upgrade because of missing `Sec-WebSocket-Key` header.");
-            write_response(err_400(), stream);
+            let _ = Encoder::new(err_400()).write_tcp_stream(stream);
             return false;
         }
     };
 
     let result = compute_accept_header(key.clone());
 
-    write_response(
+    Encoder::new(
         Response::build()
             .header("Sec-WebSocket-Accept", result)
             .header("Upgrade", "websocket")
             .header("Connection", "Upgrade")
             .status(101, "Web Socket Protocol Handshake")
             .build(),
-        stream,
-    );
-
-    true
+    )
+    .write_tcp_stream(stream)
+    .is_ok()
 }
 
 fn compute_accept_header(key: String) -> String {
-- 
2.43.0


From b55ee304c4c1909b10d93fadf0a8ca2a13f47920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 19/35] fix: refuse to send a ping or pong which no control
 frame can hold

---
 puck/src/ws/send.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/puck/src/ws/send.rs b/puck/src/ws/send.rs
index 2cc7d14..751e19a 100644
--- a/puck/src/ws/send.rs
+++ b/puck/src/ws/send.rs
@@ -6,6 +6,13 @@ use super::{frame::Frame, message::Message};
 
 /// Send a message to the provided stream.
 pub(crate) fn send(stream: impl Write, msg: Message) -> Result<(), SendFrameError> {
+    if let Message::Ping(Some(payload)) | Message::Pong(Some(payload)) = &msg {
+        // the longest payload which a control frame may have
+        if payload.len() > 125 {
+            return Err(SendFrameError::EncodeFrameError);
+        }
+    }
+
     send_frame(stream, Frame::from(msg))
 }
 
-- 
2.43.0


From 8e1f5a3b16e4656e040dce5cd5cbcd8437800144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 20/35] fix: refuse to send a message on a WebSocket which has
 been closed

---
 puck/src/ws/send.rs      | 3 +++
 puck/src/ws/websocket.rs | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/puck/src/ws/send.rs b/puck/src/ws/send.rs
index 751e19a..04fd50d 100644
--- a/puck/src/ws/send.rs
+++ b/puck/src/ws/send.rs
@@ -35,6 +35,9 @@ pub enum SendFrameError {
     #[error("io error")]
     /// Indicates that there was an IO error when trying to handle this frame.
     IoError,
+    #[error("the connection has been closed")]
+    /// Indicates that the connection is already closed, so nothing more may be sent.
+    ConnectionClosed,
 }
 
 impl From<std::io::Error> for SendFrameError {
diff --git a/puck/src/ws/websocket.rs b/puck/src/ws/websocket.rs
index 19a129b..2eb84a2 100644
--- a/puck/src/ws/websocket.rs
+++ b/puck/src/ws/websocket.rs
@@ -45,6 +45,10 @@ impl WebSocket {
 
     /// Send a message to the other party.
     pub fn send(&self, message: Message) -> Result<(), SendFrameError> {
+        if let WebSocketState::Closed = self.state {
+            return Err(SendFrameError::ConnectionClosed);
+        }
+
         send::send(self.clone_stream(), message)
     }
 
-- 
2.43.0


From b315d5097ebb7e1b18873b523d54cc36794131f9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 21/35] fix: refer to an element by the id it has, not the one
 it is about to get

---
 puck_liveview/src/dom/element/diff/mod.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/puck_liveview/src/dom/element/diff/mod.rs b/puck_liveview/src/dom/element/diff/mod.rs
index 9c4660f..d78b7aa 100644
--- a/puck_liveview/src/dom/element/diff/mod.rs
+++ b/puck_liveview/src/dom/element/diff/mod.rs
@@ -57,7 +57,7 @@ impl Element {
             })
         }
 
-        cs.extend(self.generate_listeners());
+        cs.extend(self.generate_listeners(self.id()));
 
         if let Some(ref value) = self.text {
             cs.ops.push(Op {
@@ -116,7 +116,7 @@ impl Element {
     fn diff_name<'a>(&'a self, other: &'a Element) -> Changeset<'a> {
         if self.name != other.name {
             Changeset::from_op(Op {
-                id: other.id(),
+                id: self.id(),
                 instruction: Instruction::SetTagName {
                     name: Cow::Borrowed(&other.name),
                 },
@@ -184,19 +184,20 @@ impl Element {
                 id: self.id(),
                 instruction: Instruction::RemoveListeners,
             });
-            c.ops.extend(other.generate_listeners())
+            c.ops.extend(other.generate_listeners(self.id()))
         }
 
         c
     }
 
-    /// Generates all the listeners which should be attached to a given `Element`.
-    fn generate_listeners(&'_ self) -> Changeset<'_> {
+    /// Generates all the listeners which should be attached to a given `Element`, which currently
+    /// has the provided ID.
+    fn generate_listeners(&'_ self, id: String) -> Changeset<'_> {
         let mut c = Changeset::empty();
 
         for listener in self.listeners.iter() {
             c.ops.push(Op {
-                id: self.id(),
+                id: id.clone(),
                 instruction: Instruction::AttachListener {
                     name: listener.listener_name().to_string(),
                     on: listener.js_event().to_string(),
-- 
2.43.0


From 1142f39ce822b14bafa2af6d28ce89382b144ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:18:09 +0000
Subject: [PATCH 22/35] fix: give elements their new ids only when no other
 element has them

---
 puck_liveview/src/dom/element/diff/mod.rs | 103 ++++++++++++++++------
 1 file changed, 74 insertions(+), 29 deletions(-)

diff --git a/puck_liveview/src/dom/element/diff/mod.rs b/puck_liveview/src/dom/element/diff/mod.rs
index d78b7aa..ebe166e 100644
--- a/puck_liveview/src/dom/element/diff/mod.rs
+++ b/puck_liveview/src/dom/element/diff/mod.rs
@@ -4,12 +4,21 @@ pub(crate) mod changeset;
 #[allow(unused_parens)]
 mod test_diffing;
 
-use std::borrow::Cow;
+use std::{borrow::Cow, collections::HashSet};
 
 use self::changeset::{Changeset, Instruction, Op};
 
 use super::Element;
 
+/// What can only happen once all the elements which stay have been brought up to date.
+#[derive(Default)]
+struct Pending<'a> {
+    /// The elements which stay, as they were and as they will be.
+    kept: Vec<(&'a Element, &'a Element)>,
+    /// The elements which have to be created, and their parents.
+    created: Vec<(&'a Element, &'a Element)>,
+}
+
 impl Element {
     /// Compare two root nodes and produce a set of instructions which can be followed to produce
     /// one from the other.
@@ -17,14 +26,15 @@ impl Element {
         let mut c = Changeset::empty();
 
         if let Some(other) = other {
+            let mut pending = Pending::default();
             // we need to apply all these updates...
-            c.ops.extend(self.diff_name(other));
-            c.ops.extend(self.diff_attributes(other));
-            c.ops.extend(self.diff_text(other));
-            c.ops.extend(self.diff_listeners(other));
-            // ... before we change the id
-            c.ops.extend(self.diff_children(other));
-            c.ops.extend(self.diff_id(other));
+            self.diff_in_place(other, &mut c, &mut pending);
+            // ... before we change the ids ...
+            c.extend(Self::diff_ids(&pending.kept));
+            // ... because ids of new elements can be ones which old elements had
+            for (el, parent) in pending.created {
+                c.extend(el.create_from_scratch(Some(parent)));
+            }
         } else {
             c.ops.extend(self.create_from_scratch(None))
         }
@@ -32,11 +42,26 @@ impl Element {
         c
     }
 
+    /// Emits the instructions which can be carried out while all elements have their old ids.
+    fn diff_in_place<'a>(
+        &'a self,
+        other: &'a Element,
+        changeset: &mut Changeset<'a>,
+        pending: &mut Pending<'a>,
+    ) {
+        changeset.extend(self.diff_name(other));
+        changeset.extend(self.diff_attributes(other));
+        changeset.extend(self.diff_text(other));
+        changeset.extend(self.diff_listeners(other));
+        pending.kept.push((self, other));
+        self.diff_children(other, changeset, pending);
+    }
+
     /// Create a new element from scratch – generally used for the first application paint.
     ///
     /// In the future we should just send this as a serialized HTML string, rather than a series of
     /// Javascript instructions.
-    fn create_from_scratch(&self, parent: Option<&Element>) -> Changeset {
+    fn create_from_scratch(&self, parent: Option<&Element>) -> Changeset<'_> {
         let mut cs = Changeset::empty();
 
         cs.ops.push(Op {
@@ -98,17 +123,36 @@ impl Element {
         cs
     }
 
-    /// Compares the ID's of two elements and emits instructions to update the underlying DOM node
-    /// so that it has the new ID.
-    fn diff_id<'a>(&'a self, other: &'a Element) -> Changeset {
-        if self.id != other.id {
-            Changeset::from_op(Op {
-                id: self.id(),
-                instruction: Instruction::SetId { value: other.id() },
-            })
-        } else {
-            Changeset::empty()
+    /// Compares the ID's of the elements which stay and emits instructions to update the underlying
+    /// DOM nodes so that they have the new ID's. No two of them have the same ID at any time.
+    fn diff_ids<'a>(kept: &[(&'a Element, &'a Element)]) -> Changeset<'a> {
+        let mut first = Changeset::empty();
+        let mut second = Changeset::empty();
+
+        let taken: HashSet<usize> = kept.iter().map(|(old, _)| old.id).collect();
+        let used: HashSet<usize> = kept.iter().map(|(_, new)| new.id).collect();
+        let mut unused = (0..).filter(|id| !taken.contains(id) && !used.contains(id));
+
+        for (old, new) in kept.iter().filter(|(old, new)| old.id != new.id) {
+            // if another element still has this ID, use an unused one until it has changed its ID
+            let value = if taken.contains(&new.id) {
+                let temporary = unused.next().unwrap().to_string();
+                second.ops.push(Op {
+                    id: temporary.clone(),
+                    instruction: Instruction::SetId { value: new.id() },
+                });
+                temporary
+            } else {
+                new.id()
+            };
+            first.ops.push(Op {
+                id: old.id(),
+                instruction: Instruction::SetId { value },
+            });
         }
+
+        first.extend(second);
+        first
     }
 
     /// Compares the tag names of two DOM nodes and emits instructions to update the underlying DOM
@@ -217,16 +261,19 @@ impl Element {
 
     /// Compares the children of two nodes and emits instructions to update the old children to
     /// assume the form of the new children.
-    fn diff_children<'a>(&'a self, other: &'a Element) -> Changeset<'a> {
-        let mut changeset = Changeset::empty();
-
+    fn diff_children<'a>(
+        &'a self,
+        other: &'a Element,
+        changeset: &mut Changeset<'a>,
+        pending: &mut Pending<'a>,
+    ) {
         if self.children_are_all_keyed() && other.children_are_all_keyed() {
             // nodes which are shared between us and the other node
             let mut unpaired = vec![];
             for (i, their_child) in other.children.iter().enumerate() {
                 if let Some(my_child) = self.locate_child_by_key(their_child.key.as_ref().unwrap())
                 {
-                    changeset.ops.extend(my_child.diff(Some(their_child)));
+                    my_child.diff_in_place(their_child, changeset, pending);
                 } else {
                     unpaired.push(i);
                 }
@@ -272,7 +319,7 @@ impl Element {
             #[allow(clippy::comparison_chain)]
             if self_len == other_len {
                 for (my_child, their_child) in self.children.iter().zip(&other.children) {
-                    changeset.ops.extend(my_child.diff(Some(their_child)));
+                    my_child.diff_in_place(their_child, changeset, pending);
                 }
                 // we are done
             } else if self_len > other_len {
@@ -283,20 +330,18 @@ impl Element {
                     })
                 }
                 for (my_child, their_child) in self.children.iter().zip(&other.children) {
-                    changeset.ops.extend(my_child.diff(Some(their_child)));
+                    my_child.diff_in_place(their_child, changeset, pending);
                 }
             } else {
                 for (my_child, their_child) in self.children.iter().zip(&other.children) {
-                    changeset.ops.extend(my_child.diff(Some(their_child)));
+                    my_child.diff_in_place(their_child, changeset, pending);
                 }
                 // add all the elements that they have, but we don't
                 for el in other.children[self_len..].iter() {
-                    changeset.ops.extend(el.create_from_scratch(Some(self)));
+                    pending.created.push((el, other));
                 }
             }
         }
-
-        changeset
     }
 
     /// Checks that the `Element` doesn't have children without a key.
-- 
2.43.0


From 6a3ade0fa81b58b17a46793270bd92e6eba25bfb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:18:09 +0000
Subject: [PATCH 23/35] fix: create keyed children which are new, and keep the
 order of the children

---
 .../src/dom/element/diff/changeset/mod.rs     |   2 +
 puck_liveview/src/dom/element/diff/mod.rs     | 141 ++++++++----------
 2 files changed, 66 insertions(+), 77 deletions(-)

diff --git a/puck_liveview/src/dom/element/diff/changeset/mod.rs b/puck_liveview/src/dom/element/diff/changeset/mod.rs
index e3d3c12..cd2b642 100644
--- a/puck_liveview/src/dom/element/diff/changeset/mod.rs
+++ b/puck_liveview/src/dom/element/diff/changeset/mod.rs
@@ -51,9 +51,11 @@ pub(crate) enum Instruction<'a> {
     InsertChild {
         new_child_id: String,
     },
+    #[allow(unused)]
     InsertAfter {
         after_id: String,
     },
+    #[allow(unused)]
     InsertBefore {
         before_id: String,
     },
diff --git a/puck_liveview/src/dom/element/diff/mod.rs b/puck_liveview/src/dom/element/diff/mod.rs
index ebe166e..d13828f 100644
--- a/puck_liveview/src/dom/element/diff/mod.rs
+++ b/puck_liveview/src/dom/element/diff/mod.rs
@@ -4,7 +4,10 @@ pub(crate) mod changeset;
 #[allow(unused_parens)]
 mod test_diffing;
 
-use std::{borrow::Cow, collections::HashSet};
+use std::{
+    borrow::Cow,
+    collections::{HashMap, HashSet},
+};
 
 use self::changeset::{Changeset, Instruction, Op};
 
@@ -252,11 +255,44 @@ impl Element {
         c
     }
 
-    /// Tries to find a child with the provided key. Returns `None` if a child cannot be found.
-    fn locate_child_by_key(&self, key: &str) -> Option<&Element> {
-        self.children
+    /// Pairs the children of two nodes by their keys. Returns the old child for each new one.
+    ///
+    /// As elements stay where they are and new ones can only be added at the end, this is not
+    /// possible (and `None` is returned) if children have changed their order, or if new ones come
+    /// before old ones. It is not possible either if there are children without a key of their own.
+    fn pair_children_by_key<'a>(&'a self, other: &'a Element) -> Option<Vec<Option<&'a Element>>> {
+        let mine = self.children_by_key()?;
+        let theirs = other.children_by_key()?;
+        if theirs.len() != other.children.len() || mine.len() != self.children.len() {
+            return None;
+        }
+
+        let pairs: Vec<Option<usize>> = other
+            .children
             .iter()
-            .find(|el| el.key.as_ref().unwrap().eq(key))
+            .map(|el| mine.get(el.key.as_ref().unwrap()).copied())
+            .collect();
+
+        let kept = pairs.iter().take_while(|each| each.is_some()).count();
+        if pairs[kept..].iter().any(|each| each.is_some())
+            || pairs[..kept].windows(2).any(|two| two[0] > two[1])
+        {
+            return None;
+        }
+
+        Some(
+            pairs
+                .into_iter()
+                .map(|each| each.map(|i| &self.children[i]))
+                .collect(),
+        )
+    }
+
+    /// Pairs the children of two nodes by their position. Returns the old child for each new one.
+    fn pair_children_by_position<'a>(&'a self, other: &'a Element) -> Vec<Option<&'a Element>> {
+        (0..other.children.len())
+            .map(|i| self.children.get(i))
+            .collect()
     }
 
     /// Compares the children of two nodes and emits instructions to update the old children to
@@ -267,85 +303,36 @@ impl Element {
         changeset: &mut Changeset<'a>,
         pending: &mut Pending<'a>,
     ) {
-        if self.children_are_all_keyed() && other.children_are_all_keyed() {
-            // nodes which are shared between us and the other node
-            let mut unpaired = vec![];
-            for (i, their_child) in other.children.iter().enumerate() {
-                if let Some(my_child) = self.locate_child_by_key(their_child.key.as_ref().unwrap())
-                {
-                    my_child.diff_in_place(their_child, changeset, pending);
-                } else {
-                    unpaired.push(i);
-                }
-            }
+        let pairs = self
+            .pair_children_by_key(other)
+            .unwrap_or_else(|| self.pair_children_by_position(other));
 
-            // generate all the new nodes (the ones that exist for them, but not for us)
-            let len = unpaired.len();
-            for each in unpaired {
-                changeset.ops.push(Op {
-                    id: other.children[each].id(),
-                    instruction: if each == 0 {
-                        Instruction::InsertBefore {
-                            before_id: other.children[1].id(),
-                        }
-                    } else if each == len {
-                        Instruction::InsertAfter {
-                            after_id: other.children[each].id(),
-                        }
-                    } else {
-                        Instruction::InsertBefore {
-                            before_id: other.children[each - 1].id(),
-                        }
-                    },
-                })
-            }
+        let kept: HashSet<usize> = pairs.iter().flatten().map(|el| el.id).collect();
 
-            // delete all the nodes that we have that they don't
-            for our_child in self.children.iter() {
-                if other
-                    .locate_child_by_key(our_child.key.as_ref().unwrap())
-                    .is_none()
-                {
-                    changeset.ops.push(Op {
-                        id: our_child.id(),
-                        instruction: Instruction::DeleteEl,
-                    })
-                }
-            }
-        } else {
-            let self_len = self.children.len();
-            let other_len = other.children.len();
+        // delete all the nodes that we have that they don't
+        for el in self.children.iter().filter(|el| !kept.contains(&el.id)) {
+            changeset.ops.push(Op {
+                id: el.id(),
+                instruction: Instruction::DeleteEl,
+            })
+        }
 
-            #[allow(clippy::comparison_chain)]
-            if self_len == other_len {
-                for (my_child, their_child) in self.children.iter().zip(&other.children) {
-                    my_child.diff_in_place(their_child, changeset, pending);
-                }
-                // we are done
-            } else if self_len > other_len {
-                for el in self.children[other_len..].iter() {
-                    changeset.ops.push(Op {
-                        id: el.id(),
-                        instruction: Instruction::DeleteEl,
-                    })
-                }
-                for (my_child, their_child) in self.children.iter().zip(&other.children) {
-                    my_child.diff_in_place(their_child, changeset, pending);
-                }
-            } else {
-                for (my_child, their_child) in self.children.iter().zip(&other.children) {
-                    my_child.diff_in_place(their_child, changeset, pending);
-                }
+        for (my_child, their_child) in pairs.into_iter().zip(&other.children) {
+            match my_child {
+                Some(my_child) => my_child.diff_in_place(their_child, changeset, pending),
                 // add all the elements that they have, but we don't
-                for el in other.children[self_len..].iter() {
-                    pending.created.push((el, other));
-                }
+                None => pending.created.push((their_child, other)),
             }
         }
     }
 
-    /// Checks that the `Element` doesn't have children without a key.
-    fn children_are_all_keyed(&self) -> bool {
-        self.children.iter().all(|el| el.key.is_some())
+    /// Finds the position of each child by its key. Returns `None` if there is a child without a
+    /// key.
+    fn children_by_key(&self) -> Option<HashMap<&String, usize>> {
+        self.children
+            .iter()
+            .enumerate()
+            .map(|(i, el)| el.key.as_ref().map(|key| (key, i)))
+            .collect()
     }
 }
-- 
2.43.0


From 2020a01ce63e151f2f710231a0682e67e9d2ede5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:18:09 +0000
Subject: [PATCH 24/35] fix: end the processes of a component whose client is
 gone

---
 puck_liveview/src/component/mod.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/puck_liveview/src/component/mod.rs b/puck_liveview/src/component/mod.rs
index 9de4e09..cbafbb9 100644
--- a/puck_liveview/src/component/mod.rs
+++ b/puck_liveview/src/component/mod.rs
@@ -68,11 +68,12 @@ where
 
             Process::spawn(
                 (stream, process.clone()),
-                |(mut websocket, process), _: Mailbox<()>| loop {
-                    loop {
-                        let msg = websocket.next();
-                        if let Some(msg) = msg {
-                            process.send(WsOrInput::Ws(msg))
+                |(mut websocket, process), _: Mailbox<()>| {
+                    while let Some(msg) = websocket.next() {
+                        let closed = matches!(msg, Err(NextMessageError::ConnectionClosed));
+                        process.send(WsOrInput::Ws(msg));
+                        if closed {
+                            break;
                         }
                     }
                 },
@@ -110,7 +111,10 @@ fn main_loop<COMPONENT, DATA, INPUT>(
 
     let payload = serde_json::to_string(&InstructionSerializer(instructions)).unwrap();
 
-    stream.send(Message::Text(payload)).unwrap();
+    if stream.send(Message::Text(payload)).is_err() {
+        // the client has left already
+        return;
+    }
 
     loop {
         let msg = mailbox.receive();
-- 
2.43.0


From bff5ce612fce8f5d9e868fdea7a4f8f1c1f5bde3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 25/35] fix: do not cut attributes and names of listeners at a
 plus

---
 puck_liveview/client/index.js | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index c356ddd..09a778f 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -16,10 +16,10 @@ ws.onmessage = (msg) => {
         } else if (data.ty === "setAttr") {
             console.log("set attribute");
             console.log(document.getElementById(data.el));
-            let split = data["payload"].split("+");
-            console.log(split[1]);
+            // the value can contain any character
+            let at = data["payload"].indexOf("+");
             let el = document.getElementById(data.el);
-            el.setAttribute(split[0], split[1]);
+            el.setAttribute(data["payload"].slice(0, at), data["payload"].slice(at + 1));
         } else if (data.ty == "removeAttr") {
             document.getElementById(data.el).removeAttribute(data.payload);
         } else if (data.ty === "setTagName") {
@@ -37,7 +37,9 @@ ws.onmessage = (msg) => {
             console.log(data);
             document.getElementById(data["el"]).textContent = data["payload"];
         } else if (data.ty === "attachListener") {
-            let split = data.payload.split("+");
+            // the name of the listener can contain any character
+            let at = data.payload.lastIndexOf("+");
+            let split = [data.payload.slice(0, at), data.payload.slice(at + 1)];
             document.getElementById(data.el).addEventListener(split[1], function (e) {
                 console.log("sending listener data");
                 console.log(split);
-- 
2.43.0


From 7d1e1289455d6a3391e6e47b1911783e83b14ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 26/35] fix: do not drop the children of an element when its
 text changes

---
 puck_liveview/client/index.js | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index 09a778f..dc3d2ea 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -1,5 +1,15 @@
 let ws = new WebSocket("ws://" + window.location.host + window.location.pathname + "ws");
 
+// The text of an element comes before its children.
+let setText = (el, text) => {
+    if (el.firstChild && el.firstChild.nodeType === Node.TEXT_NODE) {
+        el.removeChild(el.firstChild);
+    }
+    if (text !== "") {
+        el.insertBefore(document.createTextNode(text), el.firstChild);
+    }
+};
+
 ws.onmessage = (msg) => {
     let data = JSON.parse(msg.data);
     data.map((data) => {
@@ -35,7 +45,9 @@ ws.onmessage = (msg) => {
             old_tag.parentNode.replaceChild(new_tag, old_tag);
         } else if (data.ty === "setText") {
             console.log(data);
-            document.getElementById(data["el"]).textContent = data["payload"];
+            setText(document.getElementById(data["el"]), data["payload"]);
+        } else if (data.ty === "removeText") {
+            setText(document.getElementById(data["el"]), "");
         } else if (data.ty === "attachListener") {
             // the name of the listener can contain any character
             let at = data.payload.lastIndexOf("+");
-- 
2.43.0


From bccc4b684e6ac3b7e590bc67fe1be6dc2d27164c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 27/35] fix: keep the listeners of elements when others are
 removed or a tag changes

---
 puck_liveview/client/index.js | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index dc3d2ea..539870a 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -1,5 +1,23 @@
 let ws = new WebSocket("ws://" + window.location.host + window.location.pathname + "ws");
 
+// The listeners which are attached to each element, so that they can be removed again.
+let listeners = new WeakMap();
+
+let attach = (el, on, listener) => {
+    el.addEventListener(on, listener);
+    if (!listeners.has(el)) {
+        listeners.set(el, []);
+    }
+    listeners.get(el).push([on, listener]);
+};
+
+let detach = (el) => {
+    let attached = listeners.get(el) || [];
+    listeners.delete(el);
+    attached.forEach(([on, listener]) => el.removeEventListener(on, listener));
+    return attached;
+};
+
 // The text of an element comes before its children.
 let setText = (el, text) => {
     if (el.firstChild && el.firstChild.nodeType === Node.TEXT_NODE) {
@@ -35,13 +53,16 @@ ws.onmessage = (msg) => {
         } else if (data.ty === "setTagName") {
             let old_tag = document.getElementById(data.el);
             let new_tag = document.createElement(data.payload);
-            new_tag.innerHTML = old_tag.innerHTML;
+            while (old_tag.firstChild) {
+                new_tag.appendChild(old_tag.firstChild);
+            }
             for (var i = 0, l = old_tag.attributes.length; i < l; ++i) {
                 let name = old_tag.attributes.item(i).nodeName;
                 var value = old_tag.attributes.item(i).nodeValue;
 
                 new_tag.setAttribute(name, value);
             }
+            detach(old_tag).forEach(([on, listener]) => attach(new_tag, on, listener));
             old_tag.parentNode.replaceChild(new_tag, old_tag);
         } else if (data.ty === "setText") {
             console.log(data);
@@ -52,7 +73,7 @@ ws.onmessage = (msg) => {
             // the name of the listener can contain any character
             let at = data.payload.lastIndexOf("+");
             let split = [data.payload.slice(0, at), data.payload.slice(at + 1)];
-            document.getElementById(data.el).addEventListener(split[1], function (e) {
+            attach(document.getElementById(data.el), split[1], function (e) {
                 console.log("sending listener data");
                 console.log(split);
                 console.log(data);
@@ -76,9 +97,7 @@ ws.onmessage = (msg) => {
                 }
             })
         } else if (data.ty === "removeListeners") {
-            let old = document.getElementById(data.el);
-            let new_el = old.cloneNode(true);
-            old.parentNode.replaceChild(new_el, old);
+            detach(document.getElementById(data.el));
         } else if (data.ty === "deleteEl") {
             let el = document.getElementById(data.el);
             console.log("deleting");
-- 
2.43.0


From cadc8499b5ce8174c97ccfcf6bb8a833ac21e36f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 28/35] fix: do not leave the page when a form is submitted

---
 puck_liveview/client/index.js | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index 539870a..b4dfa4f 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -83,6 +83,8 @@ ws.onmessage = (msg) => {
                         listener: split[0]
                     }));
                 } else if (split[1] === "submit") {
+                    // stay on this page
+                    e.preventDefault();
                     ws.send(JSON.stringify({
                         listener: split[0]
                     }));
-- 
2.43.0


From aed3e1ba9f20af43bbb87e181a24353348e4d0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 29/35] fix: find elements which have an attribute id of their
 own

---
 puck_liveview/client/index.js | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index b4dfa4f..fab73cb 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -1,5 +1,8 @@
 let ws = new WebSocket("ws://" + window.location.host + window.location.pathname + "ws");
 
+// The elements by the ids by which the server refers to them.
+let elements = new Map();
+
 // The listeners which are attached to each element, so that they can be removed again.
 let listeners = new WeakMap();
 
@@ -35,23 +38,23 @@ ws.onmessage = (msg) => {
             console.log("create tag");
             let split = data["payload"].split("+");
             let el = document.createElement(split[0]);
-            el.id = data["el"];
+            elements.set(data["el"], el);
             if (!split[1] || split[1] === "") {
                 document.body.appendChild(el);
             } else {
-                document.getElementById(split[1]).appendChild(el);
+                elements.get(split[1]).appendChild(el);
             }
         } else if (data.ty === "setAttr") {
             console.log("set attribute");
-            console.log(document.getElementById(data.el));
+            console.log(elements.get(data.el));
             // the value can contain any character
             let at = data["payload"].indexOf("+");
-            let el = document.getElementById(data.el);
+            let el = elements.get(data.el);
             el.setAttribute(data["payload"].slice(0, at), data["payload"].slice(at + 1));
         } else if (data.ty == "removeAttr") {
-            document.getElementById(data.el).removeAttribute(data.payload);
+            elements.get(data.el).removeAttribute(data.payload);
         } else if (data.ty === "setTagName") {
-            let old_tag = document.getElementById(data.el);
+            let old_tag = elements.get(data.el);
             let new_tag = document.createElement(data.payload);
             while (old_tag.firstChild) {
                 new_tag.appendChild(old_tag.firstChild);
@@ -64,16 +67,17 @@ ws.onmessage = (msg) => {
             }
             detach(old_tag).forEach(([on, listener]) => attach(new_tag, on, listener));
             old_tag.parentNode.replaceChild(new_tag, old_tag);
+            elements.set(data.el, new_tag);
         } else if (data.ty === "setText") {
             console.log(data);
-            setText(document.getElementById(data["el"]), data["payload"]);
+            setText(elements.get(data["el"]), data["payload"]);
         } else if (data.ty === "removeText") {
-            setText(document.getElementById(data["el"]), "");
+            setText(elements.get(data["el"]), "");
         } else if (data.ty === "attachListener") {
             // the name of the listener can contain any character
             let at = data.payload.lastIndexOf("+");
             let split = [data.payload.slice(0, at), data.payload.slice(at + 1)];
-            attach(document.getElementById(data.el), split[1], function (e) {
+            attach(elements.get(data.el), split[1], function (e) {
                 console.log("sending listener data");
                 console.log(split);
                 console.log(data);
@@ -99,15 +103,18 @@ ws.onmessage = (msg) => {
                 }
             })
         } else if (data.ty === "removeListeners") {
-            detach(document.getElementById(data.el));
+            detach(elements.get(data.el));
         } else if (data.ty === "deleteEl") {
-            let el = document.getElementById(data.el);
+            let el = elements.get(data.el);
             console.log("deleting");
             console.log(el);
             el.parentNode.removeChild(el);
+            elements.delete(data.el);
         } else if (data.ty === "setId") {
             console.log("updating id, from: " + data.el + ", to: " + data.payload);
-            document.getElementById(data.el).id = data.payload;
+            let el = elements.get(data.el);
+            elements.delete(data.el);
+            elements.set(data.payload, el);
         }
     });
 }
-- 
2.43.0


From dff8accdd08da17734064b203e7a9405549ec3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 30/35] fix: load the script of an index page whose path does
 not end in a slash

---
 puck_liveview/client/index.js |  4 +++-
 puck_liveview/src/init.rs     | 12 ++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index fab73cb..1b74259 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -1,4 +1,6 @@
-let ws = new WebSocket("ws://" + window.location.host + window.location.pathname + "ws");
+// the path of this page may or may not end in a slash
+let base = window.location.pathname.replace(/\/?$/, "/");
+let ws = new WebSocket("ws://" + window.location.host + base + "ws");
 
 // The elements by the ids by which the server refers to them.
 let elements = new Map();
diff --git a/puck_liveview/src/init.rs b/puck_liveview/src/init.rs
index 4bb8aa8..71c560f 100644
--- a/puck_liveview/src/init.rs
+++ b/puck_liveview/src/init.rs
@@ -3,7 +3,7 @@ use puck::{body::Body, Response};
 /// Returns the index page to the client.
 ///
 /// You can mount this anywhere, but make sure that you mount an instance of `js` at
-/// `/<path of this route>/js`.
+/// `/<path of this route>/js`, and that the WebSocket is at `/<path of this route>/ws`.
 pub fn index() -> Response {
     Response::build()
         .header("Content-Type", "text/html")
@@ -12,7 +12,15 @@ pub fn index() -> Response {
         <!DOCTYPE html>
         <html>
             <head>
-                <script src="./js"></script>
+                <script>
+                    {
+                        // below this page, whether or not its path ends in a slash
+                        let base = window.location.pathname.replace(/\/?$/, "/");
+                        let script = document.createElement("script");
+                        script.src = window.location.origin + base + "js";
+                        document.head.appendChild(script);
+                    }
+                </script>
             </head>
             <body>
             </body>
-- 
2.43.0


From 7b2fc1a6cf7a44ccdc1dce623a7c232f170da7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:57 +0000
Subject: [PATCH 31/35] fix: count the bytes of a body in 64 bits, also where
 usize has only 32

---
 puck/src/body/mod.rs     | 24 ++++++++++++------------
 puck/src/request/mod.rs  |  4 ++--
 puck/src/response/mod.rs |  4 ++--
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/puck/src/body/mod.rs b/puck/src/body/mod.rs
index dfdbe63..49532d6 100644
--- a/puck/src/body/mod.rs
+++ b/puck/src/body/mod.rs
@@ -15,8 +15,9 @@ pub mod mime;
 pub struct Body {
     reader: Box<dyn BufRead + 'static>,
     pub(crate) mime: Mime,
-    pub(crate) length: Option<usize>,
-    bytes_read: usize,
+    // a body may be larger than the address space
+    pub(crate) length: Option<u64>,
+    bytes_read: u64,
 }
 
 impl fmt::Debug for Body {
@@ -43,10 +44,14 @@ impl Body {
     /// Construct a new `Body` from the provided reader (which should implement `BufRead`). Note
     /// that if you can, you should ideally supply `content_length`.
     pub fn from_reader(reader: impl BufRead + 'static, content_length: Option<usize>) -> Self {
+        Self::with_length(reader, content_length.map(|length| length as u64))
+    }
+
+    pub(crate) fn with_length(reader: impl BufRead + 'static, length: Option<u64>) -> Self {
         Self {
             reader: Box::new(reader),
             mime: BYTE_STREAM,
-            length: content_length,
+            length,
             bytes_read: 0,
         }
     }
@@ -58,12 +63,7 @@ impl Body {
     pub fn from_string(string: impl ToString) -> Self {
         let string = string.to_string();
         let length = Some(string.len());
-        Self {
-            reader: Box::new(Cursor::new(string)),
-            mime: BYTE_STREAM,
-            length,
-            bytes_read: 0,
-        }
+        Self::from_reader(Cursor::new(string), length)
     }
 
     /// Reads to completion from the underlying IO source, and returns the result as bytes
@@ -102,12 +102,12 @@ impl Read for Body {
             None => buf,
             Some(length) if length == self.bytes_read => return Ok(0),
             Some(length) => {
-                let max_length = (length - self.bytes_read).min(buf.len());
-                &mut buf[0..max_length]
+                let max_length = (length - self.bytes_read).min(buf.len() as u64);
+                &mut buf[0..max_length as usize]
             }
         };
         let bytes = self.reader.read(buf)?;
-        self.bytes_read += bytes;
+        self.bytes_read += bytes as u64;
         Ok(bytes)
     }
 }
diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index b58b890..4e0196d 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -113,9 +113,9 @@ impl Request {
                 return Err(RequestParseError::MissingHeader("Host".to_string()));
             };
 
-        let body = Body::from_reader(
+        let body = Body::with_length(
             reader,
-            last_header("content-length").and_then(|len| len.parse::<usize>().ok()),
+            last_header("content-length").and_then(|len| len.parse::<u64>().ok()),
         );
 
         Ok(Some(Self {
diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index 0ff16d0..cc27580 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -104,12 +104,12 @@ impl Response {
             return Err(ParseResponseError::MissingReason);
         };
 
-        let body = Body::from_reader(
+        let body = Body::with_length(
             reader,
             headers
                 .iter()
                 .find(|(key, _)| key.eq_ignore_ascii_case("content-length"))
-                .and_then(|(_, len)| len.as_str().parse::<usize>().ok()),
+                .and_then(|(_, len)| len.as_str().parse::<u64>().ok()),
         );
 
         Ok(Some(Self {
-- 
2.43.0


From 260a879c25aa810e3fb1847d5048a40c4b13d4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:01 +0000
Subject: [PATCH 32/35] fix: a replaced body's content type replaces the old
 one, whatever the case of its name

---
 puck/src/request/mod.rs  | 3 +++
 puck/src/response/mod.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 4e0196d..828ba8b 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -172,6 +172,9 @@ impl Request {
     }
 
     fn copy_content_type_from_body(&mut self) {
+        // the names of headers are case-insensitive
+        self.headers
+            .retain(|name, _| !name.eq_ignore_ascii_case("content-type"));
         self.headers
             .insert("Content-Type".into(), self.body.mime.to_string());
     }
diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index cc27580..5f3a6da 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -27,6 +27,9 @@ pub struct Response {
 
 impl Response {
     fn copy_content_type_from_body(&mut self) {
+        // the names of headers are case-insensitive
+        self.headers
+            .retain(|name, _| !name.eq_ignore_ascii_case("content-type"));
         self.headers
             .insert("Content-Type".into(), self.body.mime.to_string());
     }
-- 
2.43.0


From 8a4e4b529c9b62d1f7e75f242763375f0f89f4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:02 +0000
Subject: [PATCH 33/35] fix: which of several lengths of a response counts does
 not change from run to run

---
 puck/src/response/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index 5f3a6da..4733660 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -107,12 +107,14 @@ impl Response {
             return Err(ParseResponseError::MissingReason);
         };
 
+        // if it was sent several times, the last one counts (whatever the case of its name)
         let body = Body::with_length(
             reader,
-            headers
+            res.headers
                 .iter()
-                .find(|(key, _)| key.eq_ignore_ascii_case("content-length"))
-                .and_then(|(_, len)| len.as_str().parse::<u64>().ok()),
+                .rev()
+                .find(|header| header.name.eq_ignore_ascii_case("content-length"))
+                .and_then(|header| std::str::from_utf8(header.value).ok()?.parse::<u64>().ok()),
         );
 
         Ok(Some(Self {
-- 
2.43.0


From 04d53f121036154ef6d34286eaa6707516e4e28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:02 +0000
Subject: [PATCH 34/35] fix: whether a handshake with repeated headers succeeds
 does not change from run to run

---
 puck/src/ws/upgrade.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/puck/src/ws/upgrade.rs b/puck/src/ws/upgrade.rs
index fb4dc14..43c9724 100644
--- a/puck/src/ws/upgrade.rs
+++ b/puck/src/ws/upgrade.rs
@@ -8,24 +8,24 @@ use crate::{err_400, response::encoder::Encoder, Response};
 
 /// Compute whether or not this request can be upgraded.
 pub fn should_upgrade(req: &crate::Request) -> bool {
-    get_header(req, "Upgrade")
-        .map(|val| val.to_ascii_lowercase() == "websocket")
-        .unwrap_or_default()
+    get_headers(req, "Upgrade").any(|val| val.to_ascii_lowercase() == "websocket")
         // todo: read the spec to check if the check for the upgrade header is correct!
-        && get_header(req, "Connection")
-            .map(|val| {
-                val.split(',')
-                    .any(|option| option.trim().eq_ignore_ascii_case("upgrade"))
-            })
-            .unwrap_or_default()
+        && get_headers(req, "Connection").any(|val| {
+            val.split(',')
+                .any(|option| option.trim().eq_ignore_ascii_case("upgrade"))
+        })
 }
 
-/// Look up a header. The names of headers are case-insensitive.
-fn get_header<'req>(req: &'req crate::Request, name: &str) -> Option<&'req String> {
-    req.headers
+/// Look up a header. The names of headers are case-insensitive, so that there may be several (whose
+/// order does not depend on that of the map).
+fn get_headers<'req>(req: &'req crate::Request, name: &str) -> impl Iterator<Item = &'req String> {
+    let mut found = req
+        .headers
         .iter()
-        .find(|(key, _)| key.eq_ignore_ascii_case(name))
-        .map(|(_, value)| value)
+        .filter(|(key, _)| key.eq_ignore_ascii_case(name))
+        .collect::<Vec<_>>();
+    found.sort_unstable();
+    found.into_iter().map(|(_, value)| value)
 }
 
 /// The 'magic string' used to upgrade WebSocket connections.
@@ -36,7 +36,7 @@ const GUID: &str = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
 /// Returns true if this is successful, and false if it is not. Automatically sends a 400 Bad
 /// Request response if the request fails.
 pub fn perform_upgrade(req: &crate::Request, stream: impl Write) -> bool {
-    let key = match get_header(req, "Sec-WebSocket-Key") {
+    let key = match get_headers(req, "Sec-WebSocket-Key").next() {
         Some(t) => t,
         None => {
             trace!("Rejecting WebSocket upgrade because of missing `Sec-WebSocket-Key` header.");
-- 
2.43.0


From c92c45d7332d93867f99be308d6de2ca1a564c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:02 +0000
Subject: [PATCH 35/35] fix: accept the scheme of an absolute request target in
 any case

---
 puck/src/request/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 828ba8b..115f5fa 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -99,7 +99,11 @@ impl Request {
                     return Err(RequestParseError::InvalidUrl);
                 }
                 let url = req.path.ok_or(RequestParseError::InvalidUrl)?;
-                if url.starts_with("http://") || url.starts_with("https://") {
+                // the case of a scheme is of no importance
+                let has_scheme = |scheme: &str| {
+                    matches!(url.get(..scheme.len()), Some(start) if start.eq_ignore_ascii_case(scheme))
+                };
+                if has_scheme("http://") || has_scheme("https://") {
                     Url::parse(url)
                 } else if url.starts_with('/') {
                     Url::parse(&format!("http://{}{}", host, url))
-- 
2.43.0

