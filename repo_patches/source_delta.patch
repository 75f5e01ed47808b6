From 5ee153578bc16cdbab83d76801f8439c97013371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:56 +0000
Subject: [PATCH 01/21] fix: accept requests and notifications without params

The condition joined three inequalities with ||, so every request without
params was refused, including build/shutdown as this crate itself writes it,
and Message then took it for a Response. JSON-RPC lets params be omitted.
---
 bsp-server/src/notification.rs | 11 ++---------
 bsp-server/src/request.rs      | 14 ++------------
 2 files changed, 4 insertions(+), 21 deletions(-)

diff --git a/bsp-server/src/notification.rs b/bsp-server/src/notification.rs
index ac4ee9c..e4fcf73 100644
--- a/bsp-server/src/notification.rs
+++ b/bsp-server/src/notification.rs
@@ -232,15 +232,8 @@ impl<'de> Deserialize<'de> for Notification {
                 }
 
                 let method = method.ok_or_else(|| DeError::missing_field("method"))?;
-                let params = match params {
-                    Some(v) => v,
-                    None => {
-                        if &method != "build/exit" && &method != "build/initialized" {
-                            return Err(DeError::missing_field("params"));
-                        }
-                        serde_json::Value::Null
-                    }
-                };
+                // JSON-RPC lets a notification omit its params.
+                let params = params.unwrap_or(Value::Null);
 
                 fn de<'a, T: Deserialize<'a>, E: DeError>(p: serde_json::Value) -> Result<T, E> {
                     T::deserialize(p).map_err(DeError::custom)
diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index afe6733..bbbe692 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -425,18 +425,8 @@ impl<'de> Deserialize<'de> for Request {
 
                 let method = method.ok_or_else(|| DeError::missing_field("method"))?;
                 let id = de::<RequestId, _>(id.ok_or_else(|| DeError::missing_field("id"))?)?;
-                let params = match params {
-                    Some(v) => v,
-                    None => {
-                        if &method != "build/shutdown"
-                            || &method != "workspace/buildTargets"
-                            || &method != "workspace/reload"
-                        {
-                            return Err(DeError::missing_field("params"));
-                        }
-                        serde_json::Value::Null
-                    }
-                };
+                // JSON-RPC lets a request omit its params.
+                let params = params.unwrap_or(Value::Null);
 
                 Ok(match method.as_str() {
                     "build/initialize" => Request::InitializeBuild(id, de(params)?),
-- 
2.43.0


From 46069b199bc24023fddcab98f540ad715abdca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:58 +0000
Subject: [PATCH 02/21] fix: never take a request for a response

Message was tried as Request, Response, Notification in turn, and a Response
needs no more than an id: a request whose params did not fit its method came
out as an empty Response, so no one answered it, and one with an undecodable id
came out as a Notification. Decide the kind by the members that define it.
---
 bsp-server/src/message.rs | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/message.rs b/bsp-server/src/message.rs
index 13bf3a8..69c7c6d 100644
--- a/bsp-server/src/message.rs
+++ b/bsp-server/src/message.rs
@@ -1,10 +1,12 @@
 use crate::Notification;
 use crate::Request;
+use crate::RequestId;
 use crate::Response;
-use serde::{Deserialize, Serialize};
+use serde::{de::Error as DeError, Deserialize, Deserializer, Serialize};
+use serde_json::Value;
 use std::io;
 
-#[derive(Serialize, Deserialize, Debug, Clone)]
+#[derive(Serialize, Debug, Clone)]
 #[serde(untagged)]
 pub enum Message {
     Request(Request),
@@ -12,6 +14,36 @@ pub enum Message {
     Notification(Notification),
 }
 
+/// What a message is depends only on which of `method` and `id` it carries.
+impl<'de> Deserialize<'de> for Message {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        let value = Value::deserialize(deserializer)?;
+        let has_id = value.get("id").map_or(false, |id| !id.is_null());
+        match value.get("method") {
+            _ if !value.is_object() => return Err(DeError::custom("a message is an object")),
+            Some(_) if has_id => request(&value).map(Message::Request),
+            Some(_) => Notification::deserialize(&value).map(Message::Notification),
+            None => Response::deserialize(&value).map(Message::Response),
+        }
+        .map_err(DeError::custom)
+    }
+}
+
+/// A request whose params do not fit its method is kept as a custom one, so that the receiver can
+/// still answer it.
+fn request(value: &Value) -> serde_json::Result<Request> {
+    Request::deserialize(value).or_else(|_| {
+        let id = RequestId::deserialize(&value["id"])?;
+        let method = String::deserialize(&value["method"])?;
+        let params = value["params"].clone();
+        Ok(Request::Custom(
+            id,
+            Box::leak(method.into_boxed_str()),
+            params,
+        ))
+    })
+}
+
 #[derive(Serialize)]
 struct JsonRpc {
     jsonrpc: &'static str,
-- 
2.43.0


From 3cd27969ae52b83bd7df34f87eb508ebc5d3cb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:26 +0000
Subject: [PATCH 03/21] fix: skip the value of an unknown member when decoding
 from text

The visitors read the key of a member they do not know but not its value, so
serde_json refused {"jsonrpc":"2.0",...} as a Request or a Notification.
---
 bsp-server/src/notification.rs | 6 ++++--
 bsp-server/src/request.rs      | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/bsp-server/src/notification.rs b/bsp-server/src/notification.rs
index e4fcf73..bcf6a6c 100644
--- a/bsp-server/src/notification.rs
+++ b/bsp-server/src/notification.rs
@@ -5,7 +5,7 @@ use bsp_types::{
     TaskStart,
 };
 use serde::{
-    de::{Error as DeError, MapAccess, Visitor},
+    de::{Error as DeError, IgnoredAny, MapAccess, Visitor},
     ser::SerializeStruct,
     Deserialize, Deserializer, Serialize,
 };
@@ -227,7 +227,9 @@ impl<'de> Deserialize<'de> for Notification {
                             }
                             method = Some(map.next_value()?);
                         }
-                        _ => (),
+                        Field::Other => {
+                            map.next_value::<IgnoredAny>()?;
+                        }
                     }
                 }
 
diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index bbbe692..c54f36e 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -7,7 +7,7 @@ use bsp_types::*;
 pub use id::*;
 
 use serde::{
-    de::{Error as DeError, MapAccess, Visitor},
+    de::{Error as DeError, IgnoredAny, MapAccess, Visitor},
     ser::SerializeStruct,
     Deserialize, Deserializer, Serialize,
 };
@@ -415,7 +415,9 @@ impl<'de> Deserialize<'de> for Request {
                             }
                             method = Some(map.next_value()?);
                         }
-                        _ => (),
+                        Field::Other => {
+                            map.next_value::<IgnoredAny>()?;
+                        }
                     }
                 }
 
-- 
2.43.0


From 66a111a1c27a58c973df626b30623020cd58f0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:27 +0000
Subject: [PATCH 04/21] fix: return the params of a custom request, not its
 method

---
 bsp-server/src/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index c54f36e..7c4437e 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -112,7 +112,7 @@ impl Request {
             BuildTargetCompile(_, ref params) => serde_json::to_value(params),
             BuildTargetTest(_, ref params) => serde_json::to_value(params),
             BuildTargetCleanCache(_, ref params) => serde_json::to_value(params),
-            Custom(_, ref params, _) => serde_json::to_value(params),
+            Custom(_, _, ref params) => serde_json::to_value(params),
         };
 
         Ok(value?)
-- 
2.43.0


From cba4ee1dd3000ba8e4d89436ae29184930ceac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:28 +0000
Subject: [PATCH 05/21] fix: report a closed connection during the handshake
 instead of panicking

---
 bsp-server/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/lib.rs b/bsp-server/src/lib.rs
index 77eb46a..bd29652 100644
--- a/bsp-server/src/lib.rs
+++ b/bsp-server/src/lib.rs
@@ -133,7 +133,7 @@ impl Connection {
                     tracing::error!("{}", msg);
                     self.sender
                         .send(Response::server_not_initialized(req.id().clone(), msg).into())
-                        .unwrap();
+                        .map_err(|e| ProtocolError(e.to_string()))?;
                 }
                 Ok(msg) => {
                     let msg = format!("expected initialize request, got {:?}", msg);
@@ -157,7 +157,9 @@ impl Connection {
         initialize_result: V,
     ) -> Result<(), ProtocolError> {
         let resp = Response::ok(initialize_id, initialize_result);
-        self.sender.send(resp.into()).unwrap();
+        self.sender
+            .send(resp.into())
+            .map_err(|e| ProtocolError(e.to_string()))?;
         match &self.receiver.recv() {
             Ok(Message::Notification(Notification::Initialized)) => (),
             Ok(msg) => {
-- 
2.43.0


From 298fc04098fcf0c46220956cf721fabf1ef78ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:29 +0000
Subject: [PATCH 06/21] fix: drop notifications that arrive before the
 initialize request

The protocol, as quoted on InitializeBuild and BuildServer::initialize, has the
server drop them, except for exit; the handshake failed on any of them.
---
 bsp-server/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bsp-server/src/lib.rs b/bsp-server/src/lib.rs
index bd29652..413030e 100644
--- a/bsp-server/src/lib.rs
+++ b/bsp-server/src/lib.rs
@@ -135,6 +135,10 @@ impl Connection {
                         .send(Response::server_not_initialized(req.id().clone(), msg).into())
                         .map_err(|e| ProtocolError(e.to_string()))?;
                 }
+                // Drop notifications other than exit
+                Ok(Message::Notification(n)) if !matches!(n, Notification::Exit) => {
+                    tracing::warn!("expected initialize request, dropping {:?}", n);
+                }
                 Ok(msg) => {
                     let msg = format!("expected initialize request, got {:?}", msg);
                     tracing::error!("{}", msg);
-- 
2.43.0


From f308f0884a9d071ea2a7e397ac9d30ef6155173d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:43 +0000
Subject: [PATCH 07/21] fix: report socket errors from IoThreads::join instead
 of panicking

As the stdio transport already does.
---
 bsp-server/src/transporter.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bsp-server/src/transporter.rs b/bsp-server/src/transporter.rs
index 890f89f..4ffdd93 100644
--- a/bsp-server/src/transporter.rs
+++ b/bsp-server/src/transporter.rs
@@ -50,7 +50,7 @@ impl Transporter {
             let (reader_sender, reader_receiver) = bounded::<Message>(0);
             let reader = thread::spawn(move || {
                 let mut buf_read = io::BufReader::new(stream);
-                while let Some(msg) = Message::read(&mut buf_read).unwrap() {
+                while let Some(msg) = Message::read(&mut buf_read)? {
                     let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
                     reader_sender.send(msg).unwrap();
                     if is_exit {
@@ -68,8 +68,7 @@ impl Transporter {
             let writer = thread::spawn(move || {
                 writer_receiver
                     .into_iter()
-                    .try_for_each(|it| it.write(&mut stream))
-                    .unwrap();
+                    .try_for_each(|it| it.write(&mut stream))?;
                 Ok(())
             });
             (writer_sender, writer)
-- 
2.43.0


From 1505af2cd3f860f71f5d6a04851021d389ea02fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:44 +0000
Subject: [PATCH 08/21] fix: end the reader quietly when the connection has
 been dropped

A message still arriving then made the reader panic, and IoThreads::join
panic with it.
---
 bsp-server/src/transporter.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bsp-server/src/transporter.rs b/bsp-server/src/transporter.rs
index 4ffdd93..184f5b4 100644
--- a/bsp-server/src/transporter.rs
+++ b/bsp-server/src/transporter.rs
@@ -31,9 +31,8 @@ impl Transporter {
                     _ => false,
                 };
 
-                reader_sender.send(msg).unwrap();
-
-                if is_exit {
+                // Nobody is left to read for once the connection is dropped.
+                if reader_sender.send(msg).is_err() || is_exit {
                     break;
                 }
             }
@@ -52,8 +51,8 @@ impl Transporter {
                 let mut buf_read = io::BufReader::new(stream);
                 while let Some(msg) = Message::read(&mut buf_read)? {
                     let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
-                    reader_sender.send(msg).unwrap();
-                    if is_exit {
+                    // Nobody is left to read for once the connection is dropped.
+                    if reader_sender.send(msg).is_err() || is_exit {
                         break;
                     }
                 }
-- 
2.43.0


From c231f8e1c8d75cdde4c9b8c3de1cc6b155019664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:45 +0000
Subject: [PATCH 09/21] fix: keep diagnostics of IoThreads::join off stdout

Stdout carries the protocol.
---
 bsp-server/src/io_thread.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/io_thread.rs b/bsp-server/src/io_thread.rs
index 914ed1e..49fb327 100644
--- a/bsp-server/src/io_thread.rs
+++ b/bsp-server/src/io_thread.rs
@@ -18,14 +18,14 @@ impl IoThreads {
         match self.reader.join() {
             Ok(r) => r?,
             Err(err) => {
-                println!("reader panicked!");
+                eprintln!("reader panicked!");
                 std::panic::panic_any(err)
             }
         }
         match self.writer.join() {
             Ok(r) => r,
             Err(err) => {
-                println!("writer panicked!");
+                eprintln!("writer panicked!");
                 std::panic::panic_any(err);
             }
         }
-- 
2.43.0


From e721d5bb0aea277f3ffd6113fb6f778bd74516b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:08 +0000
Subject: [PATCH 10/21] fix: let IoThreads::join wait for the writer when the
 reader failed

A read error made it return at once, with the last messages still unwritten.
---
 bsp-server/src/io_thread.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/io_thread.rs b/bsp-server/src/io_thread.rs
index 49fb327..874a52a 100644
--- a/bsp-server/src/io_thread.rs
+++ b/bsp-server/src/io_thread.rs
@@ -15,14 +15,17 @@ impl IoThreads {
     }
 
     pub fn join(self) -> io::Result<()> {
-        match self.reader.join() {
+        // Wait for both, whatever the reader ended with: the writer may still be writing.
+        let reader = self.reader.join();
+        let writer = self.writer.join();
+        match reader {
             Ok(r) => r?,
             Err(err) => {
                 eprintln!("reader panicked!");
                 std::panic::panic_any(err)
             }
         }
-        match self.writer.join() {
+        match writer {
             Ok(r) => r,
             Err(err) => {
                 eprintln!("writer panicked!");
-- 
2.43.0


From aef8a1406d090139f5e5e0e760938cc151f11f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:10 +0000
Subject: [PATCH 11/21] fix: do not allocate whatever Content-Length announces

A length beyond what can be allocated panicked or aborted the process.
---
 bsp-server/src/message.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bsp-server/src/message.rs b/bsp-server/src/message.rs
index 69c7c6d..41df36d 100644
--- a/bsp-server/src/message.rs
+++ b/bsp-server/src/message.rs
@@ -4,7 +4,7 @@ use crate::RequestId;
 use crate::Response;
 use serde::{de::Error as DeError, Deserialize, Deserializer, Serialize};
 use serde_json::Value;
-use std::io;
+use std::io::{self, Read};
 
 #[derive(Serialize, Debug, Clone)]
 #[serde(untagged)]
@@ -114,10 +114,11 @@ fn read_msg_text(inp: &mut dyn io::BufRead) -> io::Result<Option<String>> {
     }
 
     let size: usize = size.ok_or_else(|| invalid_data!("no Content-Length"))?;
-    let mut buf = buf.into_bytes();
-
-    buf.resize(size, 0);
-    inp.read_exact(&mut buf)?;
+    // The announced size is the peer's word: allocate only for what arrives.
+    let mut buf = Vec::new();
+    if Read::take(inp, size as u64).read_to_end(&mut buf)? < size {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
 
     Ok(Some(String::from_utf8(buf).map_err(invalid_data)?))
 }
-- 
2.43.0


From d45a962d6d40b2cd3caec4cc8a56f26299e11a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:11 +0000
Subject: [PATCH 12/21] fix: match the Content-Length header name
 case-insensitively

Header fields follow HTTP, where names are case-insensitive.
---
 bsp-server/src/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bsp-server/src/message.rs b/bsp-server/src/message.rs
index 41df36d..308eb03 100644
--- a/bsp-server/src/message.rs
+++ b/bsp-server/src/message.rs
@@ -108,7 +108,7 @@ fn read_msg_text(inp: &mut dyn io::BufRead) -> io::Result<Option<String>> {
         let header_value = parts
             .next()
             .ok_or_else(|| invalid_data!("malformed header: {:?}", buf))?;
-        if header_name == "Content-Length" {
+        if header_name.eq_ignore_ascii_case("Content-Length") {
             size = Some(header_value.parse::<usize>().map_err(invalid_data)?);
         }
     }
-- 
2.43.0


From 6a0dd4778125af7f5c9a7445c41a40e82581c494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:12 +0000
Subject: [PATCH 13/21] fix: report a stream that ends inside a header as
 truncated

It passed for a clean end, unlike one that ends inside a line or the body.
---
 bsp-server/src/message.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bsp-server/src/message.rs b/bsp-server/src/message.rs
index 308eb03..1cee067 100644
--- a/bsp-server/src/message.rs
+++ b/bsp-server/src/message.rs
@@ -90,12 +90,17 @@ macro_rules! invalid_data { ($($tt:tt)*) => (invalid_data(format!($($tt)*))) }
 fn read_msg_text(inp: &mut dyn io::BufRead) -> io::Result<Option<String>> {
     let mut size = None;
     let mut buf = String::new();
+    let mut in_header = false;
 
     loop {
         buf.clear();
         if inp.read_line(&mut buf)? == 0 {
+            if in_header {
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             return Ok(None);
         }
+        in_header = true;
         if !buf.ends_with("\r\n") {
             return Err(invalid_data!("malformed header: {:?}", buf));
         }
-- 
2.43.0


From 8963d76d37a76b7d3b32ebae13aeec684f06bbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:32 +0000
Subject: [PATCH 14/21] fix: keep a null result when decoding a response

It became no result at all, so the answer to build/shutdown lost the member
that makes it a success.
---
 bsp-server/src/response.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/response.rs b/bsp-server/src/response.rs
index 95023c2..bd5e08e 100644
--- a/bsp-server/src/response.rs
+++ b/bsp-server/src/response.rs
@@ -1,5 +1,5 @@
 use crate::{ErrorCode, Message, RequestId};
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, Clone)]
 pub struct Response {
@@ -7,7 +7,11 @@ pub struct Response {
     // to decode the request's id. Ignore this special case
     // and just die horribly.
     pub id: RequestId,
-    #[serde(skip_serializing_if = "Option::is_none")]
+    #[serde(
+        default,
+        deserialize_with = "present",
+        skip_serializing_if = "Option::is_none"
+    )]
     pub result: Option<serde_json::Value>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub error: Option<ResponseError>,
@@ -21,6 +25,14 @@ pub struct ResponseError {
     pub data: Option<serde_json::Value>,
 }
 
+/// A result of null is a result, not the absence of one.
+fn present<'de, D>(deserializer: D) -> Result<Option<serde_json::Value>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    serde_json::Value::deserialize(deserializer).map(Some)
+}
+
 impl Response {
     pub fn ok<R: Serialize>(id: RequestId, result: R) -> Response {
         Response {
-- 
2.43.0


From 6d0ce992db9e86273f40b25daded9c51edc876c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:33 +0000
Subject: [PATCH 15/21] fix: name the task progress notification
 build/taskProgress

As the protocol and bsp-types' own documentation do.
---
 bsp-server/src/notification.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/notification.rs b/bsp-server/src/notification.rs
index bcf6a6c..88250f5 100644
--- a/bsp-server/src/notification.rs
+++ b/bsp-server/src/notification.rs
@@ -38,7 +38,7 @@ impl Notification {
             PublishDiagnostics(_) => "build/publishDiagnostics",
             TaskStart(_) => "build/taskStart",
             TaskFinish(_) => "build/taskFinish",
-            TaskProgress(_) => "build/taskProgressing",
+            TaskProgress(_) => "build/taskProgress",
             BuildTargetDidChange(_) => "buildTarget/didChange",
             Custom(m, _) => m,
         }
@@ -250,7 +250,7 @@ impl<'de> Deserialize<'de> for Notification {
                     "build/publishDiagnostics" => PublishDiagnostics(de(params)?),
                     "build/taskStart" => TaskStart(de(params)?),
                     "build/taskFinish" => TaskFinish(de(params)?),
-                    "build/taskProgressing" => TaskProgress(de(params)?),
+                    "build/taskProgress" => TaskProgress(de(params)?),
                     "buildTarget/didChange" => BuildTargetDidChange(de(params)?),
                     _ => Custom(Box::leak(method.into_boxed_str()), params),
                 })
-- 
2.43.0


From 53135bc4589c9034d63b2bc3b4d99cae7ef8145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:34 +0000
Subject: [PATCH 16/21] fix: name the inverse sources request
 buildTarget/inverseSources

As the protocol and bsp-types' own documentation do.
---
 bsp-server/src/request.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index 7c4437e..084aeb9 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -63,7 +63,7 @@ impl Request {
             BuildTargetDependencyModules(_, _) => "buildTarget/dependencyModules",
             DebugSessionStart(_, _) => "debugSession/start",
             BuildTargetSources(_, _) => "buildTarget/sources",
-            TextDocumentInverseSources(_, _) => "textDocument/inverseSources",
+            TextDocumentInverseSources(_, _) => "buildTarget/inverseSources",
             BuildTargetDependencySources(_, _) => "buildTarget/dependencySources",
             BuildTargetResources(_, _) => "buildTarget/resources",
             BuildTargetRun(_, _) => "buildTarget/run",
@@ -440,7 +440,7 @@ impl<'de> Deserialize<'de> for Request {
                     }
                     "debugSession/start" => Request::DebugSessionStart(id, de(params)?),
                     "buildTarget/sources" => Request::BuildTargetSources(id, de(params)?),
-                    "textDocument/inverseSources" => {
+                    "buildTarget/inverseSources" => {
                         Request::TextDocumentInverseSources(id, de(params)?)
                     }
                     "buildTarget/dependencySources" => {
-- 
2.43.0


From c795ab143dacd3bd000a77ea108b9968cb4f98f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:36 +0000
Subject: [PATCH 17/21] fix: widen eventTime to hold milliseconds since the
 epoch

32 bits ran out in February 1970: a real timestamp could not be sent, and
receiving one was a decoding error that ended the reader.
---
 bsp-types/src/task/finish.rs   | 2 +-
 bsp-types/src/task/progress.rs | 2 +-
 bsp-types/src/task/start.rs    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bsp-types/src/task/finish.rs b/bsp-types/src/task/finish.rs
index c335286..88f2513 100644
--- a/bsp-types/src/task/finish.rs
+++ b/bsp-types/src/task/finish.rs
@@ -12,7 +12,7 @@ pub struct TaskFinish {
 
     /** Timestamp of the event in milliseconds. */
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub event_time: Option<u32>,
+    pub event_time: Option<u64>,
 
     /// Message describing the task.
     #[serde(skip_serializing_if = "String::is_empty")]
diff --git a/bsp-types/src/task/progress.rs b/bsp-types/src/task/progress.rs
index e599886..57c49f8 100644
--- a/bsp-types/src/task/progress.rs
+++ b/bsp-types/src/task/progress.rs
@@ -12,7 +12,7 @@ pub struct TaskProgress {
 
     /// Timestamp of when the progress event was generated in milliseconds since Epoch.
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub event_time: Option<u32>,
+    pub event_time: Option<u64>,
 
     /// Message describing the task progress.
     ///  * Information about the state of the task at the time the event is sent.
diff --git a/bsp-types/src/task/start.rs b/bsp-types/src/task/start.rs
index dd2cfb6..8c93266 100644
--- a/bsp-types/src/task/start.rs
+++ b/bsp-types/src/task/start.rs
@@ -11,7 +11,7 @@ pub struct TaskStart {
 
     /// Timestamp of when the event started in milliseconds since Epoch.
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub event_time: Option<u32>,
+    pub event_time: Option<u64>,
 
     /// Message describing the task.
     #[serde(skip_serializing_if = "String::is_empty")]
-- 
2.43.0


From e9fac809ff6d07a8553490b4d4d79367db971b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:38 +0000
Subject: [PATCH 18/21] fix: decode percent-escapes in
 InitializeBuild::root_path

---
 bsp-types/src/initialize_params.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bsp-types/src/initialize_params.rs b/bsp-types/src/initialize_params.rs
index f9ae093..07de29b 100644
--- a/bsp-types/src/initialize_params.rs
+++ b/bsp-types/src/initialize_params.rs
@@ -101,7 +101,9 @@ impl InitializeBuild {
 
     /// Get a reference to the bsp initialize build params's root uri.
     pub fn root_path(&self) -> PathBuf {
-        self.root_uri.path().into()
+        self.root_uri
+            .to_file_path()
+            .unwrap_or_else(|_| self.root_uri.path().into())
     }
 
     /// Set the bsp initialize build params's root uri.
-- 
2.43.0


From 90d4637037115b20297a44b49d5837ae6d1c5513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:54 +0000
Subject: [PATCH 19/21] fix: write build target tags as the free-form strings
 they are

The derived names came out as "libary" and "no-i-d-e", a custom tag as an
object, and any tag not listed failed to decode.
---
 bsp-types/src/bt_tag.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/bsp-types/src/bt_tag.rs b/bsp-types/src/bt_tag.rs
index 125cfab..e9b2bcd 100644
--- a/bsp-types/src/bt_tag.rs
+++ b/bsp-types/src/bt_tag.rs
@@ -1,4 +1,4 @@
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
 /// Free-form string tags to categorize or label this build target.
 /// For example, can be used by the client to:
 ///  - customize how the target should be translated into the client's project model.
@@ -6,8 +6,7 @@ use serde::{Deserialize, Serialize};
 ///  - display icons or colors in the user interface.
 ///  Pre-defined tags are listed in `BuildTargetTag` but clients and servers
 ///  are free to define new tags for custom purposes.
-#[derive(Debug, Serialize, Deserialize)]
-#[serde(rename_all = "kebab-case")]
+#[derive(Debug)]
 pub enum BuildTargetTag {
     /// Target contains re-usable functionality for downstream targets. May have
     /// any combination of capabilities.
@@ -37,6 +36,37 @@ pub enum BuildTargetTag {
     Custom(String),
 }
 
+impl Serialize for BuildTargetTag {
+    fn serialize<S: Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
+        ser.serialize_str(match self {
+            Self::Libary => "library",
+            Self::Application => "application",
+            Self::Test => "test",
+            Self::IntegrationTest => "integration-test",
+            Self::Benchmark => "benchmark",
+            Self::NoIDE => "no-ide",
+            Self::Manual => "manual",
+            Self::Custom(tag) => tag,
+        })
+    }
+}
+
+impl<'de> Deserialize<'de> for BuildTargetTag {
+    fn deserialize<D: Deserializer<'de>>(de: D) -> Result<Self, D::Error> {
+        let tag = String::deserialize(de)?;
+        Ok(match tag.as_str() {
+            "library" => Self::Libary,
+            "application" => Self::Application,
+            "test" => Self::Test,
+            "integration-test" => Self::IntegrationTest,
+            "benchmark" => Self::Benchmark,
+            "no-ide" => Self::NoIDE,
+            "manual" => Self::Manual,
+            _ => Self::Custom(tag),
+        })
+    }
+}
+
 impl Default for BuildTargetTag {
     fn default() -> Self {
         Self::NoIDE
-- 
2.43.0


From baf8076b5e74fb826e01dee93e4e90ff69499c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:58 +0000
Subject: [PATCH 20/21] fix: return an error when a socket cannot be cloned

---
 bsp-server/src/lib.rs         |  4 ++--
 bsp-server/src/transporter.rs | 11 ++++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/bsp-server/src/lib.rs b/bsp-server/src/lib.rs
index 413030e..1807ece 100644
--- a/bsp-server/src/lib.rs
+++ b/bsp-server/src/lib.rs
@@ -52,7 +52,7 @@ impl Connection {
     /// This call blocks until a connection is established.
     pub fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<(Connection, IoThreads)> {
         let stream = TcpStream::connect(addr)?;
-        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream);
+        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream)?;
         Ok((Connection { sender, receiver }, io_threads))
     }
 
@@ -61,7 +61,7 @@ impl Connection {
     pub fn listen<A: ToSocketAddrs>(addr: A) -> io::Result<(Connection, IoThreads)> {
         let listener = TcpListener::bind(addr)?;
         let (stream, _) = listener.accept()?;
-        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream);
+        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream)?;
         Ok((Connection { sender, receiver }, io_threads))
     }
 
diff --git a/bsp-server/src/transporter.rs b/bsp-server/src/transporter.rs
index 184f5b4..e0289df 100644
--- a/bsp-server/src/transporter.rs
+++ b/bsp-server/src/transporter.rs
@@ -43,12 +43,14 @@ impl Transporter {
     }
 
     /// Creates an BSP connection via socket.
-    pub fn socket(stream: TcpStream) -> Self {
+    pub fn socket(mut stream: TcpStream) -> io::Result<Self> {
+        // Before anything starts: a stream that cannot be cloned cannot be served.
+        let read_half = stream.try_clone()?;
+
         let (reader_receiver, reader) = {
-            let stream = stream.try_clone().unwrap();
             let (reader_sender, reader_receiver) = bounded::<Message>(0);
             let reader = thread::spawn(move || {
-                let mut buf_read = io::BufReader::new(stream);
+                let mut buf_read = io::BufReader::new(read_half);
                 while let Some(msg) = Message::read(&mut buf_read)? {
                     let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
                     // Nobody is left to read for once the connection is dropped.
@@ -62,7 +64,6 @@ impl Transporter {
         };
 
         let (writer_sender, writer) = {
-            let mut stream = stream.try_clone().unwrap();
             let (writer_sender, writer_receiver) = bounded::<Message>(0);
             let writer = thread::spawn(move || {
                 writer_receiver
@@ -74,6 +75,6 @@ impl Transporter {
         };
 
         let io_threads = IoThreads::new(reader, writer);
-        Self(writer_sender, reader_receiver, io_threads)
+        Ok(Self(writer_sender, reader_receiver, io_threads))
     }
 }
-- 
2.43.0


From 1b112db006d3a9655481b002a702ff2698027b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:02 +0000
Subject: [PATCH 21/21] fix: refuse a task data kind that is not a string

Whatever failed to decode as a string was taken for an absent kind: a number
was dropped without notice, and from text even what is no JSON was accepted
when the error came in the middle of a string.
---
 bsp-types/src/task/kind.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bsp-types/src/task/kind.rs b/bsp-types/src/task/kind.rs
index 3012f85..9891018 100644
--- a/bsp-types/src/task/kind.rs
+++ b/bsp-types/src/task/kind.rs
@@ -35,9 +35,9 @@ impl Serialize for TaskDataKind {
 
 impl<'de> Deserialize<'de> for TaskDataKind {
     fn deserialize<D: Deserializer<'de>>(de: D) -> Result<Self, D::Error> {
-        let s = match <String>::deserialize(de) {
-            Ok(v) => v,
-            Err(_) => return Ok(Self::None),
+        let s = match Option::<String>::deserialize(de)? {
+            Some(v) => v,
+            None => return Ok(Self::None),
         };
         let v = match s.as_str() {
             "compile-task" => Self::CompileTask,
-- 
2.43.0

