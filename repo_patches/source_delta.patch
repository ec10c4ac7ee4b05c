From d6a1759a689734905a83fcc9926b836a19231bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 01/19] fix: refuse attachment counts and ids that do not fit
 64 bits instead of panicking

---
 socket-io-protocol/src/socket/de.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index 6fe4642..6d81b17 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -80,9 +80,14 @@ fn parse_text(text: OwnedSubslice<String>) -> Result<Parse, Error> {
             _ => unreachable!(),
         }
     };
-    let attachments = captures.get(3).map(|x| x.as_str().parse::<u64>().unwrap());
+    let parse_number = |x: regex::Match| {
+        x.as_str()
+            .parse::<u64>()
+            .map_err(|_| Error::InvalidMessage(text.to_string()))
+    };
+    let attachments = captures.get(3).map(parse_number).transpose()?;
     let namespace = captures.get(5).map(|x| x.range());
-    let id = captures.get(6).map(|x| x.as_str().parse::<u64>().unwrap());
+    let id = captures.get(6).map(parse_number).transpose()?;
     let args = match captures.get(7) {
         Some(m) => {
             let mut args = parse_args(m.as_str())?;
-- 
2.43.0


From 76464e0a35ec614f9cfbf1dee9f86db2269dd503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 02/19] fix: end the namespace of a packet at its first comma

---
 socket-io-protocol/src/socket/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index 6d81b17..fead85d 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -45,7 +45,7 @@ impl DeserializeResult {
 
 lazy_static::lazy_static! {
     static ref DESERIALIZE_RE: Regex = {
-        let pattern = r#"^([012356])((0|[1-9][0-9]*)-)?((/.+),)?(0|[1-9][0-9]*)?(\[.*\])?$"#;
+        let pattern = r#"^([012356])((0|[1-9][0-9]*)-)?((/[^,]+),)?(0|[1-9][0-9]*)?(\[.*\])?$"#;
         Regex::new(pattern).unwrap()
     };
 }
-- 
2.43.0


From 1e2b51aa619d2928fad5f5b8a97ab530e4aec28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 03/19] fix: accept newlines between the arguments of a packet

---
 socket-io-protocol/src/socket/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index fead85d..0a9ddc5 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -45,7 +45,7 @@ impl DeserializeResult {
 
 lazy_static::lazy_static! {
     static ref DESERIALIZE_RE: Regex = {
-        let pattern = r#"^([012356])((0|[1-9][0-9]*)-)?((/[^,]+),)?(0|[1-9][0-9]*)?(\[.*\])?$"#;
+        let pattern = r#"(?s)^([012356])((0|[1-9][0-9]*)-)?((/[^,]+),)?(0|[1-9][0-9]*)?(\[.*\])?$"#;
         Regex::new(pattern).unwrap()
     };
 }
-- 
2.43.0


From bec7c2a15cf572cb224d7cae5ef52424def7441b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 04/19] fix: accept acknowledgements without arguments

---
 socket-io-protocol/src/socket/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index 0a9ddc5..062f5e7 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -201,7 +201,7 @@ fn deserialize_event(
     name: &'static str,
     attachments: Vec<OwnedSubslice<Vec<u8>>>,
 ) -> Result<Packet, Error> {
-    if (kind == Kind::Ack && parse.id.is_none()) || parse.args.is_empty() {
+    if (kind == Kind::Ack && parse.id.is_none()) || (kind == Kind::Event && parse.args.is_empty()) {
         return Err(Error::MissingData(name, parse.message.to_string()));
     }
     if attachments.len() as u64 != parse.attachments.unwrap_or(0) {
-- 
2.43.0


From 0253657ea2e85a744d754b9a291b4c0dd6487775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 05/19] fix: refuse text messages before the open packet

---
 socket-io-protocol/src/engine.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/socket-io-protocol/src/engine.rs b/socket-io-protocol/src/engine.rs
index a15e705..f1f38dc 100644
--- a/socket-io-protocol/src/engine.rs
+++ b/socket-io-protocol/src/engine.rs
@@ -119,11 +119,15 @@ impl Decoder {
                 }
             }
             '4' => {
-                let len = text.len();
-                Ok(Packet::Message(Message::Text(OwnedSubslice::new(
-                    text,
-                    1..len,
-                ))))
+                if self.state == State::Initial {
+                    Err(Error::MessageBeforeOpen)
+                } else {
+                    let len = text.len();
+                    Ok(Packet::Message(Message::Text(OwnedSubslice::new(
+                        text,
+                        1..len,
+                    ))))
+                }
             }
             _ => Err(invalid_msg()),
         }
-- 
2.43.0


From 2fa67f5623c544703f3cee69cb24747c1f48fd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 06/19] fix: keep the opening bracket when the first argument
 of an ack fails to serialize

---
 socket-io-protocol/src/socket/ser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/ser.rs b/socket-io-protocol/src/socket/ser.rs
index 2977cf8..ee36376 100644
--- a/socket-io-protocol/src/socket/ser.rs
+++ b/socket-io-protocol/src/socket/ser.rs
@@ -101,7 +101,6 @@ impl PacketBuilder {
         cursor.set_position(start_pos as u64);
         if self.first {
             write!(cursor, "[").unwrap();
-            self.first = false;
         } else {
             write!(cursor, ",").unwrap();
         }
@@ -119,6 +118,8 @@ impl PacketBuilder {
         if result.is_err() {
             self.buffer
                 .resize_with(start_pos, || panic!("shrinking vector"));
+        } else {
+            self.first = false;
         }
         result
     }
-- 
2.43.0


From 4f421833a99fe76680c7706656ab28c94f03363b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 07/19] fix: keep the binary header out of sequences that only
 begin with bytes

---
 socket-io-protocol/src/socket/args/serialize_attachments.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/args/serialize_attachments.rs b/socket-io-protocol/src/socket/args/serialize_attachments.rs
index 3a3bc94..c0e2421 100644
--- a/socket-io-protocol/src/socket/args/serialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/serialize_attachments.rs
@@ -389,7 +389,8 @@ where
                 Err(_) => {
                     // The data isn't all u8's
                     let mut seq = s.take().unwrap().serialize_seq(*len)?;
-                    for b in data.iter() {
+                    // The first byte of data is the header of the binary message
+                    for b in data.iter().skip(1) {
                         seq.serialize_element(b)?;
                     }
                     seq.serialize_element(&Wrapper {
-- 
2.43.0


From c6505b1fbec7704eae43bfeb212d350b26c850a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 08/19] fix: do not panic on arguments that cannot be
 represented as a json value

---
 socket-io-protocol/src/socket/args/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/mod.rs b/socket-io-protocol/src/socket/args/mod.rs
index d816273..3e83837 100644
--- a/socket-io-protocol/src/socket/args/mod.rs
+++ b/socket-io-protocol/src/socket/args/mod.rs
@@ -63,9 +63,10 @@ impl<'a> Args<'a> {
 
 impl<'a> Arg<'a> {
     pub fn to_json_value(&self) -> Result<Value, Error> {
-        // We can unwrap because if the json was going to fail to deserialize we would have failed
-        // to parse
-        let mut value = serde_json::from_str(self.arg).unwrap();
+        // This can fail even though the packet was parsed, e.g. if a number is out of range or the
+        // value is nested too deeply
+        let mut value = serde_json::from_str(self.arg)
+            .map_err(|err| Error::JsonDeError(self.arg.to_string(), err))?;
         if !self.attachments.is_empty() {
             fill_placeholders_value(&mut value, &self.attachments)?;
         }
@@ -159,7 +160,10 @@ impl<'a> fmt::Display for Args<'a> {
 
 impl<'a> fmt::Display for Arg<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{}", self.to_json_value().unwrap())
+        match self.to_json_value() {
+            Ok(value) => write!(f, "{}", value),
+            Err(_) => write!(f, "{}", self.arg),
+        }
     }
 }
 
-- 
2.43.0


From f95c0fd32eb81faf356793a6a80ae8dd31271abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 09/19] fix: release the callback registry before running a
 callback

---
 socket-io-client/src/receiver.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/socket-io-client/src/receiver.rs b/socket-io-client/src/receiver.rs
index e584da5..742563a 100644
--- a/socket-io-client/src/receiver.rs
+++ b/socket-io-client/src/receiver.rs
@@ -142,17 +142,19 @@ impl Receiver {
                 let event: Cow<'_, str> = event.deserialize()?;
                 let ack = id.map(|id| AckBuilder::new(self.sender.clone(), namespace, id));
                 // TODO: Use id to create ack callback
-                if let Some(mut cb) = self.callbacks.lock().unwrap().get_event(namespace, &*event) {
+                // The lock must be released before calling the callback
+                let cb = self.callbacks.lock().unwrap().get_event(namespace, &*event);
+                if let Some(mut cb) = cb {
                     cb.call(&args, ack);
                 }
             }
             Data::Ack { id, args } => {
-                if let Some(cb) = self
+                let cb = self
                     .callbacks
                     .lock()
                     .unwrap()
-                    .get_and_clear_ack(namespace, id)
-                {
+                    .get_and_clear_ack(namespace, id);
+                if let Some(cb) = cb {
                     cb.call(&args);
                 } else {
                     return Err(Error::UnexpectedAck(packet.clone()));
-- 
2.43.0


From 2222fb4f8afb659078c6ba472a816ba31d94f15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 10/19] fix: report an error instead of panicking when the
 session ends before it is opened

---
 socket-io-client/src/connection.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/socket-io-client/src/connection.rs b/socket-io-client/src/connection.rs
index 769c42b..591e826 100644
--- a/socket-io-client/src/connection.rs
+++ b/socket-io-client/src/connection.rs
@@ -3,7 +3,11 @@ use std::{
     time::Duration,
 };
 
-use async_tungstenite::{async_tls, tungstenite::Message as WsMessage, WebSocketStream};
+use async_tungstenite::{
+    async_tls,
+    tungstenite::{Error as WsError, Message as WsMessage},
+    WebSocketStream,
+};
 use futures::{
     channel::{mpsc, oneshot},
     future::{FutureExt, RemoteHandle},
@@ -70,9 +74,17 @@ impl Connection {
         .await?;
 
         let open = select! {
-            open = open_rx.fuse() => Ok(open.unwrap()),
+            open = open_rx.fuse() => Ok(open),
             _ = timeout_fut => Err(Error::Timeout("engine.io protocol Open message")),
         }?;
+        let open = match open {
+            Ok(open) => open,
+            Err(_) => {
+                // The session ended before the server opened it
+                handle.await?;
+                return Err(WsError::ConnectionClosed.into());
+            }
+        };
         log::trace!("Received open: {:?}", open);
 
         Ok(Connection {
-- 
2.43.0


From 3db947c171fdc537ed0678cca39e8a2dc89fa897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 11/19] fix: send the packets that are still queued before
 closing

---
 socket-io-client/src/connection.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/socket-io-client/src/connection.rs b/socket-io-client/src/connection.rs
index 591e826..ee13817 100644
--- a/socket-io-client/src/connection.rs
+++ b/socket-io-client/src/connection.rs
@@ -174,6 +174,14 @@ where
             }
         }
         drop(next);
+        // Everything that was queued before the close still has to be sent
+        send_rx.close();
+        while let Some(msgs) = send_rx.next().await {
+            for msg in msgs.into_iter() {
+                log::trace!("Sending websocket packet: {:?}", msg);
+                sink.send(msg).await?;
+            }
+        }
         let mut ws_stream = sink.reunite(stream).expect("Reunite should succeed");
         log::debug!("Sending close message");
         let _ = ws_stream.close(None).await;
-- 
2.43.0


From b337d5f681b9f91bcfebd8227bea10cca4c800d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 12/19] fix: pass IPv6 hosts to the connector without the
 brackets of the url

---
 socket-io-client/src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/socket-io-client/src/lib.rs b/socket-io-client/src/lib.rs
index 7dd2083..4b65e04 100644
--- a/socket-io-client/src/lib.rs
+++ b/socket-io-client/src/lib.rs
@@ -115,12 +115,14 @@ impl Client {
         let url = url.as_ref();
         let url = parse_url(url).map_err(|e| Error::UrlError(url.to_string(), e))?;
 
-        let connection = connect(
-            url.host_str().unwrap().into(),
-            url.port_or_known_default().unwrap(),
-        )
-        .await
-        .map_err(|e| Error::ConnectionError(Box::new(e)))?;
+        let host = match url.host() {
+            // An address to connect to, which unlike in a url is not in brackets
+            Some(url::Host::Ipv6(addr)) => addr.to_string(),
+            _ => url.host_str().unwrap().into(),
+        };
+        let connection = connect(host, url.port_or_known_default().unwrap())
+            .await
+            .map_err(|e| Error::ConnectionError(Box::new(e)))?;
 
         Client::new(url, connection, spawn).await
     }
-- 
2.43.0


From 475a3d90ae49e244ef5cf5b836aff8e3ed44aff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 13/19] fix: read maps with escaped or numeric first keys next
 to attachments

---
 .../socket/args/deserialize_attachments.rs    | 125 ++++++++++++++++--
 1 file changed, 117 insertions(+), 8 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index c684fc7..52d5998 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -1,10 +1,10 @@
-use std::fmt;
+use std::{borrow::Cow, fmt, marker::PhantomData};
 
 use owned_subslice::OwnedSubslice;
 use paste::paste;
 use serde::{
     de::{
-        value::{BorrowedStrDeserializer, SeqDeserializer},
+        value::{CowStrDeserializer, SeqDeserializer},
         DeserializeSeed, EnumAccess, Error as DeError, MapAccess, SeqAccess, VariantAccess,
         Visitor,
     },
@@ -97,7 +97,17 @@ where
 {
     map: M,
     buffers: Buffers<'a>,
-    first_key: Option<Option<&'a str>>,
+    first_key: Option<Option<Key<'a>>>,
+}
+
+// A map key, borrowed unless it contains escapes.  (Deserializing a plain Cow never borrows.)
+#[derive(Deserialize)]
+struct Key<'a>(#[serde(borrow)] Cow<'a, str>);
+
+/// Deserializes a map key that has already been read, the way serde_json deserializes map keys.
+struct KeyDeserializer<'a, E> {
+    key: Cow<'a, str>,
+    error: PhantomData<E>,
 }
 
 macro_rules! deserialize_forward {
@@ -288,11 +298,11 @@ where
     where
         A: MapAccess<'de>,
     {
-        let key: Option<&'de str> = map.next_key()?;
-        if key == Some("_placeholder") {
+        let key: Option<Key<'de>> = map.next_key()?;
+        if key.as_ref().map(|key| &*key.0) == Some("_placeholder") {
             let _: bool = map.next_value()?;
-            let next_key: Option<&'de str> = map.next_key()?;
-            if next_key != Some("num") {
+            let next_key: Option<Key<'de>> = map.next_key()?;
+            if next_key.as_ref().map(|key| &*key.0) != Some("num") {
                 return Err(A::Error::custom("_placeholder key present without num key"));
             }
             let num: u64 = map.next_value()?;
@@ -424,7 +434,10 @@ where
     {
         if let Some(key) = self.first_key.take() {
             if let Some(key) = key {
-                let deserializer = BorrowedStrDeserializer::new(key);
+                let deserializer = KeyDeserializer {
+                    key: key.0,
+                    error: PhantomData,
+                };
                 seed.deserialize(deserializer).map(Some)
             } else {
                 Ok(None)
@@ -447,6 +460,102 @@ where
     }
 }
 
+macro_rules! deserialize_numeric_key {
+    ($($ty:ident,)*) => {
+        $(
+            paste!{
+                fn [<deserialize_ $ty>]<V>(self, visitor: V) -> Result<V::Value, E>
+                where
+                    V: Visitor<'de>
+                {
+                    if self.key.trim() != self.key {
+                        return Err(E::custom("invalid value: expected key to be a number in quotes"));
+                    }
+                    let number = serde_json::from_str(&self.key).map_err(E::custom)?;
+                    visitor.[<visit_ $ty>](number)
+                }
+            }
+        )*
+    };
+}
+
+impl<'de, E> Deserializer<'de> for KeyDeserializer<'de, E>
+where
+    E: DeError,
+{
+    type Error = E;
+
+    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        match self.key {
+            Cow::Borrowed(key) => visitor.visit_borrowed_str(key),
+            Cow::Owned(key) => visitor.visit_string(key),
+        }
+    }
+
+    deserialize_numeric_key! { i8, i16, i32, i64, i128, u8, u16, u32, u64, u128, f32, f64, }
+
+    fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        match &*self.key {
+            "true" => visitor.visit_bool(true),
+            "false" => visitor.visit_bool(false),
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
+    fn deserialize_bytes<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        match self.key {
+            Cow::Borrowed(key) => visitor.visit_borrowed_bytes(key.as_bytes()),
+            Cow::Owned(key) => visitor.visit_byte_buf(key.into_bytes()),
+        }
+    }
+
+    fn deserialize_byte_buf<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        self.deserialize_bytes(visitor)
+    }
+
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_enum(CowStrDeserializer::new(self.key))
+    }
+
+    serde::forward_to_deserialize_any! {
+        char str string unit unit_struct seq tuple tuple_struct map struct identifier ignored_any
+    }
+}
+
 impl<'b, T> DeserializeSeed<'b> for BinarySeed<'b, T>
 where
     T: DeserializeSeed<'b>,
-- 
2.43.0


From f5f0476df5b4aa8f00f42b931e8a2c60611f6e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 14/19] fix: refuse an attachment longer than the tuple or
 struct it is read as

---
 .../src/socket/args/deserialize_attachments.rs           | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index 52d5998..429f320 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -315,9 +315,12 @@ where
             })?;
             match self.access_type {
                 AccessType::Bytes => self.visitor.visit_borrowed_bytes(&*buffer),
-                AccessType::Seq | AccessType::Neither => self
-                    .visitor
-                    .visit_seq(SeqDeserializer::new(buffer.iter().copied())),
+                AccessType::Seq | AccessType::Neither => {
+                    let mut seq = SeqDeserializer::new(buffer.iter().copied());
+                    let value = self.visitor.visit_seq(&mut seq)?;
+                    seq.end()?;
+                    Ok(value)
+                }
             }
         } else {
             let map = BinaryMapAccess {
-- 
2.43.0


From bf813052f852e3c370b0729844e7180818ca92b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 15/19] fix: refuse what is left of an argument with
 attachments after the value read from it

---
 socket-io-protocol/src/socket/args/deserialize_attachments.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index 429f320..73daec7 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -33,7 +33,9 @@ where
 {
     let mut d = JsonDeserializer::from_str(arg);
     let deserializer = BinaryDeserializer { d: &mut d, buffers };
-    T::deserialize(deserializer)
+    let value = T::deserialize(deserializer)?;
+    d.end()?;
+    Ok(value)
 }
 
 enum AccessType {
-- 
2.43.0


From 4103c5aa9adc6e8740de410078e0d5dd30adb829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:08 +0000
Subject: [PATCH 16/19] fix: read strings as bytes next to attachments too

---
 .../socket/args/deserialize_attachments.rs    | 41 ++++++++++++++++---
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index 73daec7..1eedbb5 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -40,6 +40,7 @@ where
 
 enum AccessType {
     Bytes,
+    Str,
     Seq,
     Neither,
 }
@@ -188,8 +189,8 @@ where
     }
 
     deserialize_forward_any! {
-        str(AccessType::Bytes),
-        string(AccessType::Bytes),
+        str(AccessType::Str),
+        string(AccessType::Str),
         bytes(AccessType::Bytes),
         byte_buf(AccessType::Bytes),
         seq(AccessType::Seq),
@@ -242,9 +243,6 @@ where
         f32(v: f32),
         f64(v: f64),
         char(v: char),
-        str(v: &str),
-        borrowed_str(v: &'de str),
-        string(v: String),
         bytes(v: &[u8]),
         borrowed_bytes(v: &'de [u8]),
         byte_buf(v: Vec<u8>),
@@ -252,6 +250,37 @@ where
         unit(),
     }
 
+    // A string that is read as bytes is visited as bytes, like serde_json does
+    fn visit_str<E>(self, v: &str) -> Result<V::Value, E>
+    where
+        E: DeError,
+    {
+        match self.access_type {
+            AccessType::Bytes => self.visitor.visit_bytes(v.as_bytes()),
+            _ => self.visitor.visit_str(v),
+        }
+    }
+
+    fn visit_borrowed_str<E>(self, v: &'de str) -> Result<V::Value, E>
+    where
+        E: DeError,
+    {
+        match self.access_type {
+            AccessType::Bytes => self.visitor.visit_borrowed_bytes(v.as_bytes()),
+            _ => self.visitor.visit_borrowed_str(v),
+        }
+    }
+
+    fn visit_string<E>(self, v: String) -> Result<V::Value, E>
+    where
+        E: DeError,
+    {
+        match self.access_type {
+            AccessType::Bytes => self.visitor.visit_byte_buf(v.into_bytes()),
+            _ => self.visitor.visit_string(v),
+        }
+    }
+
     fn visit_some<D>(self, d: D) -> Result<V::Value, D::Error>
     where
         D: Deserializer<'de>,
@@ -316,7 +345,7 @@ where
                 ))
             })?;
             match self.access_type {
-                AccessType::Bytes => self.visitor.visit_borrowed_bytes(&*buffer),
+                AccessType::Bytes | AccessType::Str => self.visitor.visit_borrowed_bytes(&*buffer),
                 AccessType::Seq | AccessType::Neither => {
                     let mut seq = SeqDeserializer::new(buffer.iter().copied());
                     let value = self.visitor.visit_seq(&mut seq)?;
-- 
2.43.0


From 9c7cd15a35701c5e4a2ca18404b298b248f0ef3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:03 +0000
Subject: [PATCH 17/19] fix: read the bytes of an attachment as options and
 newtypes too

---
 .../socket/args/deserialize_attachments.rs    | 62 ++++++++++++++++++-
 1 file changed, 59 insertions(+), 3 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index 1eedbb5..3c0616b 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -5,8 +5,8 @@ use paste::paste;
 use serde::{
     de::{
         value::{CowStrDeserializer, SeqDeserializer},
-        DeserializeSeed, EnumAccess, Error as DeError, MapAccess, SeqAccess, VariantAccess,
-        Visitor,
+        DeserializeSeed, EnumAccess, Error as DeError, IntoDeserializer, MapAccess, SeqAccess,
+        VariantAccess, Visitor,
     },
     Deserialize, Deserializer,
 };
@@ -113,6 +113,15 @@ struct KeyDeserializer<'a, E> {
     error: PhantomData<E>,
 }
 
+/// A byte of an attachment that is read as a sequence.
+struct Byte(u8);
+
+/// Deserializes a byte, the way serde_json deserializes numbers.
+struct ByteDeserializer<E> {
+    byte: u8,
+    error: PhantomData<E>,
+}
+
 macro_rules! deserialize_forward {
     ($($fn:ident ( $( $arg:ident : $ty:ty),* ) , )*) => {
         $(
@@ -347,7 +356,7 @@ where
             match self.access_type {
                 AccessType::Bytes | AccessType::Str => self.visitor.visit_borrowed_bytes(&*buffer),
                 AccessType::Seq | AccessType::Neither => {
-                    let mut seq = SeqDeserializer::new(buffer.iter().copied());
+                    let mut seq = SeqDeserializer::new(buffer.iter().copied().map(Byte));
                     let value = self.visitor.visit_seq(&mut seq)?;
                     seq.end()?;
                     Ok(value)
@@ -590,6 +599,53 @@ where
     }
 }
 
+impl<'de, E> IntoDeserializer<'de, E> for Byte
+where
+    E: DeError,
+{
+    type Deserializer = ByteDeserializer<E>;
+
+    fn into_deserializer(self) -> ByteDeserializer<E> {
+        ByteDeserializer {
+            byte: self.0,
+            error: PhantomData,
+        }
+    }
+}
+
+impl<'de, E> Deserializer<'de> for ByteDeserializer<E>
+where
+    E: DeError,
+{
+    type Error = E;
+
+    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_u8(self.byte)
+    }
+
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    serde::forward_to_deserialize_any! {
+        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit
+        unit_struct seq tuple tuple_struct map struct enum identifier ignored_any
+    }
+}
+
 impl<'b, T> DeserializeSeed<'b> for BinarySeed<'b, T>
 where
     T: DeserializeSeed<'b>,
-- 
2.43.0


From d7cf7491f09ad7737278b60303a4ff7ea103dffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:35 +0000
Subject: [PATCH 18/19] fix: read attachments as the contents of tuple variants

---
 .../socket/args/deserialize_attachments.rs    | 39 +++++++++++++++----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index 3c0616b..c414e36 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -94,6 +94,15 @@ where
     buffers: Buffers<'a>,
 }
 
+struct TupleSeed<'de, V>
+where
+    V: Visitor<'de>,
+{
+    len: usize,
+    visitor: V,
+    buffers: Buffers<'de>,
+}
+
 struct BinaryMapAccess<'a, M>
 where
     M: MapAccess<'a>,
@@ -436,14 +445,12 @@ where
     where
         T: Visitor<'de>,
     {
-        self.variant.tuple_variant(
+        // The tuple may be an attachment, in which case it is not a sequence in the json
+        self.variant.newtype_variant_seed(TupleSeed {
             len,
-            BinaryVisitor {
-                visitor,
-                buffers: self.buffers,
-                access_type: AccessType::Seq,
-            },
-        )
+            visitor,
+            buffers: self.buffers,
+        })
     }
 
     fn struct_variant<T>(
@@ -465,6 +472,24 @@ where
     }
 }
 
+impl<'de, V> DeserializeSeed<'de> for TupleSeed<'de, V>
+where
+    V: Visitor<'de>,
+{
+    type Value = V::Value;
+
+    fn deserialize<D>(self, d: D) -> Result<V::Value, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        let deserializer = BinaryDeserializer {
+            d,
+            buffers: self.buffers,
+        };
+        deserializer.deserialize_tuple(self.len, self.visitor)
+    }
+}
+
 impl<'de, M> MapAccess<'de> for BinaryMapAccess<'de, M>
 where
     M: MapAccess<'de>,
-- 
2.43.0


From 5541088cd44ef77a20f0e4e945bdc8f464b2bc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:11 +0000
Subject: [PATCH 19/19] fix: read raw json values next to attachments

---
 .../socket/args/deserialize_attachments.rs    | 36 +++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index c414e36..81327e6 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -113,8 +113,9 @@ where
 }
 
 // A map key, borrowed unless it contains escapes.  (Deserializing a plain Cow never borrows.)
-#[derive(Deserialize)]
-struct Key<'a>(#[serde(borrow)] Cow<'a, str>);
+struct Key<'a>(Cow<'a, str>);
+
+struct KeyVisitor;
 
 /// Deserializes a map key that has already been read, the way serde_json deserializes map keys.
 struct KeyDeserializer<'a, E> {
@@ -382,6 +383,37 @@ where
     }
 }
 
+impl<'de> Deserialize<'de> for Key<'de> {
+    fn deserialize<D>(d: D) -> Result<Key<'de>, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        d.deserialize_str(KeyVisitor)
+    }
+}
+
+impl<'de> Visitor<'de> for KeyVisitor {
+    type Value = Key<'de>;
+
+    fn expecting(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
+        formatter.write_str("a map key")
+    }
+
+    fn visit_str<E>(self, v: &str) -> Result<Key<'de>, E>
+    where
+        E: DeError,
+    {
+        Ok(Key(Cow::Owned(v.to_string())))
+    }
+
+    fn visit_borrowed_str<E>(self, v: &'de str) -> Result<Key<'de>, E>
+    where
+        E: DeError,
+    {
+        Ok(Key(Cow::Borrowed(v)))
+    }
+}
+
 impl<'de, S> SeqAccess<'de> for BinarySeqAccess<'de, S>
 where
     S: SeqAccess<'de>,
-- 
2.43.0

