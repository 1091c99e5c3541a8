From 2d196653b9570d0a721d0593d7e5abd0f1e1c563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 01/21] hooks: verification windows behind cfg ruq_verif

---
 src/lib.rs         |  6 ++++++
 src/verif_hooks.rs | 48 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 54 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 74fc3b7..06308bc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,6 @@
+// `ruq_verif` is set by hand for verification builds, see verif_hooks.rs
+#![allow(unexpected_cfgs)]
+
 use std::collections::VecDeque;
 use std::io::{Error as IOError, ErrorKind, Result as IOResult};
 use std::pin::Pin;
@@ -307,6 +310,9 @@ mod mqtt_codec;
 mod pktids;
 mod protocol;
 
+#[cfg(ruq_verif)]
+pub mod verif_hooks;
+
 #[cfg(test)]
 mod tests {
     use crate::protocol::FromMqttBytes;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..dbbf031
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,48 @@
+//! Verification hooks: thin, public windows on private parts of the crate.
+//! Compiled only with `--cfg ruq_verif`; nothing in the crate depends on this module.
+
+use bytes::BytesMut;
+use tokio_util::codec::Decoder;
+
+use crate::mqtt_codec::MqttCodec;
+use crate::pktids::PktIds;
+use crate::protocol::PktId;
+
+/// The packet identifier allocator.
+pub struct IdPool(PktIds);
+
+impl IdPool {
+    /// A pool of the identifiers `1..=max`.
+    pub fn new(max: u16) -> Self {
+        Self(PktIds::new_with_max(
+            PktId::new(max).expect("max must be > 0"),
+        ))
+    }
+
+    pub fn take(&mut self) -> Option<u16> {
+        self.0.next_id().map(PktId::get)
+    }
+
+    pub fn give(&mut self, id: u16) {
+        self.0.return_id(PktId::new(id).expect("id must be > 0"));
+    }
+}
+
+/// Feeds `chunks` one after another to the stream decoder. Returns the `Debug` form of each packet
+/// decoded and how decoding ended: with an error, or with so many bytes left waiting for more.
+pub fn decode_chunks(chunks: &[&[u8]]) -> (Vec<String>, Result<usize, String>) {
+    let mut codec = MqttCodec::new();
+    let mut buf = BytesMut::new();
+    let mut packets = vec![];
+    for chunk in chunks {
+        buf.extend_from_slice(chunk);
+        loop {
+            match codec.decode(&mut buf) {
+                Ok(Some(pkt)) => packets.push(format!("{:?}", pkt)),
+                Ok(None) => break,
+                Err(e) => return (packets, Err(e.to_string())),
+            }
+        }
+    }
+    (packets, Ok(buf.len()))
+}
-- 
2.43.0


From 26316487ac0161f4e23ac2b200ceb6354b169412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 02/21] fix: encode PUBACK, so that receiving a QoS 1 message
 does not panic

---
 src/protocol/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 913ec90..3a13b60 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -114,7 +114,7 @@ impl ToMqttBytes for Packet {
             Self::Disconnect(p) => p.convert_to_mqtt(),
             Self::PingResp(_) => unimplemented!("Client never sends this"),
             Self::Connack(_) => unimplemented!("Client never sends this"),
-            Self::PubAck(_) => unimplemented!("Client never sends this"),
+            Self::PubAck(p) => p.convert_to_mqtt(),
             Self::SubAck(_) => unimplemented!("Client never sends this"),
             Self::UnsubAck(_) => unimplemented!("Client never sends this"),
         }
-- 
2.43.0


From 4472626f8148d298ee3de104fd895212de0d382e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 03/21] fix: message expiry interval is five bytes long,
 identifier included

---
 src/protocol/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/properties.rs b/src/protocol/properties.rs
index cad6c47..f362765 100644
--- a/src/protocol/properties.rs
+++ b/src/protocol/properties.rs
@@ -68,7 +68,7 @@ impl FromMqttBytes for Property {
                         })
                     })
                     .map(|slice| u32::from_be_bytes(slice))?;
-                Ok((MessageExpiryInterval(interval), 4))
+                Ok((MessageExpiryInterval(interval), 5))
             }
             Some(0x08) => {
                 let (s, bytes_consumed) = String::convert_from_mqtt(&bytes[1..])?;
-- 
2.43.0


From 61573cfe11f4cd257c8c963ece06bc4cc22bb92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 04/21] fix: read all PUBACK properties and refuse a list that
 overruns the packet

---
 src/protocol/puback.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/protocol/puback.rs b/src/protocol/puback.rs
index 6699e8d..3b8f899 100644
--- a/src/protocol/puback.rs
+++ b/src/protocol/puback.rs
@@ -166,11 +166,14 @@ mod properties {
             if bytelen == 0 {
                 Ok((Default::default(), bytes_consumed))
             } else {
-                let mut bytes = bytes.get(bytes_consumed..(bytes_consumed + bytelen));
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
 
                 let mut properties: PubackProperties = Default::default();
 
-                while let Some(slice) = bytes {
+                while bytes.len() > 0 {
+                    let slice = bytes;
                     let bytes_read = match slice.get(0) {
                         Some(0x1F) => {
                             let (s, property_bytes_read) = String::convert_from_mqtt(&slice[1..])?;
@@ -193,7 +196,7 @@ mod properties {
                             return Err(ConvertError::NotEnoughBytes);
                         }
                     };
-                    bytes = slice.get((bytes_read + 1)..);
+                    bytes = &slice[bytes_read..];
                 }
 
                 Ok((properties, bytes_consumed + bytelen))
-- 
2.43.0


From c414141a5066ad7c62a335a1d7b41e13c5f64891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 05/21] fix: truncated packets are an error, not a panic

---
 src/protocol/connack.rs    | 10 +++++++---
 src/protocol/disconnect.rs |  4 +++-
 src/protocol/mod.rs        |  5 ++++-
 src/protocol/properties.rs |  9 +++++++--
 src/protocol/suback.rs     |  7 +++++--
 src/protocol/unsuback.rs   |  7 +++++--
 6 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/protocol/connack.rs b/src/protocol/connack.rs
index 0a73890..7595374 100644
--- a/src/protocol/connack.rs
+++ b/src/protocol/connack.rs
@@ -108,10 +108,12 @@ impl FromMqttBytes for Connack {
             return Err(ConvertError::NotEnoughBytes);
         }
 
-        let flags: ConnackFlags = bytes[bytes_read].try_into()?;
+        let flags = *bytes.get(bytes_read).ok_or(ConvertError::NotEnoughBytes)?;
+        let flags: ConnackFlags = flags.try_into()?;
         bytes_read += 1;
 
-        let reason: ConnackReason = bytes[bytes_read].try_into()?;
+        let reason = *bytes.get(bytes_read).ok_or(ConvertError::NotEnoughBytes)?;
+        let reason: ConnackReason = reason.try_into()?;
         bytes_read += 1;
 
         let (properties, props_bytes_read) =
@@ -221,7 +223,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = ConnackProperty::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/disconnect.rs b/src/protocol/disconnect.rs
index 4cae4b4..b1fa2c3 100644
--- a/src/protocol/disconnect.rs
+++ b/src/protocol/disconnect.rs
@@ -277,7 +277,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = DisconnectProperty::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 3a13b60..67996da 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -405,7 +405,10 @@ impl FromMqttBytes for Vec<u8> {
             })
             .map(|slice| u16::from_be_bytes(slice))? as usize;
         if len > 0 {
-            let v = bytes[2..(2 + len)].to_owned();
+            let v = bytes
+                .get(2..(2 + len))
+                .ok_or(ConvertError::NotEnoughBytes)?
+                .to_owned();
             Ok((v, len + 2))
         } else {
             Ok((vec![], 2))
diff --git a/src/protocol/properties.rs b/src/protocol/properties.rs
index f362765..f68b926 100644
--- a/src/protocol/properties.rs
+++ b/src/protocol/properties.rs
@@ -57,7 +57,10 @@ impl ToMqttBytes for Property {
 impl FromMqttBytes for Property {
     fn convert_from_mqtt(bytes: &[u8]) -> Result<(Self, usize), ConvertError> {
         match bytes.get(0) {
-            Some(0x01) => Ok((PayloadFormatId(bytes[1]), 2)),
+            Some(0x01) => {
+                let format = bytes.get(1).ok_or(ConvertError::NotEnoughBytes)?;
+                Ok((PayloadFormatId(*format), 2))
+            }
             Some(0x02) => {
                 let interval = bytes
                     .get(1..5)
@@ -113,7 +116,9 @@ impl FromMqttBytes for Vec<Property> {
         if bytelen == 0 {
             Ok((vec![], bytes_consumed))
         } else {
-            let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+            let mut bytes = bytes
+                .get(bytes_consumed..(bytes_consumed + bytelen))
+                .ok_or(ConvertError::NotEnoughBytes)?;
             let mut properties = vec![];
             while bytes.len() > 0 {
                 let (prop, bytes_read) = Property::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/suback.rs b/src/protocol/suback.rs
index 77c1711..32b0525 100644
--- a/src/protocol/suback.rs
+++ b/src/protocol/suback.rs
@@ -34,7 +34,8 @@ impl FromMqttBytes for Suback {
             Vec::<properties::SubackProperty>::convert_from_mqtt(&bytes[bytes_read..])?;
         bytes_read += props_bytes_read;
 
-        let reason: SubackReason = bytes[bytes_read].try_into()?;
+        let reason = *bytes.get(bytes_read).ok_or(ConvertError::NotEnoughBytes)?;
+        let reason: SubackReason = reason.try_into()?;
         bytes_read += 1;
 
         let suback = Self {
@@ -163,7 +164,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = SubackProperty::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/unsuback.rs b/src/protocol/unsuback.rs
index c70a86a..986866e 100644
--- a/src/protocol/unsuback.rs
+++ b/src/protocol/unsuback.rs
@@ -34,7 +34,8 @@ impl FromMqttBytes for Unsuback {
             Vec::<properties::UnsubackProperty>::convert_from_mqtt(&bytes[bytes_read..])?;
         bytes_read += props_bytes_read;
 
-        let reason: UnsubackReason = bytes[bytes_read].try_into()?;
+        let reason = *bytes.get(bytes_read).ok_or(ConvertError::NotEnoughBytes)?;
+        let reason: UnsubackReason = reason.try_into()?;
         bytes_read += 1;
 
         let suback = Self {
@@ -153,7 +154,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = UnsubackProperty::convert_from_mqtt(bytes)?;
-- 
2.43.0


From 77d7399a8400d94fb8f72cb32002c57654070ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 06/21] fix: an over-long variable byte integer is an error,
 not an overflow

---
 src/protocol/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 67996da..cfea5dc 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -278,7 +278,6 @@ impl FromMqttBytes for VBI {
             match bytes.get(idx) {
                 None => return Err(ConvertError::NotEnoughBytes),
                 Some(byte) => {
-                    value += (byte & 127) as u32 * multiplier;
                     if multiplier > 128 * 128 * 128 {
                         return Err(format!(
                             "Invalid VariableByteInteger exceeds 4 bytes, bytes = {:?}",
@@ -286,6 +285,7 @@ impl FromMqttBytes for VBI {
                         )
                         .into());
                     }
+                    value += (byte & 127) as u32 * multiplier;
                     multiplier *= 128;
                     idx += 1;
 
-- 
2.43.0


From 8b5ec71bcef7610f66798f4719fc9389e70e7aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 07/21] fix: DISCONNECT carries a property length whenever it
 is longer than its reason

---
 src/protocol/disconnect.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/disconnect.rs b/src/protocol/disconnect.rs
index b1fa2c3..7850b1c 100644
--- a/src/protocol/disconnect.rs
+++ b/src/protocol/disconnect.rs
@@ -176,7 +176,7 @@ impl FromMqttBytes for Disconnect {
             reason
         };
 
-        let properties = if remaining_len < 4 {
+        let properties = if remaining_len < 2 {
             vec![]
         } else {
             let (properties, props_bytes_read) =
-- 
2.43.0


From 0b129d2b53493c590b107c1bf556ea296fab588c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 08/21] fix: unsupported packets end the session with an error,
 not a panic

---
 src/lib.rs          | 4 +++-
 src/protocol/mod.rs | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 06308bc..1f118b6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -217,7 +217,9 @@ async fn poll(
                                         mqtt_write.send(protocol::Packet::PubAck(pkt)).await?;
                                     }
                                     QoS::ExactlyOnce => {
-                                        todo!("Send pubrec");
+                                        // TODO: Send pubrec
+                                        let e = "QoS 2 messages are not supported";
+                                        return Err(IOError::new(ErrorKind::Unsupported, e));
                                     }
                                 }
 
diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index cfea5dc..15257fe 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -54,7 +54,10 @@ pub fn parse_pkt(data: &[u8]) -> Result<Option<Packet>, std::io::Error> {
         }
         ty => {
             info!("Received msg type = {:?}", ty);
-            unimplemented!("This is not impl");
+            Err(ConvertError::Other(format!(
+                "Packets of type {:?} are not supported",
+                ty
+            )))
         }
     };
 
-- 
2.43.0


From 125863b276897a69173b6543cbc09f0051a1391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 09/21] fix: a connection closed before CONNACK is an error,
 not an endless loop

---
 src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1f118b6..2ee6390 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -130,9 +130,11 @@ async fn poll(
 
     mqtt_write.send(protocol::Packet::Connect(pkt)).await?;
 
-    let pkt = loop {
-        if let Some(pkt) = mqtt_read.next().await {
-            break pkt?;
+    let pkt = match mqtt_read.next().await {
+        Some(pkt) => pkt?,
+        None => {
+            let e = "Connection closed before connack";
+            return Err(IOError::new(ErrorKind::UnexpectedEof, e));
         }
     };
     match pkt {
-- 
2.43.0


From 961efcacb1d14f1ba8647258bcf792bd395502ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:15 +0000
Subject: [PATCH 10/21] fix: do not spin once all client handles are dropped

---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2ee6390..9138dd3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -160,6 +160,7 @@ async fn poll(
         Duration::from_secs(8),
     );
     let mut pingresp_received = None;
+    let mut commands_open = true;
 
     let mut pktids = pktids::PktIds::new();
     // todo: on conversion from future<output = connection_result> to stream<item = connection_result>
@@ -242,7 +243,7 @@ async fn poll(
                     }
                 }
             },
-            cmd = commands_rx.next() => {
+            cmd = commands_rx.next(), if commands_open => {
                 match cmd {
                     Some(x) => match x {
                         Command::Publish { topic, payload, properties, qos, retain } => {
@@ -289,7 +290,8 @@ async fn poll(
                             return Ok(());
                         }
                     }
-                    None => {}
+                    // all clients are gone, there will be no more commands
+                    None => commands_open = false,
                 }
             }
         }
-- 
2.43.0


From 1fafedcc5a24537ec305b3d008c1c1a6087ef02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 11/21] fix: taking the last packet identifier overflowed

---
 src/pktids.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/pktids.rs b/src/pktids.rs
index 87b03cf..d7c1318 100644
--- a/src/pktids.rs
+++ b/src/pktids.rs
@@ -48,27 +48,17 @@ impl PktIds {
             } => {
                 let start = *range.start();
                 let end = *range.end();
-                let mut pktid = Some(start);
                 let mut new_node = None;
 
                 if start >= end {
-                    // this range is exhausted
-                    if let Some(Node::Vacant) = self.ranges.get(*next) {
-                        // if we have no next nodes and all pktids are in use
-                        // just set this node's range as exhausted
-                        *range = (start + 1)..=end;
-                        if start != end {
-                            pktid = None;
-                        }
-                    } else {
-                        // if we have next node - set this node as vacant and start using next node
-                        new_node = Some(Node::Vacant);
-                        self.start = *next;
-                    }
+                    // this was the last pktid of this range: set this node as vacant and start using
+                    // next node, which is the vacant node 0 if all pktids are in use now
+                    new_node = Some(Node::Vacant);
+                    self.start = *next;
                 } else {
                     *range = (start + 1)..=end;
                 }
-                (pktid, new_node)
+                (Some(start), new_node)
             }
         };
 
-- 
2.43.0


From cf474a292ca47261d6f47a0b5dba623a9f57c89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 12/21] fix: commands wait while all packet identifiers are in
 use

---
 src/lib.rs    | 11 ++++++-----
 src/pktids.rs |  5 +++++
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9138dd3..2011c7b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -243,7 +243,8 @@ async fn poll(
                     }
                 }
             },
-            cmd = commands_rx.next(), if commands_open => {
+            // while all pktids are in use commands wait for one to be returned
+            cmd = commands_rx.next(), if commands_open && pktids.has_free() => {
                 match cmd {
                     Some(x) => match x {
                         Command::Publish { topic, payload, properties, qos, retain } => {
@@ -258,13 +259,13 @@ async fn poll(
                                             queue.push_back((pktid, Box::new(pkt.clone())));
                                             pkt
                                         }
-                                        None => todo!(),
+                                        None => unreachable!(),
                                     }
                                 }
                                 QoS::ExactlyOnce => {
                                     match pktids.next_id() {
                                         Some(pktid) => protocol::Publish::exactly_once(topic, payload, retain, properties, pktid),
-                                        None => todo!(),
+                                        None => unreachable!(),
                                     }
                                 }
                             };
@@ -273,14 +274,14 @@ async fn poll(
                         Command::Subscribe(topic, qos) => {
                             let pkt = match pktids.next_id() {
                                 Some(pktid) => protocol::Subscribe::new(&topic, pktid, qos),
-                                None => todo!(),
+                                None => unreachable!(),
                             };
                             mqtt_write.send(protocol::Packet::Subscribe(pkt)).await?;
                         }
                         Command::Unsubscribe(topics) => {
                             let pkt = match pktids.next_id() {
                                 Some(pktid) => protocol::Unsubscribe::new(topics, pktid),
-                                None => todo!(),
+                                None => unreachable!(),
                             };
                             mqtt_write.send(protocol::Packet::Unsubscribe(pkt)).await?;
                         }
diff --git a/src/pktids.rs b/src/pktids.rs
index d7c1318..66b3aa0 100644
--- a/src/pktids.rs
+++ b/src/pktids.rs
@@ -32,6 +32,11 @@ impl PktIds {
         }
     }
 
+    /// Is there an id for next_id to return?
+    pub(crate) fn has_free(&self) -> bool {
+        matches!(self.ranges.get(self.start), Some(Node::Taken { .. }))
+    }
+
     pub(crate) fn next_id(&mut self) -> Option<PktId> {
         // take node out of vec
         let old_start = self.start;
-- 
2.43.0


From 8575d854b75c622fd35d6633e57e56a9c5f9a2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:25 +0000
Subject: [PATCH 13/21] fix: only the matching acknowledgement of a pending
 request frees its packet identifier

---
 src/lib.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2011c7b..01fe9a5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,7 +1,7 @@
 // `ruq_verif` is set by hand for verification builds, see verif_hooks.rs
 #![allow(unexpected_cfgs)]
 
-use std::collections::VecDeque;
+use std::collections::{HashSet, VecDeque};
 use std::io::{Error as IOError, ErrorKind, Result as IOResult};
 use std::pin::Pin;
 use std::task::Context;
@@ -166,6 +166,8 @@ async fn poll(
     // todo: on conversion from future<output = connection_result> to stream<item = connection_result>
     // we should save this queue on disconnect and read from it first if user establishes new connection
     let mut queue: VecDeque<(PktId, Box<Publish>)> = VecDeque::new();
+    let mut subscribes: HashSet<PktId> = HashSet::new();
+    let mut unsubscribes: HashSet<PktId> = HashSet::new();
 
     loop {
         tokio::select! {
@@ -196,21 +198,24 @@ async fn poll(
                                 pingresp_received = Some(true);
                             }
                             protocol::Packet::SubAck(m) => {
-                                pktids.return_id(m.pktid());
+                                if subscribes.remove(&m.pktid()) {
+                                    pktids.return_id(m.pktid());
+                                }
                                 sender.send(Notification::SubAck(format!("{:?}", m))).await;
                             }
                             protocol::Packet::UnsubAck(m) => {
-                                pktids.return_id(m.pktid());
+                                if unsubscribes.remove(&m.pktid()) {
+                                    pktids.return_id(m.pktid());
+                                }
                                 sender.send(Notification::UnsubAck(format!("{:?}", m))).await;
                             }
                             protocol::Packet::PubAck(m) => {
                                 if let Some(idx) = queue.iter().position(|(pktid, _)| *pktid == m.pktid()) {
                                     queue.remove(idx);
+                                    pktids.return_id(m.pktid());
                                 } else {
                                     warn!("Failed to find message to ack in the queue");
                                 }
-
-                                pktids.return_id(m.pktid());
                             }
                             protocol::Packet::Publish(m) => {
                                 match m.qos() {
@@ -273,14 +278,20 @@ async fn poll(
                         }
                         Command::Subscribe(topic, qos) => {
                             let pkt = match pktids.next_id() {
-                                Some(pktid) => protocol::Subscribe::new(&topic, pktid, qos),
+                                Some(pktid) => {
+                                    subscribes.insert(pktid);
+                                    protocol::Subscribe::new(&topic, pktid, qos)
+                                }
                                 None => unreachable!(),
                             };
                             mqtt_write.send(protocol::Packet::Subscribe(pkt)).await?;
                         }
                         Command::Unsubscribe(topics) => {
                             let pkt = match pktids.next_id() {
-                                Some(pktid) => protocol::Unsubscribe::new(topics, pktid),
+                                Some(pktid) => {
+                                    unsubscribes.insert(pktid);
+                                    protocol::Unsubscribe::new(topics, pktid)
+                                }
                                 None => unreachable!(),
                             };
                             mqtt_write.send(protocol::Packet::Unsubscribe(pkt)).await?;
-- 
2.43.0


From 70818d44d591011b1b68b8afe56a0270a59981bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 14/21] fix: a CONNACK refusing the connection ends the session
 with an error

---
 src/lib.rs          | 8 ++++++--
 src/protocol/mod.rs | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 01fe9a5..7be6f2d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -20,7 +20,7 @@ use tokio_util::codec::{FramedRead, FramedWrite};
 
 use log::{error, info, warn};
 
-use crate::protocol::{DisconnectReason, PktId, Publish};
+use crate::protocol::{ConnackReason, DisconnectReason, PktId, Publish};
 
 pub use crate::client::{Client, Notification, PublishBuilder};
 pub use crate::protocol::Property;
@@ -140,7 +140,7 @@ async fn poll(
     match pkt {
         protocol::Packet::Connack(p) => {
             info!("Received connack: {:?}", p);
-            // TODO: pkt must be a connack with ConnackReason::Success
+            let reason = p.reason();
             match sender.send(Notification::ConnAck(p)).await {
                 Ok(()) => {}
                 Err(e) => {
@@ -148,6 +148,10 @@ async fn poll(
                     // probably send disconnect without acking any incoming messages?
                 }
             }
+            if !matches!(reason, ConnackReason::Success) {
+                let e = format!("Connection refused: {:?}", reason);
+                return Err(IOError::new(ErrorKind::ConnectionRefused, e));
+            }
         }
         _ => {
             error!("Expected connack, received: {:?}", pkt);
diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 15257fe..6616951 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -3,7 +3,7 @@ use std::{
     num::NonZeroU16,
 };
 
-pub use connack::Connack;
+pub use connack::{Connack, ConnackReason};
 pub use connect::Connect;
 pub use disconnect::{Disconnect, DisconnectReason};
 pub use pingreq::PingReq;
-- 
2.43.0


From ae3f53f657fc461f679d768272c7145e855aa6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 15/21] fix: no ping timeout right after the event loop was not
 run for a while

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7be6f2d..cbe9543 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -15,7 +15,7 @@ use protocol::publish::Payload;
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpStream;
 use tokio::net::ToSocketAddrs;
-use tokio::time::{Duration, Instant};
+use tokio::time::{Duration, Instant, MissedTickBehavior};
 use tokio_util::codec::{FramedRead, FramedWrite};
 
 use log::{error, info, warn};
@@ -163,6 +163,8 @@ async fn poll(
         Instant::now() + Duration::from_secs(8),
         Duration::from_secs(8),
     );
+    // after a stall, the broker gets its full interval to answer the ping sent late
+    ping.set_missed_tick_behavior(MissedTickBehavior::Delay);
     let mut pingresp_received = None;
     let mut commands_open = true;
 
-- 
2.43.0


From 7f98fbcc68d9f3690ca7bcb324a75f88be194a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 16/21] fix: refuse what MQTT cannot encode instead of sending
 it garbled

---
 src/client.rs     | 53 +++++++++++++++++++++++++++++++++++++++++++++--
 src/mqtt_codec.rs |  2 +-
 2 files changed, 52 insertions(+), 3 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 6307cba..7af7f67 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -1,9 +1,9 @@
-use anyhow::{Context as AnyContext, Error};
+use anyhow::{ensure, Context as AnyContext, Error};
 use futures::channel::mpsc::{channel, Receiver, Sender};
 use tokio::net::TcpStream;
 use tokio::net::ToSocketAddrs;
 
-use crate::protocol::{Connack, Property};
+use crate::protocol::{Connack, Property, ToMqttBytes};
 use crate::{Payload, QoS};
 
 use super::*;
@@ -58,18 +58,21 @@ impl Client {
     }
 
     pub fn subscribe(&mut self, topic: &str, qos: QoS) -> Result<(), Error> {
+        check_len("Topic filter", topic.len())?;
         self.tx
             .try_send(Command::Subscribe(topic.to_owned(), qos))
             .with_context(|| "Subscribe chan send failed")
     }
 
     pub fn publish(&mut self, publish_builder: PublishBuilder) -> Result<(), Error> {
+        publish_builder.check()?;
         self.tx
             .try_send(publish_builder.build())
             .with_context(|| "Publish chan send failed")
     }
 
     pub fn unsubscribe(&mut self, topic: &str) -> Result<(), Error> {
+        check_len("Topic filter", topic.len())?;
         self.tx
             .try_send(Command::Unsubscribe(vec![topic.to_owned()]))
             .with_context(|| "Unsubscribe chan send failed")
@@ -82,6 +85,18 @@ impl Client {
     }
 }
 
+/// Strings and binary data are preceded by their length in two bytes
+fn check_len(what: &str, len: usize) -> Result<(), Error> {
+    ensure!(
+        len <= u16::MAX as usize,
+        "{} is too long: {} bytes, the maximum is {}",
+        what,
+        len,
+        u16::MAX
+    );
+    Ok(())
+}
+
 #[derive(Clone)]
 pub struct PublishBuilder {
     topic: String,
@@ -122,6 +137,40 @@ impl PublishBuilder {
         self
     }
 
+    /// Can this be sent at all?
+    fn check(&self) -> Result<(), Error> {
+        check_len("Topic", self.topic.len())?;
+        for property in &self.properties {
+            match property {
+                Property::PayloadFormatId(_) | Property::MessageExpiryInterval(_) => {}
+                Property::ResponseTopic(s) => check_len("Response topic", s.len())?,
+                Property::CorrelationData(b) => check_len("Correlation data", b.len())?,
+                Property::UserProperty(k, v) => {
+                    check_len("User property name", k.len())?;
+                    check_len("User property value", v.len())?;
+                }
+            }
+        }
+
+        let pktid_len = match self.qos {
+            None | Some(QoS::AtMostOnce) => 0,
+            Some(_) => 2,
+        };
+        let payload_len = match &self.payload {
+            Payload::String(s) => s.len(),
+            Payload::Bytes(b) => b.len(),
+        };
+        let properties_len = self.properties.as_slice().convert_to_mqtt().len();
+        let len = 2 + self.topic.len() + pktid_len + properties_len + payload_len;
+        ensure!(
+            len <= mqtt_codec::MAX as usize,
+            "Packet is too long: {} bytes, the maximum is {}",
+            len,
+            mqtt_codec::MAX
+        );
+        Ok(())
+    }
+
     fn build(self) -> Command {
         Command::Publish {
             topic: self.topic,
diff --git a/src/mqtt_codec.rs b/src/mqtt_codec.rs
index 11a45c9..9d83da8 100644
--- a/src/mqtt_codec.rs
+++ b/src/mqtt_codec.rs
@@ -15,7 +15,7 @@ impl MqttCodec {
 // Packet size is 1 byte for fixed header + len of VBI (at most 4 bytes) + value of VBI for remaining len
 // And the maximum value of VBI is 268_435_455
 // https://docs.oasis-open.org/mqtt/mqtt/v5.0/os/mqtt-v5.0-os.html#_Toc3901011
-const MAX: u32 = 268_435_455;
+pub(crate) const MAX: u32 = 268_435_455;
 
 impl Decoder for MqttCodec {
     type Item = protocol::Packet;
-- 
2.43.0


From b52b02613cf5ba8fe6c9ded31422ec39914ff919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 17/21] fix: no ping timeout while the PINGRESP has arrived but
 is yet to be read

---
 src/lib.rs | 45 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cbe9543..eff55ef 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -166,6 +166,7 @@ async fn poll(
     // after a stall, the broker gets its full interval to answer the ping sent late
     ping.set_missed_tick_behavior(MissedTickBehavior::Delay);
     let mut pingresp_received = None;
+    let mut pingresp_overdue = false;
     let mut commands_open = true;
 
     let mut pktids = pktids::PktIds::new();
@@ -179,13 +180,14 @@ async fn poll(
         tokio::select! {
             _ = ping.tick() => {
                 if pingresp_received == Some(false) {
-                    return Err(IOError::new(ErrorKind::TimedOut, "PingResp timed out"))
+                    pingresp_overdue = true;
+                } else {
+                    let pkt = protocol::PingReq::new();
+                    mqtt_write.send(protocol::Packet::PingReq(pkt)).await?;
+                    pingresp_received = Some(false);
                 }
-                let pkt = protocol::PingReq::new();
-                mqtt_write.send(protocol::Packet::PingReq(pkt)).await?;
-                pingresp_received = Some(false);
             }
-            req = mqtt_read.next() => {
+            req = next_packet(&mut mqtt_read, pingresp_overdue) => {
                 info!("Incoming req: {:?}", req);
                 match req {
                     Some(Ok(x)) => {
@@ -202,6 +204,11 @@ async fn poll(
                             },
                             protocol::Packet::PingResp(_) => {
                                 pingresp_received = Some(true);
+                                if pingresp_overdue {
+                                    // the next ping is late already
+                                    pingresp_overdue = false;
+                                    ping.reset_immediately();
+                                }
                             }
                             protocol::Packet::SubAck(m) => {
                                 if subscribes.remove(&m.pktid()) {
@@ -316,6 +323,34 @@ async fn poll(
     }
 }
 
+/// The next packet from the broker. While a PingResp is overdue, running out of input is an error.
+/// What has arrived already is read first: the PingResp may be among it if the event loop
+/// was held up, e.g. by an application that takes notifications slowly.
+async fn next_packet(
+    mqtt_read: &mut FramedRead<OwnedReadHalf, mqtt_codec::MqttCodec>,
+    pingresp_overdue: bool,
+) -> Option<IOResult<protocol::Packet>> {
+    if !pingresp_overdue {
+        return mqtt_read.next().await;
+    }
+
+    let mut waited = false;
+    futures::future::poll_fn(|cx| match mqtt_read.poll_next_unpin(cx) {
+        Poll::Pending if waited => {
+            let e = IOError::new(ErrorKind::TimedOut, "PingResp timed out");
+            Poll::Ready(Some(Err(e)))
+        }
+        Poll::Pending => {
+            // no input at once does not mean that there is none
+            waited = true;
+            cx.waker().wake_by_ref();
+            Poll::Pending
+        }
+        packet => packet,
+    })
+    .await
+}
+
 pub(crate) enum Command {
     Publish {
         topic: String,
-- 
2.43.0


From 1e05b58c7e7add3a402dd50578a1f07f408065d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 18/21] fix: a packet with wrong reserved flags is malformed

---
 src/protocol/mod.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 6616951..8e4d5f3 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -151,7 +151,7 @@ impl TryFrom<u8> for PacketType {
     type Error = String;
 
     fn try_from(b: u8) -> Result<Self, Self::Error> {
-        match b >> 4 {
+        let pkt_type = match b >> 4 {
             1 => Ok(PacketType::Connect),
             2 => Ok(PacketType::Connack),
             3 => Ok(PacketType::Publish),
@@ -171,7 +171,24 @@ impl TryFrom<u8> for PacketType {
                 "Failed conversion from u8 to PacketType, byte = {}",
                 b
             )),
+        }?;
+
+        // the low four bits are the flags of Publish, in all other packets their value is fixed
+        let flags = b & 0b1111;
+        let valid = match pkt_type {
+            PacketType::Publish => true,
+            PacketType::PubRelease | PacketType::Subscribe | PacketType::Unsubscribe => {
+                flags == 0b0010
+            }
+            _ => flags == 0,
+        };
+        if !valid {
+            return Err(format!(
+                "Invalid reserved flags {:#06b} of {:?}",
+                flags, pkt_type
+            ));
         }
+        Ok(pkt_type)
     }
 }
 
-- 
2.43.0


From 3ae182a81e1a74fd8450885e412d6f5b2f3539f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:09 +0000
Subject: [PATCH 19/21] fix: a received string with U+0000 is malformed

---
 src/protocol/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 8e4d5f3..1a3716c 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -403,6 +403,9 @@ impl FromMqttBytes for String {
         if len > 0 && len + 2 <= bytes.len() {
             let s = std::str::from_utf8(&bytes[2..(2 + len)])
                 .map_err(|e| format!("Failed to parse bytes as utf8, reason = {:?}", e))?;
+            if s.contains('\0') {
+                return Err(format!("String contains U+0000: {:?}", s).into());
+            }
 
             Ok((s.into(), len + 2))
         } else if len == 0 {
-- 
2.43.0


From dc13331269e4d361d6071dbdbd90c5421f161711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 20/21] fix: refuse strings with U+0000, which MQTT cannot
 encode

---
 src/client.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 7af7f67..ae2fbf4 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -58,7 +58,7 @@ impl Client {
     }
 
     pub fn subscribe(&mut self, topic: &str, qos: QoS) -> Result<(), Error> {
-        check_len("Topic filter", topic.len())?;
+        check_str("Topic filter", topic)?;
         self.tx
             .try_send(Command::Subscribe(topic.to_owned(), qos))
             .with_context(|| "Subscribe chan send failed")
@@ -72,7 +72,7 @@ impl Client {
     }
 
     pub fn unsubscribe(&mut self, topic: &str) -> Result<(), Error> {
-        check_len("Topic filter", topic.len())?;
+        check_str("Topic filter", topic)?;
         self.tx
             .try_send(Command::Unsubscribe(vec![topic.to_owned()]))
             .with_context(|| "Unsubscribe chan send failed")
@@ -97,6 +97,13 @@ fn check_len(what: &str, len: usize) -> Result<(), Error> {
     Ok(())
 }
 
+/// MQTT strings cannot contain U+0000
+fn check_str(what: &str, s: &str) -> Result<(), Error> {
+    check_len(what, s.len())?;
+    ensure!(!s.contains('\0'), "{} contains U+0000: {:?}", what, s);
+    Ok(())
+}
+
 #[derive(Clone)]
 pub struct PublishBuilder {
     topic: String,
@@ -139,15 +146,15 @@ impl PublishBuilder {
 
     /// Can this be sent at all?
     fn check(&self) -> Result<(), Error> {
-        check_len("Topic", self.topic.len())?;
+        check_str("Topic", &self.topic)?;
         for property in &self.properties {
             match property {
                 Property::PayloadFormatId(_) | Property::MessageExpiryInterval(_) => {}
-                Property::ResponseTopic(s) => check_len("Response topic", s.len())?,
+                Property::ResponseTopic(s) => check_str("Response topic", s)?,
                 Property::CorrelationData(b) => check_len("Correlation data", b.len())?,
                 Property::UserProperty(k, v) => {
-                    check_len("User property name", k.len())?;
-                    check_len("User property value", v.len())?;
+                    check_str("User property name", k)?;
+                    check_str("User property value", v)?;
                 }
             }
         }
-- 
2.43.0


From abd7d7e1a64d8aa4330a408134cf2571181e1802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 21/21] fix: keep-alive counts from CONNECT, not from CONNACK

A broker that accepted the connection late got its first ping up to
that much later than the interval declared in CONNECT.
---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index eff55ef..abeb6bf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -129,6 +129,8 @@ async fn poll(
     pkt.keep_alive(8);
 
     mqtt_write.send(protocol::Packet::Connect(pkt)).await?;
+    // keep-alive counts from here on, however long the broker takes to accept
+    let connect_sent = Instant::now();
 
     let pkt = match mqtt_read.next().await {
         Some(pkt) => pkt?,
@@ -160,7 +162,7 @@ async fn poll(
     }
 
     let mut ping = tokio::time::interval_at(
-        Instant::now() + Duration::from_secs(8),
+        connect_sent + Duration::from_secs(8),
         Duration::from_secs(8),
     );
     // after a stall, the broker gets its full interval to answer the ping sent late
-- 
2.43.0

