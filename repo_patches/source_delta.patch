From 9ab620bf361067e947be1425526a1bb57122143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:45 +0000
Subject: [PATCH 01/18] fix: keep read limits balanced when an inner take()
 reaches the outer limit

take() returned without pushing when len >= the current limit, so the matching
reset_limit() dropped the limit of the whole packet: a v5 PUBLISH with
properties and an empty payload could not be decoded and list payloads
(SUBSCRIBE, SUBACK, ...) were read past the end of the packet.
---
 src/byte_reader.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 48da1a3..cabb2c3 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -49,11 +49,14 @@ impl<R: Read> ByteReader<R> {
     /// sets a limit of reading, has to be used together
     /// with has_more() and reset_limit()
     pub fn take(&mut self, len: u32) {
+        let mut len = len;
         if let Some(l) = self.curr_limit {
-            if len >= l {
-                return;
+            // an inner limit can never reach past the outer one
+            if len > l {
+                len = l;
             }
-            // push alread subtracted number
+            // push alread subtracted number, even if it's 0, since
+            // every take() is paired with a reset_limit()
             self.read_limits.push(l - len);
         }
         self.curr_limit = Some(len);
-- 
2.43.0


From c128fb6743545cf6bf2e2a2e50dc02023b7b224a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 02/18] fix: reject a property length that exceeds the rest of
 the packet

---
 src/byte_reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index cabb2c3..0f3ab8f 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -188,6 +188,8 @@ impl<R: Read> ByteReader<R> {
     fn start_properties_decode(&mut self) -> Res<u32> {
         let length = self.read_variable_int()?;
         if length > 0 {
+            // the properties have to fit into the rest of the packet
+            self.ensure_limit(length)?;
             self.take(length);
         }
         Ok(length)
-- 
2.43.0


From 793e6b5b71a381a8f4973a12dd1b4d37edeb9130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 03/18] fix: reject variable byte integers longer than 4 bytes

---
 src/byte_reader.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 0f3ab8f..005ccde 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -163,13 +163,11 @@ impl<R: Read> ByteReader<R> {
             num += mult * (next & VARBYTEINT_MASK);
             mult *= 0x80;
             if next & VARBYTEINT_FIN_MASK == 0 {
-                break;
+                return Ok(num);
             }
         }
-        if num > VARBYTEINT_MAX {
-            return Err(format!("Invalid variable int {}", num));
-        }
-        Ok(num)
+        // the last allowed byte still had its continuation bit set
+        Err(format!("Invalid variable int {}", num))
     }
 
     pub fn has_more(&mut self) -> bool {
-- 
2.43.0


From 83ecdb4d014e4717ff686d6a762f481ebaa92b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:16 +0000
Subject: [PATCH 04/18] fix: always resynchronise at the end of a packet

An error inside of a property block left the inner limit in place, so only the
property block was discarded, and unused bytes of a successfully decoded packet
were not discarded at all. In both cases the next packet was read from the
middle of this one. A packet whose body is cut off by the end of the stream is
now always an error.
---
 src/byte_reader.rs | 18 ++++++++++++++++--
 src/packet.rs      | 10 ++++------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 005ccde..f1bf59d 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -29,8 +29,7 @@ impl<R: Read> ByteReader<R> {
             Err(e) => {
                 if let Ok(len) = length {
                     self.take(len);
-                    self.consume()?;
-                    self.reset_limit();
+                    self.discard_packet()?;
                 }
                 return Err(e);
             }
@@ -225,6 +224,21 @@ impl<R: Read> ByteReader<R> {
         }
     }
 
+    /// discards everything that is left of the current packet and removes
+    /// all limits, so that the reader points at the start of the next packet
+    pub(crate) fn discard_packet(&mut self) -> Res<()> {
+        // an error might have left nested limits behind
+        while !self.read_limits.is_empty() {
+            self.reset_limit();
+        }
+        let rest = self.consume();
+        self.reset_limit();
+        match rest {
+            Ok(_) => Ok(()),
+            Err(e) => Err(e),
+        }
+    }
+
     pub fn read_properties(&mut self) -> Res<Option<Vec<(u8, PropType)>>> {
         let mut props = vec![];
         // zero length properties are also valid
diff --git a/src/packet.rs b/src/packet.rs
index 389d327..f7f426b 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -169,12 +169,10 @@ impl<R: io::Read> PacketDecoder<R> {
     pub fn decode_packet(&mut self, protocol_version: u8) -> Res<MqttPacket> {
         let (length, fixed) = self.reader.read_header()?;
         let dec = self.decode_by_type(fixed, length, protocol_version);
-        if dec.is_err() {
-            // TODO: this should probably return an Error that indicates some
-            // critical failure
-            self.reader.consume()?;
-        }
-        self.reader.reset_limit();
+        // no matter how much of the packet was used, the next packet starts right after it
+        // TODO: this should probably return an Error that indicates some
+        // critical failure
+        self.reader.discard_packet()?;
         dec
     }
 
-- 
2.43.0


From b8cdf39088feb01b370285769dc11f55c81b54e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 05/18] fix: has_more inside a packet does not depend on the
 underlying reader

---
 src/byte_reader.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index f1bf59d..f82b7e1 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -170,10 +170,10 @@ impl<R: Read> ByteReader<R> {
     }
 
     pub fn has_more(&mut self) -> bool {
-        // if curr_limit is anything other than Some(0)
-        // rely on fill_buf
-        if let Some(0) = self.curr_limit {
-            return false;
+        // inside of a packet only the limit counts: a temporary read error must not
+        // look like the end of the packet. Otherwise rely on fill_buf
+        if let Some(l) = self.curr_limit {
+            return l > 0;
         }
         // TODO: switch to a better way to do this
         match self.reader.fill_buf() {
-- 
2.43.0


From f0a5a1bbeabe4f2c1cc2a165d03706f6c72d2d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 06/18] fix: reject CONNECT with will QoS 3

---
 src/connect.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/connect.rs b/src/connect.rs
index 728bb0b..822c523 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -289,6 +289,10 @@ impl ConnectFlags {
             }
         }
 
+        if connect_flags.will_qos > 2 {
+            return Err("Will QoS must not be 3".to_string());
+        }
+
         let will_flags = if connect_flags.will {
             Some(LastWill {
                 topic: None,
-- 
2.43.0


From 2a720c4bd80e286551f5fdf0f3586e103b3a2d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 07/18] fix: accept v5 DISCONNECT without properties

A remaining length of 0 or 1 means that there is no property length.
---
 src/disconnect.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/disconnect.rs b/src/disconnect.rs
index 5a03629..75aecd3 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -24,11 +24,14 @@ impl Packet for DisconnectPacket {
             } else {
                 packet.reason_code = Some(DisconnectCode::NormalDisconnection);
             }
-            // properies mqtt 5
-            packet.properties = match reader.read_properties()? {
-                None => None,
-                Some(props) => Some(DisconnectProperties::from_properties(props)?),
-            };
+            // properies mqtt 5, there is no property length if
+            // the remaining length is less than 2
+            if length > 1 {
+                packet.properties = match reader.read_properties()? {
+                    None => None,
+                    Some(props) => Some(DisconnectProperties::from_properties(props)?),
+                };
+            }
         }
 
         Ok(packet)
-- 
2.43.0


From 1c300eea8917146c892dcb798451a7ce974fb393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 08/18] fix: accept AUTH with a remaining length of 0

---
 src/auth.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/auth.rs b/src/auth.rs
index b5bd7e2..9e603af 100644
--- a/src/auth.rs
+++ b/src/auth.rs
@@ -38,7 +38,7 @@ impl Packet for AuthPacket {
     fn decode<R: io::Read>(
         reader: &mut ByteReader<R>,
         _: FixedHeader,
-        _: u32,
+        length: u32,
         protocol_version: u8,
     ) -> Res<AuthPacket> {
         if protocol_version != 5 {
@@ -49,6 +49,10 @@ impl Packet for AuthPacket {
             reason_code: AuthCode::Success,
             properties: None,
         };
+        // reason code and properties can be omitted for Success
+        if length == 0 {
+            return Ok(packet);
+        }
         packet.reason_code = AuthCode::from_byte(reader.read_u8()?)?;
         // properies mqtt 5
         packet.properties = match reader.read_properties()? {
-- 
2.43.0


From e7f9ed21ca3d093f8884b480dacfa628fdaaf77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 09/18] fix: count the reason code in the remaining length of
 v5 confirmations

---
 src/confirmation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/confirmation.rs b/src/confirmation.rs
index ae6d084..6362920 100644
--- a/src/confirmation.rs
+++ b/src/confirmation.rs
@@ -225,7 +225,9 @@ impl Packet for ConfirmationPacket {
         // Remaining Length of 2.
         match (code, properties_data.is_empty()) {
             (Some(0), true) => length = 2,
-            _ => length += properties_data.len() + props_len.len(),
+            // the reason code takes up one byte as well
+            (Some(_), _) => length += 1 + properties_data.len() + props_len.len(),
+            (None, _) => {}
         };
 
         let mut writer = MqttWriter::new(length);
-- 
2.43.0


From 98bf5da9d092f2924de701f9acf29315c871df99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 10/18] fix: write a property length of 0 for properties
 without content

Properties without any pairs were encoded as the (invalid) property 0 and
properties with only empty user property lists lost their length byte.
---
 src/structure/properties.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/structure/properties.rs b/src/structure/properties.rs
index 6ffcf10..6558731 100644
--- a/src/structure/properties.rs
+++ b/src/structure/properties.rs
@@ -16,7 +16,7 @@ pub(crate) trait Properties: Sized {
         // Confirm should not add empty property length with no properties (rfc 3.4.2.2.1)
         let pairs = self.to_pairs()?;
         if pairs.is_empty() {
-            return Ok(vec![0]); // empty properties
+            return Ok(vec![]); // empty properties
         }
         // TODO: calculate size of properties before allocating buffer
         let mut writer = MqttWriter::new(100);
@@ -29,6 +29,9 @@ pub(crate) trait Properties: Sized {
         if protocol_version == 5 {
             if let Some(p) = props {
                 let enc = p.encode()?;
+                if enc.is_empty() {
+                    return Ok((vec![0], vec![])); // empty properties
+                }
                 Ok((MqttWriter::encode_variable_num(enc.len() as u32), enc))
             } else {
                 Ok((vec![0], vec![])) // empty properties
-- 
2.43.0


From b22d762f309485a8177848226b8c3b1ee5bd2d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 11/18] fix: write the counted reason code of a v5 DISCONNECT
 without reason code

---
 src/disconnect.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/disconnect.rs b/src/disconnect.rs
index 75aecd3..26a8d79 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -49,8 +49,13 @@ impl Packet for DisconnectPacket {
         // Length
         writer.write_variable_num(length as u32)?;
         // reason code in header
-        if protocol_version == 5 && self.reason_code.is_some() {
-            writer.write_u8(self.reason_code.as_ref().unwrap().to_byte());
+        if protocol_version == 5 {
+            // no reason code means normal disconnection
+            let code = match self.reason_code.as_ref() {
+                Some(code) => code.to_byte(),
+                None => 0,
+            };
+            writer.write_u8(code);
         }
         // properies mqtt 5
         writer.write_sized(&properties_data, &props_len)?;
-- 
2.43.0


From 665df74d2aad8aefdedb93206fad183a9abdc2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 12/18] fix: do not encode a will without topic or with an
 invalid QoS

A missing will topic made the remaining length too short and a QoS > 2 was
silently changed to another one.
---
 src/connect.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/connect.rs b/src/connect.rs
index 822c523..442cc27 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -89,6 +89,11 @@ impl Packet for ConnectPacket {
                 }
                 will_topic = t;
                 length += t.len() + 2;
+            } else {
+                return Err("Not allowed to use empty will topic".to_string());
+            }
+            if *qos > 2 {
+                return Err("Will QoS must be <= 2".to_string());
             }
             // Payload
             length += 2; // payload length
-- 
2.43.0


From e6a15d45b84c0f2aab8d472609f11f1928d5d19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 13/18] fix: do not encode PUBLISH with QoS > 2

The value overflowed into the other bits of the fixed header.
---
 src/publish.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/publish.rs b/src/publish.rs
index 766e571..7a69a4e 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -58,6 +58,10 @@ impl Packet for PublishPacket {
             return Err("Invalid topic".to_string());
         }
 
+        if *qos > 2 {
+            return Err("Invalid QoS, must be <= 2".to_string());
+        }
+
         // Get the payload length
         length += payload.len();
 
-- 
2.43.0


From 59863a50917e30441e18ec82d51091fc56a9af52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 14/18] fix: do not write reason codes into a v3 UNSUBACK

A v3 UNSUBACK has no payload and is rejected by the decoder otherwise.
---
 src/unsuback.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/unsuback.rs b/src/unsuback.rs
index 60bc6fd..dabb009 100644
--- a/src/unsuback.rs
+++ b/src/unsuback.rs
@@ -9,8 +9,10 @@ impl Packet for UnsubackPacket {
         // Check message ID
         let mut length = 2;
 
-        // add length of unsubscriptions
-        length += self.granted.len();
+        // add length of unsubscriptions, they only exist in v5
+        if protocol_version == 5 {
+            length += self.granted.len();
+        }
 
         // properies mqtt 5
         let (props_len, properties_data) =
@@ -30,8 +32,10 @@ impl Packet for UnsubackPacket {
         writer.write_sized(&properties_data, &props_len)?;
 
         // Granted
-        for g in self.granted.iter() {
-            writer.write_u8(g.to_byte());
+        if protocol_version == 5 {
+            for g in self.granted.iter() {
+                writer.write_u8(g.to_byte());
+            }
         }
         Ok(writer.into_vec())
     }
-- 
2.43.0


From 928237653eff8fe7fd798b6f277a21f4c0dcef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:18 +0000
Subject: [PATCH 15/18] fix: do not encode SUBSCRIBE, SUBACK and UNSUBSCRIBE
 without payload

The payload is mandatory and the decoder rejects these packets.
---
 src/suback.rs      | 3 +++
 src/subscribe.rs   | 3 +++
 src/unsubscribe.rs | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/src/suback.rs b/src/suback.rs
index 3d60ed8..b61ccff 100644
--- a/src/suback.rs
+++ b/src/suback.rs
@@ -89,6 +89,9 @@ impl Packet for SubackPacket {
         } else {
             self.granted.iter().map(|code| code.to_byte()).collect()
         };
+        if granted.is_empty() {
+            return Err("Invalid suback - no payload".to_string());
+        }
         length += granted.len();
 
         // properies mqtt 5
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 76043cb..92c4af9 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -91,6 +91,9 @@ impl Packet for SubscribePacket {
         let mut length = 2;
 
         // check subscriptions
+        if self.subscriptions.is_empty() {
+            return Err("Invalid subscriptions - no payload".to_string());
+        }
         for sub in self.subscriptions.iter() {
             if sub.topic.is_empty() {
                 return Err("Invalid subscriptions - empty topic".to_string());
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index c9e4989..faf29d6 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -9,6 +9,10 @@ impl Packet for UnsubscribePacket {
     // Check message ID
     let mut length = 2;
 
+    if self.unsubscriptions.is_empty() {
+      return Err("Invalid unsubscribe - no payload".to_string());
+    }
+
     // add length of unsubscriptions
     length += self
       .unsubscriptions
-- 
2.43.0


From 3f1f75684f46536570bf98081c3d734c3f99d080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 16/18] fix: do not encode strings or binary data longer than
 65535 bytes

The length was silently truncated to 16 bits while all bytes were written.
---
 src/connect.rs     | 10 +++++-----
 src/mqtt_writer.rs | 45 +++++++++++++++++++++++++++++----------------
 src/publish.rs     |  2 +-
 src/subscribe.rs   |  2 +-
 src/unsubscribe.rs |  2 +-
 5 files changed, 37 insertions(+), 24 deletions(-)

diff --git a/src/connect.rs b/src/connect.rs
index 442cc27..6ce2e47 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -154,24 +154,24 @@ impl Packet for ConnectPacket {
 
         writer.write_sized(&properties_data, &props_len)?;
         // client id
-        writer.write_utf8_str(client_id);
+        writer.write_utf8_str(client_id)?;
         // will properties
         if protocol_version == 5 {
             writer.write_sized(&will_properties, &will_props_len)?;
         }
         // will topic and payload
         if has_will {
-            writer.write_utf8_str(will_topic);
-            writer.write_utf8_str(will_payload);
+            writer.write_utf8_str(will_topic)?;
+            writer.write_utf8_str(will_payload)?;
         }
 
         // username
         if let Some(u) = user_name {
-            writer.write_utf8_str(u);
+            writer.write_utf8_str(u)?;
         }
         // password
         if let Some(p) = password {
-            writer.write_utf8_str(p);
+            writer.write_utf8_str(p)?;
         }
         Ok(writer.into_vec())
     }
diff --git a/src/mqtt_writer.rs b/src/mqtt_writer.rs
index cb92fda..7626408 100644
--- a/src/mqtt_writer.rs
+++ b/src/mqtt_writer.rs
@@ -34,19 +34,19 @@ impl MqttWriter {
                 }
                 (code, PropType::String(v)) => {
                     self.write_u8(code);
-                    self.write_utf8_string(v)
+                    self.write_utf8_string(v)?
                 }
                 (code, PropType::Str(v)) => {
                     self.write_u8(code);
-                    self.write_utf8_str(v)
+                    self.write_utf8_str(v)?
                 }
                 (code, PropType::Binary(v)) => {
                     self.write_u8(code);
-                    self.write_binary(v)
+                    self.write_binary(v)?
                 }
                 (code, PropType::BinaryRef(v)) => {
                     self.write_u8(code);
-                    self.write_binary_ref(v)
+                    self.write_binary_ref(v)?
                 }
                 // should never happen actually
                 (_, PropType::Pair(_, _)) => {}
@@ -57,8 +57,8 @@ impl MqttWriter {
                         // split into pairs
                         for val in v {
                             self.write_u8(code);
-                            self.write_utf8_str(&k);
-                            self.write_utf8_str(&val);
+                            self.write_utf8_str(&k)?;
+                            self.write_utf8_str(&val)?;
                         }
                     }
                 }
@@ -67,8 +67,8 @@ impl MqttWriter {
                         // split into pairs
                         for val in v {
                             self.write_u8(code);
-                            self.write_utf8_str(k);
-                            self.write_utf8_str(val);
+                            self.write_utf8_str(k)?;
+                            self.write_utf8_str(val)?;
                         }
                     }
                 }
@@ -121,29 +121,42 @@ impl MqttWriter {
         Ok(())
     }
 
-    pub fn write_utf8_string(&mut self, s: String) {
-        self.write_u16(s.len() as u16);
+    pub fn write_utf8_string(&mut self, s: String) -> Res<()> {
+        self.write_u16_len(s.len())?;
         for b in s.bytes() {
             self.buf.push(b);
         }
+        Ok(())
     }
 
-    pub fn write_utf8_str(&mut self, s: &str) {
-        self.write_u16(s.len() as u16);
+    pub fn write_utf8_str(&mut self, s: &str) -> Res<()> {
+        self.write_u16_len(s.len())?;
         for b in s.bytes() {
             self.buf.push(b);
         }
+        Ok(())
     }
 
     /// a Binary vector should never be empty
-    pub fn write_binary(&mut self, s: Vec<u8>) {
-        self.write_u16(s.len() as u16);
+    pub fn write_binary(&mut self, s: Vec<u8>) -> Res<()> {
+        self.write_u16_len(s.len())?;
         self.write_vec(s);
+        Ok(())
     }
 
-    pub fn write_binary_ref(&mut self, s: &[u8]) {
-        self.write_u16(s.len() as u16);
+    pub fn write_binary_ref(&mut self, s: &[u8]) -> Res<()> {
+        self.write_u16_len(s.len())?;
         self.write_slice(s);
+        Ok(())
+    }
+
+    /// length of a string or of binary data, which is limited to 2 bytes
+    fn write_u16_len(&mut self, length: usize) -> Res<()> {
+        if length > u16::MAX as usize {
+            return Err(format!("Invalid length {}, must be <= 65535", length));
+        }
+        self.write_u16(length as u16);
+        Ok(())
     }
 
     pub fn write_u16(&mut self, length: u16) {
diff --git a/src/publish.rs b/src/publish.rs
index 7a69a4e..851a4d1 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -90,7 +90,7 @@ impl Packet for PublishPacket {
         writer.write_variable_num(length as u32)?;
 
         // Topic
-        writer.write_utf8_str(topic);
+        writer.write_utf8_str(topic)?;
 
         // Message ID
         if *qos > 0 {
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 92c4af9..59504fd 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -130,7 +130,7 @@ impl Packet for SubscribePacket {
 
         // subscriptions payload
         for sub in self.subscriptions.iter() {
-            writer.write_utf8_str(&sub.topic);
+            writer.write_utf8_str(&sub.topic)?;
             let mut options = sub.qos.to_byte();
             if protocol_version == 5 {
                 let nl = (sub.nl as u8) << SUBSCRIBE_OPTIONS_NL_SHIFT;
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index faf29d6..107dd94 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -38,7 +38,7 @@ impl Packet for UnsubscribePacket {
 
     // Unsubs
     for unsub in self.unsubscriptions.iter() {
-      writer.write_utf8_str(unsub);
+      writer.write_utf8_str(unsub)?;
     }
     Ok(writer.into_vec())
   }
-- 
2.43.0


From f8f1c508abcfd04b5c0da084ca979a5aea5f9f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 17/18] fix: do not encode packets of 4 GiB or more with a
 truncated length

---
 src/auth.rs         | 2 +-
 src/confirmation.rs | 2 +-
 src/connack.rs      | 2 +-
 src/connect.rs      | 2 +-
 src/disconnect.rs   | 2 +-
 src/mqtt_writer.rs  | 8 ++++++++
 src/publish.rs      | 2 +-
 src/suback.rs       | 2 +-
 src/subscribe.rs    | 2 +-
 src/unsuback.rs     | 2 +-
 src/unsubscribe.rs  | 2 +-
 11 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/auth.rs b/src/auth.rs
index 9e603af..14352d3 100644
--- a/src/auth.rs
+++ b/src/auth.rs
@@ -24,7 +24,7 @@ impl Packet for AuthPacket {
         writer.write_header(FixedHeader::for_type(PacketType::Auth));
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_remaining_length(length)?;
 
         // reason code
         writer.write_u8(self.reason_code.to_byte());
diff --git a/src/confirmation.rs b/src/confirmation.rs
index 6362920..f7823b2 100644
--- a/src/confirmation.rs
+++ b/src/confirmation.rs
@@ -242,7 +242,7 @@ impl Packet for ConfirmationPacket {
         writer.write_u8(header);
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_remaining_length(length)?;
 
         // Message ID
         writer.write_u16(*message_id);
diff --git a/src/connack.rs b/src/connack.rs
index 32af8fa..73b9f13 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -23,7 +23,7 @@ impl Packet for ConnackPacket {
         let mut writer = MqttWriter::new(length);
         writer.write_u8(FixedHeader::for_type(PacketType::Connack).encode());
         // length
-        writer.write_variable_num(length as u32)?;
+        writer.write_remaining_length(length)?;
         writer.write_u8(if self.session_present { 0x01 } else { 0x0 });
         writer.write_u8(rc);
         writer.write_sized(&properties_data, &props_len)?;
diff --git a/src/connect.rs b/src/connect.rs
index 6ce2e47..6d75861 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -131,7 +131,7 @@ impl Packet for ConnectPacket {
         // write header
         writer.write_u8(FixedHeader::for_type(PacketType::Connect).encode());
         // length
-        writer.write_variable_num(length as u32)?;
+        writer.write_remaining_length(length)?;
         // protocol id and protocol version
         let proto_vec = match protocol_id {
             Protocol::MQIsdp => MQISDP_BUF.to_vec(),
diff --git a/src/disconnect.rs b/src/disconnect.rs
index 26a8d79..b3cc469 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -47,7 +47,7 @@ impl Packet for DisconnectPacket {
         // Header
         writer.write_header(FixedHeader::for_type(PacketType::Disconnect));
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_remaining_length(length)?;
         // reason code in header
         if protocol_version == 5 {
             // no reason code means normal disconnection
diff --git a/src/mqtt_writer.rs b/src/mqtt_writer.rs
index 7626408..27141dc 100644
--- a/src/mqtt_writer.rs
+++ b/src/mqtt_writer.rs
@@ -121,6 +121,14 @@ impl MqttWriter {
         Ok(())
     }
 
+    /// remaining length of a packet
+    pub fn write_remaining_length(&mut self, length: usize) -> Res<()> {
+        if length > VARBYTEINT_MAX as usize {
+            return Err(format!("Invalid variable int {}", length));
+        }
+        self.write_variable_num(length as u32)
+    }
+
     pub fn write_utf8_string(&mut self, s: String) -> Res<()> {
         self.write_u16_len(s.len())?;
         for b in s.bytes() {
diff --git a/src/publish.rs b/src/publish.rs
index 851a4d1..ec84394 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -87,7 +87,7 @@ impl Packet for PublishPacket {
         });
 
         // Remaining length
-        writer.write_variable_num(length as u32)?;
+        writer.write_remaining_length(length)?;
 
         // Topic
         writer.write_utf8_str(topic)?;
diff --git a/src/suback.rs b/src/suback.rs
index b61ccff..72400f3 100644
--- a/src/suback.rs
+++ b/src/suback.rs
@@ -103,7 +103,7 @@ impl Packet for SubackPacket {
         writer.write_header(FixedHeader::for_type(PacketType::Suback));
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_remaining_length(length)?;
 
         // Message ID
         writer.write_u16(self.message_id);
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 59504fd..13c497c 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -120,7 +120,7 @@ impl Packet for SubscribePacket {
         });
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_remaining_length(length)?;
 
         // Message ID
         writer.write_u16(self.message_id);
diff --git a/src/unsuback.rs b/src/unsuback.rs
index dabb009..57a4804 100644
--- a/src/unsuback.rs
+++ b/src/unsuback.rs
@@ -23,7 +23,7 @@ impl Packet for UnsubackPacket {
         writer.write_header(FixedHeader::for_type(PacketType::Unsuback));
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_remaining_length(length)?;
 
         // Message ID
         writer.write_u16(self.message_id);
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index 107dd94..f6aeff1 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -28,7 +28,7 @@ impl Packet for UnsubscribePacket {
     writer.write_header(FixedHeader::for_type(PacketType::Unsubscribe));
 
     // Length
-    writer.write_variable_num(length as u32)?;
+    writer.write_remaining_length(length)?;
 
     // Message ID
     writer.write_u16(self.message_id);
-- 
2.43.0


From d1c90612f340a4341b2bcabcaaf58fa0bc7e6b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:11 +0000
Subject: [PATCH 18/18] fix: set the reserved flag bits of PUBREL in
 FixedHeader::encode

---
 src/structure/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structure/common.rs b/src/structure/common.rs
index 6076842..3a83e18 100644
--- a/src/structure/common.rs
+++ b/src/structure/common.rs
@@ -216,7 +216,7 @@ impl FixedHeader {
             PacketType::Publish => {
                 message_type | ((self.dup as u8) << 3) | (self.qos << 1) | self.retain as u8
             }
-            PacketType::Unsubscribe | PacketType::Subscribe => {
+            PacketType::Unsubscribe | PacketType::Subscribe | PacketType::Pubrel => {
                 message_type | 2 // Bits 3,2,1 and 0 need to ALWAYS be set to 0, 0, 1, 0 respectively
             }
             _ => message_type,
-- 
2.43.0

