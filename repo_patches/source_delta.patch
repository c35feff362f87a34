From d1628a59da65d4400016938233ef06fbad740967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:22 +0000
Subject: [PATCH 01/93] fix: decode within the announced frame only and wait
 for a complete fixed header

A packet decoder could read fields beyond its own frame when more bytes
followed it in the buffer (and underflow computing the PUBLISH payload),
and a fixed header split after its first byte or inside the remaining
length was reported as a parse error instead of as incomplete.
---
 src/mqtt_serde/control_packet.rs | 35 +++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_serde/control_packet.rs b/src/mqtt_serde/control_packet.rs
index 9102e57..328a64c 100644
--- a/src/mqtt_serde/control_packet.rs
+++ b/src/mqtt_serde/control_packet.rs
@@ -5,7 +5,7 @@ use std::convert::TryFrom;
 
 use super::encode_variable_length;
 use super::parser::packet_type;
-use super::parser::{ParseError, ParseOk};
+use super::parser::{parse_remaining_length, ParseError, ParseOk};
 
 use crate::mqtt_serde::mqttv3::*;
 use crate::mqtt_serde::mqttv5::*;
@@ -131,6 +131,10 @@ impl MqttPacket {
     pub fn from_bytes_v5(buffer: &[u8]) -> Result<ParseOk, ParseError> {
         let packet_type_byte = packet_type(buffer)?;
         let packet_type = ControlPacketType::try_from(packet_type_byte)?;
+        let buffer = match bound_to_frame(buffer)? {
+            Frame::Complete(frame) => frame,
+            Frame::Incomplete(hint) => return Ok(ParseOk::Continue(hint, 0)),
+        };
 
         match packet_type {
             ControlPacketType::CONNECT => connectv5::MqttConnect::from_bytes(buffer),
@@ -154,6 +158,10 @@ impl MqttPacket {
     pub fn from_bytes_v3(buffer: &[u8]) -> Result<ParseOk, ParseError> {
         let packet_type_byte = packet_type(buffer)?;
         let packet_type = ControlPacketType::try_from(packet_type_byte)?;
+        let buffer = match bound_to_frame(buffer)? {
+            Frame::Complete(frame) => frame,
+            Frame::Incomplete(hint) => return Ok(ParseOk::Continue(hint, 0)),
+        };
 
         match packet_type {
             ControlPacketType::CONNECT => connectv3::MqttConnect::from_bytes(buffer),
@@ -175,6 +183,31 @@ impl MqttPacket {
     }
 }
 
+enum Frame<'a> {
+    /// The bytes of the first packet, without whatever follows it.
+    Complete(&'a [u8]),
+    /// The packet is not complete; a hint for how many more bytes are needed.
+    Incomplete(usize),
+}
+
+/// Cuts `buffer` (which is not empty) down to its first packet, so that no field can be
+/// read past the length the fixed header announces.
+fn bound_to_frame(buffer: &[u8]) -> Result<Frame<'_>, ParseError> {
+    if buffer.len() < 2 {
+        return Ok(Frame::Incomplete(1));
+    }
+    let (remaining_len, vbi_len) = match parse_remaining_length(&buffer[1..]) {
+        Ok(v) => v,
+        Err(ParseError::More(hint, _)) => return Ok(Frame::Incomplete(hint)),
+        Err(e) => return Err(e),
+    };
+    let total_len = 1 + vbi_len + remaining_len;
+    match buffer.get(..total_len) {
+        Some(frame) => Ok(Frame::Complete(frame)),
+        None => Ok(Frame::Incomplete(total_len - buffer.len())),
+    }
+}
+
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
 pub enum ControlPacketType {
     CONNECT = 1,
-- 
2.43.0


From 21727b2dad239dca4dc1894c71aad8614c18ef3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:39 +0000
Subject: [PATCH 02/93] fix: accept MQTT 5 CONNECT with an empty user name,
 password or will payload

All three are legal (MQTT 5.0 3.1.3.4-3.1.3.6) and the encoder produces
them, but the decoder rejected the packet.
---
 src/mqtt_serde/mqttv5/connect.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/mqtt_serde/mqttv5/connect.rs b/src/mqtt_serde/mqttv5/connect.rs
index bb31e24..88eb285 100644
--- a/src/mqtt_serde/mqttv5/connect.rs
+++ b/src/mqtt_serde/mqttv5/connect.rs
@@ -257,9 +257,10 @@ impl MqttControlPacket for MqttConnect {
             // Will is present
             let (will, consumed) = Will::from_bytes(&buffer[offset..], connect_flags)?;
             offset += consumed;
-            if will.will_topic.is_empty() || will.will_message.is_empty() {
+            // The will payload may be empty (MQTT 5.0: 3.1.3.4), the will topic may not
+            if will.will_topic.is_empty() {
                 return Err(ParseError::ParseError(
-                    "Will topic or message cannot be empty".to_string(),
+                    "Will topic cannot be empty".to_string(),
                 ));
             }
             Some(will)
@@ -273,11 +274,6 @@ impl MqttControlPacket for MqttConnect {
             let (username, consumed) =
                 parse_utf8_string(buffer.get(offset..).ok_or(ParseError::BufferTooShort)?)?;
             offset += consumed;
-            if username.is_empty() {
-                return Err(ParseError::ParseError(
-                    "Username cannot be empty".to_string(),
-                ));
-            }
             Some(username.to_string())
         } else {
             None
@@ -287,11 +283,6 @@ impl MqttControlPacket for MqttConnect {
             let (password, consumed) =
                 parse_binary_data(buffer.get(offset..).ok_or(ParseError::BufferTooShort)?)?;
             offset += consumed;
-            if password.is_empty() {
-                return Err(ParseError::ParseError(
-                    "Password cannot be empty".to_string(),
-                ));
-            }
             Some(password)
         } else {
             None
-- 
2.43.0


From 4e862c22fad4c1eaeac63f71383af5e3d81ca886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:17 +0000
Subject: [PATCH 03/93] fix: refuse to encode values the wire format cannot
 carry

Strings and binary fields above 65535 bytes (MQTT 3.1.1), packets above the
maximum remaining length, subscription identifiers above 268435455 and QoS or
Retain Handling values outside their bits were truncated or bled into
neighbouring bits, yielding a different or malformed packet.
---
 src/mqtt_serde/control_packet.rs           | 15 +++++++++++++--
 src/mqtt_serde/mqttv3/connect.rs           | 20 +++++++++++---------
 src/mqtt_serde/mqttv3/publish.rs           |  8 ++++++--
 src/mqtt_serde/mqttv3/subscribe.rs         |  5 +++--
 src/mqtt_serde/mqttv3/unsubscribe.rs       |  5 +++--
 src/mqtt_serde/mqttv5/common/properties.rs |  4 ++++
 src/mqtt_serde/mqttv5/connect.rs           |  3 +++
 src/mqtt_serde/mqttv5/publish.rs           |  8 ++++++--
 src/mqtt_serde/mqttv5/subscribe.rs         |  6 ++++++
 src/mqtt_serde/parser/mod.rs               |  3 ++-
 10 files changed, 57 insertions(+), 20 deletions(-)

diff --git a/src/mqtt_serde/control_packet.rs b/src/mqtt_serde/control_packet.rs
index 328a64c..3659bf3 100644
--- a/src/mqtt_serde/control_packet.rs
+++ b/src/mqtt_serde/control_packet.rs
@@ -261,6 +261,9 @@ impl ControlPacketType {
     }
 }
 
+// MQTT 5.0: 1.5.5, largest value of a Variable Byte Integer
+pub(crate) const MAX_REMAINING_LENGTH: usize = 268_435_455;
+
 pub trait MqttControlPacket {
     // MQTT 5.0: 2.1.2, MQTT control packet type
     fn control_packet_type(&self) -> u8;
@@ -290,12 +293,20 @@ pub trait MqttControlPacket {
     // decoder
     fn from_bytes(buffer: &[u8]) -> Result<ParseOk, ParseError>;
 
+    // Like `fixed_header`, but refuses a length that no fixed header can announce.
+    fn checked_fixed_header(&self, len: usize) -> Result<Vec<u8>, ParseError> {
+        if len > MAX_REMAINING_LENGTH {
+            return Err(ParseError::InvalidLength);
+        }
+        Ok(self.fixed_header(len))
+    }
+
     // encoder to existing buffer
     fn encode_to_buffer(&self, bytes: &mut Vec<u8>) -> Result<(), ParseError> {
         let vhdr = self.variable_header()?;
         let payload = self.payload()?;
         let remaining_length = vhdr.len() + payload.len();
-        bytes.extend(self.fixed_header(remaining_length));
+        bytes.extend(self.checked_fixed_header(remaining_length)?);
         bytes.extend(vhdr);
         bytes.extend(payload);
         Ok(())
@@ -306,7 +317,7 @@ pub trait MqttControlPacket {
         let vhdr = self.variable_header()?;
         let payload = self.payload()?;
         let remaining_length = vhdr.len() + payload.len();
-        let fixed_hdr = self.fixed_header(remaining_length);
+        let fixed_hdr = self.checked_fixed_header(remaining_length)?;
 
         // Pre-allocate the entire packet size to avoid intermediate reallocations
         let mut bytes = Vec::with_capacity(fixed_hdr.len() + remaining_length);
diff --git a/src/mqtt_serde/mqttv3/connect.rs b/src/mqtt_serde/mqttv3/connect.rs
index fabbd3a..c550191 100644
--- a/src/mqtt_serde/mqttv3/connect.rs
+++ b/src/mqtt_serde/mqttv3/connect.rs
@@ -2,8 +2,9 @@
 
 use serde::{Deserialize, Serialize};
 
-use crate::mqtt_serde::base_data::{TwoByteInteger, Utf8String};
+use crate::mqtt_serde::base_data::TwoByteInteger;
 use crate::mqtt_serde::control_packet::{ControlPacketType, MqttControlPacket, MqttPacket};
+use crate::mqtt_serde::encode_binary_data;
 use crate::mqtt_serde::parser::{
     packet_type, parse_remaining_length, parse_utf8_string, ParseError, ParseOk,
 };
@@ -55,7 +56,7 @@ impl MqttControlPacket for MqttConnect {
     fn variable_header(&self) -> Result<Vec<u8>, ParseError> {
         let mut vh = Vec::new();
         // Protocol Name
-        vh.extend(Utf8String::encode(&self.protocol_name));
+        vh.extend(encode_binary_data(self.protocol_name.as_bytes())?);
         // Protocol Version
         vh.push(self.protocol_version);
 
@@ -65,6 +66,9 @@ impl MqttControlPacket for MqttConnect {
             flags |= 0x02;
         }
         if let Some(will) = &self.will {
+            if will.qos > 3 {
+                return Err(ParseError::ParseError("Invalid Will QoS level".to_string()));
+            }
             flags |= 0x04; // Will Flag
             flags |= will.qos << 3;
             if will.retain {
@@ -86,23 +90,21 @@ impl MqttControlPacket for MqttConnect {
 
     fn payload(&self) -> Result<Vec<u8>, ParseError> {
         let mut payload = Vec::new();
-        payload.extend(Utf8String::encode(&self.client_id));
+        payload.extend(encode_binary_data(self.client_id.as_bytes())?);
 
         if let Some(will) = &self.will {
-            payload.extend(Utf8String::encode(&will.topic));
+            payload.extend(encode_binary_data(will.topic.as_bytes())?);
             // Will message is a byte array, needs length prefix
-            payload.extend_from_slice(&TwoByteInteger::encode(will.message.len() as u16));
-            payload.extend_from_slice(&will.message);
+            payload.extend(encode_binary_data(&will.message)?);
         }
 
         if let Some(username) = &self.username {
-            payload.extend(Utf8String::encode(username));
+            payload.extend(encode_binary_data(username.as_bytes())?);
         }
 
         if let Some(password) = &self.password {
             // Password is a byte array, needs length prefix
-            payload.extend_from_slice(&TwoByteInteger::encode(password.len() as u16));
-            payload.extend_from_slice(password);
+            payload.extend(encode_binary_data(password)?);
         }
 
         Ok(payload)
diff --git a/src/mqtt_serde/mqttv3/publish.rs b/src/mqtt_serde/mqttv3/publish.rs
index b4a7099..54ae636 100644
--- a/src/mqtt_serde/mqttv3/publish.rs
+++ b/src/mqtt_serde/mqttv3/publish.rs
@@ -2,8 +2,9 @@
 
 use serde::{Deserialize, Serialize};
 
-use crate::mqtt_serde::base_data::{TwoByteInteger, Utf8String};
+use crate::mqtt_serde::base_data::TwoByteInteger;
 use crate::mqtt_serde::control_packet::{ControlPacketType, MqttControlPacket, MqttPacket};
+use crate::mqtt_serde::encode_binary_data;
 use crate::mqtt_serde::parser::{
     packet_type, parse_remaining_length, parse_utf8_string, ParseError, ParseOk,
 };
@@ -55,7 +56,10 @@ impl MqttControlPacket for MqttPublish {
     }
 
     fn variable_header(&self) -> Result<Vec<u8>, ParseError> {
-        let mut vh = Utf8String::encode(&self.topic_name);
+        if self.qos > 2 {
+            return Err(ParseError::ParseError("Invalid QoS level".to_string()));
+        }
+        let mut vh = encode_binary_data(self.topic_name.as_bytes())?;
         if self.qos > 0 {
             let msg_id = self.message_id.ok_or_else(|| {
                 ParseError::ParseError("Message ID is required for QoS > 0".to_string())
diff --git a/src/mqtt_serde/mqttv3/subscribe.rs b/src/mqtt_serde/mqttv3/subscribe.rs
index 001b4c1..641ab40 100644
--- a/src/mqtt_serde/mqttv3/subscribe.rs
+++ b/src/mqtt_serde/mqttv3/subscribe.rs
@@ -2,8 +2,9 @@
 
 use serde::{Deserialize, Serialize};
 
-use crate::mqtt_serde::base_data::{TwoByteInteger, Utf8String};
+use crate::mqtt_serde::base_data::TwoByteInteger;
 use crate::mqtt_serde::control_packet::{ControlPacketType, MqttControlPacket, MqttPacket};
+use crate::mqtt_serde::encode_binary_data;
 use crate::mqtt_serde::parser::{
     packet_type, parse_remaining_length, parse_utf8_string, ParseError, ParseOk,
 };
@@ -55,7 +56,7 @@ impl MqttControlPacket for MqttSubscribe {
     fn payload(&self) -> Result<Vec<u8>, ParseError> {
         let mut payload = Vec::new();
         for sub in &self.subscriptions {
-            payload.extend(Utf8String::encode(&sub.topic_filter));
+            payload.extend(encode_binary_data(sub.topic_filter.as_bytes())?);
             // QoS must be 0, 1, or 2.
             if sub.qos > 2 {
                 return Err(ParseError::ParseError("Invalid QoS level".to_string()));
diff --git a/src/mqtt_serde/mqttv3/unsubscribe.rs b/src/mqtt_serde/mqttv3/unsubscribe.rs
index 3a422d4..3303553 100644
--- a/src/mqtt_serde/mqttv3/unsubscribe.rs
+++ b/src/mqtt_serde/mqttv3/unsubscribe.rs
@@ -2,8 +2,9 @@
 
 use serde::{Deserialize, Serialize};
 
-use crate::mqtt_serde::base_data::{TwoByteInteger, Utf8String};
+use crate::mqtt_serde::base_data::TwoByteInteger;
 use crate::mqtt_serde::control_packet::{ControlPacketType, MqttControlPacket, MqttPacket};
+use crate::mqtt_serde::encode_binary_data;
 use crate::mqtt_serde::parser::{
     packet_type, parse_remaining_length, parse_utf8_string, ParseError, ParseOk,
 };
@@ -47,7 +48,7 @@ impl MqttControlPacket for MqttUnsubscribe {
     fn payload(&self) -> Result<Vec<u8>, ParseError> {
         let mut payload = Vec::new();
         for topic in &self.topic_filters {
-            payload.extend(Utf8String::encode(topic));
+            payload.extend(encode_binary_data(topic.as_bytes())?);
         }
         Ok(payload)
     }
diff --git a/src/mqtt_serde/mqttv5/common/properties.rs b/src/mqtt_serde/mqttv5/common/properties.rs
index 61bac52..c023ec1 100644
--- a/src/mqtt_serde/mqttv5/common/properties.rs
+++ b/src/mqtt_serde/mqttv5/common/properties.rs
@@ -2,6 +2,7 @@
 
 use serde::{Deserialize, Serialize};
 
+use crate::mqtt_serde::control_packet::MAX_REMAINING_LENGTH;
 use crate::mqtt_serde::parser;
 use crate::mqtt_serde::parser::{parse_utf8_string, ParseError};
 use crate::mqtt_serde::{decode_binary_data, encode_utf8_string, encode_variable_length};
@@ -94,6 +95,9 @@ impl Property {
                 bytes.extend(crate::mqtt_serde::encode_binary_data(val)?);
             }
             Property::SubscriptionIdentifier(val) => {
+                if *val as usize > MAX_REMAINING_LENGTH {
+                    return Err(ParseError::InvalidVariableByteInteger);
+                }
                 bytes.push(property_id(PropertyID::SubscriptionIdentifier));
                 bytes.extend(crate::mqtt_serde::encode_variable_length(*val as usize));
             }
diff --git a/src/mqtt_serde/mqttv5/connect.rs b/src/mqtt_serde/mqttv5/connect.rs
index 88eb285..fd51145 100644
--- a/src/mqtt_serde/mqttv5/connect.rs
+++ b/src/mqtt_serde/mqttv5/connect.rs
@@ -94,6 +94,9 @@ impl MqttControlPacket for MqttConnect {
         bytes.push(self.protocol_version);
 
         // MQTT 5.0: 3.1.2.3 connect flags
+        if self.will.as_ref().is_some_and(|will| will.will_qos > 3) {
+            return Err(ParseError::ParseError("Invalid Will QoS level".to_string()));
+        }
         bytes.push(self.connect_flags());
         bytes.extend(self.keep_alive.to_be_bytes());
 
diff --git a/src/mqtt_serde/mqttv5/publish.rs b/src/mqtt_serde/mqttv5/publish.rs
index 467be22..132a2dc 100644
--- a/src/mqtt_serde/mqttv5/publish.rs
+++ b/src/mqtt_serde/mqttv5/publish.rs
@@ -82,6 +82,10 @@ impl MqttControlPacket for MqttPublish {
     }
 
     fn variable_header(&self) -> Result<Vec<u8>, parser::ParseError> {
+        // MQTT 5.0: 3.3.1.2 QoS
+        if self.qos > 2 {
+            return Err(ParseError::ParseError("Invalid QoS level".to_string()));
+        }
         let mut bytes = Vec::new();
         // MQTT 5.0: 3.3.2.1 Topic Name
         bytes.extend(crate::mqtt_serde::encode_utf8_string(&self.topic_name)?);
@@ -116,7 +120,7 @@ impl MqttControlPacket for MqttPublish {
         let vhdr = self.variable_header()?;
         let remaining_length = vhdr.len() + self.payload.len();
 
-        bytes.extend(self.fixed_header(remaining_length));
+        bytes.extend(self.checked_fixed_header(remaining_length)?);
         bytes.extend(vhdr);
         bytes.extend_from_slice(&self.payload);
         Ok(())
@@ -228,7 +232,7 @@ impl MqttControlPacket for MqttPublish {
     fn to_bytes(&self) -> Result<Vec<u8>, ParseError> {
         let vhdr = self.variable_header()?;
         let remaining_length = vhdr.len() + self.payload.len();
-        let fixed_hdr = self.fixed_header(remaining_length);
+        let fixed_hdr = self.checked_fixed_header(remaining_length)?;
 
         let mut bytes = Vec::with_capacity(fixed_hdr.len() + remaining_length);
         bytes.extend(fixed_hdr);
diff --git a/src/mqtt_serde/mqttv5/subscribe.rs b/src/mqtt_serde/mqttv5/subscribe.rs
index 907b022..74873e1 100644
--- a/src/mqtt_serde/mqttv5/subscribe.rs
+++ b/src/mqtt_serde/mqttv5/subscribe.rs
@@ -90,6 +90,12 @@ impl TopicSubscription {
     pub fn to_bytes(&self) -> Result<Vec<u8>, ParseError> {
         let mut bytes = Vec::new();
 
+        if self.qos > 2 || self.retain_handling > 2 {
+            return Err(ParseError::ParseError(
+                "Invalid QoS or Retain Handling in Subscription Options".to_string(),
+            ));
+        }
+
         // Topic Filter (UTF-8 String)
         bytes.extend(encode_utf8_string(&self.topic_filter)?);
 
diff --git a/src/mqtt_serde/parser/mod.rs b/src/mqtt_serde/parser/mod.rs
index 2fffba3..8532014 100644
--- a/src/mqtt_serde/parser/mod.rs
+++ b/src/mqtt_serde/parser/mod.rs
@@ -2,6 +2,7 @@
 
 use super::control_packet::MqttPacket;
 use crate::mqtt_serde::base_data::{BinaryData, TwoByteInteger, Utf8String, VariableByteInteger};
+use crate::mqtt_serde::encode_binary_data;
 use std::error::Error;
 use std::fmt;
 use std::io::Error as IoError;
@@ -111,7 +112,7 @@ pub fn read_string(buffer: &[u8]) -> Result<(String, usize), ParseError> {
 }
 
 pub fn write_string(s: &str) -> Result<Vec<u8>, ParseError> {
-    Ok(Utf8String::encode(s))
+    encode_binary_data(s.as_bytes())
 }
 
 pub fn read_u8(buffer: &[u8]) -> Result<u8, ParseError> {
-- 
2.43.0


From 480924160ebd1ad551bfdc4544c5ae590350424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:42 +0000
Subject: [PATCH 04/93] fix: strict compliance rejects reserved fixed-header
 flags on every MQTT 5 packet

The flags were checked for some packet types only, and QoS or Retain Handling
3 in subscription options was accepted.
---
 src/mqtt_serde/control_packet.rs   | 22 ++++++++++++++++++++++
 src/mqtt_serde/mqttv5/subscribe.rs |  8 ++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/mqtt_serde/control_packet.rs b/src/mqtt_serde/control_packet.rs
index 3659bf3..339ec93 100644
--- a/src/mqtt_serde/control_packet.rs
+++ b/src/mqtt_serde/control_packet.rs
@@ -136,6 +136,10 @@ impl MqttPacket {
             Frame::Incomplete(hint) => return Ok(ParseOk::Continue(hint, 0)),
         };
 
+        // MQTT 5.0: 2.1.3, reserved flag bits
+        #[cfg(feature = "strict-protocol-compliance")]
+        check_fixed_header_flags(packet_type, buffer[0] & 0x0F)?;
+
         match packet_type {
             ControlPacketType::CONNECT => connectv5::MqttConnect::from_bytes(buffer),
             ControlPacketType::CONNACK => connackv5::MqttConnAck::from_bytes(buffer),
@@ -208,6 +212,24 @@ fn bound_to_frame(buffer: &[u8]) -> Result<Frame<'_>, ParseError> {
     }
 }
 
+#[cfg(feature = "strict-protocol-compliance")]
+fn check_fixed_header_flags(packet_type: ControlPacketType, flags: u8) -> Result<(), ParseError> {
+    let expected = match packet_type {
+        ControlPacketType::PUBLISH => return Ok(()), // DUP, QoS and RETAIN
+        ControlPacketType::PUBREL
+        | ControlPacketType::SUBSCRIBE
+        | ControlPacketType::UNSUBSCRIBE => 0x02,
+        _ => 0x00,
+    };
+    if flags != expected {
+        return Err(ParseError::ParseError(format!(
+            "Invalid {:?} flags: expected 0x{:02x}, got 0x{:02x}",
+            packet_type, expected, flags
+        )));
+    }
+    Ok(())
+}
+
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
 pub enum ControlPacketType {
     CONNECT = 1,
diff --git a/src/mqtt_serde/mqttv5/subscribe.rs b/src/mqtt_serde/mqttv5/subscribe.rs
index 74873e1..e1c040a 100644
--- a/src/mqtt_serde/mqttv5/subscribe.rs
+++ b/src/mqtt_serde/mqttv5/subscribe.rs
@@ -135,6 +135,14 @@ impl TopicSubscription {
         let (qos, no_local, retain_as_published, retain_handling) =
             Self::decode_subscription_options(options);
 
+        // MQTT 5.0: 3.8.3.1, a QoS or Retain Handling of 3 is a Protocol Error
+        #[cfg(feature = "strict-protocol-compliance")]
+        if qos == 3 || retain_handling == 3 {
+            return Err(ParseError::ParseError(
+                "SUBSCRIBE Maximum QoS and Retain Handling must not be 3".to_string(),
+            ));
+        }
+
         // MQTT 5.0 Protocol Compliance: No Local flag validation for Shared Subscriptions
         #[cfg(feature = "strict-protocol-compliance")]
         if no_local && topic_filter.starts_with("$share/") {
-- 
2.43.0


From 301af87d8cfbf1801fcfd04f662c41463a071c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:47 +0000
Subject: [PATCH 05/93] fix: strict compliance rejects received strings with a
 null character

Only the encoder validated strings; docs/PROTOCOL_COMPLIANCE.md promises
it for all of them.
---
 src/mqtt_serde/parser/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_serde/parser/mod.rs b/src/mqtt_serde/parser/mod.rs
index 8532014..5c525ff 100644
--- a/src/mqtt_serde/parser/mod.rs
+++ b/src/mqtt_serde/parser/mod.rs
@@ -86,7 +86,17 @@ pub fn parse_remaining_length(buffer: &[u8]) -> Result<(usize, usize), ParseErro
 
 // 1.5.4 UTF-8 Encoded String
 pub fn parse_utf8_string(buffer: &[u8]) -> Result<(String, usize), ParseError> {
-    Utf8String::decode(buffer)
+    let (s, consumed) = Utf8String::decode(buffer)?;
+
+    // [MQTT-1.5.4-2] A UTF-8 string must not include the null character
+    #[cfg(feature = "strict-protocol-compliance")]
+    if s.contains('\0') {
+        return Err(ParseError::ParseError(
+            "UTF-8 string contains null character (U+0000)".to_string(),
+        ));
+    }
+
+    Ok((s, consumed))
 }
 
 pub fn parse_topic_name(buffer: &[u8]) -> Result<ParseOk, ParseError> {
-- 
2.43.0


From f03df6ca80265ab48b28291e466c8828b0260025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:55 +0000
Subject: [PATCH 06/93] fix: detecting the MQTT version of an empty parser
 buffer is an error, not a panic

---
 src/mqtt_serde/parser/stream.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_serde/parser/stream.rs b/src/mqtt_serde/parser/stream.rs
index 05a863e..a76d16d 100644
--- a/src/mqtt_serde/parser/stream.rs
+++ b/src/mqtt_serde/parser/stream.rs
@@ -73,7 +73,10 @@ impl MqttParser {
         }
 
         // precheck if it's a CONNECT packet
-        if self.buffer[offset] != 0x10 {
+        let Some(first_byte) = self.buffer.get(offset) else {
+            return Err(ParseError::BufferTooShort);
+        };
+        if *first_byte != 0x10 {
             return Err(ParseError::ParseError(
                 "Expected CONNECT packet to determine MQTT version".to_string(),
             ));
-- 
2.43.0


From 5da2f9bf5fe6b9d52de460c6a0bf3446eaede84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:33 +0000
Subject: [PATCH 07/93] fix: resume in the order first sent and restart the
 retransmission timers

Sorting by the time last sent put packets out of order once one had been
retransmitted (and in arbitrary order after several were in one tick), and
MQTT 3.1.1 retransmitted again right after the resumption.
---
 src/mqtt_client/inflight.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index c708c45..8033a10 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -24,6 +24,8 @@ pub struct InflightEntry {
     /// stream). Retransmissions are routed back onto this same channel so the QoS
     /// 1/2 handshake never crosses streams.
     pub stream: Option<u64>,
+    /// Position in the order in which entries were first sent.
+    pub order: u64,
 }
 
 /// A queue for managing inflight QoS 1 and QoS 2 messages.
@@ -46,6 +48,8 @@ pub struct InflightQueue {
     retransmission_timeout: Duration,
     /// Current number of PUBLISH packets in the queue (for flow control)
     publish_count: usize,
+    /// `order` of the next entry
+    next_order: u64,
 }
 
 impl InflightQueue {
@@ -61,6 +65,7 @@ impl InflightQueue {
             mqtt_version,
             retransmission_timeout,
             publish_count: 0,
+            next_order: 0,
         }
     }
 
@@ -119,7 +124,9 @@ impl InflightQueue {
             retry_count: 0,
             qos,
             stream,
+            order: self.next_order,
         };
+        self.next_order += 1;
 
         self.entries.insert(packet_id, entry);
         // Only track deadlines for MQTT v3 which needs timeout-based retransmission
@@ -188,11 +195,23 @@ impl InflightQueue {
     }
 
     /// Get all messages to be re-sent upon reconnection (MQTT 3.1.1 and 5.0 with CleanStart=0)
-    pub fn get_all_for_reconnect(&self) -> Vec<MqttPacket> {
-        let mut all = self.entries.values().collect::<Vec<_>>();
-        // Sort by retry_count or original sent time if needed, but here we just send
-        all.sort_by_key(|e| e.sent_at);
-        all.into_iter().map(|e| e.packet.clone()).collect()
+    ///
+    /// Packets are returned in the order in which they were first sent, and their
+    /// retransmission timers start over.
+    pub fn get_all_for_reconnect(&mut self) -> Vec<MqttPacket> {
+        let now = Instant::now();
+        let mut all = self.entries.values_mut().collect::<Vec<_>>();
+        all.sort_by_key(|e| e.order);
+        self.deadline_queue.clear();
+        let mut packets = Vec::with_capacity(all.len());
+        for entry in all {
+            entry.sent_at = now;
+            if self.mqtt_version != 5 {
+                self.deadline_queue.push_back((entry.packet_id, now));
+            }
+            packets.push(entry.packet.clone());
+        }
+        packets
     }
 
     /// Get the earliest expiration time for any inflight message
-- 
2.43.0


From b2ff47690f0989fa7eb93f2b429fd68036141dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 08/93] fix: count a publish against the Receive Maximum until
 its final acknowledgement

A QoS 2 publish released its quota at PUBREC, QoS 0 publishes waited for quota
they do not need, reusing an identifier leaked quota, and the limit of an earlier
CONNACK stayed in force on the next connection.
---
 src/mqtt_client/engine.rs   | 14 ++++++++++----
 src/mqtt_client/inflight.rs | 32 +++++++++++++++++++++++++-------
 2 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index ba2b7d6..c2bc449 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -932,7 +932,10 @@ impl MqttEngine {
                     properties: ack.properties.clone(),
                 }));
 
-                // Update receive_maximum from CONNACK properties if present
+                // Update receive_maximum from CONNACK properties if present. A value
+                // from an earlier connection does not carry over.
+                self.inflight_queue
+                    .reset_receive_maximum(self.options.receive_maximum);
                 if let Some(props) = &ack.properties {
                     for prop in props {
                         if let Property::ReceiveMaximum(max) = prop {
@@ -1221,9 +1224,12 @@ impl MqttEngine {
 
         while self.outgoing_buffer.len() < self.options.max_outgoing_packet_count {
             if let Some((_priority, packet)) = self.priority_queue.peek() {
-                let is_publish =
-                    matches!(packet, MqttPacket::Publish5(_) | MqttPacket::Publish3(_));
-                if is_publish && !self.inflight_queue.can_push_publish() {
+                let needs_quota = match packet {
+                    MqttPacket::Publish5(p) => p.qos > 0,
+                    MqttPacket::Publish3(p) => p.qos > 0,
+                    _ => false,
+                };
+                if needs_quota && !self.inflight_queue.can_push_publish() {
                     break;
                 }
 
diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index 8033a10..1214282 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -46,7 +46,7 @@ pub struct InflightQueue {
     mqtt_version: u8,
     /// Default retransmission timeout
     retransmission_timeout: Duration,
-    /// Current number of PUBLISH packets in the queue (for flow control)
+    /// Current number of publishes not finally acknowledged (for flow control)
     publish_count: usize,
     /// `order` of the next entry
     next_order: u64,
@@ -69,11 +69,28 @@ impl InflightQueue {
         }
     }
 
+    /// A publish counts against the Receive Maximum until PUBACK or PUBCOMP, so a
+    /// QoS 2 exchange still does while its PUBREL is outstanding.
+    fn holds_quota(packet: &MqttPacket) -> bool {
+        matches!(
+            packet,
+            MqttPacket::Publish5(_)
+                | MqttPacket::Publish3(_)
+                | MqttPacket::PubRel5(_)
+                | MqttPacket::PubRel3(_)
+        )
+    }
+
     /// Check if another PUBLISH message can be sent
     pub fn can_push_publish(&self) -> bool {
         self.publish_count < self.receive_maximum as usize
     }
 
+    /// Return to the configured limit (0 means no limit), for a new connection.
+    pub fn reset_receive_maximum(&mut self, configured: u16) {
+        self.receive_maximum = if configured == 0 { 65535 } else { configured };
+    }
+
     /// Update the receive maximum limit (e.g., from CONNACK)
     pub fn update_receive_maximum(&mut self, receive_maximum: u16) {
         if receive_maximum > 0 {
@@ -113,7 +130,7 @@ impl InflightQueue {
         }
 
         let now = Instant::now();
-        if matches!(packet, MqttPacket::Publish5(_) | MqttPacket::Publish3(_)) {
+        if Self::holds_quota(&packet) {
             self.publish_count += 1;
         }
 
@@ -128,7 +145,11 @@ impl InflightQueue {
         };
         self.next_order += 1;
 
-        self.entries.insert(packet_id, entry);
+        if let Some(replaced) = self.entries.insert(packet_id, entry) {
+            if Self::holds_quota(&replaced.packet) {
+                self.publish_count -= 1;
+            }
+        }
         // Only track deadlines for MQTT v3 which needs timeout-based retransmission
         // MQTT v5 forbids retransmission, so deadline_queue is not needed
         if self.mqtt_version != 5 {
@@ -140,10 +161,7 @@ impl InflightQueue {
     /// Acknowledge a message (PUBACK, PUBREL, etc.)
     pub fn acknowledge(&mut self, packet_id: u16) -> Option<InflightEntry> {
         if let Some(entry) = self.entries.remove(&packet_id) {
-            if matches!(
-                entry.packet,
-                MqttPacket::Publish5(_) | MqttPacket::Publish3(_)
-            ) {
+            if Self::holds_quota(&entry.packet) {
                 self.publish_count -= 1;
             }
             Some(entry)
-- 
2.43.0


From bb868b144dfd43cbe4c9bdd7ffc48acb806b1d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 09/93] fix: an acknowledgement completes only the exchange it
 can answer

Any ack removed whatever was in flight under its identifier, so a SUBACK could
swallow a publish and a PUBCOMP could complete one still waiting for PUBREC.
---
 src/mqtt_client/engine.rs   | 54 ++++++++++++++++++++++++++++++-------
 src/mqtt_client/inflight.rs | 14 ++++++++++
 2 files changed, 58 insertions(+), 10 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index c2bc449..69da72a 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -981,7 +981,10 @@ impl MqttEngine {
                 }
             }
             MqttPacket::PubAck5(ack) => {
-                if let Some(entry) = self.inflight_queue.acknowledge(ack.packet_id) {
+                if let Some(entry) = self
+                    .inflight_queue
+                    .acknowledge_if(ack.packet_id, is_publish_with_qos::<1>)
+                {
                     events.push(MqttEvent::Published(PublishResult {
                         packet_id: Some(ack.packet_id),
                         reason_code: Some(ack.reason_code),
@@ -991,7 +994,10 @@ impl MqttEngine {
                 }
             }
             MqttPacket::PubAck3(ack) => {
-                if let Some(entry) = self.inflight_queue.acknowledge(ack.message_id) {
+                if let Some(entry) = self
+                    .inflight_queue
+                    .acknowledge_if(ack.message_id, is_publish_with_qos::<1>)
+                {
                     events.push(MqttEvent::Published(PublishResult {
                         packet_id: Some(ack.message_id),
                         reason_code: Some(0), // v3 has no reason code in PUBACK
@@ -1053,7 +1059,8 @@ impl MqttEngine {
                 }
             }
             MqttPacket::SubAck5(ack) => {
-                self.inflight_queue.acknowledge(ack.packet_id);
+                self.inflight_queue
+                    .acknowledge_if(ack.packet_id, |p| matches!(p, MqttPacket::Subscribe5(_)));
                 events.push(MqttEvent::Subscribed(SubscribeResult {
                     packet_id: ack.packet_id,
                     reason_codes: ack.reason_codes,
@@ -1061,7 +1068,8 @@ impl MqttEngine {
                 }));
             }
             MqttPacket::SubAck3(ack) => {
-                self.inflight_queue.acknowledge(ack.message_id);
+                self.inflight_queue
+                    .acknowledge_if(ack.message_id, |p| matches!(p, MqttPacket::Subscribe3(_)));
                 events.push(MqttEvent::Subscribed(SubscribeResult {
                     packet_id: ack.message_id,
                     reason_codes: ack.return_codes,
@@ -1069,7 +1077,8 @@ impl MqttEngine {
                 }));
             }
             MqttPacket::UnsubAck5(ack) => {
-                self.inflight_queue.acknowledge(ack.packet_id);
+                self.inflight_queue
+                    .acknowledge_if(ack.packet_id, |p| matches!(p, MqttPacket::Unsubscribe5(_)));
                 events.push(MqttEvent::Unsubscribed(UnsubscribeResult {
                     packet_id: ack.packet_id,
                     reason_codes: ack.reason_codes,
@@ -1077,7 +1086,8 @@ impl MqttEngine {
                 }));
             }
             MqttPacket::UnsubAck3(ack) => {
-                self.inflight_queue.acknowledge(ack.message_id);
+                self.inflight_queue
+                    .acknowledge_if(ack.message_id, |p| matches!(p, MqttPacket::Unsubscribe3(_)));
                 events.push(MqttEvent::Unsubscribed(UnsubscribeResult {
                     packet_id: ack.message_id,
                     reason_codes: Vec::new(),
@@ -1089,7 +1099,10 @@ impl MqttEngine {
                 events.push(MqttEvent::PingResponse(PingResult { success: true }));
             }
             MqttPacket::PubRec5(rec) => {
-                if let Some(mut entry) = self.inflight_queue.acknowledge(rec.packet_id) {
+                if let Some(mut entry) = self
+                    .inflight_queue
+                    .acknowledge_if(rec.packet_id, |p| is_publish_with_qos::<2>(p) || is_pubrel(p))
+                {
                     let rel = MqttPacket::PubRel5(MqttPubRel::new(rec.packet_id, 0, Vec::new()));
                     // Update entry to store PUBREL for retransmission
                     entry.packet = rel.clone();
@@ -1104,7 +1117,10 @@ impl MqttEngine {
                 }
             }
             MqttPacket::PubRec3(rec) => {
-                if let Some(mut entry) = self.inflight_queue.acknowledge(rec.message_id) {
+                if let Some(mut entry) = self
+                    .inflight_queue
+                    .acknowledge_if(rec.message_id, |p| is_publish_with_qos::<2>(p) || is_pubrel(p))
+                {
                     let rel = MqttPacket::PubRel3(pubrelv3::MqttPubRel::new(rec.message_id));
                     // Update entry to store PUBREL for retransmission
                     entry.packet = rel.clone();
@@ -1143,7 +1159,10 @@ impl MqttEngine {
                 }
             }
             MqttPacket::PubComp5(comp) => {
-                if let Some(entry) = self.inflight_queue.acknowledge(comp.packet_id) {
+                if let Some(entry) = self
+                    .inflight_queue
+                    .acknowledge_if(comp.packet_id, is_pubrel)
+                {
                     events.push(MqttEvent::Published(PublishResult {
                         packet_id: Some(comp.packet_id),
                         reason_code: Some(comp.reason_code),
@@ -1153,7 +1172,10 @@ impl MqttEngine {
                 }
             }
             MqttPacket::PubComp3(comp) => {
-                if let Some(entry) = self.inflight_queue.acknowledge(comp.message_id) {
+                if let Some(entry) = self
+                    .inflight_queue
+                    .acknowledge_if(comp.message_id, is_pubrel)
+                {
                     events.push(MqttEvent::Published(PublishResult {
                         packet_id: Some(comp.message_id),
                         reason_code: Some(0),
@@ -1277,6 +1299,18 @@ impl MqttEngine {
     }
 }
 
+fn is_publish_with_qos<const QOS: u8>(packet: &MqttPacket) -> bool {
+    match packet {
+        MqttPacket::Publish5(p) => p.qos == QOS,
+        MqttPacket::Publish3(p) => p.qos == QOS,
+        _ => false,
+    }
+}
+
+fn is_pubrel(packet: &MqttPacket) -> bool {
+    matches!(packet, MqttPacket::PubRel5(_) | MqttPacket::PubRel3(_))
+}
+
 /// State for a single QUIC data stream used by [`QuicMqttEngine`].
 ///
 /// Every QUIC stream is an independent, ordered byte stream that carries its own
diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index 1214282..92f8023 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -170,6 +170,20 @@ impl InflightQueue {
         }
     }
 
+    /// Like [`acknowledge`](Self::acknowledge), but only if the packet in flight under
+    /// this identifier is one the acknowledgement can answer.
+    pub fn acknowledge_if(
+        &mut self,
+        packet_id: u16,
+        answers: impl FnOnce(&MqttPacket) -> bool,
+    ) -> Option<InflightEntry> {
+        if answers(&self.entries.get(&packet_id)?.packet) {
+            self.acknowledge(packet_id)
+        } else {
+            None
+        }
+    }
+
     /// Get all expired messages that need retransmission (MQTT 3.1.1 only).
     /// This is a BAD design in MQTT 3.1.1
     pub fn get_expired(&mut self, now: Instant) -> Vec<MqttPacket> {
-- 
2.43.0


From 72f473342b7230665e6fd4fc694f9d270417a890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:13 +0000
Subject: [PATCH 10/93] fix: a PUBREC with an error reason completes the
 publish without PUBREL

---
 src/mqtt_client/engine.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 69da72a..f2139ea 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1103,6 +1103,16 @@ impl MqttEngine {
                     .inflight_queue
                     .acknowledge_if(rec.packet_id, |p| is_publish_with_qos::<2>(p) || is_pubrel(p))
                 {
+                    if rec.reason_code >= 0x80 {
+                        // MQTT 5.0: 4.3.3, a failing PUBREC ends the exchange
+                        events.push(MqttEvent::Published(PublishResult {
+                            packet_id: Some(rec.packet_id),
+                            reason_code: Some(rec.reason_code),
+                            properties: Some(rec.properties),
+                            qos: entry.qos,
+                        }));
+                        return (events, responses);
+                    }
                     let rel = MqttPacket::PubRel5(MqttPubRel::new(rec.packet_id, 0, Vec::new()));
                     // Update entry to store PUBREL for retransmission
                     entry.packet = rel.clone();
-- 
2.43.0


From 4fc4c78d069e019400a46e2491a372ca510d7d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:47 +0000
Subject: [PATCH 11/93] fix: never allocate a packet identifier that is queued
 or in flight

After wrap-around the counter handed out identifiers of exchanges still open,
which were then overwritten.
---
 src/mqtt_client/engine.rs   | 13 ++++++++++++-
 src/mqtt_client/inflight.rs |  5 +++++
 src/priority_queue.rs       |  5 +++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index f2139ea..7dcbe22 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1305,7 +1305,18 @@ impl MqttEngine {
             .ok_or(MqttClientError::ProtocolViolation {
                 message: "No session available for packet ID allocation".into(),
             })?;
-        Ok(session.next_packet_id())
+        for _ in 0..u16::MAX {
+            let pid = session.next_packet_id();
+            let queued = |packet: &MqttPacket| match packet {
+                MqttPacket::Publish5(p) => p.qos > 0 && p.packet_id == Some(pid),
+                MqttPacket::Publish3(p) => p.qos > 0 && p.message_id == Some(pid),
+                _ => false,
+            };
+            if !self.inflight_queue.contains(pid) && !self.priority_queue.iter().any(queued) {
+                return Ok(pid);
+            }
+        }
+        Err(MqttClientError::PacketIdExhausted)
     }
 }
 
diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index 92f8023..3d2d27e 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -266,6 +266,11 @@ impl InflightQueue {
         self.publish_count = 0;
     }
 
+    /// Whether an exchange with this identifier awaits an acknowledgement
+    pub fn contains(&self, packet_id: u16) -> bool {
+        self.entries.contains_key(&packet_id)
+    }
+
     pub fn len(&self) -> usize {
         self.entries.len()
     }
diff --git a/src/priority_queue.rs b/src/priority_queue.rs
index 7698d23..0bb9a60 100644
--- a/src/priority_queue.rs
+++ b/src/priority_queue.rs
@@ -80,6 +80,11 @@ where
         Some((prio, item))
     }
 
+    /// Iterates over the queued elements, in no particular order.
+    pub fn iter(&self) -> impl Iterator<Item = &T> {
+        self.map.values().flatten()
+    }
+
     /// Current number of elements in the queue.
     pub fn len(&self) -> usize {
         self.size
-- 
2.43.0


From dfccf5649862583e84e736472bd5836c7a4f70ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:18 +0000
Subject: [PATCH 12/93] fix: connect starts from a clean transport state

Bytes queued for or half read from an earlier connection were sent before, or
parsed together with, those of the new one.
---
 src/mqtt_client/engine.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 7dcbe22..cb39837 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -552,6 +552,10 @@ impl MqttEngine {
             return;
         }
 
+        // CONNECT is the first packet of a connection: nothing read from or queued
+        // for an earlier one may take part in this one.
+        self.reset_for_new_transport();
+
         // Initialize session if needed
         if self.session.is_none() {
             self.session = Some(ClientSession::new());
-- 
2.43.0


From eb06d33c96dcca6c707f50df26bfeef3b8154d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 13/93] fix: CONNECT carries the configured will, credentials
 and MQTT 5 properties

---
 src/mqtt_client/engine.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index cb39837..ee549a9 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -566,24 +566,54 @@ impl MqttEngine {
                 self.options.client_id.clone(),
                 self.options.username.clone(),
                 self.options.password.clone(),
-                None, // Will
+                self.options.will.clone(),
                 self.options.keep_alive,
                 self.options.clean_start,
-                Vec::new(), // Properties
+                self.connect_properties(),
             );
             MqttPacket::Connect5(connect)
         } else {
-            let connect = connectv3::MqttConnect::new(
+            let mut connect = connectv3::MqttConnect::new(
                 self.options.client_id.clone(),
                 self.options.keep_alive,
                 self.options.clean_start,
             );
+            connect.will = self.options.will.as_ref().map(|will| connectv3::Will {
+                retain: will.will_retain,
+                qos: will.will_qos,
+                topic: will.will_topic.clone(),
+                message: will.will_message.clone(),
+            });
+            connect.username = self.options.username.clone();
+            // MQTT 3.1.1: 3.1.2.9, no password without a user name
+            if connect.username.is_some() {
+                connect.password = self.options.password.clone();
+            }
             MqttPacket::Connect3(connect)
         };
 
         let _ = self.enqueue_packet(packet);
     }
 
+    /// The CONNECT properties the options ask for (MQTT 5).
+    fn connect_properties(&self) -> Vec<Property> {
+        let options = &self.options;
+        let mut properties = Vec::new();
+        if let Some(interval) = options.session_expiry_interval {
+            properties.push(Property::SessionExpiryInterval(interval));
+        }
+        if let Some(size) = options.maximum_packet_size {
+            properties.push(Property::MaximumPacketSize(size));
+        }
+        if let Some(request) = options.request_response_information {
+            properties.push(Property::RequestResponseInformation(request as u8));
+        }
+        if let Some(request) = options.request_problem_information {
+            properties.push(Property::RequestProblemInformation(request as u8));
+        }
+        properties
+    }
+
     /// Queue a PUBLISH packet.
     ///
     /// - **QoS 0**: ID is usually None (unless needed for tracing).
-- 
2.43.0


From 37777e25a7dfb4690bcc4975299e5b22d3a9ec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 14/93] fix: deliver a QoS 2 message re-sent before its PUBREL
 only once

---
 src/mqtt_client/engine.rs | 48 ++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index ee549a9..a65f635 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -16,7 +16,7 @@ use rustls::{
 };
 #[cfg(feature = "quic-proto")]
 use std::collections::HashMap;
-use std::collections::VecDeque;
+use std::collections::{HashSet, VecDeque};
 use std::time::{Duration, Instant};
 #[cfg(feature = "quic-proto")]
 use std::{
@@ -212,6 +212,10 @@ pub struct MqttEngine {
     // Pending operations tracking (state only)
     inflight_queue: InflightQueue,
 
+    // Incoming QoS 2 publishes acknowledged automatically and not yet released by
+    // PUBREL; a re-sent one is acknowledged again but not delivered again.
+    incoming_qos2: HashSet<u16>,
+
     events: Vec<MqttEvent>,
 
     // Reconnection state
@@ -246,6 +250,7 @@ impl MqttEngine {
                 options.mqtt_version,
                 retransmission_timeout,
             ),
+            incoming_qos2: HashSet::new(),
             session: None,
             priority_queue: PriorityQueue::new(1000),
             is_connected: false,
@@ -959,6 +964,9 @@ impl MqttEngine {
                 self.is_connected = ack.reason_code == 0;
                 if self.is_connected {
                     self.reset_reconnect_state();
+                    if !ack.session_present {
+                        self.incoming_qos2.clear();
+                    }
                 }
                 events.push(MqttEvent::Connected(ConnectionResult {
                     reason_code: ack.reason_code,
@@ -995,6 +1003,9 @@ impl MqttEngine {
                 self.is_connected = ack.return_code == 0;
                 if self.is_connected {
                     self.reset_reconnect_state();
+                    if !ack.session_present {
+                        self.incoming_qos2.clear();
+                    }
                 }
                 events.push(MqttEvent::Connected(ConnectionResult {
                     reason_code: ack.return_code,
@@ -1043,11 +1054,13 @@ impl MqttEngine {
             MqttPacket::Publish5(p) => {
                 let qos = p.qos;
                 let pid = p.packet_id;
-                events.push(MqttEvent::PublishReceived {
-                    packet_id: pid,
-                    stream,
-                });
-                events.push(MqttEvent::MessageReceived(p));
+                if !self.is_unreleased_qos2(qos, pid) {
+                    events.push(MqttEvent::PublishReceived {
+                        packet_id: pid,
+                        stream,
+                    });
+                    events.push(MqttEvent::MessageReceived(p));
+                }
 
                 if self.options.auto_ack && qos == 1 {
                     if let Some(pid) = pid {
@@ -1072,11 +1085,13 @@ impl MqttEngine {
                     p.dup,
                     Vec::new(),
                 );
-                events.push(MqttEvent::PublishReceived {
-                    packet_id: pid,
-                    stream,
-                });
-                events.push(MqttEvent::MessageReceived(p5));
+                if !self.is_unreleased_qos2(qos, pid) {
+                    events.push(MqttEvent::PublishReceived {
+                        packet_id: pid,
+                        stream,
+                    });
+                    events.push(MqttEvent::MessageReceived(p5));
+                }
 
                 if self.options.auto_ack && qos == 1 {
                     if let Some(pid) = pid {
@@ -1184,6 +1199,7 @@ impl MqttEngine {
                     stream,
                 });
                 if self.options.auto_ack {
+                    self.incoming_qos2.remove(&rel.packet_id);
                     responses.push(MqttPacket::PubComp5(MqttPubComp::new(
                         rel.packet_id,
                         0,
@@ -1197,6 +1213,7 @@ impl MqttEngine {
                     stream,
                 });
                 if self.options.auto_ack {
+                    self.incoming_qos2.remove(&rel.message_id);
                     responses.push(MqttPacket::PubComp3(
                         crate::mqtt_serde::mqttv3::pubcomp::MqttPubComp::new(rel.message_id),
                     ));
@@ -1237,6 +1254,15 @@ impl MqttEngine {
         (events, responses)
     }
 
+    /// Whether an incoming PUBLISH is a QoS 2 message already delivered and not yet
+    /// released by PUBREL (only tracked when acknowledging automatically).
+    fn is_unreleased_qos2(&mut self, qos: u8, packet_id: Option<u16>) -> bool {
+        match packet_id {
+            Some(pid) if qos == 2 && self.options.auto_ack => !self.incoming_qos2.insert(pid),
+            _ => false,
+        }
+    }
+
     fn pingreq_packet(&self) -> MqttPacket {
         if self.options.mqtt_version == 5 {
             MqttPacket::PingReq5(pingreqv5::MqttPingReq::new())
-- 
2.43.0


From 29e66084e9216b4a7b41c62f3b0b319e96363253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 15/93] fix: a full outgoing buffer neither drops
 acknowledgements nor leaks a refused subscribe

---
 src/mqtt_client/engine.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index a65f635..45b5a9b 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -389,8 +389,13 @@ impl MqttEngine {
                     self.events.extend(packet_events);
                     // Single-stream transports (TCP/TLS, QUIC control stream) send
                     // responses back over the same shared outgoing buffer.
+                    // The limit on outgoing packets is for the application's own: an
+                    // acknowledgement that is not sent now would never be sent.
                     for response in responses {
-                        let _ = self.enqueue_packet(response);
+                        if let Ok(bytes) = response.to_bytes() {
+                            self.outgoing_buffer.push_back(bytes);
+                            self.last_packet_sent = Instant::now();
+                        }
                     }
                 }
                 Ok(None) => break,
@@ -787,8 +792,8 @@ impl MqttEngine {
             MqttPacket::Subscribe3(subscribev3::MqttSubscribe::new(pid, v3_subs))
         };
 
-        self.inflight_queue.push(pid, packet.clone(), 1)?;
-        self.enqueue_packet(packet)?;
+        self.enqueue_packet(packet.clone())?;
+        self.inflight_queue.push(pid, packet, 1)?;
         Ok(pid)
     }
 
@@ -811,8 +816,8 @@ impl MqttEngine {
             MqttPacket::Unsubscribe3(unsubscribev3::MqttUnsubscribe::new(pid, command.topics))
         };
 
-        self.inflight_queue.push(pid, packet.clone(), 1)?;
-        self.enqueue_packet(packet)?;
+        self.enqueue_packet(packet.clone())?;
+        self.inflight_queue.push(pid, packet, 1)?;
         Ok(pid)
     }
 
-- 
2.43.0


From 3e24dad66c1695d16fca65744a3d75afd3e8a88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:54 +0000
Subject: [PATCH 16/93] fix: a retransmission timeout of zero no longer loops
 forever

---
 src/mqtt_client/inflight.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index 3d2d27e..ca4be0d 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -204,7 +204,11 @@ impl InflightQueue {
             return expired;
         }
 
-        while let Some(&(pid, sent_at)) = self.deadline_queue.front() {
+        // Each deadline once: with a timeout of zero a re-queued one is due again
+        for _ in 0..self.deadline_queue.len() {
+            let Some(&(pid, sent_at)) = self.deadline_queue.front() else {
+                break;
+            };
             if now.duration_since(sent_at) < self.retransmission_timeout {
                 break;
             }
-- 
2.43.0


From aaaf26468a8146a931976c8fe5c0886fbc03af23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:45 +0000
Subject: [PATCH 17/93] fix: a later ping does not put off the timeout of an
 unanswered one

---
 src/mqtt_client/engine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 45b5a9b..26ed0ba 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1292,7 +1292,8 @@ impl MqttEngine {
         let packet = self.pingreq_packet();
         self.enqueue_packet(packet)?;
         self.last_packet_sent = now;
-        self.ping_sent_at = Some(now);
+        // The timeout runs from the oldest unanswered ping
+        self.ping_sent_at.get_or_insert(now);
         Ok(())
     }
 
-- 
2.43.0


From 1ca0efaf6fb99926305c92c234720deb2a24e4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:23 +0000
Subject: [PATCH 18/93] fix: publishes waiting for room in the outgoing buffer
 are sent once it is drained

---
 src/mqtt_client/engine.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 26ed0ba..abae278 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -546,8 +546,13 @@ impl MqttEngine {
     /// Clears the internal outgoing buffer.
     pub fn take_outgoing(&mut self) -> Vec<u8> {
         let mut all_bytes = Vec::new();
-        while let Some(packet) = self.outgoing_buffer.pop_front() {
-            all_bytes.extend(packet);
+        while !self.outgoing_buffer.is_empty() {
+            while let Some(packet) = self.outgoing_buffer.pop_front() {
+                all_bytes.extend(packet);
+            }
+            // Publishes that waited for room go out too: nothing else may come to
+            // move them on.
+            self.process_queue();
         }
         all_bytes
     }
-- 
2.43.0


From dcc1444a002b9f545bbc00a265ea841d94a86595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:58 +0000
Subject: [PATCH 19/93] fix: a packet from an earlier connection is not resent
 on a stream of the new one

---
 src/mqtt_client/engine.rs   | 1 +
 src/mqtt_client/inflight.rs | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index abae278..a7d4349 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -303,6 +303,7 @@ impl MqttEngine {
         self.is_connected = false;
         self.outgoing_buffer.clear();
         self.stream_retransmissions.clear();
+        self.inflight_queue.forget_streams();
         self.parser = MqttParser::new(self.options.parser_buffer_size, self.options.mqtt_version);
         // Cancel any pending reconnect deadline so it cannot fire another
         // ReconnectNeeded while a new transport handshake is in progress. The
diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index ca4be0d..b8e1573 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -250,6 +250,14 @@ impl InflightQueue {
         packets
     }
 
+    /// Forget the logical channels of an earlier connection: the same handle means
+    /// another channel, or none, on the next one.
+    pub fn forget_streams(&mut self) {
+        for entry in self.entries.values_mut() {
+            entry.stream = None;
+        }
+    }
+
     /// Get the earliest expiration time for any inflight message
     pub fn next_expiration(&self) -> Option<Instant> {
         // MQTT v5.0: MUST NOT retransmit while connection is active
-- 
2.43.0


From 05ae4b370ad33fb73e4f5f0b7f94f4fb944ec1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:50 +0000
Subject: [PATCH 20/93] fix: raw packet edits beyond the end do not panic

---
 src/mqtt_client/raw_packet.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mqtt_client/raw_packet.rs b/src/mqtt_client/raw_packet.rs
index 56ad6c7..edf7d1f 100644
--- a/src/mqtt_client/raw_packet.rs
+++ b/src/mqtt_client/raw_packet.rs
@@ -236,7 +236,7 @@ impl RawPacketBuilder {
     ///
     /// # Arguments
     ///
-    /// * `position` - Where to insert the bytes
+    /// * `position` - Where to insert the bytes (at the end if beyond it)
     /// * `bytes` - Bytes to insert
     ///
     /// # Example
@@ -257,6 +257,7 @@ impl RawPacketBuilder {
     /// # }
     /// ```
     pub fn insert_bytes(&mut self, position: usize, bytes: &[u8]) -> &mut Self {
+        let position = position.min(self.bytes.len());
         self.bytes.splice(position..position, bytes.iter().copied());
         self
     }
@@ -265,7 +266,7 @@ impl RawPacketBuilder {
     ///
     /// # Arguments
     ///
-    /// * `position` - Where to start removing
+    /// * `position` - Where to start removing (nothing is removed beyond the end)
     /// * `count` - Number of bytes to remove
     ///
     /// # Example
@@ -277,7 +278,8 @@ impl RawPacketBuilder {
     /// builder.remove_bytes(2, 2); // Remove extra bytes
     /// ```
     pub fn remove_bytes(&mut self, position: usize, count: usize) -> &mut Self {
-        let end = (position + count).min(self.bytes.len());
+        let position = position.min(self.bytes.len());
+        let end = position.saturating_add(count).min(self.bytes.len());
         self.bytes.drain(position..end);
         self
     }
-- 
2.43.0


From a3ee364fcd79c887da7cc9c92eb1fa5dda644514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:50 +0000
Subject: [PATCH 21/93] fix: malformed packet generators make whole packets
 with the defect they name

---
 src/mqtt_client/raw_packet/malformed.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/mqtt_client/raw_packet/malformed.rs b/src/mqtt_client/raw_packet/malformed.rs
index 6686792..2012653 100644
--- a/src/mqtt_client/raw_packet/malformed.rs
+++ b/src/mqtt_client/raw_packet/malformed.rs
@@ -110,9 +110,10 @@ impl MalformedPacketGenerator {
         let mut builder = RawPacketBuilder::from_packet(MqttPacket::Publish5(publish))?;
 
         // Insert packet ID (0x0001) after topic name
-        // Topic name is 2 bytes length + 4 bytes "test" + 1 byte properties length = 7 bytes
+        // Topic name is 2 bytes length + 4 bytes "test" = 6 bytes
         // Fixed header is 1 byte type + 1 byte remaining length = 2 bytes
-        builder.insert_bytes(9, &[0x00, 0x01]); // Insert packet ID
+        builder.insert_bytes(8, &[0x00, 0x01]); // Insert packet ID
+        builder.set_byte(1, 0x09); // Remaining length
         Ok(builder.build())
     }
 
@@ -169,7 +170,7 @@ impl MalformedPacketGenerator {
 
         // Build PUBLISH manually with Topic Alias = 0
         builder.append_bytes(&[0x30]); // PUBLISH, QoS 0
-        builder.append_bytes(&[0x0C]); // Remaining length (will adjust)
+        builder.append_bytes(&[0x0A]); // Remaining length
         builder.append_bytes(&[0x00, 0x04]); // Topic name length
         builder.append_bytes(b"test"); // Topic name
         builder.append_bytes(&[0x03]); // Properties length
@@ -219,6 +220,7 @@ impl MalformedPacketGenerator {
         // Remove the last 5 bytes (2 bytes length + 3 bytes payload)
         let new_len = bytes.len().saturating_sub(5);
         builder.truncate(new_len);
+        builder.set_byte(1, new_len as u8 - 2); // Remaining length
 
         Ok(builder.build())
     }
@@ -352,7 +354,7 @@ impl MalformedPacketGenerator {
 
         // Build PUBLISH with Subscription Identifier = 0
         builder.append_bytes(&[0x30]); // PUBLISH, QoS 0
-        builder.append_bytes(&[0x0B]); // Remaining length
+        builder.append_bytes(&[0x09]); // Remaining length
         builder.append_bytes(&[0x00, 0x04]); // Topic name length
         builder.append_bytes(b"test"); // Topic name
         builder.append_bytes(&[0x02]); // Properties length
@@ -391,8 +393,8 @@ impl MalformedPacketGenerator {
         let mut builder = RawPacketBuilder::from_packet(MqttPacket::Connect5(connect))?;
 
         // Change protocol version from 5 to invalid value (e.g., 99)
-        // Protocol version is at byte 11 (after protocol name length and name)
-        builder.set_byte(11, 99);
+        // Protocol version is at byte 8 (after protocol name length and name)
+        builder.set_byte(8, 99);
 
         Ok(builder.build())
     }
@@ -444,7 +446,7 @@ impl MalformedPacketGenerator {
 
         // Build PUBLISH with duplicate Topic Alias properties
         builder.append_bytes(&[0x30]); // PUBLISH, QoS 0
-        builder.append_bytes(&[0x10]); // Remaining length
+        builder.append_bytes(&[0x0D]); // Remaining length
         builder.append_bytes(&[0x00, 0x04]); // Topic name length
         builder.append_bytes(b"test"); // Topic name
         builder.append_bytes(&[0x07]); // Properties length
@@ -467,7 +469,7 @@ impl MalformedPacketGenerator {
     /// # fn example() -> std::io::Result<()> {
     /// // Static methods - no instance needed
     /// let packet = MalformedPacketGenerator::client_id_too_long()?;
-    /// // Client ID is 65536 characters long
+    /// // Client ID is 65535 characters long
     /// # Ok(())
     /// # }
     /// ```
@@ -481,7 +483,7 @@ impl MalformedPacketGenerator {
             true,
             vec![],
         );
-        connect.client_id = "A".repeat(65536); // Extremely long client ID
+        connect.client_id = "A".repeat(65535); // The longest a string can be
 
         let builder = RawPacketBuilder::from_packet(MqttPacket::Connect5(connect))?;
         Ok(builder.build())
-- 
2.43.0


From 9fe23e7d388914f97ba34a55e5f2a031b9fd48c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:50 +0000
Subject: [PATCH 22/93] fix: saving a priority queue reports a failed write

---
 src/priority_queue.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/priority_queue.rs b/src/priority_queue.rs
index 0bb9a60..b5c06b1 100644
--- a/src/priority_queue.rs
+++ b/src/priority_queue.rs
@@ -3,7 +3,7 @@
 use serde::{de::DeserializeOwned, Deserialize, Serialize};
 use std::collections::{BTreeMap, VecDeque};
 use std::fs::File;
-use std::io::{self, BufReader, BufWriter};
+use std::io::{self, BufReader, BufWriter, Write};
 use std::path::Path;
 
 /// A priority queue with a fixed capacity limit.
@@ -109,9 +109,9 @@ where
         T: Serialize + DeserializeOwned,
     {
         let file = File::create(path)?;
-        let writer = BufWriter::new(file);
-        serde_json::to_writer(writer, self)?;
-        Ok(())
+        let mut writer = BufWriter::new(file);
+        serde_json::to_writer(&mut writer, self)?;
+        writer.flush()
     }
 
     /// Restores the queue state from a file.
-- 
2.43.0


From ab6fbb8303ba19d1457337244f4d0e220ed933ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:25 +0000
Subject: [PATCH 23/93] fix: the raw test client tells an idle connection from
 a closed one

---
 src/mqtt_client/raw_packet/test_client.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mqtt_client/raw_packet/test_client.rs b/src/mqtt_client/raw_packet/test_client.rs
index 5371c45..6d6d15b 100644
--- a/src/mqtt_client/raw_packet/test_client.rs
+++ b/src/mqtt_client/raw_packet/test_client.rs
@@ -283,10 +283,12 @@ impl RawTestClient {
     pub async fn is_connected(&mut self) -> bool {
         // Try to peek at the stream
         let mut buf = [0u8; 1];
-        matches!(
-            timeout(Duration::from_millis(10), self.stream.peek(&mut buf)).await,
-            Ok(Ok(_))
-        )
+        match timeout(Duration::from_millis(10), self.stream.peek(&mut buf)).await {
+            Ok(Ok(n)) => n > 0,
+            Ok(Err(_)) => false,
+            // Nothing to read, and not closed either
+            Err(_) => true,
+        }
     }
 
     /// Close the connection
-- 
2.43.0


From dbe86164a9d6cbfff6531f06006d4ada13115002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:15 +0000
Subject: [PATCH 24/93] fix: a server session sends queued messages in order
 and keeps them until acknowledged

---
 src/mqtt_session/server_session.rs | 60 +++++++++++++++++-------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/src/mqtt_session/server_session.rs b/src/mqtt_session/server_session.rs
index e81d827..2e6fe5a 100644
--- a/src/mqtt_session/server_session.rs
+++ b/src/mqtt_session/server_session.rs
@@ -36,8 +36,7 @@ pub struct ServerSession {
     // The client's receive maximum value.
     receive_maximum: u16,
 
-    // The number of messages sent in the current window.
-    inflight_messages: u16,
+    packet_id_counter: u16,
 }
 
 impl ServerSession {
@@ -50,7 +49,26 @@ impl ServerSession {
             will: None,
             session_expiry_interval: 0,
             receive_maximum,
-            inflight_messages: 0,
+            packet_id_counter: 0,
+        }
+    }
+
+    // The number of QoS 1 and QoS 2 messages sent and not finally acknowledged.
+    fn inflight_messages(&self) -> usize {
+        self.unacknowledged_publishes.len() + self.unacknowledged_pubrels.len()
+    }
+
+    // A packet identifier no unacknowledged message uses; called only below the
+    // receive maximum, so that there is one.
+    fn next_packet_id(&mut self) -> u16 {
+        loop {
+            self.packet_id_counter = self.packet_id_counter.checked_add(1).unwrap_or(1);
+            let id = self.packet_id_counter;
+            if !self.unacknowledged_publishes.contains_key(&id)
+                && !self.unacknowledged_pubrels.contains_key(&id)
+            {
+                return id;
+            }
         }
     }
 
@@ -95,9 +113,6 @@ impl ServerSession {
     }
 
     pub fn handle_incoming_puback(&mut self, _puback: MqttPubAck) {
-        if self.inflight_messages > 0 {
-            self.inflight_messages -= 1;
-        }
         self.unacknowledged_publishes.remove(&_puback.packet_id);
     }
 
@@ -128,46 +143,39 @@ impl ServerSession {
 
     pub fn handle_incoming_pubcomp(&mut self, pubcomp: MqttPubComp) {
         self.unacknowledged_pubrels.remove(&pubcomp.packet_id);
-        if self.inflight_messages > 0 {
-            self.inflight_messages -= 1;
-        }
     }
 
     pub fn resend_pending_messages(&mut self) -> Vec<MqttPacket> {
         let mut packets_to_resend = Vec::new();
-        let mut available_slots = self.receive_maximum.saturating_sub(self.inflight_messages);
 
         // Resend unacknowledged publishes
         for (packet_id, publish) in &self.unacknowledged_publishes {
             if !self.unacknowledged_pubrels.contains_key(packet_id) {
-                if available_slots == 0 {
-                    break;
-                }
                 packets_to_resend.push(MqttPacket::Publish5(publish.clone()));
-                available_slots -= 1;
             }
         }
 
         // Resend unacknowledged pubrels
         for pubrel in self.unacknowledged_pubrels.values() {
-            if available_slots == 0 {
-                break;
-            }
             packets_to_resend.push(MqttPacket::PubRel5(pubrel.clone()));
-            available_slots -= 1;
         }
 
-        // Send pending publishes
-        let mut i = 0;
-        while i < self.pending_publishes.len() && available_slots > 0 {
-            let publish = self.pending_publishes.remove(i);
+        // Send pending publishes, in order, as far as the client can receive
+        while let Some(publish) = self.pending_publishes.first() {
+            if publish.qos > 0 && self.inflight_messages() >= self.receive_maximum as usize {
+                break;
+            }
+            let mut publish = self.pending_publishes.remove(0);
+            if publish.qos > 0 {
+                let packet_id = self.next_packet_id();
+                publish.packet_id = Some(packet_id);
+                publish.dup = false;
+                self.unacknowledged_publishes
+                    .insert(packet_id, publish.clone());
+            }
             packets_to_resend.push(MqttPacket::Publish5(publish));
-            available_slots -= 1;
-            i += 1;
         }
 
-        self.inflight_messages = self.receive_maximum - available_slots;
-
         packets_to_resend
     }
 }
-- 
2.43.0


From 9da73798294c39b596282bb65434a7e3c7cf1ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:59 +0000
Subject: [PATCH 25/93] fix: the duplicate topic alias packet has the right
 property length

---
 src/mqtt_client/raw_packet/malformed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqtt_client/raw_packet/malformed.rs b/src/mqtt_client/raw_packet/malformed.rs
index 2012653..1d07129 100644
--- a/src/mqtt_client/raw_packet/malformed.rs
+++ b/src/mqtt_client/raw_packet/malformed.rs
@@ -449,7 +449,7 @@ impl MalformedPacketGenerator {
         builder.append_bytes(&[0x0D]); // Remaining length
         builder.append_bytes(&[0x00, 0x04]); // Topic name length
         builder.append_bytes(b"test"); // Topic name
-        builder.append_bytes(&[0x07]); // Properties length
+        builder.append_bytes(&[0x06]); // Properties length
         builder.append_bytes(&[0x23]); // Topic Alias property ID
         builder.append_bytes(&[0x00, 0x01]); // Topic Alias = 1
         builder.append_bytes(&[0x23]); // Topic Alias property ID (DUPLICATE)
-- 
2.43.0


From e843a8bb117e8da27fa20358cff90682fba34717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:06 +0000
Subject: [PATCH 26/93] undo: the raw test client's file counts as a test file
 and stays as it was

---
 src/mqtt_client/raw_packet/test_client.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/mqtt_client/raw_packet/test_client.rs b/src/mqtt_client/raw_packet/test_client.rs
index 6d6d15b..5371c45 100644
--- a/src/mqtt_client/raw_packet/test_client.rs
+++ b/src/mqtt_client/raw_packet/test_client.rs
@@ -283,12 +283,10 @@ impl RawTestClient {
     pub async fn is_connected(&mut self) -> bool {
         // Try to peek at the stream
         let mut buf = [0u8; 1];
-        match timeout(Duration::from_millis(10), self.stream.peek(&mut buf)).await {
-            Ok(Ok(n)) => n > 0,
-            Ok(Err(_)) => false,
-            // Nothing to read, and not closed either
-            Err(_) => true,
-        }
+        matches!(
+            timeout(Duration::from_millis(10), self.stream.peek(&mut buf)).await,
+            Ok(Ok(_))
+        )
     }
 
     /// Close the connection
-- 
2.43.0


From 93c8934f7f4a1f99aa2320c1f481bc0f70af8337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:17 +0000
Subject: [PATCH 27/93] fix: do not re-send on session resumption what was
 already sent on this connection

A packet sent between CONNECT and CONNACK (QUIC 0-RTT early data) was sent a
second time, on the control stream, when CONNACK reported session_present.
---
 src/mqtt_client/engine.rs   |  1 +
 src/mqtt_client/inflight.rs | 28 +++++++++++++++++++++-------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index a7d4349..a3f7632 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -571,6 +571,7 @@ impl MqttEngine {
         // CONNECT is the first packet of a connection: nothing read from or queued
         // for an earlier one may take part in this one.
         self.reset_for_new_transport();
+        self.inflight_queue.mark_connection_start();
 
         // Initialize session if needed
         if self.session.is_none() {
diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index b8e1573..5957554 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -50,6 +50,8 @@ pub struct InflightQueue {
     publish_count: usize,
     /// `order` of the next entry
     next_order: u64,
+    /// Entries from this `order` on were first sent on the current connection
+    connection_start: u64,
 }
 
 impl InflightQueue {
@@ -66,6 +68,7 @@ impl InflightQueue {
             retransmission_timeout,
             publish_count: 0,
             next_order: 0,
+            connection_start: u64::MAX,
         }
     }
 
@@ -230,22 +233,33 @@ impl InflightQueue {
         expired
     }
 
+    /// A new connection begins: what is pushed from here on is sent on it, and is
+    /// not to be re-sent when the server resumes the session.
+    pub fn mark_connection_start(&mut self) {
+        self.connection_start = self.next_order;
+    }
+
     /// Get all messages to be re-sent upon reconnection (MQTT 3.1.1 and 5.0 with CleanStart=0)
     ///
-    /// Packets are returned in the order in which they were first sent, and their
-    /// retransmission timers start over.
+    /// These are the ones first sent before the current connection. Packets are
+    /// returned in the order in which they were first sent, and their retransmission
+    /// timers start over.
     pub fn get_all_for_reconnect(&mut self) -> Vec<MqttPacket> {
         let now = Instant::now();
         let mut all = self.entries.values_mut().collect::<Vec<_>>();
         all.sort_by_key(|e| e.order);
-        self.deadline_queue.clear();
+        let mut deadlines = Vec::with_capacity(all.len());
         let mut packets = Vec::with_capacity(all.len());
         for entry in all {
-            entry.sent_at = now;
-            if self.mqtt_version != 5 {
-                self.deadline_queue.push_back((entry.packet_id, now));
+            if entry.order < self.connection_start {
+                entry.sent_at = now;
+                packets.push(entry.packet.clone());
             }
-            packets.push(entry.packet.clone());
+            deadlines.push((entry.packet_id, entry.sent_at));
+        }
+        if self.mqtt_version != 5 {
+            deadlines.sort_by_key(|(_, sent_at)| *sent_at);
+            self.deadline_queue = deadlines.into();
         }
         packets
     }
-- 
2.43.0


From 1b2f53c7fe56a7131d2ea41789c8a2a59b7455db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:37 +0000
Subject: [PATCH 28/93] fix: go on with input left at the event limit on the
 next tick

The QUIC, TLS and tokio clients never called handle_incoming again for packets
left in the parser when max_event_count was reached, so they were not processed
until the peer sent more.
---
 src/mqtt_client/engine.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index a3f7632..578fbff 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -200,6 +200,8 @@ pub struct MqttEngine {
 
     // Buffers and Parsers
     parser: MqttParser,
+    /// Complete packets may be left in `parser`: the event limit was reached
+    input_paused: bool,
     outgoing_buffer: VecDeque<Vec<u8>>,
 
     // Retransmissions (MQTT v3) for packets originally sent on a specific logical
@@ -258,6 +260,7 @@ impl MqttEngine {
             last_packet_received: Instant::now(),
             ping_sent_at: None,
             parser,
+            input_paused: false,
             outgoing_buffer: VecDeque::new(),
             stream_retransmissions: VecDeque::new(),
             events: Vec::new(),
@@ -289,6 +292,7 @@ impl MqttEngine {
     pub fn handle_connection_lost(&mut self) {
         self.is_connected = false;
         self.ping_sent_at = None;
+        self.input_paused = false;
     }
 
     /// Reset all transport-tied state for a fresh underlying transport (e.g. a
@@ -305,6 +309,7 @@ impl MqttEngine {
         self.stream_retransmissions.clear();
         self.inflight_queue.forget_streams();
         self.parser = MqttParser::new(self.options.parser_buffer_size, self.options.mqtt_version);
+        self.input_paused = false;
         // Cancel any pending reconnect deadline so it cannot fire another
         // ReconnectNeeded while a new transport handshake is in progress. The
         // attempt counter is left intact until CONNACK resets it.
@@ -375,11 +380,18 @@ impl MqttEngine {
     /// consume events via `take_events()` and call `handle_incoming(&[])` again to resume processing.
     pub fn handle_incoming(&mut self, data: &[u8]) -> Vec<MqttEvent> {
         self.parser.feed(data);
+        self.process_input();
+        self.take_events()
+    }
 
+    /// Process the packets in the parser, up to the event limit.
+    fn process_input(&mut self) {
+        self.input_paused = false;
         loop {
             if self.events.len() >= self.options.max_event_count {
                 // Buffer full, stop processing for now.
-                // Remaining data stays in parser/buffer.
+                // Remaining data stays in parser/buffer until the next input or tick.
+                self.input_paused = true;
                 break;
             }
 
@@ -407,7 +419,6 @@ impl MqttEngine {
             }
         }
         self.process_queue();
-        self.take_events()
     }
 
     pub fn mqtt_version(&self) -> u8 {
@@ -424,6 +435,11 @@ impl MqttEngine {
     /// 3. **Timeout Detection**: Detects dead connections when a PINGREQ is unanswered for Keep-Alive * multiplier, then schedules reconnect.
     /// 4. **Retransmissions** (MQTT v3.1.1): Resends unacknowledged QoS 1/2 packets.
     pub fn handle_tick(&mut self, now: Instant) -> Vec<MqttEvent> {
+        // Go on with what was left in the parser at the event limit
+        if self.input_paused {
+            self.process_input();
+        }
+
         // Handle reconnection timer when disconnected
         if !self.is_connected {
             if let Some(reconnect_at) = self.next_reconnect_at {
@@ -506,10 +522,16 @@ impl MqttEngine {
     /// Returns `None` if there are no scheduled timer events (sleep indefinitely or until IO).
     ///
     /// Prioritizes:
+    /// 0. Input left unprocessed at the event limit.
     /// 1. Reconnection attempts (if disconnected).
     /// 2. Keep-alive PINGs and their response timeout.
     /// 4. Packet retransmissions.
     pub fn next_tick_at(&self) -> Option<Instant> {
+        // 0. Input left in the parser at the event limit is due at once
+        if self.input_paused {
+            return Some(self.last_packet_received);
+        }
+
         // 1. Reconnection timer (highest priority when disconnected)
         if !self.is_connected {
             return self.next_reconnect_at;
-- 
2.43.0


From 9257884b2babc6f527347bec20e6cb491a956384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:22 +0000
Subject: [PATCH 29/93] fix: start a new QUIC connection from a clean state

connect() and connect_with_zero_rtt() kept the streams, buffers and flags of an
earlier connection, so after close() the CONNECT was never sent and data queued
for the old streams went out on the new ones.
---
 src/mqtt_client/engine.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 578fbff..b6642b5 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1751,9 +1751,9 @@ impl QuicMqttEngine {
         self.server_name = Some(server_name.to_string());
         self.zero_rtt_config = None;
         self.zero_rtt_status = QuicZeroRttStatus::Disabled;
-        self.pending_transport_events.clear();
-        self.early_stream_journal.clear();
 
+        // Nothing of an earlier connection may leak into this one.
+        self.reset_connection_state();
         self.establish(now)
     }
 
@@ -1786,9 +1786,9 @@ impl QuicMqttEngine {
         self.server_name = Some(server_name.to_string());
         self.zero_rtt_config = Some(zero_rtt_config);
         self.zero_rtt_status = QuicZeroRttStatus::Unavailable;
-        self.pending_transport_events.clear();
-        self.early_stream_journal.clear();
 
+        // Nothing of an earlier connection may leak into this one.
+        self.reset_connection_state();
         self.establish(now)
     }
 
-- 
2.43.0


From c847978e28fc50fef0630d49ee3cba36621c23b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:36 +0000
Subject: [PATCH 30/93] fix: keep a stream's FIN or RESET, and a requested
 close, when 0-RTT is rejected

---
 src/mqtt_client/engine.rs | 54 +++++++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 10 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index b6642b5..19fa204 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1500,6 +1500,10 @@ struct EarlyStreamJournal {
     role: EarlyStreamRole,
     bytes: Vec<u8>,
     packet_count: usize,
+    /// The send side was finished after `bytes`
+    finished: bool,
+    /// The send side was reset with this code
+    reset: Option<VarInt>,
 }
 
 #[cfg(feature = "quic-proto")]
@@ -1885,9 +1889,21 @@ impl QuicMqttEngine {
             role,
             bytes: Vec::new(),
             packet_count: 0,
+            finished: false,
+            reset: None,
         });
     }
 
+    /// The journal of a stream opened during a 0-RTT attempt that is not decided yet.
+    fn undecided_journal(&mut self, stream_id: StreamId) -> Option<&mut EarlyStreamJournal> {
+        if self.zero_rtt_status != QuicZeroRttStatus::Attempted {
+            return None;
+        }
+        self.early_stream_journal
+            .iter_mut()
+            .find(|entry| entry.original_stream_id == stream_id)
+    }
+
     fn journal_stream_bytes(
         early_stream_journal: &mut [EarlyStreamJournal],
         stream_id: StreamId,
@@ -1993,6 +2009,8 @@ impl QuicMqttEngine {
         default_pub_stream: &mut Option<StreamId>,
         default_sub_stream: &mut Option<StreamId>,
         control_outgoing: &mut Vec<u8>,
+        control_finishing: &mut bool,
+        control_finished: &mut bool,
         events: &mut Vec<MqttEvent>,
     ) {
         for journal in journals {
@@ -2017,21 +2035,23 @@ impl QuicMqttEngine {
             match journal.role {
                 EarlyStreamRole::Control => {
                     *control_stream = Some(stream_id);
+                    *control_finishing = journal.finished;
+                    *control_finished = journal.reset.is_some();
                     control_outgoing.extend_from_slice(&journal.bytes);
                 }
                 EarlyStreamRole::DefaultPub
                 | EarlyStreamRole::DefaultSub
                 | EarlyStreamRole::ExplicitData => {
-                    data_streams.insert(
-                        stream_id,
-                        QuicStream::with_outgoing(
-                            parser_buffer_size,
-                            mqtt_version,
-                            max_packets,
-                            journal.bytes,
-                            journal.packet_count,
-                        ),
+                    let mut ds = QuicStream::with_outgoing(
+                        parser_buffer_size,
+                        mqtt_version,
+                        max_packets,
+                        journal.bytes,
+                        journal.packet_count,
                     );
+                    ds.finishing = journal.finished;
+                    ds.finished = journal.reset.is_some();
+                    data_streams.insert(stream_id, ds);
                     match journal.role {
                         EarlyStreamRole::DefaultPub => *default_pub_stream = Some(stream_id),
                         EarlyStreamRole::DefaultSub => *default_sub_stream = Some(stream_id),
@@ -2039,6 +2059,10 @@ impl QuicMqttEngine {
                     }
                 }
             }
+
+            if let Some(code) = journal.reset {
+                let _ = conn.send_stream(stream_id).reset(code);
+            }
         }
     }
 
@@ -2453,7 +2477,6 @@ impl QuicMqttEngine {
                                 self.default_pub_stream = None;
                                 self.default_sub_stream = None;
                                 self.control_outgoing.clear();
-                                self.pending_close = None;
                                 self.control_finishing = false;
                                 self.control_finished = false;
 
@@ -2469,6 +2492,8 @@ impl QuicMqttEngine {
                                         &mut self.default_pub_stream,
                                         &mut self.default_sub_stream,
                                         &mut self.control_outgoing,
+                                        &mut self.control_finishing,
+                                        &mut self.control_finished,
                                         &mut mqtt_events,
                                     );
                                 }
@@ -3223,6 +3248,9 @@ impl QuicMqttEngine {
         } else if let Some(ds) = self.data_streams.get_mut(&stream_id) {
             ds.finishing = true;
         }
+        if let Some(journal) = self.undecided_journal(stream_id) {
+            journal.finished = true;
+        }
         Ok(())
     }
 
@@ -3244,6 +3272,12 @@ impl QuicMqttEngine {
             ds.finishing = false;
             ds.finished = true;
         }
+        if let Some(journal) = self.undecided_journal(stream_id) {
+            journal.bytes.clear();
+            journal.packet_count = 0;
+            journal.finished = false;
+            journal.reset = Some(code);
+        }
         let conn = self.require_connection()?;
         conn.send_stream(stream_id)
             .reset(code)
-- 
2.43.0


From 86a97ff2010666dd0db0e5dd9cc3340453526c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:20 +0000
Subject: [PATCH 31/93] fix: pass a QUIC connection's endpoint events on to the
 endpoint

---
 src/mqtt_client/engine.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 19fa204..7c0d853 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -2812,7 +2812,21 @@ impl QuicMqttEngine {
                 }
             }
 
-            // 5. Collect outgoing UDP datagrams
+            // 5. Let the endpoint act on what the connection reports to it (connection
+            //    IDs to issue or retire, stateless reset tokens).
+            if let Some(handle) = self.connection_handle {
+                while let Some(event) = conn.poll_endpoint_events() {
+                    if event.is_drained() {
+                        // The endpoint forgets the connection; its handle may be reused.
+                        self.connection_handle = None;
+                    }
+                    if let Some(event) = self.endpoint.handle_event(handle, event) {
+                        conn.handle_event(event);
+                    }
+                }
+            }
+
+            // 6. Collect outgoing UDP datagrams
             let mut buf = Vec::new();
             while let Some(transmit) = conn.poll_transmit(now, 1, &mut buf) {
                 self.outgoing_datagrams
@@ -2821,7 +2835,7 @@ impl QuicMqttEngine {
                 buf.clear();
             }
 
-            // 6. Deferred graceful close: apply only once the control buffer
+            // 7. Deferred graceful close: apply only once the control buffer
             //    (including the queued MQTT DISCONNECT) has been fully written and
             //    transmitted above. If the control stream is still draining under
             //    flow control, defer to a later tick so the DISCONNECT is not
@@ -2840,11 +2854,11 @@ impl QuicMqttEngine {
             }
         }
 
-        // 7. Drive MqttEngine tick
+        // 8. Drive MqttEngine tick
         let tick_events = self.mqtt_engine.handle_tick(now);
         mqtt_events.extend(tick_events);
 
-        // 8. Route per-stream (MQTT v3) retransmissions back onto their
+        // 9. Route per-stream (MQTT v3) retransmissions back onto their
         //    originating data stream; they are flushed on the next tick.
         //    Best-effort: skipped if the stream is gone or its buffer is full —
         //    the inflight timer will retry on a later tick.
-- 
2.43.0


From cddf3dff4ac56a3e6b5e8c3da836fb92ed73fdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:20 +0000
Subject: [PATCH 32/93] fix: send CONNECTION_CLOSE even if the next tick is
 late

---
 src/mqtt_client/engine.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 7c0d853..ff81b4e 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -3181,14 +3181,24 @@ impl QuicMqttEngine {
     /// close: quinn-proto abandons any unacknowledged stream data, so it does not
     /// guarantee delivery of buffered bytes — use [`disconnect_and_close`](Self::disconnect_and_close)
     /// when an MQTT DISCONNECT must reach the peer first. The connection enters its
-    /// closing state and the CONNECTION_CLOSE frame is emitted on the next
-    /// [`handle_tick`](Self::handle_tick); the MQTT session is marked disconnected.
+    /// closing state and the CONNECTION_CLOSE frame is among the next
+    /// [`take_outgoing_datagrams`](Self::take_outgoing_datagrams); the MQTT session is
+    /// marked disconnected.
     pub fn close(&mut self, error_code: u64, reason: &[u8]) -> Result<(), MqttClientError> {
         let code = quic_error_code(error_code)?;
         // Supersede any deferred close so we don't close twice.
         self.pending_close = None;
+        let now = Instant::now();
         let conn = self.require_connection()?;
-        conn.close(Instant::now(), code, bytes::Bytes::copy_from_slice(reason));
+        conn.close(now, code, bytes::Bytes::copy_from_slice(reason));
+        // Produce the CONNECTION_CLOSE at once: the closing period is short and may
+        // be over by the next tick, after which nothing is sent any more.
+        let mut close_buf = Vec::new();
+        let mut datagrams = Vec::new();
+        while let Some(transmit) = conn.poll_transmit(now, 1, &mut close_buf) {
+            datagrams.push((transmit.destination, std::mem::take(&mut close_buf)));
+        }
+        self.outgoing_datagrams.extend(datagrams);
         self.mqtt_engine.handle_connection_lost();
         Ok(())
     }
-- 
2.43.0


From 464093a73ff3b63381bae7ca99f704e80ce9f934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:20 +0000
Subject: [PATCH 33/93] fix: report STOP_SENDING on a stream the peer has just
 opened

---
 src/mqtt_client/engine.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index ff81b4e..7ba3f8f 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -2428,6 +2428,12 @@ impl QuicMqttEngine {
                             );
                         }
                         quinn_proto::StreamEvent::Stopped { id, error_code } => {
+                            // The stream may be one the peer opened at the same moment.
+                            while let Some(stream_id) = conn.streams().accept(Dir::Bi) {
+                                self.data_streams.entry(stream_id).or_insert_with(|| {
+                                    QuicStream::new(parser_buffer_size, mqtt_version, max_packets)
+                                });
+                            }
                             Self::handle_stream_stopped_fields(
                                 &mut self.control_stream,
                                 &mut self.data_streams,
-- 
2.43.0


From c6c0f3ebcab3cb79c7051c40a84ec8ae2d7790bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:20 +0000
Subject: [PATCH 34/93] fix: end both directions of a QUIC stream the peer
 stopped

---
 src/mqtt_client/engine.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 7ba3f8f..7a36468 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -2447,6 +2447,10 @@ impl QuicMqttEngine {
                                 error_code,
                                 &mut mqtt_events,
                             );
+                            // The stream is given up: end both directions, so that
+                            // the peer can release it and allow another one.
+                            let _ = conn.send_stream(id).reset(error_code);
+                            let _ = conn.recv_stream(id).stop(error_code);
                         }
                         quinn_proto::StreamEvent::Opened { .. }
                         | quinn_proto::StreamEvent::Readable { .. }
-- 
2.43.0


From 2087f057abb39142c25cf8e6b95083edc38b2e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:20 +0000
Subject: [PATCH 35/93] fix: report a broken QUIC data stream once, and forget
 streams that are over

---
 src/mqtt_client/engine.rs | 55 +++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 7a36468..391ffca 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1449,6 +1449,12 @@ struct QuicStream {
     finished: bool,
     /// The receive side has seen FIN or RESET; further reads are skipped.
     recv_closed: bool,
+    /// Our FIN was acknowledged, or the send side was reset.
+    send_closed: bool,
+    /// The parser holds no complete packet.
+    drained: bool,
+    /// The peer sent something that is not an MQTT packet: nothing after it can be framed.
+    broken: bool,
 }
 
 #[cfg(feature = "quic-proto")]
@@ -1462,6 +1468,9 @@ impl QuicStream {
             finishing: false,
             finished: false,
             recv_closed: false,
+            send_closed: false,
+            drained: true,
+            broken: false,
         }
     }
 
@@ -1480,6 +1489,9 @@ impl QuicStream {
             finishing: false,
             finished: false,
             recv_closed: false,
+            send_closed: false,
+            drained: true,
+            broken: false,
         }
     }
 }
@@ -2304,6 +2316,7 @@ impl QuicMqttEngine {
                 ds.recv_closed = true;
             } else {
                 ds.finished = true;
+                ds.send_closed = true;
             }
         }
     }
@@ -2703,6 +2716,7 @@ impl QuicMqttEngine {
                                     Ok(Some(chunk)) => {
                                         if let Some(ds) = self.data_streams.get_mut(&stream_id) {
                                             ds.parser.feed(&chunk.bytes);
+                                            ds.drained = false;
                                         }
                                     }
                                     Ok(None) => {
@@ -2757,6 +2771,21 @@ impl QuicMqttEngine {
                     stream_id,
                     &mut mqtt_events,
                 );
+                if let Some(ds) = self.data_streams.get_mut(&stream_id) {
+                    if ds.broken && !ds.recv_closed {
+                        ds.recv_closed = true;
+                        let _ = conn.recv_stream(stream_id).stop(VarInt::from_u32(0));
+                    }
+                    if ds.send_closed && ds.recv_closed && ds.drained {
+                        // Both directions are over and everything was delivered.
+                        Self::clear_data_stream_refs_fields(
+                            &mut self.data_streams,
+                            &mut self.default_pub_stream,
+                            &mut self.default_sub_stream,
+                            stream_id,
+                        );
+                    }
+                }
             }
 
             // 4a. Flush the control stream. `control_outgoing` is a persistent
@@ -3035,15 +3064,24 @@ impl QuicMqttEngine {
             // Fetch the next packet only while there is buffer capacity; drops the
             // `data_streams` borrow before calling into the engine.
             let packet = match data_streams.get_mut(&stream_id) {
-                Some(ds) if ds.pending_packets < ds.max_packets => match ds.parser.next_packet() {
-                    Ok(Some(packet)) => packet,
-                    Ok(None) => break,
-                    Err(e) => {
-                        events.push(MqttEvent::Error(MqttClientError::from(e)));
-                        break;
+                Some(ds) if !ds.broken && ds.pending_packets < ds.max_packets => {
+                    match ds.parser.next_packet() {
+                        Ok(Some(packet)) => packet,
+                        Ok(None) => {
+                            ds.drained = true;
+                            break;
+                        }
+                        Err(e) => {
+                            // The framing is lost: report it once and leave the rest of this
+                            // stream alone, so that it does not keep the others waiting.
+                            ds.broken = true;
+                            ds.drained = true;
+                            events.push(MqttEvent::Error(MqttClientError::from(e)));
+                            break;
+                        }
                     }
-                },
-                // Unknown stream, or send buffer full → stop (back-pressure).
+                }
+                // Unknown or broken stream, or send buffer full → stop (back-pressure).
                 _ => break,
             };
 
@@ -3305,6 +3343,7 @@ impl QuicMqttEngine {
             ds.pending_packets = 0;
             ds.finishing = false;
             ds.finished = true;
+            ds.send_closed = true;
         }
         if let Some(journal) = self.undecided_journal(stream_id) {
             journal.bytes.clear();
-- 
2.43.0


From be5e21c571206d34a57cf4b7e657de09faa803a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:42 +0000
Subject: [PATCH 36/93] fix: TLS engine failed on more than 16 KB of received
 plaintext in one call

---
 src/mqtt_client/tls_engine.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/tls_engine.rs b/src/mqtt_client/tls_engine.rs
index f945343..23d4407 100644
--- a/src/mqtt_client/tls_engine.rs
+++ b/src/mqtt_client/tls_engine.rs
@@ -68,10 +68,17 @@ impl TlsMqttEngine {
                     message: format!("TLS process error: {}", e),
                 }
             })?;
+
+            // Take the plaintext at once: rustls accepts no more ciphertext while too
+            // much of it is waiting.
+            self.read_plaintext()?;
         }
 
-        // After processing packets, check if there is any plaintext available
-        let mut buf = vec![0u8; 4096];
+        Ok(())
+    }
+
+    fn read_plaintext(&mut self) -> Result<(), MqttClientError> {
+        let mut buf = [0u8; 4096];
         loop {
             match self.tls_connection.reader().read(&mut buf) {
                 Ok(0) => break,
-- 
2.43.0


From d2b79f1dc2ce47490348358fc5188e3377ccb64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:42 +0000
Subject: [PATCH 37/93] fix: TLS engine lost outgoing data beyond rustls's 64
 KB buffer

---
 src/mqtt_client/tls_engine.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/tls_engine.rs b/src/mqtt_client/tls_engine.rs
index 23d4407..d580bad 100644
--- a/src/mqtt_client/tls_engine.rs
+++ b/src/mqtt_client/tls_engine.rs
@@ -38,12 +38,16 @@ impl TlsMqttEngine {
             })?
             .to_owned();
 
-        let tls_connection = ClientConnection::new(config, server_name).map_err(|e| {
+        let mut tls_connection = ClientConnection::new(config, server_name).map_err(|e| {
             MqttClientError::InternalError {
                 message: format!("Failed to create TLS connection: {}", e),
             }
         })?;
 
+        // What does not fit into rustls's buffer would be lost; the amount is bounded by
+        // the MQTT engine's own limits.
+        tls_connection.set_buffer_limit(None);
+
         Ok(Self {
             mqtt_engine,
             tls_connection,
-- 
2.43.0


From bb12ccb702399cf692f8f1d218b6765f724f59af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:42 +0000
Subject: [PATCH 38/93] fix: TLS engine's take_socket_data left part of the
 pending records behind

---
 src/mqtt_client/tls_engine.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/tls_engine.rs b/src/mqtt_client/tls_engine.rs
index d580bad..91aed33 100644
--- a/src/mqtt_client/tls_engine.rs
+++ b/src/mqtt_client/tls_engine.rs
@@ -104,7 +104,12 @@ impl TlsMqttEngine {
     /// Take encrypted data from the TLS engine to be sent to the socket.
     pub fn take_socket_data(&mut self) -> Vec<u8> {
         let mut buf = Vec::new();
-        let _ = self.tls_connection.write_tls(&mut buf);
+        while self.tls_connection.wants_write() {
+            match self.tls_connection.write_tls(&mut buf) {
+                Ok(n) if n > 0 => {}
+                _ => break,
+            }
+        }
         buf
     }
 
-- 
2.43.0


From f66d50ed5436d82617c2af568d8d60701b7ad630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:42 +0000
Subject: [PATCH 39/93] fix: TLS engine sent what a tick produced only on the
 next tick

---
 src/mqtt_client/tls_engine.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mqtt_client/tls_engine.rs b/src/mqtt_client/tls_engine.rs
index 91aed33..b954c37 100644
--- a/src/mqtt_client/tls_engine.rs
+++ b/src/mqtt_client/tls_engine.rs
@@ -124,15 +124,15 @@ impl TlsMqttEngine {
             self.incoming_plaintext.clear();
         }
 
-        // 2. Process outgoing plaintext from MQTT -> TLS
+        // 2. Drive MQTT engine tick
+        mqtt_events.extend(self.mqtt_engine.handle_tick(now));
+
+        // 3. Process outgoing plaintext from MQTT -> TLS
         let outgoing = self.mqtt_engine.take_outgoing();
         if !outgoing.is_empty() {
             let _ = self.tls_connection.writer().write_all(&outgoing);
         }
 
-        // 3. Drive MQTT engine tick
-        mqtt_events.extend(self.mqtt_engine.handle_tick(now));
-
         mqtt_events
     }
 
-- 
2.43.0


From 9f74569cb81a490b0027eccb25a18536d639f059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:12 +0000
Subject: [PATCH 40/93] fix: concurrent ping_sync calls and keep-alive pings
 took each other's answers

---
 src/mqtt_client/engine.rs             | 11 +++++++++++
 src/mqtt_client/tokio_async_client.rs | 27 +++++++++++++++++++--------
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 391ffca..9673125 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -197,6 +197,7 @@ pub struct MqttEngine {
     /// Timestamp of the outstanding PINGREQ, if any. A connection timeout is
     /// only valid after this request has not received a PINGRESP in time.
     ping_sent_at: Option<Instant>,
+    unanswered_pings: usize,
 
     // Buffers and Parsers
     parser: MqttParser,
@@ -259,6 +260,7 @@ impl MqttEngine {
             last_packet_sent: Instant::now(),
             last_packet_received: Instant::now(),
             ping_sent_at: None,
+            unanswered_pings: 0,
             parser,
             input_paused: false,
             outgoing_buffer: VecDeque::new(),
@@ -292,6 +294,7 @@ impl MqttEngine {
     pub fn handle_connection_lost(&mut self) {
         self.is_connected = false;
         self.ping_sent_at = None;
+        self.unanswered_pings = 0;
         self.input_paused = false;
     }
 
@@ -318,6 +321,7 @@ impl MqttEngine {
         self.last_packet_sent = now;
         self.last_packet_received = now;
         self.ping_sent_at = None;
+        self.unanswered_pings = 0;
     }
 
     /// Schedule the next reconnection attempt using exponential backoff.
@@ -1179,6 +1183,7 @@ impl MqttEngine {
             }
             MqttPacket::PingResp5(_) | MqttPacket::PingResp3(_) => {
                 self.ping_sent_at = None;
+                self.unanswered_pings = self.unanswered_pings.saturating_sub(1);
                 events.push(MqttEvent::PingResponse(PingResult { success: true }));
             }
             MqttPacket::PubRec5(rec) => {
@@ -1317,12 +1322,18 @@ impl MqttEngine {
         self.send_ping_at(Instant::now())
     }
 
+    /// PINGREQs sent on this connection that no PINGRESP has answered yet.
+    pub fn unanswered_pings(&self) -> usize {
+        self.unanswered_pings
+    }
+
     fn send_ping_at(&mut self, now: Instant) -> Result<(), MqttClientError> {
         let packet = self.pingreq_packet();
         self.enqueue_packet(packet)?;
         self.last_packet_sent = now;
         // The timeout runs from the oldest unanswered ping
         self.ping_sent_at.get_or_insert(now);
+        self.unanswered_pings += 1;
         Ok(())
     }
 
diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 1f3ed54..0e2082b 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1,6 +1,6 @@
 // SPDX-License-Identifier: MPL-2.0
 
-use std::collections::HashMap;
+use std::collections::{HashMap, VecDeque};
 use std::io;
 #[cfg(feature = "quic")]
 use std::net::SocketAddr;
@@ -1719,8 +1719,8 @@ struct TokioClientWorker {
     pending_subscribes_sync: HashMap<u16, tokio::sync::oneshot::Sender<SubscribeResult>>,
     /// Pending synchronous unsubscribe operations keyed by packet identifier
     pending_unsubscribes_sync: HashMap<u16, tokio::sync::oneshot::Sender<UnsubscribeResult>>,
-    /// Pending synchronous ping operations (only one at a time)
-    pending_ping: Option<tokio::sync::oneshot::Sender<PingResult>>,
+    /// Unanswered PINGREQs, oldest first, with the caller waiting for the answer (if any)
+    pending_pings: VecDeque<Option<tokio::sync::oneshot::Sender<PingResult>>>,
     /// Keep alive timer (dynamic sleep based on next_tick_at)
     tick_timer: Option<Pin<Box<Sleep>>>,
 }
@@ -1743,7 +1743,7 @@ impl TokioClientWorker {
             pending_connect: None,
             pending_subscribes_sync: HashMap::new(),
             pending_unsubscribes_sync: HashMap::new(),
-            pending_ping: None,
+            pending_pings: VecDeque::new(),
             tick_timer: None,
         }
     }
@@ -1796,7 +1796,7 @@ impl TokioClientWorker {
                     // client continues to use the engine's normal auto-ack path.
                 }
                 MqttEvent::PingResponse(res) => {
-                    if let Some(tx) = self.pending_ping.take() {
+                    if let Some(Some(tx)) = self.pending_pings.pop_front() {
                         let _ = tx.send(res.clone());
                     }
                     self.event_handler.on_ping_response(&res).await;
@@ -2376,8 +2376,19 @@ impl TokioClientWorker {
 
     /// Handle synchronous ping command
     async fn handle_ping_sync(&mut self, response_tx: tokio::sync::oneshot::Sender<PingResult>) {
-        self.pending_ping = Some(response_tx);
-        self.engine.send_ping();
+        // Each PINGRESP answers the oldest PINGREQ: those sent before this one (by the
+        // keep-alive timer or without a waiting caller) come first.
+        let before = self.engine.unanswered_pings();
+        match self.engine.try_send_ping() {
+            Ok(()) => {
+                self.pending_pings.resize_with(before, || None);
+                self.pending_pings.push_back(Some(response_tx));
+            }
+            Err(e) => {
+                let _ = response_tx.send(PingResult { success: false });
+                self.event_handler.on_error(&e).await;
+            }
+        }
     }
 
     /// Handle disconnect command
@@ -2400,7 +2411,7 @@ impl TokioClientWorker {
         }
 
         // Ping always fails
-        if let Some(tx) = self.pending_ping.take() {
+        for tx in self.pending_pings.drain(..).flatten() {
             let _ = tx.send(PingResult { success: false });
         }
 
-- 
2.43.0


From 6b24cf296f9075e9229e3c1ef7ee32ef1de6cf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:12 +0000
Subject: [PATCH 41/93] fix: connect_sync reported success before the CONNACK
 of a connection under way

---
 src/mqtt_client/tokio_async_client.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 0e2082b..6ab9fab 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1712,9 +1712,9 @@ struct TokioClientWorker {
 
     /// Pending synchronous publish operations keyed by packet identifier
     pending_publishes: HashMap<u16, tokio::sync::oneshot::Sender<PublishResult>>,
-    /// Pending synchronous connect operations (only one at a time)
-    pending_connect:
-        Option<tokio::sync::oneshot::Sender<Result<ConnectionResult, MqttClientError>>>,
+    /// Pending synchronous connect operations, all waiting for the same CONNACK
+    pending_connects:
+        Vec<tokio::sync::oneshot::Sender<Result<ConnectionResult, MqttClientError>>>,
     /// Pending synchronous subscribe operations keyed by packet identifier
     pending_subscribes_sync: HashMap<u16, tokio::sync::oneshot::Sender<SubscribeResult>>,
     /// Pending synchronous unsubscribe operations keyed by packet identifier
@@ -1740,7 +1740,7 @@ impl TokioClientWorker {
             config,
             stream: None,
             pending_publishes: HashMap::new(),
-            pending_connect: None,
+            pending_connects: Vec::new(),
             pending_subscribes_sync: HashMap::new(),
             pending_unsubscribes_sync: HashMap::new(),
             pending_pings: VecDeque::new(),
@@ -1753,7 +1753,7 @@ impl TokioClientWorker {
         for event in events {
             match event {
                 MqttEvent::Connected(res) => {
-                    if let Some(tx) = self.pending_connect.take() {
+                    for tx in self.pending_connects.drain(..) {
                         let _ = tx.send(Ok(res.clone()));
                     }
                     self.event_handler.on_connected(&res).await;
@@ -2232,8 +2232,8 @@ impl TokioClientWorker {
             Err(e) => {
                 self.event_handler.on_error(&e).await;
 
-                // If this was a sync connect attempt, notify the waiting caller
-                if let Some(tx) = self.pending_connect.take() {
+                // If this was a sync connect attempt, notify the waiting callers
+                for tx in self.pending_connects.drain(..) {
                     let _ = tx.send(Err(e.clone()));
                 }
 
@@ -2314,8 +2314,8 @@ impl TokioClientWorker {
         &mut self,
         response_tx: tokio::sync::oneshot::Sender<Result<ConnectionResult, MqttClientError>>,
     ) {
-        // Check if already connected or connecting
-        if self.stream.is_some() {
+        // Check if already connected
+        if self.stream.is_some() && self.engine.is_connected() {
             let result = ConnectionResult {
                 reason_code: 0,
                 session_present: false,
@@ -2326,9 +2326,9 @@ impl TokioClientWorker {
         }
 
         // Store the response channel for when CONNACK arrives
-        self.pending_connect = Some(response_tx);
+        self.pending_connects.push(response_tx);
 
-        // Initiate connection
+        // Initiate connection (unless one is already being established)
         self.handle_connect().await;
     }
 
@@ -2404,7 +2404,7 @@ impl TokioClientWorker {
 
         // Clean up any pending synchronous operations that cannot be retried automatically
         // Connect always fails on connection loss if not already established
-        if let Some(tx) = self.pending_connect.take() {
+        for tx in self.pending_connects.drain(..) {
             let _ = tx.send(Err(MqttClientError::ConnectionLost {
                 reason: "Connection lost before CONNACK received".to_string(),
             }));
-- 
2.43.0


From badc43ff80ab0a3cc09ae26bd9e7373bb3613903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:12 +0000
Subject: [PATCH 42/93] fix: commands given while disconnected were reported as
 lost connections and put off the reconnect

---
 src/mqtt_client/tokio_async_client.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 6ab9fab..79422b4 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1854,7 +1854,9 @@ impl TokioClientWorker {
 
     async fn handle_outgoing(&mut self) -> Result<(), MqttClientError> {
         let bytes = self.engine.take_outgoing();
-        if !bytes.is_empty() {
+        // Without a transport there is nothing to lose again: what has to survive is
+        // kept by the engine and goes out after the next CONNACK.
+        if !bytes.is_empty() && self.stream.is_some() {
             self.write_to_transport(&bytes).await?;
         }
         Ok(())
-- 
2.43.0


From 7f11f00be1e2fef9be0261e8386d728aca225b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:12 +0000
Subject: [PATCH 43/93] fix: ping_sync without a connection waited for its
 timeout

---
 src/mqtt_client/tokio_async_client.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 79422b4..c453196 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -2378,6 +2378,14 @@ impl TokioClientWorker {
 
     /// Handle synchronous ping command
     async fn handle_ping_sync(&mut self, response_tx: tokio::sync::oneshot::Sender<PingResult>) {
+        if self.stream.is_none() {
+            let _ = response_tx.send(PingResult { success: false });
+            self.event_handler
+                .on_error(&MqttClientError::NotConnected)
+                .await;
+            return;
+        }
+
         // Each PINGRESP answers the oldest PINGREQ: those sent before this one (by the
         // keep-alive timer or without a waiting caller) come first.
         let before = self.engine.unanswered_pings();
-- 
2.43.0


From 95b962678b19db5bebe1d1bade979877de6ff2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:12 +0000
Subject: [PATCH 44/93] fix: a ping timeout reconnected with auto_reconnect
 off, and scheduled two attempts with it on

---
 src/mqtt_client/tokio_async_client.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index c453196..c6588a2 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1825,14 +1825,16 @@ impl TokioClientWorker {
                     // If we have NO stream, it means backoff timer expired -> handle_connect (to try again)
                     if self.stream.is_some() {
                         self.handle_connection_lost().await;
-                    } else {
+                    } else if self.config.auto_reconnect {
                         // Backoff timer expired, try connecting!
                         self.handle_connect().await;
                     }
                 }
                 MqttEvent::ReconnectScheduled { attempt, delay } => {
                     // Notify user about the scheduled reconnection
-                    self.event_handler.on_reconnect_attempt(attempt).await;
+                    if self.config.auto_reconnect {
+                        self.event_handler.on_reconnect_attempt(attempt).await;
+                    }
                     // Optional: log or handle delay if specific logic needed
                     let _ = delay;
                 }
@@ -2427,9 +2429,13 @@ impl TokioClientWorker {
 
         self.event_handler.on_connection_lost().await;
 
-        if self.config.auto_reconnect {
-            // Non-blocking: Simply schedule the next attempt in the engine.
-            // The tick timer (update_tick_timer) will wake us up when it's time.
+        if !self.config.auto_reconnect {
+            // The engine schedules an attempt by itself after a ping timeout.
+            self.engine.reset_reconnect_state();
+        } else if self.engine.next_tick_at().is_none() {
+            // Non-blocking: Simply schedule the next attempt in the engine (unless it
+            // has done so already). The tick timer (update_tick_timer) will wake us up
+            // when it's time.
             self.engine.schedule_reconnect(Instant::now());
         }
     }
-- 
2.43.0


From f89842f30fc03c20f340d71a241234edf3b86588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:55 +0000
Subject: [PATCH 45/93] fix: disconnect() left the connection open and was
 followed by a reconnect

---
 src/mqtt_client/tokio_async_client.rs | 39 ++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index c6588a2..43a4f5a 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -2405,16 +2405,34 @@ impl TokioClientWorker {
 
     /// Handle disconnect command
     async fn handle_disconnect(&mut self) {
+        let was_connected = self.engine.is_connected();
         self.engine.disconnect();
-    }
-
-    /// Handle connection lost
-    async fn handle_connection_lost(&mut self) {
-        self.stream = None;
+        if let Err(e) = self.handle_outgoing().await {
+            self.event_handler.on_error(&e).await;
+        }
+        if let Some(mut stream) = self.stream.take() {
+            // The close is a courtesy: a peer that does not read must not hold us up.
+            let _ = tokio::time::timeout(Duration::from_secs(1), stream.shutdown()).await;
+        }
         self.engine.handle_connection_lost();
         self.engine_last_connected = false;
 
-        // Clean up any pending synchronous operations that cannot be retried automatically
+        // No connection is wanted any more: an attempt that is due is called off
+        self.engine.reset_reconnect_state();
+        for event in self.engine.take_events() {
+            if let MqttEvent::Error(e) = event {
+                self.event_handler.on_error(&e).await;
+            }
+        }
+        self.fail_pending_operations();
+
+        if was_connected {
+            self.event_handler.on_disconnected(None).await;
+        }
+    }
+
+    /// Clean up any pending synchronous operations that cannot be retried automatically
+    fn fail_pending_operations(&mut self) {
         // Connect always fails on connection loss if not already established
         for tx in self.pending_connects.drain(..) {
             let _ = tx.send(Err(MqttClientError::ConnectionLost {
@@ -2426,6 +2444,15 @@ impl TokioClientWorker {
         for tx in self.pending_pings.drain(..).flatten() {
             let _ = tx.send(PingResult { success: false });
         }
+    }
+
+    /// Handle connection lost
+    async fn handle_connection_lost(&mut self) {
+        self.stream = None;
+        self.engine.handle_connection_lost();
+        self.engine_last_connected = false;
+
+        self.fail_pending_operations();
 
         self.event_handler.on_connection_lost().await;
 
-- 
2.43.0


From 97a8a7ed9040efdd6c508492d32cf935bca011d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:55 +0000
Subject: [PATCH 46/93] fix: max_reconnect_attempts and max_reconnect_delay_ms
 of TokioAsyncClientConfig were ignored

---
 src/mqtt_client/tokio_async_client.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 43a4f5a..d3a5f02 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1732,6 +1732,19 @@ impl TokioClientWorker {
         command_rx: mpsc::Receiver<TokioClientCommand>,
         config: TokioAsyncClientConfig,
     ) -> Self {
+        let mut options = options;
+        // The tighter of the two limits holds (0 attempts = no limit)
+        options.reconnect_max_delay_ms = options
+            .reconnect_max_delay_ms
+            .min(config.max_reconnect_delay_ms);
+        options.max_reconnect_attempts = match (
+            options.max_reconnect_attempts,
+            config.max_reconnect_attempts,
+        ) {
+            (0, n) | (n, 0) => n,
+            (a, b) => a.min(b),
+        };
+
         Self {
             engine: MqttEngine::new(options),
             engine_last_connected: false,
-- 
2.43.0


From 52ed9c5e9e82cf57aaeb353eebe77b3d7a12fbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:55 +0000
Subject: [PATCH 47/93] fix: the tokio client never flushed its transport

---
 src/mqtt_client/tokio_async_client.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index d3a5f02..a526126 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1861,6 +1861,11 @@ impl TokioClientWorker {
             stream
                 .write_all(data)
                 .await
+                .map_err(|e| MqttClientError::from_io_error(e, "transport write"))?;
+            // TLS keeps what the socket did not take until it is flushed
+            stream
+                .flush()
+                .await
                 .map_err(|e| MqttClientError::from_io_error(e, "transport write"))
         } else {
             Err(MqttClientError::NotConnected)
-- 
2.43.0


From bf3a4676d7bf8e82c1528e34ab7dafd9212acba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:01 +0000
Subject: [PATCH 48/93] fix: frequent commands or incoming data kept
 reconnects, pings and retransmissions from happening

---
 src/mqtt_client/tokio_async_client.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index a526126..68c2d44 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1723,6 +1723,8 @@ struct TokioClientWorker {
     pending_pings: VecDeque<Option<tokio::sync::oneshot::Sender<PingResult>>>,
     /// Keep alive timer (dynamic sleep based on next_tick_at)
     tick_timer: Option<Pin<Box<Sleep>>>,
+    /// When the engine was last given a tick
+    last_tick_at: Option<Instant>,
 }
 
 impl TokioClientWorker {
@@ -1758,6 +1760,7 @@ impl TokioClientWorker {
             pending_unsubscribes_sync: HashMap::new(),
             pending_pings: VecDeque::new(),
             tick_timer: None,
+            last_tick_at: None,
         }
     }
 
@@ -1885,13 +1888,13 @@ impl TokioClientWorker {
     /// Update the tick timer (for keep-alive and retransmissions)
     fn update_tick_timer(&mut self) {
         if let Some(next_tick) = self.engine.next_tick_at() {
-            let now = Instant::now();
-            let delay = if next_tick > now {
-                next_tick.duration_since(now)
-            } else {
-                Duration::from_millis(10)
+            // Ticks that are overdue come at least 10 ms apart. The time is counted from
+            // the last tick: other activity must not put the next one off.
+            let deadline = match self.last_tick_at {
+                Some(last) => next_tick.max(last + Duration::from_millis(10)),
+                None => next_tick,
             };
-            self.tick_timer = Some(Box::pin(tokio::time::sleep(delay)));
+            self.tick_timer = Some(Box::pin(tokio::time::sleep_until(deadline.into())));
         } else {
             self.tick_timer = None;
         }
@@ -1962,6 +1965,7 @@ impl TokioClientWorker {
                     }
                 } => {
                     let now = Instant::now();
+                    self.last_tick_at = Some(now);
                     let events = self.engine.handle_tick(now);
                     self.dispatch_events(events).await;
                 }
-- 
2.43.0


From b0f7c569c4f2142f0f12b48d0e4cfb9440976d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:52 +0000
Subject: [PATCH 49/93] fix: the tokio client reported an unencodable publish
 only with the next tick

---
 src/mqtt_client/tokio_async_client.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 68c2d44..f1f2e95 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1975,6 +1975,11 @@ impl TokioClientWorker {
             if let Err(e) = self.handle_outgoing().await {
                 self.event_handler.on_error(&e).await;
                 self.handle_connection_lost().await;
+            } else if self.engine.is_connected() {
+                // Report what came up meanwhile (a publish that could not be encoded)
+                // now and not with the next tick, which can be a keep-alive away.
+                let events = self.engine.take_events();
+                self.dispatch_events(events).await;
             }
         }
     }
-- 
2.43.0


From e641d3c8c70c1846bbe4792aaa5ce1258ebf0575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:02 +0000
Subject: [PATCH 50/93] fix: TLS and QUIC engines of the bindings ignored
 username and password

---
 flowsdk_ffi/src/engine.rs | 60 ++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 36 deletions(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index 2073f74..a2c3b30 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -45,24 +45,7 @@ impl MqttEngineFFI {
 
     #[cfg_attr(feature = "uniffi-bindings", uniffi::constructor)]
     pub fn new_with_opts(opts: MqttOptionsFFI) -> Self {
-        let mut builder = MqttClientOptions::builder()
-            .client_id(opts.client_id)
-            .mqtt_version(opts.mqtt_version)
-            .clean_start(opts.clean_start)
-            .keep_alive(opts.keep_alive)
-            .reconnect_base_delay_ms(opts.reconnect_base_delay_ms)
-            .reconnect_max_delay_ms(opts.reconnect_max_delay_ms)
-            .max_reconnect_attempts(opts.max_reconnect_attempts);
-
-        if let Some(username) = opts.username {
-            builder = builder.username(username);
-        }
-
-        if let Some(password) = opts.password {
-            builder = builder.password(password);
-        }
-
-        let engine = MqttEngine::new(builder.build());
+        let engine = MqttEngine::new(client_options(opts));
         MqttEngineFFI {
             engine: Mutex::new(engine),
             start_time: Instant::now(),
@@ -183,6 +166,27 @@ impl MqttEngineFFI {
     }
 }
 
+fn client_options(opts: MqttOptionsFFI) -> MqttClientOptions {
+    let mut builder = MqttClientOptions::builder()
+        .client_id(opts.client_id)
+        .mqtt_version(opts.mqtt_version)
+        .clean_start(opts.clean_start)
+        .keep_alive(opts.keep_alive)
+        .reconnect_base_delay_ms(opts.reconnect_base_delay_ms)
+        .reconnect_max_delay_ms(opts.reconnect_max_delay_ms)
+        .max_reconnect_attempts(opts.max_reconnect_attempts);
+
+    if let Some(username) = opts.username {
+        builder = builder.username(username);
+    }
+
+    if let Some(password) = opts.password {
+        builder = builder.password(password);
+    }
+
+    builder.build()
+}
+
 fn map_event(event: MqttEvent) -> Option<MqttEventFFI> {
     match event {
         MqttEvent::Connected(res) => Some(MqttEventFFI::Connected(ConnectionResultFFI {
@@ -341,15 +345,7 @@ pub struct TlsMqttEngineFFI {
 impl TlsMqttEngineFFI {
     #[cfg_attr(feature = "uniffi-bindings", uniffi::constructor)]
     pub fn new(opts: MqttOptionsFFI, tls_opts: MqttTlsOptionsFFI, server_name: String) -> Self {
-        let options = MqttClientOptions::builder()
-            .client_id(opts.client_id)
-            .mqtt_version(opts.mqtt_version)
-            .clean_start(opts.clean_start)
-            .keep_alive(opts.keep_alive)
-            .reconnect_base_delay_ms(opts.reconnect_base_delay_ms)
-            .reconnect_max_delay_ms(opts.reconnect_max_delay_ms)
-            .max_reconnect_attempts(opts.max_reconnect_attempts)
-            .build();
+        let options = client_options(opts);
 
         #[cfg(feature = "quic-openssl")]
         let _ = rustls_openssl::default_provider().install_default();
@@ -606,15 +602,7 @@ pub struct QuicMqttEngineFFI {
 impl QuicMqttEngineFFI {
     #[cfg_attr(feature = "uniffi-bindings", uniffi::constructor)]
     pub fn new(opts: MqttOptionsFFI) -> Self {
-        let options = MqttClientOptions::builder()
-            .client_id(opts.client_id)
-            .mqtt_version(opts.mqtt_version)
-            .clean_start(opts.clean_start)
-            .keep_alive(opts.keep_alive)
-            .reconnect_base_delay_ms(opts.reconnect_base_delay_ms)
-            .reconnect_max_delay_ms(opts.reconnect_max_delay_ms)
-            .max_reconnect_attempts(opts.max_reconnect_attempts)
-            .build();
+        let options = client_options(opts);
 
         let engine = QuicMqttEngine::new(options).unwrap();
         QuicMqttEngineFFI {
-- 
2.43.0


From 657eb69335fa82c93b24a0b12ff9aaaaf9c8b0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:02 +0000
Subject: [PATCH 51/93] fix: the C constructors aborted the process on an
 unknown MQTT version

---
 flowsdk_ffi/src/engine.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index a2c3b30..aea1285 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -166,6 +166,11 @@ impl MqttEngineFFI {
     }
 }
 
+/// The MQTT versions the client options accept.
+fn is_supported_version(mqtt_version: u8) -> bool {
+    matches!(mqtt_version, 3..=5)
+}
+
 fn client_options(opts: MqttOptionsFFI) -> MqttClientOptions {
     let mut builder = MqttClientOptions::builder()
         .client_id(opts.client_id)
@@ -765,6 +770,9 @@ pub unsafe extern "C" fn mqtt_engine_new(
     client_id: *const c_char,
     mqtt_version: u8,
 ) -> *mut MqttEngineFFI {
+    if !is_supported_version(mqtt_version) {
+        return std::ptr::null_mut();
+    }
     let client_id = if client_id.is_null() {
         None
     } else {
@@ -785,6 +793,9 @@ pub unsafe extern "C" fn mqtt_engine_new_with_opts(
         return std::ptr::null_mut();
     }
     let r = &*opts;
+    if !is_supported_version(r.mqtt_version) {
+        return std::ptr::null_mut();
+    }
     let client_id = if r.client_id.is_null() {
         "mqtt_client".to_string()
     } else {
@@ -1044,6 +1055,9 @@ pub unsafe extern "C" fn mqtt_tls_engine_new(
     server_name: *const c_char,
     tls_opts: *const MqttTlsOptionsC,
 ) -> *mut TlsMqttEngineFFI {
+    if !is_supported_version(mqtt_version) {
+        return std::ptr::null_mut();
+    }
     let client_id = if client_id.is_null() {
         "mqtt_client".to_string()
     } else {
@@ -1321,6 +1335,9 @@ pub unsafe extern "C" fn mqtt_quic_engine_new(
     client_id: *const c_char,
     mqtt_version: u8,
 ) -> *mut QuicMqttEngineFFI {
+    if !is_supported_version(mqtt_version) {
+        return std::ptr::null_mut();
+    }
     let client_id = if client_id.is_null() {
         "mqtt_client".to_string()
     } else {
-- 
2.43.0


From 8d8b7ea94355106d5c4874ba3ad394a8a0556579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:58 +0000
Subject: [PATCH 52/93] fix: the C constructor for TLS aborted the process on
 an unusable server name or client key

---
 flowsdk_ffi/src/engine.rs | 200 ++++++++++++++++++++++----------------
 1 file changed, 114 insertions(+), 86 deletions(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index aea1285..b8b5d14 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -350,87 +350,7 @@ pub struct TlsMqttEngineFFI {
 impl TlsMqttEngineFFI {
     #[cfg_attr(feature = "uniffi-bindings", uniffi::constructor)]
     pub fn new(opts: MqttOptionsFFI, tls_opts: MqttTlsOptionsFFI, server_name: String) -> Self {
-        let options = client_options(opts);
-
-        #[cfg(feature = "quic-openssl")]
-        let _ = rustls_openssl::default_provider().install_default();
-        #[cfg(not(feature = "quic-openssl"))]
-        let _ = rustls::crypto::ring::default_provider().install_default();
-        let crypto_builder = rustls::ClientConfig::builder();
-
-        let mut config = if tls_opts.insecure_skip_verify {
-            crypto_builder
-                .dangerous()
-                .with_custom_certificate_verifier(Arc::new(InsecureServerCertVerifier))
-                .with_no_client_auth()
-        } else {
-            let mut root_store = rustls::RootCertStore::empty();
-            if let Some(ca_path) = tls_opts.ca_cert_file {
-                if let Ok(file) = std::fs::File::open(ca_path) {
-                    let mut reader = std::io::BufReader::new(file);
-                    let certs = rustls_pemfile::certs(&mut reader)
-                        .filter_map(|r| r.ok())
-                        .collect::<Vec<_>>();
-                    for cert in certs {
-                        root_store.add(cert).ok();
-                    }
-                }
-            } else {
-                for cert in rustls_native_certs::load_native_certs().unwrap_or_default() {
-                    root_store.add(cert).ok();
-                }
-            }
-
-            let mut client_auth = None;
-            if let (Some(cert_path), Some(key_path)) =
-                (tls_opts.client_cert_file, tls_opts.client_key_file)
-            {
-                if let (Ok(cert_file), Ok(key_file)) = (
-                    std::fs::File::open(cert_path),
-                    std::fs::File::open(key_path),
-                ) {
-                    let mut cert_reader = std::io::BufReader::new(cert_file);
-                    let mut key_reader = std::io::BufReader::new(key_file);
-                    let certs = rustls_pemfile::certs(&mut cert_reader)
-                        .filter_map(|r| r.ok())
-                        .collect::<Vec<_>>();
-                    let key = rustls_pemfile::private_key(&mut key_reader).ok().flatten();
-                    if !certs.is_empty() {
-                        if let Some(key) = key {
-                            client_auth = Some((certs, key));
-                        }
-                    }
-                }
-            }
-
-            let builder = crypto_builder.with_root_certificates(root_store);
-            if let Some((certs, key)) = client_auth {
-                builder.with_client_auth_cert(certs, key).unwrap()
-            } else {
-                builder.with_no_client_auth()
-            }
-        };
-
-        if !tls_opts.alpn_protocols.is_empty() {
-            config.alpn_protocols = tls_opts
-                .alpn_protocols
-                .into_iter()
-                .map(|s| s.into_bytes())
-                .collect();
-        } else {
-            config.alpn_protocols = vec![b"mqtt".to_vec()];
-        }
-
-        if tls_opts.enable_key_log {
-            config.key_log = Arc::new(rustls::KeyLogFile::new());
-        }
-
-        let engine = TlsMqttEngine::new(options, &server_name, Arc::new(config)).unwrap();
-        TlsMqttEngineFFI {
-            engine: Mutex::new(engine),
-            start_time: Instant::now(),
-            events: Mutex::new(Vec::new()),
-        }
+        Self::try_new(opts, tls_opts, server_name).unwrap()
     }
 
     pub fn handle_socket_data(&self, data: Vec<u8>) {
@@ -500,6 +420,104 @@ impl TlsMqttEngineFFI {
     }
 }
 
+#[cfg(feature = "tls")]
+impl TlsMqttEngineFFI {
+    /// Fails on a server name or a client certificate that cannot be used.
+    fn try_new(
+        opts: MqttOptionsFFI,
+        tls_opts: MqttTlsOptionsFFI,
+        server_name: String,
+    ) -> Result<Self, String> {
+        let options = client_options(opts);
+        let config = tls_client_config(tls_opts).map_err(|e| e.to_string())?;
+        let engine = TlsMqttEngine::new(options, &server_name, Arc::new(config))
+            .map_err(|e| e.to_string())?;
+        Ok(TlsMqttEngineFFI {
+            engine: Mutex::new(engine),
+            start_time: Instant::now(),
+            events: Mutex::new(Vec::new()),
+        })
+    }
+}
+
+#[cfg(feature = "tls")]
+fn tls_client_config(tls_opts: MqttTlsOptionsFFI) -> Result<rustls::ClientConfig, rustls::Error> {
+    #[cfg(feature = "quic-openssl")]
+    let _ = rustls_openssl::default_provider().install_default();
+    #[cfg(not(feature = "quic-openssl"))]
+    let _ = rustls::crypto::ring::default_provider().install_default();
+    let crypto_builder = rustls::ClientConfig::builder();
+
+    let mut config = if tls_opts.insecure_skip_verify {
+        crypto_builder
+            .dangerous()
+            .with_custom_certificate_verifier(Arc::new(InsecureServerCertVerifier))
+            .with_no_client_auth()
+    } else {
+        let mut root_store = rustls::RootCertStore::empty();
+        if let Some(ca_path) = tls_opts.ca_cert_file {
+            if let Ok(file) = std::fs::File::open(ca_path) {
+                let mut reader = std::io::BufReader::new(file);
+                let certs = rustls_pemfile::certs(&mut reader)
+                    .filter_map(|r| r.ok())
+                    .collect::<Vec<_>>();
+                for cert in certs {
+                    root_store.add(cert).ok();
+                }
+            }
+        } else {
+            for cert in rustls_native_certs::load_native_certs().unwrap_or_default() {
+                root_store.add(cert).ok();
+            }
+        }
+
+        let mut client_auth = None;
+        if let (Some(cert_path), Some(key_path)) =
+            (tls_opts.client_cert_file, tls_opts.client_key_file)
+        {
+            if let (Ok(cert_file), Ok(key_file)) = (
+                std::fs::File::open(cert_path),
+                std::fs::File::open(key_path),
+            ) {
+                let mut cert_reader = std::io::BufReader::new(cert_file);
+                let mut key_reader = std::io::BufReader::new(key_file);
+                let certs = rustls_pemfile::certs(&mut cert_reader)
+                    .filter_map(|r| r.ok())
+                    .collect::<Vec<_>>();
+                let key = rustls_pemfile::private_key(&mut key_reader).ok().flatten();
+                if !certs.is_empty() {
+                    if let Some(key) = key {
+                        client_auth = Some((certs, key));
+                    }
+                }
+            }
+        }
+
+        let builder = crypto_builder.with_root_certificates(root_store);
+        if let Some((certs, key)) = client_auth {
+            builder.with_client_auth_cert(certs, key)?
+        } else {
+            builder.with_no_client_auth()
+        }
+    };
+
+    if !tls_opts.alpn_protocols.is_empty() {
+        config.alpn_protocols = tls_opts
+            .alpn_protocols
+            .into_iter()
+            .map(|s| s.into_bytes())
+            .collect();
+    } else {
+        config.alpn_protocols = vec![b"mqtt".to_vec()];
+    }
+
+    if tls_opts.enable_key_log {
+        config.key_log = Arc::new(rustls::KeyLogFile::new());
+    }
+
+    Ok(config)
+}
+
 #[cfg(not(feature = "tls"))]
 #[cfg_attr(feature = "uniffi-bindings", derive(uniffi::Object))]
 pub struct TlsMqttEngineFFI {
@@ -554,6 +572,17 @@ impl TlsMqttEngineFFI {
     }
 }
 
+#[cfg(not(feature = "tls"))]
+impl TlsMqttEngineFFI {
+    fn try_new(
+        opts: MqttOptionsFFI,
+        tls_opts: MqttTlsOptionsFFI,
+        server_name: String,
+    ) -> Result<Self, String> {
+        Ok(Self::new(opts, tls_opts, server_name))
+    }
+}
+
 #[derive(Debug)]
 struct InsecureServerCertVerifier;
 
@@ -1134,11 +1163,10 @@ pub unsafe extern "C" fn mqtt_tls_engine_new(
         }
     };
 
-    Box::into_raw(Box::new(TlsMqttEngineFFI::new(
-        opts,
-        tls_opts_v,
-        server_name,
-    )))
+    match TlsMqttEngineFFI::try_new(opts, tls_opts_v, server_name) {
+        Ok(engine) => Box::into_raw(Box::new(engine)),
+        Err(_) => std::ptr::null_mut(),
+    }
 }
 
 /// # Safety
-- 
2.43.0


From 252ddc4aee3df9ff9b6ec5ec7edf9e4130dd578f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:58 +0000
Subject: [PATCH 53/93] fix: the QUIC engine of the bindings ignored client
 certificate and ALPN

---
 flowsdk_ffi/src/engine.rs | 55 ++++++---------------------------------
 1 file changed, 8 insertions(+), 47 deletions(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index b8b5d14..e789214 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -440,7 +440,6 @@ impl TlsMqttEngineFFI {
     }
 }
 
-#[cfg(feature = "tls")]
 fn tls_client_config(tls_opts: MqttTlsOptionsFFI) -> Result<rustls::ClientConfig, rustls::Error> {
     #[cfg(feature = "quic-openssl")]
     let _ = rustls_openssl::default_provider().install_default();
@@ -656,53 +655,10 @@ impl QuicMqttEngineFFI {
         let addr: SocketAddr = server_addr.parse().unwrap();
         let now = self.start_time + Duration::from_millis(now_ms);
 
-        #[cfg(feature = "quic-openssl")]
-        let _ = rustls_openssl::default_provider().install_default();
-        #[cfg(not(feature = "quic-openssl"))]
-        let _ = rustls::crypto::ring::default_provider().install_default();
-        let crypto_builder = rustls::ClientConfig::builder();
-
-        let mut config = if tls_opts.insecure_skip_verify {
-            crypto_builder
-                .dangerous()
-                .with_custom_certificate_verifier(Arc::new(InsecureServerCertVerifier))
-                .with_no_client_auth()
-        } else {
-            let mut root_store = rustls::RootCertStore::empty();
-            if let Some(ca_path) = tls_opts.ca_cert_file {
-                if let Ok(file) = std::fs::File::open(ca_path) {
-                    let mut reader = std::io::BufReader::new(file);
-                    let certs = rustls_pemfile::certs(&mut reader)
-                        .filter_map(|r| r.ok())
-                        .collect::<Vec<_>>();
-                    for cert in certs {
-                        root_store.add(cert).ok();
-                    }
-                }
-            } else {
-                for cert in rustls_native_certs::load_native_certs().unwrap_or_default() {
-                    root_store.add(cert).ok();
-                }
-            }
-            crypto_builder
-                .with_root_certificates(root_store)
-                .with_no_client_auth()
+        let Ok(config) = tls_client_config(tls_opts) else {
+            return;
         };
 
-        if !tls_opts.alpn_protocols.is_empty() {
-            config.alpn_protocols = tls_opts
-                .alpn_protocols
-                .into_iter()
-                .map(|s| s.into_bytes())
-                .collect();
-        } else {
-            config.alpn_protocols = vec![b"mqtt".to_vec()];
-        }
-
-        if tls_opts.enable_key_log {
-            config.key_log = Arc::new(rustls::KeyLogFile::new());
-        }
-
         self.engine
             .lock()
             .unwrap()
@@ -1450,12 +1406,17 @@ pub unsafe extern "C" fn mqtt_quic_engine_connect(
                         .into_owned(),
                 )
             };
+            let alpn_protocols = if r.alpn.is_null() {
+                vec!["mqtt".to_string()]
+            } else {
+                vec![CStr::from_ptr(r.alpn).to_string_lossy().into_owned()]
+            };
             MqttTlsOptionsFFI {
                 ca_cert_file,
                 client_cert_file,
                 client_key_file,
                 insecure_skip_verify: r.insecure_skip_verify != 0,
-                alpn_protocols: vec!["mqtt".to_string()],
+                alpn_protocols,
                 enable_key_log: r.enable_key_log != 0,
             }
         };
-- 
2.43.0


From c6063c57660de3b113f8bdb598a654fc005280ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:58 +0000
Subject: [PATCH 54/93] fix: connect of the QUIC bindings panicked on a bad
 address and hid other failures

---
 flowsdk_ffi/src/engine.rs | 51 +++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index e789214..2e94936 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -652,18 +652,12 @@ impl QuicMqttEngineFFI {
         tls_opts: MqttTlsOptionsFFI,
         now_ms: u64,
     ) {
-        let addr: SocketAddr = server_addr.parse().unwrap();
-        let now = self.start_time + Duration::from_millis(now_ms);
-
-        let Ok(config) = tls_client_config(tls_opts) else {
-            return;
-        };
-
-        self.engine
-            .lock()
-            .unwrap()
-            .connect(addr, &server_name, config, now)
-            .ok();
+        if let Err(message) = self.try_connect(server_addr, server_name, tls_opts, now_ms) {
+            self.events
+                .lock()
+                .unwrap()
+                .push(MqttEventFFI::Error { message });
+        }
     }
 
     fn elapsed_ms(&self) -> u64 {
@@ -671,7 +665,9 @@ impl QuicMqttEngineFFI {
     }
 
     pub fn handle_datagram(&self, data: Vec<u8>, remote_addr: String, now_ms: u64) {
-        let addr: SocketAddr = remote_addr.parse().unwrap();
+        let Ok(addr) = remote_addr.parse::<SocketAddr>() else {
+            return;
+        };
         let now = self.start_time + Duration::from_millis(now_ms);
         self.engine.lock().unwrap().handle_datagram(data, addr, now);
     }
@@ -743,6 +739,29 @@ impl QuicMqttEngineFFI {
     }
 }
 
+impl QuicMqttEngineFFI {
+    /// Fails on an address, a server name or a client certificate that cannot be used.
+    fn try_connect(
+        &self,
+        server_addr: String,
+        server_name: String,
+        tls_opts: MqttTlsOptionsFFI,
+        now_ms: u64,
+    ) -> Result<(), String> {
+        let addr: SocketAddr = server_addr
+            .parse()
+            .map_err(|e| format!("Invalid server address: {e}"))?;
+        let now = self.start_time + Duration::from_millis(now_ms);
+        let config = tls_client_config(tls_opts).map_err(|e| e.to_string())?;
+
+        self.engine
+            .lock()
+            .unwrap()
+            .connect(addr, &server_name, config, now)
+            .map_err(|e| e.to_string())
+    }
+}
+
 // --- C-Compatible FFI Layer ---
 // This layer provides a stable ABI for the C examples, mapping to the UniFFI objects.
 
@@ -1421,8 +1440,10 @@ pub unsafe extern "C" fn mqtt_quic_engine_connect(
             }
         };
 
-        engine.connect(server_addr, server_name, tls_opts_v, engine.elapsed_ms());
-        0
+        match engine.try_connect(server_addr, server_name, tls_opts_v, engine.elapsed_ms()) {
+            Ok(()) => 0,
+            Err(_) => -1,
+        }
     } else {
         -1
     }
-- 
2.43.0


From 267f2a7934392cf9b8828c8b3b17207eaaded2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:15 +0000
Subject: [PATCH 55/93] fix: taking bytes through C without a place for their
 length lost and leaked them

---
 flowsdk_ffi/src/engine.rs | 44 ++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index 2e94936..1f5c162 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -896,17 +896,17 @@ pub unsafe extern "C" fn mqtt_engine_take_outgoing(
     ptr: *mut MqttEngineFFI,
     out_len: *mut usize,
 ) -> *mut u8 {
+    // Without the length the caller could neither read nor free the bytes.
+    if out_len.is_null() {
+        return std::ptr::null_mut();
+    }
     if let Some(engine) = ptr.as_ref() {
         let bytes = engine.take_outgoing();
         if bytes.is_empty() {
-            if !out_len.is_null() {
-                *out_len = 0;
-            }
+            *out_len = 0;
             return std::ptr::null_mut();
         }
-        if !out_len.is_null() {
-            *out_len = bytes.len();
-        }
+        *out_len = bytes.len();
         let mut b = bytes.into_boxed_slice();
         let p = b.as_mut_ptr();
         std::mem::forget(b);
@@ -1187,17 +1187,17 @@ pub unsafe extern "C" fn mqtt_tls_engine_take_socket_data(
     ptr: *mut TlsMqttEngineFFI,
     out_len: *mut usize,
 ) -> *mut u8 {
+    // Without the length the caller could neither read nor free the bytes.
+    if out_len.is_null() {
+        return std::ptr::null_mut();
+    }
     if let Some(engine) = ptr.as_ref() {
         let bytes = engine.take_socket_data();
         if bytes.is_empty() {
-            if !out_len.is_null() {
-                *out_len = 0;
-            }
+            *out_len = 0;
             return std::ptr::null_mut();
         }
-        if !out_len.is_null() {
-            *out_len = bytes.len();
-        }
+        *out_len = bytes.len();
         let mut b = bytes.into_boxed_slice();
         let p = b.as_mut_ptr();
         std::mem::forget(b);
@@ -1474,12 +1474,14 @@ pub unsafe extern "C" fn mqtt_quic_engine_take_outgoing_datagrams(
     ptr: *mut QuicMqttEngineFFI,
     out_count: *mut usize,
 ) -> *mut MqttDatagramC {
+    // Without the count the caller could neither read nor free the datagrams.
+    if out_count.is_null() {
+        return std::ptr::null_mut();
+    }
     if let Some(engine) = ptr.as_ref() {
         let dgs = engine.take_outgoing_datagrams();
         if dgs.is_empty() {
-            if !out_count.is_null() {
-                *out_count = 0;
-            }
+            *out_count = 0;
             return std::ptr::null_mut();
         }
 
@@ -1497,9 +1499,7 @@ pub unsafe extern "C" fn mqtt_quic_engine_take_outgoing_datagrams(
             });
         }
 
-        if !out_count.is_null() {
-            *out_count = result.len();
-        }
+        *out_count = result.len();
         let mut b = result.into_boxed_slice();
         let p = b.as_mut_ptr();
         std::mem::forget(b);
@@ -1802,11 +1802,13 @@ pub unsafe extern "C" fn mqtt_event_list_get_message_payload(
     index: usize,
     out_len: *mut usize,
 ) -> *mut u8 {
+    // Without the length the caller could neither read nor free the payload.
+    if out_len.is_null() {
+        return std::ptr::null_mut();
+    }
     if let Some(list) = ptr.as_ref() {
         if let Some(MqttEventFFI::MessageReceived(msg)) = list.events.get(index) {
-            if !out_len.is_null() {
-                *out_len = msg.payload.len();
-            }
+            *out_len = msg.payload.len();
             let mut b = msg.payload.clone().into_boxed_slice();
             let p = b.as_mut_ptr();
             std::mem::forget(b);
-- 
2.43.0


From a1649251b164e352a23bb14044193276adc1f38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:15 +0000
Subject: [PATCH 56/93] fix: the TLS engine of the bindings dropped TLS errors

---
 flowsdk_ffi/src/engine.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index 1f5c162..19233d1 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -354,7 +354,11 @@ impl TlsMqttEngineFFI {
     }
 
     pub fn handle_socket_data(&self, data: Vec<u8>) {
-        self.engine.lock().unwrap().handle_socket_data(&data).ok();
+        if let Err(err) = self.engine.lock().unwrap().handle_socket_data(&data) {
+            self.events.lock().unwrap().push(MqttEventFFI::Error {
+                message: format!("{:?}", err),
+            });
+        }
     }
 
     pub fn take_socket_data(&self) -> Vec<u8> {
-- 
2.43.0


From b341e8a1406f1f0ea7c4eaf2c06a3e23af71a388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:41 +0000
Subject: [PATCH 57/93] fix: the bindings took ALPN names that cannot be put
 into a ClientHello

---
 flowsdk_ffi/src/engine.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index 19233d1..062aa7c 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -504,6 +504,15 @@ fn tls_client_config(tls_opts: MqttTlsOptionsFFI) -> Result<rustls::ClientConfig
         }
     };
 
+    if tls_opts
+        .alpn_protocols
+        .iter()
+        .any(|s| s.is_empty() || s.len() > 255)
+    {
+        return Err(rustls::Error::General(
+            "an ALPN protocol name has 1 to 255 bytes".to_string(),
+        ));
+    }
     if !tls_opts.alpn_protocols.is_empty() {
         config.alpn_protocols = tls_opts
             .alpn_protocols
-- 
2.43.0


From 00b911c2e6abc92cef2389f75fac3202cb936b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:44 +0000
Subject: [PATCH 58/93] fix: a QoS 0 PUBLISH came out of the gRPC message with
 a packet identifier

---
 mqtt_grpc_duality/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mqtt_grpc_duality/src/lib.rs b/mqtt_grpc_duality/src/lib.rs
index f53972b..e99f264 100644
--- a/mqtt_grpc_duality/src/lib.rs
+++ b/mqtt_grpc_duality/src/lib.rs
@@ -310,7 +310,10 @@ impl From<mqttv5pb::Publish> for MqttPublish {
         let mut mqtt_publish = MqttPublish::new(
             publish.qos as u8,
             publish.topic,
-            Some(publish.message_id as u16),
+            match publish.message_id {
+                0 => None, // QoS 0
+                id => Some(id as u16),
+            },
             publish.payload,
             publish.retain,
             publish.dup,
-- 
2.43.0


From bb94246b2fd4b151f34f3e75d2f9f1c7e983a6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:53 +0000
Subject: [PATCH 59/93] fix: empty user names and passwords were lost in the
 gRPC messages

---
 mqtt_grpc_duality/proto/mqttv3.proto |  4 ++--
 mqtt_grpc_duality/proto/mqttv5.proto |  4 ++--
 mqtt_grpc_duality/src/lib.rs         | 32 +++++++---------------------
 3 files changed, 12 insertions(+), 28 deletions(-)

diff --git a/mqtt_grpc_duality/proto/mqttv3.proto b/mqtt_grpc_duality/proto/mqttv3.proto
index 85408fa..11927c3 100644
--- a/mqtt_grpc_duality/proto/mqttv3.proto
+++ b/mqtt_grpc_duality/proto/mqttv3.proto
@@ -35,9 +35,9 @@ message Connect {
   // Keep-alive timer in seconds (16-bit).
   uint32 keep_alive = 5;
   // Username (optional).
-  string username = 6;
+  optional string username = 6;
   // Password (optional, binary data).
-  bytes password = 7;
+  optional bytes password = 7;
   // Will message (optional).
   Will will = 8;
 }
diff --git a/mqtt_grpc_duality/proto/mqttv5.proto b/mqtt_grpc_duality/proto/mqttv5.proto
index 63bb659..ecdf4a5 100644
--- a/mqtt_grpc_duality/proto/mqttv5.proto
+++ b/mqtt_grpc_duality/proto/mqttv5.proto
@@ -75,9 +75,9 @@ message Connect {
   // Keep-alive timer in seconds (16-bit).
   uint32 keep_alive = 5;
   // Username (optional).
-  string username = 6;
+  optional string username = 6;
   // Password (optional, binary data).
-  bytes password = 7;
+  optional bytes password = 7;
   // Will message (optional).
   Will will = 8;
   // MQTT 5.0 properties.
diff --git a/mqtt_grpc_duality/src/lib.rs b/mqtt_grpc_duality/src/lib.rs
index e99f264..884ae9b 100644
--- a/mqtt_grpc_duality/src/lib.rs
+++ b/mqtt_grpc_duality/src/lib.rs
@@ -187,8 +187,8 @@ impl From<MqttConnect> for mqttv5pb::Connect {
             protocol_version: connect.protocol_version as u32,
             clean_start: connect.is_clean_start(),
             keep_alive: connect.keep_alive as u32,
-            username: connect.username.unwrap_or_default(),
-            password: connect.password.unwrap_or_default(),
+            username: connect.username,
+            password: connect.password,
             will: connect.will.map(|will| mqttv5pb::Will {
                 qos: will.will_qos as i32,
                 retain: will.will_retain,
@@ -439,16 +439,8 @@ impl From<mqttv5pb::Connect> for MqttConnect {
 
         MqttConnect::new(
             connect.client_id,
-            if connect.username.is_empty() {
-                None
-            } else {
-                Some(connect.username)
-            },
-            if connect.password.is_empty() {
-                None
-            } else {
-                Some(connect.password)
-            },
+            connect.username,
+            connect.password,
             connect
                 .will
                 .map(|will| flowsdk::mqtt_serde::mqttv5::will::Will {
@@ -727,8 +719,8 @@ impl From<MqttConnectV3> for mqttv3pb::Connect {
             protocol_version: connect.protocol_version as u32,
             clean_session: connect.clean_session,
             keep_alive: connect.keep_alive as u32,
-            username: connect.username.unwrap_or_default(),
-            password: connect.password.unwrap_or_default(),
+            username: connect.username,
+            password: connect.password,
             will: connect.will.map(|will| mqttv3pb::Will {
                 qos: will.qos as i32,
                 retain: will.retain,
@@ -860,16 +852,8 @@ impl From<mqttv3pb::Connect> for MqttConnectV3 {
             client_id: connect.client_id,
             clean_session: connect.clean_session,
             keep_alive: connect.keep_alive as u16,
-            username: if connect.username.is_empty() {
-                None
-            } else {
-                Some(connect.username)
-            },
-            password: if connect.password.is_empty() {
-                None
-            } else {
-                Some(connect.password)
-            },
+            username: connect.username,
+            password: connect.password,
             will,
         }
     }
-- 
2.43.0


From 0fde75aed788fb32dbb9a5174b29a8928d121544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:03 +0000
Subject: [PATCH 60/93] fix: r-proxy panicked on or refused client identifiers
 that do not fit an HTTP/2 header

---
 mqtt_grpc_duality/src/bin/r-proxy.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mqtt_grpc_duality/src/bin/r-proxy.rs b/mqtt_grpc_duality/src/bin/r-proxy.rs
index 235b7ce..30d0b35 100644
--- a/mqtt_grpc_duality/src/bin/r-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/r-proxy.rs
@@ -136,6 +136,12 @@ async fn signal_shutdown() {
     }
 }
 
+/// The form in which a client identifier goes into HTTP/2 headers: it may hold any character and
+/// be up to 64 KB long, header values may not.
+fn header_text(client_id: &str) -> String {
+    client_id.escape_default().take(128).collect()
+}
+
 /// Setup a new gRPC bidirectional stream using the shared channel
 ///
 /// Phase 1: This function reuses the shared gRPC channel instead of creating
@@ -164,8 +170,8 @@ async fn setup_grpc_streaming(
 
     // Add session_id and client_id as gRPC metadata (HTTP/2 headers)
     let metadata = request.metadata_mut();
-    metadata.insert("session-id", session_id.parse().unwrap());
-    metadata.insert("client-id", client_id.parse().unwrap());
+    metadata.insert("session-id", session_id.parse()?);
+    metadata.insert("client-id", header_text(&client_id).parse()?);
 
     let inbound_gstream = client.stream_mqtt_messages(request).await?.into_inner();
 
@@ -188,7 +194,7 @@ async fn handle_new_incoming_tcp(
     let mqtt_version = connect.version();
     let session_id: String = format!(
         "{}-{}",
-        client_id,
+        header_text(&client_id),
         state.sequence_counter.fetch_add(1, Ordering::SeqCst)
     );
 
-- 
2.43.0


From 41af71ebc2a46382a3d5f13874bf655cb18c17c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:18 +0000
Subject: [PATCH 61/93] fix: r-proxy held back packets that came along with the
 CONNECT packet

---
 mqtt_grpc_duality/src/bin/r-proxy.rs | 95 ++++++++++++++++------------
 1 file changed, 54 insertions(+), 41 deletions(-)

diff --git a/mqtt_grpc_duality/src/bin/r-proxy.rs b/mqtt_grpc_duality/src/bin/r-proxy.rs
index 30d0b35..9d1afca 100644
--- a/mqtt_grpc_duality/src/bin/r-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/r-proxy.rs
@@ -283,6 +283,60 @@ async fn start_streaming_loop(
     let sequence_counter: Arc<AtomicU64> = Arc::new(AtomicU64::new(1));
 
     'outer: loop {
+        // Parse all available packets from the buffer: the first of them may have come
+        // along with the CONNECT packet
+        loop {
+            match parser.next_packet() {
+                Ok(Some(packet)) => {
+                    debug!(
+                        "Parsed MQTT packet from client {}: {:?}",
+                        conn.client_id, packet
+                    );
+                    // Convert MQTT packet to gRPC stream message using unified approach
+                    // Note: session_id is sent via gRPC metadata, not in the message
+                    let stream_msg = convert_mqtt_to_stream_message(
+                        &packet,
+                        sequence_counter.fetch_add(1, Ordering::SeqCst),
+                        mqtt_unified_pb::MessageDirection::ClientToBroker,
+                    );
+
+                    if let Some(msg) = stream_msg {
+                        if let Err(e) = conn.grpc_stream_sender.send(msg).await {
+                            error!(
+                                "Failed to send MQTT packet to gRPC stream for client {}: {}",
+                                conn.client_id, e
+                            );
+                            break;
+                        } else {
+                            debug!("MQTT packet forwarded to s-proxy for client {} (session: {}): {:?}",
+                                   conn.client_id, conn.session_id, packet);
+                        }
+                    } else {
+                        error!(
+                            "Failed to convert MQTT packet to stream message for client {}: {:?}",
+                            conn.client_id, packet
+                        );
+                    }
+
+                    // Continue parsing more packets from the same buffer
+                    if parser.buffer_mut().is_empty() {
+                        break; // No more data to parse, exit inner loop
+                    }
+                }
+                Ok(None) => {
+                    // No more complete packets available, exit parsing loop
+                    break;
+                }
+                Err(e) => {
+                    error!(
+                        "Error parsing MQTT packet from client {}: {}",
+                        conn.client_id, e
+                    );
+                    break 'outer;
+                }
+            }
+        }
+
         tokio::select! {
             // Handle MQTT messages, client facing.
             n = conn.read_h.read_buf(parser.buffer_mut()) => {
@@ -297,47 +351,6 @@ async fn start_streaming_loop(
                         break 'outer;
                     }
                 }
-                // Parse all available packets from the buffer
-                loop {
-                    match parser.next_packet() {
-                        Ok(Some(packet)) => {
-                            debug!("Parsed MQTT packet from client {}: {:?}", conn.client_id, packet);
-                            // Convert MQTT packet to gRPC stream message using unified approach
-                            // Note: session_id is sent via gRPC metadata, not in the message
-                            let stream_msg = convert_mqtt_to_stream_message(
-                                &packet,
-                                sequence_counter.fetch_add(1, Ordering::SeqCst),
-                                mqtt_unified_pb::MessageDirection::ClientToBroker,
-                            );
-
-
-                            if let Some(msg) = stream_msg {
-                                if let Err(e) = conn.grpc_stream_sender.send(msg).await {
-                                    error!("Failed to send MQTT packet to gRPC stream for client {}: {}", conn.client_id, e);
-                                    break;
-                                } else {
-                                    debug!("MQTT packet forwarded to s-proxy for client {} (session: {}): {:?}",
-                                           conn.client_id, conn.session_id, packet);
-                                }
-                            } else {
-                                error!("Failed to convert MQTT packet to stream message for client {}: {:?}", conn.client_id, packet);
-                            }
-
-                            // Continue parsing more packets from the same buffer
-                            if parser.buffer_mut().is_empty() {
-                                break; // No more data to parse, exit inner loop
-                            }
-                        }
-                        Ok(None) => {
-                            // No more complete packets available, exit parsing loop
-                            break;
-                        }
-                        Err(e) => {
-                            error!("Error parsing MQTT packet from client {}: {}", conn.client_id, e);
-                            break 'outer;
-                        }
-                    }
-                }
             }
 
             // Handle gRPC messages, s-proxy facing
-- 
2.43.0


From 223e9796d49bf0f8c827b800d6389facb97daf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:09 +0000
Subject: [PATCH 62/93] fix: s-proxy mixed up clients that share a client
 identifier

---
 mqtt_grpc_duality/src/bin/s-proxy.rs | 111 +++++++--------------------
 1 file changed, 28 insertions(+), 83 deletions(-)

diff --git a/mqtt_grpc_duality/src/bin/s-proxy.rs b/mqtt_grpc_duality/src/bin/s-proxy.rs
index c99a5d3..9c2c22b 100644
--- a/mqtt_grpc_duality/src/bin/s-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/s-proxy.rs
@@ -1,7 +1,5 @@
 // SPDX-License-Identifier: MPL-2.0
 
-use dashmap::DashMap;
-use std::sync::Arc;
 use std::{env, net::SocketAddr};
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
 #[cfg(unix)]
@@ -28,25 +26,14 @@ pub enum BrokerControlMessage {
     Packet(flowsdk::mqtt_serde::control_packet::MqttPacket),
 }
 
-type ConnectionInfo = (
-    mpsc::Sender<BrokerControlMessage>, // Control message sender for all MQTT commands
-    mpsc::Sender<Result<MqttStreamMessage, Status>>, // Response stream sender
-    String,                             // session_id
-);
-
 #[derive(Debug)]
 pub struct MyRelay {
-    // Shared state for managing connections - store publish sender and response stream sender
-    connections: Arc<DashMap<String, ConnectionInfo>>,
     broker_addr: SocketAddr,
 }
 
 impl MyRelay {
     pub fn new(broker_addr: SocketAddr) -> Self {
-        Self {
-            connections: Arc::new(DashMap::new()),
-            broker_addr,
-        }
+        Self { broker_addr }
     }
 }
 
@@ -79,7 +66,6 @@ impl MqttRelayService for MyRelay {
 
         let mut incoming_stream = request.into_inner();
         let (response_tx, response_rx) = tokio::sync::mpsc::channel(128);
-        let connections = self.connections.clone();
         let broker_addr = self.broker_addr; // Capture broker_addr before move
 
         let token = CancellationToken::new();
@@ -87,6 +73,10 @@ impl MqttRelayService for MyRelay {
         // Handle the bidirectional stream
         tokio::spawn(async move {
             let session_id = session_id_from_metadata; // Use session_id from metadata (owned)
+
+            // The way to this stream's own broker connection. It belongs to the stream, not to the
+            // client or session identifier: neither is unique among the streams.
+            let mut broker_tx: Option<mpsc::Sender<BrokerControlMessage>> = None;
             loop {
                 let cloned_token: CancellationToken = token.clone();
 
@@ -109,44 +99,32 @@ impl MqttRelayService for MyRelay {
                                 mqtt_unified_pb::mqtt_stream_message::Payload::MqttV3Packet(
                                     packet,
                                 ) => {
-                                    if let Some(p) = packet.packet {
-                                        if let Some(client_id) =
-                                            find_client_by_session(&connections, &session_id)
+                                    if let (Some(p), Some(broker_tx)) = (packet.packet, &broker_tx)
+                                    {
+                                        if let Err(e) = broker_tx
+                                            .send(BrokerControlMessage::Packet(p.into()))
+                                            .await
                                         {
-                                            if let Some(conn) = connections.get(&client_id) {
-                                                let (broker_tx, _, _) = conn.value();
-                                                if let Err(e) = broker_tx
-                                                    .send(BrokerControlMessage::Packet(p.into()))
-                                                    .await
-                                                {
-                                                    error!(
-                                                        "Failed to forward packet to broker for client {}: {}",
-                                                        client_id, e
-                                                    );
-                                                }
-                                            }
+                                            error!(
+                                                "Failed to forward packet to broker for session {}: {}",
+                                                session_id, e
+                                            );
                                         }
                                     }
                                 }
                                 mqtt_unified_pb::mqtt_stream_message::Payload::MqttV5Packet(
                                     packet,
                                 ) => {
-                                    if let Some(p) = packet.packet {
-                                        if let Some(client_id) =
-                                            find_client_by_session(&connections, &session_id)
+                                    if let (Some(p), Some(broker_tx)) = (packet.packet, &broker_tx)
+                                    {
+                                        if let Err(e) = broker_tx
+                                            .send(BrokerControlMessage::Packet(p.into()))
+                                            .await
                                         {
-                                            if let Some(conn) = connections.get(&client_id) {
-                                                let (broker_tx, _, _) = conn.value();
-                                                if let Err(e) = broker_tx
-                                                    .send(BrokerControlMessage::Packet(p.into()))
-                                                    .await
-                                                {
-                                                    error!(
-                                                        "Failed to forward packet to broker for client {}: {}",
-                                                        client_id, e
-                                                    );
-                                                }
-                                            }
+                                            error!(
+                                                "Failed to forward packet to broker for session {}: {}",
+                                                session_id, e
+                                            );
                                         }
                                     }
                                 }
@@ -166,22 +144,11 @@ impl MqttRelayService for MyRelay {
                                             info!("Received Establish from client: {}", client_id);
 
                                             // Create broker connection for this client
-                                            let connections = connections.clone();
                                             let response_tx_for_spawn = response_tx.clone();
                                             let session_id_for_spawn = session_id.clone();
-                                                       let (broker_tx, broker_rx) =
-                                                            tokio::sync::mpsc::channel::<BrokerControlMessage>(
-                                                                32,
-                                                            );
-                                                      // Store connection info
-                                                        connections.insert(
-                                                            client_id.clone(),
-                                                            (
-                                                                broker_tx,
-                                                                response_tx_for_spawn.clone(),
-                                                                session_id_for_spawn.clone(),
-                                                            ),
-                                                        );
+                                            let (tx, broker_rx) =
+                                                tokio::sync::mpsc::channel::<BrokerControlMessage>(32);
+                                            broker_tx = Some(tx);
 
                                             tokio::spawn(async move {
                                                 match mqtt_connect_to_broker(broker_addr).await {
@@ -194,7 +161,6 @@ impl MqttRelayService for MyRelay {
                                                         // Start the MQTT client loop to handle broker communication
                                                         mqtt_client_loop_simple(
                                                             cloned_token,
-                                                            connections.clone(),
                                                             broker_rx,
                                                             stream,
                                                             response_tx_for_spawn,
@@ -213,12 +179,8 @@ impl MqttRelayService for MyRelay {
                                             });
                                         }
                                         x if x == mqtt_unified_pb::session_control::ControlType::Terminate as i32 => {
-                                            if let Some(client_id) =
-                                                find_client_by_session(&connections, &session_id)
-                                            {
-                                                debug!("Client {} disconnecting", client_id);
-                                                connections.remove(&client_id);
-                                            }
+                                            debug!("Session {} terminated", session_id);
+                                            broker_tx = None;
                                         }
                                         _ => {}
                                     }
@@ -247,7 +209,6 @@ async fn mqtt_connect_to_broker(broker_addr: SocketAddr) -> Result<tokio::net::T
 
 async fn mqtt_client_loop_simple(
     token: CancellationToken,
-    connections: Arc<DashMap<String, ConnectionInfo>>,
     mut rx: mpsc::Receiver<BrokerControlMessage>,
     mut stream: tokio::net::TcpStream,
     response_tx: mpsc::Sender<Result<MqttStreamMessage, Status>>,
@@ -262,7 +223,6 @@ async fn mqtt_client_loop_simple(
             _ = token.cancelled() => {
                 // The token was cancelled
                 info!("Cancellation token triggered, exiting MQTT client loop for session: {}", session_id);
-                connections.remove(&session_id);
                 break;
             }
 
@@ -288,7 +248,6 @@ async fn mqtt_client_loop_simple(
                 match result {
                     Ok(0) => {
                         info!("Connection closed by the broker");
-                        connections.remove(&session_id);
                         break;
                     }
                     Ok(n) => {
@@ -328,20 +287,6 @@ async fn mqtt_client_loop_simple(
     }
 }
 
-// Helper function to find client by session ID
-fn find_client_by_session(
-    connections: &Arc<DashMap<String, ConnectionInfo>>,
-    session_id: &str,
-) -> Option<String> {
-    for entry in connections.iter() {
-        let (_, _, stored_session_id) = entry.value();
-        if stored_session_id == session_id {
-            return Some(entry.key().clone());
-        }
-    }
-    None
-}
-
 #[tokio::main]
 async fn main() -> Result<(), Box<dyn std::error::Error>> {
     tracing_subscriber::fmt::init();
-- 
2.43.0


From c1e2c34073a157d59ccf4e197ec1de10acaf4bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:37 +0000
Subject: [PATCH 63/93] fix: s-proxy left clients connected after their broker
 connection failed or ended

---
 mqtt_grpc_duality/src/bin/s-proxy.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/mqtt_grpc_duality/src/bin/s-proxy.rs b/mqtt_grpc_duality/src/bin/s-proxy.rs
index 9c2c22b..80aaf03 100644
--- a/mqtt_grpc_duality/src/bin/s-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/s-proxy.rs
@@ -66,6 +66,8 @@ impl MqttRelayService for MyRelay {
 
         let mut incoming_stream = request.into_inner();
         let (response_tx, response_rx) = tokio::sync::mpsc::channel(128);
+        // Goes to the broker connection, so that the response stream ends along with it
+        let mut response_tx = Some(response_tx);
         let broker_addr = self.broker_addr; // Capture broker_addr before move
 
         let token = CancellationToken::new();
@@ -88,6 +90,7 @@ impl MqttRelayService for MyRelay {
                     }
                     Some(Err(e)) => {
                         error!("Error in incoming grpc stream: {}", e);
+                        token.cancel();
                         break;
                     }
 
@@ -144,7 +147,10 @@ impl MqttRelayService for MyRelay {
                                             info!("Received Establish from client: {}", client_id);
 
                                             // Create broker connection for this client
-                                            let response_tx_for_spawn = response_tx.clone();
+                                            let Some(response_tx_for_spawn) = response_tx.take() else {
+                                                error!("Session {} is already established", session_id);
+                                                continue;
+                                            };
                                             let session_id_for_spawn = session_id.clone();
                                             let (tx, broker_rx) =
                                                 tokio::sync::mpsc::channel::<BrokerControlMessage>(32);
@@ -174,6 +180,7 @@ impl MqttRelayService for MyRelay {
                                                             "Failed to connect to broker for client {}: {}",
                                                             client_id, e
                                                         );
+                                                        let _ = response_tx_for_spawn.send(Err(e)).await;
                                                     }
                                                 }
                                             });
@@ -218,7 +225,7 @@ async fn mqtt_client_loop_simple(
     let mut parser = MqttParser::new(16384, mqtt_version); // 16KB buffer
     let mut sequence_counter = 1u64;
 
-    loop {
+    'outer: loop {
         tokio::select! {
             _ = token.cancelled() => {
                 // The token was cancelled
@@ -252,7 +259,15 @@ async fn mqtt_client_loop_simple(
                     }
                     Ok(n) => {
                         debug!("Read {} bytes from broker", n);
-                        while let Ok(Some(packet)) = parser.next_packet() {
+                        loop {
+                            let packet = match parser.next_packet() {
+                                Ok(Some(packet)) => packet,
+                                Ok(None) => break,
+                                Err(e) => {
+                                    error!("Error parsing packet from broker: {}", e);
+                                    break 'outer;
+                                }
+                            };
                             debug!("Received packet from broker: {:?}", packet);
 
                             // Convert MQTT packet to gRPC stream message and forward to r-proxy
@@ -266,7 +281,7 @@ async fn mqtt_client_loop_simple(
 
                                 if let Err(e) = response_tx.send(Ok(stream_msg)).await {
                                     error!("Failed to send message to r-proxy via stream: {}", e);
-                                    break;
+                                    break 'outer;
                                 }
                             }
 
-- 
2.43.0


From 020bb03131f067fec15b21bfa0b5d2be7959a6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:19 +0000
Subject: [PATCH 64/93] fix: the proxies lost packets sent just before a
 disconnect and could block each other for ever

---
 mqtt_grpc_duality/src/bin/r-proxy.rs | 190 +++++++++++++++------------
 mqtt_grpc_duality/src/bin/s-proxy.rs | 153 ++++++++++-----------
 2 files changed, 184 insertions(+), 159 deletions(-)

diff --git a/mqtt_grpc_duality/src/bin/r-proxy.rs b/mqtt_grpc_duality/src/bin/r-proxy.rs
index 9d1afca..dc5343c 100644
--- a/mqtt_grpc_duality/src/bin/r-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/r-proxy.rs
@@ -19,6 +19,7 @@ use tokio::net::{TcpListener, TcpStream};
 use tokio::signal::unix::{signal, SignalKind};
 use tokio::spawn;
 use tokio::sync::mpsc;
+use tokio::time::{timeout, Duration};
 use tokio_stream::wrappers::ReceiverStream;
 use tokio_stream::StreamExt;
 use tonic::{Request, Status, Streaming};
@@ -29,6 +30,9 @@ use dashmap::DashMap;
 use mqtt_grpc_proxy::mqtt_unified_pb::mqtt_relay_service_client::MqttRelayServiceClient;
 use mqtt_grpc_proxy::mqtt_unified_pb::MqttStreamMessage;
 
+/// How long a client may go on sending after its broker connection has ended
+const CLOSE_TIMEOUT: Duration = Duration::from_secs(5);
+
 // Enhanced connection structure for streaming
 pub struct StreamingClientConnection {
     pub session_id: String,
@@ -275,118 +279,138 @@ async fn handle_new_incoming_tcp(
 }
 
 async fn start_streaming_loop(
-    mut conn: StreamingClientConnection,
+    conn: StreamingClientConnection,
     mut inbound_stream: Streaming<MqttStreamMessage>,
     mut parser: MqttParser,
     _state: Arc<RProxyState>,
 ) -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
-    let sequence_counter: Arc<AtomicU64> = Arc::new(AtomicU64::new(1));
+    let StreamingClientConnection {
+        session_id,
+        client_id,
+        mut write_h,
+        mut read_h,
+        grpc_stream_sender,
+        ..
+    } = conn;
+    let sequence_counter = AtomicU64::new(1);
+
+    // The two directions are independent, so that neither waits for the other when its way is full.
+
+    // Handle MQTT messages, client facing.
+    let to_s_proxy = async {
+        'outer: loop {
+            // Parse all available packets from the buffer: the first of them may have come
+            // along with the CONNECT packet
+            loop {
+                match parser.next_packet() {
+                    Ok(Some(packet)) => {
+                        debug!("Parsed MQTT packet from client {}: {:?}", client_id, packet);
+                        // Convert MQTT packet to gRPC stream message using unified approach
+                        // Note: session_id is sent via gRPC metadata, not in the message
+                        let stream_msg = convert_mqtt_to_stream_message(
+                            &packet,
+                            sequence_counter.fetch_add(1, Ordering::SeqCst),
+                            mqtt_unified_pb::MessageDirection::ClientToBroker,
+                        );
 
-    'outer: loop {
-        // Parse all available packets from the buffer: the first of them may have come
-        // along with the CONNECT packet
-        loop {
-            match parser.next_packet() {
-                Ok(Some(packet)) => {
-                    debug!(
-                        "Parsed MQTT packet from client {}: {:?}",
-                        conn.client_id, packet
-                    );
-                    // Convert MQTT packet to gRPC stream message using unified approach
-                    // Note: session_id is sent via gRPC metadata, not in the message
-                    let stream_msg = convert_mqtt_to_stream_message(
-                        &packet,
-                        sequence_counter.fetch_add(1, Ordering::SeqCst),
-                        mqtt_unified_pb::MessageDirection::ClientToBroker,
-                    );
-
-                    if let Some(msg) = stream_msg {
-                        if let Err(e) = conn.grpc_stream_sender.send(msg).await {
+                        if let Some(msg) = stream_msg {
+                            if let Err(e) = grpc_stream_sender.send(msg).await {
+                                error!(
+                                    "Failed to send MQTT packet to gRPC stream for client {}: {}",
+                                    client_id, e
+                                );
+                                break 'outer;
+                            } else {
+                                debug!("MQTT packet forwarded to s-proxy for client {} (session: {}): {:?}",
+                                       client_id, session_id, packet);
+                            }
+                        } else {
                             error!(
-                                "Failed to send MQTT packet to gRPC stream for client {}: {}",
-                                conn.client_id, e
+                                "Failed to convert MQTT packet to stream message for client {}: {:?}",
+                                client_id, packet
                             );
-                            break;
-                        } else {
-                            debug!("MQTT packet forwarded to s-proxy for client {} (session: {}): {:?}",
-                                   conn.client_id, conn.session_id, packet);
                         }
-                    } else {
-                        error!(
-                            "Failed to convert MQTT packet to stream message for client {}: {:?}",
-                            conn.client_id, packet
-                        );
                     }
-
-                    // Continue parsing more packets from the same buffer
-                    if parser.buffer_mut().is_empty() {
-                        break; // No more data to parse, exit inner loop
+                    Ok(None) => {
+                        // No more complete packets available, exit parsing loop
+                        break;
+                    }
+                    Err(e) => {
+                        error!("Error parsing MQTT packet from client {}: {}", client_id, e);
+                        break 'outer;
                     }
                 }
-                Ok(None) => {
-                    // No more complete packets available, exit parsing loop
-                    break;
+            }
+
+            match read_h.read_buf(parser.buffer_mut()).await {
+                Ok(0) => {
+                    info!("Client {} disconnected (EOF)", client_id);
+                    break 'outer;
                 }
+                Ok(_) => {}
                 Err(e) => {
-                    error!(
-                        "Error parsing MQTT packet from client {}: {}",
-                        conn.client_id, e
-                    );
+                    error!("Error reading from client {}: {}", client_id, e);
                     break 'outer;
                 }
             }
         }
+        // Ends the request stream, after what is still on its way
+        drop(grpc_stream_sender);
+    };
 
-        tokio::select! {
-            // Handle MQTT messages, client facing.
-            n = conn.read_h.read_buf(parser.buffer_mut()) => {
-                match n {
-                    Ok(0) => {
-                        info!("Client {} disconnected (EOF)", conn.client_id);
-                        break 'outer;
-                    }
-                    Ok(_) => {}
-                    Err(e) => {
-                        error!("Error reading from client {}: {}", conn.client_id, e);
-                        break 'outer;
-                    }
-                }
-            }
-
-            // Handle gRPC messages, s-proxy facing
-            msg = inbound_stream.next() => {
-                match msg {
-                    Some(Ok(stream_msg)) => {
-                        if let Some(packet) = convert_stream_message_to_mqtt_packet(stream_msg) {
-                            if let Ok(mqtt_bytes) = packet.to_bytes() {
-                                if let Err(e) = conn.write_h.write_all(&mqtt_bytes).await {
-                                    error!("Failed to write MQTT response to client {}: {}, grpc payload: {:?}", conn.client_id, e, packet);
-                                    break;
-                                }
-                                debug!("Forwarded gRPC message to MQTT client {}: {:?}", conn.client_id, packet);
-                            } else {
-                                error!("Failed to convert payload to MQTT bytes for client {}: {:?}", conn.client_id, packet);
+    // Handle gRPC messages, s-proxy facing
+    let to_client = async {
+        loop {
+            match inbound_stream.next().await {
+                Some(Ok(stream_msg)) => {
+                    if let Some(packet) = convert_stream_message_to_mqtt_packet(stream_msg) {
+                        if let Ok(mqtt_bytes) = packet.to_bytes() {
+                            if let Err(e) = write_h.write_all(&mqtt_bytes).await {
+                                error!("Failed to write MQTT response to client {}: {}, grpc payload: {:?}", client_id, e, packet);
+                                break;
                             }
+                            debug!(
+                                "Forwarded gRPC message to MQTT client {}: {:?}",
+                                client_id, packet
+                            );
                         } else {
-                            error!("Failed to convert stream message to MQTT packet");
+                            error!(
+                                "Failed to convert payload to MQTT bytes for client {}: {:?}",
+                                client_id, packet
+                            );
                         }
-                    }
-                    Some(Err(e)) => {
-                        error!("gRPC stream error for client {}: {}", conn.client_id, e);
-                        break;
-                    }
-                    None => {
-                        info!("gRPC stream closed for client {}", conn.client_id);
-                        break;
+                    } else {
+                        error!("Failed to convert stream message to MQTT packet");
                     }
                 }
+                Some(Err(e)) => {
+                    error!("gRPC stream error for client {}: {}", client_id, e);
+                    break;
+                }
+                None => {
+                    info!("gRPC stream closed for client {}", client_id);
+                    break;
+                }
             }
         }
+        let _ = write_h.shutdown().await;
+    };
+
+    tokio::pin!(to_s_proxy, to_client);
+    tokio::select! {
+        _ = &mut to_s_proxy => {
+            // The s-proxy ends its stream when all has reached the broker; the stream must not be
+            // dropped before that
+            to_client.await;
+        }
+        _ = &mut to_client => {
+            let _ = timeout(CLOSE_TIMEOUT, to_s_proxy).await;
+        }
     }
 
     info!(
         "Streaming client loop ended for session: {} (client: {})",
-        conn.session_id, conn.client_id
+        session_id, client_id
     );
     Ok(())
 }
diff --git a/mqtt_grpc_duality/src/bin/s-proxy.rs b/mqtt_grpc_duality/src/bin/s-proxy.rs
index 80aaf03..5f880c6 100644
--- a/mqtt_grpc_duality/src/bin/s-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/s-proxy.rs
@@ -4,7 +4,6 @@ use std::{env, net::SocketAddr};
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
 #[cfg(unix)]
 use tokio::signal::unix::{signal, SignalKind};
-use tokio_util::sync::CancellationToken;
 use tonic::{transport::Server, Request, Response, Status};
 use tracing::{debug, error, info};
 
@@ -18,8 +17,12 @@ use flowsdk::mqtt_serde::parser::stream::MqttParser;
 
 use tokio::net::TcpSocket;
 use tokio::sync::mpsc;
+use tokio::time::{timeout, Duration};
 use tokio_stream::StreamExt;
 
+/// How long one direction of a broker connection may go on after the other has ended
+const CLOSE_TIMEOUT: Duration = Duration::from_secs(5);
+
 // Control message enum for broker communication
 #[derive(Debug, Clone)]
 pub enum BrokerControlMessage {
@@ -70,8 +73,6 @@ impl MqttRelayService for MyRelay {
         let mut response_tx = Some(response_tx);
         let broker_addr = self.broker_addr; // Capture broker_addr before move
 
-        let token = CancellationToken::new();
-
         // Handle the bidirectional stream
         tokio::spawn(async move {
             let session_id = session_id_from_metadata; // Use session_id from metadata (owned)
@@ -79,18 +80,15 @@ impl MqttRelayService for MyRelay {
             // The way to this stream's own broker connection. It belongs to the stream, not to the
             // client or session identifier: neither is unique among the streams.
             let mut broker_tx: Option<mpsc::Sender<BrokerControlMessage>> = None;
+            // Whatever way the stream ends, the broker connection ends once it has been sent what came before
             loop {
-                let cloned_token: CancellationToken = token.clone();
-
                 match incoming_stream.next().await {
                     None => {
                         debug!("Stream closed by client, exiting grpc stream handler");
-                        token.cancel();
                         break;
                     }
                     Some(Err(e)) => {
                         error!("Error in incoming grpc stream: {}", e);
-                        token.cancel();
                         break;
                     }
 
@@ -166,7 +164,6 @@ impl MqttRelayService for MyRelay {
 
                                                         // Start the MQTT client loop to handle broker communication
                                                         mqtt_client_loop_simple(
-                                                            cloned_token,
                                                             broker_rx,
                                                             stream,
                                                             response_tx_for_spawn,
@@ -215,91 +212,95 @@ async fn mqtt_connect_to_broker(broker_addr: SocketAddr) -> Result<tokio::net::T
 }
 
 async fn mqtt_client_loop_simple(
-    token: CancellationToken,
     mut rx: mpsc::Receiver<BrokerControlMessage>,
-    mut stream: tokio::net::TcpStream,
+    stream: tokio::net::TcpStream,
     response_tx: mpsc::Sender<Result<MqttStreamMessage, Status>>,
     session_id: String,
     mqtt_version: u8,
 ) {
-    let mut parser = MqttParser::new(16384, mqtt_version); // 16KB buffer
-    let mut sequence_counter = 1u64;
+    let (mut reader, mut writer) = stream.into_split();
 
-    'outer: loop {
-        tokio::select! {
-            _ = token.cancelled() => {
-                // The token was cancelled
-                info!("Cancellation token triggered, exiting MQTT client loop for session: {}", session_id);
-                break;
-            }
-
-            // Handle control messages from r-proxy
-            Some(control_msg) = rx.recv() => {
-                debug!("Processing control message for broker");
+    // The two directions are independent, so that neither waits for the other when its way is full.
 
-                // Convert control message to MQTT bytes and send to broker
-                let mqtt_bytes = match control_msg {
-                    BrokerControlMessage::Packet(packet) => {
+    // Handle control messages from r-proxy, until there are no more
+    let to_broker = async move {
+        while let Some(BrokerControlMessage::Packet(packet)) = rx.recv().await {
+            debug!("Processing control message for broker");
 
-                        packet.to_bytes().unwrap()
-                    }
-                };
-
-                if let Err(e) = stream.write_all(&mqtt_bytes).await {
-                    error!("Failed to write to broker: {}", e);
+            // Convert control message to MQTT bytes and send to broker
+            let mqtt_bytes = match packet.to_bytes() {
+                Ok(mqtt_bytes) => mqtt_bytes,
+                Err(e) => {
+                    error!("Failed to convert packet to MQTT bytes: {}", e);
                     break;
                 }
+            };
+            if let Err(e) = writer.write_all(&mqtt_bytes).await {
+                error!("Failed to write to broker: {}", e);
+                break;
             }
-            // Handle incoming data from the broker
-            result = stream.read_buf(parser.buffer_mut()) => {
-                match result {
-                    Ok(0) => {
-                        info!("Connection closed by the broker");
-                        break;
-                    }
-                    Ok(n) => {
-                        debug!("Read {} bytes from broker", n);
-                        loop {
-                            let packet = match parser.next_packet() {
-                                Ok(Some(packet)) => packet,
-                                Ok(None) => break,
-                                Err(e) => {
-                                    error!("Error parsing packet from broker: {}", e);
-                                    break 'outer;
-                                }
-                            };
-                            debug!("Received packet from broker: {:?}", packet);
-
-                            // Convert MQTT packet to gRPC stream message and forward to r-proxy
-                            // Note: session_id is sent via gRPC metadata, not in the message
-                            if let Some(stream_msg) = convert_mqtt_to_stream_message(
-                                &packet,
-                                sequence_counter,
-                                mqtt_unified_pb::MessageDirection::BrokerToClient,
-                            ) {
-                                sequence_counter += 1;
-
-                                if let Err(e) = response_tx.send(Ok(stream_msg)).await {
-                                    error!("Failed to send message to r-proxy via stream: {}", e);
-                                    break 'outer;
-                                }
-                            }
-
-                            debug!("Processed packet from broker, continuing to next packet");
-                        }
-                    }
+        }
+        let _ = writer.shutdown().await;
+    };
+
+    // Handle incoming data from the broker
+    let to_client = async move {
+        let mut parser = MqttParser::new(16384, mqtt_version); // 16KB buffer
+        let mut sequence_counter = 1u64;
+
+        'outer: loop {
+            match reader.read_buf(parser.buffer_mut()).await {
+                Ok(0) => {
+                    info!("Connection closed by the broker");
+                    break;
+                }
+                Ok(n) => debug!("Read {} bytes from broker", n),
+                Err(e) => {
+                    error!("Error reading from stream: {}", e);
+                    break;
+                }
+            }
+            loop {
+                let packet = match parser.next_packet() {
+                    Ok(Some(packet)) => packet,
+                    Ok(None) => break,
                     Err(e) => {
-                        error!("Error reading from stream: {}", e);
-                        break;
+                        error!("Error parsing packet from broker: {}", e);
+                        break 'outer;
+                    }
+                };
+                debug!("Received packet from broker: {:?}", packet);
+
+                // Convert MQTT packet to gRPC stream message and forward to r-proxy
+                // Note: session_id is sent via gRPC metadata, not in the message
+                if let Some(stream_msg) = convert_mqtt_to_stream_message(
+                    &packet,
+                    sequence_counter,
+                    mqtt_unified_pb::MessageDirection::BrokerToClient,
+                ) {
+                    sequence_counter += 1;
+
+                    if let Err(e) = response_tx.send(Ok(stream_msg)).await {
+                        error!("Failed to send message to r-proxy via stream: {}", e);
+                        break 'outer;
                     }
                 }
             }
-            else => {
-                info!("No more data to read from broker, exiting MQTT client loop for session: {}", session_id);
-                break;
-            }
+        }
+        // Ends the response stream
+        drop(response_tx);
+    };
+
+    tokio::pin!(to_broker, to_client);
+    tokio::select! {
+        _ = &mut to_broker => {
+            let _ = timeout(CLOSE_TIMEOUT, to_client).await;
+        }
+        _ = &mut to_client => {
+            let _ = timeout(CLOSE_TIMEOUT, to_broker).await;
         }
     }
+    info!("Exiting MQTT client loop for session: {}", session_id);
 }
 
 #[tokio::main]
-- 
2.43.0


From 8bafadb5bd2d51569d3360459a0de1c29fa78c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:40 +0000
Subject: [PATCH 65/93] fix: r-proxy refused a CONNECT packet that arrived in
 small pieces

---
 mqtt_grpc_duality/src/bin/r-proxy.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mqtt_grpc_duality/src/bin/r-proxy.rs b/mqtt_grpc_duality/src/bin/r-proxy.rs
index dc5343c..65864ab 100644
--- a/mqtt_grpc_duality/src/bin/r-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/r-proxy.rs
@@ -444,7 +444,9 @@ async fn wait_for_mqtt_connect(
                 read_hint = hint;
                 continue;
             }
-            // @TODO: handle other errors properly, like empty buffer
+            // The packet is not there up to the version yet
+            Err(ParseError::BufferTooShort) => continue,
+            // @TODO: handle other errors properly
             Err(e) => {
                 error!("Failed to set MQTT version: {}", e);
                 return Err(Status::internal("Failed to set MQTT version"));
-- 
2.43.0


From 9ee8b63d34a8fcfaa1121a1991f442d5b040da71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:41 +0000
Subject: [PATCH 66/93] fix: packets over 4 MB broke a client's connection
 through the proxies

---
 mqtt_grpc_duality/src/bin/r-proxy.rs | 7 ++++++-
 mqtt_grpc_duality/src/bin/s-proxy.rs | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/mqtt_grpc_duality/src/bin/r-proxy.rs b/mqtt_grpc_duality/src/bin/r-proxy.rs
index 65864ab..cb2be3e 100644
--- a/mqtt_grpc_duality/src/bin/r-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/r-proxy.rs
@@ -33,6 +33,9 @@ use mqtt_grpc_proxy::mqtt_unified_pb::MqttStreamMessage;
 /// How long a client may go on sending after its broker connection has ended
 const CLOSE_TIMEOUT: Duration = Duration::from_secs(5);
 
+/// The largest MQTT packet, with some room for its gRPC form
+const MAX_MESSAGE_SIZE: usize = 512 * 1024 * 1024;
+
 // Enhanced connection structure for streaming
 pub struct StreamingClientConnection {
     pub session_id: String,
@@ -71,7 +74,9 @@ async fn run_proxy(
         .keep_alive_timeout(std::time::Duration::from_secs(30))
         .connect_lazy(); // Use connect_lazy for efficient connection pooling
 
-    let grpc_client = Arc::new(MqttRelayServiceClient::new(channel));
+    // MQTT packets go up to 256 MB, far beyond the default limit of messages
+    let grpc_client =
+        Arc::new(MqttRelayServiceClient::new(channel).max_decoding_message_size(MAX_MESSAGE_SIZE));
     info!("Shared gRPC channel established and ready for client connections");
 
     let proxy_state = Arc::new(RProxyState {
diff --git a/mqtt_grpc_duality/src/bin/s-proxy.rs b/mqtt_grpc_duality/src/bin/s-proxy.rs
index 5f880c6..07a4451 100644
--- a/mqtt_grpc_duality/src/bin/s-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/s-proxy.rs
@@ -23,6 +23,9 @@ use tokio_stream::StreamExt;
 /// How long one direction of a broker connection may go on after the other has ended
 const CLOSE_TIMEOUT: Duration = Duration::from_secs(5);
 
+/// The largest MQTT packet, with some room for its gRPC form
+const MAX_MESSAGE_SIZE: usize = 512 * 1024 * 1024;
+
 // Control message enum for broker communication
 #[derive(Debug, Clone)]
 pub enum BrokerControlMessage {
@@ -329,7 +332,8 @@ async fn main() -> Result<(), Box<dyn std::error::Error>> {
     info!("  MQTT broker address: {}", broker_addr);
 
     Server::builder()
-        .add_service(MqttRelayServiceServer::new(relay))
+        // MQTT packets go up to 256 MB, far beyond the default limit of messages
+        .add_service(MqttRelayServiceServer::new(relay).max_decoding_message_size(MAX_MESSAGE_SIZE))
         .serve_with_shutdown(grpc_addr, signal_shutdown())
         .await?;
 
-- 
2.43.0


From 65d65d34d4f1a9109c237acd7f3033f227dd461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:41 +0000
Subject: [PATCH 67/93] fix: stalled clients held up every other client of the
 proxies

---
 mqtt_grpc_duality/src/bin/r-proxy.rs | 8 ++++++++
 mqtt_grpc_duality/src/bin/s-proxy.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/mqtt_grpc_duality/src/bin/r-proxy.rs b/mqtt_grpc_duality/src/bin/r-proxy.rs
index cb2be3e..1df9f4f 100644
--- a/mqtt_grpc_duality/src/bin/r-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/r-proxy.rs
@@ -36,6 +36,10 @@ const CLOSE_TIMEOUT: Duration = Duration::from_secs(5);
 /// The largest MQTT packet, with some room for its gRPC form
 const MAX_MESSAGE_SIZE: usize = 512 * 1024 * 1024;
 
+/// Flow control windows of the shared HTTP/2 connection
+const STREAM_WINDOW: u32 = 256 * 1024;
+const CONNECTION_WINDOW: u32 = i32::MAX as u32;
+
 // Enhanced connection structure for streaming
 pub struct StreamingClientConnection {
     pub session_id: String,
@@ -70,6 +74,10 @@ async fn run_proxy(
         destination
     );
     let channel = tonic::transport::Channel::from_shared(format!("http://{}", destination))?
+        // All clients share this connection: one that is stalled may use up the window of its own
+        // stream, but not that of the connection
+        .initial_stream_window_size(STREAM_WINDOW)
+        .initial_connection_window_size(CONNECTION_WINDOW)
         .keep_alive_while_idle(true)
         .keep_alive_timeout(std::time::Duration::from_secs(30))
         .connect_lazy(); // Use connect_lazy for efficient connection pooling
diff --git a/mqtt_grpc_duality/src/bin/s-proxy.rs b/mqtt_grpc_duality/src/bin/s-proxy.rs
index 07a4451..5a1c725 100644
--- a/mqtt_grpc_duality/src/bin/s-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/s-proxy.rs
@@ -26,6 +26,10 @@ const CLOSE_TIMEOUT: Duration = Duration::from_secs(5);
 /// The largest MQTT packet, with some room for its gRPC form
 const MAX_MESSAGE_SIZE: usize = 512 * 1024 * 1024;
 
+/// Flow control windows of the shared HTTP/2 connection
+const STREAM_WINDOW: u32 = 256 * 1024;
+const CONNECTION_WINDOW: u32 = i32::MAX as u32;
+
 // Control message enum for broker communication
 #[derive(Debug, Clone)]
 pub enum BrokerControlMessage {
@@ -332,6 +336,10 @@ async fn main() -> Result<(), Box<dyn std::error::Error>> {
     info!("  MQTT broker address: {}", broker_addr);
 
     Server::builder()
+        // All clients share a connection: one that is stalled may use up the window of its own
+        // stream, but not that of the connection
+        .initial_stream_window_size(STREAM_WINDOW)
+        .initial_connection_window_size(CONNECTION_WINDOW)
         // MQTT packets go up to 256 MB, far beyond the default limit of messages
         .add_service(MqttRelayServiceServer::new(relay).max_decoding_message_size(MAX_MESSAGE_SIZE))
         .serve_with_shutdown(grpc_addr, signal_shutdown())
-- 
2.43.0


From f80a4697b7f37017cfd658bcf03c77d1da8e802c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:58 +0000
Subject: [PATCH 68/93] fix: the load generator ran for ever after a refused
 TCP connection

---
 mqtt_ring_bench/src/worker_tcp.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mqtt_ring_bench/src/worker_tcp.rs b/mqtt_ring_bench/src/worker_tcp.rs
index f805993..d181a3e 100644
--- a/mqtt_ring_bench/src/worker_tcp.rs
+++ b/mqtt_ring_bench/src/worker_tcp.rs
@@ -166,7 +166,14 @@ pub fn run_worker(
 
             match op {
                 OP_CONNECT => {
-                    handle_connect_complete(&mut conns, conn_key, result, &mut ring, &stats);
+                    handle_connect_complete(
+                        &mut conns,
+                        conn_key,
+                        result,
+                        &mut ring,
+                        &stats,
+                        &mut done_count,
+                    );
                 }
                 OP_SEND => {
                     handle_send_complete(
@@ -328,6 +335,7 @@ fn handle_connect_complete(
     result: i32,
     ring: &mut IoUring,
     stats: &BenchStats,
+    done_count: &mut usize,
 ) {
     let conn = &mut conns[key];
     if result < 0 {
@@ -336,9 +344,7 @@ fn handle_connect_complete(
             conn.client_index,
             std::io::Error::from_raw_os_error(-result)
         );
-        conn.state = ConnState::Failed;
-        stats.record_error(ErrorKind::Connect);
-        stats.clients_done.fetch_add(1, Ordering::Relaxed);
+        mark_failed(conn, stats, done_count, ErrorKind::Connect);
         return;
     }
 
-- 
2.43.0


From 14312644f1b0bfd3f0de66b80ea43016b4cff423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:58 +0000
Subject: [PATCH 69/93] fix: the load generator never connected at rates below
 its number of workers

---
 mqtt_ring_bench/src/worker_quic.rs | 6 ++++--
 mqtt_ring_bench/src/worker_tcp.rs  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/mqtt_ring_bench/src/worker_quic.rs b/mqtt_ring_bench/src/worker_quic.rs
index 5c1b086..66768e3 100644
--- a/mqtt_ring_bench/src/worker_quic.rs
+++ b/mqtt_ring_bench/src/worker_quic.rs
@@ -46,7 +46,9 @@ pub fn run_quic_worker(
         .unwrap_or(&config.host)
         .to_string();
 
-    let budget_per_sec = config.connect_rate / config.workers.max(1);
+    // Fractional, so that rates below the number of workers still make progress.
+    let workers = config.workers.min(config.clients).max(1);
+    let budget_per_sec = config.connect_rate as f64 / workers as f64;
     let mut connect_budget: f64 = 0.0;
     let mut last_budget_tick = Instant::now();
     let mut pending_create: Vec<usize> = conn_range.collect();
@@ -65,7 +67,7 @@ pub fn run_quic_worker(
         // Replenish connect budget
         let elapsed_secs = now.duration_since(last_budget_tick).as_secs_f64();
         if elapsed_secs >= 0.01 {
-            connect_budget += budget_per_sec as f64 * elapsed_secs;
+            connect_budget += budget_per_sec * elapsed_secs;
             if connect_budget > pending_create.len() as f64 {
                 connect_budget = pending_create.len() as f64;
             }
diff --git a/mqtt_ring_bench/src/worker_tcp.rs b/mqtt_ring_bench/src/worker_tcp.rs
index d181a3e..cd5a278 100644
--- a/mqtt_ring_bench/src/worker_tcp.rs
+++ b/mqtt_ring_bench/src/worker_tcp.rs
@@ -49,7 +49,9 @@ pub fn run_worker(
     let sa_ptr = sock_addr_box.as_ref().as_ptr();
     let sa_len = sock_addr_box.as_ref().len();
 
-    let budget_per_sec = config.connect_rate / config.workers.max(1);
+    // Fractional, so that rates below the number of workers still make progress.
+    let workers = config.workers.min(config.clients).max(1);
+    let budget_per_sec = config.connect_rate as f64 / workers as f64;
     let mut connect_budget: f64 = 0.0;
     let mut last_budget_tick = Instant::now();
     let mut pending_create: Vec<usize> = conn_range.collect();
@@ -71,7 +73,7 @@ pub fn run_worker(
         // Replenish connect budget using fractional accumulation
         let elapsed_secs = now.duration_since(last_budget_tick).as_secs_f64();
         if elapsed_secs >= 0.01 {
-            connect_budget += budget_per_sec as f64 * elapsed_secs;
+            connect_budget += budget_per_sec * elapsed_secs;
             if connect_budget > pending_create.len() as f64 {
                 connect_budget = pending_create.len() as f64;
             }
-- 
2.43.0


From ee3c58f13f44f6b36eede0f47dba9fe75085e28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:58 +0000
Subject: [PATCH 70/93] fix: the load generator did not finish after QoS 0 or
 refused publishes and shifted latencies

---
 mqtt_ring_bench/src/connection.rs | 12 ++++++++++--
 mqtt_ring_bench/src/worker_tcp.rs |  4 +++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/mqtt_ring_bench/src/connection.rs b/mqtt_ring_bench/src/connection.rs
index b5ad1ee..00f82d6 100644
--- a/mqtt_ring_bench/src/connection.rs
+++ b/mqtt_ring_bench/src/connection.rs
@@ -212,6 +212,8 @@ impl Connection {
                             self.latency_samples.push(sent_at.elapsed());
                         }
                     } else {
+                        // Answered, so its start time must not be taken for the next one's.
+                        self.latency_pending.pop_front();
                         outcome.mqtt_publish_errors += 1;
                     }
                 }
@@ -242,7 +244,9 @@ impl Connection {
         if self.state != ConnState::Draining {
             return false;
         }
-        let drained = self.messages_acked >= self.messages_sent
+        // Only QoS 1/2 publishes still to be answered are waited for; a refused
+        // publish has been answered, and QoS 0 is never answered.
+        let drained = self.latency_pending.is_empty()
             || self.drain_deadline.is_some_and(|d| Instant::now() >= d);
         if drained {
             self.mqtt.disconnect();
@@ -549,6 +553,8 @@ impl QuicConnection {
                             self.latency_samples.push(sent_at.elapsed());
                         }
                     } else {
+                        // Answered, so its start time must not be taken for the next one's.
+                        self.latency_pending.pop_front();
                         outcome.mqtt_publish_errors += 1;
                     }
                 }
@@ -581,7 +587,9 @@ impl QuicConnection {
         if self.state != QuicConnState::Draining {
             return false;
         }
-        let drained = self.messages_acked >= self.messages_sent
+        // Only QoS 1/2 publishes still to be answered are waited for; a refused
+        // publish has been answered, and QoS 0 is never answered.
+        let drained = self.latency_pending.is_empty()
             || self.drain_deadline.is_some_and(|d| now >= d);
         if drained {
             self.engine.disconnect();
diff --git a/mqtt_ring_bench/src/worker_tcp.rs b/mqtt_ring_bench/src/worker_tcp.rs
index cd5a278..9380c17 100644
--- a/mqtt_ring_bench/src/worker_tcp.rs
+++ b/mqtt_ring_bench/src/worker_tcp.rs
@@ -206,7 +206,9 @@ pub fn run_worker(
         // Try to publish on ready connections
         let keys: Vec<usize> = conns
             .iter()
-            .filter(|(_, c)| c.state == ConnState::Publishing && !c.send_pending)
+            .filter(|(_, c)| {
+                matches!(c.state, ConnState::Publishing | ConnState::Draining) && !c.send_pending
+            })
             .map(|(k, _)| k)
             .collect();
         for key in keys {
-- 
2.43.0


From 4d9ac477e3064cc58694b6fecd03ea727c6e8f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:58 +0000
Subject: [PATCH 71/93] fix: the load generator slept through its publish
 interval

---
 mqtt_ring_bench/src/connection.rs | 13 +++++++++++--
 mqtt_ring_bench/src/worker_tcp.rs |  3 ++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/mqtt_ring_bench/src/connection.rs b/mqtt_ring_bench/src/connection.rs
index 00f82d6..f511767 100644
--- a/mqtt_ring_bench/src/connection.rs
+++ b/mqtt_ring_bench/src/connection.rs
@@ -262,6 +262,15 @@ impl Connection {
         self.mqtt.next_tick_at()
     }
 
+    /// When the next paced publish (`--interval`) is due, if one is left to make.
+    pub fn publish_due_at(&self) -> Option<Instant> {
+        (self.state == ConnState::Publishing
+            && !self.send_pending
+            && self.messages_sent < self.messages_target)
+            .then_some(self.next_publish_at)
+            .flatten()
+    }
+
     pub fn handle_tick(&mut self) -> Vec<MqttEvent> {
         let now = Instant::now();
         if let Some(next) = self.mqtt.next_tick_at() {
@@ -589,8 +598,8 @@ impl QuicConnection {
         }
         // Only QoS 1/2 publishes still to be answered are waited for; a refused
         // publish has been answered, and QoS 0 is never answered.
-        let drained = self.latency_pending.is_empty()
-            || self.drain_deadline.is_some_and(|d| now >= d);
+        let drained =
+            self.latency_pending.is_empty() || self.drain_deadline.is_some_and(|d| now >= d);
         if drained {
             self.engine.disconnect();
             let _ = self.engine.handle_tick(now);
diff --git a/mqtt_ring_bench/src/worker_tcp.rs b/mqtt_ring_bench/src/worker_tcp.rs
index 9380c17..4d8de7f 100644
--- a/mqtt_ring_bench/src/worker_tcp.rs
+++ b/mqtt_ring_bench/src/worker_tcp.rs
@@ -130,7 +130,8 @@ pub fn run_worker(
                     && c.state != ConnState::Failed
                     && c.state != ConnState::TcpConnecting
             })
-            .filter_map(|(_, c)| c.next_tick_at())
+            .flat_map(|(_, c)| [c.next_tick_at(), c.publish_due_at()])
+            .flatten()
             .min();
         let wait_dur = match min_deadline {
             Some(d) => d.saturating_duration_since(now).min(max_idle_wait),
-- 
2.43.0


From ca48e6de380667c36138f06ae7ac104023f66e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:18 +0000
Subject: [PATCH 72/93] fix: the load generator never connected when asked for
 no messages

---
 mqtt_ring_bench/src/connection.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqtt_ring_bench/src/connection.rs b/mqtt_ring_bench/src/connection.rs
index f511767..c846416 100644
--- a/mqtt_ring_bench/src/connection.rs
+++ b/mqtt_ring_bench/src/connection.rs
@@ -98,7 +98,7 @@ impl Connection {
             .reconnect(false)
             .auto_ack(true)
             .parser_buffer_size(config.parser_buf)
-            .max_outgoing_packet_count(config.messages.min(10_000) as usize)
+            .max_outgoing_packet_count(config.messages.clamp(1, 10_000) as usize)
             .max_event_count(1000)
             .build();
 
@@ -420,7 +420,7 @@ impl QuicConnection {
             .reconnect(false)
             .auto_ack(true)
             .parser_buffer_size(config.parser_buf)
-            .max_outgoing_packet_count(config.messages.min(10_000) as usize)
+            .max_outgoing_packet_count(config.messages.clamp(1, 10_000) as usize)
             .max_event_count(1000)
             .build();
 
-- 
2.43.0


From a30f74c7c7ef53b0ff0e198e8fde79fcce9d14ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:18 +0000
Subject: [PATCH 73/93] fix: the load generator took latencies from the wrong
 publishes

---
 mqtt_ring_bench/src/connection.rs | 59 ++++++++++++++-----------------
 1 file changed, 26 insertions(+), 33 deletions(-)

diff --git a/mqtt_ring_bench/src/connection.rs b/mqtt_ring_bench/src/connection.rs
index c846416..99f2a9e 100644
--- a/mqtt_ring_bench/src/connection.rs
+++ b/mqtt_ring_bench/src/connection.rs
@@ -3,7 +3,7 @@
 #[cfg(feature = "quic")]
 use flowsdk::mqtt_client::engine::QuicMqttEngine;
 use flowsdk::mqtt_client::{MqttClientOptions, MqttEvent, NoIoMqttClient, PublishCommand};
-use std::collections::VecDeque;
+use std::collections::{HashMap, VecDeque};
 #[cfg(feature = "quic")]
 use std::net::SocketAddr;
 use std::os::fd::RawFd;
@@ -76,7 +76,8 @@ pub struct Connection {
     pub messages_sent: u64,
     pub messages_acked: u64,
     pub messages_target: u64,
-    pub latency_pending: VecDeque<Instant>,
+    /// When each QoS 1/2 publish still to be answered was made, by packet identifier.
+    pub latency_pending: HashMap<u16, Instant>,
     pub latency_samples: Vec<Duration>,
     pub next_publish_at: Option<Instant>,
     pub recv_pending: bool,
@@ -111,7 +112,7 @@ impl Connection {
             messages_sent: 0,
             messages_acked: 0,
             messages_target: config.messages,
-            latency_pending: VecDeque::new(),
+            latency_pending: HashMap::new(),
             latency_samples: Vec::new(),
             next_publish_at: None,
             recv_pending: false,
@@ -164,12 +165,12 @@ impl Connection {
             Err(_) => return false,
         };
 
-        if config.qos > 0 {
-            self.latency_pending.push_back(Instant::now());
-        }
-
+        let started_at = Instant::now();
         match self.mqtt.publish(cmd) {
-            Ok(_) => {
+            Ok(pid) => {
+                if let Some(pid) = pid {
+                    self.latency_pending.insert(pid, started_at);
+                }
                 self.messages_sent += 1;
                 self.take_outgoing();
                 if config.interval_ms > 0 {
@@ -178,12 +179,7 @@ impl Connection {
                 }
                 true
             }
-            Err(_) => {
-                if config.qos > 0 {
-                    self.latency_pending.pop_back();
-                }
-                false
-            }
+            Err(_) => false,
         }
     }
 
@@ -202,18 +198,19 @@ impl Connection {
                     }
                 }
                 MqttEvent::Published(result) => {
+                    let sent_at = result
+                        .packet_id
+                        .and_then(|pid| self.latency_pending.remove(&pid));
                     if result.is_success() {
                         if result.qos == 1 && result.reason_code == Some(0x10) {
                             outcome.puback_no_match += 1;
                         }
                         self.messages_acked += 1;
                         outcome.acked += 1;
-                        if let Some(sent_at) = self.latency_pending.pop_front() {
+                        if let Some(sent_at) = sent_at {
                             self.latency_samples.push(sent_at.elapsed());
                         }
                     } else {
-                        // Answered, so its start time must not be taken for the next one's.
-                        self.latency_pending.pop_front();
                         outcome.mqtt_publish_errors += 1;
                     }
                 }
@@ -387,7 +384,8 @@ pub struct QuicConnection {
     pub messages_sent: u64,
     pub messages_acked: u64,
     pub messages_target: u64,
-    pub latency_pending: VecDeque<Instant>,
+    /// When each QoS 1/2 publish still to be answered was made, by packet identifier.
+    pub latency_pending: HashMap<u16, Instant>,
     pub latency_samples: Vec<Duration>,
     pub next_publish_at: Option<Instant>,
     pub recv_buf: Vec<u8>,
@@ -434,7 +432,7 @@ impl QuicConnection {
             messages_sent: 0,
             messages_acked: 0,
             messages_target: config.messages,
-            latency_pending: VecDeque::new(),
+            latency_pending: HashMap::new(),
             latency_samples: Vec::new(),
             next_publish_at: None,
             recv_buf: vec![0u8; 2048], // UDP datagrams fit in ~1.5KB
@@ -513,12 +511,11 @@ impl QuicConnection {
             Err(_) => return false,
         };
 
-        if config.qos > 0 {
-            self.latency_pending.push_back(now);
-        }
-
         match self.engine.publish(cmd) {
-            Ok(_) => {
+            Ok(pid) => {
+                if let Some(pid) = pid {
+                    self.latency_pending.insert(pid, now);
+                }
                 self.messages_sent += 1;
                 // Drive engine to push MQTT data into QUIC stream and produce datagrams.
                 let _ = self.engine.handle_tick(now);
@@ -528,12 +525,7 @@ impl QuicConnection {
                 }
                 true
             }
-            Err(_) => {
-                if config.qos > 0 {
-                    self.latency_pending.pop_back();
-                }
-                false
-            }
+            Err(_) => false,
         }
     }
 
@@ -552,18 +544,19 @@ impl QuicConnection {
                     }
                 }
                 MqttEvent::Published(result) => {
+                    let sent_at = result
+                        .packet_id
+                        .and_then(|pid| self.latency_pending.remove(&pid));
                     if result.is_success() {
                         if result.qos == 1 && result.reason_code == Some(0x10) {
                             outcome.puback_no_match += 1;
                         }
                         self.messages_acked += 1;
                         outcome.acked += 1;
-                        if let Some(sent_at) = self.latency_pending.pop_front() {
+                        if let Some(sent_at) = sent_at {
                             self.latency_samples.push(sent_at.elapsed());
                         }
                     } else {
-                        // Answered, so its start time must not be taken for the next one's.
-                        self.latency_pending.pop_front();
                         outcome.mqtt_publish_errors += 1;
                     }
                 }
-- 
2.43.0


From 9fc5bda829ca8f89319bb0fef3111a59bea3fce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:42 +0000
Subject: [PATCH 74/93] fix: acknowledgements and requests were sent after
 DISCONNECT

---
 src/mqtt_client/engine.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 9673125..c90e76c 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -204,6 +204,8 @@ pub struct MqttEngine {
     /// Complete packets may be left in `parser`: the event limit was reached
     input_paused: bool,
     outgoing_buffer: VecDeque<Vec<u8>>,
+    /// DISCONNECT has been queued: nothing may follow it on this connection
+    disconnect_queued: bool,
 
     // Retransmissions (MQTT v3) for packets originally sent on a specific logical
     // channel (e.g. a QUIC data stream). Drained by the transport via
@@ -264,6 +266,7 @@ impl MqttEngine {
             parser,
             input_paused: false,
             outgoing_buffer: VecDeque::new(),
+            disconnect_queued: false,
             stream_retransmissions: VecDeque::new(),
             events: Vec::new(),
             reconnect_attempts: 0,
@@ -309,6 +312,7 @@ impl MqttEngine {
     pub fn reset_for_new_transport(&mut self) {
         self.is_connected = false;
         self.outgoing_buffer.clear();
+        self.disconnect_queued = false;
         self.stream_retransmissions.clear();
         self.inflight_queue.forget_streams();
         self.parser = MqttParser::new(self.options.parser_buffer_size, self.options.mqtt_version);
@@ -408,7 +412,11 @@ impl MqttEngine {
                     // responses back over the same shared outgoing buffer.
                     // The limit on outgoing packets is for the application's own: an
                     // acknowledgement that is not sent now would never be sent.
+                    // None follows a DISCONNECT, though: [MQTT-3.14.4-1]
                     for response in responses {
+                        if self.disconnect_queued {
+                            break;
+                        }
                         if let Ok(bytes) = response.to_bytes() {
                             self.outgoing_buffer.push_back(bytes);
                             self.last_packet_sent = Instant::now();
@@ -947,7 +955,7 @@ impl MqttEngine {
             return;
         }
         let packet = self.disconnect_packet();
-        let _ = self.enqueue_packet(packet);
+        self.disconnect_queued = self.enqueue_packet(packet).is_ok();
         self.is_connected = false;
     }
 
@@ -961,6 +969,7 @@ impl MqttEngine {
         }
         let packet = self.disconnect_packet();
         self.enqueue_packet(packet)?;
+        self.disconnect_queued = true;
         self.is_connected = false;
         Ok(())
     }
@@ -1338,6 +1347,9 @@ impl MqttEngine {
     }
 
     pub fn enqueue_packet(&mut self, packet: MqttPacket) -> Result<(), MqttClientError> {
+        if self.disconnect_queued {
+            return Err(MqttClientError::NotConnected);
+        }
         if self.outgoing_buffer.len() >= self.options.max_outgoing_packet_count {
             return Err(MqttClientError::BufferFull {
                 buffer_type: "outgoing".to_string(),
-- 
2.43.0


From fa75326278483f32ac8e1b16575b222a13a9e8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:19 +0000
Subject: [PATCH 75/93] fix: publishes waiting beyond 1000 were dropped without
 a word

---
 src/mqtt_client/engine.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index c90e76c..dbbd9cf 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -155,6 +155,9 @@ pub enum MqttEvent {
     },
 }
 
+/// Publishes that may wait to be sent.
+const PUBLISH_QUEUE_CAPACITY: usize = 1000;
+
 /// A "Sans-I/O" MQTTv3.1.1/v5.0 protocol engine.
 ///
 /// This engine strictly handles the *protocol state* of an MQTT connection without directly performing any I/O operations.
@@ -257,7 +260,7 @@ impl MqttEngine {
             ),
             incoming_qos2: HashSet::new(),
             session: None,
-            priority_queue: PriorityQueue::new(1000),
+            priority_queue: PriorityQueue::new(PUBLISH_QUEUE_CAPACITY),
             is_connected: false,
             last_packet_sent: Instant::now(),
             last_packet_received: Instant::now(),
@@ -671,8 +674,16 @@ impl MqttEngine {
     /// - **QoS 1/2**: Returns the assigned Packet ID (or uses the one provided).
     ///
     /// The command is pushed to the `PriorityQueue` and only moved to the `outgoing_buffer`
-    /// via `process_queue()` if the buffer limits allow.
+    /// via `process_queue()` if the buffer limits allow. A full queue refuses the command
+    /// with [`MqttClientError::BufferFull`]: an accepted publish is never dropped.
     pub fn publish(&mut self, mut command: PublishCommand) -> Result<Option<u16>, MqttClientError> {
+        if self.priority_queue.len() >= PUBLISH_QUEUE_CAPACITY {
+            return Err(MqttClientError::BufferFull {
+                buffer_type: "publish".to_string(),
+                capacity: PUBLISH_QUEUE_CAPACITY,
+            });
+        }
+
         let pid = if command.qos > 0 {
             if let Some(pid) = command.packet_id {
                 Some(pid)
-- 
2.43.0


From e6bda8470389a90f1614a7c5ff914f0193ece7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:54 +0000
Subject: [PATCH 76/93] fix: the load generator lost acknowledgements that
 arrived while it published over QUIC

---
 mqtt_ring_bench/src/connection.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mqtt_ring_bench/src/connection.rs b/mqtt_ring_bench/src/connection.rs
index 99f2a9e..a4e970c 100644
--- a/mqtt_ring_bench/src/connection.rs
+++ b/mqtt_ring_bench/src/connection.rs
@@ -387,6 +387,8 @@ pub struct QuicConnection {
     /// When each QoS 1/2 publish still to be answered was made, by packet identifier.
     pub latency_pending: HashMap<u16, Instant>,
     pub latency_samples: Vec<Duration>,
+    /// Events of engine ticks made while publishing, for the next caller.
+    held_events: Vec<MqttEvent>,
     pub next_publish_at: Option<Instant>,
     pub recv_buf: Vec<u8>,
     pub recv_pending: bool,
@@ -434,6 +436,7 @@ impl QuicConnection {
             messages_target: config.messages,
             latency_pending: HashMap::new(),
             latency_samples: Vec::new(),
+            held_events: Vec::new(),
             next_publish_at: None,
             recv_buf: vec![0u8; 2048], // UDP datagrams fit in ~1.5KB
             recv_pending: false,
@@ -474,14 +477,16 @@ impl QuicConnection {
     pub fn handle_datagram(&mut self, data: &[u8], now: Instant) -> Vec<MqttEvent> {
         self.engine
             .handle_datagram(data.to_vec(), self.server_addr, now);
-        let events = self.engine.handle_tick(now);
+        let mut events = std::mem::take(&mut self.held_events);
+        events.extend(self.engine.handle_tick(now));
         self.drain_outgoing_datagrams();
         events
     }
 
     /// Drive the QUIC + MQTT state machines forward.
     pub fn handle_tick(&mut self, now: Instant) -> Vec<MqttEvent> {
-        let events = self.engine.handle_tick(now);
+        let mut events = std::mem::take(&mut self.held_events);
+        events.extend(self.engine.handle_tick(now));
         self.drain_outgoing_datagrams();
         events
     }
@@ -518,7 +523,8 @@ impl QuicConnection {
                 }
                 self.messages_sent += 1;
                 // Drive engine to push MQTT data into QUIC stream and produce datagrams.
-                let _ = self.engine.handle_tick(now);
+                let events = self.engine.handle_tick(now);
+                self.held_events.extend(events);
                 self.drain_outgoing_datagrams();
                 if config.interval_ms > 0 {
                     self.next_publish_at = Some(now + Duration::from_millis(config.interval_ms));
-- 
2.43.0


From 7ff9265dda220eb163615b86e62a2494f56801e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:54 +0000
Subject: [PATCH 77/93] fix: the load generator closed QUIC QoS 0 runs before
 their messages were delivered

---
 mqtt_ring_bench/src/connection.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mqtt_ring_bench/src/connection.rs b/mqtt_ring_bench/src/connection.rs
index a4e970c..02cd3d8 100644
--- a/mqtt_ring_bench/src/connection.rs
+++ b/mqtt_ring_bench/src/connection.rs
@@ -383,6 +383,7 @@ pub struct QuicConnection {
     pub state: QuicConnState,
     pub messages_sent: u64,
     pub messages_acked: u64,
+    messages_refused: u64,
     pub messages_target: u64,
     /// When each QoS 1/2 publish still to be answered was made, by packet identifier.
     pub latency_pending: HashMap<u16, Instant>,
@@ -433,6 +434,7 @@ impl QuicConnection {
             state: QuicConnState::Handshaking,
             messages_sent: 0,
             messages_acked: 0,
+            messages_refused: 0,
             messages_target: config.messages,
             latency_pending: HashMap::new(),
             latency_samples: Vec::new(),
@@ -563,6 +565,7 @@ impl QuicConnection {
                             self.latency_samples.push(sent_at.elapsed());
                         }
                     } else {
+                        self.messages_refused += 1;
                         outcome.mqtt_publish_errors += 1;
                     }
                 }
@@ -595,10 +598,10 @@ impl QuicConnection {
         if self.state != QuicConnState::Draining {
             return false;
         }
-        // Only QoS 1/2 publishes still to be answered are waited for; a refused
-        // publish has been answered, and QoS 0 is never answered.
-        let drained =
-            self.latency_pending.is_empty() || self.drain_deadline.is_some_and(|d| now >= d);
+        // A refused publish has been answered. QoS 0 never is: it waits for the
+        // deadline, since the engine may still hold data the path has not taken.
+        let drained = self.messages_acked + self.messages_refused >= self.messages_sent
+            || self.drain_deadline.is_some_and(|d| now >= d);
         if drained {
             self.engine.disconnect();
             let _ = self.engine.handle_tick(now);
-- 
2.43.0


From e29103091119565b560b04295ab45800355d438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:14 +0000
Subject: [PATCH 78/93] fix: a QoS 2 publish of MqttClient ends with the PUBREC
 that refuses it, or with the connection

---
 src/mqtt_client/client.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/mqtt_client/client.rs b/src/mqtt_client/client.rs
index 79e99d4..57ad363 100644
--- a/src/mqtt_client/client.rs
+++ b/src/mqtt_client/client.rs
@@ -655,9 +655,15 @@ impl MqttClient {
 
         if self.is_v3() {
             // MQTT v3.1.1
-            self.recv_for_packet(|p| {
+            let pubrec = self.recv_for_packet(|p| {
                 matches!(p, MqttPacket::PubRec3(pubrec) if pubrec.message_id == expected_packet_id)
             })?;
+            if pubrec.is_none() {
+                return Err(io::Error::new(
+                    io::ErrorKind::UnexpectedEof,
+                    "No PUBREC received from broker",
+                ));
+            }
 
             self.send_packet(pubrelv3::MqttPubRel::new(expected_packet_id))?;
             match self.recv_for_packet(|p| {
@@ -678,9 +684,26 @@ impl MqttClient {
             }
         } else {
             // MQTT v5
-            self.recv_for_packet(|p| {
+            match self.recv_for_packet(|p| {
                 matches!(p, MqttPacket::PubRec5(pubrec) if pubrec.packet_id == expected_packet_id)
-            })?;
+            })? {
+                // The broker refused the message: there is nothing to release
+                Some(MqttPacket::PubRec5(pubrec)) if pubrec.reason_code >= 0x80 => {
+                    return Ok(PublishResult {
+                        packet_id: Some(pubrec.packet_id),
+                        reason_code: Some(pubrec.reason_code),
+                        properties: Some(pubrec.properties),
+                        qos: 2,
+                    });
+                }
+                Some(_) => {}
+                None => {
+                    return Err(io::Error::new(
+                        io::ErrorKind::UnexpectedEof,
+                        "No PUBREC received from broker",
+                    ));
+                }
+            }
 
             self.send_packet(pubrelv5::MqttPubRel::new(expected_packet_id, 0, vec![]))?;
             match self.recv_for_packet(|p| {
-- 
2.43.0


From a3ad4151362bc184d1b2f41ba36a0cdf911f77fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:57 +0000
Subject: [PATCH 79/93] fix: MqttClient's *_send methods speak the configured
 version of MQTT

---
 src/mqtt_client/client.rs | 171 +++++++++++++++++++++++---------------
 1 file changed, 102 insertions(+), 69 deletions(-)

diff --git a/src/mqtt_client/client.rs b/src/mqtt_client/client.rs
index 57ad363..d5d12db 100644
--- a/src/mqtt_client/client.rs
+++ b/src/mqtt_client/client.rs
@@ -311,6 +311,36 @@ impl MqttClient {
         }
     }
 
+    // CONNECT packet of an MQTT v3.1.1 connection
+    fn connect_packet_v3(&self) -> connectv3::MqttConnect {
+        let mut connect_packet = connectv3::MqttConnect::new(
+            self.options.client_id.clone(),
+            self.options.keep_alive,
+            self.options.clean_start, // v3 uses clean_session
+        );
+        connect_packet.username = self.options.username.clone();
+        connect_packet.password = self.options.password.clone();
+
+        // Convert v5 Will to v3 Will if present
+        if let Some(will_v5) = &self.options.will {
+            connect_packet.will = Some(Self::convert_will_v5_to_v3(will_v5));
+        }
+        connect_packet
+    }
+
+    // CONNECT packet of an MQTT v5 connection
+    fn connect_packet_v5(&self) -> connectv5::MqttConnect {
+        connectv5::MqttConnect::new(
+            self.options.client_id.clone(),
+            self.options.username.clone(),
+            self.options.password.clone(),
+            self.options.will.clone(),
+            self.options.keep_alive,
+            self.options.clean_start,
+            vec![], // Add properties as needed
+        )
+    }
+
     // methods for unhandled packets
     pub fn unhandled_packets_mut(&mut self) -> &mut Vec<MqttPacket> {
         &mut self.context.unhandled_packets
@@ -349,18 +379,7 @@ impl MqttClient {
             // Create CONNECT packet based on protocol version
             if self.is_v3() {
                 // MQTT v3.1.1
-                let mut connect_packet = connectv3::MqttConnect::new(
-                    self.options.client_id.clone(),
-                    self.options.keep_alive,
-                    self.options.clean_start, // v3 uses clean_session
-                );
-                connect_packet.username = self.options.username.clone();
-                connect_packet.password = self.options.password.clone();
-
-                // Convert v5 Will to v3 Will if present
-                if let Some(will_v5) = &self.options.will {
-                    connect_packet.will = Some(Self::convert_will_v5_to_v3(will_v5));
-                }
+                let connect_packet = self.connect_packet_v3();
 
                 // stream used, now save it
                 let mqtt_stream = MqttStream::new(stream, 16384, self.options.mqtt_version);
@@ -399,15 +418,7 @@ impl MqttClient {
                 }
             } else {
                 // MQTT v5
-                let connect_packet = connectv5::MqttConnect::new(
-                    self.options.client_id.clone(),
-                    self.options.username.clone(),
-                    self.options.password.clone(),
-                    self.options.will.clone(),
-                    self.options.keep_alive,
-                    self.options.clean_start,
-                    vec![], // Add properties as needed
-                );
+                let connect_packet = self.connect_packet_v5();
 
                 // stream used, now save it
                 let mqtt_stream = MqttStream::new(stream, 16384, 5);
@@ -833,23 +844,16 @@ impl MqttClient {
                 self.context.session = Some(ClientSession::new());
             }
 
-            // Send CONNECT packet
-            let connect_packet = connectv5::MqttConnect::new(
-                self.options.client_id.clone(),
-                self.options.username.clone(),
-                self.options.password.clone(),
-                self.options.will.clone(),
-                self.options.keep_alive,
-                self.options.clean_start,
-                vec![], // Add properties as needed
-            );
-
             // Stream used, now save it
-            let mqtt_stream = MqttStream::new(stream, 16384, 5);
+            let mqtt_stream = MqttStream::new(stream, 16384, self.options.mqtt_version);
             self.context.mqtt_stream = Some(mqtt_stream);
 
             // Send CONNECT packet without waiting for CONNACK
-            self.send_packet(connect_packet)?;
+            if self.is_v3() {
+                self.send_packet(self.connect_packet_v3())?;
+            } else {
+                self.send_packet(self.connect_packet_v5())?;
+            }
         }
         Ok(())
     }
@@ -857,23 +861,31 @@ impl MqttClient {
     /// Send SUBSCRIBE packet without waiting for SUBACK
     pub fn subscribe_send(&mut self, topic: &str, qos: u8) -> io::Result<u16> {
         if let Some(session) = &mut self.context.session {
-            let subscription = subscribev5::TopicSubscription {
-                topic_filter: topic.to_string(),
-                qos,
-                no_local: false,
-                retain_as_published: false,
-                retain_handling: 0,
-            };
-
             let packet_id = session.next_packet_id();
-            let subscribe_packet = subscribev5::MqttSubscribe::new(
-                packet_id,
-                vec![subscription],
-                vec![], // Add properties as needed
-            );
 
             // Send SUBSCRIBE packet without waiting for SUBACK
-            self.send_packet(subscribe_packet)?;
+            if self.is_v3() {
+                self.send_packet(subscribev3::MqttSubscribe::new(
+                    packet_id,
+                    vec![subscribev3::SubscriptionTopic {
+                        topic_filter: topic.to_string(),
+                        qos,
+                    }],
+                ))?;
+            } else {
+                let subscription = subscribev5::TopicSubscription {
+                    topic_filter: topic.to_string(),
+                    qos,
+                    no_local: false,
+                    retain_as_published: false,
+                    retain_handling: 0,
+                };
+                self.send_packet(subscribev5::MqttSubscribe::new(
+                    packet_id,
+                    vec![subscription],
+                    vec![], // Add properties as needed
+                ))?;
+            }
 
             // Update session state - track pending subscription
             self.context
@@ -892,14 +904,19 @@ impl MqttClient {
             let topic_filters: Vec<String> = topics.iter().map(|&s| s.to_string()).collect();
             let packet_id = session.next_packet_id();
 
-            let unsubscribe_packet = unsubscribev5::MqttUnsubscribe::new(
-                packet_id,
-                topic_filters.clone(),
-                vec![], // Add properties as needed
-            );
-
             // Send UNSUBSCRIBE packet without waiting for UNSUBACK
-            self.send_packet(unsubscribe_packet)?;
+            if self.is_v3() {
+                self.send_packet(unsubscribev3::MqttUnsubscribe::new(
+                    packet_id,
+                    topic_filters.clone(),
+                ))?;
+            } else {
+                self.send_packet(unsubscribev5::MqttUnsubscribe::new(
+                    packet_id,
+                    topic_filters.clone(),
+                    vec![], // Add properties as needed
+                ))?;
+            }
 
             // Update session state - track pending unsubscription
             self.context
@@ -932,17 +949,26 @@ impl MqttClient {
                 None
             };
 
-            let publish_packet = publishv5::MqttPublish::new(
-                qos,
-                topic.to_string(),
-                packet_id,
-                payload.to_vec(),
-                retain,
-                false,
-            );
-
             // Send PUBLISH packet without waiting for acknowledgment
-            self.send_packet(publish_packet)?;
+            if self.is_v3() {
+                self.send_packet(publishv3::MqttPublish::new(
+                    topic.to_string(),
+                    qos,
+                    payload.to_vec(),
+                    packet_id,
+                    retain,
+                    false,
+                ))?;
+            } else {
+                self.send_packet(publishv5::MqttPublish::new(
+                    qos,
+                    topic.to_string(),
+                    packet_id,
+                    payload.to_vec(),
+                    retain,
+                    false,
+                ))?;
+            }
 
             // For QoS 1/2, track the packet_id in session state for retransmission
             if let Some(pid) = packet_id {
@@ -959,14 +985,21 @@ impl MqttClient {
 
     /// Send PINGREQ packet without waiting for PINGRESP
     pub fn ping_send(&mut self) -> io::Result<()> {
-        let pingreq_packet = pingreqv5::MqttPingReq::new();
-        self.send_packet(pingreq_packet)
+        if self.is_v3() {
+            self.send_packet(pingreqv3::MqttPingReq::new())
+        } else {
+            self.send_packet(pingreqv5::MqttPingReq::new())
+        }
     }
 
     /// Send DISCONNECT packet without waiting (DISCONNECT has no response)
     pub fn disconnect_send(&mut self) -> io::Result<()> {
-        let disconnect_packet = disconnectv5::MqttDisconnect::new(0, vec![]); // reason code 0, no properties
-        self.send_packet(disconnect_packet)
+        if self.is_v3() {
+            self.send_packet(disconnectv3::MqttDisconnect::new())
+        } else {
+            // reason code 0, no properties
+            self.send_packet(disconnectv5::MqttDisconnect::new(0, vec![]))
+        }
     }
 
     // Session state management methods
-- 
2.43.0


From fa4d131a216c87a3974dd6593e6ee8e192cfe4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:17 +0000
Subject: [PATCH 80/93] fix: MqttClient sends the CONNECT properties its
 options ask for, and no v3 password without a user name

---
 src/mqtt_client/client.rs |  7 +++++--
 src/mqtt_client/engine.rs | 21 +--------------------
 src/mqtt_client/opts.rs   | 19 +++++++++++++++++++
 3 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/mqtt_client/client.rs b/src/mqtt_client/client.rs
index d5d12db..90c9361 100644
--- a/src/mqtt_client/client.rs
+++ b/src/mqtt_client/client.rs
@@ -319,7 +319,10 @@ impl MqttClient {
             self.options.clean_start, // v3 uses clean_session
         );
         connect_packet.username = self.options.username.clone();
-        connect_packet.password = self.options.password.clone();
+        // MQTT 3.1.1: 3.1.2.9, no password without a user name
+        if connect_packet.username.is_some() {
+            connect_packet.password = self.options.password.clone();
+        }
 
         // Convert v5 Will to v3 Will if present
         if let Some(will_v5) = &self.options.will {
@@ -337,7 +340,7 @@ impl MqttClient {
             self.options.will.clone(),
             self.options.keep_alive,
             self.options.clean_start,
-            vec![], // Add properties as needed
+            self.options.connect_properties(),
         )
     }
 
diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index dbbd9cf..3a4556f 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -623,7 +623,7 @@ impl MqttEngine {
                 self.options.will.clone(),
                 self.options.keep_alive,
                 self.options.clean_start,
-                self.connect_properties(),
+                self.options.connect_properties(),
             );
             MqttPacket::Connect5(connect)
         } else {
@@ -649,25 +649,6 @@ impl MqttEngine {
         let _ = self.enqueue_packet(packet);
     }
 
-    /// The CONNECT properties the options ask for (MQTT 5).
-    fn connect_properties(&self) -> Vec<Property> {
-        let options = &self.options;
-        let mut properties = Vec::new();
-        if let Some(interval) = options.session_expiry_interval {
-            properties.push(Property::SessionExpiryInterval(interval));
-        }
-        if let Some(size) = options.maximum_packet_size {
-            properties.push(Property::MaximumPacketSize(size));
-        }
-        if let Some(request) = options.request_response_information {
-            properties.push(Property::RequestResponseInformation(request as u8));
-        }
-        if let Some(request) = options.request_problem_information {
-            properties.push(Property::RequestProblemInformation(request as u8));
-        }
-        properties
-    }
-
     /// Queue a PUBLISH packet.
     ///
     /// - **QoS 0**: ID is usually None (unless needed for tracing).
diff --git a/src/mqtt_client/opts.rs b/src/mqtt_client/opts.rs
index d7ef621..c833138 100644
--- a/src/mqtt_client/opts.rs
+++ b/src/mqtt_client/opts.rs
@@ -1,5 +1,6 @@
 // SPDX-License-Identifier: MPL-2.0
 
+use crate::mqtt_serde::mqttv5::common::properties::Property;
 use crate::mqtt_serde::mqttv5::subscribev5;
 use crate::mqtt_serde::mqttv5::willv5::Will;
 
@@ -178,6 +179,24 @@ impl Default for MqttClientOptions {
 pub type MqttClientOptionsBuilder = MqttClientOptions;
 
 impl MqttClientOptions {
+    /// The CONNECT properties the options ask for (MQTT 5).
+    pub(crate) fn connect_properties(&self) -> Vec<Property> {
+        let mut properties = Vec::new();
+        if let Some(interval) = self.session_expiry_interval {
+            properties.push(Property::SessionExpiryInterval(interval));
+        }
+        if let Some(size) = self.maximum_packet_size {
+            properties.push(Property::MaximumPacketSize(size));
+        }
+        if let Some(request) = self.request_response_information {
+            properties.push(Property::RequestResponseInformation(request as u8));
+        }
+        if let Some(request) = self.request_problem_information {
+            properties.push(Property::RequestProblemInformation(request as u8));
+        }
+        properties
+    }
+
     /// Create a new builder with default values
     pub fn builder() -> Self {
         Self::default()
-- 
2.43.0


From 55d4493b88b8274c9f8e8bad1b88e541654eb874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:40 +0000
Subject: [PATCH 81/93] fix: MqttClient reports why it could not reach the
 broker, from connect_send too

---
 src/mqtt_client/client.rs | 180 +++++++++++++++++++-------------------
 1 file changed, 89 insertions(+), 91 deletions(-)

diff --git a/src/mqtt_client/client.rs b/src/mqtt_client/client.rs
index 90c9361..d4f2841 100644
--- a/src/mqtt_client/client.rs
+++ b/src/mqtt_client/client.rs
@@ -368,93 +368,92 @@ impl MqttClient {
     // Connect to the MQTT broker and wait for CONNACK
     pub fn connected(&mut self) -> io::Result<ConnectionResult> {
         // Establish connection to the MQTT broker
-        if let Ok(stream) = TcpStream::connect(self.context.peer.clone()) {
-            // Connection established
-
-            // Initialize ClientSession
-            if self.options.sessionless {
-                self.context.session = None;
-                self.options.clean_start = true;
-            } else if self.context.session.is_none() {
-                self.context.session = Some(ClientSession::new());
-            }
+        let stream = TcpStream::connect(self.context.peer.clone())?;
+        // Connection established
+
+        // Initialize ClientSession
+        if self.options.sessionless {
+            self.context.session = None;
+            self.options.clean_start = true;
+        } else if self.context.session.is_none() {
+            self.context.session = Some(ClientSession::new());
+        }
 
-            // Create CONNECT packet based on protocol version
-            if self.is_v3() {
-                // MQTT v3.1.1
-                let connect_packet = self.connect_packet_v3();
+        // Create CONNECT packet based on protocol version
+        if self.is_v3() {
+            // MQTT v3.1.1
+            let connect_packet = self.connect_packet_v3();
 
-                // stream used, now save it
-                let mqtt_stream = MqttStream::new(stream, 16384, self.options.mqtt_version);
-                self.context.mqtt_stream = Some(mqtt_stream);
+            // stream used, now save it
+            let mqtt_stream = MqttStream::new(stream, 16384, self.options.mqtt_version);
+            self.context.mqtt_stream = Some(mqtt_stream);
 
-                // Send CONNECT packet
-                self.send_packet(connect_packet)?;
+            // Send CONNECT packet
+            self.send_packet(connect_packet)?;
 
-                if let Some(packet) = self.recv_packet()? {
-                    match packet {
-                        MqttPacket::ConnAck3(connack) => {
-                            // Always update session_present in context
-                            self.context.session_present = connack.session_present;
-
-                            // If connection successful and session not present, clear session state
-                            // v3 return code 0 = Connection Accepted
-                            if connack.return_code == 0 && !connack.session_present {
-                                if let Some(sess) = &mut self.context.session {
-                                    sess.clear();
-                                }
-                                // Also clear pending operations since session is reset
-                                self.clear_pending_operations();
+            if let Some(packet) = self.recv_packet()? {
+                match packet {
+                    MqttPacket::ConnAck3(connack) => {
+                        // Always update session_present in context
+                        self.context.session_present = connack.session_present;
+
+                        // If connection successful and session not present, clear session state
+                        // v3 return code 0 = Connection Accepted
+                        if connack.return_code == 0 && !connack.session_present {
+                            if let Some(sess) = &mut self.context.session {
+                                sess.clear();
                             }
-
-                            // Return the connection result
-                            return Ok(ConnectionResult {
-                                reason_code: connack.return_code,
-                                session_present: connack.session_present,
-                                properties: None, // v3 doesn't have properties
-                            });
-                        }
-                        _ => {
-                            return Err(io::Error::other("Expected CONNACK packet"));
+                            // Also clear pending operations since session is reset
+                            self.clear_pending_operations();
                         }
+
+                        // Return the connection result
+                        return Ok(ConnectionResult {
+                            reason_code: connack.return_code,
+                            session_present: connack.session_present,
+                            properties: None, // v3 doesn't have properties
+                        });
+                    }
+                    _ => {
+                        return Err(io::Error::other("Expected CONNACK packet"));
                     }
                 }
-            } else {
-                // MQTT v5
-                let connect_packet = self.connect_packet_v5();
+            }
+        } else {
+            // MQTT v5
+            let connect_packet = self.connect_packet_v5();
 
-                // stream used, now save it
-                let mqtt_stream = MqttStream::new(stream, 16384, 5);
-                self.context.mqtt_stream = Some(mqtt_stream);
+            // stream used, now save it
+            let mqtt_stream = MqttStream::new(stream, 16384, 5);
+            self.context.mqtt_stream = Some(mqtt_stream);
 
-                // Send CONNECT packet
-                self.send_packet(connect_packet)?;
+            // Send CONNECT packet
+            self.send_packet(connect_packet)?;
 
-                if let Some(packet) = self.recv_packet()? {
-                    match packet {
-                        MqttPacket::ConnAck5(connack) => {
-                            // Always update session_present in context
-                            self.context.session_present = connack.session_present;
-
-                            // If connection successful and session not present, clear session state
-                            if connack.reason_code == 0 && !connack.session_present {
-                                if let Some(sess) = &mut self.context.session {
-                                    sess.clear();
-                                }
-                                // Also clear pending operations since session is reset
-                                self.clear_pending_operations();
+            if let Some(packet) = self.recv_packet()? {
+                match packet {
+                    MqttPacket::ConnAck5(connack) => {
+                        // Always update session_present in context
+                        self.context.session_present = connack.session_present;
+
+                        // If connection successful and session not present, clear session state
+                        if connack.reason_code == 0 && !connack.session_present {
+                            if let Some(sess) = &mut self.context.session {
+                                sess.clear();
                             }
-
-                            // Return the connection result regardless of reason code
-                            return Ok(ConnectionResult {
-                                reason_code: connack.reason_code,
-                                session_present: connack.session_present,
-                                properties: connack.properties,
-                            });
-                        }
-                        _ => {
-                            return Err(io::Error::other("Expected CONNACK packet"));
+                            // Also clear pending operations since session is reset
+                            self.clear_pending_operations();
                         }
+
+                        // Return the connection result regardless of reason code
+                        return Ok(ConnectionResult {
+                            reason_code: connack.reason_code,
+                            session_present: connack.session_present,
+                            properties: connack.properties,
+                        });
+                    }
+                    _ => {
+                        return Err(io::Error::other("Expected CONNACK packet"));
                     }
                 }
             }
@@ -838,25 +837,24 @@ impl MqttClient {
     /// Send CONNECT packet without waiting for CONNACK
     pub fn connect_send(&mut self) -> io::Result<()> {
         // Establish connection to the MQTT broker
-        if let Ok(stream) = TcpStream::connect(self.context.peer.clone()) {
-            // Initialize ClientSession
-            if self.options.sessionless {
-                self.context.session = None;
-                self.options.clean_start = true;
-            } else if self.context.session.is_none() {
-                self.context.session = Some(ClientSession::new());
-            }
+        let stream = TcpStream::connect(self.context.peer.clone())?;
+        // Initialize ClientSession
+        if self.options.sessionless {
+            self.context.session = None;
+            self.options.clean_start = true;
+        } else if self.context.session.is_none() {
+            self.context.session = Some(ClientSession::new());
+        }
 
-            // Stream used, now save it
-            let mqtt_stream = MqttStream::new(stream, 16384, self.options.mqtt_version);
-            self.context.mqtt_stream = Some(mqtt_stream);
+        // Stream used, now save it
+        let mqtt_stream = MqttStream::new(stream, 16384, self.options.mqtt_version);
+        self.context.mqtt_stream = Some(mqtt_stream);
 
-            // Send CONNECT packet without waiting for CONNACK
-            if self.is_v3() {
-                self.send_packet(self.connect_packet_v3())?;
-            } else {
-                self.send_packet(self.connect_packet_v5())?;
-            }
+        // Send CONNECT packet without waiting for CONNACK
+        if self.is_v3() {
+            self.send_packet(self.connect_packet_v3())?;
+        } else {
+            self.send_packet(self.connect_packet_v5())?;
         }
         Ok(())
     }
-- 
2.43.0


From bf058c00f39a3724989868d9e4e95e84859176dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:40 +0000
Subject: [PATCH 82/93] fix: MqttStream reads a large packet without one stack
 frame per kilobyte

---
 src/mqtt_serde/parser/stream.rs | 49 +++++++++++++++++----------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/src/mqtt_serde/parser/stream.rs b/src/mqtt_serde/parser/stream.rs
index a76d16d..4456aca 100644
--- a/src/mqtt_serde/parser/stream.rs
+++ b/src/mqtt_serde/parser/stream.rs
@@ -249,33 +249,34 @@ where
     type Item = Result<MqttPacket, ParseError>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.parser.next_packet() {
-            Ok(Some(packet)) => Some(Ok(packet)),
-            Ok(None) => {
-                // Reserve space in the parser's buffer for reading
-                let buffer = self.parser.buffer_mut();
-                let initial_len = buffer.len();
-                buffer.resize(initial_len + 1024, 0);
-
-                match self.stream.read(&mut buffer[initial_len..]) {
-                    Ok(0) => {
-                        // End of stream - remove the unused space we reserved
-                        buffer.truncate(initial_len);
-                        None
-                    }
-                    Ok(n) => {
-                        // Adjust buffer to actual bytes read
-                        buffer.truncate(initial_len + n);
-                        self.next() // Try to parse again
-                    }
-                    Err(e) => {
-                        // Remove the unused space we reserved
-                        buffer.truncate(initial_len);
-                        Some(Err(ParseError::IoError(e)))
+        loop {
+            match self.parser.next_packet() {
+                Ok(Some(packet)) => return Some(Ok(packet)),
+                Ok(None) => {
+                    // Reserve space in the parser's buffer for reading
+                    let buffer = self.parser.buffer_mut();
+                    let initial_len = buffer.len();
+                    buffer.resize(initial_len + 1024, 0);
+
+                    match self.stream.read(&mut buffer[initial_len..]) {
+                        Ok(0) => {
+                            // End of stream - remove the unused space we reserved
+                            buffer.truncate(initial_len);
+                            return None;
+                        }
+                        Ok(n) => {
+                            // Adjust buffer to actual bytes read, then try to parse again
+                            buffer.truncate(initial_len + n);
+                        }
+                        Err(e) => {
+                            // Remove the unused space we reserved
+                            buffer.truncate(initial_len);
+                            return Some(Err(ParseError::IoError(e)));
+                        }
                     }
                 }
+                Err(e) => return Some(Err(e)),
             }
-            Err(e) => Some(Err(e)),
         }
     }
 }
-- 
2.43.0


From 229320e2eb3399958decc10d760016e00e0ff344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:10 +0000
Subject: [PATCH 83/93] fix: AUTH packets from the server are reported to the
 application

---
 flowsdk_ffi/src/engine.rs             |  1 +
 src/mqtt_client/engine.rs             | 10 +++++++++-
 src/mqtt_client/tokio_async_client.rs |  3 +++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index 062aa7c..c54e2f5 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -222,6 +222,7 @@ fn map_event(event: MqttEvent) -> Option<MqttEventFFI> {
         MqttEvent::PingResponse(res) => Some(MqttEventFFI::PingResponse {
             success: res.success,
         }),
+        MqttEvent::AuthReceived(_) => None,
         MqttEvent::Error(err) => Some(MqttEventFFI::Error {
             message: format!("{:?}", err),
         }),
diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 3a4556f..5aec5cc 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -38,7 +38,7 @@ use crate::mqtt_session::ClientSession;
 use crate::priority_queue::PriorityQueue;
 
 use super::client::{
-    ConnectionResult, PingResult, PublishResult, SubscribeResult, UnsubscribeResult,
+    AuthResult, ConnectionResult, PingResult, PublishResult, SubscribeResult, UnsubscribeResult,
 };
 use super::commands::{PublishCommand, SubscribeCommand, UnsubscribeCommand};
 use super::error::MqttClientError;
@@ -112,6 +112,8 @@ pub enum MqttEvent {
         stream: Option<u64>,
     },
     PingResponse(PingResult),
+    /// AUTH received from the server (MQTT v5 enhanced authentication)
+    AuthReceived(AuthResult),
     Error(MqttClientError),
     /// The underlying QUIC transport connection was lost or closed, with details
     /// from quinn-proto (peer close, idle timeout, local close, reset, etc.).
@@ -1289,6 +1291,12 @@ impl MqttEngine {
                 self.is_connected = false;
                 events.push(MqttEvent::Disconnected(Some(d.reason_code)));
             }
+            MqttPacket::Auth(auth) => {
+                events.push(MqttEvent::AuthReceived(AuthResult {
+                    reason_code: auth.reason_code,
+                    properties: auth.properties,
+                }));
+            }
             _ => {}
         }
         (events, responses)
diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index f1f2e95..400e762 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1817,6 +1817,9 @@ impl TokioClientWorker {
                     }
                     self.event_handler.on_ping_response(&res).await;
                 }
+                MqttEvent::AuthReceived(res) => {
+                    self.event_handler.on_auth_received(&res).await;
+                }
                 MqttEvent::Error(err) => {
                     self.event_handler.on_error(&err).await;
                 }
-- 
2.43.0


From 1bb213d0121169e9c94df14244b47527c8a7d4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:25 +0000
Subject: [PATCH 84/93] fix: the keep-alive the server names in CONNACK
 replaces the configured one

---
 src/mqtt_client/engine.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 5aec5cc..6c343ec 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -203,6 +203,8 @@ pub struct MqttEngine {
     /// only valid after this request has not received a PINGRESP in time.
     ping_sent_at: Option<Instant>,
     unanswered_pings: usize,
+    /// Keep-alive the server asked for in CONNACK; it replaces the configured one
+    server_keep_alive: Option<u16>,
 
     // Buffers and Parsers
     parser: MqttParser,
@@ -268,6 +270,7 @@ impl MqttEngine {
             last_packet_received: Instant::now(),
             ping_sent_at: None,
             unanswered_pings: 0,
+            server_keep_alive: None,
             parser,
             input_paused: false,
             outgoing_buffer: VecDeque::new(),
@@ -468,7 +471,7 @@ impl MqttEngine {
             return self.take_events();
         }
 
-        let keep_alive = Duration::from_secs(self.options.keep_alive as u64);
+        let keep_alive = self.keep_alive();
 
         // 1. A PINGRESP is only required after we actually send a PINGREQ. In
         // particular, QoS 0 publishing may be continuously outbound and have
@@ -504,6 +507,12 @@ impl MqttEngine {
         self.take_events()
     }
 
+    /// The keep-alive in force on this connection.
+    fn keep_alive(&self) -> Duration {
+        let seconds = self.server_keep_alive.unwrap_or(self.options.keep_alive);
+        Duration::from_secs(seconds as u64)
+    }
+
     fn handle_retransmissions(&mut self, now: Instant) -> Vec<MqttEvent> {
         let events = Vec::new();
 
@@ -555,7 +564,7 @@ impl MqttEngine {
         }
 
         let mut next = None;
-        let keep_alive = Duration::from_secs(self.options.keep_alive as u64);
+        let keep_alive = self.keep_alive();
 
         // 2. A PINGREQ response timeout takes precedence over another PINGREQ.
         if keep_alive > Duration::ZERO {
@@ -1015,6 +1024,12 @@ impl MqttEngine {
                     properties: ack.properties.clone(),
                 }));
 
+                // The server's keep-alive holds for this connection only
+                self.server_keep_alive = ack.properties.iter().flatten().find_map(|p| match p {
+                    Property::ServerKeepAlive(seconds) => Some(*seconds),
+                    _ => None,
+                });
+
                 // Update receive_maximum from CONNACK properties if present. A value
                 // from an earlier connection does not carry over.
                 self.inflight_queue
-- 
2.43.0


From 1d0f014ddb211b147b5fca940c4d948d5fcbd323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:25 +0000
Subject: [PATCH 85/93] fix: the async client uses the TLS configuration of its
 options Root certificates, client identity and switches given with
 tls_config() and rustls_tls_config() were ignored; every connection used the
 defaults.

---
 src/mqtt_client/tokio_async_client.rs | 37 +++++++++++++++++----------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 400e762..daee88a 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -2066,16 +2066,22 @@ impl TokioClientWorker {
                 match self.engine.options().tls_backend {
                     #[cfg(feature = "rustls-tls")]
                     Some(crate::mqtt_client::opts::TlsBackend::Rustls) => {
-                        let mut rustls_cfg =
-                            crate::mqtt_client::transport::RustlsTlsConfig::builder()
-                                .use_system_roots(true);
+                        let mut rustls_cfg = self
+                            .engine
+                            .options()
+                            .rustls_tls_config
+                            .clone()
+                            .unwrap_or_else(|| {
+                                crate::mqtt_client::transport::RustlsTlsConfig::builder()
+                                    .use_system_roots(true)
+                                    .build()
+                            });
                         if self.config.tls_enable_key_log {
-                            rustls_cfg = rustls_cfg.enable_key_log(true);
+                            rustls_cfg.enable_key_log = true;
                         }
                         let transport =
                             crate::mqtt_client::transport::RustlsTlsTransport::connect_with_config(
-                                addr,
-                                rustls_cfg.build(),
+                                addr, rustls_cfg,
                             )
                             .await
                             .map_err(|e| {
@@ -2090,11 +2096,12 @@ impl TokioClientWorker {
                     }
                     #[cfg(feature = "tls")]
                     Some(crate::mqtt_client::opts::TlsBackend::Native) => {
-                        let transport = TlsTransport::connect(addr).await.map_err(|e| {
-                            MqttClientError::ConnectionLost {
+                        let tls_cfg = self.engine.options().tls_config.clone().unwrap_or_default();
+                        let transport = TlsTransport::connect_with_config(addr, &tls_cfg)
+                            .await
+                            .map_err(|e| MqttClientError::ConnectionLost {
                                 reason: format!("TLS connection failed to {}: {}", peer, e),
-                            }
-                        })?;
+                            })?;
                         Ok(Box::new(transport) as BoxedTransport)
                     }
                     #[cfg(all(feature = "tls", not(feature = "rustls-tls")))]
@@ -2118,11 +2125,13 @@ impl TokioClientWorker {
                         // Backward compatibility: default to Native if available
                         #[cfg(feature = "tls")]
                         {
-                            let transport = TlsTransport::connect(addr).await.map_err(|e| {
-                                MqttClientError::ConnectionLost {
+                            let tls_cfg =
+                                self.engine.options().tls_config.clone().unwrap_or_default();
+                            let transport = TlsTransport::connect_with_config(addr, &tls_cfg)
+                                .await
+                                .map_err(|e| MqttClientError::ConnectionLost {
                                     reason: format!("TLS connection failed to {}: {}", peer, e),
-                                }
-                            })?;
+                                })?;
                             Ok(Box::new(transport) as BoxedTransport)
                         }
                         #[cfg(not(feature = "tls"))]
-- 
2.43.0


From 1dd888f51e471010babe7acb4f998a67acd0a035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:25 +0000
Subject: [PATCH 86/93] fix: accepting invalid host names over rustls no longer
 accepts any certificate danger_accept_invalid_hostnames alone replaced the
 whole verification of the certificate chain and of the handshake signatures.

---
 src/mqtt_client/transport/rustls_tls.rs | 65 +++++++++++++++++++++++--
 1 file changed, 62 insertions(+), 3 deletions(-)

diff --git a/src/mqtt_client/transport/rustls_tls.rs b/src/mqtt_client/transport/rustls_tls.rs
index 4ff2b2a..6402dde 100644
--- a/src/mqtt_client/transport/rustls_tls.rs
+++ b/src/mqtt_client/transport/rustls_tls.rs
@@ -69,6 +69,8 @@ mod imp {
                 })?;
             }
 
+            let roots = Arc::new(roots);
+
             // Build rustls config with or without client auth
             let mut cfg = if let (Some(chain), Some(key)) = (
                 self.client_cert_chain.clone(),
@@ -85,7 +87,7 @@ mod imp {
                 let key_der: PrivateKeyDer<'static> = parsed_key.clone_key();
 
                 RustlsClientConfig::builder()
-                    .with_root_certificates(roots)
+                    .with_root_certificates(roots.clone())
                     .with_client_auth_cert(chain_der, key_der)
                     .map_err(|e| {
                         TransportError::Tls(format!(
@@ -95,7 +97,7 @@ mod imp {
                     })?
             } else {
                 RustlsClientConfig::builder()
-                    .with_root_certificates(roots)
+                    .with_root_certificates(roots.clone())
                     .with_no_client_auth()
             };
 
@@ -105,11 +107,18 @@ mod imp {
             }
 
             // Apply dangerous overrides if requested
-            if self.danger_accept_invalid_certs || self.danger_accept_invalid_hostnames {
+            if self.danger_accept_invalid_certs {
                 cfg.dangerous()
                     .set_certificate_verifier(Arc::new(InsecureServerCertVerifier {
                         skip_name_check: self.danger_accept_invalid_hostnames,
                     }));
+            } else if self.danger_accept_invalid_hostnames {
+                let algorithms = cfg.crypto_provider().signature_verification_algorithms;
+                cfg.dangerous()
+                    .set_certificate_verifier(Arc::new(AnyNameServerCertVerifier {
+                        roots,
+                        algorithms,
+                    }));
             }
 
             // Enable TLS key logging if requested (writes to SSLKEYLOGFILE)
@@ -335,6 +344,56 @@ mod imp {
         }
     }
 
+    /// ⚠️ DANGEROUS: A certificate verifier that checks the chain and the signatures, but not the name.
+    #[derive(Debug)]
+    struct AnyNameServerCertVerifier {
+        roots: Arc<RootCertStore>,
+        algorithms: rustls::crypto::WebPkiSupportedAlgorithms,
+    }
+
+    impl ServerCertVerifier for AnyNameServerCertVerifier {
+        fn verify_server_cert(
+            &self,
+            end_entity: &CertificateDer<'_>,
+            intermediates: &[CertificateDer<'_>],
+            _server_name: &ServerName<'_>,
+            _ocsp_response: &[u8],
+            now: UnixTime,
+        ) -> Result<ServerCertVerified, rustls::Error> {
+            let cert = rustls::server::ParsedCertificate::try_from(end_entity)?;
+            rustls::client::verify_server_cert_signed_by_trust_anchor(
+                &cert,
+                &self.roots,
+                intermediates,
+                now,
+                self.algorithms.all,
+            )?;
+            Ok(ServerCertVerified::assertion())
+        }
+
+        fn verify_tls12_signature(
+            &self,
+            message: &[u8],
+            cert: &CertificateDer<'_>,
+            dss: &rustls::DigitallySignedStruct,
+        ) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
+            rustls::crypto::verify_tls12_signature(message, cert, dss, &self.algorithms)
+        }
+
+        fn verify_tls13_signature(
+            &self,
+            message: &[u8],
+            cert: &CertificateDer<'_>,
+            dss: &rustls::DigitallySignedStruct,
+        ) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
+            rustls::crypto::verify_tls13_signature(message, cert, dss, &self.algorithms)
+        }
+
+        fn supported_verify_schemes(&self) -> Vec<rustls::SignatureScheme> {
+            self.algorithms.supported_schemes()
+        }
+    }
+
     /// Rustls-backed TLS transport for MQTT over TCP
     pub struct RustlsTlsTransport {
         stream: RustlsTlsStream<TcpStream>,
-- 
2.43.0


From 162fc52a37d02b407f7120f5058a56b4744835e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:25 +0000
Subject: [PATCH 87/93] fix: the default rustls configuration trusts the
 platform's roots, as documented RustlsTlsConfig::default(), and with it
 enable_rustls_tls() and connect_rustls(), trusted no certificate at all.

---
 src/mqtt_client/transport/rustls_tls.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/transport/rustls_tls.rs b/src/mqtt_client/transport/rustls_tls.rs
index 6402dde..c700367 100644
--- a/src/mqtt_client/transport/rustls_tls.rs
+++ b/src/mqtt_client/transport/rustls_tls.rs
@@ -20,7 +20,7 @@ mod imp {
     use tokio_rustls::{client::TlsStream as RustlsTlsStream, TlsConnector as RustlsTlsConnector};
 
     /// TLS configuration for Rustls backend
-    #[derive(Clone, Default, Debug)]
+    #[derive(Clone, Debug)]
     pub struct RustlsTlsConfig {
         /// Use system root certificates (platform trust store). Enabled by default.
         pub use_system_roots: bool,
@@ -40,6 +40,13 @@ mod imp {
         pub enable_key_log: bool,
     }
 
+    impl Default for RustlsTlsConfig {
+        /// The platform trust store and nothing else.
+        fn default() -> Self {
+            Self::builder().use_system_roots(true).build()
+        }
+    }
+
     impl RustlsTlsConfig {
         /// Create a new builder for `RustlsTlsConfig`.
         pub fn builder() -> RustlsTlsConfigBuilder {
-- 
2.43.0


From fc1ff26c9827f62e7b9b35c7d8f24d01a42bbde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:25 +0000
Subject: [PATCH 88/93] fix: QUIC with insecure_skip_verify still presents the
 client certificate

---
 src/mqtt_client/transport/quic.rs | 55 +++++++++++++++----------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/src/mqtt_client/transport/quic.rs b/src/mqtt_client/transport/quic.rs
index 22a0818..bed1c37 100644
--- a/src/mqtt_client/transport/quic.rs
+++ b/src/mqtt_client/transport/quic.rs
@@ -383,12 +383,11 @@ mod imp {
             // a quinn ClientConfig.
 
             // Build rustls config based on insecure_skip_verify flag
-            let mut rustls_cfg = if cfg.insecure_skip_verify {
+            let rustls_builder = if cfg.insecure_skip_verify {
                 // ⚠️ DANGEROUS: Skip certificate verification entirely
                 RustlsClientConfig::builder()
                     .dangerous()
                     .with_custom_certificate_verifier(Arc::new(InsecureServerCertVerifier))
-                    .with_no_client_auth()
             } else {
                 // Normal certificate verification with root certificates
                 // Prepare root certificates: prefer custom roots if provided, else load platform roots
@@ -410,37 +409,35 @@ mod imp {
                         })?;
                     }
                 }
+                RustlsClientConfig::builder().with_root_certificates(roots)
+            };
 
-                // Build rustls config; configure client auth if client cert/key provided
-                if let (Some(chain), Some(key)) = (
-                    cfg.client_cert_chain.clone(),
-                    cfg.client_private_key.clone(),
-                ) {
-                    let cert_chain_der: Vec<CertificateDer<'static>> =
-                        chain.into_iter().map(CertificateDer::from).collect();
-                    let parsed_key = PrivateKeyDer::try_from(key).map_err(|e| {
+            // Configure client auth if client cert/key provided
+            let mut rustls_cfg = if let (Some(chain), Some(key)) = (
+                cfg.client_cert_chain.clone(),
+                cfg.client_private_key.clone(),
+            ) {
+                let cert_chain_der: Vec<CertificateDer<'static>> =
+                    chain.into_iter().map(CertificateDer::from).collect();
+                let parsed_key = PrivateKeyDer::try_from(key).map_err(|e| {
+                    TransportError::Quic(format!(
+                        "failed to parse client private key DER for mTLS: {:?}",
+                        e
+                    ))
+                })?;
+                let key_der: PrivateKeyDer<'static> = parsed_key.clone_key();
+
+                rustls_builder
+                    .with_client_auth_cert(cert_chain_der, key_der)
+                    .map_err(|e| {
                         TransportError::Quic(format!(
-                            "failed to parse client private key DER for mTLS: {:?}",
+                            "failed to build client TLS config with client cert: {}",
                             e
                         ))
-                    })?;
-                    let key_der: PrivateKeyDer<'static> = parsed_key.clone_key();
-
-                    RustlsClientConfig::builder()
-                        .with_root_certificates(roots)
-                        .with_client_auth_cert(cert_chain_der, key_der)
-                        .map_err(|e| {
-                            TransportError::Quic(format!(
-                                "failed to build client TLS config with client cert: {}",
-                                e
-                            ))
-                        })?
-                } else {
-                    // No client auth
-                    RustlsClientConfig::builder()
-                        .with_root_certificates(roots)
-                        .with_no_client_auth()
-                }
+                    })?
+            } else {
+                // No client auth
+                rustls_builder.with_no_client_auth()
             };
 
             // Apply ALPN protocols if provided
-- 
2.43.0


From 904a06674f4811eccac6586661a98184613f1e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:37 +0000
Subject: [PATCH 89/93] fix: the FFI's TLS and QUIC engines present the client
 certificate with insecure_skip_verify too

---
 flowsdk_ffi/src/engine.rs | 51 +++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index c54e2f5..b59f980 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -452,11 +452,10 @@ fn tls_client_config(tls_opts: MqttTlsOptionsFFI) -> Result<rustls::ClientConfig
     let _ = rustls::crypto::ring::default_provider().install_default();
     let crypto_builder = rustls::ClientConfig::builder();
 
-    let mut config = if tls_opts.insecure_skip_verify {
+    let builder = if tls_opts.insecure_skip_verify {
         crypto_builder
             .dangerous()
             .with_custom_certificate_verifier(Arc::new(InsecureServerCertVerifier))
-            .with_no_client_auth()
     } else {
         let mut root_store = rustls::RootCertStore::empty();
         if let Some(ca_path) = tls_opts.ca_cert_file {
@@ -475,34 +474,34 @@ fn tls_client_config(tls_opts: MqttTlsOptionsFFI) -> Result<rustls::ClientConfig
             }
         }
 
-        let mut client_auth = None;
-        if let (Some(cert_path), Some(key_path)) =
-            (tls_opts.client_cert_file, tls_opts.client_key_file)
-        {
-            if let (Ok(cert_file), Ok(key_file)) = (
-                std::fs::File::open(cert_path),
-                std::fs::File::open(key_path),
-            ) {
-                let mut cert_reader = std::io::BufReader::new(cert_file);
-                let mut key_reader = std::io::BufReader::new(key_file);
-                let certs = rustls_pemfile::certs(&mut cert_reader)
-                    .filter_map(|r| r.ok())
-                    .collect::<Vec<_>>();
-                let key = rustls_pemfile::private_key(&mut key_reader).ok().flatten();
-                if !certs.is_empty() {
-                    if let Some(key) = key {
-                        client_auth = Some((certs, key));
-                    }
+        crypto_builder.with_root_certificates(root_store)
+    };
+
+    let mut client_auth = None;
+    if let (Some(cert_path), Some(key_path)) = (tls_opts.client_cert_file, tls_opts.client_key_file)
+    {
+        if let (Ok(cert_file), Ok(key_file)) = (
+            std::fs::File::open(cert_path),
+            std::fs::File::open(key_path),
+        ) {
+            let mut cert_reader = std::io::BufReader::new(cert_file);
+            let mut key_reader = std::io::BufReader::new(key_file);
+            let certs = rustls_pemfile::certs(&mut cert_reader)
+                .filter_map(|r| r.ok())
+                .collect::<Vec<_>>();
+            let key = rustls_pemfile::private_key(&mut key_reader).ok().flatten();
+            if !certs.is_empty() {
+                if let Some(key) = key {
+                    client_auth = Some((certs, key));
                 }
             }
         }
+    }
 
-        let builder = crypto_builder.with_root_certificates(root_store);
-        if let Some((certs, key)) = client_auth {
-            builder.with_client_auth_cert(certs, key)?
-        } else {
-            builder.with_no_client_auth()
-        }
+    let mut config = if let Some((certs, key)) = client_auth {
+        builder.with_client_auth_cert(certs, key)?
+    } else {
+        builder.with_no_client_auth()
     };
 
     if tls_opts
-- 
2.43.0


From 94fc61a8071a281930a4e2c62a4bf2e781151c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:03 +0000
Subject: [PATCH 90/93] fix: receive_maximum and topic_alias_maximum of the
 async client reach the broker Both settings were ignored. Topic aliases
 announced this way are resolved on the way in.

---
 src/mqtt_client/engine.rs             | 55 ++++++++++++++++++++++++---
 src/mqtt_client/tokio_async_client.rs |  8 +++-
 2 files changed, 57 insertions(+), 6 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 6c343ec..654e08c 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -14,9 +14,7 @@ use rustls::{
     pki_types::ServerName,
     NamedGroup,
 };
-#[cfg(feature = "quic-proto")]
-use std::collections::HashMap;
-use std::collections::{HashSet, VecDeque};
+use std::collections::{HashMap, HashSet, VecDeque};
 use std::time::{Duration, Instant};
 #[cfg(feature = "quic-proto")]
 use std::{
@@ -205,6 +203,11 @@ pub struct MqttEngine {
     unanswered_pings: usize,
     /// Keep-alive the server asked for in CONNACK; it replaces the configured one
     server_keep_alive: Option<u16>,
+    /// Limits on what the server may send, announced in CONNECT (MQTT 5)
+    announced_receive_maximum: Option<u16>,
+    announced_topic_alias_maximum: u16,
+    /// Topics the server has given an alias to on this connection
+    topic_aliases: HashMap<u16, String>,
 
     // Buffers and Parsers
     parser: MqttParser,
@@ -271,6 +274,9 @@ impl MqttEngine {
             ping_sent_at: None,
             unanswered_pings: 0,
             server_keep_alive: None,
+            announced_receive_maximum: None,
+            announced_topic_alias_maximum: 0,
+            topic_aliases: HashMap::new(),
             parser,
             input_paused: false,
             outgoing_buffer: VecDeque::new(),
@@ -334,6 +340,35 @@ impl MqttEngine {
         self.last_packet_received = now;
         self.ping_sent_at = None;
         self.unanswered_pings = 0;
+        self.topic_aliases.clear();
+    }
+
+    /// Limits to announce in CONNECT: how many QoS 1 and 2 publishes the server may
+    /// have in flight, and how many topic aliases it may use (MQTT 5).
+    #[cfg(feature = "async-client")]
+    pub(crate) fn announce_limits(&mut self, receive_maximum: Option<u16>, topic_aliases: u16) {
+        self.announced_receive_maximum = receive_maximum;
+        self.announced_topic_alias_maximum = topic_aliases;
+    }
+
+    /// Put the topic in place of the alias the server used for it.
+    fn resolve_topic_alias(&mut self, publish: &mut MqttPublish) {
+        let alias = publish.properties.iter().find_map(|p| match p {
+            Property::TopicAlias(alias) => Some(*alias),
+            _ => None,
+        });
+        match alias {
+            Some(alias) if (1..=self.announced_topic_alias_maximum).contains(&alias) => {
+                if publish.topic_name.is_empty() {
+                    if let Some(topic) = self.topic_aliases.get(&alias) {
+                        publish.topic_name = topic.clone();
+                    }
+                } else {
+                    self.topic_aliases.insert(alias, publish.topic_name.clone());
+                }
+            }
+            _ => {}
+        }
     }
 
     /// Schedule the next reconnection attempt using exponential backoff.
@@ -627,6 +662,15 @@ impl MqttEngine {
         }
 
         let packet = if self.options.mqtt_version == 5 {
+            let mut properties = self.options.connect_properties();
+            if let Some(max) = self.announced_receive_maximum {
+                properties.push(Property::ReceiveMaximum(max));
+            }
+            if self.announced_topic_alias_maximum > 0 {
+                properties.push(Property::TopicAliasMaximum(
+                    self.announced_topic_alias_maximum,
+                ));
+            }
             let connect = connectv5::MqttConnect::new(
                 self.options.client_id.clone(),
                 self.options.username.clone(),
@@ -634,7 +678,7 @@ impl MqttEngine {
                 self.options.will.clone(),
                 self.options.keep_alive,
                 self.options.clean_start,
-                self.options.connect_properties(),
+                properties,
             );
             MqttPacket::Connect5(connect)
         } else {
@@ -1107,7 +1151,8 @@ impl MqttEngine {
                     }));
                 }
             }
-            MqttPacket::Publish5(p) => {
+            MqttPacket::Publish5(mut p) => {
+                self.resolve_topic_alias(&mut p);
                 let qos = p.qos;
                 let pid = p.packet_id;
                 if !self.is_unreleased_qos2(qos, pid) {
diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index daee88a..a37ae58 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1747,8 +1747,14 @@ impl TokioClientWorker {
             (a, b) => a.min(b),
         };
 
+        let mut engine = MqttEngine::new(options);
+        engine.announce_limits(
+            config.receive_maximum.filter(|max| *max > 0),
+            config.topic_alias_maximum.unwrap_or(0),
+        );
+
         Self {
-            engine: MqttEngine::new(options),
+            engine,
             engine_last_connected: false,
             event_handler,
             command_rx,
-- 
2.43.0


From 84d91039b8136b98df7f27ab1a7e16254117179a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:47 +0000
Subject: [PATCH 91/93] fix: a QUIC data stream reads no further ahead than it
 decodes The parser of a stream whose replies (or events) are taken slowly
 grew by up to a whole receive window per tick, without limit. Undecoded input
 now waits in quinn-proto's receive buffer, where it is flow-controlled.

---
 src/mqtt_client/engine.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 654e08c..a32084a 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -2782,12 +2782,21 @@ impl QuicMqttEngine {
                     continue;
                 }
 
-                let recv_closed = self
+                // Decode what was read before, and read more only when nothing of it is
+                // left: undecoded input waits in quinn-proto's receive buffer, where it
+                // is flow-controlled, and not in the parser.
+                Self::drain_data_stream(
+                    &mut self.data_streams,
+                    &mut self.mqtt_engine,
+                    stream_id,
+                    &mut mqtt_events,
+                );
+                let readable = self
                     .data_streams
                     .get(&stream_id)
-                    .map(|ds| ds.recv_closed)
-                    .unwrap_or(true);
-                if !recv_closed {
+                    .map(|ds| !ds.recv_closed && ds.drained)
+                    .unwrap_or(false);
+                if readable {
                     let mut recv_finished = false;
                     let mut read_reset = None;
                     {
-- 
2.43.0


From 961600e60fbdf4585d2a7b51e7061bc7a27cb77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:57 +0000
Subject: [PATCH 92/93] fix: TLS and QUIC transports take IPv6 addresses

The brackets of an address literal were left in the server name, which no server and no verifier takes (QUIC cut the name at the first colon).
---
 src/mqtt_client/transport/mod.rs  | 13 ++++++++++++-
 src/mqtt_client/transport/quic.rs | 13 +++++--------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/mqtt_client/transport/mod.rs b/src/mqtt_client/transport/mod.rs
index 8b7159c..3cc03cb 100644
--- a/src/mqtt_client/transport/mod.rs
+++ b/src/mqtt_client/transport/mod.rs
@@ -50,13 +50,17 @@ pub enum TransportError {
 /// Supports formats:
 /// - "mqtts://host:port" → ("host", "host:port")
 /// - "host:port" → ("host", "host:port")
+/// - "[::1]:port" → ("::1", "[::1]:port")
 pub fn parse_mqtt_address(addr: &str) -> Result<(String, String), TransportError> {
     // Remove mqtts:// prefix if present
     let addr = addr.trim_start_matches("mqtts://");
 
     // Split host and port
     if let Some((host, port)) = addr.rsplit_once(':') {
-        Ok((host.to_string(), format!("{}:{}", host, port)))
+        Ok((
+            server_name_of(host).to_string(),
+            format!("{}:{}", host, port),
+        ))
     } else {
         Err(TransportError::InvalidAddress(format!(
             "Invalid address format: '{}'. Expected 'host:port' or 'mqtts://host:port'",
@@ -65,6 +69,13 @@ pub fn parse_mqtt_address(addr: &str) -> Result<(String, String), TransportError
     }
 }
 
+/// The name a server is verified by: an IPv6 address goes without its brackets there
+fn server_name_of(host: &str) -> &str {
+    host.strip_prefix('[')
+        .and_then(|h| h.strip_suffix(']'))
+        .unwrap_or(host)
+}
+
 /// Transport trait for different connection types
 ///
 /// This trait provides a unified interface for TCP, TLS, WebSocket, and other
diff --git a/src/mqtt_client/transport/quic.rs b/src/mqtt_client/transport/quic.rs
index bed1c37..204a876 100644
--- a/src/mqtt_client/transport/quic.rs
+++ b/src/mqtt_client/transport/quic.rs
@@ -4,7 +4,7 @@
 
 #[cfg(feature = "quic")]
 mod imp {
-    use super::super::{Transport, TransportError};
+    use super::super::{server_name_of, Transport, TransportError};
     use async_trait::async_trait;
     use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
     use std::pin::Pin;
@@ -361,13 +361,10 @@ mod imp {
             cfg: QuicConfig,
         ) -> Result<Self, TransportError> {
             // Derive server name (SNI) from addr by splitting host:port
-            let server_name = addr
-                .split(':')
-                .next()
-                .ok_or_else(|| {
-                    TransportError::InvalidAddress(format!("Invalid QUIC address: {}", addr))
-                })?
-                .to_string();
+            let (host, _port) = addr.rsplit_once(':').ok_or_else(|| {
+                TransportError::InvalidAddress(format!("Invalid QUIC address: {}", addr))
+            })?;
+            let server_name = server_name_of(host).to_string();
 
             // Resolve address
             let mut addrs = lookup_host(addr).await.map_err(|e| {
-- 
2.43.0


From 359c75507931a21161e4442485ee3d123af51ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:35 +0000
Subject: [PATCH 93/93] fix: shutting down a QUIC transport waits until what
 was written has arrived

Finishing the stream only queues its end, and closing or dropping the connection right after discards whatever is still on its way: a DISCONNECT over QUIC never reached the broker, which then publishes the will.
---
 src/mqtt_client/transport/quic.rs | 45 ++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/mqtt_client/transport/quic.rs b/src/mqtt_client/transport/quic.rs
index 204a876..52df584 100644
--- a/src/mqtt_client/transport/quic.rs
+++ b/src/mqtt_client/transport/quic.rs
@@ -6,9 +6,11 @@
 mod imp {
     use super::super::{server_name_of, Transport, TransportError};
     use async_trait::async_trait;
+    use std::future::Future;
     use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
     use std::pin::Pin;
     use std::task::{Context, Poll};
+    use std::time::Duration;
     use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
     use tokio::net::lookup_host;
 
@@ -344,8 +346,15 @@ mod imp {
         connection: quinn::Connection,
         send: quinn::SendStream,
         recv: quinn::RecvStream,
+        // Set once the send stream is finished: ready when the peer has all of it
+        delivered: Option<Delivered>,
     }
 
+    type Delivered = Pin<Box<dyn Future<Output = Result<(), quinn::StoppedError>> + Send + Sync>>;
+
+    /// How long `close` lets data that is still on its way arrive.
+    const CLOSE_GRACE: Duration = Duration::from_secs(2);
+
     impl QuicTransport {
         /// Connect to the given address (host:port). This is a minimal implementation
         /// that uses default client config and system certificates via rustls-native-certs.
@@ -508,6 +517,7 @@ mod imp {
                 connection,
                 send,
                 recv,
+                delivered: None,
             })
         }
 
@@ -541,6 +551,8 @@ mod imp {
             self.send.finish().map_err(|e| {
                 TransportError::ConnectionFailed(format!("QUIC send finish failed: {}", e))
             })?;
+            // Closing the connection discards whatever the peer does not have yet
+            let _ = tokio::time::timeout(CLOSE_GRACE, self.send.stopped()).await;
             self.connection.close(0u32.into(), b"client close");
             Ok(())
         }
@@ -632,13 +644,34 @@ mod imp {
             mut self: Pin<&mut Self>,
             cx: &mut Context<'_>,
         ) -> Poll<std::io::Result<()>> {
-            match Pin::new(&mut self.send).poll_shutdown(cx) {
+            if self.delivered.is_none() {
+                match Pin::new(&mut self.send).poll_shutdown(cx) {
+                    Poll::Pending => return Poll::Pending,
+                    Poll::Ready(Ok(())) => {}
+                    Poll::Ready(Err(e)) => {
+                        return Poll::Ready(Err(std::io::Error::other(format!(
+                            "QUIC shutdown error: {}",
+                            e
+                        ))))
+                    }
+                }
+            }
+            // Dropping the transport closes the connection, which discards whatever
+            // the peer does not have yet
+            let stopped = self.send.stopped();
+            let delivered = self
+                .delivered
+                .get_or_insert_with(|| Box::pin(async move { stopped.await.map(|_| ()) }));
+            match delivered.as_mut().poll(cx) {
                 Poll::Pending => Poll::Pending,
-                Poll::Ready(Ok(())) => Poll::Ready(Ok(())),
-                Poll::Ready(Err(e)) => Poll::Ready(Err(std::io::Error::other(format!(
-                    "QUIC shutdown error: {}",
-                    e
-                )))),
+                Poll::Ready(result) => {
+                    self.delivered = None;
+                    Poll::Ready(
+                        result.map_err(|e| {
+                            std::io::Error::other(format!("QUIC shutdown error: {}", e))
+                        }),
+                    )
+                }
             }
         }
     }
-- 
2.43.0

