From 350a80da046dd2493b811a59ca670397763db77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:23 +0000
Subject: [PATCH 01/56] fix: decode stream packets one complete frame at a time

A packet could be rejected because its header had only partly arrived, or be
decoded with bytes that belong to the following packet.
---
 src/mqtt_serde/parser/stream.rs | 40 +++++++++++++--------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/src/mqtt_serde/parser/stream.rs b/src/mqtt_serde/parser/stream.rs
index 05a863e..3add8ea 100644
--- a/src/mqtt_serde/parser/stream.rs
+++ b/src/mqtt_serde/parser/stream.rs
@@ -119,16 +119,22 @@ impl MqttParser {
             return Ok(None);
         }
 
-        match MqttPacket::from_bytes_with_version(&self.buffer, self.mqtt_version) {
-            Ok(ParseOk::Packet(packet, consumed)) => {
-                // A full packet was parsed, advance the buffer
-                self.buffer.advance(consumed);
+        // Decode exactly one frame: a packet must neither be judged before all of
+        // its bytes have arrived nor read past its declared length.
+        let total_len = match packet_frame_len(&self.buffer)? {
+            Some(n) => n,
+            None => return Ok(None),
+        };
+
+        match MqttPacket::from_bytes_with_version(&self.buffer[..total_len], self.mqtt_version) {
+            Ok(ParseOk::Packet(packet, _)) => {
+                // A full packet was parsed, advance the buffer past its frame
+                self.buffer.advance(total_len);
                 Ok(Some(packet))
             }
-            Ok(ParseOk::Continue(_, _)) => {
-                // Not enough data in the buffer for a full packet
-                Ok(None)
-            }
+            Ok(ParseOk::Continue(_, _)) => Err(ParseError::ParseError(
+                "Packet content exceeds its remaining length".to_string(),
+            )),
             Err(e) => {
                 // An unrecoverable parsing error occurred
                 Err(e)
@@ -150,23 +156,7 @@ impl MqttParser {
         }
 
         match self.parse_level {
-            ParseLevel::Full => {
-                assert!(
-                    self.mqtt_version != 0,
-                    "MQTT version must be set before parsing packets"
-                );
-                match MqttPacket::from_bytes_with_version(&self.buffer, self.mqtt_version) {
-                    Ok(ParseOk::Packet(packet, consumed)) => {
-                        self.buffer.advance(consumed);
-                        Ok(Some(ParsedPacket::Full(packet)))
-                    }
-                    Ok(ParseOk::Continue(_, _)) => Ok(None),
-                    Err(e) => Err(e),
-                    Ok(ParseOk::TopicName(_, _)) => Err(ParseError::ParseError(
-                        "Unexpected ParseOk variant".to_string(),
-                    )),
-                }
-            }
+            ParseLevel::Full => Ok(self.next_packet()?.map(ParsedPacket::Full)),
             ParseLevel::TypeOnly => match parse_type_only(&self.buffer) {
                 Ok(LeveledParseOk::Packet(pkt, consumed)) => {
                     self.buffer.advance(consumed);
-- 
2.43.0


From 03ddbef9a5f98061ab76209c97510653a4434c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:55 +0000
Subject: [PATCH 02/56] fix: reject a v5 PUBLISH whose header runs past its
 remaining length

Decoding one from a longer buffer overflowed a subtraction (a panic in debug builds).
---
 src/mqtt_serde/mqttv5/publish.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_serde/mqttv5/publish.rs b/src/mqtt_serde/mqttv5/publish.rs
index 467be22..4f00316 100644
--- a/src/mqtt_serde/mqttv5/publish.rs
+++ b/src/mqtt_serde/mqttv5/publish.rs
@@ -201,7 +201,9 @@ impl MqttControlPacket for MqttPublish {
         offset += consumed;
 
         // MQTT 5.0: 3.3.3 PUBLISH Payload
-        let payload_len = packet_size - offset;
+        let payload_len = packet_size
+            .checked_sub(offset)
+            .ok_or(ParseError::InvalidLength)?;
         let payload = buffer
             .get(offset..offset + payload_len)
             .ok_or(ParseError::BufferTooShort)?
-- 
2.43.0


From 4794651ed1d981284e65afdca9605df6bff7cefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:58 +0000
Subject: [PATCH 03/56] fix: refuse to encode v3.1.1 fields longer than their
 16-bit length prefix

The length was truncated, which produced a corrupt packet.
---
 src/mqtt_serde/mqttv3/connect.rs     | 17 ++++++++---------
 src/mqtt_serde/mqttv3/publish.rs     |  5 +++--
 src/mqtt_serde/mqttv3/subscribe.rs   |  5 +++--
 src/mqtt_serde/mqttv3/unsubscribe.rs |  5 +++--
 4 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/mqtt_serde/mqttv3/connect.rs b/src/mqtt_serde/mqttv3/connect.rs
index fabbd3a..fcbb8cb 100644
--- a/src/mqtt_serde/mqttv3/connect.rs
+++ b/src/mqtt_serde/mqttv3/connect.rs
@@ -2,8 +2,9 @@
 
 use serde::{Deserialize, Serialize};
 
-use crate::mqtt_serde::base_data::{TwoByteInteger, Utf8String};
+use crate::mqtt_serde::base_data::TwoByteInteger;
 use crate::mqtt_serde::control_packet::{ControlPacketType, MqttControlPacket, MqttPacket};
+use crate::mqtt_serde::encode_binary_data;
 use crate::mqtt_serde::parser::{
     packet_type, parse_remaining_length, parse_utf8_string, ParseError, ParseOk,
 };
@@ -55,7 +56,7 @@ impl MqttControlPacket for MqttConnect {
     fn variable_header(&self) -> Result<Vec<u8>, ParseError> {
         let mut vh = Vec::new();
         // Protocol Name
-        vh.extend(Utf8String::encode(&self.protocol_name));
+        vh.extend(encode_binary_data(self.protocol_name.as_bytes())?);
         // Protocol Version
         vh.push(self.protocol_version);
 
@@ -86,23 +87,21 @@ impl MqttControlPacket for MqttConnect {
 
     fn payload(&self) -> Result<Vec<u8>, ParseError> {
         let mut payload = Vec::new();
-        payload.extend(Utf8String::encode(&self.client_id));
+        payload.extend(encode_binary_data(self.client_id.as_bytes())?);
 
         if let Some(will) = &self.will {
-            payload.extend(Utf8String::encode(&will.topic));
+            payload.extend(encode_binary_data(will.topic.as_bytes())?);
             // Will message is a byte array, needs length prefix
-            payload.extend_from_slice(&TwoByteInteger::encode(will.message.len() as u16));
-            payload.extend_from_slice(&will.message);
+            payload.extend(encode_binary_data(&will.message)?);
         }
 
         if let Some(username) = &self.username {
-            payload.extend(Utf8String::encode(username));
+            payload.extend(encode_binary_data(username.as_bytes())?);
         }
 
         if let Some(password) = &self.password {
             // Password is a byte array, needs length prefix
-            payload.extend_from_slice(&TwoByteInteger::encode(password.len() as u16));
-            payload.extend_from_slice(password);
+            payload.extend(encode_binary_data(password)?);
         }
 
         Ok(payload)
diff --git a/src/mqtt_serde/mqttv3/publish.rs b/src/mqtt_serde/mqttv3/publish.rs
index b4a7099..6204043 100644
--- a/src/mqtt_serde/mqttv3/publish.rs
+++ b/src/mqtt_serde/mqttv3/publish.rs
@@ -2,8 +2,9 @@
 
 use serde::{Deserialize, Serialize};
 
-use crate::mqtt_serde::base_data::{TwoByteInteger, Utf8String};
+use crate::mqtt_serde::base_data::TwoByteInteger;
 use crate::mqtt_serde::control_packet::{ControlPacketType, MqttControlPacket, MqttPacket};
+use crate::mqtt_serde::encode_binary_data;
 use crate::mqtt_serde::parser::{
     packet_type, parse_remaining_length, parse_utf8_string, ParseError, ParseOk,
 };
@@ -55,7 +56,7 @@ impl MqttControlPacket for MqttPublish {
     }
 
     fn variable_header(&self) -> Result<Vec<u8>, ParseError> {
-        let mut vh = Utf8String::encode(&self.topic_name);
+        let mut vh = encode_binary_data(self.topic_name.as_bytes())?;
         if self.qos > 0 {
             let msg_id = self.message_id.ok_or_else(|| {
                 ParseError::ParseError("Message ID is required for QoS > 0".to_string())
diff --git a/src/mqtt_serde/mqttv3/subscribe.rs b/src/mqtt_serde/mqttv3/subscribe.rs
index 001b4c1..641ab40 100644
--- a/src/mqtt_serde/mqttv3/subscribe.rs
+++ b/src/mqtt_serde/mqttv3/subscribe.rs
@@ -2,8 +2,9 @@
 
 use serde::{Deserialize, Serialize};
 
-use crate::mqtt_serde::base_data::{TwoByteInteger, Utf8String};
+use crate::mqtt_serde::base_data::TwoByteInteger;
 use crate::mqtt_serde::control_packet::{ControlPacketType, MqttControlPacket, MqttPacket};
+use crate::mqtt_serde::encode_binary_data;
 use crate::mqtt_serde::parser::{
     packet_type, parse_remaining_length, parse_utf8_string, ParseError, ParseOk,
 };
@@ -55,7 +56,7 @@ impl MqttControlPacket for MqttSubscribe {
     fn payload(&self) -> Result<Vec<u8>, ParseError> {
         let mut payload = Vec::new();
         for sub in &self.subscriptions {
-            payload.extend(Utf8String::encode(&sub.topic_filter));
+            payload.extend(encode_binary_data(sub.topic_filter.as_bytes())?);
             // QoS must be 0, 1, or 2.
             if sub.qos > 2 {
                 return Err(ParseError::ParseError("Invalid QoS level".to_string()));
diff --git a/src/mqtt_serde/mqttv3/unsubscribe.rs b/src/mqtt_serde/mqttv3/unsubscribe.rs
index 3a422d4..3303553 100644
--- a/src/mqtt_serde/mqttv3/unsubscribe.rs
+++ b/src/mqtt_serde/mqttv3/unsubscribe.rs
@@ -2,8 +2,9 @@
 
 use serde::{Deserialize, Serialize};
 
-use crate::mqtt_serde::base_data::{TwoByteInteger, Utf8String};
+use crate::mqtt_serde::base_data::TwoByteInteger;
 use crate::mqtt_serde::control_packet::{ControlPacketType, MqttControlPacket, MqttPacket};
+use crate::mqtt_serde::encode_binary_data;
 use crate::mqtt_serde::parser::{
     packet_type, parse_remaining_length, parse_utf8_string, ParseError, ParseOk,
 };
@@ -47,7 +48,7 @@ impl MqttControlPacket for MqttUnsubscribe {
     fn payload(&self) -> Result<Vec<u8>, ParseError> {
         let mut payload = Vec::new();
         for topic in &self.topic_filters {
-            payload.extend(Utf8String::encode(topic));
+            payload.extend(encode_binary_data(topic.as_bytes())?);
         }
         Ok(payload)
     }
-- 
2.43.0


From dfd0bf852b2da18b440fcf34ab07f2699893ac47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:58 +0000
Subject: [PATCH 04/56] fix: retransmit each inflight packet at most once per
 tick

A zero retransmission timeout made handle_tick loop forever.
---
 src/mqtt_client/inflight.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index c708c45..b1ed937 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -165,7 +165,11 @@ impl InflightQueue {
             return expired;
         }
 
-        while let Some(&(pid, sent_at)) = self.deadline_queue.front() {
+        // Look at each queued deadline once: entries re-queued below wait for a later call.
+        for _ in 0..self.deadline_queue.len() {
+            let Some(&(pid, sent_at)) = self.deadline_queue.front() else {
+                break;
+            };
             if now.duration_since(sent_at) < self.retransmission_timeout {
                 break;
             }
-- 
2.43.0


From a8fc0e064f6ee22f043ba8620213807ea60524f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:58 +0000
Subject: [PATCH 05/56] fix: hold a receive-maximum slot until a QoS 2 publish
 completes

The slot was given back at PUBREC, so more QoS 2 publishes could be
unfinished than the server allowed.
---
 src/mqtt_client/inflight.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index b1ed937..7498d60 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -44,7 +44,8 @@ pub struct InflightQueue {
     mqtt_version: u8,
     /// Default retransmission timeout
     retransmission_timeout: Duration,
-    /// Current number of PUBLISH packets in the queue (for flow control)
+    /// Current number of unfinished QoS 1/2 publishes in the queue (for flow control).
+    /// A QoS 2 publish occupies its slot until PUBCOMP, so its PUBREL counts too.
     publish_count: usize,
 }
 
@@ -108,7 +109,7 @@ impl InflightQueue {
         }
 
         let now = Instant::now();
-        if matches!(packet, MqttPacket::Publish5(_) | MqttPacket::Publish3(_)) {
+        if Self::occupies_slot(&packet) {
             self.publish_count += 1;
         }
 
@@ -130,13 +131,20 @@ impl InflightQueue {
         Ok(())
     }
 
+    fn occupies_slot(packet: &MqttPacket) -> bool {
+        matches!(
+            packet,
+            MqttPacket::Publish5(_)
+                | MqttPacket::Publish3(_)
+                | MqttPacket::PubRel5(_)
+                | MqttPacket::PubRel3(_)
+        )
+    }
+
     /// Acknowledge a message (PUBACK, PUBREL, etc.)
     pub fn acknowledge(&mut self, packet_id: u16) -> Option<InflightEntry> {
         if let Some(entry) = self.entries.remove(&packet_id) {
-            if matches!(
-                entry.packet,
-                MqttPacket::Publish5(_) | MqttPacket::Publish3(_)
-            ) {
+            if Self::occupies_slot(&entry.packet) {
                 self.publish_count -= 1;
             }
             Some(entry)
-- 
2.43.0


From dc6c490acc814a1a8e4e29344d9921c5578717ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:13 +0000
Subject: [PATCH 06/56] fix: resend unacknowledged packets in their original
 order

Sorting by last transmission time let a retransmitted PUBLISH fall behind
later ones, and left the order of packets retransmitted in one tick to chance.
---
 src/mqtt_client/inflight.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index 7498d60..531c5e8 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -24,6 +24,8 @@ pub struct InflightEntry {
     /// stream). Retransmissions are routed back onto this same channel so the QoS
     /// 1/2 handshake never crosses streams.
     pub stream: Option<u64>,
+    /// Position in the order packets entered the queue; kept across retransmissions.
+    seq: u64,
 }
 
 /// A queue for managing inflight QoS 1 and QoS 2 messages.
@@ -47,6 +49,8 @@ pub struct InflightQueue {
     /// Current number of unfinished QoS 1/2 publishes in the queue (for flow control).
     /// A QoS 2 publish occupies its slot until PUBCOMP, so its PUBREL counts too.
     publish_count: usize,
+    /// Sequence number for the next entry
+    next_seq: u64,
 }
 
 impl InflightQueue {
@@ -62,6 +66,7 @@ impl InflightQueue {
             mqtt_version,
             retransmission_timeout,
             publish_count: 0,
+            next_seq: 0,
         }
     }
 
@@ -120,7 +125,9 @@ impl InflightQueue {
             retry_count: 0,
             qos,
             stream,
+            seq: self.next_seq,
         };
+        self.next_seq += 1;
 
         self.entries.insert(packet_id, entry);
         // Only track deadlines for MQTT v3 which needs timeout-based retransmission
@@ -202,8 +209,8 @@ impl InflightQueue {
     /// Get all messages to be re-sent upon reconnection (MQTT 3.1.1 and 5.0 with CleanStart=0)
     pub fn get_all_for_reconnect(&self) -> Vec<MqttPacket> {
         let mut all = self.entries.values().collect::<Vec<_>>();
-        // Sort by retry_count or original sent time if needed, but here we just send
-        all.sort_by_key(|e| e.sent_at);
+        // Resend in the original order; `sent_at` moves whenever a packet is retransmitted
+        all.sort_by_key(|e| e.seq);
         all.into_iter().map(|e| e.packet.clone()).collect()
     }
 
-- 
2.43.0


From 7e170d2ed4285ef0a9b43428169b7429d0cd4d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:13 +0000
Subject: [PATCH 07/56] fix: end a QoS 2 publish when PUBREC carries an error
 reason

A PUBREL was sent for the refused message, and its failure was never reported.
---
 src/mqtt_client/engine.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index ba2b7d6..ea8e24a 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1087,6 +1087,16 @@ impl MqttEngine {
             }
             MqttPacket::PubRec5(rec) => {
                 if let Some(mut entry) = self.inflight_queue.acknowledge(rec.packet_id) {
+                    if rec.reason_code >= 0x80 {
+                        // The server refused the message: the exchange ends here
+                        events.push(MqttEvent::Published(PublishResult {
+                            packet_id: Some(rec.packet_id),
+                            reason_code: Some(rec.reason_code),
+                            properties: Some(rec.properties),
+                            qos: entry.qos,
+                        }));
+                        return (events, responses);
+                    }
                     let rel = MqttPacket::PubRel5(MqttPubRel::new(rec.packet_id, 0, Vec::new()));
                     // Update entry to store PUBREL for retransmission
                     entry.packet = rel.clone();
-- 
2.43.0


From 40874d6730aff85f6af417c7960d889b25630692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:13 +0000
Subject: [PATCH 08/56] fix: forget a SUBSCRIBE or UNSUBSCRIBE that could not
 be queued

A call that returned an error left its packet in the inflight queue, to be
retransmitted or resent on session resumption.
---
 src/mqtt_client/engine.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index ea8e24a..2dde103 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -748,8 +748,8 @@ impl MqttEngine {
             MqttPacket::Subscribe3(subscribev3::MqttSubscribe::new(pid, v3_subs))
         };
 
-        self.inflight_queue.push(pid, packet.clone(), 1)?;
-        self.enqueue_packet(packet)?;
+        self.enqueue_packet(packet.clone())?;
+        self.inflight_queue.push(pid, packet, 1)?;
         Ok(pid)
     }
 
@@ -772,8 +772,8 @@ impl MqttEngine {
             MqttPacket::Unsubscribe3(unsubscribev3::MqttUnsubscribe::new(pid, command.topics))
         };
 
-        self.inflight_queue.push(pid, packet.clone(), 1)?;
-        self.enqueue_packet(packet)?;
+        self.enqueue_packet(packet.clone())?;
+        self.inflight_queue.push(pid, packet, 1)?;
         Ok(pid)
     }
 
-- 
2.43.0


From cbffb34f9031d64bb4ef04fade7aee8ce67dd0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:13 +0000
Subject: [PATCH 09/56] fix: do not drop acknowledgements when the outgoing
 buffer is full

The peer's PUBLISH, PUBREC or PUBREL stayed unanswered for the rest of the
connection.
---
 src/mqtt_client/engine.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 2dde103..382e7cf 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -383,9 +383,16 @@ impl MqttEngine {
                     let (packet_events, responses) = self.handle_packet(packet, None);
                     self.events.extend(packet_events);
                     // Single-stream transports (TCP/TLS, QUIC control stream) send
-                    // responses back over the same shared outgoing buffer.
+                    // responses back over the same shared outgoing buffer. The peer
+                    // waits for them, so a full buffer must not drop them.
                     for response in responses {
-                        let _ = self.enqueue_packet(response);
+                        match response.to_bytes() {
+                            Ok(bytes) => {
+                                self.outgoing_buffer.push_back(bytes);
+                                self.last_packet_sent = Instant::now();
+                            }
+                            Err(e) => self.events.push(MqttEvent::Error(MqttClientError::from(e))),
+                        }
                     }
                 }
                 Ok(None) => break,
-- 
2.43.0


From e93be33b399bc3670438b55ad6f0a9687f66b86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:13 +0000
Subject: [PATCH 10/56] fix: drop the lost transport's buffered bytes when the
 connection is lost

Unsent packets were written ahead of the next CONNECT, and a partly received
packet was prepended to the next connection's bytes.
---
 src/mqtt_client/engine.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 382e7cf..3cc83cc 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -284,6 +284,10 @@ impl MqttEngine {
     pub fn handle_connection_lost(&mut self) {
         self.is_connected = false;
         self.ping_sent_at = None;
+        // Bytes from or for the lost transport mean nothing on the next one
+        self.outgoing_buffer.clear();
+        self.stream_retransmissions.clear();
+        self.parser = MqttParser::new(self.options.parser_buffer_size, self.options.mqtt_version);
     }
 
     /// Reset all transport-tied state for a fresh underlying transport (e.g. a
-- 
2.43.0


From 32d4ea0b1346f5aed913659e195f3226da13ea00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:13 +0000
Subject: [PATCH 11/56] fix: send CONNECT before anything queued while
 disconnected

A SUBSCRIBE made between two connections was written ahead of CONNECT, and a
full buffer dropped the CONNECT.
---
 src/mqtt_client/engine.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 3cc83cc..9738129 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -588,7 +588,15 @@ impl MqttEngine {
             MqttPacket::Connect3(connect)
         };
 
-        let _ = self.enqueue_packet(packet);
+        // CONNECT must be the first packet on the transport, whatever was queued
+        // while disconnected.
+        match packet.to_bytes() {
+            Ok(bytes) => {
+                self.outgoing_buffer.push_front(bytes);
+                self.last_packet_sent = Instant::now();
+            }
+            Err(e) => self.events.push(MqttEvent::Error(MqttClientError::from(e))),
+        }
     }
 
     /// Queue a PUBLISH packet.
-- 
2.43.0


From 90d0842072efaa896f28e1dc66d11791fd390c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:13 +0000
Subject: [PATCH 12/56] fix: send the configured will, credentials and session
 options in CONNECT

The engine left out the will, the v3.1.1 username and password, and every
v5 CONNECT property the options can set.
---
 src/mqtt_client/engine.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 9738129..eef5a61 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -573,18 +573,26 @@ impl MqttEngine {
                 self.options.client_id.clone(),
                 self.options.username.clone(),
                 self.options.password.clone(),
-                None, // Will
+                self.options.will.clone(),
                 self.options.keep_alive,
                 self.options.clean_start,
-                Vec::new(), // Properties
+                self.connect_properties(),
             );
             MqttPacket::Connect5(connect)
         } else {
-            let connect = connectv3::MqttConnect::new(
+            let mut connect = connectv3::MqttConnect::new(
                 self.options.client_id.clone(),
                 self.options.keep_alive,
                 self.options.clean_start,
             );
+            connect.username = self.options.username.clone();
+            connect.password = self.options.password.clone();
+            connect.will = self.options.will.as_ref().map(|will| connectv3::Will {
+                retain: will.will_retain,
+                qos: will.will_qos,
+                topic: will.will_topic.clone(),
+                message: will.will_message.clone(),
+            });
             MqttPacket::Connect3(connect)
         };
 
@@ -599,6 +607,25 @@ impl MqttEngine {
         }
     }
 
+    /// CONNECT properties configured in the options.
+    fn connect_properties(&self) -> Vec<Property> {
+        let options = &self.options;
+        let mut properties = Vec::new();
+        if let Some(interval) = options.session_expiry_interval {
+            properties.push(Property::SessionExpiryInterval(interval));
+        }
+        if let Some(size) = options.maximum_packet_size.filter(|size| *size > 0) {
+            properties.push(Property::MaximumPacketSize(size));
+        }
+        if let Some(request) = options.request_response_information {
+            properties.push(Property::RequestResponseInformation(request as u8));
+        }
+        if let Some(request) = options.request_problem_information {
+            properties.push(Property::RequestProblemInformation(request as u8));
+        }
+        properties
+    }
+
     /// Queue a PUBLISH packet.
     ///
     /// - **QoS 0**: ID is usually None (unless needed for tracing).
-- 
2.43.0


From 36407db8cc70080fab3a7e4bff86ee3d1dad02f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:14 +0000
Subject: [PATCH 13/56] fix: deliver an incoming QoS 2 message once when its
 PUBLISH is repeated

With automatic acknowledgement a PUBLISH resent before PUBREL was delivered
to the application again.
---
 src/mqtt_client/engine.rs | 49 ++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index eef5a61..50280d1 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -16,7 +16,7 @@ use rustls::{
 };
 #[cfg(feature = "quic-proto")]
 use std::collections::HashMap;
-use std::collections::VecDeque;
+use std::collections::{HashSet, VecDeque};
 use std::time::{Duration, Instant};
 #[cfg(feature = "quic-proto")]
 use std::{
@@ -212,6 +212,10 @@ pub struct MqttEngine {
     // Pending operations tracking (state only)
     inflight_queue: InflightQueue,
 
+    /// Packet ids of automatically acknowledged incoming QoS 2 messages whose
+    /// PUBREL has not arrived; a repeated PUBLISH with such an id is a duplicate.
+    qos2_received: HashSet<u16>,
+
     events: Vec<MqttEvent>,
 
     // Reconnection state
@@ -255,6 +259,7 @@ impl MqttEngine {
             parser,
             outgoing_buffer: VecDeque::new(),
             stream_retransmissions: VecDeque::new(),
+            qos2_received: HashSet::new(),
             events: Vec::new(),
             reconnect_attempts: 0,
             next_reconnect_at: None,
@@ -971,6 +976,9 @@ impl MqttEngine {
                 self.is_connected = ack.reason_code == 0;
                 if self.is_connected {
                     self.reset_reconnect_state();
+                    if !ack.session_present {
+                        self.qos2_received.clear();
+                    }
                 }
                 events.push(MqttEvent::Connected(ConnectionResult {
                     reason_code: ack.reason_code,
@@ -1004,6 +1012,9 @@ impl MqttEngine {
                 self.is_connected = ack.return_code == 0;
                 if self.is_connected {
                     self.reset_reconnect_state();
+                    if !ack.session_present {
+                        self.qos2_received.clear();
+                    }
                 }
                 events.push(MqttEvent::Connected(ConnectionResult {
                     reason_code: ack.return_code,
@@ -1046,11 +1057,13 @@ impl MqttEngine {
             MqttPacket::Publish5(p) => {
                 let qos = p.qos;
                 let pid = p.packet_id;
-                events.push(MqttEvent::PublishReceived {
-                    packet_id: pid,
-                    stream,
-                });
-                events.push(MqttEvent::MessageReceived(p));
+                if self.is_new_publish(qos, pid) {
+                    events.push(MqttEvent::PublishReceived {
+                        packet_id: pid,
+                        stream,
+                    });
+                    events.push(MqttEvent::MessageReceived(p));
+                }
 
                 if self.options.auto_ack && qos == 1 {
                     if let Some(pid) = pid {
@@ -1075,11 +1088,13 @@ impl MqttEngine {
                     p.dup,
                     Vec::new(),
                 );
-                events.push(MqttEvent::PublishReceived {
-                    packet_id: pid,
-                    stream,
-                });
-                events.push(MqttEvent::MessageReceived(p5));
+                if self.is_new_publish(qos, pid) {
+                    events.push(MqttEvent::PublishReceived {
+                        packet_id: pid,
+                        stream,
+                    });
+                    events.push(MqttEvent::MessageReceived(p5));
+                }
 
                 if self.options.auto_ack && qos == 1 {
                     if let Some(pid) = pid {
@@ -1172,6 +1187,7 @@ impl MqttEngine {
                 }
             }
             MqttPacket::PubRel5(rel) => {
+                self.qos2_received.remove(&rel.packet_id);
                 events.push(MqttEvent::PubRelReceived {
                     packet_id: rel.packet_id,
                     stream,
@@ -1185,6 +1201,7 @@ impl MqttEngine {
                 }
             }
             MqttPacket::PubRel3(rel) => {
+                self.qos2_received.remove(&rel.message_id);
                 events.push(MqttEvent::PubRelReceived {
                     packet_id: rel.message_id,
                     stream,
@@ -1224,6 +1241,16 @@ impl MqttEngine {
         (events, responses)
     }
 
+    /// Whether an incoming PUBLISH is to be delivered, i.e. is not a repetition of
+    /// a QoS 2 message that was delivered and whose exchange is still open.
+    /// Clients that acknowledge themselves also detect duplicates themselves.
+    fn is_new_publish(&mut self, qos: u8, packet_id: Option<u16>) -> bool {
+        match packet_id {
+            Some(pid) if qos == 2 && self.options.auto_ack => self.qos2_received.insert(pid),
+            _ => true,
+        }
+    }
+
     fn pingreq_packet(&self) -> MqttPacket {
         if self.options.mqtt_version == 5 {
             MqttPacket::PingReq5(pingreqv5::MqttPingReq::new())
-- 
2.43.0


From ddc1c79c7233f9ba0ac5229289209547dae2bfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:14 +0000
Subject: [PATCH 14/56] fix: do not assign a packet id that is still in use

After the counter wrapped, a new packet could take the id of a queued or
unacknowledged one.
---
 src/mqtt_client/engine.rs   | 20 +++++++++++++++++++-
 src/mqtt_client/inflight.rs |  5 +++++
 src/priority_queue.rs       |  7 +++++++
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 50280d1..140e481 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1350,7 +1350,25 @@ impl MqttEngine {
             .ok_or(MqttClientError::ProtocolViolation {
                 message: "No session available for packet ID allocation".into(),
             })?;
-        Ok(session.next_packet_id())
+        // Skip identifiers still used by an unacknowledged or a queued packet
+        let queued: HashSet<u16> = self
+            .priority_queue
+            .iter()
+            .filter_map(|(_, packet)| match packet {
+                MqttPacket::Publish5(p) => p.packet_id,
+                MqttPacket::Publish3(p) => p.message_id,
+                _ => None,
+            })
+            .collect();
+        for _ in 0..u16::MAX {
+            let pid = session.next_packet_id();
+            if !self.inflight_queue.contains(pid) && !queued.contains(&pid) {
+                return Ok(pid);
+            }
+        }
+        Err(MqttClientError::ProtocolViolation {
+            message: "All packet IDs are in use".into(),
+        })
     }
 }
 
diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index 531c5e8..8b656d1 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -148,6 +148,11 @@ impl InflightQueue {
         )
     }
 
+    /// Whether a packet identifier belongs to an unacknowledged packet
+    pub fn contains(&self, packet_id: u16) -> bool {
+        self.entries.contains_key(&packet_id)
+    }
+
     /// Acknowledge a message (PUBACK, PUBREL, etc.)
     pub fn acknowledge(&mut self, packet_id: u16) -> Option<InflightEntry> {
         if let Some(entry) = self.entries.remove(&packet_id) {
diff --git a/src/priority_queue.rs b/src/priority_queue.rs
index 7698d23..eb79ee4 100644
--- a/src/priority_queue.rs
+++ b/src/priority_queue.rs
@@ -80,6 +80,13 @@ where
         Some((prio, item))
     }
 
+    /// Iterates over the queued elements, lowest priority first.
+    pub fn iter(&self) -> impl Iterator<Item = (&P, &T)> {
+        self.map
+            .iter()
+            .flat_map(|(prio, deque)| deque.iter().map(move |item| (prio, item)))
+    }
+
     /// Current number of elements in the queue.
     pub fn len(&self) -> usize {
         self.size
-- 
2.43.0


From 099e34e42011051866f53f10b04d26cdb3e70763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 15/56] fix: schedule one reconnect attempt per lost connection

After a ping timeout the engine had already scheduled one: the second call
doubled the backoff, gave up early under max_reconnect_attempts, and an
attempt was made even with auto_reconnect off.
---
 src/mqtt_client/tokio_async_client.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 1f3ed54..355a4f9 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -2406,8 +2406,12 @@ impl TokioClientWorker {
 
         self.event_handler.on_connection_lost().await;
 
-        if self.config.auto_reconnect {
-            // Non-blocking: Simply schedule the next attempt in the engine.
+        if !self.config.auto_reconnect {
+            // The engine schedules an attempt itself after a ping timeout
+            self.engine.reset_reconnect_state();
+        } else if self.engine.next_tick_at().is_none() {
+            // Non-blocking: Simply schedule the next attempt in the engine, unless one
+            // is scheduled already.
             // The tick timer (update_tick_timer) will wake us up when it's time.
             self.engine.schedule_reconnect(Instant::now());
         }
-- 
2.43.0


From 568af558e92d0f888acce1404ba77cab3da4ec87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 16/56] fix: do not reconnect automatically after the
 application disconnects

The broker closes the connection on DISCONNECT, which counted as a lost
connection.
---
 src/mqtt_client/tokio_async_client.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 355a4f9..3fde249 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1701,6 +1701,8 @@ struct TokioClientWorker {
     /// Record whether the engine's is_connected was true in the last loop iteration
     /// for detecting connection state changes and triggering callbacks.
     engine_last_connected: bool,
+    /// The application disconnected: do not reconnect until it connects again
+    user_disconnected: bool,
     /// Event handler for callbacks
     event_handler: Box<dyn TokioMqttEventHandler>,
     /// Command receiver from main client
@@ -1735,6 +1737,7 @@ impl TokioClientWorker {
         Self {
             engine: MqttEngine::new(options),
             engine_last_connected: false,
+            user_disconnected: false,
             event_handler,
             command_rx,
             config,
@@ -2208,6 +2211,7 @@ impl TokioClientWorker {
         if self.stream.is_some() {
             return;
         }
+        self.user_disconnected = false;
 
         let peer = self.engine.options().peer.clone();
 
@@ -2383,6 +2387,8 @@ impl TokioClientWorker {
     /// Handle disconnect command
     async fn handle_disconnect(&mut self) {
         self.engine.disconnect();
+        self.user_disconnected = true;
+        self.engine.reset_reconnect_state();
     }
 
     /// Handle connection lost
@@ -2406,7 +2412,7 @@ impl TokioClientWorker {
 
         self.event_handler.on_connection_lost().await;
 
-        if !self.config.auto_reconnect {
+        if !self.config.auto_reconnect || self.user_disconnected {
             // The engine schedules an attempt itself after a ping timeout
             self.engine.reset_reconnect_state();
         } else if self.engine.next_tick_at().is_none() {
-- 
2.43.0


From e14024a52eace071b96283830454e2a446b5c87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 17/56] fix: connect_sync waits for CONNACK when a connect is
 already under way

It reported success although the broker had not answered yet.
---
 src/mqtt_client/tokio_async_client.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 3fde249..09f5e0e 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1714,9 +1714,8 @@ struct TokioClientWorker {
 
     /// Pending synchronous publish operations keyed by packet identifier
     pending_publishes: HashMap<u16, tokio::sync::oneshot::Sender<PublishResult>>,
-    /// Pending synchronous connect operations (only one at a time)
-    pending_connect:
-        Option<tokio::sync::oneshot::Sender<Result<ConnectionResult, MqttClientError>>>,
+    /// Synchronous connect operations waiting for the outcome of the current attempt
+    pending_connect: Vec<tokio::sync::oneshot::Sender<Result<ConnectionResult, MqttClientError>>>,
     /// Pending synchronous subscribe operations keyed by packet identifier
     pending_subscribes_sync: HashMap<u16, tokio::sync::oneshot::Sender<SubscribeResult>>,
     /// Pending synchronous unsubscribe operations keyed by packet identifier
@@ -1743,7 +1742,7 @@ impl TokioClientWorker {
             config,
             stream: None,
             pending_publishes: HashMap::new(),
-            pending_connect: None,
+            pending_connect: Vec::new(),
             pending_subscribes_sync: HashMap::new(),
             pending_unsubscribes_sync: HashMap::new(),
             pending_ping: None,
@@ -1756,7 +1755,7 @@ impl TokioClientWorker {
         for event in events {
             match event {
                 MqttEvent::Connected(res) => {
-                    if let Some(tx) = self.pending_connect.take() {
+                    for tx in self.pending_connect.drain(..) {
                         let _ = tx.send(Ok(res.clone()));
                     }
                     self.event_handler.on_connected(&res).await;
@@ -2237,7 +2236,7 @@ impl TokioClientWorker {
                 self.event_handler.on_error(&e).await;
 
                 // If this was a sync connect attempt, notify the waiting caller
-                if let Some(tx) = self.pending_connect.take() {
+                for tx in self.pending_connect.drain(..) {
                     let _ = tx.send(Err(e.clone()));
                 }
 
@@ -2318,8 +2317,8 @@ impl TokioClientWorker {
         &mut self,
         response_tx: tokio::sync::oneshot::Sender<Result<ConnectionResult, MqttClientError>>,
     ) {
-        // Check if already connected or connecting
-        if self.stream.is_some() {
+        // Check if already connected
+        if self.stream.is_some() && self.engine.is_connected() {
             let result = ConnectionResult {
                 reason_code: 0,
                 session_present: false,
@@ -2330,7 +2329,7 @@ impl TokioClientWorker {
         }
 
         // Store the response channel for when CONNACK arrives
-        self.pending_connect = Some(response_tx);
+        self.pending_connect.push(response_tx);
 
         // Initiate connection
         self.handle_connect().await;
@@ -2399,7 +2398,7 @@ impl TokioClientWorker {
 
         // Clean up any pending synchronous operations that cannot be retried automatically
         // Connect always fails on connection loss if not already established
-        if let Some(tx) = self.pending_connect.take() {
+        for tx in self.pending_connect.drain(..) {
             let _ = tx.send(Err(MqttClientError::ConnectionLost {
                 reason: "Connection lost before CONNACK received".to_string(),
             }));
-- 
2.43.0


From 302787b7c28f2694d4ce5765a13d5f280a49ec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:17 +0000
Subject: [PATCH 18/56] fix: send a server session's pending publishes in order

Every second one was skipped, and sent after its successors.
---
 src/mqtt_session/server_session.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mqtt_session/server_session.rs b/src/mqtt_session/server_session.rs
index e81d827..9d82222 100644
--- a/src/mqtt_session/server_session.rs
+++ b/src/mqtt_session/server_session.rs
@@ -158,12 +158,10 @@ impl ServerSession {
         }
 
         // Send pending publishes
-        let mut i = 0;
-        while i < self.pending_publishes.len() && available_slots > 0 {
-            let publish = self.pending_publishes.remove(i);
+        while !self.pending_publishes.is_empty() && available_slots > 0 {
+            let publish = self.pending_publishes.remove(0);
             packets_to_resend.push(MqttPacket::Publish5(publish));
             available_slots -= 1;
-            i += 1;
         }
 
         self.inflight_messages = self.receive_maximum - available_slots;
-- 
2.43.0


From 2123a2c64077c674da54691c3fef35bafffe0195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:17 +0000
Subject: [PATCH 19/56] fix: free a server session's receive-maximum slot on a
 PUBREC error

No PUBCOMP follows, so the slot was lost for good.
---
 src/mqtt_session/server_session.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqtt_session/server_session.rs b/src/mqtt_session/server_session.rs
index 9d82222..90751d5 100644
--- a/src/mqtt_session/server_session.rs
+++ b/src/mqtt_session/server_session.rs
@@ -113,6 +113,8 @@ impl ServerSession {
             self.unacknowledged_publishes.remove(&pubrec.packet_id);
             Some(pubrel)
         } else {
+            // The exchange ends here, which gives its slot back
+            self.inflight_messages = self.inflight_messages.saturating_sub(1);
             self.unacknowledged_publishes.remove(&pubrec.packet_id);
             None
         }
-- 
2.43.0


From 8d2620a3ecfc8f807c45833d2081b96325ffa929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:08 +0000
Subject: [PATCH 20/56] fix: reject U+0000 in decoded strings under strict
 checking

---
 src/mqtt_serde/base_data.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mqtt_serde/base_data.rs b/src/mqtt_serde/base_data.rs
index ee0b8ef..4763d7f 100644
--- a/src/mqtt_serde/base_data.rs
+++ b/src/mqtt_serde/base_data.rs
@@ -142,6 +142,13 @@ impl Utf8String {
     pub fn decode(bytes: &[u8]) -> Result<(String, usize), ParseError> {
         let (data, len) = BinaryData::decode(bytes)?;
         let s = String::from_utf8(data).map_err(|e| ParseError::Utf8Error(e.utf8_error()))?;
+        // MQTT 5.0 Protocol Compliance: a string must not include U+0000
+        #[cfg(feature = "strict-protocol-compliance")]
+        if s.contains('\0') {
+            return Err(ParseError::ParseError(
+                "UTF-8 string contains null character (U+0000)".to_string(),
+            ));
+        }
         Ok((s, len))
     }
 }
-- 
2.43.0


From cf6ca292297e993d4e5d36cd8619bcece9df894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:28 +0000
Subject: [PATCH 21/56] fix: reject packets with a zero packet identifier

---
 src/mqtt_serde/mqttv3/packet_id_ack.rs | 5 +++++
 src/mqtt_serde/mqttv3/publish.rs       | 5 +++++
 src/mqtt_serde/mqttv3/suback.rs        | 5 +++++
 src/mqtt_serde/mqttv3/subscribe.rs     | 5 +++++
 src/mqtt_serde/mqttv3/unsubscribe.rs   | 5 +++++
 src/mqtt_serde/mqttv5/packet_id_ack.rs | 7 +++++++
 src/mqtt_serde/mqttv5/publish.rs       | 8 ++++++++
 7 files changed, 40 insertions(+)

diff --git a/src/mqtt_serde/mqttv3/packet_id_ack.rs b/src/mqtt_serde/mqttv3/packet_id_ack.rs
index 90e6e04..29f23a8 100644
--- a/src/mqtt_serde/mqttv3/packet_id_ack.rs
+++ b/src/mqtt_serde/mqttv3/packet_id_ack.rs
@@ -85,6 +85,11 @@ macro_rules! v3_packet_id_ack {
                 }
 
                 let message_id = u16::from_be_bytes([buffer[1 + vbi_len], buffer[1 + vbi_len + 1]]);
+                if message_id == 0 {
+                    return Err($crate::mqtt_serde::parser::ParseError::ParseError(
+                        concat!($packet_name, " message identifier must be > 0").to_string(),
+                    ));
+                }
 
                 Ok($crate::mqtt_serde::parser::ParseOk::Packet(
                     $crate::mqtt_serde::control_packet::MqttPacket::$packet_variant(
diff --git a/src/mqtt_serde/mqttv3/publish.rs b/src/mqtt_serde/mqttv3/publish.rs
index 6204043..74644d1 100644
--- a/src/mqtt_serde/mqttv3/publish.rs
+++ b/src/mqtt_serde/mqttv3/publish.rs
@@ -105,6 +105,11 @@ impl MqttControlPacket for MqttPublish {
             }
             let id = u16::from_be_bytes([buffer[offset], buffer[offset + 1]]);
             offset += 2;
+            if id == 0 {
+                return Err(ParseError::ParseError(
+                    "PUBLISH message identifier must be > 0".to_string(),
+                ));
+            }
             Some(id)
         } else {
             None
diff --git a/src/mqtt_serde/mqttv3/suback.rs b/src/mqtt_serde/mqttv3/suback.rs
index 3d8e6b3..ea336fa 100644
--- a/src/mqtt_serde/mqttv3/suback.rs
+++ b/src/mqtt_serde/mqttv3/suback.rs
@@ -79,6 +79,11 @@ impl MqttControlPacket for MqttSubAck {
         }
         let message_id = u16::from_be_bytes([buffer[offset], buffer[offset + 1]]);
         offset += 2;
+        if message_id == 0 {
+            return Err(ParseError::ParseError(
+                "SUBACK message identifier must be > 0".to_string(),
+            ));
+        }
 
         // Payload: Return Codes
         let return_codes = buffer[offset..total_len].to_vec();
diff --git a/src/mqtt_serde/mqttv3/subscribe.rs b/src/mqtt_serde/mqttv3/subscribe.rs
index 641ab40..473a85d 100644
--- a/src/mqtt_serde/mqttv3/subscribe.rs
+++ b/src/mqtt_serde/mqttv3/subscribe.rs
@@ -96,6 +96,11 @@ impl MqttControlPacket for MqttSubscribe {
         }
         let message_id = u16::from_be_bytes([buffer[offset], buffer[offset + 1]]);
         offset += 2;
+        if message_id == 0 {
+            return Err(ParseError::ParseError(
+                "SUBSCRIBE message identifier must be > 0".to_string(),
+            ));
+        }
 
         // Payload: Subscriptions
         let mut subscriptions = Vec::new();
diff --git a/src/mqtt_serde/mqttv3/unsubscribe.rs b/src/mqtt_serde/mqttv3/unsubscribe.rs
index 3303553..2a99498 100644
--- a/src/mqtt_serde/mqttv3/unsubscribe.rs
+++ b/src/mqtt_serde/mqttv3/unsubscribe.rs
@@ -83,6 +83,11 @@ impl MqttControlPacket for MqttUnsubscribe {
         }
         let message_id = u16::from_be_bytes([buffer[offset], buffer[offset + 1]]);
         offset += 2;
+        if message_id == 0 {
+            return Err(ParseError::ParseError(
+                "UNSUBSCRIBE message identifier must be > 0".to_string(),
+            ));
+        }
 
         // Payload: Topic Filters
         let mut topic_filters = Vec::new();
diff --git a/src/mqtt_serde/mqttv5/packet_id_ack.rs b/src/mqtt_serde/mqttv5/packet_id_ack.rs
index da412c6..d21ab6d 100644
--- a/src/mqtt_serde/mqttv5/packet_id_ack.rs
+++ b/src/mqtt_serde/mqttv5/packet_id_ack.rs
@@ -126,6 +126,13 @@ macro_rules! v5_packet_id_ack {
                 )?;
                 offset += consumed;
 
+                #[cfg(feature = "strict-protocol-compliance")]
+                if packet_id == 0 {
+                    return Err($crate::mqtt_serde::parser::ParseError::ParseError(
+                        concat!($packet_name, " packet_id must be > 0").to_string(),
+                    ));
+                }
+
                 let reason_code = if size > 2 {
                     let code = *buffer
                         .get(offset)
diff --git a/src/mqtt_serde/mqttv5/publish.rs b/src/mqtt_serde/mqttv5/publish.rs
index 4f00316..b282002 100644
--- a/src/mqtt_serde/mqttv5/publish.rs
+++ b/src/mqtt_serde/mqttv5/publish.rs
@@ -188,6 +188,14 @@ impl MqttControlPacket for MqttPublish {
             let (packet_id, consumed) =
                 parse_packet_id(buffer.get(offset..).ok_or(ParseError::BufferTooShort)?)?;
             offset += consumed;
+
+            // MQTT 5.0 Protocol Compliance: Packet Identifier must be non-zero
+            #[cfg(feature = "strict-protocol-compliance")]
+            if packet_id == 0 {
+                return Err(ParseError::ParseError(
+                    "PUBLISH packet_id must be > 0".to_string(),
+                ));
+            }
             Some(packet_id)
         } else {
             None
-- 
2.43.0


From cea846d853d8f1bf26856c35395d9c1bbb3facc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:38 +0000
Subject: [PATCH 22/56] fix: check the reserved fixed header flags of every
 packet

---
 src/mqtt_serde/mqttv3/connect.rs  | 6 ++++++
 src/mqtt_serde/mqttv5/connack.rs  | 8 ++++++++
 src/mqtt_serde/mqttv5/connect.rs  | 8 ++++++++
 src/mqtt_serde/mqttv5/puback.rs   | 2 +-
 src/mqtt_serde/mqttv5/pubcomp.rs  | 2 +-
 src/mqtt_serde/mqttv5/pubrec.rs   | 2 +-
 src/mqtt_serde/mqttv5/suback.rs   | 8 ++++++++
 src/mqtt_serde/mqttv5/unsuback.rs | 8 ++++++++
 8 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/mqtt_serde/mqttv3/connect.rs b/src/mqtt_serde/mqttv3/connect.rs
index fcbb8cb..ec88106 100644
--- a/src/mqtt_serde/mqttv3/connect.rs
+++ b/src/mqtt_serde/mqttv3/connect.rs
@@ -113,6 +113,12 @@ impl MqttControlPacket for MqttConnect {
             return Err(ParseError::InvalidPacketType);
         }
 
+        if buffer[0] & 0x0F != 0x00 {
+            return Err(ParseError::ParseError(
+                "CONNECT packet has invalid fixed header flags".to_string(),
+            ));
+        }
+
         let (size, vbi_len) = parse_remaining_length(&buffer[1..])?;
         let mut offset = 1 + vbi_len;
         let total_len = offset + size;
diff --git a/src/mqtt_serde/mqttv5/connack.rs b/src/mqtt_serde/mqttv5/connack.rs
index 15fe834..18aaaef 100644
--- a/src/mqtt_serde/mqttv5/connack.rs
+++ b/src/mqtt_serde/mqttv5/connack.rs
@@ -61,6 +61,14 @@ pub fn parse_connack(buffer: &[u8]) -> Result<ParseOk, ParseError> {
         return Err(ParseError::InvalidPacketType);
     }
 
+    // MQTT 5.0 Protocol Compliance: fixed header flags are reserved and must be 0
+    #[cfg(feature = "strict-protocol-compliance")]
+    if buffer[0] & 0x0F != 0x00 {
+        return Err(ParseError::ParseError(
+            "CONNACK packet has invalid fixed header flags".to_string(),
+        ));
+    }
+
     let (size, vbi_len) = parse_remaining_length(&buffer[1..])?;
 
     let mut offset = 1 + vbi_len;
diff --git a/src/mqtt_serde/mqttv5/connect.rs b/src/mqtt_serde/mqttv5/connect.rs
index bb31e24..1c1cffc 100644
--- a/src/mqtt_serde/mqttv5/connect.rs
+++ b/src/mqtt_serde/mqttv5/connect.rs
@@ -164,6 +164,14 @@ impl MqttControlPacket for MqttConnect {
             return Err(ParseError::InvalidPacketType);
         }
 
+        // MQTT 5.0 Protocol Compliance: fixed header flags are reserved and must be 0
+        #[cfg(feature = "strict-protocol-compliance")]
+        if buffer[0] & 0x0F != 0x00 {
+            return Err(ParseError::ParseError(
+                "CONNECT packet has invalid fixed header flags".to_string(),
+            ));
+        }
+
         let (size, vbi_len) = parse_remaining_length(&buffer[1..])?;
         let mut offset: usize = 1 + vbi_len;
 
diff --git a/src/mqtt_serde/mqttv5/puback.rs b/src/mqtt_serde/mqttv5/puback.rs
index aedc0ea..6d01eb1 100644
--- a/src/mqtt_serde/mqttv5/puback.rs
+++ b/src/mqtt_serde/mqttv5/puback.rs
@@ -2,7 +2,7 @@
 
 use crate::mqtt_serde::mqttv5::packet_id_ack::v5_packet_id_ack;
 
-v5_packet_id_ack!(MqttPubAck, PUBACK, 0x00, "PUBACK", PubAck5, false);
+v5_packet_id_ack!(MqttPubAck, PUBACK, 0x00, "PUBACK", PubAck5, true);
 
 #[cfg(test)]
 mod tests {
diff --git a/src/mqtt_serde/mqttv5/pubcomp.rs b/src/mqtt_serde/mqttv5/pubcomp.rs
index e3ebc98..1e0442f 100644
--- a/src/mqtt_serde/mqttv5/pubcomp.rs
+++ b/src/mqtt_serde/mqttv5/pubcomp.rs
@@ -2,7 +2,7 @@
 
 use crate::mqtt_serde::mqttv5::packet_id_ack::v5_packet_id_ack;
 
-v5_packet_id_ack!(MqttPubComp, PUBCOMP, 0x00, "PUBCOMP", PubComp5, false);
+v5_packet_id_ack!(MqttPubComp, PUBCOMP, 0x00, "PUBCOMP", PubComp5, true);
 
 #[cfg(test)]
 mod tests {
diff --git a/src/mqtt_serde/mqttv5/pubrec.rs b/src/mqtt_serde/mqttv5/pubrec.rs
index e2abbf4..4eaf6b9 100644
--- a/src/mqtt_serde/mqttv5/pubrec.rs
+++ b/src/mqtt_serde/mqttv5/pubrec.rs
@@ -2,7 +2,7 @@
 
 use crate::mqtt_serde::mqttv5::packet_id_ack::v5_packet_id_ack;
 
-v5_packet_id_ack!(MqttPubRec, PUBREC, 0x00, "PUBREC", PubRec5, false);
+v5_packet_id_ack!(MqttPubRec, PUBREC, 0x00, "PUBREC", PubRec5, true);
 
 #[cfg(test)]
 mod tests {
diff --git a/src/mqtt_serde/mqttv5/suback.rs b/src/mqtt_serde/mqttv5/suback.rs
index f608cc7..471f49c 100644
--- a/src/mqtt_serde/mqttv5/suback.rs
+++ b/src/mqtt_serde/mqttv5/suback.rs
@@ -103,6 +103,14 @@ impl MqttControlPacket for MqttSubAck {
             return Err(ParseError::InvalidPacketType);
         }
 
+        // MQTT 5.0 Protocol Compliance: fixed header flags are reserved and must be 0
+        #[cfg(feature = "strict-protocol-compliance")]
+        if buffer[0] & 0x0F != 0x00 {
+            return Err(ParseError::ParseError(
+                "SUBACK packet has invalid fixed header flags".to_string(),
+            ));
+        }
+
         let (size, vbi_len) = parse_remaining_length(&buffer[1..])?;
         let mut offset: usize = 1 + vbi_len;
         let total_len = offset + size;
diff --git a/src/mqtt_serde/mqttv5/unsuback.rs b/src/mqtt_serde/mqttv5/unsuback.rs
index be77ae6..5c00f7b 100644
--- a/src/mqtt_serde/mqttv5/unsuback.rs
+++ b/src/mqtt_serde/mqttv5/unsuback.rs
@@ -103,6 +103,14 @@ impl MqttControlPacket for MqttUnsubAck {
             return Err(ParseError::InvalidPacketType);
         }
 
+        // MQTT 5.0 Protocol Compliance: fixed header flags are reserved and must be 0
+        #[cfg(feature = "strict-protocol-compliance")]
+        if buffer[0] & 0x0F != 0x00 {
+            return Err(ParseError::ParseError(
+                "UNSUBACK packet has invalid fixed header flags".to_string(),
+            ));
+        }
+
         let (size, vbi_len) = parse_remaining_length(&buffer[1..])?;
         let mut offset: usize = 1 + vbi_len;
         let total_len = offset + size;
-- 
2.43.0


From e983e3168bb3e821aade13acdd7fe42be8384859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:57 +0000
Subject: [PATCH 23/56] fix: reject invalid subscription options

---
 src/mqtt_serde/mqttv5/subscribe.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mqtt_serde/mqttv5/subscribe.rs b/src/mqtt_serde/mqttv5/subscribe.rs
index 907b022..2dc7661 100644
--- a/src/mqtt_serde/mqttv5/subscribe.rs
+++ b/src/mqtt_serde/mqttv5/subscribe.rs
@@ -129,6 +129,14 @@ impl TopicSubscription {
         let (qos, no_local, retain_as_published, retain_handling) =
             Self::decode_subscription_options(options);
 
+        // MQTT 5.0 Protocol Compliance: QoS 3 and Retain Handling 3 are protocol errors
+        #[cfg(feature = "strict-protocol-compliance")]
+        if qos == 3 || retain_handling == 3 {
+            return Err(ParseError::ParseError(
+                "SUBSCRIBE Subscription Options hold an invalid QoS or Retain Handling".to_string(),
+            ));
+        }
+
         // MQTT 5.0 Protocol Compliance: No Local flag validation for Shared Subscriptions
         #[cfg(feature = "strict-protocol-compliance")]
         if no_local && topic_filter.starts_with("$share/") {
-- 
2.43.0


From fe6f4cef00061bbf08fd400420793af1603f237b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:25 +0000
Subject: [PATCH 24/56] fix: apply the topic and filter rules wherever a topic
 arrives

---
 src/mqtt_serde/mod.rs                |  6 ++++++
 src/mqtt_serde/mqttv3/publish.rs     | 14 ++++++++++++++
 src/mqtt_serde/mqttv3/subscribe.rs   |  8 ++++++++
 src/mqtt_serde/mqttv3/unsubscribe.rs |  2 ++
 src/mqtt_serde/mqttv5/publish.rs     | 12 ++++++++++++
 src/mqtt_serde/mqttv5/unsubscribe.rs |  6 ++++++
 6 files changed, 48 insertions(+)

diff --git a/src/mqtt_serde/mod.rs b/src/mqtt_serde/mod.rs
index b4bb023..7ebe462 100644
--- a/src/mqtt_serde/mod.rs
+++ b/src/mqtt_serde/mod.rs
@@ -146,6 +146,12 @@ pub(crate) fn validate_shared_subscription(topic_filter: &str) -> Result<(), Par
             )
         })?;
 
+        if share_name.contains(['#', '+']) {
+            return Err(ParseError::ParseError(
+                "Shared subscription ShareName must not contain wildcards".to_string(),
+            ));
+        }
+
         if share_name.is_empty() {
             return Err(ParseError::ParseError(
                 "Shared subscription ShareName cannot be empty".to_string(),
diff --git a/src/mqtt_serde/mqttv3/publish.rs b/src/mqtt_serde/mqttv3/publish.rs
index 74644d1..162a387 100644
--- a/src/mqtt_serde/mqttv3/publish.rs
+++ b/src/mqtt_serde/mqttv3/publish.rs
@@ -97,6 +97,20 @@ impl MqttControlPacket for MqttPublish {
         let (topic_name, consumed) = parse_utf8_string(&buffer[offset..total_len])?;
         offset += consumed;
 
+        #[cfg(feature = "strict-protocol-compliance")]
+        if topic_name.is_empty() {
+            return Err(ParseError::ParseError(
+                "PUBLISH Topic Name must not be empty".to_string(),
+            ));
+        }
+
+        #[cfg(feature = "strict-protocol-compliance")]
+        if topic_name.contains(['#', '+']) {
+            return Err(ParseError::ParseError(
+                "PUBLISH Topic Name must not contain wildcard characters (# or +)".to_string(),
+            ));
+        }
+
         let message_id = if qos > 0 {
             if offset + 2 > total_len {
                 return Err(ParseError::ParseError(
diff --git a/src/mqtt_serde/mqttv3/subscribe.rs b/src/mqtt_serde/mqttv3/subscribe.rs
index 473a85d..77c0da7 100644
--- a/src/mqtt_serde/mqttv3/subscribe.rs
+++ b/src/mqtt_serde/mqttv3/subscribe.rs
@@ -107,6 +107,8 @@ impl MqttControlPacket for MqttSubscribe {
         let payload_end = total_len;
         while offset < payload_end {
             let (topic_filter, consumed) = parse_utf8_string(&buffer[offset..payload_end])?;
+            #[cfg(feature = "strict-protocol-compliance")]
+            crate::mqtt_serde::validate_topic_filter(&topic_filter)?;
             offset += consumed;
 
             if offset >= payload_end {
@@ -125,6 +127,12 @@ impl MqttControlPacket for MqttSubscribe {
             subscriptions.push(SubscriptionTopic { topic_filter, qos });
         }
 
+        if subscriptions.is_empty() {
+            return Err(ParseError::ParseError(
+                "SUBSCRIBE payload must contain at least one subscription".to_string(),
+            ));
+        }
+
         if offset != total_len {
             return Err(ParseError::InternalError(
                 "Failed to consume entire SUBSCRIBE packet".to_string(),
diff --git a/src/mqtt_serde/mqttv3/unsubscribe.rs b/src/mqtt_serde/mqttv3/unsubscribe.rs
index 2a99498..863b88b 100644
--- a/src/mqtt_serde/mqttv3/unsubscribe.rs
+++ b/src/mqtt_serde/mqttv3/unsubscribe.rs
@@ -94,6 +94,8 @@ impl MqttControlPacket for MqttUnsubscribe {
         let payload_end = total_len;
         while offset < payload_end {
             let (topic, consumed) = parse_utf8_string(&buffer[offset..payload_end])?;
+            #[cfg(feature = "strict-protocol-compliance")]
+            crate::mqtt_serde::validate_topic_filter(&topic)?;
             topic_filters.push(topic);
             offset += consumed;
         }
diff --git a/src/mqtt_serde/mqttv5/publish.rs b/src/mqtt_serde/mqttv5/publish.rs
index b282002..1eaccc9 100644
--- a/src/mqtt_serde/mqttv5/publish.rs
+++ b/src/mqtt_serde/mqttv5/publish.rs
@@ -209,6 +209,18 @@ impl MqttControlPacket for MqttPublish {
         offset += consumed;
 
         // MQTT 5.0: 3.3.3 PUBLISH Payload
+        // MQTT 5.0 Protocol Compliance: an empty Topic Name needs a Topic Alias
+        #[cfg(feature = "strict-protocol-compliance")]
+        if topic_name.is_empty()
+            && !properties
+                .iter()
+                .any(|property| matches!(property, Property::TopicAlias(_)))
+        {
+            return Err(ParseError::ParseError(
+                "PUBLISH Topic Name must not be empty without a Topic Alias".to_string(),
+            ));
+        }
+
         let payload_len = packet_size
             .checked_sub(offset)
             .ok_or(ParseError::InvalidLength)?;
diff --git a/src/mqtt_serde/mqttv5/unsubscribe.rs b/src/mqtt_serde/mqttv5/unsubscribe.rs
index 7757022..408af9d 100644
--- a/src/mqtt_serde/mqttv5/unsubscribe.rs
+++ b/src/mqtt_serde/mqttv5/unsubscribe.rs
@@ -153,6 +153,12 @@ impl MqttControlPacket for MqttUnsubscribe {
 
         while offset < total_len {
             let (topic_filter, consumed) = parse_utf8_string(&buffer[offset..])?;
+            // An empty filter names no subscription and is left to the receiver
+            #[cfg(feature = "strict-protocol-compliance")]
+            if !topic_filter.is_empty() {
+                crate::mqtt_serde::validate_topic_filter(&topic_filter)?;
+                crate::mqtt_serde::validate_shared_subscription(&topic_filter)?;
+            }
             topic_filters.push(topic_filter);
             offset += consumed;
         }
-- 
2.43.0


From b5ab17226c027f630a005713b7927b0fe1324c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:41 +0000
Subject: [PATCH 25/56] fix: reject inconsistent will flags in a v3 CONNECT

---
 src/mqtt_serde/mqttv3/connect.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mqtt_serde/mqttv3/connect.rs b/src/mqtt_serde/mqttv3/connect.rs
index ec88106..f021227 100644
--- a/src/mqtt_serde/mqttv3/connect.rs
+++ b/src/mqtt_serde/mqttv3/connect.rs
@@ -163,6 +163,12 @@ impl MqttControlPacket for MqttConnect {
                 "CONNECT reserved flag bit is not 0".to_string(),
             ));
         }
+        if will_qos == 3 || (!will_flag && (will_qos != 0 || will_retain)) {
+            return Err(ParseError::ParseError(
+                "CONNECT will flags are inconsistent".to_string(),
+            ));
+        }
+
         if password_flag && !username_flag {
             return Err(ParseError::ParseError(
                 "Password flag requires username flag".to_string(),
-- 
2.43.0


From da6641f306718a67a10c65aa3e44abad7e311536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:23 +0000
Subject: [PATCH 26/56] fix: accept an empty username, password and will
 payload in a v5 CONNECT

---
 src/mqtt_serde/mqttv5/connect.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/mqtt_serde/mqttv5/connect.rs b/src/mqtt_serde/mqttv5/connect.rs
index 1c1cffc..60da700 100644
--- a/src/mqtt_serde/mqttv5/connect.rs
+++ b/src/mqtt_serde/mqttv5/connect.rs
@@ -265,9 +265,9 @@ impl MqttControlPacket for MqttConnect {
             // Will is present
             let (will, consumed) = Will::from_bytes(&buffer[offset..], connect_flags)?;
             offset += consumed;
-            if will.will_topic.is_empty() || will.will_message.is_empty() {
+            if will.will_topic.is_empty() {
                 return Err(ParseError::ParseError(
-                    "Will topic or message cannot be empty".to_string(),
+                    "Will topic cannot be empty".to_string(),
                 ));
             }
             Some(will)
@@ -281,11 +281,6 @@ impl MqttControlPacket for MqttConnect {
             let (username, consumed) =
                 parse_utf8_string(buffer.get(offset..).ok_or(ParseError::BufferTooShort)?)?;
             offset += consumed;
-            if username.is_empty() {
-                return Err(ParseError::ParseError(
-                    "Username cannot be empty".to_string(),
-                ));
-            }
             Some(username.to_string())
         } else {
             None
@@ -295,11 +290,6 @@ impl MqttControlPacket for MqttConnect {
             let (password, consumed) =
                 parse_binary_data(buffer.get(offset..).ok_or(ParseError::BufferTooShort)?)?;
             offset += consumed;
-            if password.is_empty() {
-                return Err(ParseError::ParseError(
-                    "Password cannot be empty".to_string(),
-                ));
-            }
             Some(password)
         } else {
             None
-- 
2.43.0


From d8d7c7fe5720b6f0ba26139ce941d4be229d3f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:24 +0000
Subject: [PATCH 27/56] fix: refuse to encode what MQTT cannot represent

---
 src/mqtt_serde/base_data.rs                |  3 +++
 src/mqtt_serde/control_packet.rs           | 11 +++++++++++
 src/mqtt_serde/mqttv3/connect.rs           |  3 +++
 src/mqtt_serde/mqttv3/publish.rs           |  3 +++
 src/mqtt_serde/mqttv5/common/properties.rs |  4 ++++
 src/mqtt_serde/mqttv5/connect.rs           |  3 +++
 src/mqtt_serde/mqttv5/publish.rs           |  9 ++++++++-
 src/mqtt_serde/mqttv5/subscribe.rs         |  5 +++++
 8 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_serde/base_data.rs b/src/mqtt_serde/base_data.rs
index 4763d7f..7956f33 100644
--- a/src/mqtt_serde/base_data.rs
+++ b/src/mqtt_serde/base_data.rs
@@ -39,6 +39,9 @@ impl FourByteInteger {
 pub struct VariableByteInteger;
 
 impl VariableByteInteger {
+    /// Largest value that fits in four bytes
+    pub const MAX: usize = 268_435_455;
+
     pub fn encode(val: u32) -> Vec<u8> {
         let mut bytes = Vec::new();
         let mut num = val;
diff --git a/src/mqtt_serde/control_packet.rs b/src/mqtt_serde/control_packet.rs
index 9102e57..fc1e315 100644
--- a/src/mqtt_serde/control_packet.rs
+++ b/src/mqtt_serde/control_packet.rs
@@ -3,6 +3,7 @@
 use serde::{Deserialize, Serialize};
 use std::convert::TryFrom;
 
+use super::base_data::VariableByteInteger;
 use super::encode_variable_length;
 use super::parser::packet_type;
 use super::parser::{ParseError, ParseOk};
@@ -228,6 +229,14 @@ impl ControlPacketType {
     }
 }
 
+/// The Remaining Length is a Variable Byte Integer of at most four bytes.
+pub(crate) fn check_remaining_length(len: usize) -> Result<(), ParseError> {
+    if len > VariableByteInteger::MAX {
+        return Err(ParseError::InvalidLength);
+    }
+    Ok(())
+}
+
 pub trait MqttControlPacket {
     // MQTT 5.0: 2.1.2, MQTT control packet type
     fn control_packet_type(&self) -> u8;
@@ -262,6 +271,7 @@ pub trait MqttControlPacket {
         let vhdr = self.variable_header()?;
         let payload = self.payload()?;
         let remaining_length = vhdr.len() + payload.len();
+        check_remaining_length(remaining_length)?;
         bytes.extend(self.fixed_header(remaining_length));
         bytes.extend(vhdr);
         bytes.extend(payload);
@@ -273,6 +283,7 @@ pub trait MqttControlPacket {
         let vhdr = self.variable_header()?;
         let payload = self.payload()?;
         let remaining_length = vhdr.len() + payload.len();
+        check_remaining_length(remaining_length)?;
         let fixed_hdr = self.fixed_header(remaining_length);
 
         // Pre-allocate the entire packet size to avoid intermediate reallocations
diff --git a/src/mqtt_serde/mqttv3/connect.rs b/src/mqtt_serde/mqttv3/connect.rs
index f021227..1612c27 100644
--- a/src/mqtt_serde/mqttv3/connect.rs
+++ b/src/mqtt_serde/mqttv3/connect.rs
@@ -66,6 +66,9 @@ impl MqttControlPacket for MqttConnect {
             flags |= 0x02;
         }
         if let Some(will) = &self.will {
+            if will.qos > 2 {
+                return Err(ParseError::ParseError("Invalid Will QoS".to_string()));
+            }
             flags |= 0x04; // Will Flag
             flags |= will.qos << 3;
             if will.retain {
diff --git a/src/mqtt_serde/mqttv3/publish.rs b/src/mqtt_serde/mqttv3/publish.rs
index 162a387..0465d99 100644
--- a/src/mqtt_serde/mqttv3/publish.rs
+++ b/src/mqtt_serde/mqttv3/publish.rs
@@ -57,6 +57,9 @@ impl MqttControlPacket for MqttPublish {
 
     fn variable_header(&self) -> Result<Vec<u8>, ParseError> {
         let mut vh = encode_binary_data(self.topic_name.as_bytes())?;
+        if self.qos > 2 {
+            return Err(ParseError::ParseError("Invalid QoS level".to_string()));
+        }
         if self.qos > 0 {
             let msg_id = self.message_id.ok_or_else(|| {
                 ParseError::ParseError("Message ID is required for QoS > 0".to_string())
diff --git a/src/mqtt_serde/mqttv5/common/properties.rs b/src/mqtt_serde/mqttv5/common/properties.rs
index 61bac52..6af6165 100644
--- a/src/mqtt_serde/mqttv5/common/properties.rs
+++ b/src/mqtt_serde/mqttv5/common/properties.rs
@@ -2,6 +2,7 @@
 
 use serde::{Deserialize, Serialize};
 
+use crate::mqtt_serde::base_data::VariableByteInteger;
 use crate::mqtt_serde::parser;
 use crate::mqtt_serde::parser::{parse_utf8_string, ParseError};
 use crate::mqtt_serde::{decode_binary_data, encode_utf8_string, encode_variable_length};
@@ -94,6 +95,9 @@ impl Property {
                 bytes.extend(crate::mqtt_serde::encode_binary_data(val)?);
             }
             Property::SubscriptionIdentifier(val) => {
+                if *val as usize > VariableByteInteger::MAX {
+                    return Err(ParseError::InvalidVariableByteInteger);
+                }
                 bytes.push(property_id(PropertyID::SubscriptionIdentifier));
                 bytes.extend(crate::mqtt_serde::encode_variable_length(*val as usize));
             }
diff --git a/src/mqtt_serde/mqttv5/connect.rs b/src/mqtt_serde/mqttv5/connect.rs
index 60da700..03c6c61 100644
--- a/src/mqtt_serde/mqttv5/connect.rs
+++ b/src/mqtt_serde/mqttv5/connect.rs
@@ -94,6 +94,9 @@ impl MqttControlPacket for MqttConnect {
         bytes.push(self.protocol_version);
 
         // MQTT 5.0: 3.1.2.3 connect flags
+        if self.will.as_ref().is_some_and(|will| will.will_qos > 3) {
+            return Err(ParseError::ParseError("Invalid Will QoS".to_string()));
+        }
         bytes.push(self.connect_flags());
         bytes.extend(self.keep_alive.to_be_bytes());
 
diff --git a/src/mqtt_serde/mqttv5/publish.rs b/src/mqtt_serde/mqttv5/publish.rs
index 1eaccc9..9a61134 100644
--- a/src/mqtt_serde/mqttv5/publish.rs
+++ b/src/mqtt_serde/mqttv5/publish.rs
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: MPL-2.0
 
-use crate::mqtt_serde::control_packet::{ControlPacketType, MqttControlPacket, MqttPacket};
+use crate::mqtt_serde::control_packet::{
+    check_remaining_length, ControlPacketType, MqttControlPacket, MqttPacket,
+};
 use crate::mqtt_serde::mqttv5::common::properties::{encode_properities_hdr, Property};
 use crate::mqtt_serde::parser;
 use crate::mqtt_serde::parser::{
@@ -88,6 +90,9 @@ impl MqttControlPacket for MqttPublish {
 
         // MQTT 5.0: 3.3.2.2 Packet ID
         // If QoS > 0, we need a packet identifier
+        if self.qos > 2 {
+            return Err(ParseError::ParseError("Invalid QoS level".to_string()));
+        }
         if self.qos > 0 {
             if let Some(packet_id) = self.packet_id {
                 bytes.extend_from_slice(&packet_id.to_be_bytes());
@@ -115,6 +120,7 @@ impl MqttControlPacket for MqttPublish {
 
         let vhdr = self.variable_header()?;
         let remaining_length = vhdr.len() + self.payload.len();
+        check_remaining_length(remaining_length)?;
 
         bytes.extend(self.fixed_header(remaining_length));
         bytes.extend(vhdr);
@@ -250,6 +256,7 @@ impl MqttControlPacket for MqttPublish {
     fn to_bytes(&self) -> Result<Vec<u8>, ParseError> {
         let vhdr = self.variable_header()?;
         let remaining_length = vhdr.len() + self.payload.len();
+        check_remaining_length(remaining_length)?;
         let fixed_hdr = self.fixed_header(remaining_length);
 
         let mut bytes = Vec::with_capacity(fixed_hdr.len() + remaining_length);
diff --git a/src/mqtt_serde/mqttv5/subscribe.rs b/src/mqtt_serde/mqttv5/subscribe.rs
index 2dc7661..3faee03 100644
--- a/src/mqtt_serde/mqttv5/subscribe.rs
+++ b/src/mqtt_serde/mqttv5/subscribe.rs
@@ -94,6 +94,11 @@ impl TopicSubscription {
         bytes.extend(encode_utf8_string(&self.topic_filter)?);
 
         // Subscription Options
+        if self.qos > 2 || self.retain_handling > 2 {
+            return Err(ParseError::ParseError(
+                "Invalid QoS or Retain Handling".to_string(),
+            ));
+        }
         bytes.push(self.encode_subscription_options());
 
         Ok(bytes)
-- 
2.43.0


From de0c1b80865e894bb437dc4920a1a0704159a44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:20 +0000
Subject: [PATCH 28/56] fix: set_mqtt_vsn on too short a buffer asks for more
 instead of panicking

---
 src/mqtt_serde/parser/stream.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mqtt_serde/parser/stream.rs b/src/mqtt_serde/parser/stream.rs
index 3add8ea..5596114 100644
--- a/src/mqtt_serde/parser/stream.rs
+++ b/src/mqtt_serde/parser/stream.rs
@@ -73,6 +73,12 @@ impl MqttParser {
         }
 
         // precheck if it's a CONNECT packet
+        if self.buffer.len() <= offset {
+            return Err(ParseError::More(
+                offset + 1 - self.buffer.len(),
+                "CONNECT packet".to_string(),
+            ));
+        }
         if self.buffer[offset] != 0x10 {
             return Err(ParseError::ParseError(
                 "Expected CONNECT packet to determine MQTT version".to_string(),
-- 
2.43.0


From 022dc5ce9fef2f8afa9f788dac9eb46d869c7b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:20 +0000
Subject: [PATCH 29/56] fix: read in a loop in MqttStream so that large packets
 cannot overflow the stack

---
 src/mqtt_serde/parser/stream.rs | 50 +++++++++++++++++----------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/mqtt_serde/parser/stream.rs b/src/mqtt_serde/parser/stream.rs
index 5596114..6d9773a 100644
--- a/src/mqtt_serde/parser/stream.rs
+++ b/src/mqtt_serde/parser/stream.rs
@@ -242,33 +242,35 @@ where
     type Item = Result<MqttPacket, ParseError>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.parser.next_packet() {
-            Ok(Some(packet)) => Some(Ok(packet)),
-            Ok(None) => {
-                // Reserve space in the parser's buffer for reading
-                let buffer = self.parser.buffer_mut();
-                let initial_len = buffer.len();
-                buffer.resize(initial_len + 1024, 0);
-
-                match self.stream.read(&mut buffer[initial_len..]) {
-                    Ok(0) => {
-                        // End of stream - remove the unused space we reserved
-                        buffer.truncate(initial_len);
-                        None
-                    }
-                    Ok(n) => {
-                        // Adjust buffer to actual bytes read
-                        buffer.truncate(initial_len + n);
-                        self.next() // Try to parse again
-                    }
-                    Err(e) => {
-                        // Remove the unused space we reserved
-                        buffer.truncate(initial_len);
-                        Some(Err(ParseError::IoError(e)))
+        // A large packet may take many reads; loop rather than recurse
+        loop {
+            match self.parser.next_packet() {
+                Ok(Some(packet)) => return Some(Ok(packet)),
+                Ok(None) => {
+                    // Reserve space in the parser's buffer for reading
+                    let buffer = self.parser.buffer_mut();
+                    let initial_len = buffer.len();
+                    buffer.resize(initial_len + 1024, 0);
+
+                    match self.stream.read(&mut buffer[initial_len..]) {
+                        Ok(0) => {
+                            // End of stream - remove the unused space we reserved
+                            buffer.truncate(initial_len);
+                            return None;
+                        }
+                        Ok(n) => {
+                            // Adjust buffer to actual bytes read, then try to parse again
+                            buffer.truncate(initial_len + n);
+                        }
+                        Err(e) => {
+                            // Remove the unused space we reserved
+                            buffer.truncate(initial_len);
+                            return Some(Err(ParseError::IoError(e)));
+                        }
                     }
                 }
+                Err(e) => return Some(Err(e)),
             }
-            Err(e) => Some(Err(e)),
         }
     }
 }
-- 
2.43.0


From 2945ac18eb67d847a611050884808792ae1dd744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:15 +0000
Subject: [PATCH 30/56] fix: a server session's resent PUBREL takes no second
 slot

---
 src/mqtt_session/server_session.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/mqtt_session/server_session.rs b/src/mqtt_session/server_session.rs
index 90751d5..3abfd4d 100644
--- a/src/mqtt_session/server_session.rs
+++ b/src/mqtt_session/server_session.rs
@@ -150,13 +150,9 @@ impl ServerSession {
             }
         }
 
-        // Resend unacknowledged pubrels
+        // Resend unacknowledged pubrels: their messages hold their slots already
         for pubrel in self.unacknowledged_pubrels.values() {
-            if available_slots == 0 {
-                break;
-            }
             packets_to_resend.push(MqttPacket::PubRel5(pubrel.clone()));
-            available_slots -= 1;
         }
 
         // Send pending publishes
-- 
2.43.0


From d73d172cfda2bb2b879d5de5aac8fe159f5b6808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:15 +0000
Subject: [PATCH 31/56] fix: QoS 0 messages take no slot of a server session's
 window

---
 src/mqtt_session/server_session.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/mqtt_session/server_session.rs b/src/mqtt_session/server_session.rs
index 3abfd4d..3991a5f 100644
--- a/src/mqtt_session/server_session.rs
+++ b/src/mqtt_session/server_session.rs
@@ -155,11 +155,15 @@ impl ServerSession {
             packets_to_resend.push(MqttPacket::PubRel5(pubrel.clone()));
         }
 
-        // Send pending publishes
-        while !self.pending_publishes.is_empty() && available_slots > 0 {
-            let publish = self.pending_publishes.remove(0);
-            packets_to_resend.push(MqttPacket::Publish5(publish));
-            available_slots -= 1;
+        // Send pending publishes; QoS 0 is not acknowledged and takes no slot
+        while let Some(publish) = self.pending_publishes.first() {
+            if publish.qos > 0 {
+                if available_slots == 0 {
+                    break;
+                }
+                available_slots -= 1;
+            }
+            packets_to_resend.push(MqttPacket::Publish5(self.pending_publishes.remove(0)));
         }
 
         self.inflight_messages = self.receive_maximum - available_slots;
-- 
2.43.0


From 33d933230bb9b1dd4d7b32764f560f9a8706a7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:15 +0000
Subject: [PATCH 32/56] fix: mark the publishes a client session resends as
 duplicates

---
 src/mqtt_session/client_session.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_session/client_session.rs b/src/mqtt_session/client_session.rs
index 4e8d7ee..5172482 100644
--- a/src/mqtt_session/client_session.rs
+++ b/src/mqtt_session/client_session.rs
@@ -121,7 +121,9 @@ impl ClientSession {
 
         for (packet_id, publish) in &self.unacknowledged_publishes {
             if !self.unacknowledged_pubrels.contains_key(packet_id) {
-                packets_to_resend.push(MqttPacket::Publish5(publish.clone()));
+                let mut publish = publish.clone();
+                publish.dup = true;
+                packets_to_resend.push(MqttPacket::Publish5(publish));
             }
         }
 
-- 
2.43.0


From 85c695d94984ec2b88e8e268b97f583990777e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:15 +0000
Subject: [PATCH 33/56] fix: report a priority queue save that could not be
 written

---
 src/priority_queue.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/priority_queue.rs b/src/priority_queue.rs
index eb79ee4..b7aa823 100644
--- a/src/priority_queue.rs
+++ b/src/priority_queue.rs
@@ -3,7 +3,7 @@
 use serde::{de::DeserializeOwned, Deserialize, Serialize};
 use std::collections::{BTreeMap, VecDeque};
 use std::fs::File;
-use std::io::{self, BufReader, BufWriter};
+use std::io::{self, BufReader, BufWriter, Write};
 use std::path::Path;
 
 /// A priority queue with a fixed capacity limit.
@@ -111,9 +111,10 @@ where
         T: Serialize + DeserializeOwned,
     {
         let file = File::create(path)?;
-        let writer = BufWriter::new(file);
-        serde_json::to_writer(writer, self)?;
-        Ok(())
+        let mut writer = BufWriter::new(file);
+        serde_json::to_writer(&mut writer, self)?;
+        // Dropping the writer would hide a failure to write what it still buffers
+        writer.flush()
     }
 
     /// Restores the queue state from a file.
-- 
2.43.0


From 7b1aa4f533f384ddbee6cff8e33df5ecd41dfc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:07 +0000
Subject: [PATCH 34/56] fix: keep an empty user name or password across the
 gRPC relay

---
 mqtt_grpc_duality/proto/mqttv3.proto |  4 ++--
 mqtt_grpc_duality/proto/mqttv5.proto |  4 ++--
 mqtt_grpc_duality/src/lib.rs         | 32 +++++++---------------------
 3 files changed, 12 insertions(+), 28 deletions(-)

diff --git a/mqtt_grpc_duality/proto/mqttv3.proto b/mqtt_grpc_duality/proto/mqttv3.proto
index 85408fa..11927c3 100644
--- a/mqtt_grpc_duality/proto/mqttv3.proto
+++ b/mqtt_grpc_duality/proto/mqttv3.proto
@@ -35,9 +35,9 @@ message Connect {
   // Keep-alive timer in seconds (16-bit).
   uint32 keep_alive = 5;
   // Username (optional).
-  string username = 6;
+  optional string username = 6;
   // Password (optional, binary data).
-  bytes password = 7;
+  optional bytes password = 7;
   // Will message (optional).
   Will will = 8;
 }
diff --git a/mqtt_grpc_duality/proto/mqttv5.proto b/mqtt_grpc_duality/proto/mqttv5.proto
index 63bb659..ecdf4a5 100644
--- a/mqtt_grpc_duality/proto/mqttv5.proto
+++ b/mqtt_grpc_duality/proto/mqttv5.proto
@@ -75,9 +75,9 @@ message Connect {
   // Keep-alive timer in seconds (16-bit).
   uint32 keep_alive = 5;
   // Username (optional).
-  string username = 6;
+  optional string username = 6;
   // Password (optional, binary data).
-  bytes password = 7;
+  optional bytes password = 7;
   // Will message (optional).
   Will will = 8;
   // MQTT 5.0 properties.
diff --git a/mqtt_grpc_duality/src/lib.rs b/mqtt_grpc_duality/src/lib.rs
index f53972b..5d6317a 100644
--- a/mqtt_grpc_duality/src/lib.rs
+++ b/mqtt_grpc_duality/src/lib.rs
@@ -187,8 +187,8 @@ impl From<MqttConnect> for mqttv5pb::Connect {
             protocol_version: connect.protocol_version as u32,
             clean_start: connect.is_clean_start(),
             keep_alive: connect.keep_alive as u32,
-            username: connect.username.unwrap_or_default(),
-            password: connect.password.unwrap_or_default(),
+            username: connect.username,
+            password: connect.password,
             will: connect.will.map(|will| mqttv5pb::Will {
                 qos: will.will_qos as i32,
                 retain: will.will_retain,
@@ -436,16 +436,8 @@ impl From<mqttv5pb::Connect> for MqttConnect {
 
         MqttConnect::new(
             connect.client_id,
-            if connect.username.is_empty() {
-                None
-            } else {
-                Some(connect.username)
-            },
-            if connect.password.is_empty() {
-                None
-            } else {
-                Some(connect.password)
-            },
+            connect.username,
+            connect.password,
             connect
                 .will
                 .map(|will| flowsdk::mqtt_serde::mqttv5::will::Will {
@@ -724,8 +716,8 @@ impl From<MqttConnectV3> for mqttv3pb::Connect {
             protocol_version: connect.protocol_version as u32,
             clean_session: connect.clean_session,
             keep_alive: connect.keep_alive as u32,
-            username: connect.username.unwrap_or_default(),
-            password: connect.password.unwrap_or_default(),
+            username: connect.username,
+            password: connect.password,
             will: connect.will.map(|will| mqttv3pb::Will {
                 qos: will.qos as i32,
                 retain: will.retain,
@@ -857,16 +849,8 @@ impl From<mqttv3pb::Connect> for MqttConnectV3 {
             client_id: connect.client_id,
             clean_session: connect.clean_session,
             keep_alive: connect.keep_alive as u16,
-            username: if connect.username.is_empty() {
-                None
-            } else {
-                Some(connect.username)
-            },
-            password: if connect.password.is_empty() {
-                None
-            } else {
-                Some(connect.password)
-            },
+            username: connect.username,
+            password: connect.password,
             will,
         }
     }
-- 
2.43.0


From 6177454fa19f8a69ec2da9e75cfbe1c7b96a76b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:07 +0000
Subject: [PATCH 35/56] fix: give no packet identifier to a relayed QoS 0
 publish

---
 mqtt_grpc_duality/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt_grpc_duality/src/lib.rs b/mqtt_grpc_duality/src/lib.rs
index 5d6317a..4fe1e05 100644
--- a/mqtt_grpc_duality/src/lib.rs
+++ b/mqtt_grpc_duality/src/lib.rs
@@ -310,7 +310,7 @@ impl From<mqttv5pb::Publish> for MqttPublish {
         let mut mqtt_publish = MqttPublish::new(
             publish.qos as u8,
             publish.topic,
-            Some(publish.message_id as u16),
+            (publish.message_id != 0).then_some(publish.message_id as u16),
             publish.payload,
             publish.retain,
             publish.dup,
-- 
2.43.0


From b655b93e3dd2d2c40444d98e9e4c1f85aa2c167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:25 +0000
Subject: [PATCH 36/56] fix: read TLS input larger than the decrypted-data
 buffer

---
 src/mqtt_client/tls_engine.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mqtt_client/tls_engine.rs b/src/mqtt_client/tls_engine.rs
index f945343..1ee69eb 100644
--- a/src/mqtt_client/tls_engine.rs
+++ b/src/mqtt_client/tls_engine.rs
@@ -63,14 +63,19 @@ impl TlsMqttEngine {
                 break;
             }
 
-            self.tls_connection.process_new_packets().map_err(|e| {
-                MqttClientError::InternalError {
-                    message: format!("TLS process error: {}", e),
-                }
+            let processed = self.tls_connection.process_new_packets();
+            // Empty the plaintext buffer before reading on: when it is full, rustls reads no more.
+            self.read_plaintext()?;
+            processed.map_err(|e| MqttClientError::InternalError {
+                message: format!("TLS process error: {}", e),
             })?;
         }
 
-        // After processing packets, check if there is any plaintext available
+        Ok(())
+    }
+
+    /// Collect the plaintext the TLS engine has decrypted so far.
+    fn read_plaintext(&mut self) -> Result<(), MqttClientError> {
         let mut buf = vec![0u8; 4096];
         loop {
             match self.tls_connection.reader().read(&mut buf) {
-- 
2.43.0


From 4aebb0714de471b46f578ac3d352eecfad3dc0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:25 +0000
Subject: [PATCH 37/56] fix: do not cut off MQTT packets beyond the TLS write
 buffer

---
 src/mqtt_client/tls_engine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/tls_engine.rs b/src/mqtt_client/tls_engine.rs
index 1ee69eb..63416bb 100644
--- a/src/mqtt_client/tls_engine.rs
+++ b/src/mqtt_client/tls_engine.rs
@@ -38,11 +38,13 @@ impl TlsMqttEngine {
             })?
             .to_owned();
 
-        let tls_connection = ClientConnection::new(config, server_name).map_err(|e| {
+        let mut tls_connection = ClientConnection::new(config, server_name).map_err(|e| {
             MqttClientError::InternalError {
                 message: format!("Failed to create TLS connection: {}", e),
             }
         })?;
+        // The MQTT engine bounds what is buffered; a limit here would cut packets short.
+        tls_connection.set_buffer_limit(None);
 
         Ok(Self {
             mqtt_engine,
-- 
2.43.0


From 561e8abba85f9f6226a611aaead83a32172dc84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:37 +0000
Subject: [PATCH 38/56] fix: pass user name and password to the FFI TLS and
 QUIC engines

---
 flowsdk_ffi/src/engine.rs | 60 ++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 36 deletions(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index 2073f74..a2c3b30 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -45,24 +45,7 @@ impl MqttEngineFFI {
 
     #[cfg_attr(feature = "uniffi-bindings", uniffi::constructor)]
     pub fn new_with_opts(opts: MqttOptionsFFI) -> Self {
-        let mut builder = MqttClientOptions::builder()
-            .client_id(opts.client_id)
-            .mqtt_version(opts.mqtt_version)
-            .clean_start(opts.clean_start)
-            .keep_alive(opts.keep_alive)
-            .reconnect_base_delay_ms(opts.reconnect_base_delay_ms)
-            .reconnect_max_delay_ms(opts.reconnect_max_delay_ms)
-            .max_reconnect_attempts(opts.max_reconnect_attempts);
-
-        if let Some(username) = opts.username {
-            builder = builder.username(username);
-        }
-
-        if let Some(password) = opts.password {
-            builder = builder.password(password);
-        }
-
-        let engine = MqttEngine::new(builder.build());
+        let engine = MqttEngine::new(client_options(opts));
         MqttEngineFFI {
             engine: Mutex::new(engine),
             start_time: Instant::now(),
@@ -183,6 +166,27 @@ impl MqttEngineFFI {
     }
 }
 
+fn client_options(opts: MqttOptionsFFI) -> MqttClientOptions {
+    let mut builder = MqttClientOptions::builder()
+        .client_id(opts.client_id)
+        .mqtt_version(opts.mqtt_version)
+        .clean_start(opts.clean_start)
+        .keep_alive(opts.keep_alive)
+        .reconnect_base_delay_ms(opts.reconnect_base_delay_ms)
+        .reconnect_max_delay_ms(opts.reconnect_max_delay_ms)
+        .max_reconnect_attempts(opts.max_reconnect_attempts);
+
+    if let Some(username) = opts.username {
+        builder = builder.username(username);
+    }
+
+    if let Some(password) = opts.password {
+        builder = builder.password(password);
+    }
+
+    builder.build()
+}
+
 fn map_event(event: MqttEvent) -> Option<MqttEventFFI> {
     match event {
         MqttEvent::Connected(res) => Some(MqttEventFFI::Connected(ConnectionResultFFI {
@@ -341,15 +345,7 @@ pub struct TlsMqttEngineFFI {
 impl TlsMqttEngineFFI {
     #[cfg_attr(feature = "uniffi-bindings", uniffi::constructor)]
     pub fn new(opts: MqttOptionsFFI, tls_opts: MqttTlsOptionsFFI, server_name: String) -> Self {
-        let options = MqttClientOptions::builder()
-            .client_id(opts.client_id)
-            .mqtt_version(opts.mqtt_version)
-            .clean_start(opts.clean_start)
-            .keep_alive(opts.keep_alive)
-            .reconnect_base_delay_ms(opts.reconnect_base_delay_ms)
-            .reconnect_max_delay_ms(opts.reconnect_max_delay_ms)
-            .max_reconnect_attempts(opts.max_reconnect_attempts)
-            .build();
+        let options = client_options(opts);
 
         #[cfg(feature = "quic-openssl")]
         let _ = rustls_openssl::default_provider().install_default();
@@ -606,15 +602,7 @@ pub struct QuicMqttEngineFFI {
 impl QuicMqttEngineFFI {
     #[cfg_attr(feature = "uniffi-bindings", uniffi::constructor)]
     pub fn new(opts: MqttOptionsFFI) -> Self {
-        let options = MqttClientOptions::builder()
-            .client_id(opts.client_id)
-            .mqtt_version(opts.mqtt_version)
-            .clean_start(opts.clean_start)
-            .keep_alive(opts.keep_alive)
-            .reconnect_base_delay_ms(opts.reconnect_base_delay_ms)
-            .reconnect_max_delay_ms(opts.reconnect_max_delay_ms)
-            .max_reconnect_attempts(opts.max_reconnect_attempts)
-            .build();
+        let options = client_options(opts);
 
         let engine = QuicMqttEngine::new(options).unwrap();
         QuicMqttEngineFFI {
-- 
2.43.0


From 2090fefe1be5d43df3b4f3c12cd8c6c0a251d27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:37 +0000
Subject: [PATCH 39/56] fix: use the ALPN protocol given to
 mqtt_quic_engine_connect

---
 flowsdk_ffi/src/engine.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index a2c3b30..6427ff8 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -1405,12 +1405,17 @@ pub unsafe extern "C" fn mqtt_quic_engine_connect(
                         .into_owned(),
                 )
             };
+            let alpn_protocols = if r.alpn.is_null() {
+                vec!["mqtt".to_string()]
+            } else {
+                vec![CStr::from_ptr(r.alpn).to_string_lossy().into_owned()]
+            };
             MqttTlsOptionsFFI {
                 ca_cert_file,
                 client_cert_file,
                 client_key_file,
                 insecure_skip_verify: r.insecure_skip_verify != 0,
-                alpn_protocols: vec!["mqtt".to_string()],
+                alpn_protocols,
                 enable_key_log: r.enable_key_log != 0,
             }
         };
-- 
2.43.0


From 2287712cff3d55db6c21830c481da2dfee229d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:37 +0000
Subject: [PATCH 40/56] fix: process packets left behind by the event limit
 over TLS and on the QUIC control stream

---
 src/mqtt_client/engine.rs     | 23 ++++++++++++++++++++++-
 src/mqtt_client/tls_engine.rs |  5 +++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 140e481..28fa7f4 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -200,6 +200,8 @@ pub struct MqttEngine {
 
     // Buffers and Parsers
     parser: MqttParser,
+    /// The event limit ended the last `handle_incoming`; complete packets may be left.
+    incoming_backlog: bool,
     outgoing_buffer: VecDeque<Vec<u8>>,
 
     // Retransmissions (MQTT v3) for packets originally sent on a specific logical
@@ -257,6 +259,7 @@ impl MqttEngine {
             last_packet_received: Instant::now(),
             ping_sent_at: None,
             parser,
+            incoming_backlog: false,
             outgoing_buffer: VecDeque::new(),
             stream_retransmissions: VecDeque::new(),
             qos2_received: HashSet::new(),
@@ -293,6 +296,7 @@ impl MqttEngine {
         self.outgoing_buffer.clear();
         self.stream_retransmissions.clear();
         self.parser = MqttParser::new(self.options.parser_buffer_size, self.options.mqtt_version);
+        self.incoming_backlog = false;
     }
 
     /// Reset all transport-tied state for a fresh underlying transport (e.g. a
@@ -308,6 +312,7 @@ impl MqttEngine {
         self.outgoing_buffer.clear();
         self.stream_retransmissions.clear();
         self.parser = MqttParser::new(self.options.parser_buffer_size, self.options.mqtt_version);
+        self.incoming_backlog = false;
         // Cancel any pending reconnect deadline so it cannot fire another
         // ReconnectNeeded while a new transport handshake is in progress. The
         // attempt counter is left intact until CONNACK resets it.
@@ -378,11 +383,13 @@ impl MqttEngine {
     /// consume events via `take_events()` and call `handle_incoming(&[])` again to resume processing.
     pub fn handle_incoming(&mut self, data: &[u8]) -> Vec<MqttEvent> {
         self.parser.feed(data);
+        self.incoming_backlog = false;
 
         loop {
             if self.events.len() >= self.options.max_event_count {
                 // Buffer full, stop processing for now.
                 // Remaining data stays in parser/buffer.
+                self.incoming_backlog = true;
                 break;
             }
 
@@ -415,6 +422,12 @@ impl MqttEngine {
         self.take_events()
     }
 
+    /// Whether the last [`handle_incoming`](Self::handle_incoming) stopped at the event
+    /// limit, so that calling it again (even without new data) may process more packets.
+    pub fn has_incoming_backlog(&self) -> bool {
+        self.incoming_backlog
+    }
+
     pub fn mqtt_version(&self) -> u8 {
         self.options.mqtt_version
     }
@@ -2489,7 +2502,12 @@ impl QuicMqttEngine {
             if let Some(stream_id) = self.control_stream {
                 let mut recv_finished = false;
                 let mut read_reset = None;
-                {
+                // Packets left behind by the event limit come first; while some
+                // remain, further bytes (and the FIN) wait in quinn-proto's buffer.
+                if self.mqtt_engine.has_incoming_backlog() {
+                    mqtt_events.extend(self.mqtt_engine.handle_incoming(&[]));
+                }
+                if !self.mqtt_engine.has_incoming_backlog() {
                     let mut stream = conn.recv_stream(stream_id);
                     // Bind the Result to a local so its temporary (which borrows
                     // `stream`) is dropped before `stream` itself.
@@ -2500,6 +2518,9 @@ impl QuicMqttEngine {
                                 Ok(Some(chunk)) => {
                                     mqtt_events
                                         .extend(self.mqtt_engine.handle_incoming(&chunk.bytes));
+                                    if self.mqtt_engine.has_incoming_backlog() {
+                                        break;
+                                    }
                                 }
                                 Ok(None) => {
                                     recv_finished = true;
diff --git a/src/mqtt_client/tls_engine.rs b/src/mqtt_client/tls_engine.rs
index 63416bb..43ee28f 100644
--- a/src/mqtt_client/tls_engine.rs
+++ b/src/mqtt_client/tls_engine.rs
@@ -108,8 +108,9 @@ impl TlsMqttEngine {
     pub fn handle_tick(&mut self, now: Instant) -> Vec<MqttEvent> {
         let mut mqtt_events = Vec::new();
 
-        // 1. Process internal plaintext from TLS -> MQTT
-        if !self.incoming_plaintext.is_empty() {
+        // 1. Process internal plaintext from TLS -> MQTT, and packets an earlier
+        //    tick left behind because of the event limit
+        if !self.incoming_plaintext.is_empty() || self.mqtt_engine.has_incoming_backlog() {
             let events = self.mqtt_engine.handle_incoming(&self.incoming_plaintext);
             mqtt_events.extend(events);
             self.incoming_plaintext.clear();
-- 
2.43.0


From f39a5efd6c6bb2e6764c30cb47436b1ff121a503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:37 +0000
Subject: [PATCH 41/56] fix: report the close of a QUIC data stream after the
 packets received before it

---
 src/mqtt_client/engine.rs | 57 +++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 28fa7f4..ee57a95 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1407,6 +1407,8 @@ struct QuicStream {
     finished: bool,
     /// The receive side has seen FIN or RESET; further reads are skipped.
     recv_closed: bool,
+    /// A FIN was read but packets received before it are still to be processed.
+    recv_finishing: bool,
 }
 
 #[cfg(feature = "quic-proto")]
@@ -1420,6 +1422,7 @@ impl QuicStream {
             finishing: false,
             finished: false,
             recv_closed: false,
+            recv_finishing: false,
         }
     }
 
@@ -1438,6 +1441,7 @@ impl QuicStream {
             finishing: false,
             finished: false,
             recv_closed: false,
+            recv_finishing: false,
         }
     }
 }
@@ -2620,7 +2624,7 @@ impl QuicMqttEngine {
                 let recv_closed = self
                     .data_streams
                     .get(&stream_id)
-                    .map(|ds| ds.recv_closed)
+                    .map(|ds| ds.recv_closed || ds.recv_finishing)
                     .unwrap_or(true);
                 if !recv_closed {
                     let mut recv_finished = false;
@@ -2665,29 +2669,41 @@ impl QuicMqttEngine {
                         );
                         continue;
                     } else if recv_finished {
-                        Self::handle_stream_closed_fields(
-                            &mut self.control_stream,
-                            &mut self.data_streams,
-                            &mut self.control_outgoing,
-                            &mut self.control_finishing,
-                            &mut self.control_finished,
-                            &mut self.mqtt_engine,
-                            stream_id,
-                            "recv_finished",
-                            true,
-                            &mut mqtt_events,
-                        );
+                        if let Some(ds) = self.data_streams.get_mut(&stream_id) {
+                            ds.recv_finishing = true;
+                        }
                     }
                 }
                 // `chunks`/`stream` are dropped here, releasing the connection
                 // borrow needed to drive the MQTT engine. Disjoint field borrows
                 // (data_streams + mqtt_engine) keep this valid while `conn` lives.
-                Self::drain_data_stream(
+                let exhausted = Self::drain_data_stream(
                     &mut self.data_streams,
                     &mut self.mqtt_engine,
                     stream_id,
                     &mut mqtt_events,
                 );
+
+                // The close is reported only after everything received before it.
+                let recv_finished = self
+                    .data_streams
+                    .get(&stream_id)
+                    .map(|ds| ds.recv_finishing && !ds.recv_closed)
+                    .unwrap_or(false);
+                if exhausted && recv_finished {
+                    Self::handle_stream_closed_fields(
+                        &mut self.control_stream,
+                        &mut self.data_streams,
+                        &mut self.control_outgoing,
+                        &mut self.control_finishing,
+                        &mut self.control_finished,
+                        &mut self.mqtt_engine,
+                        stream_id,
+                        "recv_finished",
+                        true,
+                        &mut mqtt_events,
+                    );
+                }
             }
 
             // 4a. Flush the control stream. `control_outgoing` is a persistent
@@ -2929,7 +2945,8 @@ impl QuicMqttEngine {
     /// *same* stream and counting it against the stream's bounded send buffer.
     ///
     /// Stops once the send buffer reaches `max_packets`, leaving the undecoded
-    /// bytes in the parser for a later tick (back-pressure). This is an associated
+    /// bytes in the parser for a later tick (back-pressure). Returns whether no
+    /// complete packet is left in the parser. This is an associated
     /// function taking the two fields directly so it can run while the QUIC
     /// `connection` field is mutably borrowed elsewhere in `handle_tick`.
     fn drain_data_stream(
@@ -2937,7 +2954,7 @@ impl QuicMqttEngine {
         mqtt_engine: &mut MqttEngine,
         stream_id: StreamId,
         events: &mut Vec<MqttEvent>,
-    ) {
+    ) -> bool {
         let max_event_count = mqtt_engine.options().max_event_count;
         loop {
             // Back-pressure: stop once the event buffer is full (mirrors
@@ -2946,7 +2963,7 @@ impl QuicMqttEngine {
             // (e.g. a stream full of QoS 0 PUBLISHes). The undecoded bytes remain
             // in this stream's parser for a later tick.
             if events.len() >= max_event_count {
-                break;
+                return false;
             }
 
             // Fetch the next packet only while there is buffer capacity; drops the
@@ -2954,14 +2971,14 @@ impl QuicMqttEngine {
             let packet = match data_streams.get_mut(&stream_id) {
                 Some(ds) if ds.pending_packets < ds.max_packets => match ds.parser.next_packet() {
                     Ok(Some(packet)) => packet,
-                    Ok(None) => break,
+                    Ok(None) => return true,
                     Err(e) => {
                         events.push(MqttEvent::Error(MqttClientError::from(e)));
-                        break;
+                        return true;
                     }
                 },
                 // Unknown stream, or send buffer full → stop (back-pressure).
-                _ => break,
+                _ => return false,
             };
 
             let (evs, resp) = mqtt_engine.ingest_stream_packet(packet, u64::from(stream_id));
-- 
2.43.0


From eb76b4ff2fb406e97777b42f4fd313236463cf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:37 +0000
Subject: [PATCH 42/56] fix: report a malformed packet on a QUIC data stream
 once

---
 src/mqtt_client/engine.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index ee57a95..c530d4c 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1409,6 +1409,8 @@ struct QuicStream {
     recv_closed: bool,
     /// A FIN was read but packets received before it are still to be processed.
     recv_finishing: bool,
+    /// A malformed packet was received; whatever follows on this stream is discarded.
+    malformed: bool,
 }
 
 #[cfg(feature = "quic-proto")]
@@ -1423,6 +1425,7 @@ impl QuicStream {
             finished: false,
             recv_closed: false,
             recv_finishing: false,
+            malformed: false,
         }
     }
 
@@ -1442,6 +1445,7 @@ impl QuicStream {
             finished: false,
             recv_closed: false,
             recv_finishing: false,
+            malformed: false,
         }
     }
 }
@@ -2637,7 +2641,9 @@ impl QuicMqttEngine {
                                 match chunks.next(16384) {
                                     Ok(Some(chunk)) => {
                                         if let Some(ds) = self.data_streams.get_mut(&stream_id) {
-                                            ds.parser.feed(&chunk.bytes);
+                                            if !ds.malformed {
+                                                ds.parser.feed(&chunk.bytes);
+                                            }
                                         }
                                     }
                                     Ok(None) => {
@@ -2969,10 +2975,13 @@ impl QuicMqttEngine {
             // Fetch the next packet only while there is buffer capacity; drops the
             // `data_streams` borrow before calling into the engine.
             let packet = match data_streams.get_mut(&stream_id) {
+                Some(ds) if ds.malformed => return true,
                 Some(ds) if ds.pending_packets < ds.max_packets => match ds.parser.next_packet() {
                     Ok(Some(packet)) => packet,
                     Ok(None) => return true,
                     Err(e) => {
+                        // The framing is lost: report once, not on every tick.
+                        ds.malformed = true;
                         events.push(MqttEvent::Error(MqttClientError::from(e)));
                         return true;
                     }
-- 
2.43.0


From 7ebdceec78b4f55dcb9219d44c295114503e41c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:37 +0000
Subject: [PATCH 43/56] fix: let accepted packets leave the data streams before
 the deferred QUIC close

---
 src/mqtt_client/engine.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index c530d4c..1522b0f 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -2789,7 +2789,11 @@ impl QuicMqttEngine {
             //    transmitted above. If the control stream is still draining under
             //    flow control, defer to a later tick so the DISCONNECT is not
             //    dropped. Then emit the CONNECTION_CLOSE after the DISCONNECT.
-            if self.pending_close.is_some() && self.control_outgoing.is_empty() {
+            //    The same goes for packets accepted earlier on the data streams.
+            if self.pending_close.is_some()
+                && self.control_outgoing.is_empty()
+                && self.data_streams.values().all(|ds| ds.outgoing.is_empty())
+            {
                 if let Some((code, reason)) = self.pending_close.take() {
                     conn.close(now, code, reason);
                     self.mqtt_engine.handle_connection_lost();
-- 
2.43.0


From e054d72b43723da1d9e3c1e947207a652a7fc02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:37 +0000
Subject: [PATCH 44/56] fix: forget the streams of unacknowledged packets with
 their connection

---
 src/mqtt_client/engine.rs   | 2 ++
 src/mqtt_client/inflight.rs | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 1522b0f..20c1e79 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -295,6 +295,7 @@ impl MqttEngine {
         // Bytes from or for the lost transport mean nothing on the next one
         self.outgoing_buffer.clear();
         self.stream_retransmissions.clear();
+        self.inflight_queue.detach_streams();
         self.parser = MqttParser::new(self.options.parser_buffer_size, self.options.mqtt_version);
         self.incoming_backlog = false;
     }
@@ -311,6 +312,7 @@ impl MqttEngine {
         self.is_connected = false;
         self.outgoing_buffer.clear();
         self.stream_retransmissions.clear();
+        self.inflight_queue.detach_streams();
         self.parser = MqttParser::new(self.options.parser_buffer_size, self.options.mqtt_version);
         self.incoming_backlog = false;
         // Cancel any pending reconnect deadline so it cannot fire another
diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index 8b656d1..245b209 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -148,6 +148,13 @@ impl InflightQueue {
         )
     }
 
+    /// Forget the logical streams packets were sent on: they end with the connection
+    pub fn detach_streams(&mut self) {
+        for entry in self.entries.values_mut() {
+            entry.stream = None;
+        }
+    }
+
     /// Whether a packet identifier belongs to an unacknowledged packet
     pub fn contains(&self, packet_id: u16) -> bool {
         self.entries.contains_key(&packet_id)
-- 
2.43.0


From d9182b1dd9831fd7d550391a4ab5cd118ea8b2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:37 +0000
Subject: [PATCH 45/56] fix: start from a clean connection state in
 QuicMqttEngine::connect

---
 src/mqtt_client/engine.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 20c1e79..9290f83 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1719,8 +1719,8 @@ impl QuicMqttEngine {
         self.server_name = Some(server_name.to_string());
         self.zero_rtt_config = None;
         self.zero_rtt_status = QuicZeroRttStatus::Disabled;
-        self.pending_transport_events.clear();
-        self.early_stream_journal.clear();
+        // Nothing of a previous connection may leak into this one
+        self.reset_connection_state();
 
         self.establish(now)
     }
@@ -1754,8 +1754,8 @@ impl QuicMqttEngine {
         self.server_name = Some(server_name.to_string());
         self.zero_rtt_config = Some(zero_rtt_config);
         self.zero_rtt_status = QuicZeroRttStatus::Unavailable;
-        self.pending_transport_events.clear();
-        self.early_stream_journal.clear();
+        // Nothing of a previous connection may leak into this one
+        self.reset_connection_state();
 
         self.establish(now)
     }
-- 
2.43.0


From d579fc9450318f4461882cfd5c9f8fd39a658fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:42 +0000
Subject: [PATCH 46/56] fix: do not send early QUIC data again when the session
 resumes

---
 src/mqtt_client/inflight.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index 245b209..66545cd 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -219,8 +219,15 @@ impl InflightQueue {
     }
 
     /// Get all messages to be re-sent upon reconnection (MQTT 3.1.1 and 5.0 with CleanStart=0)
+    ///
+    /// A packet that is still tied to a logical channel was already sent on the
+    /// current connection (QUIC early data), so it is not part of the resumption.
     pub fn get_all_for_reconnect(&self) -> Vec<MqttPacket> {
-        let mut all = self.entries.values().collect::<Vec<_>>();
+        let mut all = self
+            .entries
+            .values()
+            .filter(|e| e.stream.is_none())
+            .collect::<Vec<_>>();
         // Resend in the original order; `sent_at` moves whenever a packet is retransmitted
         all.sort_by_key(|e| e.seq);
         all.into_iter().map(|e| e.packet.clone()).collect()
-- 
2.43.0


From 196495bc3668bb1209d117f99f5b35d2c96c2890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:24 +0000
Subject: [PATCH 47/56] fix: refuse early QUIC commands after
 disconnect_and_close

---
 src/mqtt_client/engine.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 9290f83..aff4e5f 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1936,7 +1936,10 @@ impl QuicMqttEngine {
     }
 
     fn ensure_command_allowed_before_mqtt_connected(&self) -> Result<(), MqttClientError> {
-        if self.mqtt_engine.is_connected() || self.zero_rtt_status == QuicZeroRttStatus::Attempted {
+        // Early commands may follow neither the end of the attempt nor a close
+        let early = self.zero_rtt_status == QuicZeroRttStatus::Attempted
+            && self.pending_close.is_none();
+        if self.mqtt_engine.is_connected() || early {
             return Ok(());
         }
 
-- 
2.43.0


From 6093a193367a86b57082131b1a22ef9385512d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:02 +0000
Subject: [PATCH 48/56] fix: keep a requested QUIC close across the rejection
 of early data

---
 src/mqtt_client/engine.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index aff4e5f..615193f 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -2424,7 +2424,6 @@ impl QuicMqttEngine {
                                 self.default_pub_stream = None;
                                 self.default_sub_stream = None;
                                 self.control_outgoing.clear();
-                                self.pending_close = None;
                                 self.control_finishing = false;
                                 self.control_finished = false;
 
-- 
2.43.0


From ec25129f372f45a9fde4ec18cae26a8a7d83f686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:15 +0000
Subject: [PATCH 49/56] fix: cancel a scheduled reconnect when auto-reconnect
 is switched off

---
 src/mqtt_client/tokio_async_client.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 09f5e0e..2bc4df8 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -2005,6 +2005,10 @@ impl TokioClientWorker {
             }
             TokioClientCommand::SetAutoReconnect { enabled } => {
                 self.config.auto_reconnect = enabled;
+                if !enabled {
+                    // An attempt may be scheduled already
+                    self.engine.reset_reconnect_state();
+                }
             }
             TokioClientCommand::Auth {
                 reason_code,
-- 
2.43.0


From cea80136e9af61532ddd23eb1de12840a32c5339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:15 +0000
Subject: [PATCH 50/56] fix: let disconnect end a connection the server has not
 accepted yet

---
 src/mqtt_client/tokio_async_client.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 2bc4df8..dcbe105 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -2389,8 +2389,14 @@ impl TokioClientWorker {
 
     /// Handle disconnect command
     async fn handle_disconnect(&mut self) {
+        let connecting =
+            self.stream.is_some() && !self.engine.is_connected() && !self.user_disconnected;
         self.engine.disconnect();
         self.user_disconnected = true;
+        if connecting {
+            // The server has not accepted the connection yet: give it up
+            self.handle_connection_lost().await;
+        }
         self.engine.reset_reconnect_state();
     }
 
-- 
2.43.0


From 72a48637e17fd8358244f0adc70b98beb213c6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:15 +0000
Subject: [PATCH 51/56] fix: connect again while the disconnected connection is
 still open

---
 src/mqtt_client/tokio_async_client.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index dcbe105..9719fbf 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1959,6 +1959,7 @@ impl TokioClientWorker {
     async fn handle_command(&mut self, command: TokioClientCommand) -> bool {
         match command {
             TokioClientCommand::Connect => {
+                self.abandon_disconnected().await;
                 self.handle_connect().await;
             }
             TokioClientCommand::ConnectSync { response_tx } => {
@@ -2208,6 +2209,14 @@ impl TokioClientWorker {
         }
     }
 
+    /// The application wants to connect again: do not wait any longer for the server to
+    /// close the connection it disconnected
+    async fn abandon_disconnected(&mut self) {
+        if self.user_disconnected && self.stream.is_some() {
+            self.handle_connection_lost().await;
+        }
+    }
+
     /// Handle connecting to broker
     async fn handle_connect(&mut self) {
         // Avoid concurrent connect attempts if a socket already exists
@@ -2332,6 +2341,8 @@ impl TokioClientWorker {
             return;
         }
 
+        self.abandon_disconnected().await;
+
         // Store the response channel for when CONNACK arrives
         self.pending_connect.push(response_tx);
 
-- 
2.43.0


From 4c9e0728f85971ad604eeddb8cedb2485cefba1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:15 +0000
Subject: [PATCH 52/56] fix: a connect by the application is not interrupted by
 a scheduled reconnect

---
 src/mqtt_client/tokio_async_client.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 9719fbf..80ec3e9 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -2242,7 +2242,9 @@ impl TokioClientWorker {
                 // Install the transport before enqueuing bytes so the writer branch can flush
                 self.stream = Some(transport);
 
-                // Initiate MQTT CONNECT packet through engine
+                // Initiate MQTT CONNECT packet through engine; an attempt scheduled for
+                // later must not interrupt this one
+                self.engine.reset_for_new_transport();
                 self.engine.connect();
             }
             Err(e) => {
-- 
2.43.0


From b9ad66e856b6dbc10bd98d7e1f59cd0b412c0682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:49 +0000
Subject: [PATCH 53/56] fix: blocking QoS 2 publish releases only what a PUBREC
 accepted

---
 src/mqtt_client/client.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/mqtt_client/client.rs b/src/mqtt_client/client.rs
index 79e99d4..cac96eb 100644
--- a/src/mqtt_client/client.rs
+++ b/src/mqtt_client/client.rs
@@ -652,12 +652,21 @@ impl MqttClient {
 
     fn handle_qos2(&mut self, packet_id: Option<u16>) -> Result<PublishResult, io::Error> {
         let expected_packet_id = packet_id.unwrap();
+        let no_pubrec = || {
+            io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "No PUBREC received from broker",
+            )
+        };
 
         if self.is_v3() {
             // MQTT v3.1.1
-            self.recv_for_packet(|p| {
+            let pubrec = self.recv_for_packet(|p| {
                 matches!(p, MqttPacket::PubRec3(pubrec) if pubrec.message_id == expected_packet_id)
             })?;
+            if pubrec.is_none() {
+                return Err(no_pubrec());
+            }
 
             self.send_packet(pubrelv3::MqttPubRel::new(expected_packet_id))?;
             match self.recv_for_packet(|p| {
@@ -678,9 +687,21 @@ impl MqttClient {
             }
         } else {
             // MQTT v5
-            self.recv_for_packet(|p| {
+            match self.recv_for_packet(|p| {
                 matches!(p, MqttPacket::PubRec5(pubrec) if pubrec.packet_id == expected_packet_id)
-            })?;
+            })? {
+                // An error reason code ends the exchange: there is no PUBREL
+                Some(MqttPacket::PubRec5(pubrec)) if pubrec.reason_code >= 0x80 => {
+                    return Ok(PublishResult {
+                        packet_id: Some(pubrec.packet_id),
+                        reason_code: Some(pubrec.reason_code),
+                        properties: Some(pubrec.properties),
+                        qos: 2,
+                    });
+                }
+                Some(_) => {}
+                None => return Err(no_pubrec()),
+            }
 
             self.send_packet(pubrelv5::MqttPubRel::new(expected_packet_id, 0, vec![]))?;
             match self.recv_for_packet(|p| {
-- 
2.43.0


From 7620ae3e88e3ab61920fa371cd6551772c4a8a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:49 +0000
Subject: [PATCH 54/56] fix: the blocking client's send methods speak the
 configured version

---
 src/mqtt_client/client.rs | 110 +++++++++++++++++++++++++-------------
 1 file changed, 73 insertions(+), 37 deletions(-)

diff --git a/src/mqtt_client/client.rs b/src/mqtt_client/client.rs
index cac96eb..a1b2db4 100644
--- a/src/mqtt_client/client.rs
+++ b/src/mqtt_client/client.rs
@@ -311,6 +311,22 @@ impl MqttClient {
         }
     }
 
+    fn connect_packet_v3(&self) -> connectv3::MqttConnect {
+        let mut connect_packet = connectv3::MqttConnect::new(
+            self.options.client_id.clone(),
+            self.options.keep_alive,
+            self.options.clean_start, // v3 uses clean_session
+        );
+        connect_packet.username = self.options.username.clone();
+        connect_packet.password = self.options.password.clone();
+
+        // Convert v5 Will to v3 Will if present
+        if let Some(will_v5) = &self.options.will {
+            connect_packet.will = Some(Self::convert_will_v5_to_v3(will_v5));
+        }
+        connect_packet
+    }
+
     // methods for unhandled packets
     pub fn unhandled_packets_mut(&mut self) -> &mut Vec<MqttPacket> {
         &mut self.context.unhandled_packets
@@ -349,18 +365,7 @@ impl MqttClient {
             // Create CONNECT packet based on protocol version
             if self.is_v3() {
                 // MQTT v3.1.1
-                let mut connect_packet = connectv3::MqttConnect::new(
-                    self.options.client_id.clone(),
-                    self.options.keep_alive,
-                    self.options.clean_start, // v3 uses clean_session
-                );
-                connect_packet.username = self.options.username.clone();
-                connect_packet.password = self.options.password.clone();
-
-                // Convert v5 Will to v3 Will if present
-                if let Some(will_v5) = &self.options.will {
-                    connect_packet.will = Some(Self::convert_will_v5_to_v3(will_v5));
-                }
+                let connect_packet = self.connect_packet_v3();
 
                 // stream used, now save it
                 let mqtt_stream = MqttStream::new(stream, 16384, self.options.mqtt_version);
@@ -832,6 +837,12 @@ impl MqttClient {
             }
 
             // Send CONNECT packet
+            if self.is_v3() {
+                let connect_packet = self.connect_packet_v3();
+                let mqtt_stream = MqttStream::new(stream, 16384, self.options.mqtt_version);
+                self.context.mqtt_stream = Some(mqtt_stream);
+                return self.send_packet(connect_packet);
+            }
             let connect_packet = connectv5::MqttConnect::new(
                 self.options.client_id.clone(),
                 self.options.username.clone(),
@@ -864,14 +875,24 @@ impl MqttClient {
             };
 
             let packet_id = session.next_packet_id();
-            let subscribe_packet = subscribev5::MqttSubscribe::new(
-                packet_id,
-                vec![subscription],
-                vec![], // Add properties as needed
-            );
 
             // Send SUBSCRIBE packet without waiting for SUBACK
-            self.send_packet(subscribe_packet)?;
+            if self.is_v3() {
+                self.send_packet(subscribev3::MqttSubscribe::new(
+                    packet_id,
+                    vec![subscribev3::SubscriptionTopic {
+                        topic_filter: topic.to_string(),
+                        qos,
+                    }],
+                ))?;
+            } else {
+                let subscribe_packet = subscribev5::MqttSubscribe::new(
+                    packet_id,
+                    vec![subscription],
+                    vec![], // Add properties as needed
+                );
+                self.send_packet(subscribe_packet)?;
+            }
 
             // Update session state - track pending subscription
             self.context
@@ -890,14 +911,20 @@ impl MqttClient {
             let topic_filters: Vec<String> = topics.iter().map(|&s| s.to_string()).collect();
             let packet_id = session.next_packet_id();
 
-            let unsubscribe_packet = unsubscribev5::MqttUnsubscribe::new(
-                packet_id,
-                topic_filters.clone(),
-                vec![], // Add properties as needed
-            );
-
             // Send UNSUBSCRIBE packet without waiting for UNSUBACK
-            self.send_packet(unsubscribe_packet)?;
+            if self.is_v3() {
+                self.send_packet(unsubscribev3::MqttUnsubscribe::new(
+                    packet_id,
+                    topic_filters.clone(),
+                ))?;
+            } else {
+                let unsubscribe_packet = unsubscribev5::MqttUnsubscribe::new(
+                    packet_id,
+                    topic_filters.clone(),
+                    vec![], // Add properties as needed
+                );
+                self.send_packet(unsubscribe_packet)?;
+            }
 
             // Update session state - track pending unsubscription
             self.context
@@ -930,17 +957,27 @@ impl MqttClient {
                 None
             };
 
-            let publish_packet = publishv5::MqttPublish::new(
-                qos,
-                topic.to_string(),
-                packet_id,
-                payload.to_vec(),
-                retain,
-                false,
-            );
-
             // Send PUBLISH packet without waiting for acknowledgment
-            self.send_packet(publish_packet)?;
+            if self.is_v3() {
+                self.send_packet(publishv3::MqttPublish::new(
+                    topic.to_string(),
+                    qos,
+                    payload.to_vec(),
+                    packet_id,
+                    retain,
+                    false,
+                ))?;
+            } else {
+                let publish_packet = publishv5::MqttPublish::new(
+                    qos,
+                    topic.to_string(),
+                    packet_id,
+                    payload.to_vec(),
+                    retain,
+                    false,
+                );
+                self.send_packet(publish_packet)?;
+            }
 
             // For QoS 1/2, track the packet_id in session state for retransmission
             if let Some(pid) = packet_id {
@@ -963,8 +1000,7 @@ impl MqttClient {
 
     /// Send DISCONNECT packet without waiting (DISCONNECT has no response)
     pub fn disconnect_send(&mut self) -> io::Result<()> {
-        let disconnect_packet = disconnectv5::MqttDisconnect::new(0, vec![]); // reason code 0, no properties
-        self.send_packet(disconnect_packet)
+        self.disconnected(0) // reason code 0, no properties
     }
 
     // Session state management methods
-- 
2.43.0


From cfa71698fc5987a0ace0c5e00c771f648d138c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:49 +0000
Subject: [PATCH 55/56] fix: the blocking client's CONNECT carries the
 configured properties

---
 src/mqtt_client/client.rs |  4 ++--
 src/mqtt_client/engine.rs | 21 +--------------------
 src/mqtt_client/opts.rs   | 19 +++++++++++++++++++
 3 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/mqtt_client/client.rs b/src/mqtt_client/client.rs
index a1b2db4..73774de 100644
--- a/src/mqtt_client/client.rs
+++ b/src/mqtt_client/client.rs
@@ -411,7 +411,7 @@ impl MqttClient {
                     self.options.will.clone(),
                     self.options.keep_alive,
                     self.options.clean_start,
-                    vec![], // Add properties as needed
+                    self.options.connect_properties(),
                 );
 
                 // stream used, now save it
@@ -850,7 +850,7 @@ impl MqttClient {
                 self.options.will.clone(),
                 self.options.keep_alive,
                 self.options.clean_start,
-                vec![], // Add properties as needed
+                self.options.connect_properties(),
             );
 
             // Stream used, now save it
diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 615193f..f3f8152 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -596,7 +596,7 @@ impl MqttEngine {
                 self.options.will.clone(),
                 self.options.keep_alive,
                 self.options.clean_start,
-                self.connect_properties(),
+                self.options.connect_properties(),
             );
             MqttPacket::Connect5(connect)
         } else {
@@ -627,25 +627,6 @@ impl MqttEngine {
         }
     }
 
-    /// CONNECT properties configured in the options.
-    fn connect_properties(&self) -> Vec<Property> {
-        let options = &self.options;
-        let mut properties = Vec::new();
-        if let Some(interval) = options.session_expiry_interval {
-            properties.push(Property::SessionExpiryInterval(interval));
-        }
-        if let Some(size) = options.maximum_packet_size.filter(|size| *size > 0) {
-            properties.push(Property::MaximumPacketSize(size));
-        }
-        if let Some(request) = options.request_response_information {
-            properties.push(Property::RequestResponseInformation(request as u8));
-        }
-        if let Some(request) = options.request_problem_information {
-            properties.push(Property::RequestProblemInformation(request as u8));
-        }
-        properties
-    }
-
     /// Queue a PUBLISH packet.
     ///
     /// - **QoS 0**: ID is usually None (unless needed for tracing).
diff --git a/src/mqtt_client/opts.rs b/src/mqtt_client/opts.rs
index d7ef621..8907645 100644
--- a/src/mqtt_client/opts.rs
+++ b/src/mqtt_client/opts.rs
@@ -1,5 +1,6 @@
 // SPDX-License-Identifier: MPL-2.0
 
+use crate::mqtt_serde::mqttv5::common::properties::Property;
 use crate::mqtt_serde::mqttv5::subscribev5;
 use crate::mqtt_serde::mqttv5::willv5::Will;
 
@@ -188,6 +189,24 @@ impl MqttClientOptions {
         self
     }
 
+    /// CONNECT properties configured in the options.
+    pub(crate) fn connect_properties(&self) -> Vec<Property> {
+        let mut properties = Vec::new();
+        if let Some(interval) = self.session_expiry_interval {
+            properties.push(Property::SessionExpiryInterval(interval));
+        }
+        if let Some(size) = self.maximum_packet_size.filter(|size| *size > 0) {
+            properties.push(Property::MaximumPacketSize(size));
+        }
+        if let Some(request) = self.request_response_information {
+            properties.push(Property::RequestResponseInformation(request as u8));
+        }
+        if let Some(request) = self.request_problem_information {
+            properties.push(Property::RequestProblemInformation(request as u8));
+        }
+        properties
+    }
+
     /// Set the broker peer address (host:port)
     pub fn peer(mut self, peer: impl Into<String>) -> Self {
         self.peer = peer.into();
-- 
2.43.0


From 8d4bb9c6738751e8038edff85560d96123935dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:49 +0000
Subject: [PATCH 56/56] fix: the blocking client does not reuse the identifier
 of a pending request

---
 src/mqtt_client/client.rs | 43 ++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/mqtt_client/client.rs b/src/mqtt_client/client.rs
index 73774de..ffcd840 100644
--- a/src/mqtt_client/client.rs
+++ b/src/mqtt_client/client.rs
@@ -311,6 +311,25 @@ impl MqttClient {
         }
     }
 
+    /// The next packet identifier that no request still pending holds.
+    fn next_packet_id(&mut self) -> io::Result<u16> {
+        let context = &mut self.context;
+        let session = context
+            .session
+            .as_mut()
+            .ok_or_else(|| io::Error::other("No active session"))?;
+        for _ in 0..u16::MAX {
+            let id = session.next_packet_id();
+            if !context.pending_subscribes.contains_key(&id)
+                && !context.pending_unsubscribes.contains_key(&id)
+                && !context.pending_publishes.contains_key(&id)
+            {
+                return Ok(id);
+            }
+        }
+        Err(io::Error::other("No packet identifier available"))
+    }
+
     fn connect_packet_v3(&self) -> connectv3::MqttConnect {
         let mut connect_packet = connectv3::MqttConnect::new(
             self.options.client_id.clone(),
@@ -460,8 +479,8 @@ impl MqttClient {
 
     // Subscribe to a topic and wait for SUBACK
     pub fn subscribed(&mut self, topic: &str, qos: u8) -> io::Result<SubscribeResult> {
-        if let Some(session) = &mut self.context.session {
-            let packet_id = session.next_packet_id();
+        if self.context.session.is_some() {
+            let packet_id = self.next_packet_id()?;
 
             if self.is_v3() {
                 // MQTT v3.1.1
@@ -532,9 +551,9 @@ impl MqttClient {
 
     // Unsubscribe from topics and wait for UNSUBACK
     pub fn unsubscribed(&mut self, topics: Vec<&str>) -> io::Result<UnsubscribeResult> {
-        if let Some(session) = &mut self.context.session {
+        if self.context.session.is_some() {
             let topic_filters: Vec<String> = topics.iter().map(|&s| s.to_string()).collect();
-            let packet_id = session.next_packet_id();
+            let packet_id = self.next_packet_id()?;
 
             if self.is_v3() {
                 // MQTT v3.1.1
@@ -605,9 +624,9 @@ impl MqttClient {
         qos: u8,
         retain: bool,
     ) -> io::Result<PublishResult> {
-        if let Some(session) = &mut self.context.session {
+        if self.context.session.is_some() {
             let packet_id = if qos > 0 {
-                Some(session.next_packet_id())
+                Some(self.next_packet_id()?)
             } else {
                 None
             };
@@ -865,7 +884,7 @@ impl MqttClient {
 
     /// Send SUBSCRIBE packet without waiting for SUBACK
     pub fn subscribe_send(&mut self, topic: &str, qos: u8) -> io::Result<u16> {
-        if let Some(session) = &mut self.context.session {
+        if self.context.session.is_some() {
             let subscription = subscribev5::TopicSubscription {
                 topic_filter: topic.to_string(),
                 qos,
@@ -874,7 +893,7 @@ impl MqttClient {
                 retain_handling: 0,
             };
 
-            let packet_id = session.next_packet_id();
+            let packet_id = self.next_packet_id()?;
 
             // Send SUBSCRIBE packet without waiting for SUBACK
             if self.is_v3() {
@@ -907,9 +926,9 @@ impl MqttClient {
 
     /// Send UNSUBSCRIBE packet without waiting for UNSUBACK
     pub fn unsubscribe_send(&mut self, topics: Vec<&str>) -> io::Result<u16> {
-        if let Some(session) = &mut self.context.session {
+        if self.context.session.is_some() {
             let topic_filters: Vec<String> = topics.iter().map(|&s| s.to_string()).collect();
-            let packet_id = session.next_packet_id();
+            let packet_id = self.next_packet_id()?;
 
             // Send UNSUBSCRIBE packet without waiting for UNSUBACK
             if self.is_v3() {
@@ -950,9 +969,9 @@ impl MqttClient {
         qos: u8,
         retain: bool,
     ) -> io::Result<Option<u16>> {
-        if let Some(session) = &mut self.context.session {
+        if self.context.session.is_some() {
             let packet_id = if qos > 0 {
-                Some(session.next_packet_id())
+                Some(self.next_packet_id()?)
             } else {
                 None
             };
-- 
2.43.0

