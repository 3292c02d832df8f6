From a6466e8103b2f2585d00398ba6714b471ce8162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:00 +0000
Subject: [PATCH 01/23] fix: write packets completely

AsyncWrite::write may accept only part of the buffer; the rest of the packet was dropped.
---
 src/handler.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 5088d23..c0ec408 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -82,8 +82,8 @@ where
                                 // The Server MUST process a second CONNECT Packet sent from a Client as a protocol violation and disconnect the Client
                                 let resp = Packet::make_connack(ConnectReturnCode::V4UnacceptableProtocal,false);
 
-                                let len = writer.write(&resp).await?;
-                                debug!("Wrote {} bytes", len);
+                                writer.write_all(&resp).await?;
+                                debug!("Wrote {} bytes", resp.len());
 
                                 break 'ctrl;
                             }
@@ -113,8 +113,8 @@ where
 
                           let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);
 
-                          let len = writer.write(&resp).await?;
-                          debug!("Wrote {} bytes", len);
+                          writer.write_all(&resp).await?;
+                          debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Subscribe { packet_id, tuples,.. } => {
                             let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
@@ -137,8 +137,8 @@ where
 
                             let resp = Packet::make_suback(packet_id, codes);
 
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            writer.write_all(&resp).await?;
+                            debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Unsubscribe { packet_id, tuples, .. } => {
                             let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
@@ -161,8 +161,8 @@ where
                             r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
 
                             let resp = Packet::make_unsuback(packet_id);
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            writer.write_all(&resp).await?;
+                            debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
                             message_bridge
@@ -188,26 +188,26 @@ where
                             };
 
                             if let Some(resp) = data {
-                                let len = writer.write(&resp).await?;
-                                debug!("Wrote {} bytes", len);
+                                writer.write_all(&resp).await?;
+                                debug!("Wrote {} bytes", resp.len());
                             }
                         }
                         VariableHeader::PubRec { packet_id, .. } => {
                             let resp = Packet::make_pubrel(packet_id);
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            writer.write_all(&resp).await?;
+                            debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::PubRel { packet_id, .. } => {
                             let resp = Packet::make_pubcomp(packet_id);
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            writer.write_all(&resp).await?;
+                            debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::PubComp { packet_id: _, ..} | VariableHeader::PubAck { packet_id: _, .. } => {}
                         VariableHeader::PingReq => {
                             keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
                             let resp = Packet::make_ping_resp();
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            writer.write_all(&resp).await?;
+                            debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Disconnect { .. } => {
                             debug!("Disconnect Called");
@@ -232,8 +232,8 @@ where
                 if let Some(ev) = event {
                     match ev {
                         ClientEvent::Message(msg) => {
-                            let len = writer.write(&msg).await?;
-                            debug!("Wrote {} bytes",len);
+                            writer.write_all(&msg).await?;
+                            debug!("Wrote {} bytes", msg.len());
                         },
                         ClientEvent::Disconnect => break 'ctrl,
                     }
-- 
2.43.0


From 155842b3075df976e888a047dd562e185e1ebd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:42 +0000
Subject: [PATCH 02/23] fix: deliver at min(publish QoS, subscription QoS),
 with packet ids

Messages went out at the QoS of the subscription whatever they were published
at, and at QoS 1 and 2 without the packet id the protocol requires.
---
 src/core/enums.rs |  7 ++++++-
 src/core/mod.rs   | 16 ++++++++--------
 src/handler.rs    | 30 ++++++++++++++++++++++++++----
 src/main.rs       |  6 +++++-
 4 files changed, 45 insertions(+), 14 deletions(-)

diff --git a/src/core/enums.rs b/src/core/enums.rs
index fe5da56..3d11459 100644
--- a/src/core/enums.rs
+++ b/src/core/enums.rs
@@ -26,6 +26,7 @@ pub enum Command {
     Publish {
         topic: String,
         payload: Bytes,
+        qos: QosLevel,
     },
     Unsubscribe {
         topics: Vec<String>,
@@ -38,7 +39,11 @@ pub enum Command {
 
 #[derive(Debug)]
 pub enum ClientEvent {
-    Message(Bytes),
+    Message {
+        topic: String,
+        payload: Bytes,
+        qos: QosLevel,
+    },
     Disconnect,
 }
 #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
diff --git a/src/core/mod.rs b/src/core/mod.rs
index 61f2080..4259d87 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -6,10 +6,7 @@ use tokio::sync::mpsc::Sender;
 
 use crate::{
     error::MqttError,
-    packets::{
-        enums::{QosLevel, SubackReturnCode},
-        Packet,
-    },
+    packets::enums::{QosLevel, SubackReturnCode},
     topic_heir::{SubscriptionLeaf, SubscriptionTree},
 };
 
@@ -135,7 +132,7 @@ impl App {
         self.sessions.remove(&cid);
     }
 
-    pub async fn publish(&self, topic: String, payload: Bytes) {
+    pub async fn publish(&self, topic: String, payload: Bytes, publish_qos: QosLevel) {
         let subs = match self.subscriptions.get(topic.clone()) {
             Ok(subs) => subs,
             Err(_) => {
@@ -144,9 +141,12 @@ impl App {
         };
 
         for (_, bridge, qos) in subs {
-            let packet =
-                Packet::make_publish(false, qos, false, topic.clone(), None, payload.clone());
-            if let Err(e) = bridge.send(ClientEvent::Message(packet)).await {
+            let message = ClientEvent::Message {
+                topic: topic.clone(),
+                payload: payload.clone(),
+                qos: qos.min(publish_qos),
+            };
+            if let Err(e) = bridge.send(message).await {
                 log::error!("receiver dropped: {}", e);
             }
         }
diff --git a/src/handler.rs b/src/handler.rs
index c0ec408..ee0398e 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -1,4 +1,4 @@
-use std::time::Duration;
+use std::{collections::HashSet, time::Duration};
 
 use log::{debug, error};
 use tokio::{
@@ -21,6 +21,16 @@ use crate::{
     },
 };
 
+/// Take the next packet id that is not in flight. There must be one.
+fn next_packet_id(last: &mut u16, in_flight: &mut HashSet<u16>) -> u16 {
+    loop {
+        *last = last.checked_add(1).unwrap_or(1);
+        if in_flight.insert(*last) {
+            return *last;
+        }
+    }
+}
+
 pub async fn client_handler<R, W>(
     read_stream: R,
     mut writer: W,
@@ -40,6 +50,9 @@ where
     let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
     let mut reader = tokio::io::BufReader::new(read_stream);
     let (tx, mut rx) = channel::<ClientEvent>(100);
+    // packet ids of sent messages that the client has not acknowledged
+    let mut in_flight = HashSet::new();
+    let mut last_packet_id = 0;
 
     tokio::pin!(keepalive_timer);
 
@@ -169,6 +182,7 @@ where
                             .send(Command::Publish {
                                 topic,
                                 payload,
+                                qos: packet.fixed.get_qos()?,
                             })
                             .await
                             .map_err(MqttError::ChannelError)?;
@@ -202,7 +216,9 @@ where
                             writer.write_all(&resp).await?;
                             debug!("Wrote {} bytes", resp.len());
                         },
-                        VariableHeader::PubComp { packet_id: _, ..} | VariableHeader::PubAck { packet_id: _, .. } => {}
+                        VariableHeader::PubComp { packet_id, ..} | VariableHeader::PubAck { packet_id, .. } => {
+                            in_flight.remove(&packet_id);
+                        }
                         VariableHeader::PingReq => {
                             keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
                             let resp = Packet::make_ping_resp();
@@ -228,10 +244,16 @@ where
                         }
                     }
             }
-            event = rx.recv() => {
+            event = rx.recv(), if in_flight.len() < usize::from(u16::MAX) => {
                 if let Some(ev) = event {
                     match ev {
-                        ClientEvent::Message(msg) => {
+                        ClientEvent::Message { topic, payload, qos } => {
+                            let packet_id = if qos > QosLevel::AtMost {
+                                Some(next_packet_id(&mut last_packet_id, &mut in_flight))
+                            } else {
+                                None
+                            };
+                            let msg = Packet::make_publish(false, qos, false, topic, packet_id, payload);
                             writer.write_all(&msg).await?;
                             debug!("Wrote {} bytes", msg.len());
                         },
diff --git a/src/main.rs b/src/main.rs
index 7325fdb..ec95ab9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -73,7 +73,11 @@ async fn main() -> Result<(), MqttError> {
                     callback,
                 } => context.subscribe(client, topics, callback),
 
-                Command::Publish { topic, payload } => context.publish(topic, payload).await,
+                Command::Publish {
+                    topic,
+                    payload,
+                    qos,
+                } => context.publish(topic, payload, qos).await,
                 Command::Unsubscribe {
                     topics,
                     cid,
-- 
2.43.0


From 85ea272ea813c2ec7689898c68322cc3c36cec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:18 +0000
Subject: [PATCH 03/23] fix: read whole packets from the stream

A packet was parsed from whatever one read returned: one that came in several
segments, or did not fit the 8 KiB buffer, was cut short or refused. The end of
the stream was polled again for ever.
---
 src/handler.rs     | 46 ++++++++++++++++++++++++++++++++--------------
 src/packets/mod.rs |  8 ++++++++
 2 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index ee0398e..ac2c267 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -1,8 +1,9 @@
 use std::{collections::HashSet, time::Duration};
 
+use bytes::{Bytes, BytesMut};
 use log::{debug, error};
 use tokio::{
-    io::{AsyncBufReadExt, AsyncRead, AsyncWrite, AsyncWriteExt},
+    io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt},
     select,
     sync::mpsc::{channel, Sender},
     time::Instant,
@@ -31,8 +32,26 @@ fn next_packet_id(last: &mut u16, in_flight: &mut HashSet<u16>) -> u16 {
     }
 }
 
+/// Read the next whole packet, or `None` at the end of the stream.
+/// Bytes of a packet that is not complete yet stay in `buffer`, so this can be cancelled at any time.
+async fn read_frame<R>(stream: &mut R, buffer: &mut BytesMut) -> Result<Option<Bytes>, MqttError>
+where
+    R: AsyncRead + Unpin,
+{
+    loop {
+        if let Some(len) = Packet::frame_len(buffer)? {
+            if buffer.len() >= len {
+                return Ok(Some(buffer.split_to(len).freeze()));
+            }
+        }
+        if stream.read_buf(buffer).await? == 0 {
+            return Ok(None);
+        }
+    }
+}
+
 pub async fn client_handler<R, W>(
-    read_stream: R,
+    mut read_stream: R,
     mut writer: W,
     message_bridge: Sender<Command>,
     cancellation: CancellationToken,
@@ -48,7 +67,7 @@ where
     let mut protocol = ProtocalVersion::Unknown;
     let mut cid = None;
     let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
-    let mut reader = tokio::io::BufReader::new(read_stream);
+    let mut buffer = BytesMut::with_capacity(8 * 1024);
     let (tx, mut rx) = channel::<ClientEvent>(100);
     // packet ids of sent messages that the client has not acknowledged
     let mut in_flight = HashSet::new();
@@ -64,26 +83,25 @@ where
             () = &mut keepalive_timer => {
                 break 'ctrl;
             }
-            buffer = reader.fill_buf() => {
-                let packet = match buffer {
-                    Ok(bytes) => {
-                        let len = bytes.len();
-                        if len == 0 {
-                            continue;
-                        }
-                        let (packet, packet_size) = Packet::unpack(bytes, protocol)?;
+            frame = read_frame(&mut read_stream, &mut buffer) => {
+                let packet = match frame {
+                    Ok(Some(bytes)) => {
+                        let (packet, packet_size) = Packet::unpack(&bytes, protocol)?;
                         broker_info::sent_data(packet_size);
 
-                        reader.consume(packet_size);
                         packet
                     }
-                    Err(ref e) if e.kind() == std::io::ErrorKind::ConnectionReset || e.kind() == std::io::ErrorKind::ConnectionReset => {
+                    Ok(None) => {
+                        debug!("Connection closed by client");
+                        break 'ctrl;
+                    }
+                    Err(MqttError::Io(ref e)) if e.kind() == std::io::ErrorKind::ConnectionReset || e.kind() == std::io::ErrorKind::ConnectionReset => {
                         debug!("Connection lost");
                         break 'ctrl;
                     }
                     Err(err) => {
                         error!("{}",err);
-                        return Err(MqttError::Io(err));
+                        return Err(err);
                     }
                 };
 
diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 4edc732..7cc7d8c 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -814,6 +814,14 @@ impl Packet {
 
         buffer.freeze()
     }
+    /// Size of the packet that starts `bytes`, or `None` while its fixed header is incomplete.
+    pub fn frame_len(bytes: &[u8]) -> Result<Option<usize>, MqttError> {
+        match FixedHeader::from_bytes(&mut bytes.iter(), None) {
+            Ok(fixed) => Ok(Some(fixed.get_remaing_len() + fixed.get_rl_len() + 1)),
+            Err(MqttError::RequiredByteMissing(_)) => Ok(None),
+            Err(err) => Err(err),
+        }
+    }
     pub fn unpack(bytes: &[u8], protocal: ProtocalVersion) -> Result<(Self, usize), MqttError> {
         let mut iter = bytes.iter();
 
-- 
2.43.0


From bbfdd4b0d70b7ee9fc2fc5380bbcff5851009980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:49 +0000
Subject: [PATCH 04/23] fix: encode four byte lengths after the header byte

encode_length limited the size of the whole buffer, which already holds the first
header byte, so lengths of 2 MiB and more lost their last byte.
---
 src/packets/utils.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index b6e5fb4..12860a4 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -133,11 +133,7 @@ where
 
 pub fn encode_length(len: usize, bytes: &mut BytesMut) {
     let mut mlen = len;
-    loop {
-        if bytes.len() + 1 > MAX_ENCODED_BYTES {
-            return;
-        }
-
+    for _ in 0..MAX_ENCODED_BYTES {
         let mut d = mlen % 128;
         mlen /= 128;
 
-- 
2.43.0


From 735d06ffe750f77a9d19056e988029f0c20eca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:36 +0000
Subject: [PATCH 05/23] fix: match '+' branches against the whole rest of the
 topic

The literal and the '+' branch of a level shared one iterator, so the second one
went on where the first had left it.
---
 src/topic_heir.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index dca804c..5f07f86 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -114,15 +114,15 @@ impl SubHier {
         self.children.is_empty() && self.shared.is_empty() && self.subs.is_empty()
     }
 
-    pub fn get(
+    pub fn get<'a>(
         &self,
-        iter: &mut impl std::iter::Iterator<Item = String>,
+        mut iter: impl std::iter::Iterator<Item = &'a String> + Clone,
         subscribers: &mut Vec<(u128, Sender<ClientEvent>, QosLevel)>,
         share: &Option<String>,
     ) {
         if let Some(topic) = iter.next() {
-            if let Some(child) = self.children.get(&topic) {
-                child.get(iter, subscribers, share);
+            if let Some(child) = self.children.get(topic) {
+                child.get(iter.clone(), subscribers, share);
             }
 
             if let Some(child) = self.children.get("+") {
@@ -208,15 +208,15 @@ impl SubscriptionTree {
         let mut subscribers = Vec::new();
         let (filter_list, sharename) = utils::tokenise_topic(filter)?;
 
-        let mut iter = filter_list.into_iter();
+        let mut iter = filter_list.iter();
 
         if let Some(topic) = iter.next() {
-            if let Some(child) = self.0.get(&topic) {
-                child.get(&mut iter, &mut subscribers, &sharename);
+            if let Some(child) = self.0.get(topic) {
+                child.get(iter.clone(), &mut subscribers, &sharename);
             }
             // single level '+' match
             if let Some(child) = self.0.get("+") {
-                child.get(&mut iter, &mut subscribers, &sharename);
+                child.get(iter, &mut subscribers, &sharename);
             }
         }
 
-- 
2.43.0


From 7528166ba39fdf761665f4e32800302e6d47efb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:38 +0000
Subject: [PATCH 06/23] fix: keep leading wildcards from matching topics
 starting with '$'

---
 src/topic_heir.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index 5f07f86..76e4df2 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -214,6 +214,10 @@ impl SubscriptionTree {
             if let Some(child) = self.0.get(topic) {
                 child.get(iter.clone(), &mut subscribers, &sharename);
             }
+            // topics starting with '$' are not matched by a leading wildcard
+            if topic.starts_with('$') {
+                return Ok(subscribers);
+            }
             // single level '+' match
             if let Some(child) = self.0.get("+") {
                 child.get(iter, &mut subscribers, &sharename);
-- 
2.43.0


From 17e7d6ec9a7b6cb02becc6af4a09be0881000445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:55 +0000
Subject: [PATCH 07/23] fix: deliver at the highest QoS of overlapping
 subscriptions

The QoS of whichever matching subscription was found first was used.
---
 src/topic_heir.rs | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index 76e4df2..77fdf65 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -33,6 +33,17 @@ impl SubscriptionLeaf {
     }
 }
 
+/// Add a subscriber to the result, at the highest QoS of its matching subscriptions
+fn add_subscriber(
+    subscribers: &mut Vec<(u128, Sender<ClientEvent>, QosLevel)>,
+    sub: &SubscriptionLeaf,
+) {
+    match subscribers.iter_mut().find(|e| e.0 == sub.identifier) {
+        Some(subscriber) => subscriber.2 = subscriber.2.max(sub.qos),
+        None => subscribers.push((sub.identifier, sub.bridge.clone(), sub.qos)),
+    }
+}
+
 #[derive(Debug)]
 struct SubHier {
     children: DashMap<String, SubHier>,
@@ -131,16 +142,12 @@ impl SubHier {
         } else if let Some(share) = share {
             if let Some(s) = self.shared.get(share) {
                 for x in s.iter() {
-                    if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                        subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                    }
+                    add_subscriber(subscribers, x);
                 }
             }
         } else {
             for x in &self.subs {
-                if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                    subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                }
+                add_subscriber(subscribers, x);
             }
         }
 
@@ -148,16 +155,12 @@ impl SubHier {
             if let Some(share) = share {
                 if let Some(s) = child.shared.get(share) {
                     for x in s.iter() {
-                        if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                            subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                        }
+                        add_subscriber(subscribers, x);
                     }
                 }
             } else {
                 for x in &child.subs {
-                    if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                        subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                    }
+                    add_subscriber(subscribers, x);
                 }
             }
         }
@@ -229,16 +232,12 @@ impl SubscriptionTree {
             if let Some(share) = sharename {
                 if let Some(s) = child.shared.get(&share) {
                     for x in s.iter() {
-                        if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                            subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                        }
+                        add_subscriber(&mut subscribers, x);
                     }
                 }
             } else {
                 for x in &child.subs {
-                    if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                        subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                    }
+                    add_subscriber(&mut subscribers, x);
                 }
             }
         }
-- 
2.43.0


From 1e1c9012d7a44e4a142795f3e3d63c42e38dbd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 08/23] fix: enforce the CONNECT handshake

Requests were served before CONNECT, a second CONNECT was answered with another
CONNACK, and connections refused for their protocol level or client identifier
were closed without the CONNACK that says so.
---
 src/handler.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index ac2c267..924320a 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -86,7 +86,20 @@ where
             frame = read_frame(&mut read_stream, &mut buffer) => {
                 let packet = match frame {
                     Ok(Some(bytes)) => {
-                        let (packet, packet_size) = Packet::unpack(&bytes, protocol)?;
+                        let (packet, packet_size) = match Packet::unpack(&bytes, protocol) {
+                            Ok(unpacked) => unpacked,
+                            Err(err) => {
+                                let code = match err {
+                                    MqttError::UnacceptableProtocolLevel => Some(ConnectReturnCode::V4UnacceptableProtocal),
+                                    MqttError::ClientIdentifierRejected => Some(ConnectReturnCode::V4IdentifierRejected),
+                                    _ => None,
+                                };
+                                if let (false, Some(code)) = (has_connected, code) {
+                                    writer.write_all(&Packet::make_connack(code, false)).await?;
+                                }
+                                return Err(err);
+                            }
+                        };
                         broker_info::sent_data(packet_size);
 
                         packet
@@ -105,17 +118,17 @@ where
                     }
                 };
 
+                // After a Network Connection is established the first Packet sent MUST be a CONNECT Packet
+                if !has_connected && !matches!(packet.variable, VariableHeader::Connect { .. }) {
+                    return Err(MqttError::ProtocolViolation);
+                }
+
                 match packet.variable {
                         VariableHeader::Connect { flags, keepalive, client_id, protocol_version, .. } => {
                             if has_connected {
                                 debug!("Seen connect packet two times!");
                                 //  Client can only send the CONNECT Packet once over a Network Connection.
                                 // The Server MUST process a second CONNECT Packet sent from a Client as a protocol violation and disconnect the Client
-                                let resp = Packet::make_connack(ConnectReturnCode::V4UnacceptableProtocal,false);
-
-                                writer.write_all(&resp).await?;
-                                debug!("Wrote {} bytes", resp.len());
-
                                 break 'ctrl;
                             }
 
-- 
2.43.0


From 40664c1d8aba00297505d69787f99d8ba385a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:53 +0000
Subject: [PATCH 09/23] fix: decode a packet within its own bounds

Length fields were not checked against the packet: short ones were read as shorter
strings, long ones reached into the next packet, and the subtraction of lengths
could overflow. Bytes left over at the end of a packet were ignored.
---
 src/packets/mod.rs   | 14 +++++++++++---
 src/packets/utils.rs | 10 +++++++++-
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 7cc7d8c..1e85e3e 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -613,10 +613,8 @@ impl VariableHeader {
                 len -= size_of::<u16>();
 
                 while len > 0 {
-                    len -= size_of::<u16>();
-
                     let topic = unpack_string(iter)?;
-                    len -= topic.len();
+                    len -= topic.len() + size_of::<u16>();
 
                     tuples.push(topic);
                 }
@@ -829,7 +827,17 @@ impl Packet {
 
         let len = fixed.get_remaing_len() + fixed.get_rl_len() + 1;
 
+        // nothing may be read beyond the end of the packet
+        let mut iter = iter
+            .as_slice()
+            .get(..fixed.get_remaing_len())
+            .ok_or(MqttError::MissingByte)?
+            .iter();
+
         let variable = VariableHeader::unpack(&mut iter, &fixed, protocal)?;
+        if iter.next().is_some() {
+            return Err(MqttError::MalformedHeader);
+        }
         Ok((Self { fixed, variable }, len))
     }
 }
diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index 12860a4..d22a40d 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -83,7 +83,12 @@ pub fn unpack_bytes<'a, I>(iter: &mut I, len: usize) -> Result<bytes::Bytes, Mqt
 where
     I: Iterator<Item = &'a u8>,
 {
-    Ok(Bytes::from_iter(iter.take(len).copied()))
+    let bytes = Bytes::from_iter(iter.take(len).copied());
+    if bytes.len() < len {
+        return Err(MqttError::MissingByte);
+    }
+
+    Ok(bytes)
 }
 
 pub fn unpack_string_with_len<'a, I>(iter: &mut I, len: usize) -> Result<String, MqttError>
@@ -95,6 +100,9 @@ where
     }
 
     let chars: Vec<u8> = iter.take(len).copied().collect();
+    if chars.len() < len {
+        return Err(MqttError::MissingByte);
+    }
 
     let result = String::from_utf8(chars).map_err(MqttError::MalformedString)?;
 
-- 
2.43.0


From 885e2dfb771733e40442013bf26cbae6006d027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:48 +0000
Subject: [PATCH 10/23] fix: refuse packets with invalid flags, packet id 0 or
 U+0000

Reserved bits of the fixed header and of the CONNECT flags, contradicting CONNECT
flags, requests with packet id 0, UNSUBSCRIBE without filters and strings with
U+0000 were accepted.
---
 src/packets/headers/connect.rs      |  4 ++++
 src/packets/headers/fixed_header.rs | 15 +++++++++++++++
 src/packets/mod.rs                  | 18 +++++++++++-------
 src/packets/utils.rs                | 15 +++++++++++++++
 4 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/src/packets/headers/connect.rs b/src/packets/headers/connect.rs
index ac94af9..5a47a76 100644
--- a/src/packets/headers/connect.rs
+++ b/src/packets/headers/connect.rs
@@ -29,8 +29,12 @@ impl Flags {
         Self(bit)
     }
 
+    /// Returns true if the flags are not a valid combination
     pub fn validate_flags(&self) -> bool {
         self.0 & 0x1 == 1
+            || self.will_qos().is_err()
+            || (!self.will() && (self.will_retain() || self.0 & 0x18 != 0))
+            || (!self.has_username() && self.has_password())
     }
 
     /// #### Clean Start or Clean Session
diff --git a/src/packets/headers/fixed_header.rs b/src/packets/headers/fixed_header.rs
index 50fa549..c8444ec 100644
--- a/src/packets/headers/fixed_header.rs
+++ b/src/packets/headers/fixed_header.rs
@@ -141,6 +141,21 @@ impl FixedHeader {
     pub fn get_retain(&self) -> bool {
         self.flags & 0x01 == 1
     }
+    /// Check the flags against the packet type, they are fixed for all but PUBLISH.
+    pub fn validate_flags(&self) -> Result<(), MqttError> {
+        let valid = match self.get_packet_type()? {
+            PacketType::Publish => self.get_qos().is_ok(),
+            PacketType::Pubrel | PacketType::Subscribe | PacketType::Unsubscribe => {
+                self.flags & 0x0F == 0x02
+            }
+            _ => self.flags & 0x0F == 0,
+        };
+        if !valid {
+            return Err(MqttError::MalformedHeader);
+        }
+
+        Ok(())
+    }
     pub fn get_remaing_len(&self) -> usize {
         self.remaining_len
     }
diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 1e85e3e..4fe1e68 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -11,7 +11,9 @@ use crate::{
 use self::{
     enums::{ConnectReturnCode, QosLevel, SubackReturnCode},
     headers::{connack::AcknowledgeFlags, connect::Flags},
-    utils::{encode_length, unpack_bytes, unpack_properties, unpack_string, unpack_u16},
+    utils::{
+        encode_length, unpack_bytes, unpack_packet_id, unpack_properties, unpack_string, unpack_u16,
+    },
 };
 
 #[repr(u8)]
@@ -482,7 +484,7 @@ impl VariableHeader {
                 let mut len = fixed.get_remaing_len();
 
                 let packet_id = if fixed.get_qos()? > QosLevel::AtMost {
-                    let id = Some(unpack_u16(iter)?);
+                    let id = Some(unpack_packet_id(iter)?);
                     len -= size_of::<u16>();
                     id
                 } else {
@@ -543,14 +545,11 @@ impl VariableHeader {
                 })
             }
             PacketType::Subscribe => {
-                if !fixed.get_dup() && fixed.get_qos()? != QosLevel::AtLeast && fixed.get_retain() {
-                    return Err(MqttError::MalformedHeader);
-                }
                 let mut len = fixed.get_remaing_len();
 
                 // # Variable header
 
-                let packet_id = unpack_u16(iter)?;
+                let packet_id = unpack_packet_id(iter)?;
                 len -= size_of::<u16>();
 
                 // # Payload
@@ -609,7 +608,7 @@ impl VariableHeader {
             PacketType::Unsubscribe => {
                 let mut len = fixed.get_remaing_len();
                 let mut tuples = Vec::<String>::new();
-                let packet_id = unpack_u16(iter)?;
+                let packet_id = unpack_packet_id(iter)?;
                 len -= size_of::<u16>();
 
                 while len > 0 {
@@ -619,6 +618,10 @@ impl VariableHeader {
                     tuples.push(topic);
                 }
 
+                if tuples.is_empty() {
+                    return Err(MqttError::ProtocolViolation);
+                }
+
                 Ok(Self::Unsubscribe {
                     packet_id,
                     tuples,
@@ -824,6 +827,7 @@ impl Packet {
         let mut iter = bytes.iter();
 
         let fixed = FixedHeader::from_bytes(&mut iter, None)?;
+        fixed.validate_flags()?;
 
         let len = fixed.get_remaing_len() + fixed.get_rl_len() + 1;
 
diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index d22a40d..e82d03c 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -33,6 +33,17 @@ where
     Ok(u16::from_be_bytes(bytes))
 }
 
+/// Unpack the packet identifier of a request, which must not be zero
+pub fn unpack_packet_id<'a, I>(iter: &mut I) -> Result<u16, MqttError>
+where
+    I: Iterator<Item = &'a u8>,
+{
+    match unpack_u16(iter)? {
+        0 => Err(MqttError::ProtocolViolation),
+        id => Ok(id),
+    }
+}
+
 /// Unpack bytes into a u32
 ///
 /// Four Byte Integer data values are 32-bit unsigned integers in big-endian order: the high order byte precedes the successively lower order bytes. This means that a 32-bit word is presented on the network as Most Significant Byte (MSB), followed by the next most Significant Byte (MSB), followed by the next most Significant Byte (MSB), followed by Least Significant Byte (LSB).
@@ -105,6 +116,10 @@ where
     }
 
     let result = String::from_utf8(chars).map_err(MqttError::MalformedString)?;
+    // A UTF-8 encoded string MUST NOT include the null character U+0000
+    if result.contains('\0') {
+        return Err(MqttError::ProtocolViolation);
+    }
 
     Ok(result)
 }
-- 
2.43.0


From 66bca4ba34b38a660904d27e02d847a3ce84c96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:47 +0000
Subject: [PATCH 11/23] fix: read will payloads and passwords as binary data

---
 src/packets/mod.rs   | 15 ++++++++-------
 src/packets/utils.rs | 10 ++++++++++
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 4fe1e68..33e781e 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -12,7 +12,8 @@ use self::{
     enums::{ConnectReturnCode, QosLevel, SubackReturnCode},
     headers::{connack::AcknowledgeFlags, connect::Flags},
     utils::{
-        encode_length, unpack_bytes, unpack_packet_id, unpack_properties, unpack_string, unpack_u16,
+        encode_length, unpack_binary, unpack_bytes, unpack_packet_id, unpack_properties,
+        unpack_string, unpack_u16,
     },
 };
 
@@ -72,9 +73,9 @@ pub enum VariableHeader {
 
         client_id: String,
         username: Option<String>,
-        password: Option<String>,
+        password: Option<Bytes>,
         will_topic: Option<String>,
-        will_message: Option<String>,
+        will_message: Option<Bytes>,
         protocol_version: ProtocalVersion,
 
         session_expiry_interval: Option<u32>,
@@ -250,7 +251,7 @@ impl VariableHeader {
                     }
                     if let Some(wm) = will_message {
                         bytes.put_u16(wm.len() as u16);
-                        bytes.put(wm.as_bytes());
+                        bytes.put(wm);
                     }
                 }
 
@@ -264,7 +265,7 @@ impl VariableHeader {
                 if has_psd {
                     if let Some(psd) = password {
                         bytes.put_u16(psd.len() as u16);
-                        bytes.put(psd.as_bytes());
+                        bytes.put(psd);
                     }
                 }
             }
@@ -406,7 +407,7 @@ impl VariableHeader {
                     };
 
                     let will_topic = unpack_string(iter)?;
-                    let will_payload = unpack_string(iter)?;
+                    let will_payload = unpack_binary(iter)?;
 
                     (Some(will_topic), Some(will_payload), props)
                 } else {
@@ -420,7 +421,7 @@ impl VariableHeader {
                 };
 
                 let password = if flags.has_password() {
-                    Some(unpack_string(iter)?)
+                    Some(unpack_binary(iter)?)
                 } else {
                     None
                 };
diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index e82d03c..c2dcc3f 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -102,6 +102,16 @@ where
     Ok(bytes)
 }
 
+/// Read binary data that is prefixed with its length
+pub fn unpack_binary<'a, I>(iter: &mut I) -> Result<bytes::Bytes, MqttError>
+where
+    I: Iterator<Item = &'a u8>,
+{
+    let len = usize::from(unpack_u16(iter)?);
+
+    unpack_bytes(iter, len)
+}
+
 pub fn unpack_string_with_len<'a, I>(iter: &mut I, len: usize) -> Result<String, MqttError>
 where
     I: Iterator<Item = &'a u8>,
-- 
2.43.0


From e4df1696e2bd2d448b30504dad58ac5ada2473b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:19 +0000
Subject: [PATCH 12/23] fix: refuse topic names that are empty or contain
 wildcards

---
 src/packets/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 33e781e..2319a92 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -477,6 +477,10 @@ impl VariableHeader {
             }
             PacketType::Publish => {
                 let topic = unpack_string(iter)?;
+                // The Topic Name MUST NOT be empty or contain wildcard characters
+                if topic.is_empty() || topic.contains(['+', '#']) {
+                    return Err(MqttError::ProtocolViolation);
+                }
 
                 /*
                  * Message len is calculated subtracting the length of the variable header
-- 
2.43.0


From 529cea945af0f2eefd0de56a2031a74f9e0946c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:48 +0000
Subject: [PATCH 13/23] fix: refuse invalid topic filters with SUBACK failure

---
 src/topic_heir.rs |  1 +
 src/utils.rs      | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index 77fdf65..2ac2631 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -176,6 +176,7 @@ impl SubscriptionTree {
     }
     pub fn insert(&mut self, filter: String, sub: SubscriptionLeaf) -> Result<(), u8> {
         let (filter_list, sharename) = utils::tokenise_topic(filter)?;
+        utils::validate_filter(&filter_list, &sharename)?;
 
         let mut iter = filter_list.into_iter();
 
diff --git a/src/utils.rs b/src/utils.rs
index 0ade54f..875b056 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -20,6 +20,27 @@ pub fn tokenise_topic(value: String) -> Result<(Vec<String>, Option<String>), u8
     Ok((topic.iter().map(|x| x.to_string()).collect(), sharename))
 }
 
+/// Check that the levels of a topic filter follow the rules for wildcards
+pub fn validate_filter(levels: &[String], sharename: &Option<String>) -> Result<(), u8> {
+    let is_empty = sharename.is_none() && levels.iter().eq([""]);
+    if is_empty {
+        return Err(1);
+    }
+
+    for (idx, level) in levels.iter().enumerate() {
+        let valid = match level.as_str() {
+            "#" => idx == levels.len() - 1,
+            "+" => true,
+            level => !level.contains(['+', '#']),
+        };
+        if !valid {
+            return Err(1);
+        }
+    }
+
+    Ok(())
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From b41e0ed212b4e9aa1611e21566495743f5e8e9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:48 +0000
Subject: [PATCH 14/23] fix: limit topic filters to 200 levels, deeper ones
 overflow the stack

---
 src/utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 875b056..f0f9886 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -20,10 +20,13 @@ pub fn tokenise_topic(value: String) -> Result<(Vec<String>, Option<String>), u8
     Ok((topic.iter().map(|x| x.to_string()).collect(), sharename))
 }
 
+/// The deepest filter a client can subscribe to. The tree is walked recursively.
+const MAX_FILTER_LEVELS: usize = 200;
+
 /// Check that the levels of a topic filter follow the rules for wildcards
 pub fn validate_filter(levels: &[String], sharename: &Option<String>) -> Result<(), u8> {
     let is_empty = sharename.is_none() && levels.iter().eq([""]);
-    if is_empty {
+    if is_empty || levels.len() > MAX_FILTER_LEVELS {
         return Err(1);
     }
 
-- 
2.43.0


From dc1947bad8cfedb1f5360741f6c7dc64d2b30f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:03 +0000
Subject: [PATCH 15/23] fix: forward a QoS 2 message once per packet id

---
 src/handler.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 924320a..9129d96 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -72,6 +72,8 @@ where
     // packet ids of sent messages that the client has not acknowledged
     let mut in_flight = HashSet::new();
     let mut last_packet_id = 0;
+    // packet ids of received QoS 2 messages that the client has not released
+    let mut received = HashSet::new();
 
     tokio::pin!(keepalive_timer);
 
@@ -209,16 +211,20 @@ where
                             debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
-                            message_bridge
-                            .send(Command::Publish {
-                                topic,
-                                payload,
-                                qos: packet.fixed.get_qos()?,
-                            })
-                            .await
-                            .map_err(MqttError::ChannelError)?;
+                            let qos = packet.fixed.get_qos()?;
+                            // forward a QoS 2 message only the first time it is seen
+                            if qos != QosLevel::Exactly || received.insert(packet_id) {
+                                message_bridge
+                                .send(Command::Publish {
+                                    topic,
+                                    payload,
+                                    qos,
+                                })
+                                .await
+                                .map_err(MqttError::ChannelError)?;
+                            }
 
-                            let data = match packet.fixed.get_qos()? {
+                            let data = match qos {
                                 QosLevel::AtMost => None,
                                 QosLevel::AtLeast => {
                                     let id = packet_id.ok_or_else(|| MqttError::ProtocolViolation)?;
@@ -243,6 +249,7 @@ where
                             debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::PubRel { packet_id, .. } => {
+                            received.remove(&Some(packet_id));
                             let resp = Packet::make_pubcomp(packet_id);
                             writer.write_all(&resp).await?;
                             debug!("Wrote {} bytes", resp.len());
-- 
2.43.0


From d3768aac252317c64a00d9c563a912650d21aedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 16/23] fix: enforce the keep alive for every packet and while
 writing

---
 src/handler.rs | 71 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 43 insertions(+), 28 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 9129d96..b656fb8 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -1,4 +1,4 @@
-use std::{collections::HashSet, time::Duration};
+use std::{collections::HashSet, io::ErrorKind, time::Duration};
 
 use bytes::{Bytes, BytesMut};
 use log::{debug, error};
@@ -6,7 +6,7 @@ use tokio::{
     io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt},
     select,
     sync::mpsc::{channel, Sender},
-    time::Instant,
+    time::{sleep_until, timeout_at, Instant},
 };
 use tokio_util::sync::CancellationToken;
 
@@ -50,6 +50,27 @@ where
     }
 }
 
+/// Write a whole packet, or give up at the deadline
+async fn write_packet<W>(
+    writer: &mut W,
+    packet: &[u8],
+    deadline: Option<Instant>,
+) -> Result<(), MqttError>
+where
+    W: AsyncWrite + Unpin,
+{
+    let write = writer.write_all(packet);
+    match deadline {
+        Some(deadline) => timeout_at(deadline, write)
+            .await
+            .map_err(|_| std::io::Error::from(ErrorKind::TimedOut))??,
+        None => write.await?,
+    }
+    debug!("Wrote {} bytes", packet.len());
+
+    Ok(())
+}
+
 pub async fn client_handler<R, W>(
     mut read_stream: R,
     mut writer: W,
@@ -62,11 +83,12 @@ where
 {
     broker_info::client_inc();
 
-    let mut keepalive_duration: u64 = 60;
+    // how long the client may be silent, first until its CONNECT
+    let mut keepalive = Some(Duration::from_secs(60));
+    let mut deadline = keepalive.map(|time| Instant::now() + time);
     let mut has_connected = false;
     let mut protocol = ProtocalVersion::Unknown;
     let mut cid = None;
-    let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
     let mut buffer = BytesMut::with_capacity(8 * 1024);
     let (tx, mut rx) = channel::<ClientEvent>(100);
     // packet ids of sent messages that the client has not acknowledged
@@ -75,14 +97,13 @@ where
     // packet ids of received QoS 2 messages that the client has not released
     let mut received = HashSet::new();
 
-    tokio::pin!(keepalive_timer);
-
     'ctrl: loop {
         select! {
             () = cancellation.cancelled() => {
                 break 'ctrl;
             }
-            () = &mut keepalive_timer => {
+            () = sleep_until(deadline.unwrap_or_else(Instant::now)), if deadline.is_some() => {
+                debug!("Keep alive timeout");
                 break 'ctrl;
             }
             frame = read_frame(&mut read_stream, &mut buffer) => {
@@ -97,7 +118,7 @@ where
                                     _ => None,
                                 };
                                 if let (false, Some(code)) = (has_connected, code) {
-                                    writer.write_all(&Packet::make_connack(code, false)).await?;
+                                    write_packet(&mut writer, &Packet::make_connack(code, false), deadline).await?;
                                 }
                                 return Err(err);
                             }
@@ -120,13 +141,15 @@ where
                     }
                 };
 
+                deadline = keepalive.map(|time| Instant::now() + time);
+
                 // After a Network Connection is established the first Packet sent MUST be a CONNECT Packet
                 if !has_connected && !matches!(packet.variable, VariableHeader::Connect { .. }) {
                     return Err(MqttError::ProtocolViolation);
                 }
 
                 match packet.variable {
-                        VariableHeader::Connect { flags, keepalive, client_id, protocol_version, .. } => {
+                        VariableHeader::Connect { flags, keepalive: seconds, client_id, protocol_version, .. } => {
                             if has_connected {
                                 debug!("Seen connect packet two times!");
                                 //  Client can only send the CONNECT Packet once over a Network Connection.
@@ -154,13 +177,13 @@ where
 
                           r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
                           has_connected = true;
-                          keepalive_duration = (keepalive as u64) + 4;
-                          keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
+                          // the client may be silent for one and a half times its keep alive, or forever if that is zero
+                          keepalive = (seconds > 0).then(|| Duration::from_secs(seconds.into()) * 3 / 2);
+                          deadline = keepalive.map(|time| Instant::now() + time);
 
                           let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);
 
-                          writer.write_all(&resp).await?;
-                          debug!("Wrote {} bytes", resp.len());
+                          write_packet(&mut writer, &resp, deadline).await?;
                         },
                         VariableHeader::Subscribe { packet_id, tuples,.. } => {
                             let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
@@ -183,8 +206,7 @@ where
 
                             let resp = Packet::make_suback(packet_id, codes);
 
-                            writer.write_all(&resp).await?;
-                            debug!("Wrote {} bytes", resp.len());
+                            write_packet(&mut writer, &resp, deadline).await?;
                         },
                         VariableHeader::Unsubscribe { packet_id, tuples, .. } => {
                             let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
@@ -207,8 +229,7 @@ where
                             r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
 
                             let resp = Packet::make_unsuback(packet_id);
-                            writer.write_all(&resp).await?;
-                            debug!("Wrote {} bytes", resp.len());
+                            write_packet(&mut writer, &resp, deadline).await?;
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
                             let qos = packet.fixed.get_qos()?;
@@ -239,29 +260,24 @@ where
                             };
 
                             if let Some(resp) = data {
-                                writer.write_all(&resp).await?;
-                                debug!("Wrote {} bytes", resp.len());
+                                write_packet(&mut writer, &resp, deadline).await?;
                             }
                         }
                         VariableHeader::PubRec { packet_id, .. } => {
                             let resp = Packet::make_pubrel(packet_id);
-                            writer.write_all(&resp).await?;
-                            debug!("Wrote {} bytes", resp.len());
+                            write_packet(&mut writer, &resp, deadline).await?;
                         },
                         VariableHeader::PubRel { packet_id, .. } => {
                             received.remove(&Some(packet_id));
                             let resp = Packet::make_pubcomp(packet_id);
-                            writer.write_all(&resp).await?;
-                            debug!("Wrote {} bytes", resp.len());
+                            write_packet(&mut writer, &resp, deadline).await?;
                         },
                         VariableHeader::PubComp { packet_id, ..} | VariableHeader::PubAck { packet_id, .. } => {
                             in_flight.remove(&packet_id);
                         }
                         VariableHeader::PingReq => {
-                            keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
                             let resp = Packet::make_ping_resp();
-                            writer.write_all(&resp).await?;
-                            debug!("Wrote {} bytes", resp.len());
+                            write_packet(&mut writer, &resp, deadline).await?;
                         },
                         VariableHeader::Disconnect { .. } => {
                             debug!("Disconnect Called");
@@ -292,8 +308,7 @@ where
                                 None
                             };
                             let msg = Packet::make_publish(false, qos, false, topic, packet_id, payload);
-                            writer.write_all(&msg).await?;
-                            debug!("Wrote {} bytes", msg.len());
+                            write_packet(&mut writer, &msg, deadline).await?;
                         },
                         ClientEvent::Disconnect => break 'ctrl,
                     }
-- 
2.43.0


From b6b09dce403a4740a4090dfcd9d35dc2eb629027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:42 +0000
Subject: [PATCH 17/23] fix: let the newest connection of a client id take
 over, undisturbed by older ones

---
 src/core/enums.rs   | 11 +++++-
 src/core/mod.rs     | 43 +++++++++++----------
 src/core/session.rs | 11 +++++-
 src/handler.rs      | 92 +++++++++++++++++++++++++++------------------
 src/main.rs         | 22 +++++++----
 5 files changed, 112 insertions(+), 67 deletions(-)

diff --git a/src/core/enums.rs b/src/core/enums.rs
index 3d11459..8bba9f8 100644
--- a/src/core/enums.rs
+++ b/src/core/enums.rs
@@ -1,4 +1,5 @@
 use bytes::Bytes;
+use tokio_util::sync::CancellationToken;
 
 use crate::packets::enums::QosLevel;
 use crate::{error::MqttError, packets::enums::SubackReturnCode};
@@ -14,11 +15,15 @@ pub enum Command {
         message_channel: Receiver<ClientEvent>,
         protocol: ProtocalVersion,
         clean_session: bool,
+        /// Closes the connection when cancelled
+        connection: CancellationToken,
         callback: Responder<Result<(), MqttError>>,
     },
 
     Subscribe {
         client: String,
+        /// Identifies the connection
+        channel: Receiver<ClientEvent>,
         topics: Vec<(String, QosLevel)>,
         callback: Responder<Result<Vec<SubackReturnCode>, MqttError>>,
     },
@@ -31,9 +36,12 @@ pub enum Command {
     Unsubscribe {
         topics: Vec<String>,
         cid: String,
+        /// Identifies the connection
+        channel: Receiver<ClientEvent>,
         callback: Responder<Result<(), MqttError>>,
     },
-    DisconnectClient(String),
+    /// The given connection of a client ended
+    DisconnectClient(String, Receiver<ClientEvent>),
     Exit,
 }
 
@@ -44,7 +52,6 @@ pub enum ClientEvent {
         payload: Bytes,
         qos: QosLevel,
     },
-    Disconnect,
 }
 #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
 #[repr(u8)]
diff --git a/src/core/mod.rs b/src/core/mod.rs
index 4259d87..7327d89 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -3,6 +3,7 @@ use std::collections::HashMap;
 use bytes::Bytes;
 use log::{debug, error};
 use tokio::sync::mpsc::Sender;
+use tokio_util::sync::CancellationToken;
 
 use crate::{
     error::MqttError,
@@ -32,15 +33,23 @@ impl App {
         }
     }
 
+    /// The session of a client, unless another connection has taken it over
+    fn session_of(&self, cid: &str, channel: &Sender<ClientEvent>) -> Option<&Session> {
+        self.sessions
+            .get(cid)
+            .filter(|session| session.bridge.same_channel(channel))
+    }
+
     /// Subscribe to the current topic at the given qos
     pub fn subscribe(
         &mut self,
         cid: String,
+        channel: Sender<ClientEvent>,
         topics: Vec<(String, QosLevel)>,
         callback: tokio::sync::oneshot::Sender<Result<Vec<SubackReturnCode>, MqttError>>,
     ) {
-        let (id, bridge) = match self.sessions.get(&cid) {
-            Some(session) => (session.id, session.bridge.clone()),
+        let id = match self.session_of(&cid, &channel) {
+            Some(session) => session.id,
             None => {
                 if callback.send(Err(MqttError::Unknown)).is_err() {
                     log::error!("Client does not exist");
@@ -51,7 +60,7 @@ impl App {
         let codes = topics
             .into_iter()
             .map(|(topic, qos)| {
-                let leaf = SubscriptionLeaf::new(qos, id, bridge.clone());
+                let leaf = SubscriptionLeaf::new(qos, id, channel.clone());
                 if self.subscriptions.insert(topic, leaf).is_err() {
                     return SubackReturnCode::Failure;
                 }
@@ -72,10 +81,11 @@ impl App {
     pub fn unsubscribe(
         &mut self,
         cid: String,
+        channel: Sender<ClientEvent>,
         topics: Vec<String>,
         callback: tokio::sync::oneshot::Sender<Result<(), MqttError>>,
     ) {
-        let id = match self.sessions.get(&cid) {
+        let id = match self.session_of(&cid, &channel) {
             Some(session) => session.id,
             None => {
                 if callback.send(Err(MqttError::Unknown)).is_err() {
@@ -96,28 +106,24 @@ impl App {
         }
     }
 
-    pub async fn connect(
+    pub fn connect(
         &mut self,
         client_id: String,
         message_channel: Sender<ClientEvent>,
         _protocol: ProtocalVersion,
         _clean_session: bool,
+        connection: CancellationToken,
         callback: tokio::sync::oneshot::Sender<Result<(), MqttError>>,
     ) {
         debug!("New client connecting with id of '{}'", client_id);
-        if self.sessions.contains_key(&client_id) {
-            if let Some(current_client) = self.sessions.get(&client_id) {
-                if let Err(err) = current_client.bridge.send(ClientEvent::Disconnect).await {
-                    error!("{}", err);
-                }
-            }
-        }
-
         if let Some(existing_client) = self.sessions.get_mut(&client_id) {
+            // the newest connection takes over
+            existing_client.connection.cancel();
+            existing_client.connection = connection;
             existing_client.bridge = message_channel;
         } else {
             self.sessions
-                .insert(client_id, Session::new(message_channel));
+                .insert(client_id, Session::new(message_channel, connection));
         }
 
         if callback.send(Ok(())).is_err() {
@@ -125,11 +131,10 @@ impl App {
         }
     }
 
-    pub fn disconnect(&mut self, cid: String) {
-        /*if let Some(client) = self.sessions.get(&cid) {
-
-        }*/
-        self.sessions.remove(&cid);
+    pub fn disconnect(&mut self, cid: String, channel: Sender<ClientEvent>) {
+        if self.session_of(&cid, &channel).is_some() {
+            self.sessions.remove(&cid);
+        }
     }
 
     pub async fn publish(&self, topic: String, payload: Bytes, publish_qos: QosLevel) {
diff --git a/src/core/session.rs b/src/core/session.rs
index cac0152..5fde09e 100644
--- a/src/core/session.rs
+++ b/src/core/session.rs
@@ -1,4 +1,5 @@
 use tokio::sync::mpsc::Sender;
+use tokio_util::sync::CancellationToken;
 use uuid::Uuid;
 
 use super::enums::ClientEvent;
@@ -6,12 +7,18 @@ use super::enums::ClientEvent;
 pub struct Session {
     pub id: u128,
     pub bridge: Sender<ClientEvent>,
+    /// Closes the connection when cancelled
+    pub connection: CancellationToken,
 }
 
 impl Session {
-    pub fn new(bridge: Sender<ClientEvent>) -> Self {
+    pub fn new(bridge: Sender<ClientEvent>, connection: CancellationToken) -> Self {
         let id = Uuid::new_v4().as_u128();
 
-        Self { id, bridge }
+        Self {
+            id,
+            bridge,
+            connection,
+        }
     }
 }
diff --git a/src/handler.rs b/src/handler.rs
index b656fb8..3850616 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -5,7 +5,7 @@ use log::{debug, error};
 use tokio::{
     io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt},
     select,
-    sync::mpsc::{channel, Sender},
+    sync::mpsc::{channel, Receiver, Sender},
     time::{sleep_until, timeout_at, Instant},
 };
 use tokio_util::sync::CancellationToken;
@@ -72,8 +72,8 @@ where
 }
 
 pub async fn client_handler<R, W>(
-    mut read_stream: R,
-    mut writer: W,
+    read_stream: R,
+    writer: W,
     message_bridge: Sender<Command>,
     cancellation: CancellationToken,
 ) -> Result<(), MqttError>
@@ -83,14 +83,53 @@ where
 {
     broker_info::client_inc();
 
+    // cancelled when the broker shuts down or another connection takes the client id over
+    let connection = cancellation.child_token();
+    let (tx, rx) = channel::<ClientEvent>(100);
+    let mut cid = None;
+
+    let result = select! {
+        () = connection.cancelled() => Ok(()),
+        result = serve(read_stream, writer, &message_bridge, &tx, rx, &connection, &mut cid) => result,
+    };
+
+    if let Some(id) = cid {
+        if message_bridge
+            .send(Command::DisconnectClient(id, tx))
+            .await
+            .is_err()
+        {
+            error!("Receiver dropped!");
+        }
+    }
+
+    broker_info::client_dec();
+
+    debug!("Client: disconnect");
+
+    result
+}
+
+/// Serve a connection until it ends. `cid` is set once the client is registered.
+async fn serve<R, W>(
+    mut read_stream: R,
+    mut writer: W,
+    message_bridge: &Sender<Command>,
+    tx: &Sender<ClientEvent>,
+    mut rx: Receiver<ClientEvent>,
+    connection: &CancellationToken,
+    cid: &mut Option<String>,
+) -> Result<(), MqttError>
+where
+    W: AsyncWrite + Unpin,
+    R: AsyncRead + Unpin,
+{
     // how long the client may be silent, first until its CONNECT
     let mut keepalive = Some(Duration::from_secs(60));
     let mut deadline = keepalive.map(|time| Instant::now() + time);
     let mut has_connected = false;
     let mut protocol = ProtocalVersion::Unknown;
-    let mut cid = None;
     let mut buffer = BytesMut::with_capacity(8 * 1024);
-    let (tx, mut rx) = channel::<ClientEvent>(100);
     // packet ids of sent messages that the client has not acknowledged
     let mut in_flight = HashSet::new();
     let mut last_packet_id = 0;
@@ -99,9 +138,6 @@ where
 
     'ctrl: loop {
         select! {
-            () = cancellation.cancelled() => {
-                break 'ctrl;
-            }
             () = sleep_until(deadline.unwrap_or_else(Instant::now)), if deadline.is_some() => {
                 debug!("Keep alive timeout");
                 break 'ctrl;
@@ -160,7 +196,7 @@ where
                             protocol = protocol_version;
 
                             let (r_tx, r_rx) = tokio::sync::oneshot::channel::<Result<(), MqttError>>();
-                            cid = Some(client_id.clone());
+                            *cid = Some(client_id.clone());
 
                             if message_bridge
                             .send(Command::RegisterClient {
@@ -168,6 +204,7 @@ where
                                 message_channel: tx.clone(),
                                 protocol,
                                 clean_session: flags.clean_session(),
+                                connection: connection.clone(),
                                 callback: r_tx,
                             }).await.is_err()
                           {
@@ -193,6 +230,7 @@ where
                             if message_bridge
                             .send(Command::Subscribe {
                                 client: id.clone(),
+                                channel: tx.clone(),
                                 topics: tuples,
                                 callback: r_tx,
                             })
@@ -217,6 +255,7 @@ where
                                 .send(Command::Unsubscribe {
                                     topics: tuples,
                                     cid: id.clone(),
+                                    channel: tx.clone(),
                                     callback: r_tx,
                                 })
                                 .await
@@ -281,15 +320,6 @@ where
                         },
                         VariableHeader::Disconnect { .. } => {
                             debug!("Disconnect Called");
-                            let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
-                            if message_bridge
-                            .send(Command::DisconnectClient(id.clone()))
-                            .await
-                            .is_err()
-                            {
-                                error!("Receiver dropped!");
-                                break 'ctrl;
-                            }
                             break 'ctrl;
                         },
                         _ => {
@@ -299,28 +329,18 @@ where
                     }
             }
             event = rx.recv(), if in_flight.len() < usize::from(u16::MAX) => {
-                if let Some(ev) = event {
-                    match ev {
-                        ClientEvent::Message { topic, payload, qos } => {
-                            let packet_id = if qos > QosLevel::AtMost {
-                                Some(next_packet_id(&mut last_packet_id, &mut in_flight))
-                            } else {
-                                None
-                            };
-                            let msg = Packet::make_publish(false, qos, false, topic, packet_id, payload);
-                            write_packet(&mut writer, &msg, deadline).await?;
-                        },
-                        ClientEvent::Disconnect => break 'ctrl,
-                    }
+                if let Some(ClientEvent::Message { topic, payload, qos }) = event {
+                    let packet_id = if qos > QosLevel::AtMost {
+                        Some(next_packet_id(&mut last_packet_id, &mut in_flight))
+                    } else {
+                        None
+                    };
+                    let msg = Packet::make_publish(false, qos, false, topic, packet_id, payload);
+                    write_packet(&mut writer, &msg, deadline).await?;
                 }
-
             }
         }
     }
 
-    broker_info::client_dec();
-
-    debug!("Client: disconnect");
-
     Ok(())
 }
diff --git a/src/main.rs b/src/main.rs
index ec95ab9..a7f9716 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -61,17 +61,22 @@ async fn main() -> Result<(), MqttError> {
                     message_channel,
                     protocol,
                     clean_session,
+                    connection,
                     callback,
-                } => {
-                    context
-                        .connect(id, message_channel, protocol, clean_session, callback)
-                        .await
-                }
+                } => context.connect(
+                    id,
+                    message_channel,
+                    protocol,
+                    clean_session,
+                    connection,
+                    callback,
+                ),
                 Command::Subscribe {
                     client,
+                    channel,
                     topics,
                     callback,
-                } => context.subscribe(client, topics, callback),
+                } => context.subscribe(client, channel, topics, callback),
 
                 Command::Publish {
                     topic,
@@ -81,9 +86,10 @@ async fn main() -> Result<(), MqttError> {
                 Command::Unsubscribe {
                     topics,
                     cid,
+                    channel,
                     callback,
-                } => context.unsubscribe(cid, topics, callback),
-                Command::DisconnectClient(cid) => context.disconnect(cid),
+                } => context.unsubscribe(cid, channel, topics, callback),
+                Command::DisconnectClient(cid, channel) => context.disconnect(cid, channel),
                 Command::Exit => break,
             }
         }
-- 
2.43.0


From 99cf5a51e756cb2a48da726ac5f12b9c6e052f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:52 +0000
Subject: [PATCH 18/23] fix: keep or end sessions with their subscriptions as
 clean session says

---
 src/core/enums.rs   |  3 +-
 src/core/mod.rs     | 75 ++++++++++++++++++++++++++++++---------------
 src/core/session.rs | 15 ++++++++-
 src/handler.rs      |  6 ++--
 4 files changed, 69 insertions(+), 30 deletions(-)

diff --git a/src/core/enums.rs b/src/core/enums.rs
index 8bba9f8..81eba51 100644
--- a/src/core/enums.rs
+++ b/src/core/enums.rs
@@ -17,7 +17,8 @@ pub enum Command {
         clean_session: bool,
         /// Closes the connection when cancelled
         connection: CancellationToken,
-        callback: Responder<Result<(), MqttError>>,
+        /// Whether the client continues a session it had
+        callback: Responder<Result<bool, MqttError>>,
     },
 
     Subscribe {
diff --git a/src/core/mod.rs b/src/core/mod.rs
index 7327d89..eb98a9c 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -33,11 +33,15 @@ impl App {
         }
     }
 
-    /// The session of a client, unless another connection has taken it over
-    fn session_of(&self, cid: &str, channel: &Sender<ClientEvent>) -> Option<&Session> {
-        self.sessions
-            .get(cid)
-            .filter(|session| session.bridge.same_channel(channel))
+    /// Remove a session with all its subscriptions
+    fn end_session(&mut self, cid: &str) {
+        if let Some(session) = self.sessions.remove(cid) {
+            for filter in session.filters.into_keys() {
+                if self.subscriptions.delete(filter, session.id).is_err() {
+                    error!("Failed to delete subscription from tree");
+                }
+            }
+        }
     }
 
     /// Subscribe to the current topic at the given qos
@@ -48,9 +52,9 @@ impl App {
         topics: Vec<(String, QosLevel)>,
         callback: tokio::sync::oneshot::Sender<Result<Vec<SubackReturnCode>, MqttError>>,
     ) {
-        let id = match self.session_of(&cid, &channel) {
-            Some(session) => session.id,
-            None => {
+        let session = match self.sessions.get_mut(&cid) {
+            Some(session) if session.bridge.same_channel(&channel) => session,
+            _ => {
                 if callback.send(Err(MqttError::Unknown)).is_err() {
                     log::error!("Client does not exist");
                 }
@@ -60,10 +64,11 @@ impl App {
         let codes = topics
             .into_iter()
             .map(|(topic, qos)| {
-                let leaf = SubscriptionLeaf::new(qos, id, channel.clone());
-                if self.subscriptions.insert(topic, leaf).is_err() {
+                let leaf = SubscriptionLeaf::new(qos, session.id, channel.clone());
+                if self.subscriptions.insert(topic.clone(), leaf).is_err() {
                     return SubackReturnCode::Failure;
                 }
+                session.filters.insert(topic, qos);
                 match qos {
                     QosLevel::AtMost => SubackReturnCode::SuccessQosZero,
                     QosLevel::AtLeast => SubackReturnCode::SuccessQosOne,
@@ -85,9 +90,9 @@ impl App {
         topics: Vec<String>,
         callback: tokio::sync::oneshot::Sender<Result<(), MqttError>>,
     ) {
-        let id = match self.session_of(&cid, &channel) {
-            Some(session) => session.id,
-            None => {
+        let session = match self.sessions.get_mut(&cid) {
+            Some(session) if session.bridge.same_channel(&channel) => session,
+            _ => {
                 if callback.send(Err(MqttError::Unknown)).is_err() {
                     log::error!("Client does not exist");
                 }
@@ -96,7 +101,8 @@ impl App {
         };
 
         topics.into_iter().for_each(|topic| {
-            if self.subscriptions.delete(topic, id).is_err() {
+            session.filters.remove(&topic);
+            if self.subscriptions.delete(topic, session.id).is_err() {
                 error!("Failed to delete subscription from tree");
             }
         });
@@ -111,29 +117,48 @@ impl App {
         client_id: String,
         message_channel: Sender<ClientEvent>,
         _protocol: ProtocalVersion,
-        _clean_session: bool,
+        clean_session: bool,
         connection: CancellationToken,
-        callback: tokio::sync::oneshot::Sender<Result<(), MqttError>>,
+        callback: tokio::sync::oneshot::Sender<Result<bool, MqttError>>,
     ) {
         debug!("New client connecting with id of '{}'", client_id);
-        if let Some(existing_client) = self.sessions.get_mut(&client_id) {
+        if let Some(existing_client) = self.sessions.get(&client_id) {
             // the newest connection takes over
             existing_client.connection.cancel();
-            existing_client.connection = connection;
-            existing_client.bridge = message_channel;
-        } else {
-            self.sessions
-                .insert(client_id, Session::new(message_channel, connection));
+            if clean_session || existing_client.clean {
+                self.end_session(&client_id);
+            }
         }
 
-        if callback.send(Ok(())).is_err() {
+        let session_present = if let Some(session) = self.sessions.get_mut(&client_id) {
+            for (filter, qos) in &session.filters {
+                let leaf = SubscriptionLeaf::new(*qos, session.id, message_channel.clone());
+                if self.subscriptions.insert(filter.clone(), leaf).is_err() {
+                    error!("Failed to insert subscription into tree");
+                }
+            }
+            session.connection = connection;
+            session.bridge = message_channel;
+            true
+        } else {
+            self.sessions.insert(
+                client_id,
+                Session::new(message_channel, connection, clean_session),
+            );
+            false
+        };
+
+        if callback.send(Ok(session_present)).is_err() {
             log::error!("Client no longer exists");
         }
     }
 
     pub fn disconnect(&mut self, cid: String, channel: Sender<ClientEvent>) {
-        if self.session_of(&cid, &channel).is_some() {
-            self.sessions.remove(&cid);
+        if let Some(session) = self.sessions.get(&cid) {
+            // otherwise the session is kept or has been taken over
+            if session.clean && session.bridge.same_channel(&channel) {
+                self.end_session(&cid);
+            }
         }
     }
 
diff --git a/src/core/session.rs b/src/core/session.rs
index 5fde09e..81c79a6 100644
--- a/src/core/session.rs
+++ b/src/core/session.rs
@@ -1,24 +1,37 @@
+use std::collections::HashMap;
+
 use tokio::sync::mpsc::Sender;
 use tokio_util::sync::CancellationToken;
 use uuid::Uuid;
 
 use super::enums::ClientEvent;
+use crate::packets::enums::QosLevel;
 
 pub struct Session {
     pub id: u128,
     pub bridge: Sender<ClientEvent>,
     /// Closes the connection when cancelled
     pub connection: CancellationToken,
+    /// The session ends with its connection
+    pub clean: bool,
+    /// The subscriptions held
+    pub filters: HashMap<String, QosLevel>,
 }
 
 impl Session {
-    pub fn new(bridge: Sender<ClientEvent>, connection: CancellationToken) -> Self {
+    pub fn new(
+        bridge: Sender<ClientEvent>,
+        connection: CancellationToken,
+        clean: bool,
+    ) -> Self {
         let id = Uuid::new_v4().as_u128();
 
         Self {
             id,
             bridge,
             connection,
+            clean,
+            filters: HashMap::new(),
         }
     }
 }
diff --git a/src/handler.rs b/src/handler.rs
index 3850616..fd7e760 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -195,7 +195,7 @@ where
 
                             protocol = protocol_version;
 
-                            let (r_tx, r_rx) = tokio::sync::oneshot::channel::<Result<(), MqttError>>();
+                            let (r_tx, r_rx) = tokio::sync::oneshot::channel::<Result<bool, MqttError>>();
                             *cid = Some(client_id.clone());
 
                             if message_bridge
@@ -212,13 +212,13 @@ where
                                 break 'ctrl;
                           }
 
-                          r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
+                          let session_present = r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
                           has_connected = true;
                           // the client may be silent for one and a half times its keep alive, or forever if that is zero
                           keepalive = (seconds > 0).then(|| Duration::from_secs(seconds.into()) * 3 / 2);
                           deadline = keepalive.map(|time| Instant::now() + time);
 
-                          let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);
+                          let resp = Packet::make_connack(ConnectReturnCode::Accepted, session_present);
 
                           write_packet(&mut writer, &resp, deadline).await?;
                         },
-- 
2.43.0


From d2dd253830b23462b0b280112de741242db32ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:42 +0000
Subject: [PATCH 19/23] fix: never make the broker wait for a slow client

---
 src/core/mod.rs | 17 +++++++++++++----
 src/handler.rs  |  5 ++++-
 src/main.rs     |  2 +-
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/core/mod.rs b/src/core/mod.rs
index eb98a9c..613c596 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -2,7 +2,7 @@ use std::collections::HashMap;
 
 use bytes::Bytes;
 use log::{debug, error};
-use tokio::sync::mpsc::Sender;
+use tokio::sync::mpsc::{error::TrySendError, Sender};
 use tokio_util::sync::CancellationToken;
 
 use crate::{
@@ -162,7 +162,7 @@ impl App {
         }
     }
 
-    pub async fn publish(&self, topic: String, payload: Bytes, publish_qos: QosLevel) {
+    pub fn publish(&self, topic: String, payload: Bytes, publish_qos: QosLevel) {
         let subs = match self.subscriptions.get(topic.clone()) {
             Ok(subs) => subs,
             Err(_) => {
@@ -176,8 +176,17 @@ impl App {
                 payload: payload.clone(),
                 qos: qos.min(publish_qos),
             };
-            if let Err(e) = bridge.send(message).await {
-                log::error!("receiver dropped: {}", e);
+            // waiting for a slow client would stall all others
+            match bridge.try_send(message) {
+                Ok(()) => {}
+                Err(TrySendError::Full(_)) => {
+                    error!("Client does not keep up. Closing its connection");
+                    let mut sessions = self.sessions.values();
+                    if let Some(session) = sessions.find(|x| x.bridge.same_channel(&bridge)) {
+                        session.connection.cancel();
+                    }
+                }
+                Err(TrySendError::Closed(_)) => debug!("receiver dropped"),
             }
         }
     }
diff --git a/src/handler.rs b/src/handler.rs
index fd7e760..a98a028 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -22,6 +22,9 @@ use crate::{
     },
 };
 
+/// The number of messages that may wait for a client before its connection is closed
+const MAX_QUEUED: usize = 10_000;
+
 /// Take the next packet id that is not in flight. There must be one.
 fn next_packet_id(last: &mut u16, in_flight: &mut HashSet<u16>) -> u16 {
     loop {
@@ -85,7 +88,7 @@ where
 
     // cancelled when the broker shuts down or another connection takes the client id over
     let connection = cancellation.child_token();
-    let (tx, rx) = channel::<ClientEvent>(100);
+    let (tx, rx) = channel::<ClientEvent>(MAX_QUEUED);
     let mut cid = None;
 
     let result = select! {
diff --git a/src/main.rs b/src/main.rs
index a7f9716..bfa8fb1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -82,7 +82,7 @@ async fn main() -> Result<(), MqttError> {
                     topic,
                     payload,
                     qos,
-                } => context.publish(topic, payload, qos).await,
+                } => context.publish(topic, payload, qos),
                 Command::Unsubscribe {
                     topics,
                     cid,
-- 
2.43.0


From 8320a8f077c357bec5c5cfd4c4f0aeb67ce8713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:52 +0000
Subject: [PATCH 20/23] fix: listen for the interrupt signal all the time

---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index bfa8fb1..44ac288 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -97,6 +97,10 @@ async fn main() -> Result<(), MqttError> {
         debug!("Exiting Command loop");
     });
 
+    // listening all the time, a signal between two connections would be lost otherwise
+    let shutdown = tokio::signal::ctrl_c();
+    tokio::pin!(shutdown);
+
     loop {
         select! {
             res = listener.accept() => {
@@ -113,7 +117,7 @@ async fn main() -> Result<(), MqttError> {
                     });
                 }
             }
-            _ = tokio::signal::ctrl_c() => {
+            _ = &mut shutdown => {
                 break;
             }
         }
-- 
2.43.0


From ef52eb820ba28f0a9f01e273ccc100c8856aec64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:38 +0000
Subject: [PATCH 21/23] fix: count packets and bytes in both directions

---
 src/handler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/handler.rs b/src/handler.rs
index a98a028..050fcdf 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -69,6 +69,7 @@ where
             .map_err(|_| std::io::Error::from(ErrorKind::TimedOut))??,
         None => write.await?,
     }
+    broker_info::sent_data(packet.len());
     debug!("Wrote {} bytes", packet.len());
 
     Ok(())
@@ -162,7 +163,7 @@ where
                                 return Err(err);
                             }
                         };
-                        broker_info::sent_data(packet_size);
+                        broker_info::received_data(packet_size);
 
                         packet
                     }
@@ -274,6 +275,8 @@ where
                             write_packet(&mut writer, &resp, deadline).await?;
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
+                            broker_info::received_published();
+
                             let qos = packet.fixed.get_qos()?;
                             // forward a QoS 2 message only the first time it is seen
                             if qos != QosLevel::Exactly || received.insert(packet_id) {
@@ -340,6 +343,7 @@ where
                     };
                     let msg = Packet::make_publish(false, qos, false, topic, packet_id, payload);
                     write_packet(&mut writer, &msg, deadline).await?;
+                    broker_info::sent_published();
                 }
             }
         }
-- 
2.43.0


From 1e470f38f2b3aba3c2c4144187a409fa9472afff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 22/23] fix: remove a share group from the subscription tree
 with its last subscription

An empty list stayed behind in the tree, and kept its whole branch, for
every shared subscription that was ever made.
---
 src/topic_heir.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index 2ac2631..b0001a1 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -117,6 +117,12 @@ impl SubHier {
                 if let Some(idx) = s.iter().position(|e| e.identifier == identifer) {
                     s.remove(idx);
                 }
+                let can_remove = s.is_empty();
+                // drop the reference into the map before removing from it
+                drop(s);
+                if can_remove {
+                    self.shared.remove(&sharename);
+                }
             }
         } else if let Some(idx) = self.subs.iter().position(|e| e.identifier == identifer) {
             self.subs.remove(idx);
-- 
2.43.0


From 07e23b8b04ece0820025778f44c3c360730df81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 23/23] fix: refuse filters with a wildcard in the name of
 their group

---
 src/utils.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index f0f9886..be9585e 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -30,6 +30,13 @@ pub fn validate_filter(levels: &[String], sharename: &Option<String>) -> Result<
         return Err(1);
     }
 
+    // the name of a group is not a pattern
+    if let Some(name) = sharename {
+        if name.contains(['+', '#']) {
+            return Err(1);
+        }
+    }
+
     for (idx, level) in levels.iter().enumerate() {
         let valid = match level.as_str() {
             "#" => idx == levels.len() - 1,
-- 
2.43.0

