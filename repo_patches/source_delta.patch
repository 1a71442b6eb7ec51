From 8747a50324cde6e6fd12ce30c917b5d41fcddd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 1/7] fix: ConnAck::write returns an error instead of panicking
 on v3.1.1 return codes

---
 src/connack.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/connack.rs b/src/connack.rs
index f9ace21..7f2f4c4 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -94,7 +94,7 @@ impl ConnAck {
 
         let count = write_remaining_length(buffer, len)?;
         buffer.put_u8(u8::from(self.session_present));
-        buffer.put_u8(connect_code(self.code));
+        buffer.put_u8(connect_code(self.code)?);
 
         if let Some(p) = &self.properties {
             p.write(buffer)?;
@@ -466,8 +466,8 @@ fn connect_return(num: u8) -> Result<ConnectReturnCode, Error> {
     Ok(code)
 }
 
-fn connect_code(return_code: ConnectReturnCode) -> u8 {
-    match return_code {
+fn connect_code(return_code: ConnectReturnCode) -> Result<u8, Error> {
+    let code = match return_code {
         ConnectReturnCode::Success => 0,
         ConnectReturnCode::UnspecifiedError => 128,
         ConnectReturnCode::MalformedPacket => 129,
@@ -490,8 +490,15 @@ fn connect_code(return_code: ConnectReturnCode) -> u8 {
         ConnectReturnCode::UseAnotherServer => 156,
         ConnectReturnCode::ServerMoved => 157,
         ConnectReturnCode::ConnectionRateExceeded => 159,
-        _ => unreachable!(),
-    }
+        // MQTT v3.1.1 return codes, not valid in a v5 CONNACK
+        ConnectReturnCode::RefusedProtocolVersion => {
+            return Err(Error::InvalidConnectReturnCode(1))
+        }
+        ConnectReturnCode::BadClientId => return Err(Error::InvalidConnectReturnCode(2)),
+        ConnectReturnCode::ServiceUnavailable => return Err(Error::InvalidConnectReturnCode(3)),
+    };
+
+    Ok(code)
 }
 
 #[cfg(test)]
-- 
2.43.0


From d3386983ededb041b2396c7075e922d86dcc6979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 2/7] fix: Connect::write patches its flags byte relative to
 the start of the packet

---
 src/connect.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connect.rs b/src/connect.rs
index 0cfe773..6773ff0 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -102,7 +102,7 @@ impl Connect {
         write_mqtt_string(buffer, &mqtt_string_new("MQTT"))?;
 
         buffer.put_u8(0x05);
-        let flags_index = 1 + count + 2 + 4 + 1;
+        let flags_index = buffer.len();
 
         let mut connect_flags = 0;
         if self.clean_start {
-- 
2.43.0


From d5e7f41613b46f2a08753b9a2d8fde4066e7d0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 3/7] fix: count a subscription identifier property only once
 when reading properties

---
 src/publish.rs   | 2 +-
 src/subscribe.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/publish.rs b/src/publish.rs
index 1536467..2576c96 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -231,7 +231,7 @@ impl PublishProperties {
                 }
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, id) = length(bytes.iter())?;
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     subscription_identifiers.push(id);
                 }
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 7c25bb5..2765996 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -241,8 +241,7 @@ impl SubscribeProperties {
             match property(prop)? {
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, sub_id) = length(bytes.iter())?;
-                    // TODO: Validate 1 +. Tests are working either way
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     id = Some(sub_id);
                 }
-- 
2.43.0


From 285d41357500eefbda2b3a2f8d44cd33c1258ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 4/7] fix: DISCONNECT without properties is written and read
 with its exact length

---
 src/disconnect.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/disconnect.rs b/src/disconnect.rs
index 7931da4..a39e887 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -260,7 +260,7 @@ impl Disconnect {
         if self.reason_code == DisconnectReasonCode::NormalDisconnection
             && self.properties.is_none()
         {
-            return 2; // Packet type + 0x00
+            return 0; // Reason code and properties are omitted
         }
 
         let mut length = 0;
@@ -281,10 +281,6 @@ impl Disconnect {
     #[must_use]
     pub fn size(&self) -> usize {
         let len = self.len();
-        if len == 2 {
-            return len;
-        }
-
         let remaining_len_size = len_len(len);
 
         1 + remaining_len_size + len
@@ -310,6 +306,11 @@ impl Disconnect {
 
         let reason_code = read_u8(&mut bytes)?;
 
+        // No properties len or properties if remaining len < 2
+        if fixed_header.remaining_len < 2 {
+            return Ok(Self::new(reason_code.try_into()?));
+        }
+
         let disconnect = Self {
             reason_code: reason_code.try_into()?,
             properties: DisconnectProperties::extract(&mut bytes)?,
@@ -323,9 +324,9 @@ impl Disconnect {
 
         let length = self.len();
 
-        if length == 2 {
+        if length == 0 {
             buffer.put_u8(0x00);
-            return Ok(length);
+            return Ok(2);
         }
 
         let len_len = write_remaining_length(buffer, length)?;
@@ -334,8 +335,6 @@ impl Disconnect {
 
         if let Some(properties) = &self.properties {
             properties.write(buffer)?;
-        } else {
-            write_remaining_length(buffer, 0)?;
         }
 
         Ok(1 + len_len + length)
-- 
2.43.0


From b8dfd88d9993a343a3997dec0e103343f4cfa723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 5/7] fix: a truncated integer inside a complete frame is
 malformed, not incomplete

---
 src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7c80fe6..3fb2e31 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -428,7 +428,11 @@ pub(crate) fn parse_fixed_header(mut stream: Iter<u8>) -> Result<FixedHeader, Er
     }
 
     let byte1 = stream.next().unwrap();
-    let (len_len, len) = length(stream)?;
+    let (len_len, len) = match length(stream) {
+        // wait for one more byte
+        Err(Error::MalformedPacket) => return Err(Error::InsufficientBytes(1)),
+        other => other?,
+    };
 
     Ok(FixedHeader::new(*byte1, len_len, len))
 }
@@ -466,10 +470,9 @@ fn length(stream: Iter<u8>) -> Result<(usize, usize), Error> {
         }
     }
 
-    // Not enough bytes to frame remaining length. wait for
-    // one more byte
+    // Not enough bytes to frame the integer
     if !done {
-        return Err(Error::InsufficientBytes(1));
+        return Err(Error::MalformedPacket);
     }
 
     Ok((len_len, len))
-- 
2.43.0


From fc9c35de76f9adca2e069797cea0cc78baadbc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 6/7] fix: reject a packet whose last property runs past the
 property length

---
 src/connack.rs     |  5 +++++
 src/connect.rs     | 10 ++++++++++
 src/disconnect.rs  |  5 +++++
 src/puback.rs      |  5 +++++
 src/pubcomp.rs     |  5 +++++
 src/publish.rs     |  5 +++++
 src/pubrec.rs      |  5 +++++
 src/pubrel.rs      |  5 +++++
 src/suback.rs      |  5 +++++
 src/subscribe.rs   |  5 +++++
 src/unsuback.rs    |  5 +++++
 src/unsubscribe.rs |  5 +++++
 12 files changed, 65 insertions(+)

diff --git a/src/connack.rs b/src/connack.rs
index 7f2f4c4..e6d02e6 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -320,6 +320,11 @@ impl ConnAckProperties {
             }
         }
 
+        // the last property must end exactly at the property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(ConnAckProperties {
             session_expiry_interval,
             receive_max,
diff --git a/src/connect.rs b/src/connect.rs
index 6773ff0..aee9cac 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -238,6 +238,11 @@ impl ConnectProperties {
             }
         }
 
+        // the last property must end exactly at the property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(ConnectProperties {
             session_expiry_interval,
             receive_maximum,
@@ -532,6 +537,11 @@ impl LastWillProperties {
             }
         }
 
+        // the last property must end exactly at the property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(LastWillProperties {
             delay_interval,
             payload_format_indicator,
diff --git a/src/disconnect.rs b/src/disconnect.rs
index a39e887..25ee71d 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -208,6 +208,11 @@ impl DisconnectProperties {
             }
         }
 
+        // the last property must end exactly at the property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         let properties = Self {
             session_expiry_interval,
             reason_string,
diff --git a/src/puback.rs b/src/puback.rs
index bb7902f..2fc11cc 100644
--- a/src/puback.rs
+++ b/src/puback.rs
@@ -179,6 +179,11 @@ impl PubAckProperties {
             }
         }
 
+        // the last property must end exactly at the property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/pubcomp.rs b/src/pubcomp.rs
index d3cc6f1..9675d1c 100644
--- a/src/pubcomp.rs
+++ b/src/pubcomp.rs
@@ -172,6 +172,11 @@ impl PubCompProperties {
             }
         }
 
+        // the last property must end exactly at the property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubCompProperties {
             reason_string,
             user_properties,
diff --git a/src/publish.rs b/src/publish.rs
index 2576c96..a904d4f 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -244,6 +244,11 @@ impl PublishProperties {
             }
         }
 
+        // the last property must end exactly at the property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PublishProperties {
             payload_format_indicator,
             message_expiry_interval,
diff --git a/src/pubrec.rs b/src/pubrec.rs
index 888a5af..c767c7d 100644
--- a/src/pubrec.rs
+++ b/src/pubrec.rs
@@ -174,6 +174,11 @@ impl PubRecProperties {
             }
         }
 
+        // the last property must end exactly at the property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubRecProperties {
             reason_string,
             user_properties,
diff --git a/src/pubrel.rs b/src/pubrel.rs
index 70c4065..aedd6d8 100644
--- a/src/pubrel.rs
+++ b/src/pubrel.rs
@@ -173,6 +173,11 @@ impl PubRelProperties {
             }
         }
 
+        // the last property must end exactly at the property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubRelProperties {
             reason_string,
             user_properties,
diff --git a/src/suback.rs b/src/suback.rs
index 8319041..44705bc 100644
--- a/src/suback.rs
+++ b/src/suback.rs
@@ -151,6 +151,11 @@ impl SubAckProperties {
             }
         }
 
+        // the last property must end exactly at the property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(SubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 2765996..6ea7667 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -255,6 +255,11 @@ impl SubscribeProperties {
             }
         }
 
+        // the last property must end exactly at the property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(SubscribeProperties {
             id,
             user_properties,
diff --git a/src/unsuback.rs b/src/unsuback.rs
index 76a7bbc..891d36a 100644
--- a/src/unsuback.rs
+++ b/src/unsuback.rs
@@ -148,6 +148,11 @@ impl UnsubAckProperties {
             }
         }
 
+        // the last property must end exactly at the property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(UnsubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index cef2250..0521782 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -137,6 +137,11 @@ impl UnsubscribeProperties {
             }
         }
 
+        // the last property must end exactly at the property length
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(UnsubscribeProperties { user_properties }))
     }
 
-- 
2.43.0


From 27f4580b9d3a297c04af3757d28839add40eea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 7/7] fix: Packet::write leaves nothing in the buffer when it
 fails

---
 src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3fb2e31..de23b8e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -216,7 +216,8 @@ impl Packet {
     }
 
     pub fn write(&self, write: &mut BytesMut) -> Result<usize, Error> {
-        match self {
+        let start = write.len();
+        let result = match self {
             Self::Publish(publish) => publish.write(write),
             Self::Subscribe(subscription) => subscription.write(write),
             Self::Unsubscribe(unsubscribe) => unsubscribe.write(write),
@@ -231,7 +232,14 @@ impl Packet {
             Self::PingReq(_) => PingReq::write(write),
             Self::PingResp(_) => PingResp::write(write),
             Self::Disconnect(disconnect) => disconnect.write(write),
+        };
+
+        // don't leave a partially written packet in front of the next one
+        if result.is_err() {
+            write.truncate(start);
         }
+
+        result
     }
 }
 
-- 
2.43.0

