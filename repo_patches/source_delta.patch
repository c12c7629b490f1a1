From af7a09cd2b5970ba69d6630f9e24707b3a4cd454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 01/49] fix: an ERROR response replaces a partly written
 response instead of being appended to it

---
 codec/src/codec.rs                       | 5 +++++
 spdmlib/src/responder/challenge_rsp.rs   | 2 +-
 spdmlib/src/responder/error_rsp.rs       | 2 ++
 spdmlib/src/responder/measurement_rsp.rs | 2 +-
 4 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/codec/src/codec.rs b/codec/src/codec.rs
index 46ebe51..e1fef46 100644
--- a/codec/src/codec.rs
+++ b/codec/src/codec.rs
@@ -65,6 +65,11 @@ impl<'a> Writer<'a> {
         }
     }
 
+    /// Discard everything written so far.
+    pub fn clear(&mut self) {
+        self.offs = 0;
+    }
+
     pub fn extend_from_slice(&mut self, value: &[u8]) -> Option<usize> {
         if self.left() < value.len() {
             return None;
diff --git a/spdmlib/src/responder/challenge_rsp.rs b/spdmlib/src/responder/challenge_rsp.rs
index 5974d33..1272d4b 100644
--- a/spdmlib/src/responder/challenge_rsp.rs
+++ b/spdmlib/src/responder/challenge_rsp.rs
@@ -172,7 +172,7 @@ impl<'a> ResponderContext<'a> {
 
         let signature = self.generate_challenge_auth_signature();
         if signature.is_err() {
-            self.send_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0);
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return;
         }
         let signature = signature.unwrap();
diff --git a/spdmlib/src/responder/error_rsp.rs b/spdmlib/src/responder/error_rsp.rs
index a8c3f76..a55ced1 100644
--- a/spdmlib/src/responder/error_rsp.rs
+++ b/spdmlib/src/responder/error_rsp.rs
@@ -27,6 +27,8 @@ impl<'a> ResponderContext<'a> {
                 ),
             }),
         };
+        // the error replaces whatever part of a response was already written
+        writer.clear();
         let _ = error.spdm_encode(&mut self.common, writer);
     }
 
diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index f4d53e7..390f827 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -230,7 +230,7 @@ impl<'a> ResponderContext<'a> {
 
             let signature = self.generate_measurement_signature(session_id);
             if signature.is_err() {
-                self.send_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0);
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
                 return;
             }
             let signature = signature.unwrap();
-- 
2.43.0


From 55452da551d916ca267a16f1b7f38a6a59915f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 02/49] fix: application replies do not drive the session state
 of the responder

---
 spdmlib/src/responder/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index 357fdab..e3f0aa5 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -117,7 +117,7 @@ impl<'a> ResponderContext<'a> {
             is_app_message,
         )?;
         let result = self.common.device_io.send(&transport_buffer[..used]);
-        if result.is_ok() {
+        if result.is_ok() && !is_app_message {
             let opcode = send_buffer[1];
             // change state after message is sent.
             if opcode == SpdmRequestResponseCode::SpdmResponseEndSessionAck.get_u8() {
-- 
2.43.0


From 25ec30f20cf70afef98081656723df358cb2298c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 03/49] fix: application data reaches the handler only in an
 established session, and its failure is no panic

---
 spdmlib/src/responder/context.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index e3f0aa5..4c546fd 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -368,8 +368,15 @@ impl<'a> ResponderContext<'a> {
     ) -> SpdmResult {
         debug!("dispatching secured app message\n");
 
+        // application data is only carried by an established session
+        let session = self.common.get_immutable_session_via_id(session_id);
+        if session.map(|s| s.get_session_state()) != Some(SpdmSessionState::SpdmSessionEstablished)
+        {
+            return Err(SPDM_STATUS_UNSUPPORTED_CAP);
+        }
+
         let (rsp_app_buffer, size) =
-            dispatch_secured_app_message_cb(self, session_id, bytes, auxiliary_app_data).unwrap();
+            dispatch_secured_app_message_cb(self, session_id, bytes, auxiliary_app_data)?;
         self.send_secured_message(session_id, &rsp_app_buffer[..size], true)
     }
     pub fn dispatch_message(&mut self, bytes: &[u8]) -> SpdmResult {
-- 
2.43.0


From 4ff6228efe4c4556982e22c4fc62a04127dbf008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:28 +0000
Subject: [PATCH 04/49] fix: DIGESTS carries the digest of every provisioned
 slot in its own place, and a failing hash is an error

---
 spdmlib/src/requester/encap_digest.rs | 61 +++++++++++----------------
 spdmlib/src/responder/digest_rsp.rs   | 23 ++++++----
 2 files changed, 39 insertions(+), 45 deletions(-)

diff --git a/spdmlib/src/requester/encap_digest.rs b/spdmlib/src/requester/encap_digest.rs
index 0a2c5b5..0840142 100644
--- a/spdmlib/src/requester/encap_digest.rs
+++ b/spdmlib/src/requester/encap_digest.rs
@@ -72,9 +72,31 @@ impl<'a> RequesterContext<'a> {
         }
 
         let mut slot_mask = 0u8;
+        let mut slot_count = 0usize;
+        let mut digests = gen_array_clone(
+            SpdmDigestStruct {
+                data_size: self.common.negotiate_info.base_hash_sel.get_size(),
+                data: Box::new([0xffu8; SPDM_MAX_HASH_SIZE]),
+            },
+            SPDM_MAX_SLOT_NUMBER,
+        );
         for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.common.provision_info.my_cert_chain[slot_id].is_some() {
+            if let Some(my_cert_chain) = &self.common.provision_info.my_cert_chain[slot_id] {
+                if let Some(cert_chain_hash) = crypto::hash::hash_all(
+                    self.common.negotiate_info.base_hash_sel,
+                    my_cert_chain.as_ref(),
+                ) {
+                    digests[slot_count] = cert_chain_hash;
+                } else {
+                    self.encode_encap_error_response(
+                        SpdmErrorCode::SpdmErrorUnspecified,
+                        0,
+                        encap_response,
+                    );
+                    return;
+                }
                 slot_mask |= (1 << slot_id) as u8;
+                slot_count += 1;
             }
         }
 
@@ -85,45 +107,12 @@ impl<'a> RequesterContext<'a> {
             },
             payload: SpdmMessagePayload::SpdmDigestsResponse(SpdmDigestsResponsePayload {
                 slot_mask,
-                digests: gen_array_clone(
-                    SpdmDigestStruct {
-                        data_size: self.common.negotiate_info.base_hash_sel.get_size(),
-                        data: Box::new([0xffu8; SPDM_MAX_HASH_SIZE]),
-                    },
-                    SPDM_MAX_SLOT_NUMBER,
-                ),
+                digests,
             }),
         };
 
-        if response
-            .spdm_encode(&mut self.common, encap_response)
-            .is_err()
-        {
-            self.encode_encap_error_response(
-                SpdmErrorCode::SpdmErrorUnspecified,
-                0,
-                encap_response,
-            );
-            return;
-        }
-
-        for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.common.provision_info.my_cert_chain[slot_id].is_some() {
-                let my_cert_chain = self.common.provision_info.my_cert_chain[slot_id]
-                    .as_ref()
-                    .unwrap();
-                let cert_chain_hash = crypto::hash::hash_all(
-                    self.common.negotiate_info.base_hash_sel,
-                    my_cert_chain.as_ref(),
-                )
-                .unwrap();
+        let _ = response.spdm_encode(&mut self.common, encap_response);
 
-                // patch the message before send
-                let used = encap_response.used();
-                encap_response.mut_used_slice()[(used - cert_chain_hash.data_size as usize)..used]
-                    .copy_from_slice(cert_chain_hash.as_ref());
-            }
-        }
         debug!("!!! encap get_digests : complete\n");
     }
 }
diff --git a/spdmlib/src/responder/digest_rsp.rs b/spdmlib/src/responder/digest_rsp.rs
index b1b7ef2..c7d2410 100644
--- a/spdmlib/src/responder/digest_rsp.rs
+++ b/spdmlib/src/responder/digest_rsp.rs
@@ -110,21 +110,26 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
+        // the digests follow in slot order at the end of the message
+        let mut offset =
+            writer.used() - slot_mask.count_ones() as usize * digest_size as usize;
         for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.common.provision_info.my_cert_chain[slot_id].is_some() {
-                let my_cert_chain = self.common.provision_info.my_cert_chain[slot_id]
-                    .as_ref()
-                    .unwrap();
+            if let Some(my_cert_chain) = &self.common.provision_info.my_cert_chain[slot_id] {
                 let cert_chain_hash = crypto::hash::hash_all(
                     self.common.negotiate_info.base_hash_sel,
                     my_cert_chain.as_ref(),
-                )
-                .unwrap();
+                );
+                let cert_chain_hash = if let Some(cert_chain_hash) = cert_chain_hash {
+                    cert_chain_hash
+                } else {
+                    self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                    return;
+                };
 
                 // patch the message before send
-                let used = writer.used();
-                writer.mut_used_slice()[(used - cert_chain_hash.data_size as usize)..used]
-                    .copy_from_slice(cert_chain_hash.as_ref());
+                let end = offset + digest_size as usize;
+                writer.mut_used_slice()[offset..end].copy_from_slice(cert_chain_hash.as_ref());
+                offset = end;
             }
         }
 
-- 
2.43.0


From 858f446d5dfb727d1fab77ab6433937fe1b661ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 05/49] fix: encapsulated exchanges are served only when the
 handshake asked for them, and FINISH needs the chain delivered in its session

---
 spdmlib/src/responder/encap_rsp.rs  | 103 +++++++++++++++++++---------
 spdmlib/src/responder/finish_rsp.rs |   6 ++
 2 files changed, 78 insertions(+), 31 deletions(-)

diff --git a/spdmlib/src/responder/encap_rsp.rs b/spdmlib/src/responder/encap_rsp.rs
index 4b8044e..9c25230 100644
--- a/spdmlib/src/responder/encap_rsp.rs
+++ b/spdmlib/src/responder/encap_rsp.rs
@@ -5,11 +5,13 @@
 use codec::{Codec, Reader, Writer};
 
 use crate::{
-    common::{SpdmCodec, SpdmConnectionState},
+    common::SpdmCodec,
     config,
     error::{
-        SpdmResult, SPDM_STATUS_BUFFER_FULL, SPDM_STATUS_INVALID_MSG_FIELD,
-        SPDM_STATUS_INVALID_MSG_SIZE, SPDM_STATUS_NOT_READY_PEER, SPDM_STATUS_UNSUPPORTED_CAP,
+        SpdmResult, SPDM_STATUS_BUFFER_FULL, SPDM_STATUS_CRYPTO_ERROR,
+        SPDM_STATUS_INVALID_MSG_FIELD, SPDM_STATUS_INVALID_MSG_SIZE,
+        SPDM_STATUS_INVALID_STATE_LOCAL, SPDM_STATUS_INVALID_STATE_PEER,
+        SPDM_STATUS_NOT_READY_PEER, SPDM_STATUS_UNSUPPORTED_CAP,
     },
     message::{
         SpdmDeliverEncapsulatedResponsePayload, SpdmEncapsulatedRequestPayload,
@@ -26,11 +28,16 @@ impl<'a> ResponderContext<'a> {
         let mut encapsulated_request = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut encapsulated_request);
 
-        self.encap_check_version_cap_state(
-            SpdmRequestResponseCode::SpdmRequestGetEncapsulatedRequest.get_u8(),
-            &mut writer,
-        );
-        self.write_encap_request_response(bytes, &mut writer);
+        if self
+            .encap_check_version_cap_state(
+                session_id,
+                SpdmRequestResponseCode::SpdmRequestGetEncapsulatedRequest.get_u8(),
+                &mut writer,
+            )
+            .is_ok()
+        {
+            self.write_encap_request_response(bytes, &mut writer);
+        }
 
         self.send_secured_message(session_id, writer.used_slice(), false)
     }
@@ -81,16 +88,26 @@ impl<'a> ResponderContext<'a> {
         let mut encap_response_ack = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut encap_response_ack);
 
-        self.encap_check_version_cap_state(
-            SpdmRequestResponseCode::SpdmRequestGetEncapsulatedRequest.get_u8(),
-            &mut writer,
-        );
-        self.write_encap_response_ack_response(bytes, &mut writer);
+        if self
+            .encap_check_version_cap_state(
+                session_id,
+                SpdmRequestResponseCode::SpdmRequestDeliverEncapsulatedResponse.get_u8(),
+                &mut writer,
+            )
+            .is_ok()
+        {
+            self.write_encap_response_ack_response(session_id, bytes, &mut writer);
+        }
 
         self.send_secured_message(session_id, writer.used_slice(), false)
     }
 
-    fn write_encap_response_ack_response(&mut self, bytes: &[u8], writer: &mut Writer) {
+    fn write_encap_response_ack_response(
+        &mut self,
+        session_id: u32,
+        bytes: &[u8],
+        writer: &mut Writer,
+    ) {
         let mut reader = Reader::init(bytes);
         if let Some(request_header) = SpdmMessageHeader::read(&mut reader) {
             if request_header.version != self.common.negotiate_info.spdm_version_sel {
@@ -112,28 +129,32 @@ impl<'a> ResponderContext<'a> {
         };
 
         if self
-            .process_encapsulated_response(&encap_response_payload, &bytes[reader.used()..], writer)
+            .process_encapsulated_response(
+                session_id,
+                &encap_response_payload,
+                &bytes[reader.used()..],
+                writer,
+            )
             .is_err()
         {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidResponseCode, 0, writer);
         }
     }
 
-    fn encap_check_version_cap_state(&mut self, request_response_code: u8, writer: &mut Writer) {
+    // On failure the error response is in the writer.
+    fn encap_check_version_cap_state(
+        &mut self,
+        session_id: u32,
+        request_response_code: u8,
+        writer: &mut Writer,
+    ) -> SpdmResult {
         if self.common.negotiate_info.spdm_version_sel.get_u8()
             < SpdmVersion::SpdmVersion11.get_u8()
-        {
-            self.send_spdm_error(
-                SpdmErrorCode::SpdmErrorUnsupportedRequest,
-                request_response_code,
-            )
-        }
-
-        if !self
-            .common
-            .negotiate_info
-            .req_capabilities_sel
-            .contains(SpdmRequestCapabilityFlags::ENCAP_CAP)
+            || !self
+                .common
+                .negotiate_info
+                .req_capabilities_sel
+                .contains(SpdmRequestCapabilityFlags::ENCAP_CAP)
             || !self
                 .common
                 .negotiate_info
@@ -145,18 +166,24 @@ impl<'a> ResponderContext<'a> {
                 request_response_code,
                 writer,
             );
-            return;
+            return Err(SPDM_STATUS_UNSUPPORTED_CAP);
         }
 
-        if self.common.runtime_info.get_connection_state().get_u8()
-            < SpdmConnectionState::SpdmConnectionAfterCertificate.get_u8()
+        // the exchange is part of a handshake that asked for mutual authentication
+        if self
+            .common
+            .get_immutable_session_via_id(session_id)
+            .map_or(true, |session| session.get_mut_auth_requested().is_empty())
         {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnexpectedRequest, 0, writer);
+            return Err(SPDM_STATUS_INVALID_STATE_PEER);
         }
+        Ok(())
     }
 
     fn process_encapsulated_response(
         &mut self,
+        session_id: u32,
         encap_response_payload: &SpdmDeliverEncapsulatedResponsePayload,
         encap_response: &[u8],
         encap_response_ack: &mut Writer,
@@ -186,6 +213,8 @@ impl<'a> ResponderContext<'a> {
         match deliver_encap_response.request_response_code {
             SpdmRequestResponseCode::SpdmResponseDigests => {
                 self.handle_encap_response_digest(encap_response)?;
+                // a certificate retrieval starts here, whatever an earlier one left behind
+                self.common.peer_info.peer_cert_chain_temp = None;
 
                 let _ = ack_params.spdm_encode(&mut self.common, encap_response_ack);
                 self.encode_encap_requst_get_certificate(encap_response_ack)
@@ -197,6 +226,18 @@ impl<'a> ResponderContext<'a> {
                             let _ = ack_params.spdm_encode(&mut self.common, encap_response_ack)?;
                             self.encode_encap_requst_get_certificate(encap_response_ack)
                         } else {
+                            let req_cert_hash = self
+                                .common
+                                .get_certchain_hash_peer(
+                                    false,
+                                    self.common.encap_context.req_slot_id as usize,
+                                )
+                                .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
+                            let session = self
+                                .common
+                                .get_session_via_id(session_id)
+                                .ok_or(SPDM_STATUS_INVALID_STATE_LOCAL)?;
+                            session.runtime_info.req_cert_hash = Some(req_cert_hash);
                             ack_params.payload_type =
                                 SpdmEncapsulatedResponseAckPayloadType::ReqSlotNumber;
                             let _ = ack_params.spdm_encode(&mut self.common, encap_response_ack)?;
diff --git a/spdmlib/src/responder/finish_rsp.rs b/spdmlib/src/responder/finish_rsp.rs
index 2412a7a..25c9f72 100644
--- a/spdmlib/src/responder/finish_rsp.rs
+++ b/spdmlib/src/responder/finish_rsp.rs
@@ -107,6 +107,12 @@ impl<'a> ResponderContext<'a> {
                 .get_immutable_session_via_id(session_id)
                 .unwrap();
 
+            // the certificate chain must have been delivered in this very session
+            if session.runtime_info.req_cert_hash.is_none() {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorUnexpectedRequest, 0, writer);
+                return Err(SPDM_STATUS_INVALID_STATE_PEER);
+            }
+
             if self
                 .verify_finish_req_signature(&finish_req.signature, session)
                 .is_err()
-- 
2.43.0


From 9af93773a39192585a860326d648cd4b0809d90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 06/49] fix: a failed or unsendable session exchange answers
 with an ERROR and gives its session place back

---
 spdmlib/src/responder/error_rsp.rs        | 34 ++++++++++++++++++++++-
 spdmlib/src/responder/key_exchange_rsp.rs | 32 +++++++++++++++------
 spdmlib/src/responder/psk_exchange_rsp.rs | 28 +++++++++++++------
 3 files changed, 76 insertions(+), 18 deletions(-)

diff --git a/spdmlib/src/responder/error_rsp.rs b/spdmlib/src/responder/error_rsp.rs
index a55ced1..9197959 100644
--- a/spdmlib/src/responder/error_rsp.rs
+++ b/spdmlib/src/responder/error_rsp.rs
@@ -3,7 +3,7 @@
 // SPDX-License-Identifier: BSD-2-Clause-Patent
 
 use crate::common::SpdmCodec;
-use crate::error::SpdmResult;
+use crate::error::{SpdmResult, SPDM_STATUS_BUFFER_FULL};
 use crate::message::*;
 use crate::responder::*;
 
@@ -32,6 +32,38 @@ impl<'a> ResponderContext<'a> {
         let _ = error.spdm_encode(&mut self.common, writer);
     }
 
+    // A session handler failed, or its response does not fit the requester's buffer: what goes out
+    // must be an ERROR, and nothing of the response it replaces.
+    pub(crate) fn write_spdm_failure(&mut self, writer: &mut Writer) {
+        let is_error = writer
+            .used_slice()
+            .get(1)
+            .map_or(false, |code| *code == SpdmRequestResponseCode::SpdmResponseError.get_u8());
+        if !is_error {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+        }
+    }
+
+    pub(crate) fn check_response_size(&mut self, writer: &mut Writer) -> SpdmResult {
+        let limit = self.common.negotiate_info.req_data_transfer_size_sel as usize;
+        if limit != 0 && writer.used() > limit {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, writer);
+            return Err(SPDM_STATUS_BUFFER_FULL);
+        }
+        Ok(())
+    }
+
+    pub(crate) fn abandon_session(&mut self, session_id: Option<u32>) {
+        if let Some(session_id) = session_id {
+            if let Some(session) = self.common.get_session_via_id(session_id) {
+                let _ = session.teardown(session_id);
+            }
+            if self.common.runtime_info.get_last_session_id() == Some(session_id) {
+                self.common.runtime_info.set_last_session_id(None);
+            }
+        }
+    }
+
     pub fn send_spdm_error(&mut self, error_code: SpdmErrorCode, error_data: u8) {
         info!("send spdm version\n");
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index 66321b5..b0086a3 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -25,14 +25,29 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_key_exchange(&mut self, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_key_exchange_response(bytes, &mut writer)?;
-        self.send_message(writer.used_slice())
+        // the session this request creates, to be given up when it does not get its response
+        let mut new_session_id = None;
+        let mut result =
+            self.write_spdm_key_exchange_response(bytes, &mut writer, &mut new_session_id);
+        if result.is_ok() {
+            result = self.check_response_size(&mut writer);
+        }
+        if result.is_err() {
+            self.abandon_session(new_session_id);
+            self.write_spdm_failure(&mut writer);
+        }
+        let sent = self.send_message(writer.used_slice());
+        if sent.is_err() {
+            self.abandon_session(new_session_id);
+        }
+        result.and(sent)
     }
 
     pub fn write_spdm_key_exchange_response(
         &mut self,
         bytes: &[u8],
         writer: &mut Writer,
+        new_session_id: &mut Option<u32>,
     ) -> SpdmResult {
         if self.common.runtime_info.get_connection_state().get_u8()
             < SpdmConnectionState::SpdmConnectionNegotiated.get_u8()
@@ -180,8 +195,12 @@ impl<'a> ResponderContext<'a> {
             .runtime_info
             .set_local_used_cert_chain_slot_id(key_exchange_req.slot_id);
 
-        let (exchange, key_exchange_context) =
-            crypto::dhe::generate_key_pair(self.common.negotiate_info.dhe_sel).unwrap();
+        let key_pair = crypto::dhe::generate_key_pair(self.common.negotiate_info.dhe_sel);
+        if key_pair.is_none() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
+        let (exchange, key_exchange_context) = key_pair.unwrap();
 
         debug!("!!! exchange data : {:02x?}\n", exchange);
 
@@ -237,13 +256,13 @@ impl<'a> ResponderContext<'a> {
         let session = session.unwrap();
         let session_id = ((rsp_session_id as u32) << 16) + key_exchange_req.req_session_id as u32;
         session.setup(session_id).unwrap();
+        *new_session_id = Some(session_id);
         session.set_use_psk(false);
         session.set_slot_id(slot_id as u8);
         session.set_crypto_param(hash_algo, dhe_algo, aead_algo, key_schedule_algo);
         session.set_mut_auth_requested(mut_auth_req);
         session.set_transport_param(sequence_number_count, max_random_count);
         if session.set_dhe_secret(spdm_version_sel, final_key).is_err() {
-            let _ = session.teardown(session_id);
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return Err(SPDM_STATUS_CRYPTO_ERROR);
         }
@@ -391,7 +410,6 @@ impl<'a> ResponderContext<'a> {
 
             let hmac = session.generate_hmac_with_response_finished_key(transcript_hash.as_ref());
             if hmac.is_err() {
-                let _ = session.teardown(session_id);
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
                 return Err(SPDM_STATUS_CRYPTO_ERROR);
             }
@@ -403,8 +421,6 @@ impl<'a> ResponderContext<'a> {
                 .append_message_k(session_id, hmac.as_ref())
                 .is_err()
             {
-                let session = self.common.get_session_via_id(session_id).unwrap();
-                let _ = session.teardown(session_id);
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
                 return Err(SPDM_STATUS_CRYPTO_ERROR);
             }
diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index 06a49d5..eeb60e0 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -25,14 +25,29 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_psk_exchange(&mut self, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_psk_exchange_response(bytes, &mut writer)?;
-        self.send_message(writer.used_slice())
+        // the session this request creates, to be given up when it does not get its response
+        let mut new_session_id = None;
+        let mut result =
+            self.write_spdm_psk_exchange_response(bytes, &mut writer, &mut new_session_id);
+        if result.is_ok() {
+            result = self.check_response_size(&mut writer);
+        }
+        if result.is_err() {
+            self.abandon_session(new_session_id);
+            self.write_spdm_failure(&mut writer);
+        }
+        let sent = self.send_message(writer.used_slice());
+        if sent.is_err() {
+            self.abandon_session(new_session_id);
+        }
+        result.and(sent)
     }
 
     pub fn write_spdm_psk_exchange_response(
         &mut self,
         bytes: &[u8],
         writer: &mut Writer,
+        new_session_id: &mut Option<u32>,
     ) -> SpdmResult {
         if self.common.runtime_info.get_connection_state().get_u8()
             < SpdmConnectionState::SpdmConnectionNegotiated.get_u8()
@@ -207,6 +222,7 @@ impl<'a> ResponderContext<'a> {
         let session_id =
             ((rsp_session_id as u32) << 16) + psk_exchange_req.unwrap().req_session_id as u32;
         session.setup(session_id).unwrap();
+        *new_session_id = Some(session_id);
         session.set_use_psk(true);
 
         session.set_crypto_param(hash_algo, dhe_algo, aead_algo, key_schedule_algo);
@@ -303,8 +319,6 @@ impl<'a> ResponderContext<'a> {
 
         let hmac = session.generate_hmac_with_response_finished_key(transcript_hash.as_ref());
         if hmac.is_err() {
-            let session = self.common.get_session_via_id(session_id).unwrap();
-            let _ = session.teardown(session_id);
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return Err(SPDM_STATUS_CRYPTO_ERROR);
         }
@@ -316,8 +330,6 @@ impl<'a> ResponderContext<'a> {
             .append_message_k(session_id, hmac.as_ref())
             .is_err()
         {
-            let session = self.common.get_session_via_id(session_id).unwrap();
-            let _ = session.teardown(session_id);
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return Err(SPDM_STATUS_CRYPTO_ERROR);
         }
@@ -346,9 +358,7 @@ impl<'a> ResponderContext<'a> {
             debug!("!!! th2 : {:02x?}\n", th2.as_ref());
             let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
             let session = self.common.get_session_via_id(session_id).unwrap();
-            session
-                .generate_data_secret(spdm_version_sel, &th2)
-                .unwrap();
+            session.generate_data_secret(spdm_version_sel, &th2)?;
             session.set_session_state(
                 crate::common::session::SpdmSessionState::SpdmSessionEstablished,
             );
-- 
2.43.0


From cdd1dd34ad2d3ce191889c72a840d12b86c6df86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 07/49] fix: KEY_EXCHANGE_RSP of a handshake in the clear
 carries its signature

---
 spdmlib/src/responder/key_exchange_rsp.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index b0086a3..e6d5d57 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -362,6 +362,10 @@ impl<'a> ResponderContext<'a> {
         }
         let signature = signature.unwrap();
 
+        // patch the message before send
+        writer.mut_used_slice()[temp_used..(temp_used + base_asym_size)]
+            .copy_from_slice(signature.as_ref());
+
         if self
             .common
             .append_message_k(session_id, signature.as_ref())
@@ -426,9 +430,6 @@ impl<'a> ResponderContext<'a> {
             }
 
             // patch the message before send
-            writer.mut_used_slice()
-                [(used - base_hash_size - base_asym_size)..(used - base_hash_size)]
-                .copy_from_slice(signature.as_ref());
             writer.mut_used_slice()[(used - base_hash_size)..used].copy_from_slice(hmac.as_ref());
         }
 
-- 
2.43.0


From eaa8b8c45bce540c0438724869f4b5f08ba97ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 08/49] fix: the responder's PSK context is random

---
 spdmlib/src/responder/psk_exchange_rsp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index eeb60e0..3dbbe0e 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -185,7 +185,7 @@ impl<'a> ResponderContext<'a> {
             MAX_SPDM_PSK_CONTEXT_SIZE as u16
         };
         let mut psk_context = [0u8; MAX_SPDM_PSK_CONTEXT_SIZE];
-        if psk_without_context {
+        if !psk_without_context {
             let res = crypto::rand::get_random(&mut psk_context);
             if res.is_err() {
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-- 
2.43.0


From 7e82c684f83c42314094bb0882c0e3fb691c11d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:30 +0000
Subject: [PATCH 09/49] fix: a hash context that cannot be duplicated is an
 error, not a panic

---
 spdmlib/src/crypto/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/crypto/mod.rs b/spdmlib/src/crypto/mod.rs
index 2bdccb9..6bff06e 100644
--- a/spdmlib/src/crypto/mod.rs
+++ b/spdmlib/src/crypto/mod.rs
@@ -72,7 +72,8 @@ pub mod hash {
 
         impl Clone for SpdmHashCtx {
             fn clone(&self) -> Self {
-                hash_ctx_dup(self).expect("Out of resource")
+                // the default context is invalid: every use of it fails
+                hash_ctx_dup(self).unwrap_or_default()
             }
         }
 
-- 
2.43.0


From 4e2475210952c8626420bbde6a616e9a66418e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 10/49] fix: a FINISH or PSK_FINISH that fails is answered with
 an ERROR and ends the session it would have completed

---
 spdmlib/src/responder/finish_rsp.rs     | 64 +++++++++++++++----------
 spdmlib/src/responder/psk_finish_rsp.rs | 20 +++++++-
 2 files changed, 58 insertions(+), 26 deletions(-)

diff --git a/spdmlib/src/responder/finish_rsp.rs b/spdmlib/src/responder/finish_rsp.rs
index 25c9f72..ce4ed92 100644
--- a/spdmlib/src/responder/finish_rsp.rs
+++ b/spdmlib/src/responder/finish_rsp.rs
@@ -32,12 +32,25 @@ impl<'a> ResponderContext<'a> {
 
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_finish_response(session_id, bytes, &mut writer)?;
-        if in_clear_text {
+        // the session this request works on, once it cannot go on without its response
+        let mut failed_session_id = None;
+        let mut result =
+            self.write_spdm_finish_response(session_id, bytes, &mut writer, &mut failed_session_id);
+        if result.is_ok() {
+            result = self.check_response_size(&mut writer);
+        }
+        if result.is_err() {
+            self.write_spdm_failure(&mut writer);
+        }
+        let sent = if in_clear_text {
             self.send_message(writer.used_slice())
         } else {
             self.send_secured_message(session_id, writer.used_slice(), false)
+        };
+        if result.is_err() || sent.is_err() {
+            self.abandon_session(failed_session_id);
         }
+        result.and(sent)
     }
 
     // Return true on success, false otherwise.
@@ -46,6 +59,7 @@ impl<'a> ResponderContext<'a> {
         session_id: u32,
         bytes: &[u8],
         writer: &mut Writer,
+        failed_session_id: &mut Option<u32>,
     ) -> SpdmResult {
         let mut reader = Reader::init(bytes);
         let message_header = SpdmMessageHeader::read(&mut reader);
@@ -74,15 +88,6 @@ impl<'a> ResponderContext<'a> {
         }
         let finish_req = finish_req.unwrap();
 
-        if self
-            .common
-            .append_message_f(false, session_id, &bytes[..4])
-            .is_err()
-        {
-            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-            return Err(SPDM_STATUS_CRYPTO_ERROR);
-        }
-
         let mut_auth_attributes = self
             .common
             .get_immutable_session_via_id(session_id)
@@ -101,18 +106,36 @@ impl<'a> ResponderContext<'a> {
         }
 
         let is_mut_auth = !mut_auth_attributes.is_empty();
+        let session = self
+            .common
+            .get_immutable_session_via_id(session_id)
+            .unwrap();
+        if session.get_use_psk() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
+            return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+        }
+        // the certificate chain must have been delivered in this very session
+        if is_mut_auth && session.runtime_info.req_cert_hash.is_none() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnexpectedRequest, 0, writer);
+            return Err(SPDM_STATUS_INVALID_STATE_PEER);
+        }
+
+        *failed_session_id = Some(session_id);
+        if self
+            .common
+            .append_message_f(false, session_id, &bytes[..4])
+            .is_err()
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
+
         if is_mut_auth {
             let session = self
                 .common
                 .get_immutable_session_via_id(session_id)
                 .unwrap();
 
-            // the certificate chain must have been delivered in this very session
-            if session.runtime_info.req_cert_hash.is_none() {
-                self.write_spdm_error(SpdmErrorCode::SpdmErrorUnexpectedRequest, 0, writer);
-                return Err(SPDM_STATUS_INVALID_STATE_PEER);
-            }
-
             if self
                 .verify_finish_req_signature(&finish_req.signature, session)
                 .is_err()
@@ -137,13 +160,6 @@ impl<'a> ResponderContext<'a> {
         let base_hash_size = self.common.negotiate_info.base_hash_sel.get_size() as usize;
 
         {
-            let session = self.common.get_session_via_id(session_id).unwrap();
-
-            if session.get_use_psk() {
-                self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
-                return Err(SPDM_STATUS_INVALID_MSG_FIELD);
-            }
-
             let session = self
                 .common
                 .get_immutable_session_via_id(session_id)
diff --git a/spdmlib/src/responder/psk_finish_rsp.rs b/spdmlib/src/responder/psk_finish_rsp.rs
index 5134fa2..7693c69 100644
--- a/spdmlib/src/responder/psk_finish_rsp.rs
+++ b/spdmlib/src/responder/psk_finish_rsp.rs
@@ -15,8 +15,22 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_psk_finish(&mut self, session_id: u32, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_psk_finish_response(session_id, bytes, &mut writer)?;
-        self.send_secured_message(session_id, writer.used_slice(), false)
+        // the session this request works on, once it cannot go on without its response
+        let mut failed_session_id = None;
+        let result = self.write_spdm_psk_finish_response(
+            session_id,
+            bytes,
+            &mut writer,
+            &mut failed_session_id,
+        );
+        if result.is_err() {
+            self.write_spdm_failure(&mut writer);
+        }
+        let sent = self.send_secured_message(session_id, writer.used_slice(), false);
+        if result.is_err() || sent.is_err() {
+            self.abandon_session(failed_session_id);
+        }
+        result.and(sent)
     }
 
     // Return true on success, false otherwise
@@ -25,6 +39,7 @@ impl<'a> ResponderContext<'a> {
         session_id: u32,
         bytes: &[u8],
         writer: &mut Writer,
+        failed_session_id: &mut Option<u32>,
     ) -> SpdmResult {
         let mut reader = Reader::init(bytes);
         let message_header = SpdmMessageHeader::read(&mut reader);
@@ -72,6 +87,7 @@ impl<'a> ResponderContext<'a> {
                 return Err(SPDM_STATUS_INVALID_MSG_FIELD);
             }
 
+            *failed_session_id = Some(session_id);
             if self
                 .common
                 .append_message_f(false, session_id, &bytes[..temp_used])
-- 
2.43.0


From 8eaaee313d23dfc17af1dd854d86f7707b6ba9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 11/49] fix: a vendor-defined request leaves the connection and
 sessions of the requester alone

---
 spdmlib/src/requester/vendor_req.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/spdmlib/src/requester/vendor_req.rs b/spdmlib/src/requester/vendor_req.rs
index b75e36b..acaaa28 100644
--- a/spdmlib/src/requester/vendor_req.rs
+++ b/spdmlib/src/requester/vendor_req.rs
@@ -21,9 +21,6 @@ impl<'a> RequesterContext<'a> {
             session_id,
         );
 
-        // clear cache data
-        self.common.reset_context();
-
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
         let request = SpdmMessage {
-- 
2.43.0


From 01e9fa8dc9b7935b9d70280485ffa73f247b0e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 12/49] fix: the requester selects only an offered version and
 forgets the previous connection with it

---
 spdmlib/src/requester/get_version_req.rs | 62 ++++++++++--------------
 1 file changed, 25 insertions(+), 37 deletions(-)

diff --git a/spdmlib/src/requester/get_version_req.rs b/spdmlib/src/requester/get_version_req.rs
index c8a9b6e..e68c658 100644
--- a/spdmlib/src/requester/get_version_req.rs
+++ b/spdmlib/src/requester/get_version_req.rs
@@ -44,7 +44,9 @@ impl<'a> RequesterContext<'a> {
         let mut reader = Reader::init(receive_buffer);
         match SpdmMessageHeader::read(&mut reader) {
             Some(message_header) => match message_header.request_response_code {
-                SpdmRequestResponseCode::SpdmResponseVersion => {
+                SpdmRequestResponseCode::SpdmResponseVersion
+                    if message_header.version == SpdmVersion::SpdmVersion10 =>
+                {
                     let version =
                         SpdmVersionResponsePayload::spdm_read(&mut self.common, &mut reader);
                     let used = reader.used();
@@ -53,47 +55,33 @@ impl<'a> RequesterContext<'a> {
 
                         let SpdmVersionResponsePayload {
                             version_number_entry_count,
-                            mut versions,
+                            versions,
                         } = version;
 
-                        versions
-                            .sort_unstable_by(|a, b| b.version.get_u8().cmp(&a.version.get_u8()));
+                        let spdm_version_sel = versions
+                            .iter()
+                            .take(version_number_entry_count as usize)
+                            .map(|entry| entry.version)
+                            .filter(|version| {
+                                !matches!(version, SpdmVersion::Unknown(_))
+                                    && self.common.config_info.spdm_version.contains(version)
+                            })
+                            .max_by_key(|version| version.get_u8());
 
-                        self.common.negotiate_info.spdm_version_sel = SpdmVersion::Unknown(0);
-
-                        for spdm_version_struct in
-                            versions.iter().take(version_number_entry_count as usize)
-                        {
-                            if self
-                                .common
-                                .config_info
-                                .spdm_version
-                                .contains(&spdm_version_struct.version)
-                            {
-                                self.common.negotiate_info.spdm_version_sel =
-                                    spdm_version_struct.version;
-                                break;
-                            }
-                        }
-
-                        match self.common.negotiate_info.spdm_version_sel {
-                            SpdmVersion::Unknown(_) => {
-                                debug!(
-                                    "Version negotiation failed! with given version list: {:?}",
-                                    versions
-                                );
-                                return Err(SPDM_STATUS_NEGOTIATION_FAIL);
-                            }
-                            _ => {
-                                debug!(
-                                    "Version negotiated: {:?}",
-                                    self.common.negotiate_info.spdm_version_sel
-                                );
-                            }
-                        }
+                        let spdm_version_sel = if let Some(version) = spdm_version_sel {
+                            debug!("Version negotiated: {:?}", version);
+                            version
+                        } else {
+                            debug!(
+                                "Version negotiation failed! with given version list: {:?}",
+                                versions
+                            );
+                            return Err(SPDM_STATUS_NEGOTIATION_FAIL);
+                        };
 
                         // clear cache data
-                        self.common.reset_runtime_info();
+                        self.common.reset_context();
+                        self.common.negotiate_info.spdm_version_sel = spdm_version_sel;
 
                         self.common.append_message_a(send_buffer)?;
                         self.common.append_message_a(&receive_buffer[..used])?;
-- 
2.43.0


From 27436d9f90ec62ab03add0c61ed56e57f03ff776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 13/49] fix: AEAD keys and IVs are expanded to the length of
 the negotiated algorithm

---
 spdmlib/src/common/key_schedule.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spdmlib/src/common/key_schedule.rs b/spdmlib/src/common/key_schedule.rs
index ff8bf48..3c1bcca 100644
--- a/spdmlib/src/common/key_schedule.rs
+++ b/spdmlib/src/common/key_schedule.rs
@@ -221,7 +221,7 @@ impl SpdmKeySchedule {
                     &SpdmHkdfInputKeyingMaterial::SpdmDirectionHandshakeSecret(k),
                 )?,
                 bin_str5,
-                SPDM_MAX_AEAD_KEY_SIZE as u16,
+                aead_algo.get_key_size(),
             )?,
             SpdmMajorSecret::SpdmDirectionDataSecret(k) => crypto::hkdf::hkdf_expand(
                 hash_algo,
@@ -229,7 +229,7 @@ impl SpdmKeySchedule {
                     &SpdmHkdfInputKeyingMaterial::SpdmDirectionDataSecret(k),
                 )?,
                 bin_str5,
-                SPDM_MAX_AEAD_KEY_SIZE as u16,
+                aead_algo.get_key_size(),
             )?,
         };
         let encrypt_key = SpdmAeadKeyStruct::from_spdm_hkdf_okm(okm)?;
@@ -248,7 +248,7 @@ impl SpdmKeySchedule {
                     &SpdmHkdfInputKeyingMaterial::SpdmDirectionHandshakeSecret(k),
                 )?,
                 bin_str6,
-                SPDM_MAX_AEAD_IV_SIZE as u16,
+                aead_algo.get_iv_size(),
             )?,
             SpdmMajorSecret::SpdmDirectionDataSecret(k) => crypto::hkdf::hkdf_expand(
                 hash_algo,
@@ -256,7 +256,7 @@ impl SpdmKeySchedule {
                     &SpdmHkdfInputKeyingMaterial::SpdmDirectionDataSecret(k),
                 )?,
                 bin_str6,
-                SPDM_MAX_AEAD_IV_SIZE as u16,
+                aead_algo.get_iv_size(),
             )?,
         };
         let iv = SpdmAeadIvStruct::from_spdm_hkdf_okm(okm)?;
-- 
2.43.0


From 794ada238492d807ae33eedfdb83ddcf817fd92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 14/49] fix: opaque data carries the DMTF identifier and counts
 beyond its tables are refused

---
 spdmlib/src/common/opaque.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/common/opaque.rs b/spdmlib/src/common/opaque.rs
index e15ad78..e063389 100644
--- a/spdmlib/src/common/opaque.rs
+++ b/spdmlib/src/common/opaque.rs
@@ -17,7 +17,7 @@ pub const MAX_SPDM_OPAQUE_SIZE: usize = 1024;
 pub const MAX_SECURE_SPDM_VERSION_COUNT: usize = 0x02;
 pub const MAX_OPAQUE_LIST_ELEMENTS_COUNT: usize = 3;
 
-pub const DMTF_SPEC_ID: u32 = 0x444D546;
+pub const DMTF_SPEC_ID: u32 = 0x444D5446;
 pub const DMTF_OPAQUE_VERSION: u8 = 0x01;
 pub const SM_DATA_VERSION: u8 = 0x01;
 pub const DMTF_ID: u8 = 0x00;
@@ -196,6 +196,9 @@ impl SpdmCodec for SecuredMessageVersionList {
     }
     fn spdm_read(context: &mut SpdmContext, r: &mut Reader) -> Option<SecuredMessageVersionList> {
         let version_count = u8::read(r)?;
+        if version_count as usize > MAX_SECURE_SPDM_VERSION_COUNT {
+            return None;
+        }
         let mut versions_list = [SecuredMessageVersion::default(); MAX_SECURE_SPDM_VERSION_COUNT];
         for d in versions_list.iter_mut().take(version_count as usize) {
             *d = SecuredMessageVersion::spdm_read(context, r)?;
@@ -247,6 +250,9 @@ impl SpdmCodec for OpaqueElementHeader {
     fn spdm_read(_context: &mut SpdmContext, r: &mut Reader) -> Option<OpaqueElementHeader> {
         let id = u8::read(r)?;
         let vendor_len = u8::read(r)?;
+        if vendor_len as usize > MAX_SPDM_VENDOR_DEFINED_VENDOR_ID_LEN {
+            return None;
+        }
         let mut vendor_id = [0u8; MAX_SPDM_VENDOR_DEFINED_VENDOR_ID_LEN];
         for d in vendor_id.iter_mut().take(vendor_len as usize) {
             *d = u8::read(r)?;
@@ -455,6 +461,11 @@ impl SpdmCodec for SecuredMessageDMTFVersionSelection {
             SecuredMessageGeneralOpaqueDataHeader::spdm_read(context, r)?;
         let mut opaque_element_dmtf_version_selection_list =
             [OpaqueElementDMTFVersionSelection::default(); MAX_OPAQUE_LIST_ELEMENTS_COUNT];
+        if secured_message_general_opaque_data_header.total_elements
+            > MAX_OPAQUE_LIST_ELEMENTS_COUNT as u8
+        {
+            return None;
+        }
         for d in opaque_element_dmtf_version_selection_list
             .iter_mut()
             .take(secured_message_general_opaque_data_header.total_elements as usize)
-- 
2.43.0


From a77fddc5d39dc7c51655c4a63dcb7a65f8ca3aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 15/49] fix: vendor payload and certificate portion lengths
 beyond their buffers are refused

---
 spdmlib/src/message/certificate.rs |  3 +++
 spdmlib/src/message/vendor.rs      | 15 ++++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/message/certificate.rs b/spdmlib/src/message/certificate.rs
index f52a6f1..91d845f 100644
--- a/spdmlib/src/message/certificate.rs
+++ b/spdmlib/src/message/certificate.rs
@@ -108,6 +108,9 @@ impl SpdmCodec for SpdmCertificateResponsePayload {
         let slot_id = u8::read(r)?; // param1
         u8::read(r)?; // param2
         let portion_length = u16::read(r)?;
+        if portion_length as usize > MAX_SPDM_CERT_PORTION_LEN {
+            return None;
+        }
         let remainder_length = u16::read(r)?;
         let mut response = SpdmCertificateResponsePayload {
             slot_id,
diff --git a/spdmlib/src/message/vendor.rs b/spdmlib/src/message/vendor.rs
index be9fd74..decf816 100644
--- a/spdmlib/src/message/vendor.rs
+++ b/spdmlib/src/message/vendor.rs
@@ -7,6 +7,7 @@ use crate::common::spdm_codec::SpdmCodec;
 use crate::config;
 use crate::error::{
     SpdmResult, SpdmStatus, SPDM_STATUS_BUFFER_FULL, SPDM_STATUS_INVALID_STATE_LOCAL,
+    SPDM_STATUS_UNSUPPORTED_CAP,
 };
 use codec::{enum_builder, Codec, Reader, Writer};
 
@@ -89,6 +90,9 @@ pub struct VendorDefinedReqPayloadStruct {
 }
 impl Codec for VendorDefinedReqPayloadStruct {
     fn encode(&self, bytes: &mut Writer) -> Result<usize, codec::EncodeErr> {
+        if self.req_length as usize > MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE {
+            return Err(codec::EncodeErr);
+        }
         let mut cnt = 0usize;
         cnt += self.req_length.encode(bytes)?;
         for d in self
@@ -103,6 +107,9 @@ impl Codec for VendorDefinedReqPayloadStruct {
 
     fn read(r: &mut Reader) -> Option<VendorDefinedReqPayloadStruct> {
         let req_length = u16::read(r)?;
+        if req_length as usize > MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE {
+            return None;
+        }
         let mut vendor_defined_req_payload = [0u8; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE];
         for d in vendor_defined_req_payload
             .iter_mut()
@@ -125,6 +132,9 @@ pub struct VendorDefinedRspPayloadStruct {
 
 impl Codec for VendorDefinedRspPayloadStruct {
     fn encode(&self, bytes: &mut Writer) -> Result<usize, codec::EncodeErr> {
+        if self.rsp_length as usize > MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE {
+            return Err(codec::EncodeErr);
+        }
         let mut cnt = 0usize;
         cnt += self.rsp_length.encode(bytes)?;
         for d in self
@@ -139,6 +149,9 @@ impl Codec for VendorDefinedRspPayloadStruct {
 
     fn read(r: &mut Reader) -> Option<VendorDefinedRspPayloadStruct> {
         let rsp_length = u16::read(r)?;
+        if rsp_length as usize > MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE {
+            return None;
+        }
         let mut vendor_defined_rsp_payload = [0u8; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE];
         for d in vendor_defined_rsp_payload
             .iter_mut()
@@ -261,7 +274,7 @@ static VENDOR_DEFNIED: OnceCell<VendorDefinedStruct> = OnceCell::uninit();
 
 static VENDOR_DEFNIED_DEFAULT: VendorDefinedStruct = VendorDefinedStruct {
     vendor_defined_request_handler: |_vendor_defined_req_payload_struct: &VendorDefinedReqPayloadStruct|
-     -> SpdmResult<VendorDefinedRspPayloadStruct> { log::info!("not implement vendor defined struct!!!\n"); unimplemented!() },
+     -> SpdmResult<VendorDefinedRspPayloadStruct> { log::info!("not implement vendor defined struct!!!\n"); Err(SPDM_STATUS_UNSUPPORTED_CAP) },
 };
 
 pub fn register_vendor_defined_struct(context: VendorDefinedStruct) -> bool {
-- 
2.43.0


From ee06d36936658f54aede163f302015789769255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 16/49] fix: negotiation fails on both sides when a needed
 algorithm has no common choice, and only offered algorithms are accepted

---
 spdmlib/src/common/mod.rs                     | 81 +++++++++++++++++--
 .../src/requester/negotiate_algorithms_req.rs | 25 ++++++
 spdmlib/src/responder/algorithm_rsp.rs        | 26 +++---
 3 files changed, 117 insertions(+), 15 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 0202a98..e8945f9 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -241,9 +241,8 @@ impl<'a> SpdmContext<'a> {
 
     pub fn construct_my_cert_chain(&mut self) -> SpdmResult {
         for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.provision_info.my_cert_chain[slot_id].is_none()
-                && self.provision_info.my_cert_chain_data[slot_id].is_some()
-            {
+            // the root hash depends on the hash negotiated for this connection
+            if self.provision_info.my_cert_chain_data[slot_id].is_some() {
                 let cert_chain = self.provision_info.my_cert_chain_data[slot_id]
                     .as_ref()
                     .unwrap();
@@ -251,8 +250,7 @@ impl<'a> SpdmContext<'a> {
                     crypto::cert_operation::get_cert_from_cert_chain(
                         &cert_chain.data[..(cert_chain.data_size as usize)],
                         0,
-                    )
-                    .unwrap();
+                    )?;
                 let root_cert = &cert_chain.data[root_cert_begin..root_cert_end];
                 if let Some(root_hash) =
                     crypto::hash::hash_all(self.negotiate_info.base_hash_sel, root_cert)
@@ -1058,7 +1056,7 @@ pub struct SpdmConfigInfo {
     pub secure_spdm_version: [u8; MAX_SECURE_SPDM_VERSION_COUNT], // used by responder only
 }
 
-#[derive(Debug, Default)]
+#[derive(Debug, Default, Clone)]
 pub struct SpdmNegotiateInfo {
     pub spdm_version_sel: SpdmVersion,
     pub req_capabilities_sel: SpdmRequestCapabilityFlags,
@@ -1081,6 +1079,77 @@ pub struct SpdmNegotiateInfo {
     pub rsp_max_spdm_msg_size_sel: u32, // spdm 1.2
 }
 
+impl SpdmNegotiateInfo {
+    /// true if every algorithm that the common capabilities need has been selected
+    pub fn is_algorithm_selection_complete(&self) -> bool {
+        if !self.base_hash_sel.is_valid_one_select() || !self.base_asym_sel.is_valid_one_select() {
+            return false;
+        }
+
+        let measurement = self.rsp_capabilities_sel.intersects(
+            SpdmResponseCapabilityFlags::MEAS_CAP_NO_SIG
+                | SpdmResponseCapabilityFlags::MEAS_CAP_SIG,
+        );
+        if measurement
+            && (!self.measurement_specification_sel.is_valid_one_select()
+                || !self.measurement_hash_sel.is_valid_one_select())
+        {
+            return false;
+        }
+
+        if self.spdm_version_sel.get_u8() < SpdmVersion::SpdmVersion11.get_u8() {
+            return true;
+        }
+
+        let key_ex = self
+            .req_capabilities_sel
+            .contains(SpdmRequestCapabilityFlags::KEY_EX_CAP)
+            && self
+                .rsp_capabilities_sel
+                .contains(SpdmResponseCapabilityFlags::KEY_EX_CAP);
+        let psk = self
+            .req_capabilities_sel
+            .contains(SpdmRequestCapabilityFlags::PSK_CAP)
+            && self.rsp_capabilities_sel.intersects(
+                SpdmResponseCapabilityFlags::PSK_CAP_WITHOUT_CONTEXT
+                    | SpdmResponseCapabilityFlags::PSK_CAP_WITH_CONTEXT,
+            );
+        let secured = (self
+            .req_capabilities_sel
+            .contains(SpdmRequestCapabilityFlags::ENCRYPT_CAP)
+            && self
+                .rsp_capabilities_sel
+                .contains(SpdmResponseCapabilityFlags::ENCRYPT_CAP))
+            || (self
+                .req_capabilities_sel
+                .contains(SpdmRequestCapabilityFlags::MAC_CAP)
+                && self
+                    .rsp_capabilities_sel
+                    .contains(SpdmResponseCapabilityFlags::MAC_CAP));
+        let mut_auth = self
+            .req_capabilities_sel
+            .contains(SpdmRequestCapabilityFlags::MUT_AUTH_CAP)
+            && self
+                .rsp_capabilities_sel
+                .contains(SpdmResponseCapabilityFlags::MUT_AUTH_CAP);
+
+        if key_ex && !self.dhe_sel.is_valid_one_select() {
+            return false;
+        }
+        if (key_ex || psk) && !self.key_schedule_sel.is_valid_one_select() {
+            return false;
+        }
+        if (key_ex || psk) && secured && !self.aead_sel.is_valid_one_select() {
+            return false;
+        }
+        if mut_auth && !self.req_asym_sel.is_valid_one_select() {
+            return false;
+        }
+
+        true
+    }
+}
+
 const MAX_MANAGED_BUFFER_A_SIZE: usize = 150 + 2 * MAX_SPDM_VERSION_COUNT;
 const MAX_MANAGED_BUFFER_B_SIZE: usize =
     24 + SPDM_MAX_HASH_SIZE * SPDM_MAX_SLOT_NUMBER + config::MAX_SPDM_CERT_CHAIN_DATA_SIZE;
diff --git a/spdmlib/src/requester/negotiate_algorithms_req.rs b/spdmlib/src/requester/negotiate_algorithms_req.rs
index dafdf9a..8667330 100644
--- a/spdmlib/src/requester/negotiate_algorithms_req.rs
+++ b/spdmlib/src/requester/negotiate_algorithms_req.rs
@@ -128,6 +128,8 @@ impl<'a> RequesterContext<'a> {
                                 }
                             }
 
+                            self.check_algorithm_selection()?;
+
                             self.common.append_message_a(send_buffer)?;
                             self.common.append_message_a(&receive_buffer[..used])?;
 
@@ -149,4 +151,27 @@ impl<'a> RequesterContext<'a> {
             None => Err(SPDM_STATUS_INVALID_MSG_FIELD),
         }
     }
+
+    /// every selection must have been offered, and nothing the common capabilities need may be missing
+    fn check_algorithm_selection(&self) -> SpdmResult {
+        let config = &self.common.config_info;
+        let selected = &self.common.negotiate_info;
+
+        if !config
+            .measurement_specification
+            .contains(selected.measurement_specification_sel)
+            || !config.opaque_support.contains(selected.opaque_data_support)
+            || !config.base_hash_algo.contains(selected.base_hash_sel)
+            || !config.base_asym_algo.contains(selected.base_asym_sel)
+            || !config.dhe_algo.contains(selected.dhe_sel)
+            || !config.aead_algo.contains(selected.aead_sel)
+            || !config.req_asym_algo.contains(selected.req_asym_sel)
+            || !config.key_schedule_algo.contains(selected.key_schedule_sel)
+            || !selected.is_algorithm_selection_complete()
+        {
+            return Err(SPDM_STATUS_NEGOTIATION_FAIL);
+        }
+
+        Ok(())
+    }
 }
diff --git a/spdmlib/src/responder/algorithm_rsp.rs b/spdmlib/src/responder/algorithm_rsp.rs
index 3e2a62c..180b802 100644
--- a/spdmlib/src/responder/algorithm_rsp.rs
+++ b/spdmlib/src/responder/algorithm_rsp.rs
@@ -42,6 +42,7 @@ impl<'a> ResponderContext<'a> {
         );
 
         let other_params_support;
+        let previous_negotiate_info = self.common.negotiate_info.clone();
 
         let negotiate_algorithms =
             SpdmNegotiateAlgorithmsRequestPayload::spdm_read(&mut self.common, &mut reader);
@@ -73,15 +74,6 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
-        if self
-            .common
-            .append_message_a(&bytes[..reader.used()])
-            .is_err()
-        {
-            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-            return;
-        }
-
         self.common
             .negotiate_info
             .measurement_specification_sel
@@ -113,10 +105,18 @@ impl<'a> ResponderContext<'a> {
             .key_schedule_sel
             .prioritize(self.common.config_info.key_schedule_algo);
 
+        if !self.common.negotiate_info.is_algorithm_selection_complete() {
+            error!("!!! negotiate_algorithms : no common algorithm !!!\n");
+            self.common.negotiate_info = previous_negotiate_info;
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
+            return;
+        }
+
         //
         // update cert chain - append root cert hash
         //
         if self.common.construct_my_cert_chain().is_err() {
+            self.common.negotiate_info = previous_negotiate_info;
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return;
         }
@@ -170,6 +170,14 @@ impl<'a> ResponderContext<'a> {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return;
         }
+        if self
+            .common
+            .append_message_a(&bytes[..reader.used()])
+            .is_err()
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
+        }
         if self.common.append_message_a(writer.used_slice()).is_err() {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
         }
-- 
2.43.0


From 22a4188f30eb06085fabeda65ceb0774638cd091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 17/49] fix: a digest or signature of the wrong size is an
 encoding error, not a panic

---
 spdmlib/src/common/spdm_codec.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/common/spdm_codec.rs b/spdmlib/src/common/spdm_codec.rs
index dad3de4..d8b3f25 100644
--- a/spdmlib/src/common/spdm_codec.rs
+++ b/spdmlib/src/common/spdm_codec.rs
@@ -4,7 +4,9 @@
 
 use crate::common::SpdmContext;
 use crate::config;
-use crate::error::{SpdmResult, SpdmStatus, SPDM_STATUS_BUFFER_FULL};
+use crate::error::{
+    SpdmResult, SpdmStatus, SPDM_STATUS_BUFFER_FULL, SPDM_STATUS_INVALID_PARAMETER,
+};
 use crate::protocol::{
     SpdmDheExchangeStruct, SpdmDigestStruct, SpdmDmtfMeasurementRepresentation,
     SpdmDmtfMeasurementStructure, SpdmDmtfMeasurementType, SpdmMeasurementBlockStructure,
@@ -39,7 +41,9 @@ impl SpdmCodec for SpdmDigestStruct {
         context: &mut SpdmContext,
         bytes: &mut Writer,
     ) -> Result<usize, SpdmStatus> {
-        assert_eq!(self.data_size, context.get_hash_size());
+        if self.data_size != context.get_hash_size() {
+            return Err(SPDM_STATUS_INVALID_PARAMETER);
+        }
         for d in self.data.iter().take(self.data_size as usize) {
             d.encode(bytes).map_err(|_| SPDM_STATUS_BUFFER_FULL)?;
         }
@@ -61,7 +65,9 @@ impl SpdmCodec for SpdmSignatureStruct {
         context: &mut SpdmContext,
         bytes: &mut Writer,
     ) -> Result<usize, SpdmStatus> {
-        assert_eq!(self.data_size, context.get_asym_key_size());
+        if self.data_size != context.get_asym_key_size() {
+            return Err(SPDM_STATUS_INVALID_PARAMETER);
+        }
         for d in self.data.iter().take(self.data_size as usize) {
             d.encode(bytes).map_err(|_| SPDM_STATUS_BUFFER_FULL)?;
         }
-- 
2.43.0


From 206deada6368c918fa3164ec5ff574e0cbb658ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 18/49] fix: GET_CAPABILITIES must name a configured version,
 and VERSION lists only those

---
 spdmlib/src/responder/capability_rsp.rs |  6 ++++++
 spdmlib/src/responder/version_rsp.rs    | 26 +++++++++++--------------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/spdmlib/src/responder/capability_rsp.rs b/spdmlib/src/responder/capability_rsp.rs
index 1f0ba40..8719615 100644
--- a/spdmlib/src/responder/capability_rsp.rs
+++ b/spdmlib/src/responder/capability_rsp.rs
@@ -24,6 +24,7 @@ impl<'a> ResponderContext<'a> {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnexpectedRequest, 0, writer);
             return;
         }
+        let previous_spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
         let mut reader = Reader::init(bytes);
         let message_header = SpdmMessageHeader::read(&mut reader);
         if let Some(SpdmMessageHeader {
@@ -35,6 +36,10 @@ impl<'a> ResponderContext<'a> {
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
                 return;
             }
+            if !self.common.config_info.spdm_version.contains(&version) {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorVersionMismatch, 0, writer);
+                return;
+            }
             self.common.negotiate_info.spdm_version_sel = version;
         } else {
             error!("!!! get_capabilities : fail !!!\n");
@@ -72,6 +77,7 @@ impl<'a> ResponderContext<'a> {
             }
         } else {
             error!("!!! get_capabilities : fail !!!\n");
+            self.common.negotiate_info.spdm_version_sel = previous_spdm_version_sel;
             self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
             return;
         }
diff --git a/spdmlib/src/responder/version_rsp.rs b/spdmlib/src/responder/version_rsp.rs
index 8effd25..2ecff12 100644
--- a/spdmlib/src/responder/version_rsp.rs
+++ b/spdmlib/src/responder/version_rsp.rs
@@ -53,6 +53,15 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
+        let mut versions = gen_array_clone(SpdmVersionStruct::default(), MAX_SPDM_VERSION_COUNT);
+        let mut version_number_entry_count = 0usize;
+        for version in self.common.config_info.spdm_version {
+            if !matches!(version, SpdmVersion::Unknown(_)) {
+                versions[version_number_entry_count] = SpdmVersionStruct { update: 0, version };
+                version_number_entry_count += 1;
+            }
+        }
+
         info!("send spdm version\n");
         let response = SpdmMessage {
             header: SpdmMessageHeader {
@@ -60,21 +69,8 @@ impl<'a> ResponderContext<'a> {
                 request_response_code: SpdmRequestResponseCode::SpdmResponseVersion,
             },
             payload: SpdmMessagePayload::SpdmVersionResponse(SpdmVersionResponsePayload {
-                version_number_entry_count: 3,
-                versions: [
-                    SpdmVersionStruct {
-                        update: 0,
-                        version: self.common.config_info.spdm_version[0],
-                    },
-                    SpdmVersionStruct {
-                        update: 0,
-                        version: self.common.config_info.spdm_version[1],
-                    },
-                    SpdmVersionStruct {
-                        update: 0,
-                        version: self.common.config_info.spdm_version[2],
-                    },
-                ],
+                version_number_entry_count: version_number_entry_count as u8,
+                versions,
             }),
         };
 
-- 
2.43.0


From c2d2cbfba9d91ddf308a70745c0100b672a73fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 19/49] fix: the measurement count is sent as it is, and
 measurements signed for another slot are refused

---
 spdmlib/src/message/measurement.rs            | 12 ++++--------
 spdmlib/src/requester/get_measurements_req.rs | 10 ++++++++++
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/spdmlib/src/message/measurement.rs b/spdmlib/src/message/measurement.rs
index 01a5e03..432b910 100644
--- a/spdmlib/src/message/measurement.rs
+++ b/spdmlib/src/message/measurement.rs
@@ -149,14 +149,10 @@ impl SpdmCodec for SpdmMeasurementsResponsePayload {
         //When Param2 in the requested measurement operation is 0 , this
         //parameter shall return the total number of measurement indices on
         //the device. Otherwise, this field is reserved.
-        if self.number_of_measurement == 1 {
-            cnt += 0_u8.encode(bytes).map_err(|_| SPDM_STATUS_BUFFER_FULL)?; // param1
-        } else {
-            cnt += self
-                .number_of_measurement
-                .encode(bytes)
-                .map_err(|_| SPDM_STATUS_BUFFER_FULL)?; // param1
-        }
+        cnt += self
+            .number_of_measurement
+            .encode(bytes)
+            .map_err(|_| SPDM_STATUS_BUFFER_FULL)?; // param1
         if context.negotiate_info.spdm_version_sel.get_u8() >= SpdmVersion::SpdmVersion12.get_u8()
             && context.runtime_info.need_measurement_signature
         {
diff --git a/spdmlib/src/requester/get_measurements_req.rs b/spdmlib/src/requester/get_measurements_req.rs
index 63b384b..029c061 100644
--- a/spdmlib/src/requester/get_measurements_req.rs
+++ b/spdmlib/src/requester/get_measurements_req.rs
@@ -130,6 +130,16 @@ impl<'a> RequesterContext<'a> {
                         if let Some(measurements) = measurements {
                             debug!("!!! measurements : {:02x?}\n", measurements);
 
+                            if self.common.runtime_info.need_measurement_signature
+                                && self.common.negotiate_info.spdm_version_sel.get_u8()
+                                    >= SpdmVersion::SpdmVersion11.get_u8()
+                                && measurements.slot_id != slot_id
+                            {
+                                error!("the measurements are signed for another slot");
+                                self.common.reset_message_m(session_id);
+                                return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+                            }
+
                             if self.common.negotiate_info.spdm_version_sel.get_u8()
                                 >= SpdmVersion::SpdmVersion12.get_u8()
                             {
-- 
2.43.0


From ab3579c70831735b95ed4f2bb05ba2c5f4148c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 20/49] fix: a request answered with an ERROR leaves the
 transcripts alone, every provisioned slot can be read, and device failures
 are errors

---
 spdmlib/src/common/mod.rs                | 74 ++++++++++++++++++++++++
 spdmlib/src/responder/certificate_rsp.rs | 18 ++++--
 spdmlib/src/responder/challenge_rsp.rs   | 29 +++++++++-
 spdmlib/src/responder/digest_rsp.rs      | 14 +++++
 spdmlib/src/responder/error_rsp.rs       | 28 ++++++++-
 spdmlib/src/responder/measurement_rsp.rs | 50 +++++++++++-----
 6 files changed, 189 insertions(+), 24 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index e8945f9..5bd3a2e 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -287,6 +287,67 @@ impl<'a> SpdmContext<'a> {
         self.runtime_info.message_a.reset_message();
     }
 
+    /// a copy of the authentication and measurement transcripts, for a request that may yet fail
+    pub fn save_transcripts(&self, session_id: Option<u32>) -> SpdmTranscripts {
+        #[cfg(not(feature = "hashed-transcript-data"))]
+        {
+            SpdmTranscripts {
+                message_b: self.runtime_info.message_b.clone(),
+                message_c: self.runtime_info.message_c.clone(),
+                message_m: match session_id {
+                    None => Some(self.runtime_info.message_m.clone()),
+                    Some(session_id) => self
+                        .get_immutable_session_via_id(session_id)
+                        .map(|session| session.runtime_info.message_m.clone()),
+                },
+            }
+        }
+
+        #[cfg(feature = "hashed-transcript-data")]
+        {
+            SpdmTranscripts {
+                digest_context_m1m2: self.runtime_info.digest_context_m1m2.clone(),
+                digest_context_l1l2: match session_id {
+                    None => self.runtime_info.digest_context_l1l2.clone(),
+                    Some(session_id) => self
+                        .get_immutable_session_via_id(session_id)
+                        .and_then(|session| session.runtime_info.digest_context_l1l2.clone()),
+                },
+            }
+        }
+    }
+
+    pub fn restore_transcripts(&mut self, session_id: Option<u32>, transcripts: SpdmTranscripts) {
+        #[cfg(not(feature = "hashed-transcript-data"))]
+        {
+            self.runtime_info.message_b = transcripts.message_b;
+            self.runtime_info.message_c = transcripts.message_c;
+            if let Some(message_m) = transcripts.message_m {
+                match session_id {
+                    None => self.runtime_info.message_m = message_m,
+                    Some(session_id) => {
+                        if let Some(session) = self.get_session_via_id(session_id) {
+                            session.runtime_info.message_m = message_m;
+                        }
+                    }
+                }
+            }
+        }
+
+        #[cfg(feature = "hashed-transcript-data")]
+        {
+            self.runtime_info.digest_context_m1m2 = transcripts.digest_context_m1m2;
+            match session_id {
+                None => self.runtime_info.digest_context_l1l2 = transcripts.digest_context_l1l2,
+                Some(session_id) => {
+                    if let Some(session) = self.get_session_via_id(session_id) {
+                        session.runtime_info.digest_context_l1l2 = transcripts.digest_context_l1l2;
+                    }
+                }
+            }
+        }
+    }
+
     pub fn append_message_b(&mut self, new_message: &[u8]) -> SpdmResult {
         #[cfg(not(feature = "hashed-transcript-data"))]
         {
@@ -1056,6 +1117,19 @@ pub struct SpdmConfigInfo {
     pub secure_spdm_version: [u8; MAX_SECURE_SPDM_VERSION_COUNT], // used by responder only
 }
 
+pub struct SpdmTranscripts {
+    #[cfg(not(feature = "hashed-transcript-data"))]
+    message_b: ManagedBufferB,
+    #[cfg(not(feature = "hashed-transcript-data"))]
+    message_c: ManagedBufferC,
+    #[cfg(not(feature = "hashed-transcript-data"))]
+    message_m: Option<ManagedBufferM>,
+    #[cfg(feature = "hashed-transcript-data")]
+    digest_context_m1m2: Option<SpdmHashCtx>,
+    #[cfg(feature = "hashed-transcript-data")]
+    digest_context_l1l2: Option<SpdmHashCtx>,
+}
+
 #[derive(Debug, Default, Clone)]
 pub struct SpdmNegotiateInfo {
     pub spdm_version_sel: SpdmVersion,
diff --git a/spdmlib/src/responder/certificate_rsp.rs b/spdmlib/src/responder/certificate_rsp.rs
index 29217bc..e06b522 100644
--- a/spdmlib/src/responder/certificate_rsp.rs
+++ b/spdmlib/src/responder/certificate_rsp.rs
@@ -51,14 +51,24 @@ impl<'a> ResponderContext<'a> {
             session_id,
         );
 
+        let transcripts = self.common.save_transcripts(session_id);
+        self.fill_spdm_certificate_response(session_id, bytes, writer);
+        self.finish_transcript_response(session_id, transcripts, writer);
+    }
+
+    fn fill_spdm_certificate_response(
+        &mut self,
+        session_id: Option<u32>,
+        bytes: &[u8],
+        writer: &mut Writer,
+    ) {
+        let mut reader = Reader::init(bytes);
+        let _ = SpdmMessageHeader::read(&mut reader);
+
         let get_certificate =
             SpdmGetCertificateRequestPayload::spdm_read(&mut self.common, &mut reader);
         if let Some(get_certificate) = &get_certificate {
             debug!("!!! get_certificate : {:02x?}\n", get_certificate);
-            if get_certificate.slot_id != 0 {
-                self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
-                return;
-            }
         } else {
             error!("!!! get_certificate : fail !!!\n");
             self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
diff --git a/spdmlib/src/responder/challenge_rsp.rs b/spdmlib/src/responder/challenge_rsp.rs
index 1272d4b..0b85ad8 100644
--- a/spdmlib/src/responder/challenge_rsp.rs
+++ b/spdmlib/src/responder/challenge_rsp.rs
@@ -50,6 +50,15 @@ impl<'a> ResponderContext<'a> {
         self.common
             .reset_buffer_via_request_code(SpdmRequestResponseCode::SpdmRequestChallenge, None);
 
+        let transcripts = self.common.save_transcripts(None);
+        self.fill_spdm_challenge_response(bytes, writer);
+        self.finish_transcript_response(None, transcripts, writer);
+    }
+
+    fn fill_spdm_challenge_response(&mut self, bytes: &[u8], writer: &mut Writer) {
+        let mut reader = Reader::init(bytes);
+        let _ = SpdmMessageHeader::read(&mut reader);
+
         let measurement_summary_hash;
         let challenge = SpdmChallengeRequestPayload::spdm_read(&mut self.common, &mut reader);
         if let Some(challenge) = &challenge {
@@ -114,8 +123,22 @@ impl<'a> ResponderContext<'a> {
         let cert_chain_hash = crypto::hash::hash_all(
             self.common.negotiate_info.base_hash_sel,
             my_cert_chain.as_ref(),
-        )
-        .unwrap();
+        );
+        let cert_chain_hash = if let Some(cert_chain_hash) = cert_chain_hash {
+            cert_chain_hash
+        } else {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
+        };
+
+        let mut slot_mask = 0u8;
+        for (slot_id, my_cert_chain) in
+            self.common.provision_info.my_cert_chain.iter().enumerate()
+        {
+            if my_cert_chain.is_some() {
+                slot_mask |= 1 << slot_id;
+            }
+        }
 
         let mut nonce = [0u8; SPDM_NONCE_SIZE];
         let res = crypto::rand::get_random(&mut nonce);
@@ -134,7 +157,7 @@ impl<'a> ResponderContext<'a> {
             payload: SpdmMessagePayload::SpdmChallengeAuthResponse(
                 SpdmChallengeAuthResponsePayload {
                     slot_id: slot_id as u8,
-                    slot_mask: 0x1,
+                    slot_mask,
                     challenge_auth_attribute: SpdmChallengeAuthAttribute::empty(),
                     cert_chain_hash,
                     nonce: SpdmNonceStruct { data: nonce },
diff --git a/spdmlib/src/responder/digest_rsp.rs b/spdmlib/src/responder/digest_rsp.rs
index c7d2410..3a2fd53 100644
--- a/spdmlib/src/responder/digest_rsp.rs
+++ b/spdmlib/src/responder/digest_rsp.rs
@@ -55,6 +55,20 @@ impl<'a> ResponderContext<'a> {
             session_id,
         );
 
+        let transcripts = self.common.save_transcripts(session_id);
+        self.fill_spdm_digest_response(session_id, bytes, writer);
+        self.finish_transcript_response(session_id, transcripts, writer);
+    }
+
+    fn fill_spdm_digest_response(
+        &mut self,
+        session_id: Option<u32>,
+        bytes: &[u8],
+        writer: &mut Writer,
+    ) {
+        let mut reader = Reader::init(bytes);
+        let _ = SpdmMessageHeader::read(&mut reader);
+
         let get_digests = SpdmGetDigestsRequestPayload::spdm_read(&mut self.common, &mut reader);
         if let Some(get_digests) = get_digests {
             debug!("!!! get_digests : {:02x?}\n", get_digests);
diff --git a/spdmlib/src/responder/error_rsp.rs b/spdmlib/src/responder/error_rsp.rs
index 9197959..4d853e9 100644
--- a/spdmlib/src/responder/error_rsp.rs
+++ b/spdmlib/src/responder/error_rsp.rs
@@ -2,9 +2,10 @@
 //
 // SPDX-License-Identifier: BSD-2-Clause-Patent
 
-use crate::common::SpdmCodec;
+use crate::common::{SpdmCodec, SpdmTranscripts};
 use crate::error::{SpdmResult, SPDM_STATUS_BUFFER_FULL};
 use crate::message::*;
+use crate::protocol::SpdmVersion;
 use crate::responder::*;
 
 impl<'a> ResponderContext<'a> {
@@ -14,9 +15,14 @@ impl<'a> ResponderContext<'a> {
         error_data: u8,
         writer: &mut Writer,
     ) {
+        // until a version is negotiated, messages are of version 1.0
+        let version = match self.common.negotiate_info.spdm_version_sel {
+            SpdmVersion::Unknown(_) => SpdmVersion::SpdmVersion10,
+            version => version,
+        };
         let error = SpdmMessage {
             header: SpdmMessageHeader {
-                version: self.common.negotiate_info.spdm_version_sel,
+                version,
                 request_response_code: SpdmRequestResponseCode::SpdmResponseError,
             },
             payload: SpdmMessagePayload::SpdmErrorResponse(SpdmErrorResponsePayload {
@@ -32,6 +38,24 @@ impl<'a> ResponderContext<'a> {
         let _ = error.spdm_encode(&mut self.common, writer);
     }
 
+    // An ERROR response must leave the transcripts as they were, also when it replaces a response
+    // that does not fit the requester's buffer.
+    pub(crate) fn finish_transcript_response(
+        &mut self,
+        session_id: Option<u32>,
+        transcripts: SpdmTranscripts,
+        writer: &mut Writer,
+    ) {
+        let _ = self.check_response_size(writer);
+        let is_error = writer
+            .used_slice()
+            .get(1)
+            .map_or(true, |code| *code == SpdmRequestResponseCode::SpdmResponseError.get_u8());
+        if is_error {
+            self.common.restore_transcripts(session_id, transcripts);
+        }
+    }
+
     // A session handler failed, or its response does not fit the requester's buffer: what goes out
     // must be an ERROR, and nothing of the response it replaces.
     pub(crate) fn write_spdm_failure(&mut self, writer: &mut Writer) {
diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index 390f827..59cb367 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -63,6 +63,20 @@ impl<'a> ResponderContext<'a> {
             session_id,
         );
 
+        let transcripts = self.common.save_transcripts(session_id);
+        self.fill_spdm_measurement_response(session_id, bytes, writer);
+        self.finish_transcript_response(session_id, transcripts, writer);
+    }
+
+    fn fill_spdm_measurement_response(
+        &mut self,
+        session_id: Option<u32>,
+        bytes: &[u8],
+        writer: &mut Writer,
+    ) {
+        let mut reader = Reader::init(bytes);
+        let _ = SpdmMessageHeader::read(&mut reader);
+
         let get_measurements =
             SpdmGetMeasurementsRequestPayload::spdm_read(&mut self.common, &mut reader);
         if let Some(get_measurements) = &get_measurements {
@@ -117,23 +131,25 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
-        let real_measurement_block_count = secret::measurement::measurement_collection(
-            spdm_version_sel,
-            measurement_specification_sel,
-            measurement_hash_sel,
-            SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber.get_u8() as usize,
-        )
-        .unwrap()
-        .number_of_blocks;
+        let real_measurement_block_count =
+            if let Some(measurement_record) = secret::measurement::measurement_collection(
+                spdm_version_sel,
+                measurement_specification_sel,
+                measurement_hash_sel,
+                SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber.get_u8() as usize,
+            ) {
+                measurement_record.number_of_blocks
+            } else {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                return;
+            };
 
         let number_of_measurement: u8 = if get_measurements.measurement_operation
-            == SpdmMeasurementOperation::SpdmMeasurementRequestAll
-            || get_measurements.measurement_operation
-                == SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber
+            == SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber
         {
             real_measurement_block_count
         } else {
-            1
+            0
         };
         let measurement_record = if get_measurements.measurement_operation
             == SpdmMeasurementOperation::SpdmMeasurementRequestAll
@@ -144,7 +160,6 @@ impl<'a> ResponderContext<'a> {
                 measurement_hash_sel,
                 SpdmMeasurementOperation::SpdmMeasurementRequestAll.get_u8() as usize,
             )
-            .unwrap()
         } else if let SpdmMeasurementOperation::Unknown(index) =
             get_measurements.measurement_operation
         {
@@ -158,9 +173,14 @@ impl<'a> ResponderContext<'a> {
                 measurement_hash_sel,
                 index as usize,
             )
-            .unwrap()
         } else {
-            SpdmMeasurementRecordStructure::default()
+            Some(SpdmMeasurementRecordStructure::default())
+        };
+        let measurement_record = if let Some(measurement_record) = measurement_record {
+            measurement_record
+        } else {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
         };
 
         let content_changed = if runtime_content_change_support
-- 
2.43.0


From 782f76dad09b82d3de18b6d452821d6f800bd36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 21/49] fix: certificate portions fit the requester's buffer,
 and an empty portion or oversized chain is refused

---
 spdmlib/src/requester/get_certificate_req.rs | 27 ++++++++------------
 spdmlib/src/responder/certificate_rsp.rs     |  5 ++++
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/spdmlib/src/requester/get_certificate_req.rs b/spdmlib/src/requester/get_certificate_req.rs
index 5e46537..3efddef 100644
--- a/spdmlib/src/requester/get_certificate_req.rs
+++ b/spdmlib/src/requester/get_certificate_req.rs
@@ -104,25 +104,20 @@ impl<'a> RequesterContext<'a> {
                         if let Some(certificate) = certificate {
                             debug!("!!! certificate : {:02x?}\n", certificate);
 
-                            if certificate.portion_length > length
-                                || certificate.portion_length
-                                    > config::MAX_SPDM_CERT_CHAIN_DATA_SIZE as u16 - offset
+                            let max_size = (4
+                                + self.common.negotiate_info.base_hash_sel.get_size() as usize
+                                + config::MAX_SPDM_CERT_CHAIN_DATA_SIZE)
+                                as u32;
+                            let response_total_size = offset as u32
+                                + certificate.portion_length as u32
+                                + certificate.remainder_length as u32;
+                            if certificate.portion_length == 0
+                                || certificate.portion_length > length
+                                || response_total_size > max_size
                             {
                                 return Err(SPDM_STATUS_INVALID_MSG_FIELD);
                             }
-                            if certificate.remainder_length
-                                >= config::MAX_SPDM_CERT_CHAIN_DATA_SIZE as u16
-                                    - offset
-                                    - certificate.portion_length
-                            {
-                                return Err(SPDM_STATUS_INVALID_MSG_FIELD);
-                            }
-                            if total_size != 0
-                                && total_size
-                                    != offset
-                                        + certificate.portion_length
-                                        + certificate.remainder_length
-                            {
+                            if total_size != 0 && total_size as u32 != response_total_size {
                                 return Err(SPDM_STATUS_INVALID_MSG_FIELD);
                             }
                             if certificate.slot_id != slot_id {
diff --git a/spdmlib/src/responder/certificate_rsp.rs b/spdmlib/src/responder/certificate_rsp.rs
index e06b522..61eb77a 100644
--- a/spdmlib/src/responder/certificate_rsp.rs
+++ b/spdmlib/src/responder/certificate_rsp.rs
@@ -108,6 +108,11 @@ impl<'a> ResponderContext<'a> {
         if length > MAX_SPDM_CERT_PORTION_LEN as u16 {
             length = MAX_SPDM_CERT_PORTION_LEN as u16;
         }
+        // the portion has to fit the requester's buffer, behind the 8 bytes before it
+        let req_data_transfer_size_sel = self.common.negotiate_info.req_data_transfer_size_sel;
+        if req_data_transfer_size_sel > 8 && length as u32 > req_data_transfer_size_sel - 8 {
+            length = (req_data_transfer_size_sel - 8) as u16;
+        }
 
         let offset = get_certificate.offset;
         if offset > my_cert_chain.data_size {
-- 
2.43.0


From 802ac7857e5df647f18fe75540ccea2b735ad264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 22/49] fix: a record that fails to encode or decode consumes
 no sequence number, and a failed key update is rolled back or ends the
 session

---
 spdmlib/src/common/session.rs                 | 50 ++++++++++++++++---
 .../requester/handle_error_response_req.rs    |  3 +-
 spdmlib/src/requester/key_update_req.rs       | 32 ++++++++++--
 spdmlib/src/responder/key_update_rsp.rs       | 19 ++++---
 4 files changed, 84 insertions(+), 20 deletions(-)

diff --git a/spdmlib/src/common/session.rs b/spdmlib/src/common/session.rs
index 31665d1..0f9ee61 100644
--- a/spdmlib/src/common/session.rs
+++ b/spdmlib/src/common/session.rs
@@ -574,6 +574,24 @@ impl SpdmSession {
         spdm_version: SpdmVersion,
         update_requester: bool,
         update_responder: bool,
+    ) -> SpdmResult {
+        let application_secret = self.application_secret.clone();
+        let application_secret_backup = self.application_secret_backup.clone();
+
+        let result =
+            self.derive_data_secret_update(spdm_version, update_requester, update_responder);
+        if result.is_err() {
+            self.application_secret = application_secret;
+            self.application_secret_backup = application_secret_backup;
+        }
+        result
+    }
+
+    fn derive_data_secret_update(
+        &mut self,
+        spdm_version: SpdmVersion,
+        update_requester: bool,
+        update_responder: bool,
     ) -> SpdmResult {
         info!(
             "!!! create_data_secret_update {:?} {:?} !!!:\n",
@@ -807,7 +825,9 @@ impl SpdmSession {
                         secured_buffer,
                         &self.handshake_secret.request_direction,
                     );
-                    self.handshake_secret.request_direction.sequence_number += 1;
+                    if r.is_ok() {
+                        self.handshake_secret.request_direction.sequence_number += 1;
+                    }
                     r
                 } else {
                     let r = self.encode_msg(
@@ -815,7 +835,9 @@ impl SpdmSession {
                         secured_buffer,
                         &self.handshake_secret.response_direction,
                     );
-                    self.handshake_secret.response_direction.sequence_number += 1;
+                    if r.is_ok() {
+                        self.handshake_secret.response_direction.sequence_number += 1;
+                    }
                     r
                 }
             }
@@ -826,7 +848,9 @@ impl SpdmSession {
                         secured_buffer,
                         &self.application_secret.request_direction,
                     );
-                    self.application_secret.request_direction.sequence_number += 1;
+                    if r.is_ok() {
+                        self.application_secret.request_direction.sequence_number += 1;
+                    }
                     r
                 } else {
                     let r = self.encode_msg(
@@ -834,7 +858,9 @@ impl SpdmSession {
                         secured_buffer,
                         &self.application_secret.response_direction,
                     );
-                    self.application_secret.response_direction.sequence_number += 1;
+                    if r.is_ok() {
+                        self.application_secret.response_direction.sequence_number += 1;
+                    }
                     r
                 }
             }
@@ -857,7 +883,9 @@ impl SpdmSession {
                         app_buffer,
                         &self.handshake_secret.request_direction,
                     );
-                    self.handshake_secret.request_direction.sequence_number += 1;
+                    if r.is_ok() {
+                        self.handshake_secret.request_direction.sequence_number += 1;
+                    }
                     r
                 } else {
                     let r = self.decode_msg(
@@ -865,7 +893,9 @@ impl SpdmSession {
                         app_buffer,
                         &self.handshake_secret.response_direction,
                     );
-                    self.handshake_secret.response_direction.sequence_number += 1;
+                    if r.is_ok() {
+                        self.handshake_secret.response_direction.sequence_number += 1;
+                    }
                     r
                 }
             }
@@ -876,7 +906,9 @@ impl SpdmSession {
                         app_buffer,
                         &self.application_secret.request_direction,
                     );
-                    self.application_secret.request_direction.sequence_number += 1;
+                    if r.is_ok() {
+                        self.application_secret.request_direction.sequence_number += 1;
+                    }
                     r
                 } else {
                     let r = self.decode_msg(
@@ -884,7 +916,9 @@ impl SpdmSession {
                         app_buffer,
                         &self.application_secret.response_direction,
                     );
-                    self.application_secret.response_direction.sequence_number += 1;
+                    if r.is_ok() {
+                        self.application_secret.response_direction.sequence_number += 1;
+                    }
                     r
                 }
             }
diff --git a/spdmlib/src/requester/handle_error_response_req.rs b/spdmlib/src/requester/handle_error_response_req.rs
index 560eea4..d4bf818 100644
--- a/spdmlib/src/requester/handle_error_response_req.rs
+++ b/spdmlib/src/requester/handle_error_response_req.rs
@@ -4,7 +4,6 @@
 
 use codec::{Codec, Reader};
 
-use crate::common::session::SpdmSessionState;
 use crate::error::{
     SpdmResult, SPDM_STATUS_BUSY_PEER, SPDM_STATUS_ERROR_PEER, SPDM_STATUS_INVALID_MSG_FIELD,
     SPDM_STATUS_INVALID_PARAMETER, SPDM_STATUS_NOT_READY_PEER, SPDM_STATUS_SESSION_MSG_ERROR,
@@ -31,7 +30,7 @@ impl<'a> RequesterContext<'a> {
                 } else {
                     return Err(SPDM_STATUS_INVALID_PARAMETER);
                 };
-                session.set_session_state(SpdmSessionState::SpdmSessionNotStarted);
+                let _ = session.teardown(sid);
             }
             Err(SPDM_STATUS_INVALID_PARAMETER)
         } else {
diff --git a/spdmlib/src/requester/key_update_req.rs b/spdmlib/src/requester/key_update_req.rs
index 9777323..72153da 100644
--- a/spdmlib/src/requester/key_update_req.rs
+++ b/spdmlib/src/requester/key_update_req.rs
@@ -3,8 +3,8 @@
 // SPDX-License-Identifier: BSD-2-Clause-Patent
 
 use crate::error::{
-    SpdmResult, SPDM_STATUS_ERROR_PEER, SPDM_STATUS_INVALID_MSG_FIELD,
-    SPDM_STATUS_INVALID_PARAMETER,
+    SpdmResult, SPDM_STATUS_BUSY_PEER, SPDM_STATUS_ERROR_PEER, SPDM_STATUS_INVALID_MSG_FIELD,
+    SPDM_STATUS_INVALID_PARAMETER, SPDM_STATUS_NOT_READY_PEER,
 };
 use crate::message::*;
 use crate::requester::*;
@@ -27,6 +27,32 @@ impl<'a> RequesterContext<'a> {
         let used = self.encode_spdm_key_update_op(key_update_operation, tag, &mut send_buffer)?;
         self.send_secured_message(session_id, &send_buffer[..used], false)?;
 
+        let result = self.complete_spdm_key_update_op(session_id, key_update_operation);
+        if let Err(status) = result {
+            // Only an ERROR response proves that the responder did not update its keys.
+            let refused = status == SPDM_STATUS_ERROR_PEER
+                || status == SPDM_STATUS_BUSY_PEER
+                || status == SPDM_STATUS_NOT_READY_PEER;
+            let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
+            if let Some(session) = self.common.get_session_via_id(session_id) {
+                let rolled_back = refused
+                    && key_update_operation == SpdmKeyUpdateOperation::SpdmUpdateSingleKey
+                    && session
+                        .activate_data_secret_update(spdm_version_sel, true, false, false)
+                        .is_ok();
+                if !rolled_back {
+                    let _ = session.teardown(session_id);
+                }
+            }
+        }
+        result
+    }
+
+    fn complete_spdm_key_update_op(
+        &mut self,
+        session_id: u32,
+        key_update_operation: SpdmKeyUpdateOperation,
+    ) -> SpdmResult {
         // update key
         let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
         let session = if let Some(s) = self.common.get_session_via_id(session_id) {
@@ -119,7 +145,7 @@ impl<'a> RequesterContext<'a> {
                             SpdmRequestResponseCode::SpdmRequestKeyUpdate,
                             SpdmRequestResponseCode::SpdmResponseKeyUpdateAck,
                         ),
-                    _ => Err(SPDM_STATUS_ERROR_PEER),
+                    _ => Err(SPDM_STATUS_INVALID_MSG_FIELD),
                 }
             }
             None => Err(SPDM_STATUS_INVALID_MSG_FIELD),
diff --git a/spdmlib/src/responder/key_update_rsp.rs b/spdmlib/src/responder/key_update_rsp.rs
index b088047..2495410 100644
--- a/spdmlib/src/responder/key_update_rsp.rs
+++ b/spdmlib/src/responder/key_update_rsp.rs
@@ -50,22 +50,27 @@ impl<'a> ResponderContext<'a> {
 
         let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
         let session = self.common.get_session_via_id(session_id).unwrap();
-        match key_update_req.key_update_operation {
+        let res = match key_update_req.key_update_operation {
             SpdmKeyUpdateOperation::SpdmUpdateSingleKey => {
-                let _ = session.create_data_secret_update(spdm_version_sel, true, false);
-            }
-            SpdmKeyUpdateOperation::SpdmUpdateAllKeys => {
-                let _ = session.create_data_secret_update(spdm_version_sel, true, true);
-                let _ = session.activate_data_secret_update(spdm_version_sel, true, true, true);
+                session.create_data_secret_update(spdm_version_sel, true, false)
             }
+            SpdmKeyUpdateOperation::SpdmUpdateAllKeys => session
+                .create_data_secret_update(spdm_version_sel, true, true)
+                .and_then(|_| {
+                    session.activate_data_secret_update(spdm_version_sel, true, true, true)
+                }),
             SpdmKeyUpdateOperation::SpdmVerifyNewKey => {
-                let _ = session.activate_data_secret_update(spdm_version_sel, true, false, true);
+                session.activate_data_secret_update(spdm_version_sel, true, false, true)
             }
             _ => {
                 error!("!!! key_update req : fail !!!\n");
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
                 return;
             }
+        };
+        if res.is_err() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
         }
 
         info!("send spdm key_update rsp\n");
-- 
2.43.0


From 7751c1db3fe6568bb61ae6f1a383b432e19edf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 23/49] fix: a session the requester cannot complete gives its
 place back, and PSK sessions without responder context skip PSK_FINISH

---
 spdmlib/src/common/mod.rs                    | 11 +++++++
 spdmlib/src/requester/context.rs             | 33 +++++++++++++++++---
 spdmlib/src/requester/key_exchange_req.rs    |  9 ++++--
 spdmlib/src/requester/mutual_authenticate.rs |  8 +++--
 spdmlib/src/requester/psk_exchange_req.rs    |  8 +++--
 5 files changed, 59 insertions(+), 10 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 5bd3a2e..2c19ab5 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -239,6 +239,17 @@ impl<'a> SpdmContext<'a> {
         Err(SPDM_STATUS_SESSION_NUMBER_EXCEED)
     }
 
+    /// Gives back the place of the session whose exchange was started by the requester
+    /// under this half session ID.
+    pub fn teardown_half_session(&mut self, req_session_id: u16) {
+        for session in self.session.iter_mut() {
+            let session_id = session.get_session_id();
+            if session_id != INVALID_SESSION_ID && session_id as u16 == req_session_id {
+                let _ = session.teardown(session_id);
+            }
+        }
+    }
+
     pub fn construct_my_cert_chain(&mut self) -> SpdmResult {
         for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
             // the root hash depends on the hash negotiated for this connection
diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index e73026d..138a64a 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -2,6 +2,7 @@
 //
 // SPDX-License-Identifier: BSD-2-Clause-Patent
 
+use crate::common::session::SpdmSessionState;
 use crate::common::ST1;
 use crate::common::{self, SpdmDeviceIo, SpdmTransportEncap};
 use crate::config;
@@ -47,15 +48,39 @@ impl<'a> RequesterContext<'a> {
             #[cfg(not(feature = "mut-auth"))]
             let req_slot_id: Option<u8> = None;
             #[cfg(feature = "mut-auth")]
-            self.session_based_mutual_authenticate(session_id)?;
+            if let Err(status) = self.session_based_mutual_authenticate(session_id) {
+                if let Some(session) = self.common.get_session_via_id(session_id) {
+                    let _ = session.teardown(session_id);
+                }
+                return Err(status);
+            }
             #[cfg(feature = "mut-auth")]
-            let req_slot_id = Some(self.common.runtime_info.get_local_used_cert_chain_slot_id());
-            self.send_receive_spdm_finish(req_slot_id, session_id)?;
+            let req_slot_id = match self.common.get_immutable_session_via_id(session_id) {
+                Some(session) if !session.get_mut_auth_requested().is_empty() => {
+                    Some(self.common.runtime_info.get_local_used_cert_chain_slot_id())
+                }
+                _ => None,
+            };
+            if let Err(status) = self.send_receive_spdm_finish(req_slot_id, session_id) {
+                if let Some(session) = self.common.get_session_via_id(session_id) {
+                    let _ = session.teardown(session_id);
+                }
+                return Err(status);
+            }
             Ok(session_id)
         } else {
             let session_id =
                 self.send_receive_spdm_psk_exchange(measurement_summary_hash_type, None)?;
-            self.send_receive_spdm_psk_finish(session_id)?;
+            let established = match self.common.get_immutable_session_via_id(session_id) {
+                Some(session) => {
+                    session.get_session_state() == SpdmSessionState::SpdmSessionEstablished
+                }
+                None => false,
+            };
+            // a responder without a context of its own does not take PSK_FINISH
+            if !established {
+                self.send_receive_spdm_psk_finish(session_id)?;
+            }
             Ok(session_id)
         }
     }
diff --git a/spdmlib/src/requester/key_exchange_req.rs b/spdmlib/src/requester/key_exchange_req.rs
index 1eaf9bd..658d2f3 100644
--- a/spdmlib/src/requester/key_exchange_req.rs
+++ b/spdmlib/src/requester/key_exchange_req.rs
@@ -54,14 +54,18 @@ impl<'a> RequesterContext<'a> {
         // Receive
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let receive_used = self.receive_message(&mut receive_buffer, false)?;
-        self.handle_spdm_key_exhcange_response(
+        let result = self.handle_spdm_key_exhcange_response(
             req_session_id,
             slot_id,
             &send_buffer[..send_used],
             &receive_buffer[..receive_used],
             measurement_summary_hash_type,
             key_exchange_context,
-        )
+        );
+        if result.is_err() {
+            self.common.teardown_half_session(req_session_id);
+        }
+        result
     }
 
     pub fn encode_spdm_key_exchange(
@@ -256,6 +260,7 @@ impl<'a> RequesterContext<'a> {
                             session.setup(session_id)?;
 
                             session.set_use_psk(false);
+                            session.set_slot_id(slot_id);
                             session.set_mut_auth_requested(key_exchange_rsp.mut_auth_req);
 
                             session.set_crypto_param(
diff --git a/spdmlib/src/requester/mutual_authenticate.rs b/spdmlib/src/requester/mutual_authenticate.rs
index d237bcf..195ca58 100644
--- a/spdmlib/src/requester/mutual_authenticate.rs
+++ b/spdmlib/src/requester/mutual_authenticate.rs
@@ -11,14 +11,18 @@ use super::RequesterContext;
 
 impl<'a> RequesterContext<'a> {
     pub fn session_based_mutual_authenticate(&mut self, session_id: u32) -> SpdmResult<()> {
-        self.common.construct_my_cert_chain()?;
-
         let spdm_session = self
             .common
             .get_session_via_id(session_id)
             .ok_or(SPDM_STATUS_INVALID_STATE_LOCAL)?;
 
         let mut_auth_requested = spdm_session.get_mut_auth_requested();
+        if mut_auth_requested.is_empty() {
+            return Ok(());
+        }
+
+        self.common.construct_my_cert_chain()?;
+
         match mut_auth_requested {
             SpdmKeyExchangeMutAuthAttributes::MUT_AUTH_REQ => Ok(()),
             SpdmKeyExchangeMutAuthAttributes::MUT_AUTH_REQ_WITH_ENCAP_REQUEST
diff --git a/spdmlib/src/requester/psk_exchange_req.rs b/spdmlib/src/requester/psk_exchange_req.rs
index 7886632..aecd31d 100644
--- a/spdmlib/src/requester/psk_exchange_req.rs
+++ b/spdmlib/src/requester/psk_exchange_req.rs
@@ -48,13 +48,17 @@ impl<'a> RequesterContext<'a> {
         // Receive
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let receive_used = self.receive_message(&mut receive_buffer, false)?;
-        self.handle_spdm_psk_exchange_response(
+        let result = self.handle_spdm_psk_exchange_response(
             half_session_id,
             measurement_summary_hash_type,
             &psk_hint,
             &send_buffer[..send_used],
             &receive_buffer[..receive_used],
-        )
+        );
+        if result.is_err() {
+            self.common.teardown_half_session(half_session_id);
+        }
+        result
     }
 
     pub fn encode_spdm_psk_exchange(
-- 
2.43.0


From cf25ebce6af496fafd251f8400da7c0e39538ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:14 +0000
Subject: [PATCH 24/49] fix: the FINISH signature uses the requester's
 algorithm, slot and transcript, and FINISH_RSP its version

---
 spdmlib/src/common/mod.rs           |  9 ++++++++
 spdmlib/src/message/finish.rs       | 18 ++++++++++++---
 spdmlib/src/requester/finish_req.rs | 35 +++++++++++++++++++----------
 spdmlib/src/responder/finish_rsp.rs | 17 ++++++++++----
 4 files changed, 60 insertions(+), 19 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 2c19ab5..5e1f5e5 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -167,6 +167,15 @@ impl<'a> SpdmContext<'a> {
     pub fn get_hash_size(&self) -> u16 {
         self.negotiate_info.base_hash_sel.get_size()
     }
+    /// The algorithm the requester signs FINISH with; the two registries share their bits.
+    pub fn get_req_asym_algo(&self) -> SpdmBaseAsymAlgo {
+        if self.negotiate_info.req_asym_sel.is_empty() {
+            self.negotiate_info.base_asym_sel
+        } else {
+            SpdmBaseAsymAlgo::from_bits_truncate(self.negotiate_info.req_asym_sel.bits() as u32)
+        }
+    }
+
     pub fn get_asym_key_size(&self) -> u16 {
         self.negotiate_info.base_asym_sel.get_size()
     }
diff --git a/spdmlib/src/message/finish.rs b/spdmlib/src/message/finish.rs
index 5f72bd6..1fc1ed8 100644
--- a/spdmlib/src/message/finish.rs
+++ b/spdmlib/src/message/finish.rs
@@ -4,7 +4,7 @@
 
 use crate::common;
 use crate::common::spdm_codec::SpdmCodec;
-use crate::error::{SpdmStatus, SPDM_STATUS_BUFFER_FULL};
+use crate::error::{SpdmStatus, SPDM_STATUS_BUFFER_FULL, SPDM_STATUS_INVALID_PARAMETER};
 use crate::protocol::{
     SpdmDigestStruct, SpdmRequestCapabilityFlags, SpdmResponseCapabilityFlags, SpdmSignatureStruct,
 };
@@ -56,7 +56,12 @@ impl SpdmCodec for SpdmFinishRequestPayload {
             .finish_request_attributes
             .contains(SpdmFinishRequestAttributes::SIGNATURE_INCLUDED)
         {
-            cnt += self.signature.spdm_encode(context, bytes)?;
+            if self.signature.data_size != context.get_req_asym_algo().get_size() {
+                return Err(SPDM_STATUS_INVALID_PARAMETER);
+            }
+            for d in self.signature.as_ref() {
+                cnt += d.encode(bytes).map_err(|_| SPDM_STATUS_BUFFER_FULL)?;
+            }
         }
         cnt += self.verify_data.spdm_encode(context, bytes)?;
         Ok(cnt)
@@ -70,7 +75,14 @@ impl SpdmCodec for SpdmFinishRequestPayload {
         let req_slot_id = u8::read(r)?; // param2
         let mut signature = SpdmSignatureStruct::default();
         if finish_request_attributes.contains(SpdmFinishRequestAttributes::SIGNATURE_INCLUDED) {
-            signature = SpdmSignatureStruct::spdm_read(context, r)?;
+            signature.data_size = context.get_req_asym_algo().get_size();
+            for d in signature
+                .data
+                .iter_mut()
+                .take(signature.data_size as usize)
+            {
+                *d = u8::read(r)?;
+            }
         }
         let verify_data = SpdmDigestStruct::spdm_read(context, r)?;
 
diff --git a/spdmlib/src/requester/finish_req.rs b/spdmlib/src/requester/finish_req.rs
index 1c50b3b..f0406ba 100644
--- a/spdmlib/src/requester/finish_req.rs
+++ b/spdmlib/src/requester/finish_req.rs
@@ -119,7 +119,7 @@ impl<'a> RequesterContext<'a> {
             .ok_or(SPDM_STATUS_INVALID_STATE_LOCAL)?;
         if !session.get_mut_auth_requested().is_empty() {
             finish_request_attributes = SpdmFinishRequestAttributes::SIGNATURE_INCLUDED;
-            signature.data_size = self.common.negotiate_info.req_asym_sel.get_size();
+            signature.data_size = self.common.get_req_asym_algo().get_size();
             is_mut_auth = true;
         }
 
@@ -168,7 +168,7 @@ impl<'a> RequesterContext<'a> {
 
         let transcript_hash =
             self.common
-                .calc_req_transcript_hash(false, req_slot_id, is_mut_auth, session)?;
+                .calc_req_transcript_hash(false, session.get_slot_id(), is_mut_auth, session)?;
 
         let session = self.common.get_session_via_id(session_id).unwrap();
 
@@ -185,7 +185,7 @@ impl<'a> RequesterContext<'a> {
     pub fn handle_spdm_finish_response(
         &mut self,
         session_id: u32,
-        req_slot_id: u8,
+        _req_slot_id: u8,
         receive_buffer: &[u8],
     ) -> SpdmResult {
         let in_clear_text = self
@@ -208,6 +208,11 @@ impl<'a> RequesterContext<'a> {
 
         let mut reader = Reader::init(receive_buffer);
         match SpdmMessageHeader::read(&mut reader) {
+            Some(message_header)
+                if message_header.version != self.common.negotiate_info.spdm_version_sel =>
+            {
+                Err(SPDM_STATUS_INVALID_MSG_FIELD)
+            }
             Some(message_header) => match message_header.request_response_code {
                 SpdmRequestResponseCode::SpdmResponseFinishRsp => {
                     let finish_rsp =
@@ -235,7 +240,7 @@ impl<'a> RequesterContext<'a> {
 
                             let transcript_hash = self.common.calc_req_transcript_hash(
                                 false,
-                                req_slot_id,
+                                session.get_slot_id(),
                                 is_mut_auth,
                                 session,
                             )?;
@@ -274,7 +279,7 @@ impl<'a> RequesterContext<'a> {
                         // generate the data secret
                         let th2 = self.common.calc_req_transcript_hash(
                             false,
-                            req_slot_id,
+                            session.get_slot_id(),
                             is_mut_auth,
                             session,
                         )?;
@@ -322,7 +327,14 @@ impl<'a> RequesterContext<'a> {
             .common
             .calc_req_transcript_hash(false, slot_id, true, session)?;
 
-        let mut transcript_sign = ManagedBuffer12Sign::default();
+        // SPDM 1.0/1.1 sign the transcript itself
+        let mut transcript_sign = self.common.calc_req_transcript_data(
+            false,
+            slot_id,
+            true,
+            &session.runtime_info.message_k,
+            Some(&session.runtime_info.message_f),
+        )?;
         if self.common.negotiate_info.spdm_version_sel.get_u8()
             >= SpdmVersion::SpdmVersion12.get_u8()
         {
@@ -343,7 +355,7 @@ impl<'a> RequesterContext<'a> {
 
         crate::secret::asym_sign::sign(
             self.common.negotiate_info.base_hash_sel,
-            self.common.negotiate_info.base_asym_sel,
+            self.common.get_req_asym_algo(),
             transcript_sign.as_ref(),
         )
         .ok_or(SPDM_STATUS_CRYPTO_ERROR)
@@ -385,7 +397,7 @@ impl<'a> RequesterContext<'a> {
 
         let signature = crate::secret::asym_sign::sign(
             self.common.negotiate_info.base_hash_sel,
-            self.common.negotiate_info.base_asym_sel,
+            self.common.get_req_asym_algo(),
             transcript_sign.as_ref(),
         )
         .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
@@ -395,19 +407,18 @@ impl<'a> RequesterContext<'a> {
             .as_ref()
             .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
             .data[(4usize + self.common.negotiate_info.base_hash_sel.get_size() as usize)
-            ..(self.common.peer_info.peer_cert_chain[peer_slot_id as usize]
+            ..(self.common.provision_info.my_cert_chain[peer_slot_id as usize]
                 .as_ref()
                 .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
                 .data_size as usize)];
 
         crate::crypto::asym_verify::verify(
             self.common.negotiate_info.base_hash_sel,
-            self.common.negotiate_info.base_asym_sel,
+            self.common.get_req_asym_algo(),
             peer_cert,
             transcript_sign.as_ref(),
             &signature,
-        )
-        .unwrap();
+        )?;
 
         Ok(signature)
     }
diff --git a/spdmlib/src/responder/finish_rsp.rs b/spdmlib/src/responder/finish_rsp.rs
index ce4ed92..6bffd5c 100644
--- a/spdmlib/src/responder/finish_rsp.rs
+++ b/spdmlib/src/responder/finish_rsp.rs
@@ -3,7 +3,9 @@
 // SPDX-License-Identifier: BSD-2-Clause-Patent
 
 use crate::common::session::SpdmSession;
-use crate::common::{ManagedBuffer12Sign, SpdmCodec};
+#[cfg(feature = "hashed-transcript-data")]
+use crate::common::ManagedBuffer12Sign;
+use crate::common::SpdmCodec;
 use crate::crypto;
 use crate::error::SpdmResult;
 use crate::error::SPDM_STATUS_CRYPTO_ERROR;
@@ -336,7 +338,14 @@ impl<'a> ResponderContext<'a> {
                 .as_ref()
                 .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
                 .data_size as usize)];
-        let mut transcript_sign = ManagedBuffer12Sign::default();
+        // SPDM 1.0/1.1 sign the transcript itself
+        let mut transcript_sign = self.common.calc_rsp_transcript_data(
+            false,
+            session.get_slot_id(),
+            true,
+            &session.runtime_info.message_k,
+            Some(&session.runtime_info.message_f),
+        )?;
         if self.common.negotiate_info.spdm_version_sel.get_u8()
             >= SpdmVersion::SpdmVersion12.get_u8()
         {
@@ -357,7 +366,7 @@ impl<'a> ResponderContext<'a> {
 
         crypto::asym_verify::verify(
             self.common.negotiate_info.base_hash_sel,
-            self.common.negotiate_info.base_asym_sel,
+            self.common.get_req_asym_algo(),
             peer_cert,
             transcript_sign.as_ref(),
             signature,
@@ -408,7 +417,7 @@ impl<'a> ResponderContext<'a> {
 
         let res = crypto::asym_verify::verify(
             self.common.negotiate_info.base_hash_sel,
-            self.common.negotiate_info.base_asym_sel,
+            self.common.get_req_asym_algo(),
             peer_cert,
             transcript_hash_sign.as_ref(),
             signature,
-- 
2.43.0


From 7c0d4239167cfa2c67e06946f379269dcd11101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:36 +0000
Subject: [PATCH 25/49] fix: CHALLENGE_AUTH must answer for the requested slot
 and its chain

---
 spdmlib/src/requester/challenge_req.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/spdmlib/src/requester/challenge_req.rs b/spdmlib/src/requester/challenge_req.rs
index 7ac271e..5db51f4 100644
--- a/spdmlib/src/requester/challenge_req.rs
+++ b/spdmlib/src/requester/challenge_req.rs
@@ -104,6 +104,20 @@ impl<'a> RequesterContext<'a> {
                         if let Some(challenge_auth) = challenge_auth {
                             debug!("!!! challenge_auth : {:02x?}\n", challenge_auth);
 
+                            // the response answers for the slot that was asked for
+                            let cert_chain_hash = self
+                                .common
+                                .get_certchain_hash_peer(false, slot_id as usize)
+                                .ok_or(SPDM_STATUS_INVALID_PARAMETER)?;
+                            if challenge_auth.slot_id != slot_id
+                                || challenge_auth.cert_chain_hash.as_ref()
+                                    != cert_chain_hash.as_ref()
+                            {
+                                self.common.reset_message_b();
+                                self.common.reset_message_c();
+                                return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+                            }
+
                             // verify signature
                             let base_asym_size =
                                 self.common.negotiate_info.base_asym_sel.get_size() as usize;
-- 
2.43.0


From b4b1767be9fac9a693e3294bd4d4459885a70c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 26/49] fix: the DOE application encapsulation checks its
 buffers

---
 pcidoe_transport/src/header.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pcidoe_transport/src/header.rs b/pcidoe_transport/src/header.rs
index b247322..311edd7 100644
--- a/pcidoe_transport/src/header.rs
+++ b/pcidoe_transport/src/header.rs
@@ -5,7 +5,10 @@
 use codec::enum_builder;
 use codec::{Codec, Reader, Writer};
 use spdmlib::common::SpdmTransportEncap;
-use spdmlib::error::{SpdmResult, SPDM_STATUS_DECAP_FAIL, SPDM_STATUS_ENCAP_FAIL};
+use spdmlib::error::{
+    SpdmResult, SPDM_STATUS_DECAP_APP_FAIL, SPDM_STATUS_DECAP_FAIL, SPDM_STATUS_ENCAP_APP_FAIL,
+    SPDM_STATUS_ENCAP_FAIL,
+};
 
 enum_builder! {
     @U16
@@ -149,6 +152,9 @@ impl SpdmTransportEncap for PciDoeTransportEncap {
         app_buffer: &mut [u8],
         _is_app_message: bool,
     ) -> SpdmResult<usize> {
+        if app_buffer.len() < spdm_buffer.len() {
+            return Err(SPDM_STATUS_ENCAP_APP_FAIL);
+        }
         app_buffer[0..spdm_buffer.len()].copy_from_slice(spdm_buffer);
         Ok(spdm_buffer.len())
     }
@@ -158,6 +164,9 @@ impl SpdmTransportEncap for PciDoeTransportEncap {
         app_buffer: &[u8],
         spdm_buffer: &mut [u8],
     ) -> SpdmResult<(usize, bool)> {
+        if spdm_buffer.len() < app_buffer.len() {
+            return Err(SPDM_STATUS_DECAP_APP_FAIL);
+        }
         spdm_buffer[0..app_buffer.len()].copy_from_slice(app_buffer);
         Ok((app_buffer.len(), false))
     }
-- 
2.43.0


From 683b656eb41e6d1880e92b394fbcb0b6430e15a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 27/49] fix: secured payloads are bounded by their buffers,
 session 0 names no session, and application data is not taken for an SPDM
 response

---
 spdmlib/src/common/mod.rs                     | 29 +++++++++++---
 spdmlib/src/common/session.rs                 |  8 ++++
 spdmlib/src/requester/context.rs              | 39 +++++++++++++++++--
 spdmlib/src/requester/encap_req.rs            |  4 +-
 spdmlib/src/requester/end_session_req.rs      |  2 +-
 spdmlib/src/requester/finish_req.rs           |  2 +-
 spdmlib/src/requester/get_certificate_req.rs  |  2 +-
 spdmlib/src/requester/get_digests_req.rs      |  2 +-
 spdmlib/src/requester/get_measurements_req.rs |  2 +-
 spdmlib/src/requester/heartbeat_req.rs        |  2 +-
 spdmlib/src/requester/key_update_req.rs       |  2 +-
 spdmlib/src/requester/psk_finish_req.rs       |  2 +-
 spdmlib/src/requester/vendor_req.rs           |  2 +-
 13 files changed, 78 insertions(+), 20 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 5e1f5e5..ad88c6b 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -206,19 +206,27 @@ impl<'a> SpdmContext<'a> {
     }
 
     pub fn get_immutable_session_via_id(&self, session_id: u32) -> Option<&SpdmSession> {
+        if session_id == INVALID_SESSION_ID {
+            return None;
+        }
         self.session
             .iter()
             .find(|&session| session.get_session_id() == session_id)
     }
 
     pub fn get_session_via_id(&mut self, session_id: u32) -> Option<&mut SpdmSession> {
+        if session_id == INVALID_SESSION_ID {
+            return None;
+        }
         self.session
             .iter_mut()
             .find(|session| session.get_session_id() == session_id)
     }
 
     pub fn get_next_avaiable_session(&mut self) -> Option<&mut SpdmSession> {
-        self.get_session_via_id(0)
+        self.session
+            .iter_mut()
+            .find(|session| session.get_session_id() == INVALID_SESSION_ID)
     }
 
     pub fn get_session_status(&self) -> [(u32, SpdmSessionState); config::MAX_SPDM_SESSION_COUNT] {
@@ -1085,6 +1093,18 @@ impl<'a> SpdmContext<'a> {
         transport_buffer: &[u8],
         receive_buffer: &mut [u8],
     ) -> SpdmResult<usize> {
+        let (used, _is_app_message) =
+            self.decode_secured_payload(session_id, transport_buffer, receive_buffer)?;
+        Ok(used)
+    }
+
+    /// Also tells whether the payload is an application message.
+    pub fn decode_secured_payload(
+        &mut self,
+        session_id: u32,
+        transport_buffer: &[u8],
+        receive_buffer: &mut [u8],
+    ) -> SpdmResult<(usize, bool)> {
         let mut encoded_receive_buffer = [0u8; config::RECEIVER_BUFFER_SIZE];
         let (used, secured_message) = self
             .transport_encap
@@ -1105,11 +1125,8 @@ impl<'a> SpdmContext<'a> {
             false,
         )?;
 
-        let used = self
-            .transport_encap
-            .decap_app(&app_buffer[0..decode_size], receive_buffer)?;
-
-        Ok(used.0)
+        self.transport_encap
+            .decap_app(&app_buffer[0..decode_size], receive_buffer)
     }
 }
 
diff --git a/spdmlib/src/common/session.rs b/spdmlib/src/common/session.rs
index 0f9ee61..de0feae 100644
--- a/spdmlib/src/common/session.rs
+++ b/spdmlib/src/common/session.rs
@@ -938,6 +938,11 @@ impl SpdmSession {
 
         let cipher_text_size = app_buffer.len() + 2;
         let tag_size = aead_algo.get_tag_size() as usize;
+        if 6 + transport_param.sequence_number_count as usize + cipher_text_size + tag_size
+            > core::cmp::min(secured_buffer.len(), config::SENDER_BUFFER_SIZE)
+        {
+            return Err(SPDM_STATUS_BUFFER_TOO_SMALL);
+        }
 
         let mut aad_buffer = [0u8; 6 + 8];
         let mut writer = Writer::init(&mut aad_buffer);
@@ -1082,6 +1087,9 @@ impl SpdmSession {
             return Err(SPDM_STATUS_DECODE_AEAD_FAIL);
         }
 
+        if app_buffer.len() < app_length {
+            return Err(SPDM_STATUS_DECODE_AEAD_FAIL);
+        }
         app_buffer[..app_length].copy_from_slice(&plain_text_buf[2..(app_length + 2)]);
         Ok(app_length)
     }
diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index 138a64a..438a431 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -131,7 +131,7 @@ impl<'a> RequesterContext<'a> {
         info!("receive_message!\n");
 
         let timeout: usize = if crypto_request {
-            2 << self.common.negotiate_info.rsp_ct_exponent_sel
+            self.crypto_timeout()
         } else {
             ST1
         };
@@ -152,10 +152,43 @@ impl<'a> RequesterContext<'a> {
         receive_buffer: &mut [u8],
         crypto_request: bool,
     ) -> SpdmResult<usize> {
+        let (used, _is_app_message) =
+            self.receive_secured_payload(session_id, receive_buffer, crypto_request)?;
+        Ok(used)
+    }
+
+    /// Receives an SPDM message; application data is not taken for one.
+    pub fn receive_secured_spdm_message(
+        &mut self,
+        session_id: u32,
+        receive_buffer: &mut [u8],
+        crypto_request: bool,
+    ) -> SpdmResult<usize> {
+        let (used, is_app_message) =
+            self.receive_secured_payload(session_id, receive_buffer, crypto_request)?;
+        if is_app_message {
+            return Err(SPDM_STATUS_RECEIVE_FAIL);
+        }
+        Ok(used)
+    }
+
+    fn crypto_timeout(&self) -> usize {
+        2usize
+            .checked_shl(self.common.negotiate_info.rsp_ct_exponent_sel as u32)
+            .filter(|timeout| *timeout != 0)
+            .unwrap_or(usize::MAX)
+    }
+
+    fn receive_secured_payload(
+        &mut self,
+        session_id: u32,
+        receive_buffer: &mut [u8],
+        crypto_request: bool,
+    ) -> SpdmResult<(usize, bool)> {
         info!("receive_secured_message!\n");
 
         let timeout: usize = if crypto_request {
-            2 << self.common.negotiate_info.rsp_ct_exponent_sel
+            self.crypto_timeout()
         } else {
             ST1
         };
@@ -169,6 +202,6 @@ impl<'a> RequesterContext<'a> {
             .map_err(|_| SPDM_STATUS_RECEIVE_FAIL)?;
 
         self.common
-            .decode_secured_message(session_id, &transport_buffer[..used], receive_buffer)
+            .decode_secured_payload(session_id, &transport_buffer[..used], receive_buffer)
     }
 }
diff --git a/spdmlib/src/requester/encap_req.rs b/spdmlib/src/requester/encap_req.rs
index 3e5c64d..f3f5f82 100644
--- a/spdmlib/src/requester/encap_req.rs
+++ b/spdmlib/src/requester/encap_req.rs
@@ -99,7 +99,7 @@ impl<'a> RequesterContext<'a> {
 
     pub fn receive_encapsulated_request(&mut self, session_id: u32) -> SpdmResult {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let _ = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
+        let _ = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?;
         let mut reader = Reader::init(&receive_buffer);
 
         let header = SpdmMessageHeader::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
@@ -123,7 +123,7 @@ impl<'a> RequesterContext<'a> {
 
     pub fn receive_encapsulated_response_ack(&mut self, session_id: u32) -> SpdmResult<bool> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let size = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
+        let size = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?;
         let mut reader = Reader::init(&receive_buffer);
 
         let header = SpdmMessageHeader::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
diff --git a/spdmlib/src/requester/end_session_req.rs b/spdmlib/src/requester/end_session_req.rs
index 6260369..1594e4f 100644
--- a/spdmlib/src/requester/end_session_req.rs
+++ b/spdmlib/src/requester/end_session_req.rs
@@ -23,7 +23,7 @@ impl<'a> RequesterContext<'a> {
         self.send_secured_message(session_id, &send_buffer[..used], false)?;
 
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let used = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
+        let used = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?;
         self.handle_spdm_end_session_response(session_id, &receive_buffer[..used])
     }
 
diff --git a/spdmlib/src/requester/finish_req.rs b/spdmlib/src/requester/finish_req.rs
index f0406ba..0b808fd 100644
--- a/spdmlib/src/requester/finish_req.rs
+++ b/spdmlib/src/requester/finish_req.rs
@@ -79,7 +79,7 @@ impl<'a> RequesterContext<'a> {
         let res = if in_clear_text {
             self.receive_message(&mut receive_buffer, false)
         } else {
-            self.receive_secured_message(session_id, &mut receive_buffer, false)
+            self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)
         };
         if res.is_err() {
             let _ = self
diff --git a/spdmlib/src/requester/get_certificate_req.rs b/spdmlib/src/requester/get_certificate_req.rs
index 3efddef..40f024e 100644
--- a/spdmlib/src/requester/get_certificate_req.rs
+++ b/spdmlib/src/requester/get_certificate_req.rs
@@ -37,7 +37,7 @@ impl<'a> RequesterContext<'a> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let used = match session_id {
             Some(session_id) => {
-                self.receive_secured_message(session_id, &mut receive_buffer, false)?
+                self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?
             }
             None => self.receive_message(&mut receive_buffer, false)?,
         };
diff --git a/spdmlib/src/requester/get_digests_req.rs b/spdmlib/src/requester/get_digests_req.rs
index f890666..cfd791b 100644
--- a/spdmlib/src/requester/get_digests_req.rs
+++ b/spdmlib/src/requester/get_digests_req.rs
@@ -29,7 +29,7 @@ impl<'a> RequesterContext<'a> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let used = match session_id {
             Some(session_id) => {
-                self.receive_secured_message(session_id, &mut receive_buffer, false)?
+                self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?
             }
             None => self.receive_message(&mut receive_buffer, false)?,
         };
diff --git a/spdmlib/src/requester/get_measurements_req.rs b/spdmlib/src/requester/get_measurements_req.rs
index 029c061..6992690 100644
--- a/spdmlib/src/requester/get_measurements_req.rs
+++ b/spdmlib/src/requester/get_measurements_req.rs
@@ -53,7 +53,7 @@ impl<'a> RequesterContext<'a> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let used = match session_id {
             Some(session_id) => {
-                self.receive_secured_message(session_id, &mut receive_buffer, true)?
+                self.receive_secured_spdm_message(session_id, &mut receive_buffer, true)?
             }
             None => self.receive_message(&mut receive_buffer, true)?,
         };
diff --git a/spdmlib/src/requester/heartbeat_req.rs b/spdmlib/src/requester/heartbeat_req.rs
index 33eef0e..5504103 100644
--- a/spdmlib/src/requester/heartbeat_req.rs
+++ b/spdmlib/src/requester/heartbeat_req.rs
@@ -21,7 +21,7 @@ impl<'a> RequesterContext<'a> {
 
         // Receive
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let used = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
+        let used = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?;
         self.handle_spdm_heartbeat_response(session_id, &receive_buffer[..used])
     }
 
diff --git a/spdmlib/src/requester/key_update_req.rs b/spdmlib/src/requester/key_update_req.rs
index 72153da..6f0890d 100644
--- a/spdmlib/src/requester/key_update_req.rs
+++ b/spdmlib/src/requester/key_update_req.rs
@@ -65,7 +65,7 @@ impl<'a> RequesterContext<'a> {
         let update_responder = key_update_operation == SpdmKeyUpdateOperation::SpdmUpdateAllKeys;
         session.create_data_secret_update(spdm_version_sel, update_requester, update_responder)?;
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let used = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
+        let used = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?;
 
         self.handle_spdm_key_update_op_response(
             session_id,
diff --git a/spdmlib/src/requester/psk_finish_req.rs b/spdmlib/src/requester/psk_finish_req.rs
index a33051e..acb69f5 100644
--- a/spdmlib/src/requester/psk_finish_req.rs
+++ b/spdmlib/src/requester/psk_finish_req.rs
@@ -47,7 +47,7 @@ impl<'a> RequesterContext<'a> {
         }
 
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let res = self.receive_secured_message(session_id, &mut receive_buffer, false);
+        let res = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false);
         if res.is_err() {
             let _ = self
                 .common
diff --git a/spdmlib/src/requester/vendor_req.rs b/spdmlib/src/requester/vendor_req.rs
index acaaa28..9147318 100644
--- a/spdmlib/src/requester/vendor_req.rs
+++ b/spdmlib/src/requester/vendor_req.rs
@@ -51,7 +51,7 @@ impl<'a> RequesterContext<'a> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let receive_used = match session_id {
             Some(session_id) => {
-                self.receive_secured_message(session_id, &mut receive_buffer, false)?
+                self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?
             }
             None => self.receive_message(&mut receive_buffer, false)?,
         };
-- 
2.43.0


From 2273f5a8609f1d198ff97971982c914771eb547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:04 +0000
Subject: [PATCH 28/49] fix: encapsulated exchanges end, read only what was
 received, and carry any chain the buffers hold

---
 spdmlib/src/requester/encap_req.rs            | 21 +++++++++-----
 .../src/responder/encap_get_certificate.rs    | 29 ++++++++++++-------
 2 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/spdmlib/src/requester/encap_req.rs b/spdmlib/src/requester/encap_req.rs
index f3f5f82..adf9611 100644
--- a/spdmlib/src/requester/encap_req.rs
+++ b/spdmlib/src/requester/encap_req.rs
@@ -76,8 +76,13 @@ impl<'a> RequesterContext<'a> {
             }
         }
 
-        while self.receive_encapsulated_response_ack(session_id)? {}
-        Ok(())
+        // no legal exchange needs more requests than the certificate chain has bytes
+        for _ in 0..config::MAX_SPDM_CERT_CHAIN_DATA_SIZE {
+            if !self.receive_encapsulated_response_ack(session_id)? {
+                return Ok(());
+            }
+        }
+        Err(SPDM_STATUS_INVALID_MSG_FIELD)
     }
 
     pub fn send_get_encapsulated_request(&mut self, session_id: u32) -> SpdmResult {
@@ -99,8 +104,8 @@ impl<'a> RequesterContext<'a> {
 
     pub fn receive_encapsulated_request(&mut self, session_id: u32) -> SpdmResult {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let _ = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?;
-        let mut reader = Reader::init(&receive_buffer);
+        let size = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?;
+        let mut reader = Reader::init(&receive_buffer[..size]);
 
         let header = SpdmMessageHeader::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
 
@@ -117,14 +122,14 @@ impl<'a> RequesterContext<'a> {
         self.process_encapsulated_request(
             session_id,
             encapsulated_request.request_id,
-            &receive_buffer[reader.used()..],
+            &receive_buffer[reader.used()..size],
         )
     }
 
     pub fn receive_encapsulated_response_ack(&mut self, session_id: u32) -> SpdmResult<bool> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let size = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?;
-        let mut reader = Reader::init(&receive_buffer);
+        let mut reader = Reader::init(&receive_buffer[..size]);
 
         let header = SpdmMessageHeader::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
 
@@ -161,13 +166,13 @@ impl<'a> RequesterContext<'a> {
                     return Err(SPDM_STATUS_INVALID_MSG_SIZE);
                 }
             }
-            _ => {}
+            _ => return Err(SPDM_STATUS_INVALID_MSG_FIELD),
         }
 
         self.process_encapsulated_request(
             session_id,
             ack_header.request_id,
-            &receive_buffer[reader.used()..],
+            &receive_buffer[reader.used()..size],
         )?;
 
         Ok(true)
diff --git a/spdmlib/src/responder/encap_get_certificate.rs b/spdmlib/src/responder/encap_get_certificate.rs
index 650c45e..dca149d 100644
--- a/spdmlib/src/responder/encap_get_certificate.rs
+++ b/spdmlib/src/responder/encap_get_certificate.rs
@@ -45,7 +45,7 @@ impl<'a> ResponderContext<'a> {
                         .as_ref()
                         .unwrap()
                         .data_size,
-                    length: MAX_SPDM_CERT_PORTION_LEN as u16,
+                    length: self.encap_cert_portion_length(),
                     slot_id: self.common.encap_context.req_slot_id,
                 },
             ),
@@ -56,6 +56,16 @@ impl<'a> ResponderContext<'a> {
         Ok(())
     }
 
+    // the portion is delivered behind a DELIVER_ENCAPSULATED_RESPONSE and a CERTIFICATE header
+    fn encap_cert_portion_length(&self) -> u16 {
+        let transfer_size = self.common.negotiate_info.rsp_data_transfer_size_sel as usize;
+        if transfer_size != 0 {
+            core::cmp::min(MAX_SPDM_CERT_PORTION_LEN, transfer_size.saturating_sub(4 + 8)) as u16
+        } else {
+            MAX_SPDM_CERT_PORTION_LEN as u16
+        }
+    }
+
     pub fn handle_encap_response_certificate(&mut self, encap_response: &[u8]) -> SpdmResult<bool> {
         let mut reader = Reader::init(encap_response);
         let mut get_cert_completed = false;
@@ -81,16 +91,15 @@ impl<'a> ResponderContext<'a> {
                                 .ok_or(SPDM_STATUS_INVALID_STATE_LOCAL)?;
                             let offset = peer_cert_chain_temp.data_size;
 
+                            let max_size = (4
+                                + self.common.negotiate_info.base_hash_sel.get_size() as usize
+                                + config::MAX_SPDM_CERT_CHAIN_DATA_SIZE)
+                                as u32;
                             if certificate.portion_length as usize > MAX_SPDM_CERT_PORTION_LEN
-                                || certificate.portion_length
-                                    > config::MAX_SPDM_CERT_CHAIN_DATA_SIZE as u16 - offset
-                            {
-                                return Err(SPDM_STATUS_INVALID_MSG_FIELD);
-                            }
-                            if certificate.remainder_length
-                                >= config::MAX_SPDM_CERT_CHAIN_DATA_SIZE as u16
-                                    - offset
-                                    - certificate.portion_length
+                                || offset as u32
+                                    + certificate.portion_length as u32
+                                    + certificate.remainder_length as u32
+                                    > max_size
                             {
                                 return Err(SPDM_STATUS_INVALID_MSG_FIELD);
                             }
-- 
2.43.0


From 6a72b0cbc5e875d6b6f6b40eaef5f90b0f1c6a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 29/49] fix: a vendor-defined request before negotiation is
 unexpected

---
 spdmlib/src/responder/vendor_rsp.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spdmlib/src/responder/vendor_rsp.rs b/spdmlib/src/responder/vendor_rsp.rs
index c400d7a..4955311 100644
--- a/spdmlib/src/responder/vendor_rsp.rs
+++ b/spdmlib/src/responder/vendor_rsp.rs
@@ -3,6 +3,7 @@
 // SPDX-License-Identifier: BSD-2-Clause-Patent
 
 use crate::common::SpdmCodec;
+use crate::common::SpdmConnectionState;
 use crate::error::SpdmResult;
 use crate::message::*;
 use crate::responder::*;
@@ -28,6 +29,12 @@ impl<'a> ResponderContext<'a> {
         bytes: &[u8],
         writer: &mut Writer,
     ) {
+        if self.common.runtime_info.get_connection_state().get_u8()
+            < SpdmConnectionState::SpdmConnectionNegotiated.get_u8()
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnexpectedRequest, 0, writer);
+            return;
+        }
         let mut reader = Reader::init(bytes);
         let message_header = SpdmMessageHeader::read(&mut reader);
         if let Some(message_header) = message_header {
-- 
2.43.0


From 7811fa8be6d20ab3c7b9356b2e0f0aadd32d4a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 30/49] fix: an unfinished challenge transcript restarts on the
 same requests on both sides

---
 spdmlib/src/common/mod.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index ad88c6b..907cd46 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -1024,12 +1024,8 @@ impl<'a> SpdmContext<'a> {
             | SpdmRequestResponseCode::SpdmRequestKeyUpdate
             | SpdmRequestResponseCode::SpdmRequestHeartbeat
             | SpdmRequestResponseCode::SpdmRequestEndSession => {
-                if self.runtime_info.connection_state.get_u8()
-                    < SpdmConnectionState::SpdmConnectionAuthenticated.get_u8()
-                {
-                    self.reset_message_b();
-                    self.reset_message_c();
-                }
+                self.reset_message_b();
+                self.reset_message_c();
             }
             SpdmRequestResponseCode::SpdmRequestGetDigests => {
                 self.reset_message_b();
-- 
2.43.0


From efaa77b781a9e80df1cb4dcec6fb1d48f511f710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 31/49] fix: PSK sessions and encapsulated exchanges work when
 the handshake is in the clear

---
 spdmlib/src/responder/context.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index 4c546fd..b69166e 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -245,9 +245,9 @@ impl<'a> ResponderContext<'a> {
                         .negotiate_info
                         .rsp_capabilities_sel
                         .contains(SpdmResponseCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP);
-                if in_clear_text {
-                    return Err(SPDM_STATUS_UNSUPPORTED_CAP);
-                }
+                // The handshake of a PSK session is never in the clear; in the clear the FINISH is,
+                // while the encapsulated exchanges before it are secured.
+                let use_psk = session.get_use_psk();
 
                 match SpdmMessageHeader::read(&mut reader) {
                     Some(message_header) => match message_header.request_response_code {
@@ -259,6 +259,8 @@ impl<'a> ResponderContext<'a> {
                         SpdmRequestResponseCode::SpdmRequestDeliverEncapsulatedResponse => {
                             self.handle_deliver_encapsulated_reponse(session_id, bytes)
                         }
+                        _ if in_clear_text && !use_psk => Err(SPDM_STATUS_UNSUPPORTED_CAP),
+
                         SpdmRequestResponseCode::SpdmRequestFinish => {
                             self.handle_spdm_finish(session_id, bytes)
                         }
@@ -431,6 +433,7 @@ impl<'a> ResponderContext<'a> {
                             {
                                 if session.get_session_state()
                                     == SpdmSessionState::SpdmSessionHandshaking
+                                    && !session.get_use_psk()
                                 {
                                     return self.handle_spdm_finish(session_id, bytes);
                                 }
-- 
2.43.0


From 73af8ac94952c5a5addd6b69a2ef313168313461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:53 +0000
Subject: [PATCH 32/49] fix: the encapsulated response ack of version 1.1 has a
 shorter header

---
 spdmlib/src/requester/encap_req.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/requester/encap_req.rs b/spdmlib/src/requester/encap_req.rs
index adf9611..238ae68 100644
--- a/spdmlib/src/requester/encap_req.rs
+++ b/spdmlib/src/requester/encap_req.rs
@@ -16,7 +16,7 @@ use crate::{
         SpdmEncapsulatedResponseAckPayload, SpdmEncapsulatedResponseAckPayloadType, SpdmErrorCode,
         SpdmGetDigestsRequestPayload, SpdmGetEncapsulatedRequestPayload,
         SpdmKeyExchangeMutAuthAttributes, SpdmMessage, SpdmMessageHeader, SpdmMessagePayload,
-        SpdmRequestResponseCode, ENCAPSULATED_RESPONSE_ACK_HEADER_SIZE,
+        SpdmRequestResponseCode,
     },
     protocol::{
         SpdmRequestCapabilityFlags, SpdmResponseCapabilityFlags, SpdmVersion, SPDM_MAX_SLOT_NUMBER,
@@ -145,7 +145,7 @@ impl<'a> RequesterContext<'a> {
 
         match ack_header.payload_type {
             SpdmEncapsulatedResponseAckPayloadType::Absent => {
-                if size == ENCAPSULATED_RESPONSE_ACK_HEADER_SIZE {
+                if size == reader.used() {
                     return Ok(false);
                 } else {
                     return Err(SPDM_STATUS_INVALID_MSG_SIZE);
@@ -153,7 +153,7 @@ impl<'a> RequesterContext<'a> {
             }
             SpdmEncapsulatedResponseAckPayloadType::Present => {}
             SpdmEncapsulatedResponseAckPayloadType::ReqSlotNumber => {
-                if size == ENCAPSULATED_RESPONSE_ACK_HEADER_SIZE + 1 {
+                if size == reader.used() + 1 {
                     let req_slot_id = u8::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
                     if req_slot_id >= SPDM_MAX_SLOT_NUMBER as u8 {
                         return Err(SPDM_STATUS_INVALID_MSG_FIELD);
-- 
2.43.0


From 3ee4210912e35d29e5c88439e404cc1703807f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:44 +0000
Subject: [PATCH 33/49] fix: the export master secret is bound to the
 transcript

---
 spdmlib/src/common/key_schedule.rs | 3 ++-
 spdmlib/src/common/session.rs      | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/common/key_schedule.rs b/spdmlib/src/common/key_schedule.rs
index 3c1bcca..1cec3df 100644
--- a/spdmlib/src/common/key_schedule.rs
+++ b/spdmlib/src/common/key_schedule.rs
@@ -355,13 +355,14 @@ impl SpdmKeySchedule {
         hash_algo: SpdmBaseHashAlgo,
         key: Option<&SpdmMasterSecretStruct>,
         psk_hint: Option<&SpdmPskHintStruct>,
+        th2: &[u8],
     ) -> Option<SpdmExportMasterSecretStruct> {
         let buffer = &mut [0; MAX_BIN_CONCAT_BUF_SIZE];
         let bin_str8 = self.binconcat(
             hash_algo.get_size(),
             spdm_version,
             BIN_STR8_LABEL,
-            None,
+            Some(th2),
             buffer,
         )?;
         let okm = if !use_psk {
diff --git a/spdmlib/src/common/session.rs b/spdmlib/src/common/session.rs
index de0feae..f758f1c 100644
--- a/spdmlib/src/common/session.rs
+++ b/spdmlib/src/common/session.rs
@@ -560,6 +560,7 @@ impl SpdmSession {
                     Some(&self.dhe_secret_root.master_secret)
                 },
                 self.runtime_info.psk_hint.as_ref(),
+                th2.as_ref(),
             ) {
             ems
         } else {
-- 
2.43.0


From f1e2e63eeaf07f4264dd435a5a9079fb8d0d8e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:15 +0000
Subject: [PATCH 34/49] fix: the heartbeat period is zero unless both sides
 support HEARTBEAT

---
 spdmlib/src/common/mod.rs                 | 17 +++++++++++++++++
 spdmlib/src/responder/key_exchange_rsp.rs |  4 ++--
 spdmlib/src/responder/psk_exchange_rsp.rs |  4 ++--
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 907cd46..1720222 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -167,6 +167,23 @@ impl<'a> SpdmContext<'a> {
     pub fn get_hash_size(&self) -> u16 {
         self.negotiate_info.base_hash_sel.get_size()
     }
+    /// The heartbeat period to announce: zero unless both sides support HEARTBEAT.
+    pub fn get_heartbeat_period(&self) -> u8 {
+        if self
+            .negotiate_info
+            .req_capabilities_sel
+            .contains(SpdmRequestCapabilityFlags::HBEAT_CAP)
+            && self
+                .negotiate_info
+                .rsp_capabilities_sel
+                .contains(SpdmResponseCapabilityFlags::HBEAT_CAP)
+        {
+            self.config_info.heartbeat_period
+        } else {
+            0
+        }
+    }
+
     /// The algorithm the requester signs FINISH with; the two registries share their bits.
     pub fn get_req_asym_algo(&self) -> SpdmBaseAsymAlgo {
         if self.negotiate_info.req_asym_sel.is_empty() {
diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index e6d5d57..7d620a3 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -298,7 +298,7 @@ impl<'a> ResponderContext<'a> {
                 request_response_code: SpdmRequestResponseCode::SpdmResponseKeyExchangeRsp,
             },
             payload: SpdmMessagePayload::SpdmKeyExchangeResponse(SpdmKeyExchangeResponsePayload {
-                heartbeat_period: self.common.config_info.heartbeat_period,
+                heartbeat_period: self.common.get_heartbeat_period(),
                 rsp_session_id,
                 mut_auth_req,
                 req_slot_id: 0x0,
@@ -433,7 +433,7 @@ impl<'a> ResponderContext<'a> {
             writer.mut_used_slice()[(used - base_hash_size)..used].copy_from_slice(hmac.as_ref());
         }
 
-        let heartbeat_period = self.common.config_info.heartbeat_period;
+        let heartbeat_period = self.common.get_heartbeat_period();
         let session = self.common.get_session_via_id(session_id).unwrap();
 
         session.heartbeat_period = heartbeat_period;
diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index 3dbbe0e..e8faf7a 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -242,7 +242,7 @@ impl<'a> ResponderContext<'a> {
                 request_response_code: SpdmRequestResponseCode::SpdmResponsePskExchangeRsp,
             },
             payload: SpdmMessagePayload::SpdmPskExchangeResponse(SpdmPskExchangeResponsePayload {
-                heartbeat_period: self.common.config_info.heartbeat_period,
+                heartbeat_period: self.common.get_heartbeat_period(),
                 rsp_session_id,
                 measurement_summary_hash,
                 psk_context: SpdmPskContextStruct {
@@ -336,7 +336,7 @@ impl<'a> ResponderContext<'a> {
 
         // patch the message before send
         writer.mut_used_slice()[(used - base_hash_size)..used].copy_from_slice(hmac.as_ref());
-        let heartbeat_period = self.common.config_info.heartbeat_period;
+        let heartbeat_period = self.common.get_heartbeat_period();
         let session = self.common.get_session_via_id(session_id).unwrap();
         session.set_session_state(crate::common::session::SpdmSessionState::SpdmSessionHandshaking);
 
-- 
2.43.0


From 9af95850295f140ef3ac885ea43c2098ebfde6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 35/49] fix: every measurement hash algorithm is recognised

---
 spdmlib/src/protocol/algo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/protocol/algo.rs b/spdmlib/src/protocol/algo.rs
index 600c976..e1a07cc 100644
--- a/spdmlib/src/protocol/algo.rs
+++ b/spdmlib/src/protocol/algo.rs
@@ -118,8 +118,8 @@ bitflags! {
             | Self::TPM_ALG_SHA_384.bits
             | Self::TPM_ALG_SHA_512.bits
             | Self::TPM_ALG_SHA3_256.bits
-            | Self::TPM_ALG_SHA3_256.bits
-            | Self::TPM_ALG_SHA3_256.bits
+            | Self::TPM_ALG_SHA3_384.bits
+            | Self::TPM_ALG_SHA3_512.bits
             | Self::TPM_ALG_SM3.bits;
     }
 }
-- 
2.43.0


From 4122c947dfe55e65b7b70bcab7b5146924368b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 36/49] fix: setup fails on both sides when the opaque format
 or AEAD has no common choice

---
 spdmlib/src/common/mod.rs              | 12 +++++++++++-
 spdmlib/src/responder/algorithm_rsp.rs |  6 +++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 1720222..2d13964 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -1263,12 +1263,22 @@ impl SpdmNegotiateInfo {
         if (key_ex || psk) && !self.key_schedule_sel.is_valid_one_select() {
             return false;
         }
-        if (key_ex || psk) && secured && !self.aead_sel.is_valid_one_select() {
+        if secured && !self.aead_sel.is_valid_one_select() {
             return false;
         }
         if mut_auth && !self.req_asym_sel.is_valid_one_select() {
             return false;
         }
+        if self.spdm_version_sel.get_u8() >= SpdmVersion::SpdmVersion12.get_u8()
+            && self.rsp_capabilities_sel.intersects(
+                SpdmResponseCapabilityFlags::KEY_EX_CAP
+                    | SpdmResponseCapabilityFlags::PSK_CAP_WITHOUT_CONTEXT
+                    | SpdmResponseCapabilityFlags::PSK_CAP_WITH_CONTEXT,
+            )
+            && !self.opaque_data_support.is_valid_one_select()
+        {
+            return false;
+        }
 
         true
     }
diff --git a/spdmlib/src/responder/algorithm_rsp.rs b/spdmlib/src/responder/algorithm_rsp.rs
index 180b802..5cef8da 100644
--- a/spdmlib/src/responder/algorithm_rsp.rs
+++ b/spdmlib/src/responder/algorithm_rsp.rs
@@ -105,6 +105,9 @@ impl<'a> ResponderContext<'a> {
             .key_schedule_sel
             .prioritize(self.common.config_info.key_schedule_algo);
 
+        let other_params_selection = self.common.config_info.opaque_support & other_params_support;
+        self.common.negotiate_info.opaque_data_support = other_params_selection;
+
         if !self.common.negotiate_info.is_algorithm_selection_complete() {
             error!("!!! negotiate_algorithms : no common algorithm !!!\n");
             self.common.negotiate_info = previous_negotiate_info;
@@ -123,9 +126,6 @@ impl<'a> ResponderContext<'a> {
 
         info!("send spdm algorithm\n");
 
-        let other_params_selection = self.common.config_info.opaque_support & other_params_support;
-        self.common.negotiate_info.opaque_data_support = other_params_selection;
-
         let response = SpdmMessage {
             header: SpdmMessageHeader {
                 version: self.common.negotiate_info.spdm_version_sel,
-- 
2.43.0


From b8abf5d46dcc5943a95058c8cbfe194c32b01fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:45 +0000
Subject: [PATCH 37/49] fix: a requester operation before negotiation is an
 error, not a panic

---
 spdmlib/src/requester/challenge_req.rs        |  2 ++
 spdmlib/src/requester/context.rs              | 12 +++++++++++-
 spdmlib/src/requester/get_certificate_req.rs  |  2 ++
 spdmlib/src/requester/get_digests_req.rs      |  2 ++
 spdmlib/src/requester/get_measurements_req.rs |  2 ++
 spdmlib/src/requester/key_exchange_req.rs     |  2 ++
 spdmlib/src/requester/psk_exchange_req.rs     |  2 ++
 7 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/requester/challenge_req.rs b/spdmlib/src/requester/challenge_req.rs
index 5db51f4..3416dda 100644
--- a/spdmlib/src/requester/challenge_req.rs
+++ b/spdmlib/src/requester/challenge_req.rs
@@ -21,6 +21,8 @@ impl<'a> RequesterContext<'a> {
     ) -> SpdmResult {
         info!("send spdm challenge\n");
 
+        self.check_negotiated()?;
+
         if slot_id >= SPDM_MAX_SLOT_NUMBER as u8 {
             return Err(SPDM_STATUS_INVALID_PARAMETER);
         }
diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index 438a431..9201620 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -6,7 +6,9 @@ use crate::common::session::SpdmSessionState;
 use crate::common::ST1;
 use crate::common::{self, SpdmDeviceIo, SpdmTransportEncap};
 use crate::config;
-use crate::error::{SpdmResult, SPDM_STATUS_RECEIVE_FAIL, SPDM_STATUS_SEND_FAIL};
+use crate::error::{
+    SpdmResult, SPDM_STATUS_INVALID_STATE_LOCAL, SPDM_STATUS_RECEIVE_FAIL, SPDM_STATUS_SEND_FAIL,
+};
 use crate::protocol::*;
 
 pub struct RequesterContext<'a> {
@@ -36,6 +38,14 @@ impl<'a> RequesterContext<'a> {
         self.send_receive_spdm_algorithm()
     }
 
+    // What needs the negotiated algorithms cannot start before they are negotiated.
+    pub(crate) fn check_negotiated(&self) -> SpdmResult {
+        if self.common.negotiate_info.base_hash_sel.is_empty() {
+            return Err(SPDM_STATUS_INVALID_STATE_LOCAL);
+        }
+        Ok(())
+    }
+
     pub fn start_session(
         &mut self,
         use_psk: bool,
diff --git a/spdmlib/src/requester/get_certificate_req.rs b/spdmlib/src/requester/get_certificate_req.rs
index 40f024e..cf6b960 100644
--- a/spdmlib/src/requester/get_certificate_req.rs
+++ b/spdmlib/src/requester/get_certificate_req.rs
@@ -187,6 +187,8 @@ impl<'a> RequesterContext<'a> {
             return Err(SPDM_STATUS_INVALID_STATE_LOCAL);
         }
 
+        self.check_negotiated()?;
+
         self.common.reset_buffer_via_request_code(
             SpdmRequestResponseCode::SpdmRequestGetCertificate,
             session_id,
diff --git a/spdmlib/src/requester/get_digests_req.rs b/spdmlib/src/requester/get_digests_req.rs
index cfd791b..00b376c 100644
--- a/spdmlib/src/requester/get_digests_req.rs
+++ b/spdmlib/src/requester/get_digests_req.rs
@@ -10,6 +10,8 @@ impl<'a> RequesterContext<'a> {
     pub fn send_receive_spdm_digest(&mut self, session_id: Option<u32>) -> SpdmResult {
         info!("send spdm digest\n");
 
+        self.check_negotiated()?;
+
         self.common.reset_buffer_via_request_code(
             SpdmRequestResponseCode::SpdmRequestGetDigests,
             session_id,
diff --git a/spdmlib/src/requester/get_measurements_req.rs b/spdmlib/src/requester/get_measurements_req.rs
index 6992690..39f338d 100644
--- a/spdmlib/src/requester/get_measurements_req.rs
+++ b/spdmlib/src/requester/get_measurements_req.rs
@@ -28,6 +28,8 @@ impl<'a> RequesterContext<'a> {
             return Err(SPDM_STATUS_INVALID_PARAMETER);
         }
 
+        self.check_negotiated()?;
+
         self.common.reset_buffer_via_request_code(
             SpdmRequestResponseCode::SpdmRequestGetMeasurements,
             session_id,
diff --git a/spdmlib/src/requester/key_exchange_req.rs b/spdmlib/src/requester/key_exchange_req.rs
index 658d2f3..9d92626 100644
--- a/spdmlib/src/requester/key_exchange_req.rs
+++ b/spdmlib/src/requester/key_exchange_req.rs
@@ -33,6 +33,8 @@ impl<'a> RequesterContext<'a> {
     ) -> SpdmResult<u32> {
         info!("send spdm key exchange\n");
 
+        self.check_negotiated()?;
+
         if slot_id >= SPDM_MAX_SLOT_NUMBER as u8 {
             return Err(SPDM_STATUS_INVALID_PARAMETER);
         }
diff --git a/spdmlib/src/requester/psk_exchange_req.rs b/spdmlib/src/requester/psk_exchange_req.rs
index aecd31d..cdba742 100644
--- a/spdmlib/src/requester/psk_exchange_req.rs
+++ b/spdmlib/src/requester/psk_exchange_req.rs
@@ -25,6 +25,8 @@ impl<'a> RequesterContext<'a> {
     ) -> SpdmResult<u32> {
         info!("send spdm psk exchange\n");
 
+        self.check_negotiated()?;
+
         let psk_hint = if let Some(hint) = psk_hint {
             hint.clone()
         } else {
-- 
2.43.0


From 5efecf1b845f73313bc05bfccb58548d1038f255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:42 +0000
Subject: [PATCH 38/49] fix: reserved bits of attribute bytes are ignored on
 input

---
 spdmlib/src/common/opaque.rs       | 2 +-
 spdmlib/src/message/challenge.rs   | 2 +-
 spdmlib/src/message/end_session.rs | 2 +-
 spdmlib/src/message/finish.rs      | 2 +-
 spdmlib/src/message/measurement.rs | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/spdmlib/src/common/opaque.rs b/spdmlib/src/common/opaque.rs
index e063389..6ec3672 100644
--- a/spdmlib/src/common/opaque.rs
+++ b/spdmlib/src/common/opaque.rs
@@ -629,7 +629,7 @@ impl Codec for SpdmOpaqueSupport {
     fn read(r: &mut Reader) -> Option<SpdmOpaqueSupport> {
         let bits = u8::read(r)?;
 
-        SpdmOpaqueSupport::from_bits(bits)
+        Some(SpdmOpaqueSupport::from_bits_truncate(bits))
     }
 }
 
diff --git a/spdmlib/src/message/challenge.rs b/spdmlib/src/message/challenge.rs
index 0393df7..eccc535 100644
--- a/spdmlib/src/message/challenge.rs
+++ b/spdmlib/src/message/challenge.rs
@@ -126,7 +126,7 @@ impl SpdmCodec for SpdmChallengeAuthResponsePayload {
     ) -> Option<SpdmChallengeAuthResponsePayload> {
         let param1 = u8::read(r)?;
         let slot_id = param1 & 0xF;
-        let challenge_auth_attribute = SpdmChallengeAuthAttribute::from_bits(param1 & 0xF0)?;
+        let challenge_auth_attribute = SpdmChallengeAuthAttribute::from_bits_truncate(param1 & 0xF0);
         let slot_mask = u8::read(r)?; // param2
         let cert_chain_hash = SpdmDigestStruct::spdm_read(context, r)?;
         let nonce = SpdmNonceStruct::read(r)?;
diff --git a/spdmlib/src/message/end_session.rs b/spdmlib/src/message/end_session.rs
index e837933..b42dc6e 100644
--- a/spdmlib/src/message/end_session.rs
+++ b/spdmlib/src/message/end_session.rs
@@ -22,7 +22,7 @@ impl Codec for SpdmEndSessionRequestAttributes {
     fn read(r: &mut Reader) -> Option<SpdmEndSessionRequestAttributes> {
         let bits = u8::read(r)?;
 
-        SpdmEndSessionRequestAttributes::from_bits(bits)
+        Some(SpdmEndSessionRequestAttributes::from_bits_truncate(bits))
     }
 }
 
diff --git a/spdmlib/src/message/finish.rs b/spdmlib/src/message/finish.rs
index 1fc1ed8..945631d 100644
--- a/spdmlib/src/message/finish.rs
+++ b/spdmlib/src/message/finish.rs
@@ -25,7 +25,7 @@ impl Codec for SpdmFinishRequestAttributes {
     fn read(r: &mut Reader) -> Option<SpdmFinishRequestAttributes> {
         let bits = u8::read(r)?;
 
-        SpdmFinishRequestAttributes::from_bits(bits)
+        Some(SpdmFinishRequestAttributes::from_bits_truncate(bits))
     }
 }
 
diff --git a/spdmlib/src/message/measurement.rs b/spdmlib/src/message/measurement.rs
index 432b910..1ca2c6b 100644
--- a/spdmlib/src/message/measurement.rs
+++ b/spdmlib/src/message/measurement.rs
@@ -33,7 +33,7 @@ impl Codec for SpdmMeasurementAttributes {
     fn read(r: &mut Reader) -> Option<SpdmMeasurementAttributes> {
         let bits = u8::read(r)?;
 
-        SpdmMeasurementAttributes::from_bits(bits)
+        Some(SpdmMeasurementAttributes::from_bits_truncate(bits))
     }
 }
 
-- 
2.43.0


From 1bf3793cf3871fb7565b9dc570c8f3faf56ce7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:26 +0000
Subject: [PATCH 39/49] fix: a group, cipher suite or measurement hash that was
 not negotiated is refused, not a panic

---
 spdmlib/src/common/key_schedule.rs | 4 ++++
 spdmlib/src/common/spdm_codec.rs   | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/common/key_schedule.rs b/spdmlib/src/common/key_schedule.rs
index 1cec3df..3688be6 100644
--- a/spdmlib/src/common/key_schedule.rs
+++ b/spdmlib/src/common/key_schedule.rs
@@ -206,6 +206,10 @@ impl SpdmKeySchedule {
         aead_algo: SpdmAeadAlgo,
         key: &SpdmMajorSecret,
     ) -> Option<(SpdmAeadKeyStruct, SpdmAeadIvStruct)> {
+        // no keys without a negotiated cipher suite
+        if !aead_algo.is_valid_one_select() {
+            return None;
+        }
         let buffer = &mut [0; MAX_BIN_CONCAT_BUF_SIZE];
         let bin_str5 = self.binconcat(
             aead_algo.get_key_size(),
diff --git a/spdmlib/src/common/spdm_codec.rs b/spdmlib/src/common/spdm_codec.rs
index d8b3f25..a8baf2c 100644
--- a/spdmlib/src/common/spdm_codec.rs
+++ b/spdmlib/src/common/spdm_codec.rs
@@ -175,6 +175,10 @@ impl SpdmCodec for SpdmDheExchangeStruct {
         Ok(self.data_size as usize)
     }
     fn spdm_read(context: &mut SpdmContext, r: &mut Reader) -> Option<SpdmDheExchangeStruct> {
+        // an exchange without a negotiated group has no defined size
+        if !context.negotiate_info.dhe_sel.is_valid_one_select() {
+            return None;
+        }
         let data_size = context.get_dhe_key_size();
         let mut data = [0u8; SPDM_MAX_DHE_KEY_SIZE];
         for d in data.iter_mut().take(data_size as usize) {
@@ -255,7 +259,8 @@ impl SpdmCodec for SpdmDmtfMeasurementStructure {
 
         let measurement_hash_algo = context.negotiate_info.measurement_hash_sel;
         if representation == SpdmDmtfMeasurementRepresentation::SpdmDmtfMeasurementDigest
-            && (value_size != measurement_hash_algo.get_size()
+            && (!measurement_hash_algo.is_valid_one_select()
+                || value_size != measurement_hash_algo.get_size()
                 || measurement_hash_algo == SpdmMeasurementHashAlgo::RAW_BIT_STREAM)
         {
             return None;
-- 
2.43.0


From d2a13a8bea18c7963827fa4508b6d8ddee0bbfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:12 +0000
Subject: [PATCH 40/49] fix: a random source that fills only part of the buffer
 is an error

---
 spdmlib/src/crypto/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/crypto/mod.rs b/spdmlib/src/crypto/mod.rs
index 6bff06e..7748b8f 100644
--- a/spdmlib/src/crypto/mod.rs
+++ b/spdmlib/src/crypto/mod.rs
@@ -426,7 +426,7 @@ pub mod aead {
 pub mod rand {
     use super::CRYPTO_RAND;
     use crate::crypto::SpdmCryptoRandom;
-    use crate::error::{SpdmResult, SPDM_STATUS_INVALID_STATE_LOCAL};
+    use crate::error::{SpdmResult, SPDM_STATUS_CRYPTO_ERROR, SPDM_STATUS_INVALID_STATE_LOCAL};
 
     #[cfg(not(any(feature = "spdm-ring")))]
     static DEFAULT: SpdmCryptoRandom = SpdmCryptoRandom {
@@ -441,10 +441,15 @@ pub mod rand {
     }
 
     pub fn get_random(data: &mut [u8]) -> SpdmResult<usize> {
-        (CRYPTO_RAND
+        let len = (CRYPTO_RAND
             .try_get_or_init(|| DEFAULT.clone())
             .map_err(|_| SPDM_STATUS_INVALID_STATE_LOCAL)?
-            .get_random_cb)(data)
+            .get_random_cb)(data)?;
+        // a source that fills only a part of the buffer has failed
+        if len != data.len() {
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
+        Ok(len)
     }
 }
 
-- 
2.43.0


From 43015019449aff8d960908f70b1b631449f32225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:39 +0000
Subject: [PATCH 41/49] fix: the certificate format check refuses absurd
 lengths and reads no element beyond its container

---
 spdmlib/src/crypto/x509v3.rs | 51 ++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/spdmlib/src/crypto/x509v3.rs b/spdmlib/src/crypto/x509v3.rs
index e1521af..7daeb19 100644
--- a/spdmlib/src/crypto/x509v3.rs
+++ b/spdmlib/src/crypto/x509v3.rs
@@ -69,6 +69,12 @@ fn check_cert_format(cert: &[u8], base_asym_algo: SpdmBaseAsymAlgo) -> SpdmResul
     let (body_size, bytes_consumed) = check_length(&cert[c_walker..])?;
     c_walker += bytes_consumed;
 
+    if len < c_walker + body_size {
+        return Err(SPDM_STATUS_VERIF_FAIL);
+    }
+    // nothing inside the certificate reaches beyond it
+    let cert = &cert[..c_walker + body_size];
+
     if len == c_walker + body_size {
         c_walker += check_tbs_certificate(&cert[c_walker..], base_asym_algo, true)?;
         c_walker += check_signature_algorithm(&cert[c_walker..], base_asym_algo, true)?;
@@ -106,6 +112,8 @@ fn check_tbs_certificate(
         return Err(SPDM_STATUS_VERIF_FAIL);
     }
 
+    let data = &data[..t_walker + tbs_length];
+
     // version         [0]  EXPLICIT Version DEFAULT v1,
     let bytes_consumed = check_version(&data[t_walker..])?;
     t_walker += bytes_consumed;
@@ -120,11 +128,12 @@ fn check_tbs_certificate(
     let (signature_id_length, bytes_consumed) = check_length(&data[t_walker..])?;
     t_walker += bytes_consumed;
 
-    if is_leaf_cert {
-        check_object_identifier(&data[t_walker..], get_oid_by_base_asym_algo(base_asym_algo))?;
-    } else {
-        check_object_identifier(&data[t_walker..], None)?;
-    }
+    check_signature_id(
+        &data[t_walker..],
+        signature_id_length,
+        base_asym_algo,
+        is_leaf_cert,
+    )?;
     t_walker += signature_id_length;
     // issuer               Name,
     let bytes_consumed = check_name(&data[t_walker..])?;
@@ -160,15 +169,34 @@ fn check_signature_algorithm(
     let (signature_id_length, bytes_consumed) = check_length(&data[s_walker..])?;
     s_walker += bytes_consumed;
 
-    if is_leaf_cert {
-        check_object_identifier(&data[s_walker..], get_oid_by_base_asym_algo(base_asym_algo))?;
-    } else {
-        check_object_identifier(&data[s_walker..], None)?;
-    }
+    check_signature_id(
+        &data[s_walker..],
+        signature_id_length,
+        base_asym_algo,
+        is_leaf_cert,
+    )?;
 
     Ok(s_walker + signature_id_length)
 }
 
+// IN bytes slice starting at the content of an AlgorithmIdentifier, the length of that content
+fn check_signature_id(
+    data: &[u8],
+    signature_id_length: usize,
+    base_asym_algo: SpdmBaseAsymAlgo,
+    is_leaf_cert: bool,
+) -> SpdmResult<usize> {
+    if data.len() < signature_id_length {
+        return Err(SPDM_STATUS_VERIF_FAIL);
+    }
+    let oid = if is_leaf_cert {
+        get_oid_by_base_asym_algo(base_asym_algo)
+    } else {
+        None
+    };
+    check_object_identifier(&data[..signature_id_length], oid)
+}
+
 fn check_signature_value(data: &[u8], _base_asym_algo: SpdmBaseAsymAlgo) -> SpdmResult<usize> {
     check_and_skip_common_tag(data)
 }
@@ -194,7 +222,8 @@ fn check_length(data: &[u8]) -> SpdmResult<(usize, usize)> {
         Ok((data[0] as usize, 1))
     } else {
         let length_count = data[0] - ASN1_LENGTH_MULTI_OCTET_MASK;
-        if len < (length_count as usize + 1) || length_count == 0 {
+        if len < (length_count as usize + 1) || length_count == 0 || length_count > 4 {
+            // no certificate is that long
             Err(SPDM_STATUS_VERIF_FAIL)
         } else {
             let mut length = [0u8; 8];
-- 
2.43.0


From d6c3d43a5f7a0323f2208be8850341dc932715d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:31 +0000
Subject: [PATCH 42/49] fix: a request that is refused before it is sent leaves
 the requester's transcripts alone

---
 spdmlib/src/requester/challenge_req.rs        | 5 ++---
 spdmlib/src/requester/end_session_req.rs      | 7 +++----
 spdmlib/src/requester/get_digests_req.rs      | 9 ++++-----
 spdmlib/src/requester/get_measurements_req.rs | 9 ++++-----
 spdmlib/src/requester/heartbeat_req.rs        | 7 +++----
 spdmlib/src/requester/key_exchange_req.rs     | 5 ++---
 spdmlib/src/requester/key_update_req.rs       | 7 +++----
 spdmlib/src/requester/psk_exchange_req.rs     | 5 ++---
 spdmlib/src/requester/vendor_req.rs           | 9 ++++-----
 9 files changed, 27 insertions(+), 36 deletions(-)

diff --git a/spdmlib/src/requester/challenge_req.rs b/spdmlib/src/requester/challenge_req.rs
index 3416dda..f3289c7 100644
--- a/spdmlib/src/requester/challenge_req.rs
+++ b/spdmlib/src/requester/challenge_req.rs
@@ -27,13 +27,12 @@ impl<'a> RequesterContext<'a> {
             return Err(SPDM_STATUS_INVALID_PARAMETER);
         }
 
-        self.common
-            .reset_buffer_via_request_code(SpdmRequestResponseCode::SpdmRequestChallenge, None);
-
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let send_used =
             self.encode_spdm_challenge(slot_id, measurement_summary_hash_type, &mut send_buffer)?;
         self.send_message(&send_buffer[..send_used])?;
+        self.common
+            .reset_buffer_via_request_code(SpdmRequestResponseCode::SpdmRequestChallenge, None);
 
         // Receive
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
diff --git a/spdmlib/src/requester/end_session_req.rs b/spdmlib/src/requester/end_session_req.rs
index 1594e4f..43414ed 100644
--- a/spdmlib/src/requester/end_session_req.rs
+++ b/spdmlib/src/requester/end_session_req.rs
@@ -13,15 +13,14 @@ impl<'a> RequesterContext<'a> {
     pub fn send_receive_spdm_end_session(&mut self, session_id: u32) -> SpdmResult {
         info!("send spdm end_session\n");
 
+        let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
+        let used = self.encode_spdm_end_session(&mut send_buffer)?;
+        self.send_secured_message(session_id, &send_buffer[..used], false)?;
         self.common.reset_buffer_via_request_code(
             SpdmRequestResponseCode::SpdmRequestEndSession,
             Some(session_id),
         );
 
-        let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let used = self.encode_spdm_end_session(&mut send_buffer)?;
-        self.send_secured_message(session_id, &send_buffer[..used], false)?;
-
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let used = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?;
         self.handle_spdm_end_session_response(session_id, &receive_buffer[..used])
diff --git a/spdmlib/src/requester/get_digests_req.rs b/spdmlib/src/requester/get_digests_req.rs
index 00b376c..7c4942b 100644
--- a/spdmlib/src/requester/get_digests_req.rs
+++ b/spdmlib/src/requester/get_digests_req.rs
@@ -12,11 +12,6 @@ impl<'a> RequesterContext<'a> {
 
         self.check_negotiated()?;
 
-        self.common.reset_buffer_via_request_code(
-            SpdmRequestResponseCode::SpdmRequestGetDigests,
-            session_id,
-        );
-
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let send_used = self.encode_spdm_digest(&mut send_buffer)?;
         match session_id {
@@ -27,6 +22,10 @@ impl<'a> RequesterContext<'a> {
                 self.send_message(&send_buffer[..send_used])?;
             }
         }
+        self.common.reset_buffer_via_request_code(
+            SpdmRequestResponseCode::SpdmRequestGetDigests,
+            session_id,
+        );
 
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let used = match session_id {
diff --git a/spdmlib/src/requester/get_measurements_req.rs b/spdmlib/src/requester/get_measurements_req.rs
index 39f338d..84eede9 100644
--- a/spdmlib/src/requester/get_measurements_req.rs
+++ b/spdmlib/src/requester/get_measurements_req.rs
@@ -30,11 +30,6 @@ impl<'a> RequesterContext<'a> {
 
         self.check_negotiated()?;
 
-        self.common.reset_buffer_via_request_code(
-            SpdmRequestResponseCode::SpdmRequestGetMeasurements,
-            session_id,
-        );
-
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let send_used = self.encode_spdm_measurement_record(
             measurement_attributes,
@@ -50,6 +45,10 @@ impl<'a> RequesterContext<'a> {
                 self.send_message(&send_buffer[..send_used])?;
             }
         }
+        self.common.reset_buffer_via_request_code(
+            SpdmRequestResponseCode::SpdmRequestGetMeasurements,
+            session_id,
+        );
 
         // Receive
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
diff --git a/spdmlib/src/requester/heartbeat_req.rs b/spdmlib/src/requester/heartbeat_req.rs
index 5504103..798457c 100644
--- a/spdmlib/src/requester/heartbeat_req.rs
+++ b/spdmlib/src/requester/heartbeat_req.rs
@@ -10,15 +10,14 @@ impl<'a> RequesterContext<'a> {
     pub fn send_receive_spdm_heartbeat(&mut self, session_id: u32) -> SpdmResult {
         info!("send spdm heartbeat\n");
 
+        let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
+        let used = self.encode_spdm_heartbeat(&mut send_buffer)?;
+        self.send_secured_message(session_id, &send_buffer[..used], false)?;
         self.common.reset_buffer_via_request_code(
             SpdmRequestResponseCode::SpdmRequestHeartbeat,
             Some(session_id),
         );
 
-        let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let used = self.encode_spdm_heartbeat(&mut send_buffer)?;
-        self.send_secured_message(session_id, &send_buffer[..used], false)?;
-
         // Receive
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let used = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?;
diff --git a/spdmlib/src/requester/key_exchange_req.rs b/spdmlib/src/requester/key_exchange_req.rs
index 9d92626..ed5d5c5 100644
--- a/spdmlib/src/requester/key_exchange_req.rs
+++ b/spdmlib/src/requester/key_exchange_req.rs
@@ -41,9 +41,6 @@ impl<'a> RequesterContext<'a> {
 
         let req_session_id = self.common.get_next_half_session_id(true)?;
 
-        self.common
-            .reset_buffer_via_request_code(SpdmRequestResponseCode::SpdmRequestKeyExchange, None);
-
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let (key_exchange_context, send_used) = self.encode_spdm_key_exchange(
             req_session_id,
@@ -52,6 +49,8 @@ impl<'a> RequesterContext<'a> {
             measurement_summary_hash_type,
         )?;
         self.send_message(&send_buffer[..send_used])?;
+        self.common
+            .reset_buffer_via_request_code(SpdmRequestResponseCode::SpdmRequestKeyExchange, None);
 
         // Receive
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
diff --git a/spdmlib/src/requester/key_update_req.rs b/spdmlib/src/requester/key_update_req.rs
index 6f0890d..0e25f07 100644
--- a/spdmlib/src/requester/key_update_req.rs
+++ b/spdmlib/src/requester/key_update_req.rs
@@ -18,15 +18,14 @@ impl<'a> RequesterContext<'a> {
     ) -> SpdmResult {
         info!("send spdm key_update\n");
 
+        let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
+        let used = self.encode_spdm_key_update_op(key_update_operation, tag, &mut send_buffer)?;
+        self.send_secured_message(session_id, &send_buffer[..used], false)?;
         self.common.reset_buffer_via_request_code(
             SpdmRequestResponseCode::SpdmRequestKeyUpdate,
             Some(session_id),
         );
 
-        let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let used = self.encode_spdm_key_update_op(key_update_operation, tag, &mut send_buffer)?;
-        self.send_secured_message(session_id, &send_buffer[..used], false)?;
-
         let result = self.complete_spdm_key_update_op(session_id, key_update_operation);
         if let Err(status) = result {
             // Only an ERROR response proves that the responder did not update its keys.
diff --git a/spdmlib/src/requester/psk_exchange_req.rs b/spdmlib/src/requester/psk_exchange_req.rs
index cdba742..8d8af54 100644
--- a/spdmlib/src/requester/psk_exchange_req.rs
+++ b/spdmlib/src/requester/psk_exchange_req.rs
@@ -33,9 +33,6 @@ impl<'a> RequesterContext<'a> {
             SpdmPskHintStruct::default()
         };
 
-        self.common
-            .reset_buffer_via_request_code(SpdmRequestResponseCode::SpdmRequestPskExchange, None);
-
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let half_session_id = self.common.get_next_half_session_id(true)?;
         let send_used = self.encode_spdm_psk_exchange(
@@ -46,6 +43,8 @@ impl<'a> RequesterContext<'a> {
         )?;
 
         self.send_message(&send_buffer[..send_used])?;
+        self.common
+            .reset_buffer_via_request_code(SpdmRequestResponseCode::SpdmRequestPskExchange, None);
 
         // Receive
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
diff --git a/spdmlib/src/requester/vendor_req.rs b/spdmlib/src/requester/vendor_req.rs
index 9147318..3d3867d 100644
--- a/spdmlib/src/requester/vendor_req.rs
+++ b/spdmlib/src/requester/vendor_req.rs
@@ -16,11 +16,6 @@ impl<'a> RequesterContext<'a> {
     ) -> SpdmResult<VendorDefinedRspPayloadStruct> {
         info!("send vendor defined request\n");
 
-        self.common.reset_buffer_via_request_code(
-            SpdmRequestResponseCode::SpdmRequestVendorDefinedRequest,
-            session_id,
-        );
-
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
         let request = SpdmMessage {
@@ -46,6 +41,10 @@ impl<'a> RequesterContext<'a> {
                 self.send_message(&send_buffer[..used])?;
             }
         }
+        self.common.reset_buffer_via_request_code(
+            SpdmRequestResponseCode::SpdmRequestVendorDefinedRequest,
+            session_id,
+        );
 
         //receive
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-- 
2.43.0


From 3d5c6ccc15f64c40e00c2acd34040360f6746c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:14 +0000
Subject: [PATCH 43/49] fix: a FINISH is verified with the chain delivered in
 its own session

---
 spdmlib/src/responder/finish_rsp.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/finish_rsp.rs b/spdmlib/src/responder/finish_rsp.rs
index 6bffd5c..a97a006 100644
--- a/spdmlib/src/responder/finish_rsp.rs
+++ b/spdmlib/src/responder/finish_rsp.rs
@@ -117,7 +117,15 @@ impl<'a> ResponderContext<'a> {
             return Err(SPDM_STATUS_INVALID_MSG_FIELD);
         }
         // the certificate chain must have been delivered in this very session
-        if is_mut_auth && session.runtime_info.req_cert_hash.is_none() {
+        // and still be the one the signature is going to be verified with
+        if is_mut_auth
+            && !session.runtime_info.req_cert_hash.as_ref().map_or(false, |hash| {
+                let slot_id = self.common.runtime_info.get_peer_used_cert_chain_slot_id();
+                self.common
+                    .get_certchain_hash_peer(false, slot_id as usize)
+                    .map_or(false, |current| current.as_ref() == hash.as_ref())
+            })
+        {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnexpectedRequest, 0, writer);
             return Err(SPDM_STATUS_INVALID_STATE_PEER);
         }
-- 
2.43.0


From 8a86cc095ae347f3535bb60c76acd18e9c280aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:31 +0000
Subject: [PATCH 44/49] fix: the refusal of a session request over SPDM 1.0
 names the request

---
 spdmlib/src/responder/key_exchange_rsp.rs | 6 +++++-
 spdmlib/src/responder/psk_exchange_rsp.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index 7d620a3..ef4eecc 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -63,7 +63,11 @@ impl<'a> ResponderContext<'a> {
                 return Err(SPDM_STATUS_INVALID_MSG_FIELD);
             }
             if message_header.version.get_u8() < SpdmVersion::SpdmVersion11.get_u8() {
-                self.write_spdm_error(SpdmErrorCode::SpdmErrorUnsupportedRequest, 0, writer);
+                self.write_spdm_error(
+                    SpdmErrorCode::SpdmErrorUnsupportedRequest,
+                    SpdmRequestResponseCode::SpdmRequestKeyExchange.get_u8(),
+                    writer,
+                );
                 return Err(SPDM_STATUS_INVALID_MSG_FIELD);
             }
         } else {
diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index e8faf7a..b7b0d71 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -63,7 +63,11 @@ impl<'a> ResponderContext<'a> {
                 return Err(SPDM_STATUS_INVALID_MSG_FIELD);
             }
             if message_header.version.get_u8() < SpdmVersion::SpdmVersion11.get_u8() {
-                self.write_spdm_error(SpdmErrorCode::SpdmErrorUnsupportedRequest, 0, writer);
+                self.write_spdm_error(
+                    SpdmErrorCode::SpdmErrorUnsupportedRequest,
+                    SpdmRequestResponseCode::SpdmRequestPskExchange.get_u8(),
+                    writer,
+                );
                 return Err(SPDM_STATUS_INVALID_MSG_FIELD);
             }
         } else {
-- 
2.43.0


From dfca0031b07ead74c8a2276d08396eba77dd34e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:31 +0000
Subject: [PATCH 45/49] fix: a FINISH in a PSK session is refused inside the
 session, not in the clear

---
 spdmlib/src/responder/finish_rsp.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/finish_rsp.rs b/spdmlib/src/responder/finish_rsp.rs
index a97a006..610a21f 100644
--- a/spdmlib/src/responder/finish_rsp.rs
+++ b/spdmlib/src/responder/finish_rsp.rs
@@ -29,7 +29,12 @@ impl<'a> ResponderContext<'a> {
                 .common
                 .negotiate_info
                 .rsp_capabilities_sel
-                .contains(SpdmResponseCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP);
+                .contains(SpdmResponseCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP)
+            // the handshake of a PSK session is never in the clear
+            && self
+                .common
+                .get_immutable_session_via_id(session_id)
+                .map_or(true, |session| !session.get_use_psk());
         info!("in_clear_text {:?}\n", in_clear_text);
 
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-- 
2.43.0


From 283476e3f7072181df8e5d15f0b5a0991f316e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:31 +0000
Subject: [PATCH 46/49] fix: a measurement index is refused only when the
 device does not have it

---
 spdmlib/src/responder/measurement_rsp.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index 59cb367..6a1e61b 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -163,16 +163,19 @@ impl<'a> ResponderContext<'a> {
         } else if let SpdmMeasurementOperation::Unknown(index) =
             get_measurements.measurement_operation
         {
-            if index > real_measurement_block_count {
-                self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
-                return;
-            }
-            secret::measurement::measurement_collection(
+            // indices need not be consecutive: the device knows which ones it has
+            let measurement_record = secret::measurement::measurement_collection(
                 spdm_version_sel,
                 measurement_specification_sel,
                 measurement_hash_sel,
                 index as usize,
             )
+            .filter(|measurement_record| measurement_record.number_of_blocks != 0);
+            if measurement_record.is_none() {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
+                return;
+            }
+            measurement_record
         } else {
             Some(SpdmMeasurementRecordStructure::default())
         };
-- 
2.43.0


From 6d35418df661d592831e5bdb817a5ed75071da20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:31 +0000
Subject: [PATCH 47/49] fix: application data is not sent as an SPDM message
 over DOE

---
 pcidoe_transport/src/header.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pcidoe_transport/src/header.rs b/pcidoe_transport/src/header.rs
index 311edd7..f0dae8a 100644
--- a/pcidoe_transport/src/header.rs
+++ b/pcidoe_transport/src/header.rs
@@ -150,8 +150,12 @@ impl SpdmTransportEncap for PciDoeTransportEncap {
         &mut self,
         spdm_buffer: &[u8],
         app_buffer: &mut [u8],
-        _is_app_message: bool,
+        is_app_message: bool,
     ) -> SpdmResult<usize> {
+        // nothing in a DOE object tells application data from an SPDM message
+        if is_app_message {
+            return Err(SPDM_STATUS_ENCAP_APP_FAIL);
+        }
         if app_buffer.len() < spdm_buffer.len() {
             return Err(SPDM_STATUS_ENCAP_APP_FAIL);
         }
-- 
2.43.0


From d9048a789cfbbdd093d1b9b9eae666c42bae8883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:45 +0000
Subject: [PATCH 48/49] fix: refuse signature algorithm pairs the ring provider
 cannot verify instead of panicking

---
 spdmlib/src/crypto/spdm_ring/asym_verify_impl.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/crypto/spdm_ring/asym_verify_impl.rs b/spdmlib/src/crypto/spdm_ring/asym_verify_impl.rs
index 90fabfd..9ff0709 100644
--- a/spdmlib/src/crypto/spdm_ring/asym_verify_impl.rs
+++ b/spdmlib/src/crypto/spdm_ring/asym_verify_impl.rs
@@ -65,9 +65,8 @@ fn asym_verify(
         | (SpdmBaseHashAlgo::TPM_ALG_SHA_512, SpdmBaseAsymAlgo::TPM_ALG_RSAPSS_4096) => {
             &webpki::RSA_PSS_2048_8192_SHA512_LEGACY_KEY
         }
-        _ => {
-            panic!();
-        }
+        // webpki verifies no other combination, such as ECDSA with SHA-512
+        _ => return Err(SPDM_STATUS_VERIF_FAIL),
     };
 
     x509v3::check_cert_chain_format(public_cert_der, base_asym_algo)?;
-- 
2.43.0


From bffe725e3148dbd78fc9bfea9ae5526701f3a0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:45 +0000
Subject: [PATCH 49/49] fix: bytes after the last certificate make a chain
 invalid in the ring provider

---
 .../crypto/spdm_ring/cert_operation_impl.rs   | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/spdmlib/src/crypto/spdm_ring/cert_operation_impl.rs b/spdmlib/src/crypto/spdm_ring/cert_operation_impl.rs
index 237b260..132028e 100644
--- a/spdmlib/src/crypto/spdm_ring/cert_operation_impl.rs
+++ b/spdmlib/src/crypto/spdm_ring/cert_operation_impl.rs
@@ -62,18 +62,16 @@ fn verify_cert_chain(cert_chain: &[u8]) -> SpdmResult {
     let reader = &mut untrusted::Reader::new(certs_der);
 
     let mut certs = Vec::new();
-    loop {
+    // every byte of the chain belongs to a certificate
+    while !reader.at_end() {
         let start = reader.mark();
-        match der::expect_tag_and_get_value(reader, der::Tag::Sequence) {
-            Ok(_) => {
-                let end = reader.mark();
-                let cert = reader
-                    .get_input_between_marks(start, end)
-                    .map_err(|_| SPDM_STATUS_INVALID_CERT)?;
-                certs.push(cert.as_slice_less_safe())
-            }
-            Err(_) => break,
-        }
+        der::expect_tag_and_get_value(reader, der::Tag::Sequence)
+            .map_err(|_| SPDM_STATUS_INVALID_CERT)?;
+        let end = reader.mark();
+        let cert = reader
+            .get_input_between_marks(start, end)
+            .map_err(|_| SPDM_STATUS_INVALID_CERT)?;
+        certs.push(cert.as_slice_less_safe())
     }
     let certs_len = certs.len();
 
-- 
2.43.0

