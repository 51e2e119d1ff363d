From 3e06e5271835a020770a0d9e60b038988bbbd88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 01/26] fix: check which payload a handshake message carries
 before reading it

seed and response share a union; a seed received where a response is expected
(both sides starting at once, or a reflected packet) was read as a response.
---
 src/wickrcrypto/src/transport_handshake.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index bc9a349..075fa94 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -387,7 +387,8 @@ static void __wickr_transport_handshake_process_response(wickr_transport_handsha
         return;
     }
     
-    if (!handshake_data->response ||
+    if (handshake_data->payload_case != WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_RESPONSE ||
+        !handshake_data->response ||
         !handshake_data->response->has_encrypted_response_data ||
         !handshake_data->response->has_ephemeral_pubkey) {
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
@@ -511,7 +512,8 @@ static wickr_transport_packet_t *__wickr_transport_handshake_process_initial(wic
     
     Wickr__Proto__HandshakeV1 *handshake_data = wickr_proto_handshake_from_packet(packet);
     
-    if (!handshake_data || !handshake_data->seed || !handshake_data->seed->has_ephemeral_pubkey
+    if (!handshake_data || handshake_data->payload_case != WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_SEED
+        || !handshake_data->seed || !handshake_data->seed->has_ephemeral_pubkey
         || !handshake_data->seed->has_identity_required) {
         wickr__proto__handshake_v1__free_unpacked(handshake_data, NULL);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
-- 
2.43.0


From fbf234d175167a3d1c78433977352b886d888575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 02/26] fix: keep a failed transport failed, and do not start
 over a pending handshake

An identity verdict that arrived after the transport had already failed brought
it back to ACTIVE, and starting a transport that was waiting for a verdict
dropped its handshake.
---
 src/wickrcrypto/src/transport_ctx.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 53a1808..d47f04a 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -252,6 +252,11 @@ static void __wickr_transport_validate_identity_complete(const wickr_transport_c
     /* Remove const for internal work */
     wickr_transport_ctx_t *_ctx = (wickr_transport_ctx_t *)ctx;
     
+    /* A failed context stays failed, no matter when the user answers */
+    if (!_ctx || _ctx->status == TRANSPORT_STATUS_ERROR) {
+        return;
+    }
+    
     wickr_transport_packet_t *volley_packet = wickr_transport_handshake_verify_identity(_ctx->pending_handshake, is_valid);
     
     if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) {
@@ -307,7 +312,7 @@ static wickr_transport_handshake_t *__wickr_transport_ctx_create_handshake(const
 
 void wickr_transport_ctx_start(wickr_transport_ctx_t *ctx)
 {
-    if (!ctx || ctx->status != TRANSPORT_STATUS_NONE) {
+    if (!ctx || ctx->status != TRANSPORT_STATUS_NONE || ctx->pending_handshake) {
         __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_BAD_START_STATUS);
         return;
     }
-- 
2.43.0


From 4b98f992a66e09c9f92b9e5a9ebbf05a8045a548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 03/26] fix: only decode data packets once a transport is
 active

The sequence number of a handshake packet is some other member of the union.
---
 src/wickrcrypto/src/transport_ctx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index d47f04a..964c639 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -149,7 +149,8 @@ static wickr_buffer_t *__wickr_transport_ctx_decode_pkt(const wickr_transport_ct
         return NULL;
     }
     
-    if (pkt->meta.mac_type != TRANSPORT_MAC_TYPE_AUTH_CIPHER) { /* Only allow authenticated ciphers */
+    if (pkt->meta.body_type != TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT ||
+        pkt->meta.mac_type != TRANSPORT_MAC_TYPE_AUTH_CIPHER) { /* Only allow authenticated ciphers */
         wickr_cipher_result_destroy(&cipher_result);
         return NULL;
     }
-- 
2.43.0


From fe6a0a191664c64792db5a8a6194a42258efd15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 04/26] fix: send the handshake response before announcing
 ACTIVE, and fail if streams cannot be set up

A user who sent data from the ACTIVE notification had it transmitted ahead of
the handshake response, which the other side cannot read. A transport whose
streams could not be created neither failed nor became active, but still sent
its response, and leaked the handshake result.
---
 src/wickrcrypto/src/transport_ctx.c | 107 ++++++++++++++++------------
 1 file changed, 60 insertions(+), 47 deletions(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 964c639..e102bf1 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -208,7 +208,7 @@ static wickr_transport_packet_t *__wickr_transport_ctx_encode_pkt(const wickr_tr
     return pkt;
 }
 
-static bool __wickr_transport_ctx_finalize_handshake(wickr_transport_ctx_t *ctx)
+static bool __wickr_transport_ctx_create_streams(wickr_transport_ctx_t *ctx)
 {
     wickr_transport_handshake_res_t *res = wickr_transport_handshake_finalize(ctx->pending_handshake);
     
@@ -216,13 +216,12 @@ static bool __wickr_transport_ctx_finalize_handshake(wickr_transport_ctx_t *ctx)
         return false;
     }
     
-    wickr_transport_handshake_destroy(&ctx->pending_handshake);
-    
     wickr_stream_key_t *tx_key = wickr_stream_key_copy(wickr_transport_handshake_res_get_local_key(res));
     wickr_stream_ctx_t *tx_stream = wickr_stream_ctx_create(ctx->engine, tx_key, STREAM_DIRECTION_ENCODE);
     
     if (!tx_stream) {
         wickr_stream_key_destroy(&tx_key);
+        wickr_transport_handshake_res_destroy(&res);
         return false;
     }
     
@@ -237,17 +236,67 @@ static bool __wickr_transport_ctx_finalize_handshake(wickr_transport_ctx_t *ctx)
         return false;
     }
     
+    wickr_transport_handshake_destroy(&ctx->pending_handshake);
+    
     wickr_stream_ctx_destroy(&ctx->rx_stream);
     wickr_stream_ctx_destroy(&ctx->tx_stream);
     
     ctx->rx_stream = rx_stream;
     ctx->tx_stream = tx_stream;
     
-    __wickr_transport_ctx_update_status(ctx, TRANSPORT_STATUS_ACTIVE);
-    
     return true;
 }
 
+/* Act on what the pending handshake has come to: take ownership of its volley packet, if any, and activate or fail the context */
+static void __wickr_transport_ctx_advance_handshake(wickr_transport_ctx_t *ctx,
+                                                    wickr_transport_packet_t *volley_packet,
+                                                    wickr_transport_error handshake_error,
+                                                    wickr_transport_error volley_error)
+{
+    wickr_buffer_t *volley_buffer = NULL;
+    
+    if (volley_packet) {
+        volley_buffer = wickr_transport_packet_serialize(volley_packet);
+        wickr_transport_packet_destroy(&volley_packet);
+        
+        if (!volley_buffer) {
+            __wickr_transport_ctx_set_error(ctx, volley_error);
+            return;
+        }
+    }
+    
+    switch (wickr_transport_handshake_get_status(ctx->pending_handshake)) {
+        case TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION:
+            if (!__wickr_transport_ctx_create_streams(ctx)) {
+                wickr_buffer_destroy(&volley_buffer);
+                __wickr_transport_ctx_set_error(ctx, handshake_error);
+                return;
+            }
+            break;
+        case TRANSPORT_HANDSHAKE_STATUS_FAILED:
+            wickr_buffer_destroy(&volley_buffer);
+            __wickr_transport_ctx_set_error(ctx, handshake_error);
+            return;
+        default:
+            if (volley_buffer) {
+                ctx->callbacks.tx(ctx, volley_buffer);
+            }
+            return;
+    }
+    
+    /* The remote side can only read data after it has the volley, so it goes out before the user is told to proceed.
+       The context is already active by then, because a reply may come in before the callback returns */
+    ctx->status = TRANSPORT_STATUS_ACTIVE;
+    
+    if (volley_buffer) {
+        ctx->callbacks.tx(ctx, volley_buffer);
+    }
+    
+    if (ctx->status == TRANSPORT_STATUS_ACTIVE) {
+        ctx->callbacks.on_state(ctx, TRANSPORT_STATUS_ACTIVE);
+    }
+}
+
 static void __wickr_transport_validate_identity_complete(const wickr_transport_ctx_t *ctx, bool is_valid)
 {
     /* Remove const for internal work */
@@ -260,27 +309,9 @@ static void __wickr_transport_validate_identity_complete(const wickr_transport_c
     
     wickr_transport_packet_t *volley_packet = wickr_transport_handshake_verify_identity(_ctx->pending_handshake, is_valid);
     
-    if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) {
-        __wickr_transport_ctx_finalize_handshake(_ctx);
-    }
-    
-    if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_FAILED) {
-        __wickr_transport_ctx_set_error(_ctx, TRANSPORT_ERROR_HANDSHAKE_FAILED);
-        return;
-    }
-    
-    if (volley_packet) {
-        wickr_buffer_t *volley_buffer = wickr_transport_packet_serialize(volley_packet);
-        wickr_transport_packet_destroy(&volley_packet);
-        
-        if (!volley_buffer) {
-            __wickr_transport_ctx_set_error(_ctx, TRANSPORT_ERROR_HANDSHAKE_VOLLEY_FAILED);
-            return;
-        }
-        
-        _ctx->callbacks.tx(ctx, volley_buffer);
-    }
-    
+    __wickr_transport_ctx_advance_handshake(_ctx, volley_packet,
+                                            TRANSPORT_ERROR_HANDSHAKE_FAILED,
+                                            TRANSPORT_ERROR_HANDSHAKE_VOLLEY_FAILED);
 }
 
 static void __wickr_transport_handshake_identity_callback(const wickr_transport_handshake_t *handshake,
@@ -391,27 +422,9 @@ static void __wickr_transport_ctx_process_handshake_packet(wickr_transport_ctx_t
     /* Process the packet with the handshake */
     wickr_transport_packet_t *volley_packet = wickr_transport_handshake_process(ctx->pending_handshake, packet);
     
-    if (wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) {
-        __wickr_transport_ctx_finalize_handshake(ctx);
-    }
-    
-    if (wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_FAILED) {
-        __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_PROCESS_HANDSHAKE_FAILED);
-        return;
-    }
-    
-    if (volley_packet) {
-        wickr_buffer_t *volley_buffer = wickr_transport_packet_serialize(volley_packet);
-        wickr_transport_packet_destroy(&volley_packet);
-        
-        if (!volley_buffer) {
-            __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_PACKET_SERIALIZATION_FAILED);
-            return;
-        }
-        
-        ctx->callbacks.tx(ctx, volley_buffer);
-    }
-    
+    __wickr_transport_ctx_advance_handshake(ctx, volley_packet,
+                                            TRANSPORT_ERROR_PROCESS_HANDSHAKE_FAILED,
+                                            TRANSPORT_ERROR_PACKET_SERIALIZATION_FAILED);
 }
 
 static bool __wickr_transport_ctx_can_process_handshake(const wickr_transport_ctx_t *ctx)
-- 
2.43.0


From dc54e4fc6c76d075d485ac96f6676b573cd7ebe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 05/26] fix: fail the handshake, and release what it built,
 when a step of it fails

Failing to record a packet, copy the presented identity, or generate the root
key went unnoticed or leaked.
---
 src/wickrcrypto/src/transport_handshake.c     | 25 +++++++++++++++----
 .../src/transport_handshake_priv.c            |  8 ++++--
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index 075fa94..fa0d751 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -235,12 +235,17 @@ static wickr_transport_packet_t *__wickr_transport_handshake_build_signed_packet
     
     /* Sign the handshake packet */
     if (!handshake_pkt || !wickr_transport_packet_sign(handshake_pkt, &handshake->engine, handshake->local_identity)) {
+        wickr_transport_packet_destroy(&handshake_pkt);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
         return NULL;
     }
     
     /* Record this packet into the packet list for later use */
-    wickr_array_set_item(handshake->packet_list, packet_num, handshake_pkt->network_buffer, true); //TODO: Use hash builder instead of array
+    if (!wickr_array_set_item(handshake->packet_list, packet_num, handshake_pkt->network_buffer, true)) { //TODO: Use hash builder instead of array
+        wickr_transport_packet_destroy(&handshake_pkt);
+        handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
+        return NULL;
+    }
     
     return handshake_pkt;
 }
@@ -350,7 +355,7 @@ static wickr_kdf_meta_t *__wickr_transport_handshake_kdf_meta_gen(wickr_transpor
     wickr_kdf_meta_t *kdf_meta = wickr_kdf_meta_create(KDF_HKDF_SHA512, NULL, hashed_info);
     
     if (!kdf_meta) {
-        wickr_buffer_destroy(&info_data);
+        wickr_buffer_destroy(&hashed_info);
     }
     
     return kdf_meta;
@@ -378,7 +383,10 @@ static void __wickr_transport_handshake_process_response(wickr_transport_handsha
                                                          const wickr_transport_packet_t *packet)
 {
     /* Record this packet into the packet list for later use */
-    wickr_array_set_item(handshake->packet_list, 1, packet->network_buffer, true); //TODO: Use hash builder instead of array
+    if (!wickr_array_set_item(handshake->packet_list, 1, packet->network_buffer, true)) { //TODO: Use hash builder instead of array
+        handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
+        return;
+    }
     
     Wickr__Proto__HandshakeV1 *handshake_data = wickr_proto_handshake_from_packet(packet);
     
@@ -435,7 +443,7 @@ static void __wickr_transport_handshake_process_response(wickr_transport_handsha
     }
     
     wickr_buffer_t *remote_ephemeral = wickr_buffer_from_protobytes(handshake_data->response->ephemeral_pubkey);
-    wickr_ec_key_t *remote_ephemeral_key = handshake->engine.wickr_crypto_engine_ec_key_import(remote_ephemeral, false);
+    wickr_ec_key_t *remote_ephemeral_key = remote_ephemeral ? handshake->engine.wickr_crypto_engine_ec_key_import(remote_ephemeral, false) : NULL;
     
     wickr_buffer_destroy(&remote_ephemeral);
     
@@ -487,6 +495,7 @@ static void __wickr_transport_handshake_process_response(wickr_transport_handsha
     wickr_buffer_destroy_zero(&response_buffer);
     
     if (!response_data || !response_data->root_key) {
+        wickr__proto__handshake_v1_response_data__free_unpacked(response_data, NULL);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
         return;
     }
@@ -508,7 +517,10 @@ static wickr_transport_packet_t *__wickr_transport_handshake_process_initial(wic
                                                                              const wickr_transport_packet_t *packet)
 {
     /* Record this packet into the packet list for later use */
-    wickr_array_set_item(handshake->packet_list, 0, packet->network_buffer, true); //TODO: Use hash builder instead of array
+    if (!wickr_array_set_item(handshake->packet_list, 0, packet->network_buffer, true)) { //TODO: Use hash builder instead of array
+        handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
+        return NULL;
+    }
     
     Wickr__Proto__HandshakeV1 *handshake_data = wickr_proto_handshake_from_packet(packet);
     
@@ -561,6 +573,8 @@ static wickr_transport_packet_t *__wickr_transport_handshake_process_initial(wic
     
     if (!handshake->root_key) {
         wickr__proto__handshake_v1__free_unpacked(handshake_data, NULL);
+        wickr_ecdh_cipher_ctx_destroy(&cipher_ctx);
+        wickr_ec_key_destroy(&ephemeral_key);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
         return NULL;
     }
@@ -726,6 +740,7 @@ wickr_transport_packet_t *wickr_transport_handshake_process(wickr_transport_hand
         wickr_identity_chain_t *identity_chain_copy = wickr_identity_chain_copy(handshake->remote_identity);
         
         if (handshake->status == TRANSPORT_HANDSHAKE_STATUS_FAILED || identity_chain_copy == NULL) {
+            handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
             return NULL;
         }
         
diff --git a/src/wickrcrypto/src/transport_handshake_priv.c b/src/wickrcrypto/src/transport_handshake_priv.c
index 6591cf8..4d62aa3 100644
--- a/src/wickrcrypto/src/transport_handshake_priv.c
+++ b/src/wickrcrypto/src/transport_handshake_priv.c
@@ -26,12 +26,13 @@ Wickr__Proto__HandshakeV1__Seed *wickr_proto_handshake_seed_create(const wickr_i
     seed->has_identity_required = true;
     seed->identity_required = needs_remote_identity;
     
-    if (!wickr_buffer_to_protobytes(&seed->ephemeral_pubkey, ephemeral_pub_key)) {
+    if (!seed->id_chain) {
         wickr_free(seed);
         return NULL;
     }
     
-    if (!seed->id_chain) {
+    if (!wickr_buffer_to_protobytes(&seed->ephemeral_pubkey, ephemeral_pub_key)) {
+        wickr_identity_chain_proto_free(seed->id_chain);
         wickr_free(seed);
         return NULL;
     }
@@ -132,11 +133,14 @@ Wickr__Proto__HandshakeV1__Response *wickr_proto_handshake_response_create(const
     }
     
     if (!wickr_buffer_to_protobytes(&response->ephemeral_pubkey, ephemeral_pubkey)) {
+        wickr_identity_chain_proto_free(response->id_chain);
         wickr_free(response);
         return NULL;
     }
     
     if (!wickr_buffer_to_protobytes(&response->encrypted_response_data, encrypted_response_data)) {
+        wickr_identity_chain_proto_free(response->id_chain);
+        wickr_free(response->ephemeral_pubkey.data);
         wickr_free(response);
         return NULL;
     }
-- 
2.43.0


From c6c3887750794cca6bc34fbbefb7ff52d586bc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 06/26] fix: release the derived key material when a stream key
 cannot be made from it

---
 src/wickrcrypto/src/transport_root_key.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wickrcrypto/src/transport_root_key.c b/src/wickrcrypto/src/transport_root_key.c
index cb7df79..bf2b1e3 100644
--- a/src/wickrcrypto/src/transport_root_key.c
+++ b/src/wickrcrypto/src/transport_root_key.c
@@ -98,6 +98,7 @@ wickr_stream_key_t *wickr_transport_root_key_to_stream_key(const wickr_transport
     wickr_kdf_result_t *raw_key_material = engine->wickr_crypto_kdf_meta(&kdf_meta, root_key->secret);
     
     if (!raw_key_material || raw_key_material->hash->length != root_key->cipher.key_len * 2) {
+        wickr_kdf_result_destroy(&raw_key_material);
         return NULL;
     }
     
@@ -106,6 +107,7 @@ wickr_stream_key_t *wickr_transport_root_key_to_stream_key(const wickr_transport
     
     if (!cipher_key) {
         wickr_buffer_destroy_zero(&cipher_key_data);
+        wickr_kdf_result_destroy(&raw_key_material);
         return NULL;
     }
     
-- 
2.43.0


From 647686e6cc6dc10420826afc7f0a707d0d3888a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 07/26] fix: report allocation failures when creating and
 copying EC keys and signatures

---
 src/wickrcrypto/src/ecdsa.c | 25 +++++++++++++++++++++++--
 src/wickrcrypto/src/eckey.c | 20 ++++++++++++++++++--
 2 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/wickrcrypto/src/ecdsa.c b/src/wickrcrypto/src/ecdsa.c
index f55267a..762aa92 100644
--- a/src/wickrcrypto/src/ecdsa.c
+++ b/src/wickrcrypto/src/ecdsa.c
@@ -12,6 +12,11 @@ wickr_ecdsa_result_t *wickr_ecdsa_result_create(wickr_ec_curve_t curve, wickr_di
     }
     
     wickr_ecdsa_result_t *new_result = wickr_alloc_zero(sizeof(wickr_ecdsa_result_t));
+    
+    if (!new_result) {
+        return NULL;
+    }
+    
     new_result->curve = curve;
     new_result->digest_mode = digest_mode;
     new_result->sig_data = sig_data;
@@ -45,7 +50,13 @@ wickr_ecdsa_result_t *wickr_ecdsa_result_create_from_buffer(const wickr_buffer_t
         return NULL;
     }
     
-    return wickr_ecdsa_result_create(*curve, *digest_mode, key_data);
+    wickr_ecdsa_result_t *result = wickr_ecdsa_result_create(*curve, *digest_mode, key_data);
+    
+    if (!result) {
+        wickr_buffer_destroy(&key_data);
+    }
+    
+    return result;
 }
 
 wickr_buffer_t *wickr_ecdsa_result_serialize(const wickr_ecdsa_result_t *result)
@@ -67,6 +78,10 @@ wickr_buffer_t *wickr_ecdsa_result_serialize(const wickr_ecdsa_result_t *result)
     pad_count_buffer.length = sizeof(uint8_t);
     
     wickr_buffer_t *pad_buffer = wickr_buffer_create_empty_zero(pad_count);
+    
+    if (!pad_buffer && pad_count != 0) {
+        return NULL;
+    }
 
     wickr_buffer_t *buffers[] = { &meta_buffer, &pad_count_buffer, pad_buffer, result->sig_data };
     
@@ -84,7 +99,13 @@ wickr_ecdsa_result_t *wickr_ecdsa_result_copy(const wickr_ecdsa_result_t *source
     
     wickr_buffer_t *sig_data_copy = wickr_buffer_copy(source->sig_data);
     
-    return wickr_ecdsa_result_create(source->curve, source->digest_mode, sig_data_copy);
+    wickr_ecdsa_result_t *copy = wickr_ecdsa_result_create(source->curve, source->digest_mode, sig_data_copy);
+    
+    if (!copy) {
+        wickr_buffer_destroy(&sig_data_copy);
+    }
+    
+    return copy;
 }
 
 void wickr_ecdsa_result_destroy(wickr_ecdsa_result_t **result)
diff --git a/src/wickrcrypto/src/eckey.c b/src/wickrcrypto/src/eckey.c
index 015cbac..deee92e 100644
--- a/src/wickrcrypto/src/eckey.c
+++ b/src/wickrcrypto/src/eckey.c
@@ -10,6 +10,11 @@ wickr_ec_key_t *wickr_ec_key_create(wickr_ec_curve_t curve, wickr_buffer_t *pub_
     }
     
     wickr_ec_key_t *new_key = wickr_alloc_zero(sizeof(wickr_ec_key_t));
+    
+    if (!new_key) {
+        return NULL;
+    }
+    
     new_key->curve = curve;
     new_key->pub_data = pub_data;
     new_key->pri_data = pri_data;
@@ -40,18 +45,29 @@ wickr_ec_key_t *wickr_ec_key_copy(const wickr_ec_key_t *source)
         }
     }
     
-    return wickr_ec_key_create(source->curve, pub_key_copy, pri_key_copy);
+    wickr_ec_key_t *copy = wickr_ec_key_create(source->curve, pub_key_copy, pri_key_copy);
+    
+    if (!copy) {
+        wickr_buffer_destroy_zero(&pub_key_copy);
+        wickr_buffer_destroy_zero(&pri_key_copy);
+    }
+    
+    return copy;
 }
 
 wickr_buffer_t *wickr_ec_key_get_pubdata_fixed_len(const wickr_ec_key_t *key)
 {
+    if (!key || !key->pub_data) {
+        return NULL;
+    }
+    
     /* If no adjustments are necessary, just return a new copy of the pub key data as is */
     if (key->pub_data->length == key->curve.max_pub_size) {
         return wickr_buffer_copy(key->pub_data);
     }
     
     /* Verify that we don't have a corrupt key with a length greater than the maximum */
-    if (!key || key->pub_data->length > key->curve.max_pub_size) {
+    if (key->pub_data->length > key->curve.max_pub_size) {
         return NULL;
     }
     
-- 
2.43.0


From 88b568ddfaa2fb8a38172c331a9cd4f16f0d2623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 08/26] fix: report allocation failures when creating, copying
 and parsing cipher keys and results

---
 src/wickrcrypto/src/cipher.c | 50 +++++++++++++++++++++++++++++++++---
 1 file changed, 46 insertions(+), 4 deletions(-)

diff --git a/src/wickrcrypto/src/cipher.c b/src/wickrcrypto/src/cipher.c
index b9d669b..1c1ea24 100644
--- a/src/wickrcrypto/src/cipher.c
+++ b/src/wickrcrypto/src/cipher.c
@@ -31,6 +31,11 @@ wickr_cipher_result_t *wickr_cipher_result_create(wickr_cipher_t cipher, wickr_b
     }
     
     wickr_cipher_result_t *new_result = wickr_alloc_zero(sizeof(wickr_cipher_result_t));
+    
+    if (!new_result) {
+        return NULL;
+    }
+    
     new_result->cipher = cipher;
     
     
@@ -48,6 +53,11 @@ wickr_cipher_result_t *wickr_cipher_result_copy(const wickr_cipher_result_t *res
     }
     
     wickr_buffer_t *iv_copy = wickr_buffer_copy(result->iv);
+    
+    if (!iv_copy) {
+        return NULL;
+    }
+    
     wickr_buffer_t *cipher_text_copy;
     if (result->cipher_text)
         cipher_text_copy = wickr_buffer_copy(result->cipher_text);
@@ -55,12 +65,24 @@ wickr_cipher_result_t *wickr_cipher_result_copy(const wickr_cipher_result_t *res
         cipher_text_copy = NULL;
     wickr_buffer_t *auth_tag_copy = result->auth_tag ? wickr_buffer_copy(result->auth_tag) : NULL;
     
-    return wickr_cipher_result_create(result->cipher, iv_copy, cipher_text_copy, auth_tag_copy);
+    wickr_cipher_result_t *copy = NULL;
+    
+    if ((cipher_text_copy || !result->cipher_text) && (auth_tag_copy || !result->auth_tag)) {
+        copy = wickr_cipher_result_create(result->cipher, iv_copy, cipher_text_copy, auth_tag_copy);
+    }
+    
+    if (!copy) {
+        wickr_buffer_destroy(&iv_copy);
+        wickr_buffer_destroy(&cipher_text_copy);
+        wickr_buffer_destroy(&auth_tag_copy);
+    }
+    
+    return copy;
 }
 
 void wickr_cipher_result_destroy(wickr_cipher_result_t **result)
 {
-    if (!*result) {
+    if (!result || !*result) {
         return;
     }
     
@@ -160,7 +182,16 @@ wickr_cipher_result_t *wickr_cipher_result_from_buffer(const wickr_buffer_t *buf
     } else {
         cipher_text = NULL;
     }
-    return wickr_cipher_result_create(*mode, iv, cipher_text, auth_tag);
+    
+    wickr_cipher_result_t *result = wickr_cipher_result_create(*mode, iv, cipher_text, auth_tag);
+    
+    if (!result) {
+        wickr_buffer_destroy(&iv);
+        wickr_buffer_destroy(&cipher_text);
+        wickr_buffer_destroy(&auth_tag);
+    }
+    
+    return result;
 }
 
 wickr_cipher_key_t *wickr_cipher_key_create(wickr_cipher_t cipher, wickr_buffer_t *key_data)
@@ -170,6 +201,11 @@ wickr_cipher_key_t *wickr_cipher_key_create(wickr_cipher_t cipher, wickr_buffer_
     }
     
     wickr_cipher_key_t *new_key = wickr_alloc_zero(sizeof(wickr_cipher_key_t));
+    
+    if (!new_key) {
+        return NULL;
+    }
+    
     new_key->cipher = cipher;
     new_key->key_data = key_data;
     
@@ -241,5 +277,11 @@ wickr_cipher_key_t *wickr_cipher_key_from_buffer(const wickr_buffer_t *buffer)
         return NULL;
     }
     
-    return wickr_cipher_key_create(*cipher, key_buffer);
+    wickr_cipher_key_t *key = wickr_cipher_key_create(*cipher, key_buffer);
+    
+    if (!key) {
+        wickr_buffer_destroy_zero(&key_buffer);
+    }
+    
+    return key;
 }
-- 
2.43.0


From 2cda9e063d30065d17df649a036b9ab4f1b3dcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 09/26] fix: report an allocation failure when copying an array

---
 src/wickrcrypto/src/array.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wickrcrypto/src/array.c b/src/wickrcrypto/src/array.c
index 20ad7c4..85c9ad1 100644
--- a/src/wickrcrypto/src/array.c
+++ b/src/wickrcrypto/src/array.c
@@ -124,6 +124,10 @@ wickr_array_t *wickr_array_copy(const wickr_array_t *array, bool deep_copy)
     
     wickr_array_t *copy_array = wickr_array_new(array->size, array->item_type, array->item_copy_func, array->item_destroy_func);
     
+    if (!copy_array) {
+        return NULL;
+    }
+    
     for (unsigned int i = 0; i < array->size; i++) {
         void *one_item = __wickr_array_pointer_to_index(array, i);
         
-- 
2.43.0


From deb6e28c4e9c18739f25240b33ec216798a65385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:18 +0000
Subject: [PATCH 10/26] fix: report failures of OpenSSL and of allocations in
 the crypto suite, and release what was built

---
 src/wickrcrypto/src/openssl_suite.c | 85 +++++++++++++++++++++++------
 1 file changed, 68 insertions(+), 17 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index fc48e27..5f52bce 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -113,13 +113,20 @@ static EVP_PKEY *__openssl_evp_ec_key_from_buffer(EC_KEY *existing,
     /* Allocate a new EVP key */
     EVP_PKEY *evp_signing_key = EVP_PKEY_new();
     
+    /* An existing key that was passed in still belongs to the caller when this function fails */
     if (!evp_signing_key) {
+        if (!existing) {
+            EC_KEY_free(key);
+        }
         return NULL;
     }
     
     /* Convert the EC_KEY structure to an EVP_PKEY */
     if (1 != EVP_PKEY_assign_EC_KEY(evp_signing_key, key)) {
         EVP_PKEY_free(evp_signing_key);
+        if (!existing) {
+            EC_KEY_free(key);
+        }
         return NULL;
     }
     
@@ -128,8 +135,13 @@ static EVP_PKEY *__openssl_evp_ec_key_from_buffer(EC_KEY *existing,
 
 static wickr_buffer_t *__openssl_ec_pub_key_to_buffer(wickr_ec_curve_t curve, EC_KEY *key)
 {
-    size_t key_size = i2o_ECPublicKey(key, NULL);
-    wickr_buffer_t *pub_key_data = wickr_buffer_create_empty_zero(sizeof(uint8_t) + key_size);
+    int key_size = i2o_ECPublicKey(key, NULL);
+    
+    if (key_size <= 0) {
+        return NULL;
+    }
+    
+    wickr_buffer_t *pub_key_data = wickr_buffer_create_empty_zero(sizeof(uint8_t) + (size_t)key_size);
     
     if (!pub_key_data) {
         return NULL;
@@ -144,7 +156,7 @@ static wickr_buffer_t *__openssl_ec_pub_key_to_buffer(wickr_ec_curve_t curve, EC
     }
     
     uint8_t* bytes = pub_key_data->bytes + sizeof(uint8_t);
-    if (!i2o_ECPublicKey(key, &bytes)) {
+    if (i2o_ECPublicKey(key, &bytes) != key_size) {
         wickr_buffer_destroy(&pub_key_data);
         return NULL;
     }
@@ -154,15 +166,20 @@ static wickr_buffer_t *__openssl_ec_pub_key_to_buffer(wickr_ec_curve_t curve, EC
 
 static wickr_buffer_t *__openssl_ec_pri_key_to_buffer(EC_KEY *key)
 {
-    size_t key_size = i2d_ECPrivateKey(key, NULL);
-    wickr_buffer_t *pri_key_data = wickr_buffer_create_empty_zero(key_size);
+    int key_size = i2d_ECPrivateKey(key, NULL);
+    
+    if (key_size <= 0) {
+        return NULL;
+    }
+    
+    wickr_buffer_t *pri_key_data = wickr_buffer_create_empty_zero((size_t)key_size);
     
     if (!pri_key_data) {
         return NULL;
     }
     
     uint8_t *bytes = pri_key_data->bytes;
-    if (!i2d_ECPrivateKey(key, &bytes)) {
+    if (i2d_ECPrivateKey(key, &bytes) != key_size) {
         wickr_buffer_destroy_zero(&pri_key_data);
         return NULL;
     }
@@ -177,7 +194,7 @@ static EVP_PKEY *__openssl_evp_private_key_from_buffer(const wickr_buffer_t *buf
 
 static EVP_PKEY *__openssl_evp_public_key_from_buffer(const wickr_buffer_t *buffer)
 {
-    if (buffer->length <= sizeof(uint8_t)) {
+    if (!buffer || buffer->length <= sizeof(uint8_t)) {
         return NULL;
     }
     const wickr_ec_curve_t *curve = wickr_ec_curve_find(buffer->bytes[0]);
@@ -221,6 +238,10 @@ static EVP_MD_CTX * __openssl_digest_ctx_create(wickr_digest_t digest_mode)
     
     EVP_MD_CTX *ctx = EVP_MD_CTX_create();
     
+    if (!ctx) {
+        return NULL;
+    }
+    
     /* Initialize a digest context using the requested digest mode */
     if (1 != EVP_DigestInit_ex(ctx, digest, NULL)) {
         EVP_MD_CTX_destroy(ctx);
@@ -250,6 +271,7 @@ static EVP_MD_CTX * __openssl_digest_sign_ctx_create(wickr_digest_t digest_mode,
     EVP_PKEY *evp_signing_key = key_deserialization_function(key_data);
     
     if (!evp_signing_key) {
+        EVP_MD_CTX_destroy(ctx);
         return NULL;
     }
     
@@ -277,6 +299,7 @@ static EVP_MD_CTX * __openssl_digest_verify_ctx_create(wickr_digest_t digest_mod
     
     /* Initialize a digest context with the digest the signature was created with */
     if (1 != EVP_DigestInit_ex(ctx, EVP_MD_CTX_md(ctx), NULL)) {
+        EVP_MD_CTX_destroy(ctx);
         return NULL;
     }
     
@@ -360,6 +383,10 @@ wickr_buffer_t *openssl_crypto_random(size_t len)
     
     wickr_buffer_t *new_buffer = wickr_buffer_create_empty(len);
     
+    if (!new_buffer) {
+        return NULL;
+    }
+    
     if (1 != RAND_bytes(new_buffer->bytes, (int)len)) {
         wickr_buffer_destroy(&new_buffer);
         return NULL;
@@ -392,7 +419,7 @@ wickr_cipher_result_t *openssl_aes256_encrypt(const wickr_buffer_t *plaintext, c
     }
     
     /* AAD only works if the cipher supports authentication */
-    if (aad && !key->cipher.is_authenticated) {
+    if (aad && (!key->cipher.is_authenticated || aad->length > INT_MAX)) {
         return NULL;
     }
     
@@ -409,6 +436,11 @@ wickr_cipher_result_t *openssl_aes256_encrypt(const wickr_buffer_t *plaintext, c
         return NULL;
     }
     
+    /* The cipher reads a fixed number of IV bytes */
+    if (iv && iv->length != cipher.iv_len) {
+        return NULL;
+    }
+    
     /* If an IV is not passed in, generate a random one */
     wickr_buffer_t *iv_f = iv ? wickr_buffer_copy(iv) : openssl_crypto_random(cipher.iv_len);
     
@@ -477,9 +509,15 @@ wickr_cipher_result_t *openssl_aes256_encrypt(const wickr_buffer_t *plaintext, c
         }
     }
     
+    wickr_cipher_result_t *result = wickr_cipher_result_create(cipher, iv_f, cipher_text, auth_tag);
+    
+    if (!result) {
+        goto process_error;
+    }
+    
     EVP_CIPHER_CTX_free(ctx);
     
-    return wickr_cipher_result_create(cipher, iv_f, cipher_text, auth_tag);
+    return result;
     
 process_error:
     if (auth_tag) {
@@ -569,7 +607,10 @@ wickr_buffer_t *openssl_aes256_decrypt(const wickr_cipher_result_t *cipher_resul
     
     /* Update the AAD if needed */
     
-    if (aad && aad->length <= INT_MAX) {
+    if (aad) {
+        if (aad->length > INT_MAX) {
+            goto process_error;
+        }
         if (1 != EVP_DecryptUpdate(ctx, NULL, &temp_length, aad->bytes, (int)aad->length)) {
             goto process_error;
         }
@@ -653,6 +694,11 @@ wickr_buffer_t *openssl_sha2(const wickr_buffer_t *buffer, const wickr_buffer_t
     
     wickr_buffer_t *hash_result = wickr_buffer_create_empty_zero(mode.size);
     
+    if (!hash_result) {
+        EVP_MD_CTX_destroy(c);
+        return NULL;
+    }
+    
     if (1 != EVP_DigestFinal(c, hash_result->bytes, NULL)) {
         wickr_buffer_destroy(&hash_result);
         EVP_MD_CTX_destroy(c);
@@ -732,13 +778,13 @@ wickr_ec_key_t *openssl_ec_rand_key(wickr_ec_curve_t curve)
     /* Generate an EC_KEY struct with the selected curve */
     EC_KEY *new_key = EC_KEY_new_by_curve_name(nid);
     
-    /* Tell OpenSSL we are using a named curve so it gets serialized with the keys */
-    EC_KEY_set_asn1_flag(new_key, OPENSSL_EC_NAMED_CURVE);
-    
     if (!new_key) {
         return NULL;
     }
     
+    /* Tell OpenSSL we are using a named curve so it gets serialized with the keys */
+    EC_KEY_set_asn1_flag(new_key, OPENSSL_EC_NAMED_CURVE);
+    
     /* Generate a random  key pair  and store it in new_key */
     if (1 != EC_KEY_generate_key(new_key)) {
         EC_KEY_free(new_key);
@@ -948,8 +994,9 @@ int __openssl_ecdsa_bn_to_bin(wickr_buffer_t *out_buffer, ECDSA_SIG *sig) {
 int __openssl_ecdsa_bn_to_bin(wickr_buffer_t *out_buffer, ECDSA_SIG *sig) {
     unsigned int out_buffer_len = (unsigned int)out_buffer->length;
     
-    return BN_bn2binpad(ECDSA_SIG_get0_r(sig), out_buffer->bytes, out_buffer_len / 2) &&
-        BN_bn2binpad(ECDSA_SIG_get0_s(sig), out_buffer->bytes + out_buffer_len / 2, out_buffer_len / 2);
+    /* BN_bn2binpad reports failure as -1 */
+    return BN_bn2binpad(ECDSA_SIG_get0_r(sig), out_buffer->bytes, out_buffer_len / 2) > 0 &&
+        BN_bn2binpad(ECDSA_SIG_get0_s(sig), out_buffer->bytes + out_buffer_len / 2, out_buffer_len / 2) > 0;
 }
 #else
 int __openssl_ecdsa_bn_to_bin(wickr_buffer_t *out_buffer, ECDSA_SIG *sig) {
@@ -1048,6 +1095,8 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         }
 #elif OPENSSL_VERSION_NUMBER >= 0x010100000
         if (!ECDSA_SIG_set0(sig, r, s)) {
+            BN_free(r);
+            BN_free(s);
             ECDSA_SIG_free(sig);
             return NULL;
         }
@@ -1058,9 +1107,9 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         sig->s = s;
 #endif
         
-        size_t sig_size = i2d_ECDSA_SIG(sig, NULL);
+        int sig_size = i2d_ECDSA_SIG(sig, NULL);
         
-        wickr_buffer_t *sig_data = wickr_buffer_create_empty_zero(sig_size);
+        wickr_buffer_t *sig_data = sig_size > 0 ? wickr_buffer_create_empty_zero((size_t)sig_size) : NULL;
         
         if (!sig_data) {
             ECDSA_SIG_free(sig);
@@ -1070,6 +1119,7 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         uint8_t *bytes = sig_data->bytes;
         
         if (sig_size != i2d_ECDSA_SIG(sig, &bytes)) {
+            ECDSA_SIG_free(sig);
             wickr_buffer_destroy(&sig_data);
             return NULL;
         }
@@ -1210,6 +1260,7 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         wickr_buffer_t *computed_hmac = openssl_hmac_create(data, hmac_key, mode);
         
         if (!expected || !computed_hmac) {
+            wickr_buffer_destroy_zero(&computed_hmac);
             return false;
         }
         
-- 
2.43.0


From 0be35737018cf315b8f9395928c02129fb093a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 11/26] fix: fail file encryption and decryption when reading,
 writing, flushing or allocating fails

---
 src/wickrcrypto/src/openssl_suite.c | 62 +++++++++++++++++++++++++----
 1 file changed, 54 insertions(+), 8 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 5f52bce..2b979ef 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -1287,10 +1287,16 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         bool ret_val = false;
         
         wickr_buffer_t *iv_f = openssl_crypto_random(key->cipher.iv_len);
-        wickr_buffer_t *auth_tag = wickr_buffer_create_empty(key->cipher.auth_tag_len);
+        wickr_buffer_t *auth_tag = wickr_buffer_create_empty_zero(key->cipher.auth_tag_len);
         
         wickr_cipher_result_t *cipher_result = wickr_cipher_result_create(key->cipher, iv_f, NULL, auth_tag);
         
+        if (!cipher_result) {
+            wickr_buffer_destroy(&iv_f);
+            wickr_buffer_destroy(&auth_tag);
+            return false;
+        }
+        
         wickr_buffer_t *serialized = wickr_cipher_result_serialize(cipher_result);
         if (!serialized)
             goto process_error;
@@ -1340,11 +1346,19 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         // Use a 4kb block size
         unsigned char plainBuffer[4096];
         cipherBuffer = (unsigned char *)wickr_alloc(sizeof(plainBuffer) + EVP_CIPHER_CTX_block_size(ctx));
+        if (!cipherBuffer) {
+            goto process_error;
+        }
         int outlength = 0;
         
         for (;;) {
             size_t bytes_read = fread(plainBuffer, 1, sizeof(plainBuffer), in_file);
             
+            /* A failed read must not be taken for the end of the file */
+            if (ferror(in_file)) {
+                goto process_error;
+            }
+            
             if (1 != EVP_EncryptUpdate(ctx, cipherBuffer, &outlength, plainBuffer, (int)bytes_read)) {
                 goto process_error;
             }
@@ -1383,13 +1397,18 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
         // Complete the saving of data to the file
         serialized = wickr_cipher_result_serialize(cipher_result);
-        if (serialized) {
-            //Seek to the position that the Tag zeros start in the file so we can fill in the tag
-            rewind(out_file);
-            size_t bytes_written = fwrite(serialized->bytes, 1, serialized->length, out_file);
-            if (bytes_written != serialized->length) {
-                goto process_error;
-            }
+        if (!serialized) {
+            goto process_error;
+        }
+        
+        //Seek to the position that the Tag zeros start in the file so we can fill in the tag (rewind would hide a write error)
+        if (fflush(out_file) != 0 || fseek(out_file, 0, SEEK_SET) != 0) {
+            goto process_error;
+        }
+        
+        num_written = fwrite(serialized->bytes, 1, serialized->length, out_file);
+        if (num_written != serialized->length || fflush(out_file) != 0) {
+            goto process_error;
         }
         
         ret_val = true;
@@ -1460,6 +1479,16 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         wickr_cipher_result_t *cipher_result = wickr_cipher_result_from_buffer(cipher_buffer);
         
         unsigned char *plainBuffer = NULL;
+        
+        if (!cipher_result) {
+            goto process_error;
+        }
+        
+        /* The mode named by the file must be the one the key is for */
+        if (key->cipher.cipher_id != cipher_result->cipher.cipher_id) {
+            goto process_error;
+        }
+        
         const EVP_CIPHER *cipher = __openssl_get_cipher_mode(cipher_result->cipher);
         if (!cipher) {
             goto process_error;
@@ -1480,6 +1509,10 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         /* Allocate a cipher context */
         ctx = EVP_CIPHER_CTX_new();
         
+        if (!ctx) {
+            goto process_error;
+        }
+        
         /* Initialize the context with NULL to allow us to perform control operations */
         if (1 != EVP_DecryptInit_ex(ctx, cipher, NULL, NULL, NULL)) {
             goto process_error;
@@ -1510,11 +1543,19 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
         unsigned char cipherBuffer[4096];
         plainBuffer = wickr_alloc(sizeof(cipherBuffer) + EVP_CIPHER_CTX_block_size(ctx));
+        if (!plainBuffer) {
+            goto process_error;
+        }
         int outlength = 0;
         
         for (;;) {
             size_t bytesRead = fread(cipherBuffer, 1, sizeof(cipherBuffer), in_file);
             
+            /* A failed read must not be taken for the end of the file */
+            if (ferror(in_file)) {
+                goto process_error;
+            }
+            
             if (1 != EVP_DecryptUpdate(ctx, plainBuffer, &outlength, cipherBuffer, (int)bytesRead)) {
                 goto process_error;
             }
@@ -1538,6 +1579,11 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
                 break;
             }
         }
+        
+        if (fflush(out_file) != 0) {
+            goto process_error;
+        }
+        
         ret_val = true;
         
     process_error:
-- 
2.43.0


From 3aac2600bcbdd80cfb514d5b681d3b85dc84013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 12/26] fix: do not replace the destination file when closing
 the new one fails, never use the source as temporary file

---
 src/wickrcrypto/src/openssl_file_suite.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_file_suite.c b/src/wickrcrypto/src/openssl_file_suite.c
index 8e6d7c3..9492a44 100644
--- a/src/wickrcrypto/src/openssl_file_suite.c
+++ b/src/wickrcrypto/src/openssl_file_suite.c
@@ -101,6 +101,11 @@ static AESFileOperation *createFileOperation(const char *source, const char *des
 
     snprintf(tempPath, len, "%s.temp", destination);
 
+    // The temporary file must not overwrite the source
+    if (strcmp(tempPath, source) == 0) {
+        goto process_error;
+    }
+
 #if defined(_WIN32)
     if (windowsOpenFile(&destinationHandle, tempPath, L"wb") != 0 || !destinationHandle) {
         goto process_error;
@@ -133,6 +138,7 @@ process_error:
     }
     if (destinationHandle) {
         fclose(destinationHandle);
+        remove(tempPath);
     }
     if (tempPath) {
         wickr_free(tempPath);
@@ -146,19 +152,24 @@ static void aesFileOpRemoveTempFile(AESFileOperation *operation) {
     remove(operation->tempPath);
 }
 
-static void aesFileOpCloseSourceAndDestination(AESFileOperation *operation) {
+static bool aesFileOpCloseSourceAndDestination(AESFileOperation *operation) {
+	bool retVal = true;
 	if (operation->sourceHandle) {
 		fclose(operation->sourceHandle);
 		operation->sourceHandle = NULL;
 	}
 	if (operation->destinationHandle) {
-		fclose(operation->destinationHandle);
+		// Data that was still buffered may fail to reach the file here
+		retVal = fclose(operation->destinationHandle) == 0;
 		operation->destinationHandle = NULL;
 	}
+	return retVal;
 }
 
 static bool aesFileOpMoveTempToDestination(AESFileOperation *operation) {
-    aesFileOpCloseSourceAndDestination(operation);
+    if (!aesFileOpCloseSourceAndDestination(operation)) {
+        return false;
+    }
     
     bool retVal = true;
 #if defined(_WIN32)
@@ -183,8 +194,8 @@ static bool aesFileOpMoveTempToDestination(AESFileOperation *operation) {
 
 static void freeFileOperation(AESFileOperation **operation) {
     if (*operation) {
-        aesFileOpRemoveTempFile((*operation));
         aesFileOpCloseSourceAndDestination((*operation));
+        aesFileOpRemoveTempFile((*operation));
         if ((*operation)->tempPath)
             wickr_free((*operation)->tempPath);
         wickr_free((*operation));
-- 
2.43.0


From 3c5af473af6bdde7c0025758ee2eacac59a92145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 13/26] fix: release everything when a key derivation fails
 half way

---
 src/wickrcrypto/src/crypto_engine.c |  1 +
 src/wickrcrypto/src/kdf.c           | 36 +++++++++++++++++++++++++----
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/wickrcrypto/src/crypto_engine.c b/src/wickrcrypto/src/crypto_engine.c
index 7178dea..a2f5671 100644
--- a/src/wickrcrypto/src/crypto_engine.c
+++ b/src/wickrcrypto/src/crypto_engine.c
@@ -153,6 +153,7 @@ wickr_buffer_t *wickr_crypto_engine_kdf_decipher(const wickr_crypto_engine_t *en
     wickr_cipher_result_t *cipher_result = wickr_cipher_result_from_buffer(&cipher_text);
     
     if (!cipher_result) {
+        wickr_kdf_result_destroy(&kdf_result);
         return NULL;
     }
     
diff --git a/src/wickrcrypto/src/kdf.c b/src/wickrcrypto/src/kdf.c
index 86cd7e8..834fe9d 100644
--- a/src/wickrcrypto/src/kdf.c
+++ b/src/wickrcrypto/src/kdf.c
@@ -116,7 +116,13 @@ wickr_kdf_meta_t *wickr_kdf_meta_create_with_buffer(const wickr_buffer_t *buffer
         return NULL;
     }
     
-    return wickr_kdf_meta_create(*algo, salt_buffer, NULL);
+    wickr_kdf_meta_t *meta = wickr_kdf_meta_create(*algo, salt_buffer, NULL);
+    
+    if (!meta) {
+        wickr_buffer_destroy(&salt_buffer);
+    }
+    
+    return meta;
 }
 
 wickr_buffer_t *wickr_kdf_meta_serialize(const wickr_kdf_meta_t *meta)
@@ -158,7 +164,14 @@ wickr_kdf_meta_t *wickr_kdf_meta_copy(const wickr_kdf_meta_t *source)
         return NULL;
     }
     
-    return wickr_kdf_meta_create(source->algo, salt_copy, info_copy);
+    wickr_kdf_meta_t *copy = wickr_kdf_meta_create(source->algo, salt_copy, info_copy);
+    
+    if (!copy) {
+        wickr_buffer_destroy(&salt_copy);
+        wickr_buffer_destroy(&info_copy);
+    }
+    
+    return copy;
 }
 
 void wickr_kdf_meta_destroy(wickr_kdf_meta_t **meta)
@@ -210,7 +223,14 @@ wickr_kdf_result_t *wickr_kdf_result_copy(const wickr_kdf_result_t *source)
         return NULL;
     }
     
-    return wickr_kdf_result_create(meta_copy, hash_copy);
+    wickr_kdf_result_t *copy = wickr_kdf_result_create(meta_copy, hash_copy);
+    
+    if (!copy) {
+        wickr_kdf_meta_destroy(&meta_copy);
+        wickr_buffer_destroy_zero(&hash_copy);
+    }
+    
+    return copy;
 }
 
 void wickr_kdf_result_destroy(wickr_kdf_result_t **result)
@@ -305,6 +325,7 @@ static wickr_buffer_t *__bcrypt_generate_hash(const wickr_kdf_meta_t *meta, cons
     wickr_buffer_t *passphrase_final = wickr_buffer_create_empty_zero(passphrase->length + 1);
     
     if (!wickr_buffer_modify_section(passphrase_final, passphrase->bytes, 0, passphrase->length)) {
+        wickr_buffer_destroy_zero(&passphrase_final);
         wickr_buffer_destroy(&salt_buffer);
         return NULL;
     }
@@ -465,7 +486,14 @@ wickr_kdf_result_t *wickr_perform_kdf_meta(const wickr_kdf_meta_t *existing_meta
         return NULL;
     }
     
-    return wickr_kdf_result_create(result_meta, hash_output);
+    wickr_kdf_result_t *result = wickr_kdf_result_create(result_meta, hash_output);
+    
+    if (!result) {
+        wickr_kdf_meta_destroy(&result_meta);
+        wickr_buffer_destroy_zero(&hash_output);
+    }
+    
+    return result;
 }
 
 const wickr_kdf_algo_t *wickr_hkdf_algo_for_digest(wickr_digest_t digest)
-- 
2.43.0


From b9e76e0a0bfd91d91e74b0b363b432ebf36acc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 14/26] fix: keep the key pair of a node when rotation fails,
 copy and serialize identities and nodes completely or not at all

---
 src/wickrcrypto/src/identity.c  |  6 ++++++
 src/wickrcrypto/src/node.c      | 20 +++++++++-----------
 src/wickrcrypto/src/node_priv.c |  1 +
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/wickrcrypto/src/identity.c b/src/wickrcrypto/src/identity.c
index e215af8..171f9e1 100644
--- a/src/wickrcrypto/src/identity.c
+++ b/src/wickrcrypto/src/identity.c
@@ -91,6 +91,12 @@ wickr_identity_t *wickr_identity_copy(const wickr_identity_t *source)
     
     wickr_ecdsa_result_t *sig_copy = wickr_ecdsa_result_copy(source->signature);
     
+    if (source->signature && !sig_copy) {
+        wickr_buffer_destroy(&identifier_copy);
+        wickr_ec_key_destroy(&sig_key_copy);
+        return NULL;
+    }
+    
     wickr_identity_t *copy = wickr_identity_create(source->type, identifier_copy, sig_key_copy, sig_copy);
     
     if (!copy) {
diff --git a/src/wickrcrypto/src/node.c b/src/wickrcrypto/src/node.c
index 0bb0253..691ccb9 100644
--- a/src/wickrcrypto/src/node.c
+++ b/src/wickrcrypto/src/node.c
@@ -31,21 +31,19 @@ bool wickr_node_rotate_keypair(wickr_node_t *node, wickr_ephemeral_keypair_t *ne
         return false;
     }
     
-    wickr_ephemeral_keypair_destroy(&node->ephemeral_keypair);
+    wickr_ephemeral_keypair_t *keypair = copy ? wickr_ephemeral_keypair_copy(new_keypair) : new_keypair;
     
-    node->status = NODE_STATUS_UNKNOWN;
-    
-    if (copy) {
-        wickr_ephemeral_keypair_t *copy_keypair = wickr_ephemeral_keypair_copy(new_keypair);
-        if (!copy_keypair) {
-            return false;
-        }
-        node->ephemeral_keypair = copy_keypair;
+    if (!keypair) {
+        return false;
     }
-    else {
-        node->ephemeral_keypair = new_keypair;
+    
+    if (keypair != node->ephemeral_keypair) {
+        wickr_ephemeral_keypair_destroy(&node->ephemeral_keypair);
     }
     
+    node->ephemeral_keypair = keypair;
+    node->status = NODE_STATUS_UNKNOWN;
+    
     return true;
 }
 
diff --git a/src/wickrcrypto/src/node_priv.c b/src/wickrcrypto/src/node_priv.c
index 8a3adaf..3920203 100644
--- a/src/wickrcrypto/src/node_priv.c
+++ b/src/wickrcrypto/src/node_priv.c
@@ -41,6 +41,7 @@ Wickr__Proto__Node *wickr_node_to_proto(const wickr_node_t *node)
     
     if (!proto_node) {
         wickr_ephemeral_keypair_proto_free(ephemeral_keypair);
+        wickr_identity_chain_proto_free(identity_chain);
         return NULL;
     }
     
-- 
2.43.0


From d4d9f8a25365be1c25b0623ae387382765782988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:12 +0000
Subject: [PATCH 15/26] fix: remember only positive verification results, and
 tie the result of a node to its identity chain

---
 src/wickrcrypto/src/identity_priv.c | 10 ++++++++++
 src/wickrcrypto/src/node_priv.c     | 11 +++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/wickrcrypto/src/identity_priv.c b/src/wickrcrypto/src/identity_priv.c
index c439ec3..be63090 100644
--- a/src/wickrcrypto/src/identity_priv.c
+++ b/src/wickrcrypto/src/identity_priv.c
@@ -260,10 +260,14 @@ wickr_buffer_t *wickr_identity_chain_make_status_cache(const wickr_identity_chai
     uint8_t status_int = (uint8_t)chain->status;
     wickr_buffer_t status_buffer =  { .length = sizeof(uint8_t), .bytes = &status_int };
     
+    uint8_t digest_int = (uint8_t)chain->node->signature->digest_mode.digest_id;
+    wickr_buffer_t digest_buffer =  { .length = sizeof(uint8_t), .bytes = &digest_int };
+    
     wickr_buffer_t *buffers[] = {
         chain->root->sig_key->pub_data,
         chain->node->signature->sig_data,
         chain->node->sig_key->pub_data,
+        &digest_buffer,
         &status_buffer
     };
     
@@ -298,5 +302,11 @@ bool wickr_identity_chain_has_valid_cache(const wickr_identity_chain_t *chain,
 void wickr_identity_chain_update_status_cache(wickr_identity_chain_t *chain, const wickr_crypto_engine_t *engine)
 {
     wickr_buffer_destroy(&chain->_status_cache);
+    
+    /* A verification can fail because something it needed failed, so only a positive result is remembered */
+    if (chain->status != IDENTITY_CHAIN_STATUS_VALID) {
+        return;
+    }
+    
     chain->_status_cache = wickr_identity_chain_make_status_cache(chain, engine);
 }
diff --git a/src/wickrcrypto/src/node_priv.c b/src/wickrcrypto/src/node_priv.c
index 3920203..8c99cd6 100644
--- a/src/wickrcrypto/src/node_priv.c
+++ b/src/wickrcrypto/src/node_priv.c
@@ -120,9 +120,14 @@ wickr_buffer_t *wickr_node_make_status_cache(const wickr_node_t *node,
     uint8_t status_int = (uint8_t)node->status;
     wickr_buffer_t status_buffer =  { .length = sizeof(uint8_t), .bytes = &status_int };
     
+    uint8_t digest_int = (uint8_t)node->ephemeral_keypair->signature->digest_mode.digest_id;
+    wickr_buffer_t digest_buffer =  { .length = sizeof(uint8_t), .bytes = &digest_int };
+    
     wickr_buffer_t *buffers[] = {
         node->ephemeral_keypair->ec_key->pub_data,
         node->ephemeral_keypair->signature->sig_data,
+        node->id_chain->_status_cache,
+        &digest_buffer,
         &status_buffer
     };
     
@@ -162,6 +167,12 @@ bool wickr_node_has_valid_cache(const wickr_node_t *node,
 void wickr_node_update_status_cache(wickr_node_t *node, const wickr_crypto_engine_t *engine)
 {
     wickr_buffer_destroy(&node->_status_cache);
+    
+    /* A verification can fail because something it needed failed, so only a positive result is remembered */
+    if (node->status != NODE_STATUS_VALID) {
+        return;
+    }
+    
     node->_status_cache = wickr_node_make_status_cache(node, engine);
 }
 
-- 
2.43.0


From 2aec81114636322ca23773ee34e12fa61fe54a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 16/26] fix: report allocation failures while building,
 serializing and copying packets

---
 src/wickrcrypto/src/key_exchange.c |  5 +++++
 src/wickrcrypto/src/packet_meta.c  |  5 +++++
 src/wickrcrypto/src/protocol.c     | 27 +++++++++++++++++++++++++++
 3 files changed, 37 insertions(+)

diff --git a/src/wickrcrypto/src/key_exchange.c b/src/wickrcrypto/src/key_exchange.c
index b61bfeb..ce7e375 100644
--- a/src/wickrcrypto/src/key_exchange.c
+++ b/src/wickrcrypto/src/key_exchange.c
@@ -16,6 +16,11 @@ wickr_key_exchange_t *wickr_key_exchange_create(wickr_buffer_t *exchange_id,
     }
     
     wickr_key_exchange_t *new_exchange = wickr_alloc_zero(sizeof(wickr_key_exchange_t));
+    
+    if (!new_exchange) {
+        return NULL;
+    }
+    
     new_exchange->exchange_id = exchange_id;
     new_exchange->key_id = key_id;
     new_exchange->exchange_ciphertext = exchange_ciphertext;
diff --git a/src/wickrcrypto/src/packet_meta.c b/src/wickrcrypto/src/packet_meta.c
index 4262b87..b0fe8c8 100644
--- a/src/wickrcrypto/src/packet_meta.c
+++ b/src/wickrcrypto/src/packet_meta.c
@@ -9,6 +9,11 @@ wickr_packet_meta_t *wickr_packet_meta_create(wickr_ephemeral_info_t ephemeralit
     }
     
     wickr_packet_meta_t *new_packet_meta = wickr_alloc_zero(sizeof(wickr_packet_meta_t));
+    
+    if (!new_packet_meta) {
+        return NULL;
+    }
+    
     new_packet_meta->channel_tag = channel_tag;
     new_packet_meta->content_type = content_type;
     new_packet_meta->ephemerality_settings = ephemerality_settings;
diff --git a/src/wickrcrypto/src/protocol.c b/src/wickrcrypto/src/protocol.c
index 3813daf..f23e5d1 100644
--- a/src/wickrcrypto/src/protocol.c
+++ b/src/wickrcrypto/src/protocol.c
@@ -271,6 +271,11 @@ wickr_packet_t *wickr_packet_create_with_components(const wickr_crypto_engine_t
     
     wickr_buffer_t *enc_payload_bytes = wickr_cipher_result_serialize(enc_payload);
     
+    if (!enc_payload_bytes) {
+        wickr_buffer_destroy(&enc_header_bytes);
+        return NULL;
+    }
+    
     proto_packet.enc_header.data = enc_header_bytes->bytes;
     proto_packet.enc_header.len = enc_header_bytes->length;
     proto_packet.enc_payload.data = enc_payload_bytes->bytes;
@@ -358,6 +363,7 @@ wickr_packet_t *wickr_packet_create_from_buffer(const wickr_buffer_t *buffer)
     if (!signature ||
         signature->digest_mode.digest_id != digest.digest_id ||
         signature->curve.identifier != curve->identifier) {
+        wickr_ecdsa_result_destroy(&signature);
         return NULL;
     }
     
@@ -395,6 +401,7 @@ wickr_buffer_t *wickr_packet_serialize(const wickr_packet_t *packet)
     wickr_buffer_t *sig_data = wickr_ecdsa_result_serialize(packet->signature);
     
     if (!sig_data || sig_data->length != packet->signature->curve.signature_size) {
+        wickr_buffer_destroy(&sig_data);
         return NULL;
     }
     
@@ -491,6 +498,15 @@ wickr_parse_result_t *wickr_parse_result_copy(const wickr_parse_result_t *source
     wickr_cipher_result_t *enc_payload_copy = wickr_cipher_result_copy(source->enc_payload);
     wickr_key_exchange_t *key_exchange_copy = wickr_key_exchange_copy(source->key_exchange);
     
+    if ((source->key_exchange_set && !header_copy) ||
+        (source->enc_payload && !enc_payload_copy) ||
+        (source->key_exchange && !key_exchange_copy)) {
+        wickr_key_exchange_set_destroy(&header_copy);
+        wickr_cipher_result_destroy(&enc_payload_copy);
+        wickr_key_exchange_destroy(&key_exchange_copy);
+        return NULL;
+    }
+    
     wickr_parse_result_t *copy = __wickr_parse_result_create(header_copy, key_exchange_copy, enc_payload_copy, source->signature_status, source->err);
     
     if (!copy) {
@@ -550,10 +566,17 @@ wickr_decode_result_t *wickr_decode_result_copy(const wickr_decode_result_t *res
     wickr_payload_t *payload_copy = wickr_payload_copy(result->decrypted_payload);
     wickr_cipher_key_t *cipher_key_copy = wickr_cipher_key_copy(result->payload_key);
     
+    if ((result->decrypted_payload && !payload_copy) || (result->payload_key && !cipher_key_copy)) {
+        wickr_payload_destroy(&payload_copy);
+        wickr_cipher_key_destroy(&cipher_key_copy);
+        return NULL;
+    }
+    
     wickr_decode_result_t *copy = __wickr_decode_result_create(result->err, payload_copy, cipher_key_copy);
     
     if (!copy) {
         wickr_payload_destroy(&payload_copy);
+        wickr_cipher_key_destroy(&cipher_key_copy);
     }
     
     return copy;
@@ -613,6 +636,10 @@ wickr_packet_t *wickr_packet_create_from_components(const wickr_crypto_engine_t
     
     wickr_exchange_array_t *exchange_array = wickr_exchange_array_new(recipient_count);
     
+    if (!exchange_array) {
+        return NULL;
+    }
+    
     for (int i = 0; i < recipient_count; i++) {
         
         wickr_node_t *one_node = wickr_node_array_fetch_item(recipients, i);
-- 
2.43.0


From 085630b1cd613c10debc80d109be87b41a6bed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 17/26] fix: report failures while generating, restoring and
 copying a context

---
 src/wickrcrypto/src/wickr_ctx.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/wickr_ctx.c b/src/wickrcrypto/src/wickr_ctx.c
index acf6bcb..ddf7b31 100644
--- a/src/wickrcrypto/src/wickr_ctx.c
+++ b/src/wickrcrypto/src/wickr_ctx.c
@@ -164,6 +164,10 @@ wickr_ctx_gen_result_t *wickr_ctx_gen_with_recovery(const wickr_crypto_engine_t
     wickr_ctx_gen_result_t *gen_result = wickr_ctx_gen_with_root_keys(engine, dev_info, root_keys, identifier);
     wickr_root_keys_destroy(&root_keys);
     
+    if (!gen_result) {
+        return NULL;
+    }
+    
     /* Swap out the randomly assigned recovery key with the one that was specified */
     wickr_cipher_key_destroy(&gen_result->recovery_key);
     gen_result->recovery_key = wickr_cipher_key_copy(recovery_key);
@@ -217,12 +221,17 @@ wickr_ctx_gen_result_t *wickr_ctx_gen_with_root_keys(const wickr_crypto_engine_t
     
     wickr_identity_chain_t *new_id_chain = wickr_identity_chain_create(root_identity, new_node_identity);
     
-    if (!new_id_chain || !wickr_identity_chain_validate(new_id_chain, &engine)) {
+    if (!new_id_chain) {
         wickr_identity_destroy(&new_node_identity);
         wickr_identity_destroy(&root_identity);
         return NULL;
     }
     
+    if (!wickr_identity_chain_validate(new_id_chain, &engine)) {
+        wickr_identity_chain_destroy(&new_id_chain);
+        return NULL;
+    }
+    
     wickr_storage_keys_t *new_storage_keys = wickr_root_keys_localize(root_keys, &engine, dev_info);
     
     if (!new_storage_keys) {
@@ -256,7 +265,7 @@ wickr_ctx_gen_result_t *wickr_ctx_gen_with_root_keys(const wickr_crypto_engine_t
     
     wickr_root_keys_t *root_keys_copy = wickr_root_keys_copy(root_keys);
     
-    if (!root_keys) {
+    if (!root_keys_copy) {
         wickr_ctx_destroy(&ctx);
         wickr_cipher_key_destroy(&recovery_key);
         return NULL;
@@ -397,6 +406,7 @@ wickr_ctx_t *wickr_ctx_create(const wickr_crypto_engine_t engine, wickr_dev_info
     wickr_ctx_t *new_ctx = wickr_alloc_zero(sizeof(wickr_ctx_t));
     
     if (!new_ctx) {
+        wickr_cipher_key_destroy(&packet_header_key);
         return NULL;
     }
     
@@ -448,6 +458,7 @@ wickr_ctx_t *wickr_ctx_copy(const wickr_ctx_t *ctx)
         wickr_dev_info_destroy(&dev_info_copy);
         wickr_identity_chain_destroy(&id_chain_copy);
         wickr_storage_keys_destroy(&storage_keys_copy);
+        return NULL;
     }
     
     copy->pkt_enc_version = ctx->pkt_enc_version;
-- 
2.43.0


From 11ab399e0a3c6b3838caed95a17e7a0822c48866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 18/26] fix: report allocation failures when serializing a
 stream key, release its user data when parsing fails

---
 src/wickrcrypto/src/stream_key.c      | 2 +-
 src/wickrcrypto/src/stream_key_priv.c | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/stream_key.c b/src/wickrcrypto/src/stream_key.c
index 04a339e..ab8979e 100644
--- a/src/wickrcrypto/src/stream_key.c
+++ b/src/wickrcrypto/src/stream_key.c
@@ -110,7 +110,7 @@ wickr_buffer_t *wickr_stream_key_serialize(const wickr_stream_key_t *key)
     
     Wickr__Proto__StreamKey *proto_key = wickr_stream_key_to_proto(key);
     
-    if (!key) {
+    if (!proto_key) {
         return NULL;
     }
     
diff --git a/src/wickrcrypto/src/stream_key_priv.c b/src/wickrcrypto/src/stream_key_priv.c
index b8ac43f..57c0edf 100644
--- a/src/wickrcrypto/src/stream_key_priv.c
+++ b/src/wickrcrypto/src/stream_key_priv.c
@@ -35,6 +35,7 @@ Wickr__Proto__StreamKey *wickr_stream_key_to_proto(const wickr_stream_key_t *key
     
     if (!wickr_buffer_to_protobytes(&proto->cipher_key, key_buffer)) {
         wickr_buffer_destroy_zero(&key_buffer);
+        wickr_free(proto);
         return NULL;
     }
     
@@ -100,6 +101,7 @@ wickr_stream_key_t *wickr_stream_key_create_from_proto(const Wickr__Proto__Strea
     if (!stream_key) {
         wickr_cipher_key_destroy(&cipher_key);
         wickr_buffer_destroy_zero(&evo_key);
+        wickr_buffer_destroy(&user_data);
         return NULL;
     }
     
-- 
2.43.0


From b1933d6a1eef04a90877de29fb05e7afad68a06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 19/26] fix: check the value just made when handling storage
 keys, root keys and fingerprints

---
 src/wickrcrypto/src/fingerprint.c  | 4 ++++
 src/wickrcrypto/src/root_keys.c    | 4 ++--
 src/wickrcrypto/src/storage.c      | 5 +++++
 src/wickrcrypto/src/storage_priv.c | 5 +++++
 4 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/fingerprint.c b/src/wickrcrypto/src/fingerprint.c
index d2801d6..87033b5 100644
--- a/src/wickrcrypto/src/fingerprint.c
+++ b/src/wickrcrypto/src/fingerprint.c
@@ -181,6 +181,10 @@ static wickr_buffer_t *__wickr_fingerprint_encode_for_output_mode(const wickr_fi
     
     wickr_buffer_t *encoded_fingerprint_data = enc_func(fingerprint->data);
     
+    if (!encoded_fingerprint_data) {
+        return NULL;
+    }
+    
     if (output_mode == FINGERPRINT_OUTPUT_SHORT) {
         size_t short_length = encoded_fingerprint_data->length / 2;
         
diff --git a/src/wickrcrypto/src/root_keys.c b/src/wickrcrypto/src/root_keys.c
index 3434e0a..0f4d2fb 100644
--- a/src/wickrcrypto/src/root_keys.c
+++ b/src/wickrcrypto/src/root_keys.c
@@ -48,7 +48,7 @@ wickr_root_keys_t *wickr_root_keys_generate(const wickr_crypto_engine_t *engine)
     
     wickr_ec_key_t *new_signature_root = engine->wickr_crypto_engine_ec_rand_key(engine->default_curve);
     
-    if (!new_node_storage_root) {
+    if (!new_signature_root) {
         wickr_cipher_key_destroy(&new_node_storage_root);
         wickr_cipher_key_destroy(&new_remote_storage_root);
         return NULL;
@@ -96,7 +96,7 @@ wickr_root_keys_t *wickr_root_keys_create_from_buffer(const wickr_crypto_engine_
     
     wickr_cipher_key_t *remote_storage_key = wickr_cipher_key_from_protobytes(proto_keypair->remote_storage_root);
     
-    if (!node_storage_key) {
+    if (!remote_storage_key) {
         wickr_cipher_key_destroy(&node_storage_key);
         wickr__proto__root_keys__free_unpacked(proto_keypair, NULL);
         return NULL;
diff --git a/src/wickrcrypto/src/storage.c b/src/wickrcrypto/src/storage.c
index 1bf93a0..7b6c078 100644
--- a/src/wickrcrypto/src/storage.c
+++ b/src/wickrcrypto/src/storage.c
@@ -58,6 +58,11 @@ wickr_buffer_t *wickr_storage_keys_serialize(const wickr_storage_keys_t *keys)
     }
     
     Wickr__Proto__StorageKeys *proto_keys = wickr_storage_keys_to_proto(keys);
+    
+    if (!proto_keys) {
+        return NULL;
+    }
+    
     size_t buffer_size = wickr__proto__storage_keys__get_packed_size(proto_keys);
     wickr_buffer_t *concat_buffer = wickr_buffer_create_empty(buffer_size);
     
diff --git a/src/wickrcrypto/src/storage_priv.c b/src/wickrcrypto/src/storage_priv.c
index ef5cd62..c517010 100644
--- a/src/wickrcrypto/src/storage_priv.c
+++ b/src/wickrcrypto/src/storage_priv.c
@@ -23,6 +23,11 @@ Wickr__Proto__StorageKeys *wickr_storage_keys_to_proto(const wickr_storage_keys_
     }
     
     Wickr__Proto__StorageKeys *proto_keys = wickr_alloc_zero(sizeof(Wickr__Proto__StorageKeys));
+    
+    if (!proto_keys) {
+        return NULL;
+    }
+    
     wickr__proto__storage_keys__init(proto_keys);
     proto_keys->version = CURRENT_STORAGE_KEY_VERSION;
     
-- 
2.43.0


From e4e5778f0fe67a0701f57ba6040a97df53a124b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 20/26] fix: leave a transport packet as it was when signing it
 fails, do not leak when signing again

---
 src/wickrcrypto/src/transport_packet.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/wickrcrypto/src/transport_packet.c b/src/wickrcrypto/src/transport_packet.c
index 516b4a6..b9e0a93 100644
--- a/src/wickrcrypto/src/transport_packet.c
+++ b/src/wickrcrypto/src/transport_packet.c
@@ -291,11 +291,11 @@ bool wickr_transport_packet_sign(wickr_transport_packet_t *pkt, const wickr_cryp
             return false;
     }
     
-    wickr_transport_packet_mac_type old_mac_type = pkt->meta.mac_type;
+    /* The signature covers everything but the mac itself */
+    wickr_transport_packet_t unsigned_pkt = { .meta = pkt->meta, .body = pkt->body };
+    unsigned_pkt.meta.mac_type = new_mac_type;
     
-    pkt->meta.mac_type = new_mac_type;
-    wickr_buffer_t *data_to_sign = wickr_transport_packet_serialize(pkt);
-    pkt->meta.mac_type = old_mac_type;
+    wickr_buffer_t *data_to_sign = wickr_transport_packet_serialize(&unsigned_pkt);
     
     if (!data_to_sign) {
         return false;
@@ -315,12 +315,24 @@ bool wickr_transport_packet_sign(wickr_transport_packet_t *pkt, const wickr_cryp
         return false;
     }
     
+    wickr_transport_packet_t signed_pkt = unsigned_pkt;
+    signed_pkt.mac = signature_buffer;
+    
+    wickr_buffer_t *network_buffer = wickr_transport_packet_serialize(&signed_pkt);
+    
+    if (!network_buffer) {
+        wickr_buffer_destroy(&signature_buffer);
+        return false;
+    }
+    
+    wickr_buffer_destroy(&pkt->mac);
+    wickr_buffer_destroy(&pkt->network_buffer);
+    
     pkt->mac = signature_buffer;
     pkt->meta.mac_type = new_mac_type;
+    pkt->network_buffer = network_buffer;
     
-    pkt->network_buffer = wickr_transport_packet_serialize(pkt);
-    
-    return pkt->network_buffer != NULL;
+    return true;
 }
 
 bool wickr_transport_packet_verify(const wickr_transport_packet_t *packet, const wickr_crypto_engine_t *engine, wickr_identity_chain_t *identity_chain)
-- 
2.43.0


From 1392c2d602228c609ee8fd1d36d4607e09986003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 21/26] fix: do not start a handshake that forgets the expected
 remote identity when copying it fails

---
 src/wickrcrypto/src/transport_ctx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index e102bf1..037ffaa 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -327,6 +327,12 @@ static wickr_transport_handshake_t *__wickr_transport_ctx_create_handshake(const
     wickr_identity_chain_t *local_copy = wickr_identity_chain_copy(ctx->local_identity);
     wickr_identity_chain_t *remote_copy = wickr_identity_chain_copy(ctx->remote_identity);
     
+    /* A handshake without a remote identity would accept any */
+    if (ctx->remote_identity && !remote_copy) {
+        wickr_identity_chain_destroy(&local_copy);
+        return NULL;
+    }
+    
     wickr_transport_handshake_t *handshake = wickr_transport_handshake_create(ctx->engine,
                                                                               local_copy,
                                                                               remote_copy,
-- 
2.43.0


From 9e601f8f71adc502d4fafc2c37de147b7ed4fb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 22/26] fix: copy a transport without a remote identity, and
 the handshake and error of any transport

---
 src/wickrcrypto/src/transport_ctx.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 037ffaa..2499598 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -7,6 +7,7 @@
 #include "transport_packet.h"
 #include "transport_error.h"
 #include "private/transport_priv.h"
+#include "private/transport_handshake_priv.h"
 #include "private/node_priv.h"
 #include "private/identity_priv.h"
 #include "private/ephemeral_keypair_priv.h"
@@ -76,7 +77,7 @@ wickr_transport_ctx_t *wickr_transport_ctx_copy(const wickr_transport_ctx_t *ctx
     
     wickr_identity_chain_t *remote_copy = wickr_identity_chain_copy(ctx->remote_identity);
     
-    if (!remote_copy) {
+    if (ctx->remote_identity && !remote_copy) {
         wickr_identity_chain_destroy(&local_copy);
         return NULL;
     }
@@ -108,6 +109,22 @@ wickr_transport_ctx_t *wickr_transport_ctx_copy(const wickr_transport_ctx_t *ctx
         return NULL;
     }
     
+    if (ctx->pending_handshake) {
+        copy->pending_handshake = wickr_transport_handshake_copy(ctx->pending_handshake);
+        
+        if (!copy->pending_handshake) {
+            wickr_identity_chain_destroy(&local_copy);
+            wickr_identity_chain_destroy(&remote_copy);
+            wickr_stream_ctx_destroy(&tx_copy);
+            wickr_stream_ctx_destroy(&rx_copy);
+            wickr_free(copy);
+            return NULL;
+        }
+        
+        /* The handshake of the copy reports to the copy */
+        copy->pending_handshake->user = copy;
+    }
+    
     copy->engine = ctx->engine;
     copy->local_identity = local_copy;
     copy->remote_identity = remote_copy;
@@ -117,6 +134,7 @@ wickr_transport_ctx_t *wickr_transport_ctx_copy(const wickr_transport_ctx_t *ctx
     copy->callbacks = ctx->callbacks;
     copy->evo_count = ctx->evo_count;
     copy->user = ctx->user;
+    copy->err = ctx->err;
     
     return copy;
 }
-- 
2.43.0


From 1f6045317a698cade4dab1bf5c958154c6b1d82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 23/26] fix: only advance a stream when a packet was encrypted,
 or authenticated and decrypted

---
 src/wickrcrypto/src/stream_ctx.c | 57 +++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/src/wickrcrypto/src/stream_ctx.c b/src/wickrcrypto/src/stream_ctx.c
index 7baa2eb..f44d862 100644
--- a/src/wickrcrypto/src/stream_ctx.c
+++ b/src/wickrcrypto/src/stream_ctx.c
@@ -23,6 +23,7 @@ wickr_stream_ctx_t *wickr_stream_ctx_create(const wickr_crypto_engine_t engine,
     wickr_stream_ctx_t *stream_cipher = wickr_alloc_zero(sizeof(wickr_stream_ctx_t));
     
     if (!stream_cipher) {
+        wickr_stream_iv_destroy(&iv_factory);
         return NULL;
     }
     
@@ -131,27 +132,24 @@ static wickr_stream_key_t *__wickr_stream_key_create_with_evo_buffer(wickr_strea
     return new_key;
 }
 
-static bool __wickr_stream_ctx_evolove_key_material(wickr_stream_ctx_t *encoder, uint64_t seq_num)
+/* Provides the key for a sequence number without changing the state of the stream */
+static wickr_stream_key_t *__wickr_stream_ctx_evolove_key_material(const wickr_stream_ctx_t *encoder, uint64_t seq_num)
 {
     if (!encoder) {
-        return false;
+        return NULL;
     }
     
     uint64_t curr_evo = encoder->last_seq / encoder->key->packets_per_evolution;
     uint64_t seq_evo = seq_num / encoder->key->packets_per_evolution;
 
     if (seq_evo < curr_evo) {
-        return false;
-    }
-    
-    if (seq_evo == curr_evo) {
-        return true;
+        return NULL;
     }
     
     wickr_stream_key_t *curr_key = wickr_stream_key_copy(encoder->key);
     
     if (!curr_key) {
-        return false;
+        return NULL;
     }
     
     while (curr_evo != seq_evo) {
@@ -162,7 +160,7 @@ static bool __wickr_stream_ctx_evolove_key_material(wickr_stream_ctx_t *encoder,
         
         if (!evo_buffer) {
             wickr_stream_key_destroy(&curr_key);
-            return false;
+            return NULL;
         }
         
         wickr_stream_key_t *new_key = __wickr_stream_key_create_with_evo_buffer(curr_key, evo_buffer);
@@ -170,17 +168,22 @@ static bool __wickr_stream_ctx_evolove_key_material(wickr_stream_ctx_t *encoder,
         wickr_buffer_destroy_zero(&evo_buffer);
 
         if (!new_key) {
-            return false;
+            return NULL;
         }
         
         curr_key = new_key;
         curr_evo++;
     }
     
-    wickr_stream_key_destroy(&encoder->key);
-    encoder->key = curr_key;
-    
-    return true;
+    return curr_key;
+}
+
+/* Moves the stream on to a sequence number that was successfully encrypted or decrypted with 'key' */
+static void __wickr_stream_ctx_advance(wickr_stream_ctx_t *ctx, wickr_stream_key_t *key, uint64_t seq_num)
+{
+    wickr_stream_key_destroy(&ctx->key);
+    ctx->key = key;
+    ctx->last_seq = seq_num;
 }
 
 wickr_cipher_result_t *wickr_stream_ctx_encode(wickr_stream_ctx_t *ctx, const wickr_buffer_t *data, const wickr_buffer_t *aad, uint64_t seq_num)
@@ -195,15 +198,22 @@ wickr_cipher_result_t *wickr_stream_ctx_encode(wickr_stream_ctx_t *ctx, const wi
         return NULL;
     }
     
-    if (!__wickr_stream_ctx_evolove_key_material(ctx, seq_num)) {
+    wickr_stream_key_t *key = __wickr_stream_ctx_evolove_key_material(ctx, seq_num);
+    
+    if (!key) {
         wickr_buffer_destroy(&iv);
         return NULL;
     }
     
-    wickr_cipher_result_t *encrypt_result = ctx->engine.wickr_crypto_engine_cipher_encrypt(data, aad, ctx->key->cipher_key, iv);
+    wickr_cipher_result_t *encrypt_result = ctx->engine.wickr_crypto_engine_cipher_encrypt(data, aad, key->cipher_key, iv);
     wickr_buffer_destroy(&iv);
     
-    ctx->last_seq = seq_num;
+    if (!encrypt_result) {
+        wickr_stream_key_destroy(&key);
+        return NULL;
+    }
+    
+    __wickr_stream_ctx_advance(ctx, key, seq_num);
     
     return encrypt_result;
 }
@@ -214,13 +224,20 @@ wickr_buffer_t *wickr_stream_ctx_decode(wickr_stream_ctx_t *ctx, const wickr_cip
         return NULL;
     }
     
-    if (!__wickr_stream_ctx_evolove_key_material(ctx, seq_num)) {
+    wickr_stream_key_t *key = __wickr_stream_ctx_evolove_key_material(ctx, seq_num);
+    
+    if (!key) {
         return NULL;
     }
     
-    wickr_buffer_t *decrypt_result = ctx->engine.wickr_crypto_engine_cipher_decrypt(data, aad, ctx->key->cipher_key, true);
+    wickr_buffer_t *decrypt_result = ctx->engine.wickr_crypto_engine_cipher_decrypt(data, aad, key->cipher_key, true);
     
-    ctx->last_seq = seq_num;
+    if (!decrypt_result) {
+        wickr_stream_key_destroy(&key);
+        return NULL;
+    }
+    
+    __wickr_stream_ctx_advance(ctx, key, seq_num);
     
     return decrypt_result;
 }
-- 
2.43.0


From 7b072af617430de572999e4f882442b102caba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 24/26] fix: do not repeat the IVs of a stream in a copy of it

---
 src/wickrcrypto/src/stream_ctx.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/stream_ctx.c b/src/wickrcrypto/src/stream_ctx.c
index f44d862..539a8a9 100644
--- a/src/wickrcrypto/src/stream_ctx.c
+++ b/src/wickrcrypto/src/stream_ctx.c
@@ -49,7 +49,12 @@ wickr_stream_ctx_t *wickr_stream_ctx_copy(const wickr_stream_ctx_t *ctx)
         return NULL;
     }
     
-    wickr_stream_iv_t *iv_copy = wickr_stream_iv_copy(ctx->iv_factory);
+    wickr_stream_iv_t *iv_copy = NULL;
+    
+    /* The original and the copy may both go on to encrypt with this key, so they can not share a sequence of IVs */
+    if (ctx->direction == STREAM_DIRECTION_ENCODE) {
+        iv_copy = wickr_stream_iv_create(ctx->engine, ctx->key->cipher_key->cipher);
+    }
     
     if (!iv_copy && ctx->direction == STREAM_DIRECTION_ENCODE) {
         wickr_stream_key_destroy(&key_copy);
-- 
2.43.0


From 665978e797e6217f73f33328b8824117cfd96211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:01 +0000
Subject: [PATCH 25/26] fix: do not index the base64 table with a negative
 character

---
 src/wickrcrypto/src/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/util.c b/src/wickrcrypto/src/util.c
index a76a634..9e01d9c 100644
--- a/src/wickrcrypto/src/util.c
+++ b/src/wickrcrypto/src/util.c
@@ -110,7 +110,7 @@ getDataFromBase64(const wickr_buffer_t * strBase64)
         return NULL;
     
 	// Run through the whole string, converting as we go
-	while ( ((intCurrent = *objPointer++) != '\0') && (intLength-- > 0) ) {
+	while ( ((intCurrent = (unsigned char)*objPointer++) != '\0') && (intLength-- > 0) ) {
 		if (intCurrent == '=') {
 			if (*objPointer != '=' && ((i % 4) == 1)) {// || (intLength > 0)) {
 				// the padding character is invalid at this point -- so this entire string is invalid
-- 
2.43.0


From b4f7e0d480430845785591bf28236e3128613b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 26/26] fix: the copy of a received transport packet could not
 be used in a handshake

---
 src/wickrcrypto/src/transport_packet.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wickrcrypto/src/transport_packet.c b/src/wickrcrypto/src/transport_packet.c
index b9e0a93..b5c5799 100644
--- a/src/wickrcrypto/src/transport_packet.c
+++ b/src/wickrcrypto/src/transport_packet.c
@@ -172,6 +172,12 @@ wickr_transport_packet_t *wickr_transport_packet_copy(const wickr_transport_pack
     }
     
     copy->mac = mac_copy;
+    copy->network_buffer = wickr_buffer_copy(pkt->network_buffer);
+    
+    if (pkt->network_buffer && !copy->network_buffer) {
+        wickr_transport_packet_destroy(&copy);
+        return NULL;
+    }
     
     return copy;
 }
-- 
2.43.0

