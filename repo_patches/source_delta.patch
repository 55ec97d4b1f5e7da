From 3eb443767dfe608582c86daf8c2e54b1aa4fefb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 01/55] fix: release the DH key objects when setting up the
 derivation fails

---
 reference/src/taimpl/src/internal/dh.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/dh.c b/reference/src/taimpl/src/internal/dh.c
index 5342212..66d79ea 100644
--- a/reference/src/taimpl/src/internal/dh.c
+++ b/reference/src/taimpl/src/internal/dh.c
@@ -184,7 +184,7 @@ sa_status dh_compute_shared_secret(
         }
 
         evp_pkey_ctx = EVP_PKEY_CTX_new(evp_pkey, NULL);
-        if (evp_pkey == NULL) {
+        if (evp_pkey_ctx == NULL) {
             ERROR("EVP_PKEY_CTX_new failed");
             break;
         }
@@ -197,7 +197,7 @@ sa_status dh_compute_shared_secret(
 #if OPENSSL_VERSION_NUMBER >= 0x10100000
         if (EVP_PKEY_CTX_set_dh_pad(evp_pkey_ctx, 1) != 1) {
             ERROR("EVP_PKEY_CTX_set_dh_pad failed");
-            return false;
+            break;
         }
 #endif
 
-- 
2.43.0


From 002068afe5800b5530d7da269d98d29c84c69db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 02/55] fix: do not clear the ciphertext of a wrapped key that
 has none

---
 reference/src/taimpl/src/internal/key_store.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/key_store.c b/reference/src/taimpl/src/internal/key_store.c
index 88d2535..23e0f39 100644
--- a/reference/src/taimpl/src/internal/key_store.c
+++ b/reference/src/taimpl/src/internal/key_store.c
@@ -253,8 +253,10 @@ static void wrapped_key_free(void* obj) {
 
     wrapped_key_t* wrapped_key = (wrapped_key_t*) obj;
 
-    memory_memset_unoptimizable(wrapped_key->ciphertext, 0, wrapped_key->cipher_parameters.ciphertext_length);
-    memory_secure_free(wrapped_key->ciphertext);
+    if (wrapped_key->ciphertext != NULL) {
+        memory_memset_unoptimizable(wrapped_key->ciphertext, 0, wrapped_key->cipher_parameters.ciphertext_length);
+        memory_secure_free(wrapped_key->ciphertext);
+    }
 
     memory_memset_unoptimizable(wrapped_key, 0, sizeof(wrapped_key_t));
     memory_secure_free(wrapped_key);
-- 
2.43.0


From 521dfaac59fa920194f129413ed9a4eb0414963b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 03/55] fix: release the slots and objects of an object store
 whose mutex cannot be created

---
 reference/src/taimpl/src/internal/object_store.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reference/src/taimpl/src/internal/object_store.c b/reference/src/taimpl/src/internal/object_store.c
index de6ea30..d9ed51d 100644
--- a/reference/src/taimpl/src/internal/object_store.c
+++ b/reference/src/taimpl/src/internal/object_store.c
@@ -91,15 +91,15 @@ object_store_t* object_store_init(
         store->release_count = 0;
         store->name = name;
 
-        // slots and objects are not owned by the store
-        slots = NULL;
-        objects = NULL;
-
         if (mtx_init(&store->mutex, mtx_recursive) != thrd_success) {
             ERROR("mtx_init failed");
             break;
         }
 
+        // slots and objects are now owned by the store
+        slots = NULL;
+        objects = NULL;
+
         status = true;
     } while (false);
 
-- 
2.43.0


From 040d9865efafeab66e63f973c2e873d355d5d2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 04/55] fix: check the allocation of the unpacked SoC key
 container

---
 reference/src/taimpl/src/internal/soc_key_container.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index 9608297..092cf7a 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -111,6 +111,10 @@ static soc_kc_unpacked_t* unpack_soc_kc(
     soc_kc_unpacked_t* unpacked = NULL;
     do {
         unpacked = soc_kc_unpacked_create();
+        if (unpacked == NULL) {
+            ERROR("soc_kc_unpacked_create failed");
+            break;
+        }
 
         unpacked->in = in;
         unpacked->in_length = in_length;
-- 
2.43.0


From a3c2cee7ffadb9ea1791884403e5a00675827a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 05/55] fix: do not free the key of an OAEP cipher context that
 the cipher store owns

---
 reference/src/taimpl/src/ta_sa_crypto_cipher_init.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c
index 87aed5f..b89080e 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c
@@ -1005,6 +1005,10 @@ sa_status ta_sa_crypto_cipher_init(
                     caller_uuid);
             if (status != SA_STATUS_OK) {
                 ERROR("ta_sa_crypto_cipher_init_rsa_oaep failed");
+                // once the context exists, the stored key is owned by the cipher store
+                if (*context != INVALID_HANDLE)
+                    stored_key = NULL;
+
                 break;
             }
         } else { // cipher_algorithm == SA_CIPHER_ALGORITHM_EC_ELGAMAL
-- 
2.43.0


From 962b7ee13bfcea5e684fc110ac23c14277f52737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 06/55] fix: check the allocations of the Type-J container and
 release its parts once

---
 reference/src/taimpl/src/internal/typej.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/reference/src/taimpl/src/internal/typej.c b/reference/src/taimpl/src/internal/typej.c
index 08792c4..4f40d4e 100644
--- a/reference/src/taimpl/src/internal/typej.c
+++ b/reference/src/taimpl/src/internal/typej.c
@@ -135,6 +135,10 @@ static typej_unpacked_t* unpack_typej(
     typej_unpacked_t* unpacked = NULL;
     do {
         unpacked = typej_unpacked_create();
+        if (unpacked == NULL) {
+            ERROR("typej_unpacked_create failed");
+            break;
+        }
 
         unpacked->in = in;
         unpacked->in_length = in_length;
@@ -176,7 +180,6 @@ static typej_unpacked_t* unpack_typej(
         if (!b64_decode(unpacked->header, &unpacked->header_length, unpacked->header_b64,
                     unpacked->header_b64_length, true)) {
             ERROR("b64_decode failed");
-            memory_secure_free(unpacked->header);
             break;
         }
 
@@ -185,7 +188,6 @@ static typej_unpacked_t* unpack_typej(
         if (!b64_decode(unpacked->payload, &unpacked->payload_length, unpacked->payload_b64,
                     unpacked->payload_b64_length, true)) {
             ERROR("b64_decode failed");
-            memory_secure_free(unpacked->payload);
             break;
         }
 
@@ -193,7 +195,6 @@ static typej_unpacked_t* unpack_typej(
         unpacked->mac = memory_internal_alloc(unpacked->mac_length);
         if (!b64_decode(unpacked->mac, &unpacked->mac_length, unpacked->mac_b64, unpacked->mac_b64_length, true)) {
             ERROR("b64_decode failed");
-            memory_secure_free(unpacked->mac);
             break;
         }
 
@@ -542,7 +543,6 @@ static sa_status unwrap_key_v1(
         content_key = memory_internal_alloc(content_key_size);
         if (!b64_decode(content_key, &content_key_size, content_key_b64, content_key_b64_size, false)) {
             ERROR("Invalid contentKey");
-            memory_secure_free(content_key);
             status = SA_STATUS_INVALID_KEY_FORMAT;
             break;
         }
@@ -655,7 +655,6 @@ static sa_status unwrap_key_v2(
         content_key = memory_internal_alloc(content_key_size);
         if (!b64_decode(content_key, &content_key_size, content_key_b64, content_key_b64_size, false)) {
             ERROR("json_key_value_find failed");
-            memory_secure_free(content_key);
             status = SA_STATUS_INVALID_KEY_FORMAT;
             break;
         }
@@ -699,7 +698,6 @@ static sa_status unwrap_key_v2(
             iv = memory_internal_alloc(iv_size);
             if (!b64_decode(iv, &iv_size, iv_b64, iv_b64_size, false) || iv_size != SYM_128_KEY_SIZE) {
                 ERROR("Invalid contentKeyTransportIv");
-                memory_secure_free(iv);
                 status = SA_STATUS_INVALID_KEY_FORMAT;
                 break;
             }
-- 
2.43.0


From 7eb547e7d5cdcc4f9f8166cef9b357353bb6eb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 07/55] fix: release the unwrapped key buffer when the OAEP
 label is invalid

---
 reference/src/taimpl/src/internal/unwrap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/unwrap.c b/reference/src/taimpl/src/internal/unwrap.c
index ccfdc03..b1b8db0 100644
--- a/reference/src/taimpl/src/internal/unwrap.c
+++ b/reference/src/taimpl/src/internal/unwrap.c
@@ -802,7 +802,8 @@ sa_status unwrap_rsa(
             sa_unwrap_parameters_rsa_oaep* oaep_parameters = (sa_unwrap_parameters_rsa_oaep*) algorithm_parameters;
             if (oaep_parameters->label == NULL && oaep_parameters->label_length != 0) {
                 ERROR("Invalid label_length");
-                return SA_STATUS_INVALID_PARAMETER;
+                status = SA_STATUS_INVALID_PARAMETER;
+                break;
             }
 
             status = rsa_decrypt_oaep(unwrapped_key, &unwrapped_key_length, stored_key_wrapping,
-- 
2.43.0


From c70b4e7c258e9525f63ed5207a86bf258f26ddce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 08/55] fix: check the allocations and the entitled TA
 identifiers of the Type-J rights

---
 reference/src/taimpl/src/internal/typej.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/reference/src/taimpl/src/internal/typej.c b/reference/src/taimpl/src/internal/typej.c
index 4f40d4e..e626832 100644
--- a/reference/src/taimpl/src/internal/typej.c
+++ b/reference/src/taimpl/src/internal/typej.c
@@ -386,6 +386,11 @@ static sa_status fields_to_rights(
 
     size_t rights_count = b64_decoded_length(rights_field_size);
     uint8_t* rights_bytes = memory_internal_alloc(rights_count);
+    if (rights_bytes == NULL) {
+        ERROR("memory_internal_alloc failed");
+        return SA_STATUS_INTERNAL_ERROR;
+    }
+
     if (!b64_decode(rights_bytes, &rights_count, rights_field_string, rights_field_size, false)) {
         ERROR("Invalid contentKeyRights");
         memory_secure_free(rights_bytes);
@@ -473,8 +478,13 @@ static sa_status fields_to_rights(
         // those version. If omitted in a version 3 key container, the all caller UUIDS are allowed.
         memcpy(&rights->allowed_tas[0], &ALL_MATCH, sizeof(sa_uuid));
     } else {
-        size_t entitled_ta_ids_length;
+        size_t entitled_ta_ids_length = 0;
         entitled_ta_ids = json_value_as_array(&entitled_ta_ids_length, entitled_ta_ids_field->value);
+        if (entitled_ta_ids == NULL) {
+            ERROR("json_value_as_array failed");
+            return SA_STATUS_INVALID_KEY_FORMAT;
+        }
+
         if (entitled_ta_ids_length > MAX_NUM_ALLOWED_TA_IDS) {
             memory_internal_free(entitled_ta_ids);
             ERROR("Invalid entitled_ta_ids_length");
@@ -482,15 +492,14 @@ static sa_status fields_to_rights(
         }
 
         for (size_t i = 0; i < entitled_ta_ids_length; i++) {
-            size_t ta_id_length;
+            size_t ta_id_length = 0;
             const char* ta_id = json_value_as_string(&ta_id_length, entitled_ta_ids[i]);
-            if (ta_id_length != UUID_LENGTH) {
+            if (ta_id == NULL || ta_id_length != UUID_LENGTH ||
+                    !convert_uuid(ta_id, ta_id_length, &rights->allowed_tas[i])) {
                 memory_internal_free(entitled_ta_ids);
                 ERROR("Invalid ta_id");
                 return SA_STATUS_INVALID_KEY_FORMAT;
             }
-
-            convert_uuid(ta_id, ta_id_length, &rights->allowed_tas[i]);
         }
 
         memory_internal_free(entitled_ta_ids);
-- 
2.43.0


From dc199c749f18039c74e5e1ef0a752aa7945d8e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 09/55] fix: bound the fields of a SoC key container by the
 buffers they are decoded into

---
 .../taimpl/src/internal/soc_key_container.c   | 72 +++++++++++++------
 1 file changed, 51 insertions(+), 21 deletions(-)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index 092cf7a..c308dd3 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -308,6 +308,30 @@ static sa_status parse_header(
     return SA_STATUS_OK;
 }
 
+static bool b64_decode_exact(
+        uint8_t* out,
+        size_t out_length,
+        const char* in,
+        size_t in_length,
+        bool url_decode) {
+
+    // decoding works on whole groups of 3 bytes, so it may write up to 2 bytes more than the encoded length
+    uint8_t decoded[AES_BLOCK_SIZE + 2];
+    size_t decoded_length = b64_decoded_length(in_length);
+    if (in == NULL || decoded_length > sizeof(decoded) || out_length > sizeof(decoded)) {
+        ERROR("Invalid encoded length");
+        return false;
+    }
+
+    if (!b64_decode(decoded, &decoded_length, in, in_length, url_decode) || decoded_length != out_length) {
+        ERROR("b64_decode failed");
+        return false;
+    }
+
+    memcpy(out, decoded, out_length);
+    return true;
+}
+
 static sa_status parse_payload(
         json_key_value_t* fields,
         size_t fields_count,
@@ -338,12 +362,19 @@ static sa_status parse_payload(
         if (root_key_type_field == NULL) {
             payload->root_key_type = UNDEFINED;
         } else {
-            size_t root_key_type_length;
+            size_t root_key_type_length = 0;
             const char* root_key_type = json_value_as_string(&root_key_type_length,
                     root_key_type_field->value);
-            if (memory_memcmp_constant(root_key_type, UNIQUE_STR, root_key_type_length) == 0) {
+            if (root_key_type == NULL) {
+                ERROR("Invalid rootKeyType");
+                return SA_STATUS_INVALID_KEY_FORMAT;
+            }
+
+            if (root_key_type_length == strlen(UNIQUE_STR) &&
+                    memory_memcmp_constant(root_key_type, UNIQUE_STR, root_key_type_length) == 0) {
                 payload->root_key_type = UNIQUE;
-            } else if (memory_memcmp_constant(root_key_type, COMMON_STR, root_key_type_length) == 0) {
+            } else if (root_key_type_length == strlen(COMMON_STR) &&
+                       memory_memcmp_constant(root_key_type, COMMON_STR, root_key_type_length) == 0) {
                 payload->root_key_type = COMMON;
             } else {
                 ERROR("Invalid rootKeyType");
@@ -374,7 +405,7 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_encrypted_key_length;
+    size_t b64_encrypted_key_length = 0;
     const char* encrypted_key = json_value_as_string(&b64_encrypted_key_length, encrypted_key_field->value);
     payload->encrypted_key_length = b64_decoded_length(b64_encrypted_key_length);
     payload->encrypted_key = memory_internal_alloc(payload->encrypted_key_length);
@@ -397,10 +428,9 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_iv_length;
+    size_t b64_iv_length = 0;
     const char* iv = json_value_as_string(&b64_iv_length, iv_field->value);
-    size_t iv_length = b64_decoded_length(b64_iv_length);
-    if (!b64_decode(payload->iv, &iv_length, iv, b64_iv_length, false) && iv_length != GCM_IV_LENGTH) {
+    if (!b64_decode_exact(payload->iv, GCM_IV_LENGTH, iv, b64_iv_length, false)) {
         ERROR("b64_decode failed");
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
@@ -435,10 +465,16 @@ static sa_status parse_payload(
         payload->entitled_ta_ids_length = 0;
     } else {
         entitled_ta_ids = json_value_as_array(&payload->entitled_ta_ids_length, entitled_ta_ids_field->value);
+        if (entitled_ta_ids == NULL || payload->entitled_ta_ids_length > MAX_NUM_ALLOWED_TA_IDS) {
+            memory_internal_free(entitled_ta_ids);
+            ERROR("Invalid entitled_ta_ids");
+            return SA_STATUS_INVALID_KEY_FORMAT;
+        }
+
         for (size_t i = 0; i < payload->entitled_ta_ids_length; i++) {
-            size_t ta_id_length;
+            size_t ta_id_length = 0;
             const char* ta_id = json_value_as_string(&ta_id_length, entitled_ta_ids[i]);
-            if (ta_id_length != UUID_LENGTH) {
+            if (ta_id == NULL || ta_id_length != UUID_LENGTH) {
                 memory_internal_free(entitled_ta_ids);
                 ERROR("Invalid ta_id");
                 return SA_STATUS_INVALID_KEY_FORMAT;
@@ -457,11 +493,9 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_c1_length;
+    size_t b64_c1_length = 0;
     const char* c1 = json_value_as_string(&b64_c1_length, c1_field->value);
-    size_t c1_length = b64_decoded_length(b64_c1_length);
-    if (!b64_decode(payload->key_ladder_inputs.c1, &c1_length, c1, b64_c1_length, false) &&
-            c1_length != AES_BLOCK_SIZE) {
+    if (!b64_decode_exact(payload->key_ladder_inputs.c1, AES_BLOCK_SIZE, c1, b64_c1_length, false)) {
         ERROR("b64_decode failed");
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
@@ -473,11 +507,9 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_c2_length;
+    size_t b64_c2_length = 0;
     const char* c2 = json_value_as_string(&b64_c2_length, c2_field->value);
-    size_t c2_length = b64_decoded_length(b64_c2_length);
-    if (!b64_decode(payload->key_ladder_inputs.c2, &c2_length, c2, b64_c2_length, true) &&
-            c2_length != AES_BLOCK_SIZE) {
+    if (!b64_decode_exact(payload->key_ladder_inputs.c2, AES_BLOCK_SIZE, c2, b64_c2_length, true)) {
         ERROR("b64_decode failed");
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
@@ -489,11 +521,9 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_c3_length;
+    size_t b64_c3_length = 0;
     const char* c3 = json_value_as_string(&b64_c3_length, c3_field->value);
-    size_t c3_length = b64_decoded_length(b64_c3_length);
-    if (!b64_decode(payload->key_ladder_inputs.c3, &c3_length, c3, b64_c3_length, false) &&
-            c3_length != AES_BLOCK_SIZE) {
+    if (!b64_decode_exact(payload->key_ladder_inputs.c3, AES_BLOCK_SIZE, c3, b64_c3_length, false)) {
         ERROR("b64_decode failed");
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
-- 
2.43.0


From 057ccf4326f8d5c9e5036c72033e969221740371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 10/55] fix: free the encrypted key of an undecodable SoC key
 container once

---
 reference/src/taimpl/src/internal/soc_key_container.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index c308dd3..686b938 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -417,7 +417,6 @@ static sa_status parse_payload(
     if (!b64_decode(payload->encrypted_key, &payload->encrypted_key_length, encrypted_key, b64_encrypted_key_length,
                 false)) {
         ERROR("b64_decode failed");
-        memory_internal_free(payload->encrypted_key);
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-- 
2.43.0


From 08de26f555863519aa896acbbd8d43ae51800e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 11/55] fix: report the failure of a SoC key container with an
 invalid EC key

---
 reference/src/taimpl/src/internal/soc_key_container.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index 686b938..03811de 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -865,6 +865,7 @@ static sa_status decrypt_key_and_verify_mac(
             size_t ec_key_size = ec_validate_private(curve, key, payload->encrypted_key_length);
             if (ec_key_size == 0) {
                 ERROR("Invalid key size");
+                status = SA_STATUS_INVALID_KEY_FORMAT;
                 break;
             }
 
-- 
2.43.0


From 918f159c229584d7e00d2f60d44fa614e9d810c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 12/55] fix: release the cipher context when the type of a
 buffer is invalid

---
 reference/src/taimpl/src/ta_sa_crypto_cipher_process.c      | 6 ++++--
 reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
index d47c986..92f552b 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
@@ -428,12 +428,14 @@ sa_status ta_sa_crypto_cipher_process(
 
         if (out->buffer_type != SA_BUFFER_TYPE_CLEAR && out->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid out buffer type");
-            return SA_STATUS_INVALID_PARAMETER;
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
         }
 
         if (in->buffer_type != SA_BUFFER_TYPE_CLEAR && in->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid in buffer type");
-            return SA_STATUS_INVALID_PARAMETER;
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
         }
 
         sa_cipher_algorithm cipher_algorithm = cipher_get_algorithm(cipher);
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
index 7612d87..dedef13 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
@@ -555,12 +555,14 @@ sa_status ta_sa_crypto_cipher_process_last(
 
         if (out->buffer_type != SA_BUFFER_TYPE_CLEAR && out->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid out buffer type");
-            return SA_STATUS_INVALID_PARAMETER;
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
         }
 
         if (in->buffer_type != SA_BUFFER_TYPE_CLEAR && in->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid in buffer type");
-            return SA_STATUS_INVALID_PARAMETER;
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
         }
 
         sa_cipher_algorithm cipher_algorithm = cipher_get_algorithm(cipher);
-- 
2.43.0


From 121a5509cd1056dd512787640385f6e3b0051feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 13/55] fix: reject memory outside of SVP memory when creating
 or validating an SVP buffer

---
 reference/src/taimpl/src/porting/svp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/porting/svp.c b/reference/src/taimpl/src/porting/svp.c
index 7dfb5c4..b7372eb 100644
--- a/reference/src/taimpl/src/porting/svp.c
+++ b/reference/src/taimpl/src/porting/svp.c
@@ -39,7 +39,7 @@ static bool svp_validate_buffer(const svp_buffer_t* svp_buffer) {
 
     if (!memory_is_valid_svp(svp_buffer->svp_memory, svp_buffer->size)) {
         ERROR("memory range is not within SVP memory");
-        return SA_STATUS_INVALID_PARAMETER;
+        return false;
     }
 
     return true;
@@ -62,7 +62,7 @@ bool svp_create_buffer(
 
     if (!memory_is_valid_svp(svp_memory, size)) {
         ERROR("memory range is not within SVP memory");
-        return SA_STATUS_INVALID_PARAMETER;
+        return false;
     }
 
     *svp_buffer = memory_internal_alloc(sizeof(svp_buffer_t));
-- 
2.43.0


From 45e09fa2865a76c9477593489e9724866e7cd221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 14/55] fix: compare the key type of a SoC key container as a
 whole and bound its length

---
 .../taimpl/src/internal/soc_key_container.c   | 59 +++++++++++--------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index 03811de..2624132 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -32,6 +32,7 @@
 #define AES_128_GCM "A128GCM"
 #define MAX_AAD_SIZE 1300
 #define SOC_CONTAINER_VERSION 4
+#define MAX_KEY_TYPE_LENGTH 16
 #define UNIQUE_STR "unique"
 #define COMMON_STR "common"
 
@@ -393,7 +394,7 @@ static sa_status parse_payload(
     }
 
     payload->key_type_string = json_value_as_string(&payload->key_type_string_length, key_type_field->value);
-    if (payload->key_type_string == NULL) {
+    if (payload->key_type_string == NULL || payload->key_type_string_length > MAX_KEY_TYPE_LENGTH) {
         ERROR("Missing keyType");
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
@@ -530,6 +531,15 @@ static sa_status parse_payload(
     return SA_STATUS_OK;
 }
 
+static bool is_key_type(
+        const char* key_type_string,
+        size_t key_type_string_length,
+        const char* key_type) {
+
+    return key_type_string_length == strlen(key_type) &&
+           memory_memcmp_constant(key_type_string, key_type, key_type_string_length) == 0;
+}
+
 static size_t build_aad(
         uint8_t* aad,
         soc_kc_header_t* header,
@@ -597,12 +607,9 @@ static size_t build_aad(
     }
 
     if (payload->key_usage == KEY_ONLY &&
-            (memory_memcmp_constant(payload->key_type_string, "HMAC-128",
-                     payload->key_type_string_length) == 0 ||
-                    memory_memcmp_constant(payload->key_type_string, "HMAC-160",
-                            payload->key_type_string_length) == 0 ||
-                    memory_memcmp_constant(payload->key_type_string, "HMAC-256",
-                            payload->key_type_string_length) == 0)) {
+            (is_key_type(payload->key_type_string, payload->key_type_string_length, "HMAC-128") ||
+                    is_key_type(payload->key_type_string, payload->key_type_string_length, "HMAC-160") ||
+                    is_key_type(payload->key_type_string, payload->key_type_string_length, "HMAC-256"))) {
         ERROR("Invalid key_usage for HMAC key");
         return 0;
     }
@@ -674,97 +681,97 @@ static bool get_key_type_and_size(
         return false;
     }
 
-    if (memory_memcmp_constant(key_type_string, "AES-128", key_type_string_length) == 0) {
+    if (is_key_type(key_type_string, key_type_string_length, "AES-128")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_128_KEY_SIZE;
         *subtype = AES_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "HMAC-128", key_type_string_length) == 0) {
+    } else if (is_key_type(key_type_string, key_type_string_length, "HMAC-128")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_128_KEY_SIZE;
         *subtype = HMAC_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "AES-256", key_type_string_length) == 0) {
+    } else if (is_key_type(key_type_string, key_type_string_length, "AES-256")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_256_KEY_SIZE;
         *subtype = AES_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "CHACHA20-256", key_type_string_length) == 0) {
+    } else if (is_key_type(key_type_string, key_type_string_length, "CHACHA20-256")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_256_KEY_SIZE;
         *subtype = CHACHA20_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "HMAC-256", key_type_string_length) == 0) {
+    } else if (is_key_type(key_type_string, key_type_string_length, "HMAC-256")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_256_KEY_SIZE;
         *subtype = HMAC_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "HMAC-160", key_type_string_length) == 0) {
+    } else if (is_key_type(key_type_string, key_type_string_length, "HMAC-160")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_160_KEY_SIZE;
         *subtype = HMAC_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "RSA-1024", key_type_string_length) == 0) {
+    } else if (is_key_type(key_type_string, key_type_string_length, "RSA-1024")) {
         *key_type = SA_KEY_TYPE_RSA;
         *key_size = RSA_1024_BYTE_LENGTH;
         *subtype = PRIVATE_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "RSA-2048", key_type_string_length) == 0) {
+    } else if (is_key_type(key_type_string, key_type_string_length, "RSA-2048")) {
         *key_type = SA_KEY_TYPE_RSA;
         *key_size = RSA_2048_BYTE_LENGTH;
         *subtype = PRIVATE_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "RSA-3072", key_type_string_length) == 0) {
+    } else if (is_key_type(key_type_string, key_type_string_length, "RSA-3072")) {
         *key_type = SA_KEY_TYPE_RSA;
         *key_size = RSA_3072_BYTE_LENGTH;
         *subtype = PRIVATE_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "RSA-4096", key_type_string_length) == 0) {
+    } else if (is_key_type(key_type_string, key_type_string_length, "RSA-4096")) {
         *key_type = SA_KEY_TYPE_RSA;
         *key_size = RSA_4096_BYTE_LENGTH;
         *subtype = PRIVATE_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P192", key_type_string_length) == 0) {
+    } else if (is_key_type(key_type_string, key_type_string_length, "ECC-P192")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P192_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P192;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P224", key_type_string_length) == 0) {
+    } else if (is_key_type(key_type_string, key_type_string_length, "ECC-P224")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P224_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P224;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P256", key_type_string_length) == 0) {
+    } else if (is_key_type(key_type_string, key_type_string_length, "ECC-P256")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P256_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P256;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P384", key_type_string_length) == 0) {
+    } else if (is_key_type(key_type_string, key_type_string_length, "ECC-P384")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P384_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P384;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P521", key_type_string_length) == 0) {
+    } else if (is_key_type(key_type_string, key_type_string_length, "ECC-P521")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P521_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P521;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-ED25519", key_type_string_length) == 0) {
+    } else if (is_key_type(key_type_string, key_type_string_length, "ECC-ED25519")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_25519_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_ED25519;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-ED448", key_type_string_length) == 0) {
+    } else if (is_key_type(key_type_string, key_type_string_length, "ECC-ED448")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_ED448_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_ED448;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-X25519", key_type_string_length) == 0) {
+    } else if (is_key_type(key_type_string, key_type_string_length, "ECC-X25519")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_25519_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_X25519;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-X448", key_type_string_length) == 0) {
+    } else if (is_key_type(key_type_string, key_type_string_length, "ECC-X448")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_X448_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
-- 
2.43.0


From 2bc74728f90e4e21abd51e32d31c3f10d1274322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 15/55] fix: report an invalid SoC key container header as a
 failure to build its AAD

---
 reference/src/taimpl/src/internal/soc_key_container.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index 2624132..f567bf9 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -548,17 +548,17 @@ static size_t build_aad(
 
     if (aad == NULL) {
         ERROR("aad NULL");
-        return SA_STATUS_INVALID_KEY_FORMAT;
+        return 0;
     }
 
     if (header == NULL) {
         ERROR("header NULL");
-        return SA_STATUS_INVALID_KEY_FORMAT;
+        return 0;
     }
 
     if (payload == NULL) {
         ERROR("payload NULL");
-        return SA_STATUS_INVALID_KEY_FORMAT;
+        return 0;
     }
 
     // alg
-- 
2.43.0


From 1eb121cb6b29b0ee3810296659eb573afbb91356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 16/55] fix: check the allocations of the JSON array and map
 lists

---
 reference/src/taimpl/src/internal/json.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/reference/src/taimpl/src/internal/json.c b/reference/src/taimpl/src/internal/json.c
index c2a3bac..46dea0e 100644
--- a/reference/src/taimpl/src/internal/json.c
+++ b/reference/src/taimpl/src/internal/json.c
@@ -994,6 +994,11 @@ json_value_t** json_value_as_array(
     size_t size = json_array_size(array_payload);
 
     json_value_t** values_array = memory_internal_alloc(sizeof(json_value_t*) * size);
+    if (values_array == NULL) {
+        ERROR("memory_internal_alloc failed");
+        return NULL;
+    }
+
     for (size_t i = 0; i < size; ++i) {
         array_payload = array_payload->next;
         values_array[i] = array_payload->value;
@@ -1029,6 +1034,11 @@ json_key_value_t* json_value_as_map(
     size_t size = json_map_size(map_payload);
 
     json_key_value_t* map_key_values = memory_internal_alloc(sizeof(json_key_value_t) * size);
+    if (map_key_values == NULL) {
+        ERROR("memory_internal_alloc failed");
+        return NULL;
+    }
+
     for (size_t i = 0; i < size; ++i) {
         map_payload = map_payload->next;
         map_key_values[i].key = map_payload->key;
-- 
2.43.0


From be585fd0673e497867748fedb6cf9a119c59bd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 17/55] fix: release the safe bags of a keystore once when a
 later safe is of an unknown type

---
 reference/src/util/src/pkcs12.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reference/src/util/src/pkcs12.c b/reference/src/util/src/pkcs12.c
index f71d4a1..47a40b3 100644
--- a/reference/src/util/src/pkcs12.c
+++ b/reference/src/util/src/pkcs12.c
@@ -254,6 +254,7 @@ bool load_pkcs12_secret_key(
             }
 
             sk_PKCS12_SAFEBAG_pop_free(pkcs12_safebags, PKCS12_SAFEBAG_free);
+            pkcs12_safebags = NULL;
         }
     } while (false);
 
-- 
2.43.0


From ecc52936e77f4c2c5871e52c24f32fbace75df31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 18/55] fix: bound the secret key of a keystore by the buffer
 it is loaded into

---
 reference/src/taimpl/src/porting/otp.c | 10 ++++++++--
 reference/src/util/src/pkcs12.c        |  8 ++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/porting/otp.c b/reference/src/taimpl/src/porting/otp.c
index 98a283d..22cd4db 100644
--- a/reference/src/taimpl/src/porting/otp.c
+++ b/reference/src/taimpl/src/porting/otp.c
@@ -84,7 +84,8 @@ static bool get_root_key(
         char device_name[MAX_DEVICE_NAME_LENGTH];
         size_t device_name_length = MAX_DEVICE_NAME_LENGTH;
         device_name[0] = '\0';
-        if (load_pkcs12_secret_key(key, &key_length, device_name, &device_name_length) != 1) {
+        size_t loaded_length = sizeof(key);
+        if (load_pkcs12_secret_key(key, &loaded_length, device_name, &device_name_length) != 1) {
             ERROR("load_pkcs12_secret_key failed");
             return false;
         }
@@ -94,6 +95,8 @@ static bool get_root_key(
             ERROR("Invalid device ID in keystore");
             return false;
         }
+
+        key_length = loaded_length;
     }
 
     if (*root_key_length < key_length) {
@@ -126,10 +129,13 @@ static bool get_common_root_key(
         char name[MAX_NAME_SIZE];
         size_t name_length = MAX_NAME_SIZE;
         strcpy(name, COMMON_ROOT_NAME);
-        if (load_pkcs12_secret_key(key, &key_length, name, &name_length) != 1) {
+        size_t loaded_length = sizeof(key);
+        if (load_pkcs12_secret_key(key, &loaded_length, name, &name_length) != 1) {
             ERROR("load_pkcs12_secret_key failed");
             return false;
         }
+
+        key_length = loaded_length;
     }
 
     if (*common_root_key_length < key_length) {
diff --git a/reference/src/util/src/pkcs12.c b/reference/src/util/src/pkcs12.c
index 47a40b3..63a3931 100644
--- a/reference/src/util/src/pkcs12.c
+++ b/reference/src/util/src/pkcs12.c
@@ -161,6 +161,11 @@ static int parse_pkcs12_safe_bag(
                 break;
             }
 
+            if (secret_key_length < 0 || (size_t) secret_key_length > *key_length) {
+                ERROR("Invalid secret key length");
+                break;
+            }
+
             memcpy(key, secret_key, secret_key_length);
             *key_length = secret_key_length;
         } else {
@@ -194,6 +199,7 @@ bool load_pkcs12_secret_key(
     if (password == NULL)
         password = DEFAULT_ROOT_KEYSTORE_PASSWORD;
 
+    size_t in_key_length = *key_length;
     size_t in_name_length = *name_length;
     bool requested_common_root = strncmp(name, COMMON_ROOT_NAME, in_name_length) == 0;
     bool status = false;
@@ -241,6 +247,8 @@ bool load_pkcs12_secret_key(
 
             for (int j = 0; !pkcs12_parse_failed && j < sk_PKCS12_SAFEBAG_num(pkcs12_safebags); j++) {
                 PKCS12_SAFEBAG* pkcs12_safebag = sk_PKCS12_SAFEBAG_value(pkcs12_safebags, j);
+                *key_length = in_key_length;
+                *name_length = in_name_length;
                 if (parse_pkcs12_safe_bag(pkcs12_safebag, password, key, key_length, name, name_length) != 1) {
                     pkcs12_parse_failed = true;
                     ERROR("parse_pkcs12_safe_bag failed");
-- 
2.43.0


From d73bf5b4484a8f2e44bf7c7ca1bff4407a851dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 19/55] fix: do not report a keystore entry that cannot be read
 as loaded

---
 reference/src/util/src/pkcs12.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reference/src/util/src/pkcs12.c b/reference/src/util/src/pkcs12.c
index 63a3931..e3b3c92 100644
--- a/reference/src/util/src/pkcs12.c
+++ b/reference/src/util/src/pkcs12.c
@@ -232,7 +232,7 @@ bool load_pkcs12_secret_key(
 
         bool pkcs12_parse_failed = false;
         STACK_OF(PKCS12_SAFEBAG)* pkcs12_safebags = NULL;
-        for (int i = 0; !pkcs12_parse_failed && i < sk_PKCS7_num(auth_safes); i++) {
+        for (int i = 0; !status && !pkcs12_parse_failed && i < sk_PKCS7_num(auth_safes); i++) {
             PKCS7* pkcs7 = sk_PKCS7_value(auth_safes, i);
             int bag_nid = OBJ_obj2nid(pkcs7->type);
 
@@ -252,9 +252,11 @@ bool load_pkcs12_secret_key(
                 if (parse_pkcs12_safe_bag(pkcs12_safebag, password, key, key_length, name, name_length) != 1) {
                     pkcs12_parse_failed = true;
                     ERROR("parse_pkcs12_safe_bag failed");
+                    break;
                 }
 
-                bool is_common_root = strncmp(COMMON_ROOT_NAME, name, strlen(COMMON_ROOT_NAME)) == 0;
+                bool is_common_root = *name_length >= strlen(COMMON_ROOT_NAME) &&
+                                      strncmp(COMMON_ROOT_NAME, name, strlen(COMMON_ROOT_NAME)) == 0;
                 if (is_common_root == requested_common_root) {
                     status = true;
                     break;
-- 
2.43.0


From ee5303c96fc56ef37abd97cc3259b25fddd2ea07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 20/55] fix: serialise the loading of the root keys

---
 reference/src/taimpl/src/porting/otp.c | 59 ++++++++++++++++++++++++--
 1 file changed, 56 insertions(+), 3 deletions(-)

diff --git a/reference/src/taimpl/src/porting/otp.c b/reference/src/taimpl/src/porting/otp.c
index 22cd4db..9b4a84c 100644
--- a/reference/src/taimpl/src/porting/otp.c
+++ b/reference/src/taimpl/src/porting/otp.c
@@ -27,14 +27,34 @@
 #include <ctype.h>
 #include <openssl/evp.h>
 #include <openssl/x509.h>
+#include <threads.h>
 #if OPENSSL_VERSION_NUMBER < 0x30000000
 #include <memory.h>
 #endif
 
 #define MAX_DEVICE_NAME_LENGTH 16
 
+static once_flag root_key_flag = ONCE_FLAG_INIT;
+static mtx_t root_key_mutex;
+static bool root_key_mutex_created = false;
 static uint64_t device_id;
 
+static void root_key_mutex_create() {
+    root_key_mutex_created = mtx_init(&root_key_mutex, mtx_plain) == thrd_success;
+}
+
+// The root keys and the device ID are loaded once, by whichever thread needs them first.
+static bool root_key_lock() {
+    call_once(&root_key_flag, root_key_mutex_create);
+    return root_key_mutex_created && mtx_lock(&root_key_mutex) == thrd_success;
+}
+
+static void root_key_unlock() {
+    if (mtx_unlock(&root_key_mutex) != thrd_success) {
+        ERROR("mtx_unlock failed");
+    }
+}
+
 static uint64_t convert_str_to_int(
         const char* str,
         size_t str_length) {
@@ -64,7 +84,7 @@ static uint64_t convert_str_to_int(
     return value;
 }
 
-static bool get_root_key(
+static bool load_root_key(
         void* root_key,
         size_t* root_key_length) {
     static size_t key_length = 0;
@@ -109,7 +129,7 @@ static bool get_root_key(
     return true;
 }
 
-static bool get_common_root_key(
+static bool load_common_root_key(
         void* common_root_key,
         size_t* common_root_key_length) {
     static size_t key_length = 0;
@@ -148,6 +168,32 @@ static bool get_common_root_key(
     return true;
 }
 
+static bool get_root_key(
+        void* root_key,
+        size_t* root_key_length) {
+    if (!root_key_lock()) {
+        ERROR("root_key_lock failed");
+        return false;
+    }
+
+    bool status = load_root_key(root_key, root_key_length);
+    root_key_unlock();
+    return status;
+}
+
+static bool get_common_root_key(
+        void* common_root_key,
+        size_t* common_root_key_length) {
+    if (!root_key_lock()) {
+        ERROR("root_key_lock failed");
+        return false;
+    }
+
+    bool status = load_common_root_key(common_root_key, common_root_key_length);
+    root_key_unlock();
+    return status;
+}
+
 static sa_status wrap_aes_cbc(
         void* out,
         const void* in,
@@ -642,10 +688,17 @@ sa_status otp_device_id(uint64_t* id) {
     // If not initialized yet, attempt to set the device id and ignore the result.
     uint8_t root_key[SYM_256_KEY_SIZE];
     size_t root_key_length = SYM_256_KEY_SIZE;
+    if (!root_key_lock()) {
+        ERROR("root_key_lock failed");
+        return SA_STATUS_INTERNAL_ERROR;
+    }
+
     if (device_id == 0)
-        get_root_key(root_key, &root_key_length);
+        load_root_key(root_key, &root_key_length);
 
     *id = device_id;
+    root_key_unlock();
+    memory_memset_unoptimizable(root_key, 0, SYM_256_KEY_SIZE);
     return SA_STATUS_OK;
 }
 
-- 
2.43.0


From 821c18efb420167c6de060db68fcf2b61da79481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 21/55] fix: report NULL inputs of the key ladder as a failure

---
 reference/src/taimpl/src/porting/otp.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reference/src/taimpl/src/porting/otp.c b/reference/src/taimpl/src/porting/otp.c
index 9b4a84c..dc374c8 100644
--- a/reference/src/taimpl/src/porting/otp.c
+++ b/reference/src/taimpl/src/porting/otp.c
@@ -292,22 +292,22 @@ static sa_status otp_hw_key_ladder(
 
     if (derived == NULL) {
         ERROR("NULL derived");
-        return false;
+        return SA_STATUS_NULL_PARAMETER;
     }
 
     if (c1 == NULL) {
         ERROR("NULL c1");
-        return false;
+        return SA_STATUS_NULL_PARAMETER;
     }
 
     if (c2 == NULL) {
         ERROR("NULL c2");
-        return false;
+        return SA_STATUS_NULL_PARAMETER;
     }
 
     if (c3 == NULL) {
         ERROR("NULL c3");
-        return false;
+        return SA_STATUS_NULL_PARAMETER;
     }
 
     sa_status status = SA_STATUS_INTERNAL_ERROR;
-- 
2.43.0


From e6bc177f201e8ad007ac5143ed66254d9a9c2842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 22/55] fix: create the client store without a data race

---
 reference/src/taimpl/src/internal/client_store.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/client_store.c b/reference/src/taimpl/src/internal/client_store.c
index 39a749e..59759c5 100644
--- a/reference/src/taimpl/src/internal/client_store.c
+++ b/reference/src/taimpl/src/internal/client_store.c
@@ -19,6 +19,7 @@
 #include "client_store.h"
 #include "log.h"
 #include "porting/memory.h"
+#include <stdatomic.h>
 #include <stdlib.h>
 #include <threads.h>
 
@@ -30,7 +31,7 @@
 
 static once_flag flag = ONCE_FLAG_INIT;
 static mtx_t mutex;
-static bool global_shutdown = false;
+static atomic_bool global_shutdown = false;
 
 struct client_s {
     key_store_t* key_store;
@@ -180,7 +181,7 @@ static void client_store_global_create() {
 }
 
 client_store_t* client_store_global() {
-    static client_store_t* global = NULL;
+    static client_store_t* _Atomic global = NULL;
 
     if (global != NULL) {
         if (global_shutdown)
-- 
2.43.0


From ab7ce788ccd95f240b86c373723b5fd3af8da9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 23/55] fix: create the session of the client without a data
 race

---
 reference/src/clientimpl/src/internal/client.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/reference/src/clientimpl/src/internal/client.c b/reference/src/clientimpl/src/internal/client.c
index 1c6e8c7..2af23be 100644
--- a/reference/src/clientimpl/src/internal/client.c
+++ b/reference/src/clientimpl/src/internal/client.c
@@ -51,10 +51,6 @@ static void client_create() {
 }
 
 void* client_session() {
-    if (session != NULL) {
-        return session;
-    }
-
     call_once(&mutex_flag, client_mutex_create);
 
     if (mtx_lock(&mutex) != thrd_success) {
@@ -62,6 +58,7 @@ void* client_session() {
         return NULL;
     }
 
+    void* current_session = NULL;
     do {
         // someone may have created a client underneath us
         if (session != NULL) {
@@ -79,9 +76,10 @@ void* client_session() {
         call_once(&shutdown_flag, client_create);
     } while (false);
 
+    current_session = session;
     if (mtx_unlock(&mutex) != thrd_success) {
         ERROR("mtx_unlock failed");
     }
 
-    return session;
+    return current_session;
 }
-- 
2.43.0


From 6c488bf97ba7cae0942ec1a8d2871251d1bcc1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 24/55] fix: set the OpenSSL allocator once

---
 reference/src/taimpl/src/ta_sa_init.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/reference/src/taimpl/src/ta_sa_init.c b/reference/src/taimpl/src/ta_sa_init.c
index 1897023..c88b572 100644
--- a/reference/src/taimpl/src/ta_sa_init.c
+++ b/reference/src/taimpl/src/ta_sa_init.c
@@ -20,16 +20,14 @@
 #include "log.h"
 #include "porting/init.h"
 #include "ta_sa.h"
+#include <threads.h>
 
 sa_status ta_sa_init(
         ta_client* client_slot,
         const sa_uuid* caller_uuid) {
 
-    static bool openssl_allocator_inited = false;
-    if (!openssl_allocator_inited) {
-        openssl_allocator_inited = true;
-        init_openssl_allocator();
-    }
+    static once_flag openssl_allocator_flag = ONCE_FLAG_INIT;
+    call_once(&openssl_allocator_flag, init_openssl_allocator);
 
     if (client_slot == NULL) {
         ERROR("NULL client_slot");
-- 
2.43.0


From 0cfe828c813e180932a64ec2574379cf0e39e0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 25/55] fix: do not unlock the mutex of an object store that
 could not be locked

---
 reference/src/taimpl/src/internal/object_store.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/object_store.c b/reference/src/taimpl/src/internal/object_store.c
index d9ed51d..35c73dd 100644
--- a/reference/src/taimpl/src/internal/object_store.c
+++ b/reference/src/taimpl/src/internal/object_store.c
@@ -190,8 +190,11 @@ static sa_status store_remove(
     do {
         if (mtx_lock(&store->mutex) != thrd_success) {
             ERROR("mtx_lock failed");
-            status = SA_STATUS_INTERNAL_ERROR;
-            break;
+            if (!is_shutting_down) {
+                decrement_release_count(store);
+            }
+
+            return SA_STATUS_INTERNAL_ERROR;
         }
 
         store_object_t* store_object = &store->objects[slot];
-- 
2.43.0


From 749cc8bd1253c3dff431153363462313a704e870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 26/55] fix: release an object that cannot be locked

---
 reference/src/taimpl/src/internal/cipher_store.c | 2 ++
 reference/src/taimpl/src/internal/mac_store.c    | 2 ++
 reference/src/taimpl/src/internal/svp_store.c    | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/reference/src/taimpl/src/internal/cipher_store.c b/reference/src/taimpl/src/internal/cipher_store.c
index bbe2afc..466e962 100644
--- a/reference/src/taimpl/src/internal/cipher_store.c
+++ b/reference/src/taimpl/src/internal/cipher_store.c
@@ -469,6 +469,8 @@ sa_status cipher_store_acquire_exclusive(
 
     if (!cipher_lock(*cipher)) {
         ERROR("cipher_lock failed");
+        object_store_release(store, context, object, caller_uuid);
+        *cipher = NULL;
         return SA_STATUS_INTERNAL_ERROR;
     }
 
diff --git a/reference/src/taimpl/src/internal/mac_store.c b/reference/src/taimpl/src/internal/mac_store.c
index d585403..e3a1612 100644
--- a/reference/src/taimpl/src/internal/mac_store.c
+++ b/reference/src/taimpl/src/internal/mac_store.c
@@ -309,6 +309,8 @@ sa_status mac_store_acquire_exclusive(
 
     if (!mac_lock(*mac)) {
         ERROR("mac_lock failed");
+        object_store_release(store, slot, object, caller_uuid);
+        *mac = NULL;
         return SA_STATUS_INTERNAL_ERROR;
     }
 
diff --git a/reference/src/taimpl/src/internal/svp_store.c b/reference/src/taimpl/src/internal/svp_store.c
index bc04ffe..1481319 100644
--- a/reference/src/taimpl/src/internal/svp_store.c
+++ b/reference/src/taimpl/src/internal/svp_store.c
@@ -288,6 +288,8 @@ sa_status svp_store_acquire_exclusive(
 
     if (!svp_lock(*svp)) {
         ERROR("svp_lock failed");
+        object_store_release(store, svp_buffer, object, caller_uuid);
+        *svp = NULL;
         return SA_STATUS_INTERNAL_ERROR;
     }
 
-- 
2.43.0


From 8e606bebde709738d76ccd1cec93b2d6baf8e84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 27/55] fix: release an SVP buffer that is being released by
 another thread

---
 reference/src/taimpl/src/internal/svp_store.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/svp_store.c b/reference/src/taimpl/src/internal/svp_store.c
index 1481319..cba8011 100644
--- a/reference/src/taimpl/src/internal/svp_store.c
+++ b/reference/src/taimpl/src/internal/svp_store.c
@@ -232,7 +232,8 @@ sa_status svp_store_release(
 
     if (!svp_release_buffer(svp_memory, size, svp->buffer)) {
         ERROR("svp_release_buffer failed");
-        return status;
+        svp_store_release_exclusive(store, svp_buffer, svp, caller_uuid);
+        return SA_STATUS_INVALID_PARAMETER;
     }
 
     svp->buffer = NULL;
-- 
2.43.0


From 956402a31f7d6a0930207fbbbd1da6beb7e69056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 28/55] fix: set the log level without a data race

---
 reference/src/util/src/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/util/src/log.c b/reference/src/util/src/log.c
index 821a187..f58099a 100644
--- a/reference/src/util/src/log.c
+++ b/reference/src/util/src/log.c
@@ -29,7 +29,7 @@ static const char* LOG_LEVEL_STRING[] = {
 #endif
 
 static struct {
-    log_level_e level;
+    _Atomic log_level_e level;
 } global_log = {
         .level = SA_LOG_LEVEL};
 
-- 
2.43.0


From 5f954b19d2e008ec89848ebdbd18631c2b4f90dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:18 +0000
Subject: [PATCH 29/55] fix: common encryption of data that ends inside the
 current block

The number of full blocks underflowed, and with the counter near its rollover (or 0)
the rest of the block was decrypted past the end of the data and of the output buffer.
---
 reference/src/taimpl/src/internal/cenc.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/reference/src/taimpl/src/internal/cenc.c b/reference/src/taimpl/src/internal/cenc.c
index 84af6b3..e00a378 100644
--- a/reference/src/taimpl/src/internal/cenc.c
+++ b/reference/src/taimpl/src/internal/cenc.c
@@ -49,6 +49,19 @@ static sa_status decrypt(
     // Determine if the iv will rollover. If not, decrypt the whole block.
     size_t leading_partial_block_size =
             *enc_byte_count % AES_BLOCK_SIZE == 0 ? 0 : AES_BLOCK_SIZE - *enc_byte_count % AES_BLOCK_SIZE;
+    if (bytes_to_process < leading_partial_block_size) {
+        // The data does not reach the end of the current block, so the counter stays what it is.
+        size_t length = bytes_to_process;
+        sa_status status = symmetric_context_decrypt(symmetric_context, out_bytes, &length, in_bytes, bytes_to_process);
+        if (status != SA_STATUS_OK) {
+            ERROR("symmetric_context_decrypt failed");
+            return status;
+        }
+
+        *enc_byte_count += length;
+        return SA_STATUS_OK;
+    }
+
     size_t number_of_full_blocks = (bytes_to_process - leading_partial_block_size) / AES_BLOCK_SIZE;
     uint64_t* counter_buffer = (uint64_t*) (iv + 8);
     size_t num_blocks_before_rollover = UINT64_MAX - be64toh(*counter_buffer) + 1;
-- 
2.43.0


From 71f0d434f5870fa97a53a1b96af87ffd8678ab21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:18 +0000
Subject: [PATCH 30/55] fix: common encryption dropped the failure to decrypt a
 pattern stripe

The status was overwritten by the next subsample.
---
 reference/src/taimpl/src/internal/cenc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reference/src/taimpl/src/internal/cenc.c b/reference/src/taimpl/src/internal/cenc.c
index e00a378..ed3a3a9 100644
--- a/reference/src/taimpl/src/internal/cenc.c
+++ b/reference/src/taimpl/src/internal/cenc.c
@@ -304,6 +304,9 @@ sa_status cenc_process_sample(
                         }
                     }
 
+                    if (status != SA_STATUS_OK)
+                        break;
+
                     // Copy the clear remainder partial block into the output buffer.
                     if (bytes_left > 0) {
                         memcpy(out_bytes + offset, in_bytes + offset, bytes_left);
-- 
2.43.0


From 7457a309deeba767e308ba4ba8e5a022dd5febcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:18 +0000
Subject: [PATCH 31/55] fix: common encryption checked the cipher only when it
 was first looked up

The cipher is acquired again to process the sample; by then another thread can have
replaced it by one with another mode, algorithm or rights.
---
 reference/src/taimpl/include/internal/cenc.h  | 11 +++++
 reference/src/taimpl/src/internal/cenc.c      | 42 +++++++++++++++++++
 .../src/ta_sa_process_common_encryption.c     | 34 ++-------------
 3 files changed, 56 insertions(+), 31 deletions(-)

diff --git a/reference/src/taimpl/include/internal/cenc.h b/reference/src/taimpl/include/internal/cenc.h
index fe0bf1c..0c6b0dd 100644
--- a/reference/src/taimpl/include/internal/cenc.h
+++ b/reference/src/taimpl/include/internal/cenc.h
@@ -41,6 +41,17 @@ size_t cenc_get_required_length(
         sa_subsample_length* subsample_lengths,
         size_t subsample_count);
 
+/**
+ * Verifies that the cipher may process the sample. Has to be called every time the cipher has been acquired.
+ *
+ * @param[in] sample the structure containing the parameters of the sample.
+ * @param[in] cipher the acquired cipher.
+ * @return the status of the operation.
+ */
+sa_status cenc_verify_cipher(
+        const sa_sample* sample,
+        cipher_t* cipher);
+
 /**
  * Decrypts a sample using the common encryption algorithm specified in ISO/IEC 23001-7 Common encryption in ISO base
  * media file format files specification.
diff --git a/reference/src/taimpl/src/internal/cenc.c b/reference/src/taimpl/src/internal/cenc.c
index ed3a3a9..9fde5f8 100644
--- a/reference/src/taimpl/src/internal/cenc.c
+++ b/reference/src/taimpl/src/internal/cenc.c
@@ -21,6 +21,7 @@
 #include "common.h"
 #include "log.h"
 #include "porting/overflow.h"
+#include "rights.h"
 #include "sa_cenc.h"
 #include "sa_types.h"
 #include "symmetric.h"
@@ -164,6 +165,41 @@ size_t cenc_get_required_length(
     return required_length;
 }
 
+sa_status cenc_verify_cipher(
+        const sa_sample* sample,
+        cipher_t* cipher) {
+
+    sa_cipher_mode cipher_mode = cipher_get_mode(cipher);
+    if (cipher_mode != SA_CIPHER_MODE_DECRYPT) {
+        ERROR("cipher mode not decrypt");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
+    const sa_rights* rights = cipher_get_key_rights(cipher);
+    if (rights == NULL) {
+        ERROR("cipher_get_key_rights failed");
+        return SA_STATUS_INTERNAL_ERROR;
+    }
+
+    if (!rights_allowed_decrypt(rights, SA_KEY_TYPE_SYMMETRIC)) {
+        ERROR("rights_allowed_decrypt failed");
+        return SA_STATUS_OPERATION_NOT_ALLOWED;
+    }
+
+    sa_cipher_algorithm cipher_algorithm = cipher_get_algorithm(cipher);
+    if (cipher_algorithm != SA_CIPHER_ALGORITHM_AES_CTR && cipher_algorithm != SA_CIPHER_ALGORITHM_AES_CBC) {
+        ERROR("Invalid algorithm");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
+    if (sample->out->buffer_type == SA_BUFFER_TYPE_CLEAR && !rights_allowed_clear(rights)) {
+        ERROR("rights_allowed_clear failed");
+        return SA_STATUS_OPERATION_NOT_ALLOWED;
+    }
+
+    return SA_STATUS_OK;
+}
+
 sa_status cenc_process_sample(
         sa_sample* sample,
         client_t* client,
@@ -182,6 +218,12 @@ sa_status cenc_process_sample(
             break;
         }
 
+        status = cenc_verify_cipher(sample, cipher);
+        if (status != SA_STATUS_OK) {
+            ERROR("cenc_verify_cipher failed");
+            break;
+        }
+
         size_t required_length = cenc_get_required_length(sample->subsample_lengths, sample->subsample_count);
         if (required_length == CENC_OVERFLOW) {
             ERROR("cenc_get_required_length integer overflow");
diff --git a/reference/src/taimpl/src/ta_sa_process_common_encryption.c b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
index 449b84f..af02d19 100644
--- a/reference/src/taimpl/src/ta_sa_process_common_encryption.c
+++ b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
@@ -20,7 +20,6 @@
 #include "cenc.h"
 #include "common.h"
 #include "log.h"
-#include "rights.h"
 
 static sa_status verify_sample(
         sa_sample* sample,
@@ -75,26 +74,6 @@ static sa_status verify_sample(
             break;
         }
 
-        sa_cipher_mode cipher_mode = cipher_get_mode(cipher);
-        if (cipher_mode != SA_CIPHER_MODE_DECRYPT) {
-            ERROR("cipher mode not decrypt");
-            status = SA_STATUS_INVALID_PARAMETER;
-            break;
-        }
-
-        const sa_rights* rights = cipher_get_key_rights(cipher);
-        if (rights == NULL) {
-            ERROR("cipher_get_key_rights failed");
-            status = SA_STATUS_INTERNAL_ERROR;
-            break;
-        }
-
-        if (!rights_allowed_decrypt(rights, SA_KEY_TYPE_SYMMETRIC)) {
-            ERROR("rights_allowed_decrypt failed");
-            status = SA_STATUS_OPERATION_NOT_ALLOWED;
-            break;
-        }
-
         if (sample->out->buffer_type != SA_BUFFER_TYPE_CLEAR && sample->out->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid out buffer type");
             status = SA_STATUS_INVALID_PARAMETER;
@@ -107,22 +86,15 @@ static sa_status verify_sample(
             break;
         }
 
-        sa_cipher_algorithm cipher_algorithm = cipher_get_algorithm(cipher);
-        if (cipher_algorithm != SA_CIPHER_ALGORITHM_AES_CTR && cipher_algorithm != SA_CIPHER_ALGORITHM_AES_CBC) {
-            ERROR("Invalid algorithm");
-            status = SA_STATUS_INVALID_PARAMETER;
-            break;
-        }
-
         if (sample->out->buffer_type == SA_BUFFER_TYPE_CLEAR && sample->in->buffer_type != sample->out->buffer_type) {
             ERROR("buffer_type mismatch");
             status = SA_STATUS_INVALID_PARAMETER;
             break;
         }
 
-        if (sample->out->buffer_type == SA_BUFFER_TYPE_CLEAR && !rights_allowed_clear(rights)) {
-            ERROR("rights_allowed_clear failed");
-            status = SA_STATUS_OPERATION_NOT_ALLOWED;
+        status = cenc_verify_cipher(sample, cipher);
+        if (status != SA_STATUS_OK) {
+            ERROR("cenc_verify_cipher failed");
             break;
         }
 
-- 
2.43.0


From d4d7575179a89e4895429185f3381133aa8f4a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:18 +0000
Subject: [PATCH 32/55] fix: output rights of keys unwrapped with an
 unwrap-only key

A child key must not have output protection flags its parent does not have (sa_types.h),
but where the usage of the child was limited by child_usage_flags they were left as asked for.
---
 reference/src/taimpl/src/internal/stored_key.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/reference/src/taimpl/src/internal/stored_key.c b/reference/src/taimpl/src/internal/stored_key.c
index bb47d1c..665cb4f 100644
--- a/reference/src/taimpl/src/internal/stored_key.c
+++ b/reference/src/taimpl/src/internal/stored_key.c
@@ -42,13 +42,12 @@ static void restrict_child_rights(sa_rights* rights, const sa_rights* rootrights
         return;
     }
 
-    if ((rootrights->usage_flags & KEY_ONLY_MASK) || (rootrights->child_usage_flags == 0)) {
-        uint64_t disallowed = ~rootrights->usage_flags & SA_USAGE_OUTPUT_PROTECTIONS_MASK;
-        rights->usage_flags &= ~disallowed;
-    } else {
-        uint64_t disallowed = ~rootrights->child_usage_flags & SA_KEY_USAGE_MASK;
-        rights->usage_flags &= ~disallowed;
+    uint64_t disallowed = ~rootrights->usage_flags & SA_USAGE_OUTPUT_PROTECTIONS_MASK;
+    if (!(rootrights->usage_flags & KEY_ONLY_MASK) && (rootrights->child_usage_flags != 0)) {
+        disallowed |= ~rootrights->child_usage_flags & SA_KEY_USAGE_MASK;
     }
+
+    rights->usage_flags &= ~disallowed;
 }
 
 const void* stored_key_get_key(const stored_key_t* stored_key) {
-- 
2.43.0


From ba96c280eead0a70e576e0923205cc8f42474c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:03 +0000
Subject: [PATCH 33/55] fix: rsa_sign_pss reported success when it could not
 sign

The status started as SA_STATUS_OK, so every failure up to the end of the signature was lost.
---
 reference/src/taimpl/src/internal/rsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/rsa.c b/reference/src/taimpl/src/internal/rsa.c
index 010b53e..c161209 100644
--- a/reference/src/taimpl/src/internal/rsa.c
+++ b/reference/src/taimpl/src/internal/rsa.c
@@ -467,7 +467,7 @@ sa_status rsa_sign_pss(
         return SA_STATUS_NULL_PARAMETER;
     }
 
-    sa_status status = SA_STATUS_OK;
+    sa_status status = SA_STATUS_INTERNAL_ERROR;
     EVP_MD_CTX* evp_md_ctx = NULL;
     EVP_PKEY* evp_pkey = NULL;
     EVP_PKEY_CTX* evp_pkey_ctx = NULL;
-- 
2.43.0


From d5b64ea7fe64d93ace725ef8966c7e0c6d4476ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:03 +0000
Subject: [PATCH 34/55] fix: rand_bytes took the error result -1 of RAND_bytes
 for success

---
 reference/src/taimpl/src/porting/rand.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/porting/rand.c b/reference/src/taimpl/src/porting/rand.c
index 7951669..3afb75d 100644
--- a/reference/src/taimpl/src/porting/rand.c
+++ b/reference/src/taimpl/src/porting/rand.c
@@ -26,7 +26,7 @@ bool rand_bytes(void* out, size_t out_length) {
         return false;
     }
 
-    if (!RAND_bytes(out, (int) out_length)) {
+    if (RAND_bytes(out, (int) out_length) != 1) {
         ERROR("RAND_bytes failed");
         return false;
     }
-- 
2.43.0


From a51c2736260ed9fffbc63ef104a5ca94cf8c3d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:03 +0000
Subject: [PATCH 35/55] fix: kdf_netflix_shared_secret kept the status of the
 digest when there is no shared secret

---
 reference/src/taimpl/src/internal/netflix.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reference/src/taimpl/src/internal/netflix.c b/reference/src/taimpl/src/internal/netflix.c
index c0d2994..9a06cbf 100644
--- a/reference/src/taimpl/src/internal/netflix.c
+++ b/reference/src/taimpl/src/internal/netflix.c
@@ -249,12 +249,14 @@ sa_status kdf_netflix_shared_secret(
         const void* shared_secret = stored_key_get_key(stored_key_shared_secret);
         if (shared_secret == NULL) {
             ERROR("stored_key_get_key failed");
+            status = SA_STATUS_INTERNAL_ERROR;
             break;
         }
 
         size_t shared_secret_length = stored_key_get_length(stored_key_shared_secret);
         if (shared_secret_length == 0) {
             ERROR("stored_key_get_length failed");
+            status = SA_STATUS_INTERNAL_ERROR;
             break;
         }
 
-- 
2.43.0


From 4ea05be4303690794a05da29f4bd99f2f84e76ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:03 +0000
Subject: [PATCH 36/55] fix: ec_generate_key used a context without checking
 that it was created

---
 reference/src/taimpl/src/internal/ec.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reference/src/taimpl/src/internal/ec.c b/reference/src/taimpl/src/internal/ec.c
index 16b2d19..2b6d879 100644
--- a/reference/src/taimpl/src/internal/ec.c
+++ b/reference/src/taimpl/src/internal/ec.c
@@ -1046,6 +1046,10 @@ sa_status ec_generate_key(
             }
         } else {
             evp_pkey_ctx = EVP_PKEY_CTX_new_id(type, NULL);
+            if (evp_pkey_ctx == NULL) {
+                ERROR("EVP_PKEY_CTX_new_id failed");
+                break;
+            }
         }
 
         if (EVP_PKEY_keygen_init(evp_pkey_ctx) != 1) {
-- 
2.43.0


From 13a30d99a04db56eefe29084c9ed90ae0b280833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:23 +0000
Subject: [PATCH 37/55] fix: PKCS12 parser used the octet string of a secret
 bag without checking it

---
 reference/src/util/src/pkcs12.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/reference/src/util/src/pkcs12.c b/reference/src/util/src/pkcs12.c
index e3b3c92..a62a772 100644
--- a/reference/src/util/src/pkcs12.c
+++ b/reference/src/util/src/pkcs12.c
@@ -139,8 +139,22 @@ static int parse_pkcs12_safe_bag(
 
             const unsigned char* p_data = secret_bag_data + offset;
             octet_string = ASN1_OCTET_STRING_new();
-            ASN1_OCTET_STRING_set(octet_string, p_data, secret_data_length);
+            if (octet_string == NULL) {
+                ERROR("NULL octet_string");
+                break;
+            }
+
+            if (ASN1_OCTET_STRING_set(octet_string, p_data, secret_data_length) != 1) {
+                ERROR("ASN1_OCTET_STRING_set failed");
+                break;
+            }
+
             x509_sig = ASN1_item_unpack(octet_string, ASN1_ITEM_rptr(X509_SIG));
+            if (x509_sig == NULL) {
+                ERROR("NULL x509_sig");
+                break;
+            }
+
             priv_key_info = PKCS8_decrypt(x509_sig, password, -1);
             if (priv_key_info == NULL) {
                 ERROR("NULL priv_key_info");
-- 
2.43.0


From 097fe454db6e32a335a645fcba73355cd3812170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:23 +0000
Subject: [PATCH 38/55] fix: PKCS12 parser skipped safe bags it could not
 unpack

---
 reference/src/util/src/pkcs12.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reference/src/util/src/pkcs12.c b/reference/src/util/src/pkcs12.c
index a62a772..639e402 100644
--- a/reference/src/util/src/pkcs12.c
+++ b/reference/src/util/src/pkcs12.c
@@ -259,6 +259,11 @@ bool load_pkcs12_secret_key(
                 pkcs12_parse_failed = true;
             }
 
+            if (!pkcs12_parse_failed && pkcs12_safebags == NULL) {
+                ERROR("NULL pkcs12_safebags");
+                pkcs12_parse_failed = true;
+            }
+
             for (int j = 0; !pkcs12_parse_failed && j < sk_PKCS12_SAFEBAG_num(pkcs12_safebags); j++) {
                 PKCS12_SAFEBAG* pkcs12_safebag = sk_PKCS12_SAFEBAG_value(pkcs12_safebags, j);
                 *key_length = in_key_length;
-- 
2.43.0


From 709c0fe6ad09415c801523b745459558c2c876a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 39/55] fix: ec_decrypt_elgamal went on with a curve it had
 rejected

---
 reference/src/taimpl/src/internal/ec.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reference/src/taimpl/src/internal/ec.c b/reference/src/taimpl/src/internal/ec.c
index 2b6d879..65ef69d 100644
--- a/reference/src/taimpl/src/internal/ec.c
+++ b/reference/src/taimpl/src/internal/ec.c
@@ -467,6 +467,7 @@ sa_status ec_decrypt_elgamal(
         if (!is_pcurve(header->type_parameters.curve)) {
             ERROR("ED & X curves cannot be used for El Gamal");
             status = SA_STATUS_OPERATION_NOT_ALLOWED;
+            break;
         }
 
         evp_pkey = evp_pkey_from_pkcs8(ec_get_type(header->type_parameters.curve), key, key_length);
-- 
2.43.0


From eb7a6e2f246b7e9d539839fcb58170d11e6048ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 40/55] fix: Two operations that use the same two SVP buffers
 in opposite roles waited for each other for ever

---
 .../src/taimpl/include/internal/buffer.h      | 28 +++++++++++++++
 reference/src/taimpl/src/internal/buffer.c    | 34 +++++++++++++++++++
 reference/src/taimpl/src/internal/cenc.c      |  9 ++---
 .../taimpl/src/ta_sa_crypto_cipher_process.c  |  9 ++---
 .../src/ta_sa_crypto_cipher_process_last.c    |  9 ++---
 .../src/ta_sa_process_common_encryption.c     | 10 ++----
 .../src/taimpl/src/ta_sa_svp_buffer_copy.c    |  6 ++--
 7 files changed, 74 insertions(+), 31 deletions(-)

diff --git a/reference/src/taimpl/include/internal/buffer.h b/reference/src/taimpl/include/internal/buffer.h
index f1239fd..43270a1 100644
--- a/reference/src/taimpl/include/internal/buffer.h
+++ b/reference/src/taimpl/include/internal/buffer.h
@@ -52,6 +52,34 @@ sa_status convert_buffer(
         const client_t* client,
         const sa_uuid* caller_uuid);
 
+/**
+ * Converts the output and the input buffer of an operation. When both are SVP buffers, they are locked in the order of their handles, so that
+ * operations that use the same buffers in opposite roles do not wait for each other.
+ *
+ * @param[out] out_bytes the array of output bytes.
+ * @param[out] out_svp the SVP object of the output buffer.
+ * @param[in] out the output buffer to convert.
+ * @param[in] out_length the number of bytes that will be written.
+ * @param[out] in_bytes the array of input bytes.
+ * @param[out] in_svp the SVP object of the input buffer.
+ * @param[in] in the input buffer to convert.
+ * @param[in] in_length the number of bytes that will be read.
+ * @param[in] client the client from which to retrieve the SVP store.
+ * @param[in] caller_uuid the UUID of the caller.
+ * @return the status of the validity check.
+ */
+sa_status convert_buffers(
+        uint8_t** out_bytes,
+        svp_t** out_svp,
+        const sa_buffer* out,
+        size_t out_length,
+        uint8_t** in_bytes,
+        svp_t** in_svp,
+        const sa_buffer* in,
+        size_t in_length,
+        const client_t* client,
+        const sa_uuid* caller_uuid);
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/reference/src/taimpl/src/internal/buffer.c b/reference/src/taimpl/src/internal/buffer.c
index 159f755..0b41c1f 100644
--- a/reference/src/taimpl/src/internal/buffer.c
+++ b/reference/src/taimpl/src/internal/buffer.c
@@ -119,3 +119,37 @@ sa_status convert_buffer(
 
     return SA_STATUS_OK;
 }
+
+sa_status convert_buffers(
+        uint8_t** out_bytes,
+        svp_t** out_svp,
+        const sa_buffer* out,
+        size_t out_length,
+        uint8_t** in_bytes,
+        svp_t** in_svp,
+        const sa_buffer* in,
+        size_t in_length,
+        const client_t* client,
+        const sa_uuid* caller_uuid) {
+
+    if (out == NULL || in == NULL) {
+        ERROR("NULL buffer");
+        return SA_STATUS_NULL_PARAMETER;
+    }
+
+    // Lock the SVP buffer with the lower handle first.
+    if (out->buffer_type == SA_BUFFER_TYPE_SVP && in->buffer_type == SA_BUFFER_TYPE_SVP &&
+            in->context.svp.buffer < out->context.svp.buffer) {
+        sa_status status = convert_buffer(in_bytes, in_svp, in, in_length, client, caller_uuid);
+        if (status != SA_STATUS_OK)
+            return status;
+
+        return convert_buffer(out_bytes, out_svp, out, out_length, client, caller_uuid);
+    }
+
+    sa_status status = convert_buffer(out_bytes, out_svp, out, out_length, client, caller_uuid);
+    if (status != SA_STATUS_OK)
+        return status;
+
+    return convert_buffer(in_bytes, in_svp, in, in_length, client, caller_uuid);
+}
diff --git a/reference/src/taimpl/src/internal/cenc.c b/reference/src/taimpl/src/internal/cenc.c
index 9fde5f8..6972f32 100644
--- a/reference/src/taimpl/src/internal/cenc.c
+++ b/reference/src/taimpl/src/internal/cenc.c
@@ -232,14 +232,9 @@ sa_status cenc_process_sample(
         }
 
         uint8_t* out_bytes = NULL;
-        status = convert_buffer(&out_bytes, &out_svp, sample->out, required_length, client, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
-            break;
-        }
-
         uint8_t* in_bytes = NULL;
-        status = convert_buffer(&in_bytes, &in_svp, sample->in, required_length, client, caller_uuid);
+        status = convert_buffers(&out_bytes, &out_svp, sample->out, required_length, &in_bytes, &in_svp, sample->in,
+                required_length, client, caller_uuid);
         if (status != SA_STATUS_OK) {
             ERROR("convert_buffer failed");
             break;
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
index 92f552b..195c2b8 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
@@ -470,14 +470,9 @@ sa_status ta_sa_crypto_cipher_process(
         }
 
         uint8_t* out_bytes = NULL;
-        status = convert_buffer(&out_bytes, &out_svp, out, required_length, client, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
-            break;
-        }
-
         uint8_t* in_bytes = NULL;
-        status = convert_buffer(&in_bytes, &in_svp, in, *bytes_to_process, client, caller_uuid);
+        status = convert_buffers(&out_bytes, &out_svp, out, required_length, &in_bytes, &in_svp, in,
+                *bytes_to_process, client, caller_uuid);
         if (status != SA_STATUS_OK) {
             ERROR("convert_buffer failed");
             break;
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
index dedef13..0e7ac1f 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
@@ -596,14 +596,9 @@ sa_status ta_sa_crypto_cipher_process_last(
         }
 
         uint8_t* out_bytes = NULL;
-        status = convert_buffer(&out_bytes, &out_svp, out, required_length, client, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
-            break;
-        }
-
         uint8_t* in_bytes = NULL;
-        status = convert_buffer(&in_bytes, &in_svp, in, *bytes_to_process, client, caller_uuid);
+        status = convert_buffers(&out_bytes, &out_svp, out, required_length, &in_bytes, &in_svp, in,
+                *bytes_to_process, client, caller_uuid);
         if (status != SA_STATUS_OK) {
             ERROR("convert_buffer failed");
             break;
diff --git a/reference/src/taimpl/src/ta_sa_process_common_encryption.c b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
index af02d19..0aafc6a 100644
--- a/reference/src/taimpl/src/ta_sa_process_common_encryption.c
+++ b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
@@ -107,15 +107,9 @@ static sa_status verify_sample(
         }
 
         uint8_t* out_bytes = NULL;
-        status = convert_buffer(&out_bytes, &out_svp, sample->out, required_length, client, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
-            break;
-        }
-
-        // Check in buffer length.
         uint8_t* in_bytes = NULL;
-        status = convert_buffer(&in_bytes, &in_svp, sample->in, required_length, client, caller_uuid);
+        status = convert_buffers(&out_bytes, &out_svp, sample->out, required_length, &in_bytes, &in_svp, sample->in,
+                required_length, client, caller_uuid);
         if (status != SA_STATUS_OK) {
             ERROR("convert_buffer failed");
             break;
diff --git a/reference/src/taimpl/src/ta_sa_svp_buffer_copy.c b/reference/src/taimpl/src/ta_sa_svp_buffer_copy.c
index 9009171..e6c1c8e 100644
--- a/reference/src/taimpl/src/ta_sa_svp_buffer_copy.c
+++ b/reference/src/taimpl/src/ta_sa_svp_buffer_copy.c
@@ -52,13 +52,15 @@ sa_status ta_sa_svp_buffer_copy(
         }
 
         svp_store = client_get_svp_store(client);
-        status = svp_store_acquire_exclusive(&out_svp, svp_store, out, caller_uuid);
+        // Lock the SVP buffer with the lower handle first, so that copies in opposite directions do not wait for each other.
+        bool in_first = in < out;
+        status = svp_store_acquire_exclusive(in_first ? &in_svp : &out_svp, svp_store, in_first ? in : out, caller_uuid);
         if (status != SA_STATUS_OK) {
             ERROR("svp_store_acquire_exclusive failed");
             break;
         }
 
-        status = svp_store_acquire_exclusive(&in_svp, svp_store, in, caller_uuid);
+        status = svp_store_acquire_exclusive(in_first ? &out_svp : &in_svp, svp_store, in_first ? out : in, caller_uuid);
         if (status != SA_STATUS_OK) {
             ERROR("svp_store_acquire_exclusive failed");
             break;
-- 
2.43.0


From 73d15f51034bcf24de86448009b08a39dc606c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 41/55] fix: sa_provider_load kept its mutex locked when the
 provider could not be loaded

---
 reference/src/client/src/sa_provider.c | 46 ++++++++++++++------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/reference/src/client/src/sa_provider.c b/reference/src/client/src/sa_provider.c
index 026eec8..259eead 100644
--- a/reference/src/client/src/sa_provider.c
+++ b/reference/src/client/src/sa_provider.c
@@ -241,32 +241,34 @@ static void sa_provider_load() {
         return;
     }
 
-    lib_ctx = OSSL_LIB_CTX_new();
-    if (lib_ctx == NULL) {
-        ERROR("OSSL_LIB_CTX_new failed");
-        return;
-    }
+    do {
+        lib_ctx = OSSL_LIB_CTX_new();
+        if (lib_ctx == NULL) {
+            ERROR("OSSL_LIB_CTX_new failed");
+            break;
+        }
 
-    if (OSSL_PROVIDER_add_builtin(lib_ctx, SA_PROVIDER_ID, sa_provider_init) != 1) {
-        ERROR("OSSL_PROVIDER_add_builtin failed");
-        return;
-    }
+        if (OSSL_PROVIDER_add_builtin(lib_ctx, SA_PROVIDER_ID, sa_provider_init) != 1) {
+            ERROR("OSSL_PROVIDER_add_builtin failed");
+            break;
+        }
 
-    base_provider = OSSL_PROVIDER_load(lib_ctx, "base");
-    if (base_provider == NULL) {
-        ERROR("OSSL_PROVIDER_load failed");
-        return;
-    }
+        base_provider = OSSL_PROVIDER_load(lib_ctx, "base");
+        if (base_provider == NULL) {
+            ERROR("OSSL_PROVIDER_load failed");
+            break;
+        }
 
-    sa_provider = OSSL_PROVIDER_load(lib_ctx, SA_PROVIDER_ID);
-    if (sa_provider == NULL) {
-        ERROR("OSSL_PROVIDER_load failed");
-        return;
-    }
+        sa_provider = OSSL_PROVIDER_load(lib_ctx, SA_PROVIDER_ID);
+        if (sa_provider == NULL) {
+            ERROR("OSSL_PROVIDER_load failed");
+            break;
+        }
 
-    if (atexit(sa_provider_shutdown) != 0) {
-        ERROR("atexit failed");
-    }
+        if (atexit(sa_provider_shutdown) != 0) {
+            ERROR("atexit failed");
+        }
+    } while (false);
 
     mtx_unlock(&mutex);
 }
-- 
2.43.0


From 75ebbb13393bdfb9305ff25660e0c97e759b70ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:23 +0000
Subject: [PATCH 42/55] fix: hmac and hmac_internal returned SA_STATUS_OK for a
 null length, stored key or key without computing anything

---
 reference/src/taimpl/src/internal/hmac_context.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reference/src/taimpl/src/internal/hmac_context.c b/reference/src/taimpl/src/internal/hmac_context.c
index 350da74..54b7c11 100644
--- a/reference/src/taimpl/src/internal/hmac_context.c
+++ b/reference/src/taimpl/src/internal/hmac_context.c
@@ -321,7 +321,7 @@ sa_status hmac_internal(
 
     if (mac_length == NULL) {
         ERROR("NULL mac_length");
-        return false;
+        return SA_STATUS_NULL_PARAMETER;
     }
 
     size_t hash_length = digest_length(digest_algorithm);
@@ -480,13 +480,13 @@ sa_status hmac(
 
     if (stored_key == NULL) {
         ERROR("NULL stored_key");
-        return false;
+        return SA_STATUS_NULL_PARAMETER;
     }
 
     const void* key = stored_key_get_key(stored_key);
     if (key == NULL) {
         ERROR("stored_key_get_key failed");
-        return false;
+        return SA_STATUS_INTERNAL_ERROR;
     }
 
     size_t key_length = stored_key_get_length(stored_key);
-- 
2.43.0


From 976becf5ca7745840e25a21b7e89235ea8a8e758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:23 +0000
Subject: [PATCH 43/55] fix: ec_validate_private returned a status as a key
 size for a null key

---
 reference/src/taimpl/src/internal/ec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/ec.c b/reference/src/taimpl/src/internal/ec.c
index 65ef69d..cfa1efb 100644
--- a/reference/src/taimpl/src/internal/ec.c
+++ b/reference/src/taimpl/src/internal/ec.c
@@ -264,7 +264,7 @@ size_t ec_validate_private(
 
     if (private == NULL) {
         ERROR("NULL private");
-        return SA_STATUS_NULL_PARAMETER;
+        return 0;
     }
 
     size_t result = 0;
-- 
2.43.0


From 09221da5b224b249bea716abf93055e7d96b7d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:23 +0000
Subject: [PATCH 44/55] fix: A SoC key container with a shortened
 authentication tag was accepted

---
 reference/src/taimpl/src/internal/soc_key_container.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index f567bf9..2710832 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -36,6 +36,8 @@
 #define UNIQUE_STR "unique"
 #define COMMON_STR "common"
 
+#define GCM_TAG_LENGTH 16
+
 typedef struct {
     const void* in;
     size_t in_length;
@@ -190,6 +192,12 @@ static soc_kc_unpacked_t* unpack_soc_kc(
             break;
         }
 
+        // the container decides neither what is authenticated nor how strongly
+        if (unpacked->mac_length != GCM_TAG_LENGTH) {
+            ERROR("Invalid mac_length");
+            break;
+        }
+
         status = true;
     } while (false);
 
-- 
2.43.0


From 73ea312b3bd33689d03d405fab0caa0aa6f044f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:23 +0000
Subject: [PATCH 45/55] fix: A SoC key container with an invalid entitled TA id
 was accepted

---
 reference/src/taimpl/src/internal/soc_key_container.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index 2710832..14999dd 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -278,8 +278,11 @@ static sa_status fields_to_rights(
         memcpy(&rights->allowed_tas[0], &ALL_MATCH, sizeof(sa_uuid));
     } else {
         for (size_t i = 0; i < payload->entitled_ta_ids_length; i++) {
-            convert_uuid(payload->entitled_ta_ids[i].ta_id, sizeof(payload->entitled_ta_ids[i].ta_id),
-                    &rights->allowed_tas[i]);
+            if (!convert_uuid(payload->entitled_ta_ids[i].ta_id, sizeof(payload->entitled_ta_ids[i].ta_id),
+                        &rights->allowed_tas[i])) {
+                ERROR("Invalid entitled_ta_ids");
+                return SA_STATUS_INVALID_KEY_FORMAT;
+            }
         }
     }
 
-- 
2.43.0


From d0eb6e4d91f0ea0d9d6fc4742cf5e7338ecc6f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:23 +0000
Subject: [PATCH 46/55] fix: ec_decrypt_elgamal left the decrypted point, the
 private key and the shared secret in freed memory

---
 reference/src/taimpl/src/internal/ec.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ec.c b/reference/src/taimpl/src/internal/ec.c
index cfa1efb..cdb478f 100644
--- a/reference/src/taimpl/src/internal/ec.c
+++ b/reference/src/taimpl/src/internal/ec.c
@@ -209,11 +209,13 @@ static size_t export_point(
     if (EC_POINT_point2oct(ec_group, ec_point, POINT_CONVERSION_UNCOMPRESSED, buffer, point_length + 1,
                 NULL) != point_length + 1) {
         ERROR("EC_POINT_point2oct failed");
+        memory_memset_unoptimizable(buffer, 0, point_length + 1);
         return 0;
     }
 
     if (buffer[0] != POINT_CONVERSION_UNCOMPRESSED) {
         ERROR("EC_POINT_point2oct failed");
+        memory_memset_unoptimizable(buffer, 0, point_length + 1);
         return 0;
     }
 
@@ -221,10 +223,12 @@ static size_t export_point(
     *out = memory_secure_alloc(out_length);
     if (*out == NULL) {
         ERROR("memory_secure_alloc failed");
+        memory_memset_unoptimizable(buffer, 0, point_length + 1);
         return 0;
     }
 
     memcpy(*out, &buffer[1], out_length);
+    memory_memset_unoptimizable(buffer, 0, point_length + 1);
     return out_length;
 }
 
@@ -445,6 +449,7 @@ sa_status ec_decrypt_elgamal(
     EVP_PKEY* evp_pkey = NULL;
     EC_GROUP* ec_group = NULL;
     uint8_t* buffer = NULL;
+    size_t buffer_length = 0;
     EC_POINT* c1 = NULL;
     EC_POINT* c2 = NULL;
     EC_POINT* shared_secret = NULL;
@@ -547,7 +552,7 @@ sa_status ec_decrypt_elgamal(
 
         int result = EC_POINT_mul(ec_group, shared_secret, NULL, c1, private_key, NULL);
 #if OPENSSL_VERSION_NUMBER >= 0x30000000
-        BN_free(private_key);
+        BN_clear_free(private_key);
 #endif
         if (result == 0) {
             ERROR("EC_POINT_mul failed");
@@ -571,7 +576,8 @@ sa_status ec_decrypt_elgamal(
             break;
         }
 
-        if (export_point(&buffer, ec_group, message_point) != point_length) {
+        buffer_length = export_point(&buffer, ec_group, message_point);
+        if (buffer_length != point_length) {
             ERROR("export_point failed");
             break;
         }
@@ -582,15 +588,17 @@ sa_status ec_decrypt_elgamal(
         status = SA_STATUS_OK;
     } while (false);
 
-    if (buffer != NULL)
+    if (buffer != NULL) {
+        memory_memset_unoptimizable(buffer, 0, buffer_length);
         memory_secure_free(buffer);
+    }
 
     EVP_PKEY_free(evp_pkey);
     EC_GROUP_free(ec_group);
     EC_POINT_free(c1);
     EC_POINT_free(c2);
-    EC_POINT_free(shared_secret);
-    EC_POINT_free(message_point);
+    EC_POINT_clear_free(shared_secret);
+    EC_POINT_clear_free(message_point);
     BN_free(message_point_x);
 
     return status;
-- 
2.43.0


From 65a84b49bde1722e3dce9a0843da124c611f85e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:06 +0000
Subject: [PATCH 47/55] fix: unwrapping an empty AES-ECB or AES-CBC ciphertext
 with PKCS#7 padding read the 16 bytes before the buffer

---
 reference/src/taimpl/src/internal/unwrap.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/reference/src/taimpl/src/internal/unwrap.c b/reference/src/taimpl/src/internal/unwrap.c
index b1b8db0..e3f365f 100644
--- a/reference/src/taimpl/src/internal/unwrap.c
+++ b/reference/src/taimpl/src/internal/unwrap.c
@@ -156,6 +156,12 @@ sa_status unwrap_aes_ecb(
 
         uint8_t pad_value = 0;
         if (cipher_algorithm == SA_CIPHER_ALGORITHM_AES_ECB_PKCS7) {
+            if (in_length < AES_BLOCK_SIZE) {
+                ERROR("Invalid in_length");
+                status = SA_STATUS_INVALID_PARAMETER;
+                break;
+            }
+
             if (!pad_check_pkcs7(&pad_value, unwrapped_key + in_length - AES_BLOCK_SIZE)) {
                 ERROR("pad_check_pkcs7 failed");
                 status = SA_STATUS_INVALID_KEY_FORMAT;
@@ -247,6 +253,12 @@ sa_status unwrap_aes_cbc(
 
         uint8_t pad_value = 0;
         if (cipher_algorithm == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7) {
+            if (in_length < AES_BLOCK_SIZE) {
+                ERROR("Invalid in_length");
+                status = SA_STATUS_INVALID_PARAMETER;
+                break;
+            }
+
             if (!pad_check_pkcs7(&pad_value, unwrapped_key + in_length - AES_BLOCK_SIZE)) {
                 ERROR("pad_check_pkcs7 failed");
                 status = SA_STATUS_INVALID_KEY_FORMAT;
-- 
2.43.0


From 6fff317c109df9f5845aab1f93f14007e720204a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:02 +0000
Subject: [PATCH 48/55] fix: key import and provision copied SoC parameters of
 any size onto the stack

---
 reference/src/taimpl/src/internal/ta.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index e7955d1..377cb78 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -358,6 +358,11 @@ static sa_status ta_invoke_key_import(
                     return SA_STATUS_NULL_PARAMETER;
                 }
 
+                if (params[2].mem_ref_size != sizeof(sa_import_parameters_soc)) {
+                    ERROR("params[2].mem_ref_size is invalid");
+                    return SA_STATUS_INVALID_PARAMETER;
+                }
+
                 memcpy(&parameters_soc, params[2].mem_ref, params[2].mem_ref_size);
                 parameters = &parameters_soc;
             }
@@ -405,6 +410,11 @@ static sa_status ta_invoke_key_provision(
             return SA_STATUS_NULL_PARAMETER;
         }
 
+         if (params[2].mem_ref_size != sizeof(sa_import_parameters_soc)) {
+             ERROR("params[2].mem_ref_size is invalid");
+             return SA_STATUS_INVALID_PARAMETER;
+         }
+
          memcpy(&parameters_soc, params[2].mem_ref, params[2].mem_ref_size);
          parameters = &parameters_soc;
      }
-- 
2.43.0


From 888a029304261524e492be9fa7403a603ccbdf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:02 +0000
Subject: [PATCH 49/55] fix: key provision followed params[1] and params[3]
 without regard to their sizes

---
 reference/src/taimpl/src/internal/ta.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 377cb78..65ea965 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -419,7 +419,18 @@ static sa_status ta_invoke_key_provision(
          parameters = &parameters_soc;
      }
     
+     if (params[3].mem_ref == NULL || params[3].mem_ref_size != sizeof(sa_key_type_ta)) {
+         ERROR("Invalid params[3]");
+         return SA_STATUS_INVALID_PARAMETER;
+     }
+
      sa_key_type_ta ta_key_type = *(int*)(params[3].mem_ref);
+     if ((ta_key_type == WIDEVINE_OEM_PROVISIONING && params[1].mem_ref_size != sizeof(WidevineOemProvisioning)) ||
+         (ta_key_type == PLAYREADY_MODEL_PROVISIONING && params[1].mem_ref_size != sizeof(PlayReadyProvisioning)) ||
+         (ta_key_type == NETFLIX_PROVISIONING && params[1].mem_ref_size != sizeof(NetflixProvisioning))) {
+         ERROR("params[1].mem_ref_size is invalid");
+         return SA_STATUS_INVALID_PARAMETER;
+     }
 
      void   *in = NULL;
      size_t in_length = 0;
-- 
2.43.0


From 35d38785d65458225372a6de220e4b657662effa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:02 +0000
Subject: [PATCH 50/55] fix: key derive copied algorithm parameters of any size
 onto the stack

---
 reference/src/taimpl/src/internal/ta.c | 30 ++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 65ea965..287e2e4 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -795,6 +795,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_root_key_ladder_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             memcpy(&parameters_root_key_ladder_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_root_key_ladder.c1 = parameters_root_key_ladder_s.c1;
             parameters_root_key_ladder.c1_length = AES_BLOCK_SIZE;
@@ -814,6 +819,11 @@ static sa_status ta_invoke_key_derive(
             }
 
             // params[2].mem_ref and params[3].mem_ref can be null.
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_hkdf_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             memcpy(&parameters_hkdf_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_hkdf.key_length = parameters_hkdf_s.key_length;
             parameters_hkdf.digest_algorithm = parameters_hkdf_s.digest_algorithm;
@@ -832,6 +842,11 @@ static sa_status ta_invoke_key_derive(
             }
 
             // params[2].mem_ref can be null.
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_concat_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             memcpy(&parameters_concat_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_concat.key_length = parameters_concat_s.key_length;
             parameters_concat.digest_algorithm = parameters_concat_s.digest_algorithm;
@@ -848,6 +863,11 @@ static sa_status ta_invoke_key_derive(
             }
 
             // params[2].mem_ref can be null.
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_ansi_x963_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             memcpy(&parameters_ansi_x963_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_ansi_x963.key_length = parameters_ansi_x963_s.key_length;
             parameters_ansi_x963.digest_algorithm = parameters_ansi_x963_s.digest_algorithm;
@@ -864,6 +884,11 @@ static sa_status ta_invoke_key_derive(
             }
 
             // params[2].mem_ref can be null.
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_cmac_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             memcpy(&parameters_cmac_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_cmac.key_length = parameters_cmac_s.key_length;
             parameters_cmac.counter = parameters_cmac_s.counter;
@@ -879,6 +904,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_netflix)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             memcpy(&parameters_netflix, params[1].mem_ref, params[1].mem_ref_size);
             algorithm_parameters = &parameters_netflix;
             break;
-- 
2.43.0


From da327dcda893a58456bee0033b60fd6ce2287673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:03 +0000
Subject: [PATCH 51/55] fix: cipher process, common encryption and the SVP key
 check read SVP handles from parameters too small to hold them

---
 reference/src/taimpl/src/internal/ta.c | 29 +++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 287e2e4..c20eecd 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -1307,7 +1307,12 @@ static sa_status ta_invoke_crypto_cipher_process(
         out.context.clear.buffer = params[1].mem_ref;
         out.context.clear.length = params[1].mem_ref_size;
         out.context.clear.offset = crypto_cipher_process->out_offset;
-    } else {
+    } else if (params[1].mem_ref != NULL) {
+        if (params[1].mem_ref_size != sizeof(sa_svp_buffer)) {
+            ERROR("params[1].mem_ref_size is invalid");
+            return SA_STATUS_INVALID_PARAMETER;
+        }
+
         out.context.svp.buffer = *(sa_svp_buffer*) params[1].mem_ref;
         out.context.svp.offset = crypto_cipher_process->out_offset;
     }
@@ -1319,6 +1324,11 @@ static sa_status ta_invoke_crypto_cipher_process(
         in.context.clear.length = params[2].mem_ref_size;
         in.context.clear.offset = crypto_cipher_process->in_offset;
     } else {
+        if (params[2].mem_ref_size != sizeof(sa_svp_buffer)) {
+            ERROR("params[2].mem_ref_size is invalid");
+            return SA_STATUS_INVALID_PARAMETER;
+        }
+
         in.buffer_type = crypto_cipher_process->in_buffer_type;
         in.context.svp.buffer = *(sa_svp_buffer*) params[2].mem_ref;
         in.context.svp.offset = crypto_cipher_process->in_offset;
@@ -1807,6 +1817,11 @@ static sa_status ta_invoke_svp_key_check(
         in.context.clear.length = params[1].mem_ref_size;
         in.context.clear.offset = svp_key_check->in_offset;
     } else {
+        if (params[1].mem_ref_size != sizeof(sa_svp_buffer)) {
+            ERROR("params[1].mem_ref_size is invalid");
+            return SA_STATUS_INVALID_PARAMETER;
+        }
+
         in.buffer_type = svp_key_check->in_buffer_type;
         in.context.svp.buffer = *(sa_svp_buffer*) params[1].mem_ref;
         in.context.svp.offset = svp_key_check->in_offset;
@@ -1923,6 +1938,12 @@ static sa_status ta_invoke_process_common_encryption(
             out.context.clear.length = params[2].mem_ref_size;
             out.context.clear.offset = process_common_encryption->out_offset;
         } else {
+            if (params[2].mem_ref_size != sizeof(sa_svp_buffer)) {
+                ERROR("params[2].mem_ref_size is invalid");
+                status = SA_STATUS_INVALID_PARAMETER;
+                break;
+            }
+
             out.context.svp.buffer = *(sa_svp_buffer*) params[2].mem_ref;
             out.context.svp.offset = process_common_encryption->out_offset;
         }
@@ -1935,6 +1956,12 @@ static sa_status ta_invoke_process_common_encryption(
             in.context.clear.length = params[3].mem_ref_size;
             in.context.clear.offset = process_common_encryption->in_offset;
         } else {
+            if (params[3].mem_ref_size != sizeof(sa_svp_buffer)) {
+                ERROR("params[3].mem_ref_size is invalid");
+                status = SA_STATUS_INVALID_PARAMETER;
+                break;
+            }
+
             in.buffer_type = process_common_encryption->in_buffer_type;
             in.context.svp.buffer = *(sa_svp_buffer*) params[3].mem_ref;
             in.context.svp.offset = process_common_encryption->in_offset;
-- 
2.43.0


From 9c56cebb00b72d92058a21d2388b078bc1cd953a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:03 +0000
Subject: [PATCH 52/55] fix: a subsample count whose size in bytes wraps around
 passed the check of the common encryption command

---
 reference/src/taimpl/src/internal/ta.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index c20eecd..691b400 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -1905,7 +1905,8 @@ static sa_status ta_invoke_process_common_encryption(
     sa_sample sample;
     do {
         sample.subsample_count = process_common_encryption->subsample_count;
-        if (params[1].mem_ref_size != sizeof(sa_subsample_length) * sample.subsample_count) {
+        if (params[1].mem_ref_size / sizeof(sa_subsample_length_s) != sample.subsample_count ||
+                params[1].mem_ref_size % sizeof(sa_subsample_length_s) != 0) {
             ERROR("params[1].mem_ref_size is invalid");
             return SA_STATUS_INVALID_PARAMETER;
         }
-- 
2.43.0


From e3d7e416eb74ccde8bdc6819c977ec843e7217f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:51 +0000
Subject: [PATCH 53/55] fix: the key header command wrote through a null output
 parameter

---
 reference/src/taimpl/src/internal/ta.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 691b400..2da9231 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -1017,6 +1017,11 @@ static sa_status ta_invoke_key_header(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
+    if (params[1].mem_ref == NULL) {
+        ERROR("NULL params[1].mem_ref");
+        return SA_STATUS_NULL_PARAMETER;
+    }
+
     if (key_header->api_version != API_VERSION) {
         ERROR("Invalid api_version");
         return SA_STATUS_INVALID_PARAMETER;
-- 
2.43.0


From f4a33d7145c1cf8f67b1dd9840b9354596ccba7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:37 +0000
Subject: [PATCH 54/55] fix: provisioning a key of an unknown type reported
 success

---
 reference/src/taimpl/src/internal/ta.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 2da9231..c7e2d94 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -494,7 +494,7 @@ static sa_status ta_invoke_key_provision(
               break;
 	  default:
 	      ERROR("unknown key provisioning type");
-              break;
+	      return SA_STATUS_INVALID_PARAMETER;
      }
      INFO("ta_key_type: %d", ta_key_type);
      INFO("in_length: %d", in_length);
-- 
2.43.0


From 8c9aabbebe9cc99c7d6e2a14267fc0e9bd01d41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:10 +0000
Subject: [PATCH 55/55] fix: a failed RSA OAEP cipher init left a context
 without its parameters in the store

---
 reference/src/taimpl/src/ta_sa_crypto_cipher_init.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c
index b89080e..7ab1486 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c
@@ -1006,8 +1006,11 @@ sa_status ta_sa_crypto_cipher_init(
             if (status != SA_STATUS_OK) {
                 ERROR("ta_sa_crypto_cipher_init_rsa_oaep failed");
                 // once the context exists, the stored key is owned by the cipher store
-                if (*context != INVALID_HANDLE)
+                if (*context != INVALID_HANDLE) {
                     stored_key = NULL;
+                    cipher_store_remove(client_get_cipher_store(client), *context, caller_uuid);
+                    *context = INVALID_HANDLE;
+                }
 
                 break;
             }
-- 
2.43.0

