prop("C03", "A key is used only as its rights allow",
     "No operation uses key material unless the rights recorded with that key allow this use to this caller at this time: the usage flag of the operation is set, the key is within its validity period, the calling application is among the allowed ones, and the state of the video output, and for clear output the flag SVP_OPTIONAL, allow it. A key is written out only when it is cacheable. The check is made against the rights of the same key whose material is then used, on every path.",
     ["inputs", "histories"], "All commands, algorithms, parameters, keys and rights.",
     "The tests sample some combinations of operation, key type and flag; a check dropped in one branch of one algorithm, made with the wrong flag or made for another key stays unseen.",
     [I + "rights.c", I + "key_store.c", T + "ta_sa_*.c"],
     [("rights_allowed_* predicates before the key is used", I + "rights.c"), ("allowed applications checked when a key is unwrapped from the store", I + "key_store.c: key_store_unwrap"), ("the order check, then use in every command", T + "ta_sa_crypto_cipher_init.c, ta_sa_crypto_sign.c, ta_sa_key_unwrap.c, ta_sa_key_derive.c, ta_sa_key_exchange.c, ta_sa_key_export.c, ta_sa_process_common_encryption.c")],
     "path-sensitive abstract interpretation: every use of key material must be dominated by the rights facts of that key", NOTE)
prop("C04", "A derived or unwrapped key is never less protected than its parents",
     "A key made with the help of another key (unwrapped, derived or exchanged) never has an output protection flag that the other key does not have, and where the other key may only unwrap and names the usages its children may have, the new key has no other usage.",
     ["inputs", "histories"], "All ways to make a key from a key, all rights asked for and all rights of the parents.",
     "The tests look at the rights of the made key for some of the ways and combinations; the guarantee is a subset relation over all 2^n flag sets.",
     [I + "stored_key.c", I + "kdf.c", I + "unwrap.c", I + "netflix.c", I + "dh.c", I + "ec.c"],
     [("restriction of the rights of a new key by those of its parent", I + "stored_key.c: stored_key_create, restrict_child_rights"), ("the parent passed on by each way to make a key", I + "kdf.c, unwrap.c, netflix.c, dh.c, ec.c")],
     "abstract interpretation with a symbolic bit vector subset decision on the flags stored with the new key", NOTE)
prop("C05", "Nothing is accepted before its authenticity is verified",
     "Key containers, stored keys, wrapped keys and messages that carry an authentication tag or code are accepted only when that tag, over its whole length and over all the data it protects, was computed with the right key and found right: no key is made and kept from them, no decryption ends with success and no check command says OK on a path on which this did not happen. The rights, type and size an imported key gets come from data that the verified code covers. A container does not decide how long the tag is that is compared.",
     ["inputs", "fault_sequences"], "All containers and stored keys of any content, all authenticated ciphers, all tags and lengths, every failure of a step of the verification.",
     "The tests flip a bit of a tag or two; that no path around the comparison exists, that it covers the whole tag and all data used later and that the compared key is the right one quantifies over all inputs.",
     [I + "key_store.c", I + "typej.c", I + "soc_key_container.c", I + "unwrap.c", I + "symmetric.c", P + "otp.c", P + "svp.c", "reference/src/util/src/pkcs12.c"],
     [("code of a stored key", I + "key_store.c: unwrap"), ("code of a TypeJ container", I + "typej.c: verify_mac, typej_unwrap"), ("tag of a SoC key container", I + "soc_key_container.c: decrypt_key_and_verify_mac; " + P + "otp.c: otp_unwrap_aes_gcm"), ("tags of wrapped keys and messages", I + "unwrap.c: unwrap_aes_gcm, unwrap_chacha20_poly1305; " + T + "ta_sa_crypto_cipher_process_last.c"), ("code of the key store file", "reference/src/util/src/pkcs12.c"), ("check commands", T + "ta_sa_svp_buffer_check.c, ta_sa_svp_key_check.c")],
     "path-sensitive taint analysis by abstract interpretation: unverified data must not reach key creation or a successful exit", NOTE)
prop("C06", "Key material is wiped before its memory is given back",
     "Whatever memory of the trusted application has held key material in the clear (a key taken from the store, decrypted, derived, exchanged, generated or imported, an intermediate value of a derivation, or a copy of any of these), on the heap or on the stack, is overwritten over its whole size before it is freed or goes out of scope, on every path including every failure. Private numbers and points inside the cryptographic library are freed with its clearing functions.",
     ["inputs", "fault_sequences"], "All commands, all keys, every failure of every step.",
     "No test looks at freed memory; a missed wipe on one failure path, of one intermediate value or over the wrong length changes no result.",
     [T + "ta_sa_*.c", I + "*.c", P + "otp.c"],
     [("stored keys", I + "stored_key.c: stored_key_free"), ("derived and exchanged keys", I + "kdf.c, netflix.c, dh.c, ec.c"), ("decrypted keys", I + "unwrap.c, key_store.c, soc_key_container.c; " + P + "otp.c"), ("copies and buffers", I + "hmac_context.c, ec.c; " + P + "svp.c")],
     "taint and typestate analysis by abstract interpretation: secret memory must be wiped over its size before its lifetime ends", NOTE)
prop("C08", "A failure is never reported as success",
     "When a library call, an allocation or an internal step that an operation needs fails, or the code itself finds and reports an error, the operation does not report SA_STATUS_OK: no output that was not produced, no authentication or derivation step that was skipped and no key or context that is not fully set up is passed off as good. (Failures to release something, and failures that are documented as ignored, are not meant.)",
     ["fault_sequences", "inputs"], "Every failure of every call on every path of every command and store function.",
     "The tests provoke hardly any failure of a library call; that the result of each is looked at, with the right comparison, and reaches the caller takes a fault in each of them.",
     [T + "ta_sa_*.c", I + "*.c", P + "*.c", "reference/src/util/src/pkcs12.c", "reference/src/util/src/json.c"],
     [("status of every step carried to the exit", T), ("comparison of library results", I + "*.c")],
     "fault-branch dataflow by path-sensitive abstract interpretation: a failure fact must not reach a successful exit", NOTE)
prop("C09", "Null pointers from the caller are refused, not followed",
     "Whatever pointers a caller passes to a command of the trusted application, itself or in the structures they point to, the command never reads or writes through a null one and never hands it to a library function that needs it: it reports SA_STATUS_NULL_PARAMETER or another failure, or it has found that there is nothing to access (length zero).",
     ["inputs"], "All commands, all algorithms, every combination of absent parameters and fields.",
     "The tests pass null for one parameter at a time of some algorithms; each field of each parameter structure of each algorithm and key type would need its own case, and combinations of absent fields (no IV but a length, a second sample) more.",
     [T + "ta_sa_*.c", I + "*.c"],
     [("parameter checks at the head of the commands", T + "ta_sa_*.c"), ("checks of algorithm parameters", T + "ta_sa_crypto_cipher_init.c, ta_sa_key_derive.c, ta_sa_key_unwrap.c, ta_sa_key_generate.c, ta_sa_key_import.c"), ("samples of common encryption", I + "cenc.c; " + T + "ta_sa_process_common_encryption.c")],
     "path-sensitive abstract interpretation: every dereference of a caller's pointer must be dominated by a null check of this pointer", NOTE)
prop("C10", "No memory is accessed outside its bounds",
     "No command, whatever its parameters, sizes, offsets, counts, key containers and stored keys, reads or writes memory outside the object it addresses: local and global arrays, heap blocks, shared parameter memory and its declared sizes, SVP memory, key material. A copy, a loop, a pointer computed from an offset and a length given to the crypto library all stay inside, also when sums and products of untrusted numbers would wrap around.",
     ["inputs", "histories"], "All values of all lengths, offsets, counts and sizes, all contents of containers, all types and sizes of command parameters.",
     "Tests use well-formed sizes and a few wrong ones; an overrun of the wrong size by one, or after a wrap-around, needs one number out of 2^64.",
     [I + "ta.c", I + "soc_key_container.c", I + "typej.c", I + "json.c", I + "kdf.c", I + "cenc.c", I + "unwrap.c", I + "rsa.c", I + "ec.c", I + "symmetric.c", P + "svp.c", P + "otp.c", I + "buffer.c", I + "key_store.c", "reference/src/util/src/pkcs12.c"],
     [("sizes of shared parameters", I + "ta.c: ta_invoke_*"), ("offset and length of buffers", I + "buffer.c: convert_buffers; " + P + "svp.c"), ("fields of key containers", I + "soc_key_container.c, " + I + "typej.c"), ("derived lengths", I + "kdf.c, " + I + "unwrap.c")],
     "interval and linear-inequality abstract interpretation of every memory access against the extent of its object", NOTE)
prop("C14", "Key material stays inside the trusted application",
     "The bytes of a stored key, of a root or derived key, of an unwrapped or generated private key, and every copy of them, never reach memory of the caller by copying, storing or encoding them, and are never given to the log. What an application gets is ciphertext (an exported key is encrypted before it is copied out), a public key, a digest or a message authentication code.",
     ["inputs", "histories"], "All commands with all parameters, on success and failure paths.",
     "A test compares what it gets with what it expects; it does not see a key byte in a log line, in slack space of a response or on an error path.",
     [I + "key_store.c", I + "rsa.c", I + "ec.c", I + "dh.c", I + "kdf.c", I + "netflix.c", I + "digest.c", I + "unwrap.c", I + "cmac_context.c", I + "hmac_context.c", P + "otp.c", T + "ta_sa_key_export.c", T + "ta_sa_key_get_public.c", "reference/src/util/src/pkcs12.c"],
     [("what is copied out of an exported key", I + "key_store.c: key_store_export"), ("encodings of public keys", I + "rsa.c, " + I + "ec.c, " + I + "dh.c: get_public"), ("log calls", "every log_entry call reached from a command")],
     "flow-sensitive taint analysis from key material to the caller's memory and the log", NOTE)
prop("C17", "Concurrent operations never deadlock",
     "No set of concurrent operations on any handles can block for ever: what an operation waits for (a mutex, or that the references to an object it releases are given back) is never held by an operation that, directly or through others, waits for it. Locks of different kinds are taken in one order, two SVP buffers in the order of their handles, a mutex is not waited for by its holder, nobody sleeps holding a mutex, and every lock, reference and release count is given back on every path.",
     ["schedules", "histories"], "All interleavings of all operations of any number of threads, with any handles, the same ones in different roles included.",
     "A deadlock takes two threads at particular points; the tests run one thread.",
     [I + "object_store.c", I + "svp_store.c", I + "cipher_store.c", I + "mac_store.c", I + "buffer.c", T + "ta_sa_svp_buffer_copy.c", T + "ta_sa_crypto_cipher_process.c", T + "ta_sa_process_common_encryption.c", P + "otp.c", "reference/src/client/src/sa_provider.c", "reference/src/clientimpl/src/internal/client.c"],
     [("the order of cipher context and SVP buffer locks", T + "ta_sa_crypto_cipher_process.c, " + I + "cenc.c"), ("the order of two SVP buffers", I + "buffer.c: convert_buffers; " + T + "ta_sa_svp_buffer_copy.c"), ("waiting for references to be given back", I + "object_store.c: store_remove, object_store_shutdown")],
     "held-versus-awaited relation by path-sensitive abstract interpretation; the relation must be acyclic", NOTE)
prop("C20", "A failed command leaves nothing behind, a release removes its object",
     "A command that puts an object (key, cipher or MAC context, SVP buffer, client) into a store either succeeds and gives its handle to the caller, or fails and the object is not in the store any more; no object is in a store with its handle known to nobody. A command removes no object that it has not added itself, except a release command, which succeeds only when it has removed the object of the handle it was given and no other, and removes nothing when it fails.",
     ["inputs", "histories", "fault_sequences"], "All commands with all parameters, all failures of allocations, library calls and internal operations, at each point.",
     "What a failed command leaves in a store is not seen by the test of that command: the store just fills up, or the half-made object is used through its handle later.",
     [I + "object_store.c", I + "cipher_store.c", I + "mac_store.c", I + "key_store.c", I + "svp_store.c", I + "client_store.c", T + "ta_sa_key_exchange.c", T + "ta_sa_key_derive.c", T + "ta_sa_crypto_cipher_init.c", T + "ta_sa_crypto_mac_init.c", T + "ta_sa_key_release.c", T + "ta_sa_close.c"],
     [("removal of the keys of a failed exchange", T + "ta_sa_key_exchange.c: ta_sa_key_exchange_netflix_dh"), ("what follows the addition of a context", T + "ta_sa_crypto_cipher_init.c"), ("handles of the stores", I + "*_store.c: *_add*, *_import*, *_create"), ("release", T + "ta_sa_*_release.c, ta_sa_close.c")],
     "typestate of added and removed objects by path-sensitive abstract interpretation", NOTE)
prop("C21", "Keys are used only with the primitives their type and length fit",
     "A cryptographic primitive is given a stored key only when the type of that key is the one it takes: block and stream ciphers and MACs a symmetric key, RSA, EC and DH operations a key of that type; and a cipher is given a key of exactly the length it reads. A key is created as symmetric only with the length its header says, and as RSA, EC or DH only from bytes that the library has written or read as a private key; a cipher context is stored only with a key of the type its algorithm takes.",
     ["inputs", "histories"], "All commands, algorithms, parameters and handles of keys of any type, size and origin.",
     "Tests pair each algorithm with a few wrong keys; the number of combinations of algorithm, key type, key size, curve, origin and command is too large for that.",
     [I + "key_type.c", I + "stored_key.c", I + "symmetric.c", I + "unwrap.c", I + "rsa.c", I + "ec.c", I + "dh.c", I + "hmac_context.c", I + "cmac_context.c", I + "cipher_store.c", I + "soc_key_container.c", I + "kdf.c", I + "netflix.c", P + "otp.c", T + "ta_sa_crypto_cipher_init.c", T + "ta_sa_key_unwrap.c", T + "ta_sa_key_derive.c", T + "ta_sa_crypto_sign.c"],
     [("checks of type and size", I + "key_type.c and its callers in ta_sa_*.c"), ("selection of the cipher", I + "symmetric.c, " + I + "unwrap.c"), ("creation of stored keys", I + "stored_key.c: stored_key_create and its callers"), ("contexts with a key", I + "cipher_store.c: cipher_store_add_asymmetric_key")],
     "path-sensitive abstract interpretation: dominating type and length facts at each use of key bytes", NOTE)
