#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording stays reviewable)."""
import json, os
S = "src/wickrcrypto/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[S + f if not f.startswith("src/") else f for f in files],
                     state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

prop("C01", "Every addressed device recovers exactly the message that was sent",
 "Whenever encoding a message succeeds, every device it was addressed to can decode the transmitted bytes with the message key pair the packet names for it, and obtains exactly the body, expiry settings, channel tag and content type that were sent, plus the same payload key the sender was given; any holder of the sender's identity reads back exactly the addressed device list. A device that was not addressed, or one that uses any other key pair, never obtains a payload. This holds for every supported packet version and regardless of the order, delay, duplication or number of times packets are delivered, of key rotations in between, and of sender or receiver restarting from saved state in between.",
 ["schedules", "histories", "inputs", "fault_sequences", "configurations"],
 "all interleavings of account creation, key publication/rotation, sends, delivery (delay, reordering, duplication) and device restarts; all payload contents and sizes, recipient sets and packet versions",
 "The stable tests never encode a message at all (the KDF module is left out of that build); the C unit tests send one fixed packet to one or two recipients in one order, with no rotation, restart or duplication.",
 ["wickr_ctx.c", "protocol.c", "key_exchange.c", "payload.c", "ecdh_cipher_ctx.c", "node.c", "identity.c", "devinfo.c", "cipher.c", "ecdsa.c"],
 [("per-recipient ECDH+HKDF key exchange bound to both root keys and the device id", S + "protocol.c"),
  ("header encrypted under a key derived from the sender identity", S + "wickr_ctx.c"),
  ("payload protobuf round trip", S + "payload.c")],
 ["wickr_ctx_encode_packet / wickr_ctx_parse_packet / wickr_ctx_decode_packet results"])

prop("C02", "Altered, forged or misattributed messages are never accepted",
 "If decoding a received packet succeeds against a claimed sender identity, then that sender produced exactly that payload in a packet addressed to the decoding device. Bits changed, bytes removed or added, parts of different packets combined, another identity claimed as the sender, a packet re-signed by someone else (including a fellow recipient who knows the payload key; packets of the legacy version 2 do not bind the sender into the key exchange, so there only the signature speaks for the sender), or a changed version byte never yield a payload that differs from what the claimed sender sent, and never yield any payload when the signature does not verify.",
 ["inputs", "histories", "fault_sequences"],
 "all corruption, truncation, splicing, re-signing and re-attribution of packets produced by any history of senders, versions and recipients",
 "Unit tests check one wrong identity and a handful of fixed corruptions; none combine packets, insiders and versions.",
 ["protocol.c", "wickr_ctx.c", "ecdsa.c", "openssl_suite.c", "cipher.c", "payload.c", "key_exchange.c"],
 [("ECDSA signature over the packet content checked before anything is decrypted", S + "protocol.c"),
  ("AES-GCM tags on header, key exchange and payload", S + "openssl_suite.c"),
  ("HKDF info binding to sender root, recipient root and device", S + "protocol.c")],
 ["parse result error/signature status, decode result"])

prop("C03", "Messages are only encrypted to devices whose signature chain is valid now",
 "A device is reported valid exactly when its root, device and message-key signatures all verify at the moment of the question, however often and with whatever outcome it, its identity chain or copies of either were checked before, and whatever was replaced, rotated or damaged since. Encoding a message fails, and produces no packet, if any addressed device is not valid at that moment.",
 ["histories", "inputs"],
 "all histories of validation, rotation, replacement, damage, repair, copying and serialization of devices, identities and key pairs, interleaved with sends",
 "Tests validate a node once or twice after a single mutation; a remembered verdict can only go stale over longer histories.",
 ["node.c", "node_priv.c", "identity.c", "identity_priv.c", "ephemeral_keypair.c", "protocol.c"],
 [("status caches keyed by a digest of the signed material", S + "node_priv.c"),
  ("recipient validation before key exchange", S + "protocol.c")],
 ["wickr_node_verify_signature_chain, wickr_identity_chain_validate, wickr_ctx_encode_packet"],
 [dict(name="_status_cache", meaning="digest of what the remembered verdict was computed over", where="node.h, identity.h")])

prop("C04", "No key and IV pair is ever used for two encryptions",
 "Across any history, no two encryption operations use the same key together with the same IV - messages, headers, key exchanges, storage encryption, exports, files, streams and sessions, including streams and sessions that were copied, keys that were exported and re-imported, retries after failures and restarts. Every message, session and file gets fresh randomness, and when the random source fails the operation fails and emits nothing.",
 ["histories", "schedules", "fault_sequences"],
 "all histories of encrypting operations over shared keys, with copies, retries, restarts and random-source failures at any draw",
 "Tests compare two consecutive outputs; IV reuse needs copies, evolution boundaries or failure/retry sequences over a shared key.",
 ["openssl_suite.c", "stream_iv.c", "stream_ctx.c", "wickr_ctx.c", "kdf.c", "ecdh_cipher_ctx.c", "transport_handshake.c", "crypto_engine.c"],
 [("random IV when none is supplied", S + "openssl_suite.c"), ("seeded counter IVs per stream", S + "stream_iv.c"),
  ("fresh exchange and payload keys per packet", S + "wickr_ctx.c")],
 ["key and IV of every cipher operation, recorded below the library at the crypto provider boundary"])

prop("C05", "A session becomes active only with the expected peer",
 "An endpoint becomes active only after it has processed an unmodified handshake message that was signed by the identity it was created to expect or, when created without one, by a presented identity with a valid chain that the application approved; an initiator additionally only on a response made for its own current attempt. A network attacker - able to drop, replay, delay, alter, inject, re-sign under its own identity and relay between sessions - never makes an endpoint active towards itself under another identity, and two endpoints whose handshake messages were not altered always end up with matching keys. A rejected identity never becomes active.",
 ["schedules", "histories", "fault_sequences", "inputs"],
 "all interleavings of several concurrent handshakes with an active attacker on the network, for every pinned/unpinned combination and approval timing",
 "Tests run single scripted handshakes with one fixed tampering each and no concurrent sessions to splice from.",
 ["transport_handshake.c", "transport_ctx.c", "transport_packet.c", "transport_root_key.c", "identity.c", "ecdh_cipher_ctx.c"],
 [("handshake packets signed by the device key", S + "transport_packet.c"),
  ("key derivation bound to identities, ephemerals and the transcript", S + "transport_handshake.c"),
  ("identity callback when no peer is pinned", S + "transport_ctx.c")],
 ["status, on_state and on_identity_verify callbacks, tx bytes"])

prop("C06", "Session data is delivered intact, in order, at most once",
 "The sequence of buffers an endpoint delivers to its application is, at every moment, an in-order subsequence - each element at most once - of the buffers the peer submitted in that same session and direction. Altered, replayed, reflected, forged or cross-session packets are never delivered, whatever the network does.",
 ["schedules", "fault_sequences", "histories"],
 "all network schedules with loss, duplication, reordering, corruption, injection, reflection and cross-session replay, any key-change interval and message sizes",
 "Tests transfer a few packets in lock step; ordering and replay bugs need adversarial delivery around key-change boundaries.",
 ["transport_ctx.c", "stream_ctx.c", "stream_iv.c", "transport_packet.c", "cipher.c"],
 [("sequence numbers authenticated as associated data and required to increase", S + "stream_ctx.c"),
  ("separate keys per direction and session", S + "transport_handshake.c")],
 ["rx callback buffers against the peer's submitted buffers"])

prop("C07", "Sessions fail loudly, for good, and never act outside their state",
 "A session's status only moves from idle to handshaking or active, from handshaking to active, and from anything to error; error is final. Every change is announced exactly once through the state callback, nothing is transmitted or delivered after an error, application data is transmitted only while active, and every input the session cannot process - unparsable or unexpected packets, data at the wrong time, a rejected identity, or a failing dependency - puts it into the error state instead of leaving it stuck, silent or active.",
 ["schedules", "histories", "fault_sequences"],
 "all sequences of start, receive, send, approve/reject (immediate, late, repeated) and dependency failures at any call, from inside or outside callbacks",
 "Tests visit each rejection once from the intended state, with the identity answer given synchronously and no dependency failing.",
 ["transport_ctx.c", "transport_handshake.c"],
 [("status update helper", S + "transport_ctx.c"), ("handshake status machine", S + "transport_handshake.c")],
 ["status getter and on_state callback trace, tx/rx callback trace"])

prop("C08", "On a working network sessions establish and deliver everything",
 "If the network delivers every packet in order, no dependency fails and an application that is asked about an identity answers before it hands over further packets, two endpoints expecting (or approving) each other both become active after exactly one packet in each direction, and every buffer either side submits from then on - including from inside its callbacks, of any non-zero supported size and across any number of key changes - is delivered to the other side. Interference that stopped before a fresh attempt started never prevents that attempt from succeeding.",
 ["schedules", "histories", "configurations"],
 "all interleavings of sends in both directions with in-order delivery, all key-change intervals, identity modes, approval delays and message sizes, after arbitrary earlier faults in other sessions",
 "Tests exchange strictly alternating messages and never send from a callback.",
 ["transport_ctx.c", "transport_handshake.c", "stream_ctx.c", "transport_packet.c"],
 [("volley and finalization order", S + "transport_ctx.c"), ("key evolution on both ends", S + "stream_ctx.c")],
 ["status of both ends and delivered buffers after a bounded number of deliveries"])

prop("C09", "A lossy stream accepts exactly the genuine packets newer than the last one",
 "A stream receiver decodes a packet to exactly the sent data if the packet is genuine - same stream, same bytes, same sequence number, same associated data - and its sequence number is greater than that of the last packet it accepted, whatever was lost, reordered or duplicated and however many key changes lie in between. Every other packet - replayed, older, altered, from another stream or with other associated data - is rejected and has no effect on what is accepted afterwards. The sequence number of a packet is bound to it through the associated data, which carries it as sessions do; without associated data only its key interval is bound.",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "all sequences of send, loss, duplication, reordering and corruption over all key-change intervals and sequence-number gaps",
 "Tests decode every packet in order with at most one wrong sequence number.",
 ["stream_ctx.c", "stream_key.c", "stream_key_priv.c", "stream_iv.c"],
 [("evolve to the packet's epoch, authenticate, remember the sequence number", S + "stream_ctx.c")],
 ["wickr_stream_ctx_decode results against a reference model"])

prop("C10", "File encryption and decryption are all-or-nothing",
 "Encrypting or decrypting a file either reports success, and the destination then holds the complete result that round-trips to the exact source bytes (of any length), or reports failure, and the destination is exactly what it was before and no temporary file remains - whatever read, write, open, close, rename, memory or randomness failure happens. If the process dies at any point, the destination is either the old or the complete new content; the source is never changed. A file encrypted with an authenticated cipher that was truncated, altered, extended or encrypted under another key is never decrypted to the destination. (A failure of removing the temporary file itself, and a file of the user's own that bears the temporary file's name, are outside this.)",
 ["crash_points", "fault_sequences", "inputs"],
 "a fault or a crash at every I/O call and every dependency call, all file sizes around block boundaries, and all truncations and byte changes of the encrypted file",
 "Tests encrypt one fixed file on a healthy disk; short reads, late write errors and crash points are unreachable from them.",
 ["openssl_file_suite.c", "openssl_suite.c", "cipher.c"],
 [("write to a temporary file, then rename", S + "openssl_file_suite.c"), ("header patched with the tag at the end", S + "openssl_suite.c")],
 ["contents of the simulated disk and the returned result"])

prop("C11", "Saved accounts restore completely or are rejected",
 "Restoring a device from its passphrase-protected export with the right passphrase and device information yields a device that behaves identically: same identity and storage keys, reads all earlier stored data and messages, and is accepted by its peers; the same holds for exported storage keys, recovery keys and account backups. A passphrase-protected export or encrypted backup that was torn, truncated or altered in any byte, or is opened with a wrong passphrase or key, is rejected rather than restored to something else.",
 ["histories", "crash_points", "fault_sequences", "inputs"],
 "all histories of export, crash, torn or corrupted storage, wrong secrets and restore, interleaved with normal use; repeated export/restore generations",
 "The stable tests never run an export (the KDF module is left out); unit tests restore once from a perfect copy.",
 ["wickr_ctx.c", "crypto_engine.c", "kdf.c", "storage.c", "storage_priv.c", "root_keys.c", "identity_priv.c", "cipher.c"],
 [("KDF + authenticated encryption of the serialized state", S + "crypto_engine.c"), ("protobuf (de)serialization", S + "wickr_ctx.c")],
 ["restored device behaviour, import results"])

prop("C12", "All devices of an account share the account, each owns its local data",
 "Every device created from the same account root - on creation, from a root-key copy, from a backup with its recovery key, or via the passphrase-protected recovery key - presents the same account identity with a chain that validates everywhere and can read remote-storage data written by every other device of that account. Local-storage data can be read only by the device that wrote it, and on that device after it is set up again with the same device salt and system identifier; devices of other accounts can read neither, and stored data that was altered in any byte is not read at all.",
 ["histories", "configurations", "fault_sequences"],
 "all histories of creating, recovering, re-creating and restarting devices across several accounts, with failing intermediate steps",
 "Tests create one recovered context and compare keys once.",
 ["wickr_ctx.c", "root_keys.c", "devinfo.c", "identity.c", "storage.c"],
 [("storage keys derived from root keys and device information", S + "root_keys.c"), ("device id derived from salts", S + "devinfo.c")],
 ["cross-device decrypt matrix and chain validation"])

prop("C13", "A failing dependency is reported and leaves everything intact",
 "If a memory allocation, random draw or underlying crypto-library call fails at any point of any operation, the operation either reports failure or returns a fully correct result; it never crashes, never reads or frees memory wrongly, never returns a partial result as success, and releases everything it acquired. Objects passed in are unharmed: repeating the operation without the fault succeeds.",
 ["fault_sequences", "crash_points"],
 "a failure at every single allocation, random draw and crypto-library call of every public operation, and random multi-failure sequences",
 "Failing allocations and crypto calls cannot be produced by unit tests at all.",
 ["cipher.c", "eckey.c", "ecdsa.c", "identity.c", "identity_priv.c", "node.c", "node_priv.c", "protocol.c", "key_exchange.c", "payload.c", "packet_meta.c", "wickr_ctx.c", "root_keys.c", "storage.c", "storage_priv.c", "devinfo.c", "fingerprint.c", "kdf.c", "openssl_suite.c", "openssl_file_suite.c", "crypto_engine.c", "stream_ctx.c", "stream_iv.c", "stream_key.c", "transport_ctx.c", "transport_handshake.c", "transport_handshake_priv.c", "transport_packet.c", "transport_root_key.c", "buffer.c", "array.c", "ecdh_cipher_ctx.c", "ephemeral_keypair.c", "util.c"],
 [("NULL checks and unwinding on every path", S)],
 ["return values, memory-safety sanitizers, live-allocation balance"])

prop("C14", "Corrupted or hostile bytes never break the process",
 "Feeding arbitrary, corrupted, truncated or maliciously crafted bytes to any operation that reads packets, keys, identities, devices, exports, backups, session traffic, encoded text or files - including bytes that are correctly signed or encrypted by a malicious but legitimate peer - never causes a memory error, undefined behaviour, a crash, a leak or an endless computation; the result is a clean rejection or a usable object that can be inspected, used, serialized and destroyed.",
 ["inputs", "fault_sequences", "histories"],
 "all storage and network corruptions (bit flips, truncation, growth, splices, protobuf field edits) of every serialized form, at outer and inner (signed or encrypted) layers",
 "Tests parse well-formed data and a handful of wrong lengths.",
 ["protocol.c", "key_exchange.c", "payload.c", "identity_priv.c", "node_priv.c", "ephemeral_keypair_priv.c", "cipher.c", "ecdsa.c", "eckey.c", "kdf.c", "crypto_engine.c", "transport_packet.c", "transport_handshake.c", "transport_handshake_priv.c", "transport_root_key_priv.c", "stream_key_priv.c", "storage_priv.c", "root_keys.c", "openssl_suite.c", "b32.c", "util.c", "buffer.c"],
 [("length and presence checks in every decoder", S)],
 ["sanitizers, step budget, live-allocation balance"])

prop("C15", "Copies behave like the original and independently of it",
 "A copy of a device context, recipient device, identity, key, packet, result, stream, session or pending handshake, taken at any moment, gives the same answers as the original would have given from that moment on, and using, failing or destroying either one never changes what the other does.",
 ["histories", "schedules"],
 "copies taken at every point of a history, followed by any divergent use of both",
 "Tests copy once and compare fields; they never continue both histories.",
 ["stream_ctx.c", "stream_key.c", "transport_ctx.c", "transport_handshake.c", "transport_packet.c", "wickr_ctx.c", "node.c", "identity.c", "protocol.c", "key_exchange.c", "array.c", "encoder_result.c", "root_keys.c", "devinfo.c"],
 [("deep copies", S)],
 ["behaviour of copy versus a twin of the original"])

prop("C16", "Secrets never leave in the clear",
 "No private key, symmetric key, stream secret, recovery key, passphrase or message plaintext ever appears in bytes meant for others or for protected storage: transmitted packets and session traffic, public serializations of identities, devices and message keys, protected exports and backups, and encrypted files - in any history, including after failures, and including packets sent while a dependency is failing.",
 ["histories", "fault_sequences", "configurations"],
 "every byte emitted over all histories of messaging, sessions, publication, export and file encryption, with and without dependency failures",
 "Tests never look for secrets in output; leaks depend on the state and order in which objects are serialized.",
 ["identity_priv.c", "node_priv.c", "ephemeral_keypair_priv.c", "transport_handshake_priv.c", "key_exchange.c", "protocol.c", "wickr_ctx.c", "openssl_suite.c", "crypto_engine.c"],
 [("public versus private serialization", S + "identity_priv.c"), ("public-only key serialization", S + "ephemeral_keypair_priv.c")],
 ["all emitted byte strings scanned for all live secrets"])

prop("C17", "Streams change keys on schedule and cannot look back",
 "Both ends of a stream or session replace their key each time the sequence number crosses a multiple of the configured interval (intervals outside the allowed range are refused), so packets of different intervals never share a key, in any pattern of loss or gaps and for any interval. Each key follows from the one before by the documented one-way step (HMAC of the current key under the evolution key). The state an endpoint holds after a change does not contain or yield the keys that opened packets of earlier intervals, even when the change was triggered while packets were lost or the receiver was copied or restarted.",
 ["histories", "schedules", "configurations"],
 "all send/receive/gap patterns over all key-change intervals, with the receiver's state captured at any moment",
 "Tests compare the key before and after two boundaries of one interval.",
 ["stream_ctx.c", "stream_key.c", "transport_root_key.c"],
 [("HMAC ratchet of cipher key and evolution key", S + "stream_ctx.c")],
 ["cipher key used for each sequence number at the crypto boundary; captured state tried against earlier packets"])

prop("C18", "Fingerprints are deterministic and distinguish identities",
 "The fingerprint of a key with an identifier is always the same text, bilateral fingerprints do not depend on which side computes them, and different keys or identifiers give different fingerprints.",
 ["inputs"], "all keys and identifiers",
 "Tests sample a few keys.", ["fingerprint.c"], [("SHA-512 over key and identifier", S + "fingerprint.c")])
prop("C19", "Text encodings round-trip",
 "Base32, base64 and hexadecimal encoding followed by decoding returns the original bytes for every input, and malformed text is rejected.",
 ["inputs"], "all byte strings and all text",
 "Tests sample fixed vectors.", ["b32.c", "util.c"], [("encoders and decoders", S + "util.c")])
prop("C20", "Raw and DER signature forms and password KDF outputs are consistent",
 "Converting a signature to its raw form and back preserves its validity, and a key derivation repeated with the stored parameters gives the same key while any other passphrase or salt gives another.",
 ["inputs"], "all signatures, passphrases and parameters",
 "Tests sample fixed vectors.", ["openssl_suite.c", "kdf.c"], [("conversion and KDF functions", S + "openssl_suite.c")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
