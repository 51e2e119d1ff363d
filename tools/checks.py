"""Per-property settings of the checks (budgets, evidence texts)."""
COMPONENTS = {
    "real": ["src/wickrcrypto/src/*.c and src/protobuf/gen/*.c compiled unchanged from /repo's working tree (ASan+UBSan)", "libcrypto 3.0 (ciphers, digests, EC)", "libprotobuf-c"],
    "simulated": ["random numbers (OpenSSL RAND_METHOD fed by the run's seed)", "memory allocation of the library and protobuf-c (--wrap malloc/calloc/realloc/free)", "network / message service between parties", "file system seen by the file cipher (--wrap fopen/rename/remove, custom streams)", "failures of libcrypto calls (--wrap)", "the crypto engine table handed to the library (observing, failing wrappers)"],
    "stub": ["libscrypt and crypt_blowfish (not installed; deterministic SHA-512 stand-ins with the same interface)"],
}
_A = ["cryptographic primitives of libcrypto are taken to be sound", "scrypt/bcrypt are replaced by stand-ins", "single-threaded use, as the library documents no locking of its own"]


def chk(level, rule, states, quick=35, thorough=600, **kw):
    d = dict(level=level, rule=rule, states=states, quick=quick, thorough=thorough, assumptions=_A)
    d.update(kw)
    return d


_nt = " A run counts when at least one injected fault or adversarial event and at least one successful protocol step happened in it; runs with the same schedule and faults count once."
_sess = "Each run builds 1-3 pairs of transport endpoints (plus attacker endpoints and injected handshakes), interleaves their operations (also re-entrant ones from inside callbacks, sessions across many key intervals) with a seeded scheduler and applies loss, duplication, reordering, alteration, injection, forgery, misuse and dependency failures." + _nt
_sst = "hash of (operation kind, announced status before/after, role, pending verdict, tainted-by-fault) and of state announcements"
CHECKS = {p: chk("exploration", _sess, _sst) for p in ("C05", "C06", "C07", "C08")}
_stream = "Each run opens streams in both directions from root keys, drives senders and receivers over a lossy network (loss, duplication, reordering, alteration, cross-stream and wrong-associated-data packets, gaps from one packet to hundreds of key intervals, restarts from serialized keys, copies, dependency failures) and compares every decode with a reference model that has its own HMAC key schedule." + _nt
_stst = "hash of (send: position in the key interval, interval, fault fired; receive: alteration kind, interval jump, boundary position, accepted or not)"
CHECKS["C09"] = chk("exploration", _stream, _stst)
CHECKS["C17"] = chk("exploration", _stream, _stst)
CHECKS["C10"] = chk("exploration", "Each run keeps a simulated disk with plain and encrypted files and runs encryption, decryption, buffer and digest operations with read/write/open/close/rename errors, short transfers, full disk, process death at any I/O call, allocation, randomness and libcrypto failures; the disk is compared with the model after every operation and every produced file is decrypted by an independent implementation." + _nt, "hash of (operation, cipher, outcome, crash, which I/O faults fired, same-file, size class)")
CHECKS["C13"] = chk("fault_enumeration", "For every scripted operation (scenario) the run index enumerates every allocation, random draw, engine call and libcrypto call as a single failure point, then samples persistent and multi-fault combinations, first in the scenarios and then in mixed runs of the device, session, stream and file worlds, where any wrong result that disappears without the faults counts." + _nt, "hash of (scenario, fault kind, position, outcome)")
_dev = "Each run creates up to 3 accounts with up to 3 devices each around an untrusted message service that delays, duplicates, reorders, mixes and alters; devices send packets (versions 2-4) to lists of 1 to 270 entries, rotate message keys, are serialized, exported, restarted from their stored bytes and restored from passphrases, recovery data and altered exports, while allocations, random draws and libcrypto calls fail." + _nt
_dst = "hash of (operation, packet version, number of recipients, role of the recipient, outcome, alteration kind, fault fired)"
for p in ("C01", "C02", "C03", "C11", "C12"):
    CHECKS[p] = chk("exploration", _dev, _dst)
CHECKS["C04"] = chk("exploration", "Every encryption of the session, stream, file, device and copied-session worlds is recorded where the library hands key and IV to libcrypto: no pair may occur twice in a run (exact retransmissions of one call excluded) and an operation whose random draw failed must emit nothing. Random failures are injected at sampled draws, alone or from there on." + _nt, _dst + "; for sessions, streams, files and copies the hashes of those worlds")
CHECKS["C14"] = chk("exploration", "Each run feeds altered, truncated, spliced, recombined and crafted bytes (protobuf-aware and layout-aware edits of real messages at every layer, re-signed and re-encrypted where an attacker with keys of his own could) to every decoder and to live devices, sessions and streams, with allocation and libcrypto failures in between, under ASan/UBSan with leak accounting, an allocation budget, a CPU budget and a check that bystander objects still work." + _nt, "hash of (decoder, layer, edit kind, accepted or rejected, size class, fault fired)")
CHECKS["C15"] = chk("exploration", "Each run takes objects of all 33 copyable kinds, acts on them, copies them at arbitrary points (also copies of copies, also under allocation failures), alters and destroys relatives, and compares every object with a twin rebuilt from scratch by replaying its history without any copy, with the random source reset alike for both; sessions and handshakes are copied in mid-flight and driven on by rebuilt peers." + _nt, "hash of (kind, action, copied or not, fault fired) and (kind, question, answer class)")
CHECKS["C16"] = chk("exploration", "Every byte that leaves the library in the device, session, stream and file worlds (packets, decrypted packet headers, wire buffers, exports, disk contents, serialized public objects also while still unsigned, error paths under injected faults) is searched for every secret of the run (private scalars, symmetric keys, passphrases, plaintexts) verbatim, at every offset." + _nt, _dst)
