// World "hostile" (C14): every decoder, fed with corrupted, truncated, spliced and crafted bytes. Three layers: the outer
// bytes as a disk or network would damage them; signed bodies re-signed by a malicious but legitimate peer; and the
// plaintexts that peer encrypts (headers, key exchanges, payloads, handshake secrets, exports), changed before encryption.
// Whatever is still accepted is then used, serialized, copied and destroyed. Oracles: address and undefined-behaviour
// sanitizers, a step budget, the allocation balance, and a victim that keeps working afterwards.
#include "lib.hpp"
#include "vfs.hpp"
#include <memory>
#include <deque>
#include <algorithm>

namespace {
const int SIG = 143;
enum Kind { K_PACKET, K_PAYLOAD, K_IDENTITY, K_CHAIN, K_CHAIN_PRIV, K_NODE, K_EPH, K_ROOT, K_STORAGE, K_CTX, K_EXPORT, K_STEXPORT, K_BACKUP, K_RKEXPORT,
            K_CKEY, K_CRES, K_ECPRI, K_ECPUB, K_SIG, K_EXSET, K_KDFMETA, K_SKEY, K_TPKT, K_HEX, K_B64, K_B32, K_FILE, K_EXCH, K_ECDH, K_KDFC, K_STREAM, K_N };
const char *kname[] = {"packet", "payload", "identity", "chain", "private chain", "node", "message key", "root keys", "storage keys", "context", "export", "storage export", "backup", "recovery key export",
            "cipher key", "cipher result", "private key", "public key", "signature", "key exchange set", "kdf parameters", "stream key", "transport packet", "hex text", "base64 text", "base32 text", "file", "key exchange", "ecdh message", "passphrase message", "stream packet"};
struct H;
struct Tend { OTransport t; std::deque<Bytes> out; bool victim = false; wickr_transport_validate_identity_callback cb = nullptr; int policy = 0; uint64_t got = 0; };
struct H {
    OGen V, A; OEph vkey; ONode vnode; Bytes vser, vkeypri;
    std::map<int, Bytes> corpus; Bytes stored, stored_pt;
    Bytes pass = "correct horse battery", sys, salt; 
    OKey key; OKey rk;
    OSKey skey; OStream enc, dec; uint64_t seq = 1; uint64_t dseq = 1;
    Tend tv, ta; std::vector<Bytes> seen; int evo = 0;
    uint64_t n = 0;
    std::function<Bytes(const Bytes &)> inner; int inner_at = -1, inner_n = 0;
};
H *h;
Bytes rnd(size_t n) { Rng r(++h->n * 0x9E37 + g.run_seed * 3 + 5); return r.bytes(n); }

// ---------------------------------------------------------------- mutation
struct F { int tag = 0, wt = 0; uint64_t v = 0; Bytes d; std::vector<F> sub; bool msg = false; };
bool varint(const Bytes &s, size_t &i, uint64_t &v) { v = 0; for (int sh = 0; i < s.size() && sh < 70; sh += 7) { uint8_t c = (uint8_t)s[i++]; if (sh < 64) v |= (uint64_t)(c & 127) << sh; if (!(c & 128)) return true; } return false; }
void put(Bytes &o, uint64_t v) { do { o += (char)((v & 127) | (v > 127 ? 128 : 0)); v >>= 7; } while (v); }
bool pb_parse(const Bytes &s, std::vector<F> &out, int depth) {
    size_t i = 0;
    while (i < s.size()) {
        uint64_t t; if (!varint(s, i, t) || !(t >> 3) || (t >> 3) > 200) return false;
        F f; f.tag = (int)(t >> 3); f.wt = (int)(t & 7);
        if (f.wt == 0) { if (!varint(s, i, f.v)) return false; }
        else if (f.wt == 2) { uint64_t n; if (!varint(s, i, n) || n > s.size() - i) return false; f.d = s.substr(i, n); i += n; if (depth < 5 && f.d.size() > 1) f.msg = pb_parse(f.d, f.sub, depth + 1); if (!f.msg) f.sub.clear(); }
        else if (f.wt == 1) { if (i + 8 > s.size()) return false; f.d = s.substr(i, 8); i += 8; }
        else if (f.wt == 5) { if (i + 4 > s.size()) return false; f.d = s.substr(i, 4); i += 4; }
        else return false;
        out.push_back(std::move(f));
    }
    return true;
}
Bytes pb_emit(const std::vector<F> &v) {
    Bytes o;
    for (auto &f : v) {
        put(o, (uint64_t)f.tag << 3 | (uint64_t)f.wt);
        if (f.wt == 0) put(o, f.v);
        else if (f.wt == 2) { Bytes d = f.msg ? pb_emit(f.sub) : f.d; put(o, d.size()); o += d; }
        else { Bytes d = f.d; d.resize(f.wt == 1 ? 8 : 4); o += d; }
    }
    return o;
}
struct Ref { std::vector<F> *in; size_t i; };
void flatten(std::vector<F> &v, std::vector<Ref> &o) { for (size_t i = 0; i < v.size(); i++) { o.push_back({&v, i}); if (v[i].msg) flatten(v[i].sub, o); } }
Bytes raw_alter(const Bytes &s, int64_t kind, int64_t a, int64_t b) {
    Bytes d = s; if (d.empty()) return Bytes(1, (char)b);
    size_t n = d.size(); Rng r((uint64_t)a * 131 + (uint64_t)b);
    switch (kind % 12) {
        case 0: d[(size_t)a % n] ^= (char)(1 << (b & 7)); break;
        case 1: d.resize((size_t)a % n); break;
        case 2: d += r.bytes(1 + (size_t)(a % 300)); break;
        case 3: d.erase(0, 1 + (size_t)a % n); break;
        case 4: d[(size_t)a % std::min<size_t>(n, 4)] = (char)b; break;                              // the first bytes decide most
        case 5: { static const uint8_t v[] = {0, 1, 2, 3, 4, 0x7f, 0x80, 0xff, 0x10, 0xf0}; d[(size_t)a % n] = (char)v[b % 10]; break; }
        case 6: { size_t p = (size_t)a % n; d.erase(p, 1 + (size_t)(b % 40)); break; }
        case 7: { d.insert((size_t)a % n, r.bytes(1 + (size_t)(b % 40))); break; }
        case 8: d.resize(1 + (size_t)(a % 20) % n); break;
        case 9: d = r.bytes(1 + (size_t)r.loguni(2000)); break;
        case 10: { size_t p = (size_t)a % n, m = std::min<size_t>(8, n - p); for (size_t i = 0; i < m; i++) d[p + i] = (char)(b & 1 ? 0xff : 0); break; }
        default: { size_t l = (size_t)r.loguni(60000); while (d.size() < l) d += s; break; }
    }
    return d;
}
Bytes pb_alter(const Bytes &s, int64_t x, int64_t y) {
    std::vector<F> v; if (!pb_parse(s, v, 0) || v.empty()) return raw_alter(s, y, x, x / 7);
    std::vector<Ref> all; flatten(v, all);
    Ref t = all[(size_t)x % all.size()]; F &f = (*t.in)[t.i]; int64_t z = x / (int64_t)all.size() + y / 17; Rng r((uint64_t)(x * 31 + y));
    static const uint64_t ext[] = {0, 1, 2, 127, 128, 255, 256, 511, 512, 32768, 32769, 65535, 65536, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull};
    switch (y % 17) {
        case 0: t.in->erase(t.in->begin() + (long)t.i); break;
        case 1: { F c = f; t.in->insert(t.in->begin() + (long)t.i, c); break; }
        case 2: f.tag = 1 + (int)(z % 9); break;
        case 3: if (f.wt == 2) { f.wt = 0; f.v = (uint64_t)z; } else { f.wt = 2; f.msg = false; f.d = r.bytes((size_t)(z % 40)); } break;
        case 4: if (f.wt == 2) { f.msg = false; f.sub.clear(); f.d.clear(); } else f.v = 0; break;
        case 5: case 6: case 7: if (f.wt == 2) { if (f.msg) { f.d = pb_emit(f.sub); f.msg = false; f.sub.clear(); } f.d = raw_alter(f.d, z, r.below(100000), r.below(256)); } else f.v = ext[z % 20]; break;
        case 8: case 9: if (f.wt == 0) f.v = ext[z % 20]; else { F &o = (*all[(size_t)z % all.size()].in)[all[(size_t)z % all.size()].i]; if (&o != &f) { Bytes d = o.msg ? pb_emit(o.sub) : o.d; f.msg = false; f.sub.clear(); f.d = d; f.wt = 2; } } break;
        case 10: { F n; n.tag = 1 + (int)(z % 12); n.wt = (int)(z % 2) * 2; n.v = ext[z % 20]; n.d = r.bytes((size_t)(z % 30)); t.in->insert(t.in->begin() + (long)t.i, n); break; }
        case 11: { int k = (int)(z % K_N); if (h->corpus.count(k)) { f.wt = 2; f.msg = false; f.sub.clear(); f.d = h->corpus[k]; } break; }
        case 12: { F c = f; int n = 2 + (int)(z % 200); for (int i = 0; i < n && c.d.size() * (size_t)n < 400000; i++) t.in->push_back(c); break; }
        case 13: { size_t o = (size_t)z % t.in->size(); std::swap(f, (*t.in)[o]); break; }
        case 14: { t.in->clear(); break; }
        case 15: f.wt = (int)(z % 6); if (f.wt != 2) f.msg = false; break;
        default: { Bytes e = pb_emit(v); return raw_alter(e, z, r.below(100000), r.below(256)); }
    }
    return pb_emit(v);
}
Bytes mutate(const Bytes &s, const Op &op, size_t at) {
    Bytes b = s; int n = (int)op.arg(at);
    for (int i = 0; i < n; i++) {
        int64_t mk = op.arg(at + 1 + 3 * (size_t)i), x = op.arg(at + 2 + 3 * (size_t)i), y = op.arg(at + 3 + 3 * (size_t)i);
        if (mk >= 20) b = pb_alter(b, x, y); else if (mk == 19) { int k = (int)(x % K_N); if (h->corpus.count(k)) b = h->corpus[k]; } else if (mk == 18) { size_t k = (size_t)(y % 2 ? x % 48 : x % 12); if (b.size() > k) b.resize(k); } else b = raw_alter(b, mk, x, y);
        if (b.size() > 300000) b.resize(300000);
    }
    return b;
}
// changes the body of a signed form and signs it again as the attacker
Bytes resign(const Bytes &b, size_t prefix, const Op &op, size_t at) {
    PauseFaults pf;
    if (b.size() < prefix + SIG) return mutate(b, op, at);
    Bytes body = mutate(b.substr(prefix, b.size() - prefix - SIG), op, at);
    Bytes head = b.substr(0, prefix), signed_part = prefix == 2 ? body : head + body;
    OBuf m(mkbuf(signed_part)); if (!m) return head + body + b.substr(b.size() - SIG);
    OSig s(wickr_identity_sign(h->A->ctx->id_chain->node, &RAW, m.p)); OBuf ss(s ? wickr_ecdsa_result_serialize(s.p) : nullptr);
    return head + body + B(ss);
}
// ---------------------------------------------------------------- making genuine bytes (as the attacker, or the victim's own storage)
struct Hook {
    Hook() {
        h->inner_n = 0;
        if (!h->inner) return;
        obs.encrypt_hook = [](const wickr_buffer_t *pt, const wickr_buffer_t *aad, const wickr_cipher_key_t *key, const wickr_buffer_t *iv) -> wickr_cipher_result_t * {
            if (h->inner_n++ != h->inner_at && h->inner_at >= 0) return RAW.wickr_crypto_engine_cipher_encrypt(pt, aad, key, iv);
            OBuf m(mkbuf(h->inner(B(pt)))); g.fault_event("inner_plaintext");
            return RAW.wickr_crypto_engine_cipher_encrypt(m ? m.p : pt, aad, key, iv);
        };
    }
    ~Hook() { obs.encrypt_hook = nullptr; }
};
OPayload mkpayload() { return OPayload(wickr_payload_create(wickr_packet_meta_create(wickr_ephemeral_info_t{100, 200}, mkbuf(rnd(20)), 7), mkbuf(rnd(50)))); }
wickr_dev_info_t *vdev() {
    PauseFaults pf; OBuf s(mkbuf(h->sys)), sa(mkbuf(h->salt)); wickr_dev_info_t *i = wickr_dev_info_derive(&RAW, sa.p, s.p); if (i) sa.release(); return i;
}
Bytes S(wickr_buffer_t *b) { OBuf o(b); return B(o); }
OBuf Q(const Bytes &b) { return OBuf(mkbuf(b)); }
Bytes fresh(int kind) {
    PauseFaults pf; Hook hook; wickr_ctx_t *a = h->A->ctx;
    switch (kind) {
        case K_PACKET: {
            OPayload p = mkpayload(); wickr_node_array_t *arr = wickr_node_array_new(2); wickr_node_array_set_item(arr, 0, h->vnode.p); wickr_node_array_set_item(arr, 1, h->vnode.p);
            a->pkt_enc_version = (uint8_t)(2 + h->n % 3);
            OEnc e(wickr_ctx_encode_packet(a, p.p, arr)); wickr_node_array_destroy(&arr);
            return e ? S(wickr_packet_serialize(e->packet)) : Bytes();
        }
        case K_PAYLOAD: { OPayload p = mkpayload(); return S(wickr_payload_serialize(p.p)); }
        case K_IDENTITY: return S(wickr_identity_serialize(a->id_chain->node));
        case K_CHAIN: return S(wickr_identity_chain_serialize(a->id_chain));
        case K_CHAIN_PRIV: return S(wickr_identity_chain_serialize_private(a->id_chain));
        case K_NODE: return S(wickr_node_serialize(h->vnode.p));
        case K_EPH: return S(wickr_ephemeral_keypair_serialize(h->vnode->ephemeral_keypair));
        case K_ROOT: return S(wickr_root_keys_serialize(h->A->root_keys));
        case K_STORAGE: return S(wickr_storage_keys_serialize(a->storage_keys));
        case K_CTX: return S(wickr_ctx_serialize(h->V->ctx));
        case K_EXPORT: { OBuf p = Q(h->pass); return S(wickr_ctx_export(a, p.p)); }
        case K_STEXPORT: { OBuf p = Q(h->pass); return S(wickr_ctx_export_storage_keys(a, p.p)); }
        case K_BACKUP: return S(wickr_ctx_gen_result_make_recovery(h->A.p));
        case K_RKEXPORT: { OBuf p = Q(h->pass); return S(wickr_ctx_gen_export_recovery_key_passphrase(h->A.p, p.p)); }
        case K_CKEY: return S(wickr_cipher_key_serialize(h->key.p));
        case K_CRES: { OBuf p = Q(rnd(40)); OCipher c(ENG.wickr_crypto_engine_cipher_encrypt(p.p, NULL, h->key.p, NULL)); return c ? S(wickr_cipher_result_serialize(c.p)) : Bytes(); }
        case K_ECPRI: return pool_ec[0];
        case K_ECPUB: return B(a->id_chain->node->sig_key->pub_data);
        case K_SIG: { OBuf p = Q(rnd(30)); OSig s(wickr_identity_sign(a->id_chain->node, &RAW, p.p)); return S(wickr_ecdsa_result_serialize(s.p)); }
        case K_EXSET: {
            OBuf k = Q(pool_ec[1]); wickr_exchange_array_t *arr = wickr_exchange_array_new(2);
            for (uint32_t i = 0; i < 2; i++) { OBuf pt = Q(rnd(33)); wickr_exchange_array_set_item(arr, i, wickr_key_exchange_create(mkbuf(rnd(32)), 7 + i, RAW.wickr_crypto_engine_cipher_encrypt(pt.p, NULL, h->key.p, NULL))); }
            OExchSet s(wickr_key_exchange_set_create(RAW.wickr_crypto_engine_ec_key_import(k.p, true), arr)); return s ? S(wickr_key_exchange_set_serialize(s.p)) : Bytes();
        }
        case K_KDFMETA: { OKdfMeta m(wickr_kdf_meta_create(h->n % 2 ? KDF_SCRYPT_2_17 : KDF_HKDF_SHA256, mkbuf(rnd(h->n % 2 ? 16 : 32)), h->n % 2 ? NULL : mkbuf(rnd(12)))); return m ? S(wickr_kdf_meta_serialize(m.p)) : Bytes(); }
        case K_SKEY: return S(wickr_stream_key_serialize(h->skey.p));
        case K_TPKT: return h->seen.empty() ? Bytes() : h->seen[h->n % h->seen.size()];
        case K_HEX: { OBuf p = Q(rnd(30)); return S(getHexStringFromData(p.p)); }
        case K_B64: { OBuf p = Q(rnd(31)); return S(getBase64FromData(p.p)); }
        case K_B32: { OBuf p = Q(rnd(29)); return S(base32_encode(p.p)); }
        case K_FILE: { vfs.put("/h/src", rnd(h->n % 2 ? 60 : 5000)); Bytes o; if (RAW.wickr_crypto_engine_encrypt_file(h->key.p, "/h/src", "/h/enc")) o = vfs.get("/h/enc"); return o; }
        case K_EXCH: case K_ECDH: {
            OEc k(wickr_ec_key_copy(h->vkey->ec_key)); OEcdh x(wickr_ecdh_cipher_ctx_create(ENG, EC_CURVE_NIST_P521, CIPHER_AES256_GCM)); OBuf pt = Q(rnd(64));
            OKdfMeta m; { PauseFaults pf; m.reset(wickr_kdf_meta_create(KDF_HKDF_SHA512, mkbuf(Bytes(64, 1)), mkbuf(Bytes(8, 2)))); }
            if (!x || !k) return Bytes(); OCipher c(wickr_ecdh_cipher_ctx_cipher(x.p, pt.p, k.p, m.p)); return c ? S(wickr_cipher_result_serialize(c.p)) : Bytes();
        }
        case K_KDFC: { OBuf p = Q(h->pass), d = Q(rnd(60)); return S(wickr_crypto_engine_kdf_cipher(&ENG, KDF_SCRYPT_2_17, CIPHER_AES256_GCM, d.p, p.p)); }
        case K_STREAM: { OBuf p = Q(rnd(45)); OCipher c(wickr_stream_ctx_encode(h->enc.p, p.p, NULL, h->seq++)); return c ? S(wickr_cipher_result_serialize(c.p)) : Bytes(); }
    }
    return Bytes();
}
Bytes genuine(int kind, bool renew) {
    if (!renew && h->corpus.count(kind)) return h->corpus[kind];
    Bytes b = fresh(kind); if (!h->inner && b.size()) h->corpus[kind] = b;
    return b;
}

// ---------------------------------------------------------------- using what was accepted
void use(const wickr_buffer_t *b) { volatile uint8_t s = 0; if (b) for (size_t i = 0; i < b->length; i++) s = (uint8_t)(s ^ b->bytes[i]); }
#define TAKE(e) do { OBuf _b(e); use(_b.p); } while (0)
void use_sig(const wickr_ecdsa_result_t *s) { TAKE(wickr_ecdsa_result_serialize(s)); OSig c(wickr_ecdsa_result_copy(s)); OBuf d = Q("abc"); (void)ENG.wickr_crypto_engine_ec_verify(s, h->V->ctx->id_chain->node->sig_key, d.p); OBuf r(ENG.wickr_crypto_engine_ecdsa_to_raw(s)); use(r.p); if (r) OSig back(ENG.wickr_crypto_engine_ecdsa_from_raw(s->curve, s->digest_mode, r.p)); }
void use_ec(const wickr_ec_key_t *k) {
    use(k->pub_data); use(k->pri_data); OEc c(wickr_ec_key_copy(k)); OBuf d = Q("message");
    if (k->pri_data) { OSig s(ENG.wickr_crypto_engine_ec_sign(k, d.p, DIGEST_SHA_256)); }
    OBuf x(ENG.wickr_crypto_engine_gen_shared_secret(h->vkey->ec_key, k)); use(x.p);
}
void use_cres(const wickr_cipher_result_t *c) {
    (void)wickr_cipher_result_is_valid(c); TAKE(wickr_cipher_result_serialize(c)); OCipher cp(wickr_cipher_result_copy(c));
    TAKE(ENG.wickr_crypto_engine_cipher_decrypt(c, NULL, h->key.p, true)); TAKE(ENG.wickr_crypto_engine_cipher_decrypt(c, NULL, h->key.p, false));
    TAKE(wickr_ctx_decipher_local(h->V->ctx, c)); TAKE(wickr_ctx_decipher_remote(h->V->ctx, c));
}
void use_ckey(const wickr_cipher_key_t *k) { TAKE(wickr_cipher_key_serialize(k)); OKey c(wickr_cipher_key_copy(k)); OBuf p = Q("plaintext bytes"); OCipher r(ENG.wickr_crypto_engine_cipher_encrypt(p.p, NULL, k, NULL)); if (r) TAKE(ENG.wickr_crypto_engine_cipher_decrypt(r.p, NULL, k, false)); }
void use_id(const wickr_identity_t *i) {
    TAKE(wickr_identity_serialize(i)); OId c(wickr_identity_copy(i));
    OFinger f(wickr_identity_get_fingerprint(i, ENG)); if (f) { TAKE(wickr_fingerprint_get_b32(f.p, FINGERPRINT_OUTPUT_SHORT)); TAKE(wickr_fingerprint_get_hex(f.p, FINGERPRINT_OUTPUT_LONG)); }
    OFinger bi(wickr_identity_get_bilateral_fingerprint(h->V->ctx->id_chain->root, i, ENG));
    OBuf d = Q("x"); OSig s(wickr_identity_sign(i, &ENG, d.p));
}
void use_chain(const wickr_identity_chain_t *c) {
    TAKE(wickr_identity_chain_serialize(c)); TAKE(wickr_identity_chain_serialize_private(c)); OChain cp(wickr_identity_chain_copy(c));
    if (cp) (void)wickr_identity_chain_validate(cp.p, &ENG);
    use_id(c->root); use_id(c->node);
    if (h->corpus.count(K_PACKET)) { OBuf b = Q(h->corpus[K_PACKET]); OCtxPacket p(wickr_ctx_parse_packet(h->V->ctx, b.p, c)); }
}
void use_eph(const wickr_ephemeral_keypair_t *e) { TAKE(wickr_ephemeral_keypair_serialize(e)); OEph c(wickr_ephemeral_keypair_copy(e)); (void)wickr_ephemeral_keypair_verify_owner(e, &ENG, h->V->ctx->id_chain->node); if (e->ec_key) use_ec(e->ec_key); if (e->signature) use_sig(e->signature); }
void use_node(wickr_node_t *n) {
    (void)wickr_node_verify_signature_chain(n, &ENG); TAKE(wickr_node_serialize(n)); ONode c(wickr_node_copy(n));
    if (n->id_chain) use_chain(n->id_chain); if (n->ephemeral_keypair) use_eph(n->ephemeral_keypair);
    OPayload p; { PauseFaults pf; p = mkpayload(); }
    wickr_node_array_t *arr; { PauseFaults pf; arr = wickr_node_array_new(2); }
    if (arr) { wickr_node_array_set_item(arr, 0, n); wickr_node_array_set_item(arr, 1, h->vnode.p); OEnc e(wickr_ctx_encode_packet(h->V->ctx, p.p, arr)); if (e && e->packet) TAKE(wickr_packet_serialize(e->packet)); wickr_node_array_destroy(&arr); }
    if (c) { OEph e2(wickr_ephemeral_keypair_copy(h->vnode->ephemeral_keypair)); if (e2 && wickr_node_rotate_keypair(c.p, e2.p, true)) TAKE(wickr_node_serialize(c.p)); }
}
void use_payload(const wickr_payload_t *p) { use(p->body); if (p->meta) use(p->meta->channel_tag); TAKE(wickr_payload_serialize(p)); OPayload c(wickr_payload_copy(p)); OCipher e(wickr_payload_encrypt(p, &ENG, h->key.p)); }
void use_exset(const wickr_key_exchange_set_t *s) {
    TAKE(wickr_key_exchange_set_serialize(s)); OExchSet c(wickr_key_exchange_set_copy(s)); uint32_t n = s->exchanges ? wickr_array_get_item_count(s->exchanges) : 0;
    for (uint32_t i = 0; i < n && i < 8; i++) { wickr_key_exchange_t *e = wickr_exchange_array_fetch_item(s->exchanges, i); if (!e) continue; use(e->exchange_id); OExch x(wickr_key_exchange_copy(e)); OExch f(wickr_key_exchange_set_find(s, e->exchange_id));
        OKey k(wickr_key_exchange_derive_packet_key(&ENG, h->A->ctx->id_chain, h->vnode.p, s->sender_pub, e, NULL, 4)); }
    OCipher e(wickr_key_exchange_set_encrypt(s, &ENG, h->key.p));
}
void use_ctxpacket(OCtxPacket &p, wickr_ec_key_t *key) {
    if (!p) return;
    if (p->packet) { TAKE(wickr_packet_serialize(p->packet)); OPacket c(wickr_packet_copy(p->packet)); }
    if (p->parse_result) { OParse c(wickr_parse_result_copy(p->parse_result)); if (p->parse_result->key_exchange_set) use_exset(p->parse_result->key_exchange_set); if (p->parse_result->enc_payload) use_cres(p->parse_result->enc_payload); }
    ODec d(wickr_ctx_decode_packet(h->V->ctx, p.p, key));
    if (d) { ODec c(wickr_decode_result_copy(d.p)); if (d->decrypted_payload) { use_payload(d->decrypted_payload); g.stat("hostile_packet_read"); } if (d->payload_key) use_ckey(d->payload_key); }
}
void use_storage(const wickr_storage_keys_t *s) { TAKE(wickr_storage_keys_serialize(s)); OStorage c(wickr_storage_keys_copy(s)); if (s->local) use_ckey(s->local); if (s->remote) use_ckey(s->remote); }
void use_ctx(wickr_ctx_t *c) {
    TAKE(wickr_ctx_serialize(c)); OCtx cp(wickr_ctx_copy(c)); if (c->id_chain) use_chain(c->id_chain); if (c->storage_keys) use_storage(c->storage_keys);
    OEph e(wickr_ctx_ephemeral_keypair_gen(c, 3)); OBuf p = Q("text"); OCipher l(wickr_ctx_cipher_local(c, p.p)), r(wickr_ctx_cipher_remote(c, p.p));
    OBuf pw = Q(h->pass); TAKE(wickr_ctx_export(c, pw.p)); TAKE(wickr_ctx_export_storage_keys(c, pw.p));
    if (h->corpus.count(K_PACKET)) { OBuf b = Q(h->corpus[K_PACKET]); OCtxPacket q(wickr_ctx_parse_packet(c, b.p, h->A->ctx->id_chain)); if (q) ODec d(wickr_ctx_decode_packet(c, q.p, h->vkey->ec_key)); }
}
void use_root(const wickr_root_keys_t *r) {
    TAKE(wickr_root_keys_serialize(r)); ORoot c(wickr_root_keys_copy(r)); ODevInfo di(vdev()); OBuf id = Q(Bytes(16, 'i'));
    if (r->node_signature_root) use_ec(r->node_signature_root);
    OStorage s(di ? wickr_root_keys_localize(r, &ENG, di.p) : nullptr); if (s) use_storage(s.p);
    OGen gr(wickr_ctx_gen_with_root_keys(ENG, di.p, const_cast<wickr_root_keys_t *>(r), id.p)); if (gr) { TAKE(wickr_ctx_gen_result_make_recovery(gr.p)); use_ctx(gr->ctx); }
}
void use_skey(const wickr_stream_key_t *k) {
    TAKE(wickr_stream_key_serialize(k)); OSKey a(wickr_stream_key_copy(k)), b(wickr_stream_key_copy(k)); if (!a || !b) return;
    OStream e(wickr_stream_ctx_create(ENG, a.p, STREAM_DIRECTION_ENCODE)); if (e) a.release();
    OStream d(wickr_stream_ctx_create(ENG, b.p, STREAM_DIRECTION_DECODE)); if (d) b.release();
    OBuf p = Q("stream text");
    for (uint64_t s = 1; e && s < 5; s++) { OCipher c(wickr_stream_ctx_encode(e.p, p.p, NULL, s)); if (c && d) TAKE(wickr_stream_ctx_decode(d.p, c.p, NULL, s)); }
}
bool accept(int kind, const Bytes &bytes, int64_t z) {
    OBuf b = Q(bytes); if (!b) return false;
    if (kind == K_HEX || kind == K_B64) { b = Q(bytes + Bytes(1, '\0')); if (!b) return false; b->length--; }     // these take NUL terminated text
    wickr_ctx_t *v = h->V->ctx;
    OBuf pw = Q(h->pass);
    switch (kind) {
        case K_PACKET: {
            OCtxPacket p, q, r; OChain a(pool_chain(1, false)); if (!a) return false;
            { OPacket k(wickr_packet_create_from_buffer(b.p)); if (k) { TAKE(wickr_packet_serialize(k.p)); OPacket c(wickr_packet_copy(k.p)); } }
            const wickr_identity_chain_t *from = h->A->ctx->id_chain;
            p.reset(wickr_ctx_parse_packet(v, b.p, from)); bool ok = p && p->parse_result && p->parse_result->err == E_SUCCESS;
            use_ctxpacket(p, z % 4 == 0 ? NULL : z % 4 == 1 ? h->V->ctx->id_chain->node->sig_key : h->vkey->ec_key);
            if (z % 2) { q.reset(wickr_ctx_parse_packet_no_decode(v, b.p, from)); use_ctxpacket(q, h->vkey->ec_key); }
            if (z % 3 == 0) { r.reset(wickr_ctx_stateless_parse_packet(&ENG, h->V->ctx->id_chain->node->identifier, b.p, from)); use_ctxpacket(r, h->vkey->ec_key); }
            return ok;
        }
        case K_PAYLOAD: { OPayload p(wickr_payload_create_from_buffer(b.p)); if (p) use_payload(p.p); return (bool)p; }
        case K_IDENTITY: { OId i(wickr_identity_create_from_buffer(b.p, &ENG)); if (i) use_id(i.p); return (bool)i; }
        case K_CHAIN: case K_CHAIN_PRIV: { OChain c(wickr_identity_chain_create_from_buffer(b.p, &ENG)); if (c) use_chain(c.p); return (bool)c; }
        case K_NODE: { ONode n(wickr_node_create_from_buffer(b.p, &ENG)); if (n) use_node(n.p); return (bool)n; }
        case K_EPH: { OEph e(wickr_ephemeral_keypair_create_from_buffer(b.p, &ENG)); if (e) use_eph(e.p); return (bool)e; }
        case K_ROOT: { ORoot r(wickr_root_keys_create_from_buffer(&ENG, b.p)); if (r) use_root(r.p); return (bool)r; }
        case K_STORAGE: { OStorage s(wickr_storage_keys_create_from_buffer(b.p)); if (s) use_storage(s.p); return (bool)s; }
        case K_CTX: { ODevInfo di(vdev()); if (!di) return false; OCtx c(wickr_ctx_create_from_buffer(ENG, di.p, b.p)); if (c) { di.release(); use_ctx(c.p); } return (bool)c; }
        case K_EXPORT: { ODevInfo di(vdev()); if (!di) return false; OCtx c(wickr_ctx_import(ENG, di.p, b.p, pw.p)); if (c) { di.release(); use_ctx(c.p); } return (bool)c; }
        case K_STEXPORT: { OStorage s(wickr_ctx_import_storage_keys(ENG, b.p, pw.p)); if (s) use_storage(s.p); return (bool)s; }
        case K_BACKUP: { ORoot r(wickr_ctx_gen_import_recovery(ENG, b.p, h->rk.p)); if (r) use_root(r.p); if (z % 3 == 0) { ODevInfo di(vdev()); OBuf id = Q("ident"); OGen gn(wickr_ctx_gen_with_recovery(ENG, di.p, b.p, h->rk.p, id.p)); } return (bool)r; }
        case K_RKEXPORT: { OKey k(wickr_ctx_gen_import_recovery_key_passphrase(ENG, b.p, pw.p)); if (k) { use_ckey(k.p); if (h->corpus.count(K_BACKUP)) { OBuf bk = Q(h->corpus[K_BACKUP]); ORoot r(wickr_ctx_gen_import_recovery(ENG, bk.p, k.p)); } }
            if (z % 3 == 0 && h->corpus.count(K_BACKUP)) { OBuf bk = Q(h->corpus[K_BACKUP]); ODevInfo di(vdev()); OBuf id = Q("ident"); OGen gn(wickr_ctx_gen_with_passphrase(ENG, di.p, b.p, pw.p, bk.p, id.p)); } return (bool)k; }
        case K_CKEY: { OKey k(wickr_cipher_key_from_buffer(b.p)); if (k) use_ckey(k.p); return (bool)k; }
        case K_CRES: { OCipher c(wickr_cipher_result_from_buffer(b.p)); if (c) use_cres(c.p); return (bool)c; }
        case K_ECPRI: case K_ECPUB: { OEc k(ENG.wickr_crypto_engine_ec_key_import(b.p, kind == K_ECPRI)); if (k) use_ec(k.p); return (bool)k; }
        case K_SIG: { OSig s(wickr_ecdsa_result_create_from_buffer(b.p)); if (s) use_sig(s.p); OSig raw(ENG.wickr_crypto_engine_ecdsa_from_raw(EC_CURVE_NIST_P521, DIGEST_SHA_512, b.p)); if (raw) use_sig(raw.p); return (bool)s; }
        case K_EXSET: { OExchSet s(wickr_key_exchange_set_create_from_buffer(&ENG, b.p)); if (s) use_exset(s.p); return (bool)s; }
        case K_KDFMETA: { (void)wickr_kdf_meta_size_with_buffer(b.p); OKdfMeta m(wickr_kdf_meta_create_with_buffer(b.p)); if (m) { TAKE(wickr_kdf_meta_serialize(m.p)); OKdfMeta c(wickr_kdf_meta_copy(m.p)); OKdf r(wickr_perform_kdf_meta(m.p, pw.p)); if (r) use(r->hash); OKdf r2(ENG.wickr_crypto_kdf_meta(m.p, pw.p)); } return (bool)m; }
        case K_SKEY: { OSKey k(wickr_stream_key_create_from_buffer(b.p)); if (k) use_skey(k.p); return (bool)k; }
        case K_TPKT: { OTPacket p(wickr_transport_packet_create_from_buffer(b.p)); if (p) { TAKE(wickr_transport_packet_serialize(p.p)); OTPacket c(wickr_transport_packet_copy(p.p)); TAKE(wickr_transport_packet_meta_serialize(&p->meta)); (void)wickr_transport_packet_verify(p.p, &ENG, h->A->ctx->id_chain); use(p->body); } return (bool)p; }
        case K_HEX: { OBuf o(getDataFromHexString(b.p)); use(o.p); if (o) TAKE(getHexStringFromData(o.p)); return (bool)o; }
        case K_B64: { OBuf o(getDataFromBase64(b.p)); use(o.p); if (o) TAKE(getBase64FromData(o.p)); return (bool)o; }
        case K_B32: { OBuf o(base32_decode(b.p)); use(o.p); if (o) TAKE(base32_encode(o.p)); return (bool)o; }
        case K_FILE: {
            vfs.put("/h/in", bytes); vfs.files.erase("/h/out"); bool ok;
            if (z % 2) ok = ENG.wickr_crypto_engine_decrypt_file(h->key.p, "/h/in", "/h/out", z % 3 != 0);
            else { FILE *i, *o; { PauseFaults pf; i = vfs_open("/h/in", "rb"); o = vfs_open("/h/out", "wb"); } ok = ENG.wickr_crypto_engine_decrypt_ofile(i, h->key.p, o, z % 3 != 0); PauseFaults pf; fclose(i); fclose(o); }
            return ok;
        }
        case K_EXCH: {
            OCipher c(wickr_cipher_result_from_buffer(b.p)); if (!c) return false; OBuf id = Q(rnd(32)); OEc ek(wickr_ec_key_copy(h->vkey->ec_key)); if (!id || !ek) return false;
            OExch e(wickr_key_exchange_create(id.p, 5, c.p)); if (!e) return false; id.release(); c.release();
            ONode n(wickr_node_copy(h->vnode.p)); if (!n) return false; wickr_ephemeral_keypair_destroy(&n->ephemeral_keypair); n->ephemeral_keypair = wickr_ephemeral_keypair_copy(h->vkey.p);
            OKey k(n->ephemeral_keypair ? wickr_key_exchange_derive_packet_key(&ENG, h->A->ctx->id_chain, n.p, ek.p, e.p, NULL, (uint8_t)(2 + z % 3)) : nullptr); if (k) use_ckey(k.p);
            TAKE(n->ephemeral_keypair ? wickr_key_exchange_derive_data(&ENG, h->A->ctx->id_chain, n.p, ek.p, e.p, NULL, (uint8_t)(z % 7)) : nullptr); return (bool)k;
        }
        case K_ECDH: {
            OCipher c(wickr_cipher_result_from_buffer(b.p)); if (!c) return false;
            OKdfMeta m; { PauseFaults pf; m.reset(wickr_kdf_meta_create(KDF_HKDF_SHA512, mkbuf(Bytes(64, 1)), mkbuf(Bytes(8, 2)))); } OEc k(wickr_ec_key_copy(h->vkey->ec_key)); if (!m || !k) return false;
            OEcdh x(wickr_ecdh_cipher_ctx_create_key(ENG, k.p, CIPHER_AES256_GCM)); if (!x) return false; k.release();
            OBuf o(wickr_ecdh_cipher_ctx_decipher(x.p, c.p, h->A->ctx->id_chain->node->sig_key, m.p)); use(o.p); return (bool)o;
        }
        case K_KDFC: { OBuf o(wickr_crypto_engine_kdf_decipher(&ENG, b.p, pw.p)); use(o.p); return (bool)o; }
        case K_STREAM: {
            OCipher c(wickr_cipher_result_from_buffer(b.p)); if (!c) return false; uint64_t s = h->dseq + (uint64_t)(z % 3000);
            OBuf o(wickr_stream_ctx_decode(h->dec.p, c.p, NULL, s)); use(o.p); if (o) h->dseq = s; return (bool)o;
        }
    }
    return false;
}

// ---------------------------------------------------------------- sessions with a malicious peer
Tend *tend(const wickr_transport_ctx_t *c) { return (Tend *)wickr_transport_ctx_get_user_ctx(c); }
void t_tx(const wickr_transport_ctx_t *c, wickr_buffer_t *d) { PauseFaults pf; OBuf b(d); Tend *e = tend(c); if (e->out.size() < 64) e->out.push_back(B(b)); if (h->seen.size() < 40) h->seen.push_back(B(b)); }
void t_rx(const wickr_transport_ctx_t *c, wickr_buffer_t *d) { PauseFaults pf; OBuf b(d); use(b.p); tend(c)->got++; }
void t_st(const wickr_transport_ctx_t *, wickr_transport_status) {}
void t_id(const wickr_transport_ctx_t *c, wickr_identity_chain_t *id, wickr_transport_validate_identity_callback done) {
    OChain ch(id); Tend *e = tend(c);
    if (ch && e->victim) use_chain(ch.p);
    ch.reset();
    if (e->policy == 2) { e->cb = done; return; }
    done(c, e->policy == 0);
}
void tnew(bool pinned_v, bool pinned_a, int policy, uint32_t evo) {
    PauseFaults pf;
    wickr_transport_callbacks_t cb = {t_tx, t_rx, t_st, t_id};
    for (int i = 0; i < 2; i++) {
        Tend &e = i ? h->ta : h->tv; e.t.reset(); e.out.clear(); e.cb = nullptr; e.victim = !i; e.policy = i ? 0 : policy;
        wickr_identity_chain_t *l = wickr_identity_chain_copy((i ? h->A : h->V)->ctx->id_chain), *r = nullptr;
        if (i ? pinned_a : pinned_v) { Bytes o = S(wickr_identity_chain_serialize((i ? h->V : h->A)->ctx->id_chain)); OBuf q = Q(o); r = wickr_identity_chain_create_from_buffer(q.p, &RAW); }
        e.t.reset(wickr_transport_ctx_create(ENG, l, r, evo, cb, &e));
        if (!e.t) { wickr_identity_chain_destroy(&l); if (r) wickr_identity_chain_destroy(&r); }
    }
}
void limit_seq(Bytes &b) {      // how far a forged sequence number may run ahead is a separate, recorded finding (op "hugeseq")
    if (b.size() > 9 && ((uint8_t)b[0] >> 4) == 1) { uint64_t s; memcpy(&s, b.data() + 1, 8); if (s > 50000) { s %= 50000; memcpy(&b[1], &s, 8); } }
}
void victim_rx(const Bytes &bytes, const Op &op) {
    if (!h->tv.t) return;
    Bytes b = bytes; limit_seq(b); OBuf q = Q(b); if (!q) return;
    g.log("victim session receives %zu bytes", b.size());
    { FaultScope fs(op); wickr_transport_ctx_process_rx_buffer(h->tv.t.p, q.p); }
    g.log("  status %d", (int)wickr_transport_ctx_get_status(h->tv.t.p));
    g.cover(hmix(700 + (uint64_t)wickr_transport_ctx_get_status(h->tv.t.p), (uint64_t)wickr_transport_ctx_get_last_error(h->tv.t.p)));
    g.progress();
}

// ---------------------------------------------------------------- driver
void setup(const Plan &p) {
    (void)p; PauseFaults pf; vfs.reset(); vfs.clear_fired();
    h->sys = rnd(20); h->salt = rnd(64);
    for (int i = 0; i < 2; i++) {
        ORoot r(pool_root(i)); ODevInfo di(vdev()); OBuf id = Q(Bytes(16, (char)('a' + i)));
        (i ? h->A : h->V).reset(wickr_ctx_gen_with_root_keys(ENG, di.p, r.p, id.p));
    }
    if (!h->V || !h->A) return;
    h->vkey.reset(wickr_ctx_ephemeral_keypair_gen(h->V->ctx, 77)); if (!h->vkey) return;
    h->vnode.reset(wickr_node_create(mkbuf(B(h->V->ctx->dev_info->msg_proto_id)), wickr_identity_chain_copy(h->V->ctx->id_chain), wickr_ephemeral_keypair_copy(h->vkey.p)));
    { Bytes s = S(wickr_node_serialize(h->vnode.p)); OBuf q = Q(s); h->vnode.reset(wickr_node_create_from_buffer(q.p, &ENG)); }
    h->key.reset(wickr_cipher_key_create(CIPHER_AES256_GCM, mkbuf(rnd(32))));
    { Bytes s = S(wickr_cipher_key_serialize(h->A->recovery_key)); OBuf q = Q(s); h->rk.reset(wickr_cipher_key_from_buffer(q.p)); }
    h->skey.reset(wickr_stream_key_create_user_data(wickr_cipher_key_create(CIPHER_AES256_GCM, mkbuf(rnd(32))), mkbuf(rnd(64)), 512, mkbuf(rnd(5))));
    h->enc.reset(wickr_stream_ctx_create(ENG, wickr_stream_key_copy(h->skey.p), STREAM_DIRECTION_ENCODE));
    h->dec.reset(wickr_stream_ctx_create(ENG, wickr_stream_key_copy(h->skey.p), STREAM_DIRECTION_DECODE));
    h->vser = S(wickr_ctx_serialize(h->V->ctx));
    h->stored_pt = rnd(33); OBuf pt = Q(h->stored_pt); OCipher c(wickr_ctx_cipher_local(h->V->ctx, pt.p)); if (c) h->stored = S(wickr_cipher_result_serialize(c.p));
}
bool ready() { return h->V && h->A && h->vkey && h->vnode && h->key && h->rk && h->skey && h->enc && h->dec; }
void still_works() {
    PauseFaults pf; h->inner = nullptr;
    Bytes s = S(wickr_ctx_serialize(h->V->ctx));
    if (s != h->vser) { g.fail("C14", "state-changed", "hostile input changed the keys or identity of the device that received it"); return; }
    OBuf q = Q(h->stored); OCipher c(wickr_cipher_result_from_buffer(q.p)); OBuf o(c ? wickr_ctx_decipher_local(h->V->ctx, c.p) : nullptr);
    if (B(o) != h->stored_pt) { g.fail("C14", "state-changed", "after hostile input the device cannot read its stored data"); return; }
    Bytes p = fresh(K_PACKET); OBuf b = Q(p); OCtxPacket cp(b ? wickr_ctx_parse_packet(h->V->ctx, b.p, h->A->ctx->id_chain) : nullptr); ODec d(cp ? wickr_ctx_decode_packet(h->V->ctx, cp.p, h->vkey->ec_key) : nullptr);
    if (!d || !d->decrypted_payload) { g.fail("C14", "state-changed", "after hostile input the device cannot read a genuine message"); return; }
    g.progress();
}
void exec(const Op &op) {
    const std::string &k = op.kind; g.sim_time++;
    if (k == "feed") {          // kind, layer, use, inner index, mutations
        int kind = (int)(op.arg(0) % K_N), layer = (int)op.arg(1); int64_t z = op.arg(2);
        Bytes b;
        if (layer == 2) { h->inner_at = (int)op.arg(3); h->inner = [&](const Bytes &pt) { return mutate(pt, op, 4); }; b = genuine(kind, true); h->inner = nullptr; }
        else {
            b = genuine(kind, layer == 1 || z % 5 == 0); if (b.empty() && kind == K_TPKT) return;
            if (layer == 1 && kind == K_PACKET) b = resign(b, 2, op, 4); else b = mutate(b, op, 4);
        }
        if (b.empty()) return;
        g.fault_event(layer == 0 ? "outer_bytes" : layer == 1 ? "resigned_body" : "inner_layer");
        bool ok; { FaultScope fs(op); ok = accept(kind, b, z); }
        g.log("%s layer %d %zu bytes: %s", kname[kind], layer, b.size(), ok ? "accepted" : "rejected");
        g.cover(hmix(hmix(1, (uint64_t)kind * 4 + (uint64_t)layer), hmix(ok, (uint64_t)op.arg(5))));
        if (ok) g.stat(std::string("accepted:") + kname[kind]);
        g.progress();
        return;
    }
    if (k == "sweep") {         // every short prefix (or every suffix, or everything but the last bytes) of a genuine value
        int kind = (int)(op.arg(0) % K_N), mode = (int)(op.arg(2) % 3); int64_t z = op.arg(1);
        Bytes b = genuine(kind, z % 3 == 0); size_t n = b.size();
        g.fault_event("truncation_sweep");
        for (size_t i = 1; i <= 40 && i < n && !g.failed(); i++) {
            Bytes t = mode == 0 ? b.substr(0, i) : mode == 1 ? b.substr(n - i) : b.substr(0, n - i);
            bool ok; { FaultScope fs(op); ok = accept(kind, t, z); }
            if (ok) g.stat(std::string("accepted:") + kname[kind]);
        }
        g.progress();
        return;
    }
    if (k == "tnew") { tnew(op.arg(0) & 1, op.arg(0) & 2, (int)(op.arg(1) % 3), (uint32_t)op.arg(2)); return; }
    if (!h->tv.t || !h->ta.t) return;
    if (k == "tstart") { PauseFaults pf; wickr_transport_ctx_start(op.arg(0) ? h->ta.t.p : h->tv.t.p); return; }
    if (k == "tpump") {         // deliver to the attacker (arg0 = layer 2: with changed plaintexts), then to the victim
        int layer = (int)op.arg(0);
        while (!h->tv.out.empty()) {
            Bytes m = h->tv.out.front(); h->tv.out.pop_front(); OBuf q = Q(m);
            if (layer == 2) { h->inner_at = (int)op.arg(1); h->inner = [&](const Bytes &pt) { return mutate(pt, op, 2); }; }
            { PauseFaults pf; Hook hook; wickr_transport_ctx_process_rx_buffer(h->ta.t.p, q.p); }
            h->inner = nullptr;
            if (op.arg(1) == 5) break;
        }
        if (h->ta.out.empty() && layer != 2) return;
        while (!h->ta.out.empty()) {
            Bytes m = h->ta.out.front(); h->ta.out.pop_front();
            bool hs = m.size() > 10 && ((uint8_t)m[0] >> 4) == 0;
            if (layer == 0 && op.arg(2)) { m = mutate(m, op, 2); g.fault_event("outer_bytes"); }
            if (layer == 1) { m = hs ? resign(m, 10, op, 2) : mutate(m, op, 2); g.fault_event("resigned_body"); }
            victim_rx(m, op);
            if (op.arg(1) == 5) break;
        }
        return;
    }
    if (k == "treplay") { if (h->seen.empty()) return; Bytes m = h->seen[(size_t)op.arg(0) % h->seen.size()]; bool hs = m.size() > 10 && ((uint8_t)m[0] >> 4) == 0; m = op.arg(1) && hs ? resign(m, 10, op, 2) : mutate(m, op, 2); g.fault_event("replayed"); victim_rx(m, op); return; }
    if (k == "tsend") { OBuf q = Q(rnd((size_t)op.arg(1) + 1)); PauseFaults pf; wickr_transport_ctx_process_tx_buffer(op.arg(0) ? h->ta.t.p : h->tv.t.p, q.p); return; }
    if (k == "tverify") { if (h->tv.cb) { FaultScope fs(op); h->tv.cb(h->tv.t.p, op.arg(0) != 0); if (op.arg(1) == 0) { PauseFaults pf; h->tv.cb = nullptr; } } return; }
    if (k == "tcopy") { OTransport c; { FaultScope fs(op); c.reset(wickr_transport_ctx_copy(h->tv.t.p)); } if (c) h->tv.t = std::move(c); return; }
    if (k == "hugeseq") {       // recorded finding: the key schedule is run forward to a claimed sequence number before the packet is authenticated
        if (wickr_transport_ctx_get_status(h->tv.t.p) != TRANSPORT_STATUS_ACTIVE) return;
        Bytes m; for (auto &s : h->seen) if (s.size() > 40 && ((uint8_t)s[0] >> 4) == 1) m = s;
        if (m.empty()) return;
        uint64_t s = op.arg(0) ? (uint64_t)op.arg(0) : ~0ull >> 1; memcpy(&m[1], &s, 8);
        obs.hmacs = 0; obs.hmac_limit = 60000; OBuf q = Q(m);
        { FaultScope fs(op); wickr_transport_ctx_process_rx_buffer(h->tv.t.p, q.p); }
        obs.hmac_limit = 0;
        if (obs.hmacs > 60000) g.fail("C14", "huge-sequence-number", "one forged data packet with a large sequence number makes an active session compute key updates practically without end");
        return;
    }
}
void run(const Plan &p) {
    auto st = std::make_unique<H>(); h = st.get();
    setup(p);
    if (!ready()) { g.log("set-up impossible"); g.stat("setup_failed"); st.reset(); vfs.reset(); vfs.on = false; return; }
    for (auto &op : p.ops) { exec(op); g.steps++; if (g.failed()) break; }
    if (!g.failed()) still_works();
    if (!g.failed() && vfs.open_handles) g.fail("C14", "leak", "%d file handles were left open", vfs.open_handles);
    vfs.reset(); vfs.on = false;
    st.reset(); h = nullptr;
    check_leaks("C14");
}
void muts(Rng &r, Op &o, bool pb) {
    int n = r.chance(3, 4) ? 1 : 2 + (int)r.below(2); o.a.push_back(n);
    for (int i = 0; i < n; i++) { o.a.push_back(pb && r.chance(3, 4) ? 20 : r.chance(1, 12) ? 19 : r.chance(1, 9) ? 18 : (int64_t)r.below(12)); o.a.push_back((int64_t)r.below(100000)); o.a.push_back((int64_t)r.below(100000)); }
}
void gen(const std::string &, Rng &r, Plan &p) {
    static const bool is_pb[K_N] = {true, true, true, true, true, true, true, true, true, true, false, false, false, false, false, false, false, false, false, true, false, true, false, false, false, false, false, false, false, false, false};
    static const bool has_inner[K_N] = {true, false, false, false, false, false, false, false, false, false, true, true, true, true, false, false, false, false, false, false, false, false, false, false, false, false, false, false, true, true, true};
    bool sess = r.chance(1, 3); int n = 8 + (int)r.below(22);
    std::vector<int> focus; for (int i = 0; i < 3 + (int)r.below(4); i++) focus.push_back((int)r.below(K_N));     // each run looks at a few kinds
    auto feed = [&]() {
        int k = r.chance(1, 3) ? K_PACKET : r.pick(focus);
        int layer = k == K_PACKET ? (int)r.below(3) : has_inner[k] && r.chance(2, 3) ? 2 : 0;
        Op o{"feed", {k, layer, (int64_t)r.below(1000), layer == 2 ? (k == K_PACKET ? (int64_t)r.below(4) : 0) : 0}, {}};
        muts(r, o, layer == 2 ? (k != K_ECDH && k != K_KDFC && k != K_RKEXPORT && k != K_STREAM) : is_pb[k]);
        return o;
    };
    auto tmut = [&](const char *k, std::vector<int64_t> a, bool pb) { Op o{k, a, {}}; muts(r, o, pb); return o; };
    if (!sess) for (int i = 0; i < n; i++) p.ops.push_back(feed());
    else for (int s = 0; s < 1 + (int)r.below(3); s++) {
        p.op("tnew", {(int64_t)r.below(4), (int64_t)r.below(4), r.chance(1, 2) ? 0 : (int64_t)r.loguni(4000)});
        int who = (int)r.below(2); p.op("tstart", {who});
        int bad = (int)r.below(4);      // in which exchange the attacker misbehaves
        for (int i = 0; i < 5; i++) {
            if (i == bad || r.chance(1, 6)) { int l = (int)r.below(3); p.ops.push_back(tmut("tpump", {l, l == 2 ? (int64_t)r.below(2) : r.chance(1, 4) ? 5 : 0}, l > 0 || r.chance(1, 2))); }
            else p.ops.push_back(Op{"tpump", {0, 0, 0}, {}});
            if (r.chance(1, 4)) p.op("tverify", {(int64_t)r.chance(2, 3), (int64_t)r.below(4)});
            if (i > 1 && r.chance(2, 3)) p.op("tsend", {(int64_t)r.below(2), (int64_t)r.below(80)});
            if (r.chance(1, 5)) p.ops.push_back(tmut("treplay", {(int64_t)r.below(40), (int64_t)r.below(2)}, r.chance(1, 2)));
            if (r.chance(1, 12)) p.op("tcopy", {0});
            if (r.chance(1, 8)) p.ops.push_back(feed());
        }
    }
    for (int i = 0; i < 3; i++) if (r.chance(1, 2)) p.ops.insert(p.ops.begin() + (long)r.below(p.ops.size() + 1), Op{"sweep", {(int64_t)r.below(K_N), (int64_t)r.below(1000), r.chance(1, 2) ? 0 : (int64_t)r.below(3)}, {}});
    if (r.chance(1, 5)) for (int i = 0; i < 2; i++) { Op &o = p.ops[r.below(p.ops.size())]; o.faults.push_back(Fault{r.chance(1, 2) ? F_ALLOC : F_OSSL, r.loguni(120), 0}); }
}
}
extern const World W_hostile;
const World W_hostile = {"hostile", gen, run};
