#include "lib.hpp"
#include <cstdlib>

wickr_crypto_engine_t ENG, RAW;
EngineObs obs;
std::vector<PoolId> pool;
std::vector<Bytes> pool_ec;

wickr_buffer_t *mkbuf(const Bytes &b) {
    PauseFaults pf;
    wickr_buffer_t *r = wickr_buffer_create_empty(b.size());
    if (r && b.size()) memcpy(r->bytes, b.data(), b.size());
    return r;
}
void EngineObs::reset() { kiv.clear(); rnd.clear(); nenc = 0; keys.clear(); record_kiv = true; record_keys = false; last_enc_key.clear(); last_dec_key.clear(); hmacs = 0; hmac_limit = 0; encrypt_hook = nullptr; last_dec_ok = false; }

void note_kiv(const Bytes &key, const Bytes &iv) {
    if (!obs.record_kiv) return;
    obs.nenc++;
    Bytes k = key + iv;
    auto it = obs.kiv.find(k);
    if (it != obs.kiv.end()) g.fail("C04", "key-iv-reuse", "encryption %llu reuses the key and IV of encryption %llu (iv %s)", (unsigned long long)obs.nenc, (unsigned long long)it->second, hex(iv).c_str());
    else obs.kiv[k] = obs.nenc;
}
static void key_seen(const wickr_buffer_t *b) { if (obs.record_keys && b && b->length >= 16) obs.keys.add(B(b), "symmetric key"); }

// every part of a random value is new: no eight bytes in a row come twice
static void random_seen(const wickr_buffer_t *b, const char *what) {
    if (g.prop != "C04" || !obs.record_kiv || !b) return;
    for (size_t i = 0; i + 8 <= b->length && i < 512; i += 8)
        if (!obs.rnd.insert(Bytes((char *)b->bytes + i, 8)).second) { g.fail("C04", "stale-randomness", "%s of %zu bytes holds bytes of an earlier one", what, b->length); return; }
}
static wickr_buffer_t *e_random(size_t len) { if (fault_point(F_ENGINE)) return NULL; wickr_buffer_t *r = RAW.wickr_crypto_engine_crypto_random(len); random_seen(r, "a random value"); return r; }
static wickr_cipher_key_t *e_cipher_key_random(wickr_cipher_t c) { if (fault_point(F_ENGINE)) return NULL; wickr_cipher_key_t *k = RAW.wickr_crypto_engine_cipher_key_random(c); if (k) { key_seen(k->key_data); random_seen(k->key_data, "a random key"); } return k; }
static wickr_cipher_result_t *e_encrypt(const wickr_buffer_t *pt, const wickr_buffer_t *aad, const wickr_cipher_key_t *key, const wickr_buffer_t *iv) {
    if (fault_point(F_ENGINE)) return NULL;
    if (obs.encrypt_hook) { auto h = obs.encrypt_hook; obs.encrypt_hook = nullptr; wickr_cipher_result_t *r = h(pt, aad, key, iv); obs.encrypt_hook = h; return r; }
    wickr_cipher_result_t *r = RAW.wickr_crypto_engine_cipher_encrypt(pt, aad, key, iv);
    if (r) {
        Bytes k = B(key->key_data);
        key_seen(key->key_data);
        obs.last_enc_key = k;
        note_kiv(k, B(r->iv));
    }
    return r;
}
static wickr_buffer_t *e_decrypt(const wickr_cipher_result_t *c, const wickr_buffer_t *aad, const wickr_cipher_key_t *key, bool only_auth) {
    if (fault_point(F_ENGINE)) return NULL;
    if (key) { key_seen(key->key_data); obs.last_dec_key = B(key->key_data); }
    wickr_buffer_t *r = RAW.wickr_crypto_engine_cipher_decrypt(c, aad, key, only_auth);
    obs.last_dec_ok = r != NULL;
    return r;
}
static bool e_encrypt_file(const wickr_cipher_key_t *k, const char *s, const char *d) { if (fault_point(F_ENGINE)) return false; return RAW.wickr_crypto_engine_encrypt_file(k, s, d); }
static bool e_decrypt_file(const wickr_cipher_key_t *k, const char *s, const char *d, bool a) { if (fault_point(F_ENGINE)) return false; return RAW.wickr_crypto_engine_decrypt_file(k, s, d, a); }
static bool e_encrypt_ofile(FILE *i, const wickr_cipher_key_t *k, FILE *o) { if (fault_point(F_ENGINE)) return false; return RAW.wickr_crypto_engine_encrypt_ofile(i, k, o); }
static bool e_decrypt_ofile(FILE *i, const wickr_cipher_key_t *k, FILE *o, bool a) { if (fault_point(F_ENGINE)) return false; return RAW.wickr_crypto_engine_decrypt_ofile(i, k, o, a); }
static wickr_buffer_t *e_digest(const wickr_buffer_t *b, const wickr_buffer_t *s, wickr_digest_t m) { if (fault_point(F_ENGINE)) return NULL; return RAW.wickr_crypto_engine_digest(b, s, m); }
static wickr_buffer_t *e_digest_file(FILE *f, const wickr_digest_t m) { if (fault_point(F_ENGINE)) return NULL; return RAW.wickr_crypto_engine_digest_file(f, m); }
static wickr_ec_key_t *e_ec_rand(wickr_ec_curve_t c) {
    if (fault_point(F_ENGINE)) return NULL;
    wickr_ec_key_t *k = RAW.wickr_crypto_engine_ec_rand_key(c);
    if (k && obs.record_keys && k->pri_data) { Bytes s = ec_scalar(B(k->pri_data)); if (s.size() >= 32) { obs.keys.add(s.substr(0, 16), "a fresh private key"); obs.keys.add(s.substr(s.size() - 16), "a fresh private key"); } }
    return k;
}
static wickr_ec_key_t *e_ec_import(const wickr_buffer_t *b, bool p) { if (fault_point(F_ENGINE)) return NULL; return RAW.wickr_crypto_engine_ec_key_import(b, p); }
static wickr_ecdsa_result_t *e_sign(const wickr_ec_key_t *k, const wickr_buffer_t *d, const wickr_digest_t m) { if (fault_point(F_ENGINE)) return NULL; return RAW.wickr_crypto_engine_ec_sign(k, d, m); }
static bool e_verify(const wickr_ecdsa_result_t *s, const wickr_ec_key_t *k, const wickr_buffer_t *d) { if (fault_point(F_ENGINE)) return false; return RAW.wickr_crypto_engine_ec_verify(s, k, d); }
static wickr_buffer_t *e_to_raw(const wickr_ecdsa_result_t *s) { if (fault_point(F_ENGINE)) return NULL; return RAW.wickr_crypto_engine_ecdsa_to_raw(s); }
static wickr_ecdsa_result_t *e_from_raw(const wickr_ec_curve_t c, const wickr_digest_t d, const wickr_buffer_t *b) { if (fault_point(F_ENGINE)) return NULL; return RAW.wickr_crypto_engine_ecdsa_from_raw(c, d, b); }
static wickr_buffer_t *e_shared(const wickr_ec_key_t *l, const wickr_ec_key_t *p) { if (fault_point(F_ENGINE)) return NULL; wickr_buffer_t *r = RAW.wickr_crypto_engine_gen_shared_secret(l, p); key_seen(r); return r; }
static wickr_buffer_t *e_hmac(const wickr_buffer_t *d, const wickr_buffer_t *k, wickr_digest_t m) {
    obs.hmacs++;
    if (obs.hmac_limit && obs.hmacs > obs.hmac_limit) return NULL;
    if (fault_point(F_ENGINE)) return NULL;
    key_seen(k);
    return RAW.wickr_crypto_engine_hmac_create(d, k, m);
}
static bool e_hmac_verify(const wickr_buffer_t *d, const wickr_buffer_t *k, const wickr_digest_t m, const wickr_buffer_t *e) { if (fault_point(F_ENGINE)) return false; return RAW.wickr_crypto_engine_hmac_verify(d, k, m, e); }
static wickr_kdf_result_t *e_kdf_gen(wickr_kdf_algo_t a, const wickr_buffer_t *p) { if (fault_point(F_ENGINE)) return NULL; wickr_kdf_result_t *r = RAW.wickr_crypto_kdf_gen(a, p); if (r) key_seen(r->hash); return r; }
static wickr_kdf_result_t *e_kdf_meta(const wickr_kdf_meta_t *m, const wickr_buffer_t *p) { if (fault_point(F_ENGINE)) return NULL; key_seen(p); wickr_kdf_result_t *r = RAW.wickr_crypto_kdf_meta(m, p); if (r) key_seen(r->hash); return r; }

static void build_engine() {
    RAW = wickr_crypto_engine_get_default();
    ENG = RAW;
    ENG.wickr_crypto_engine_crypto_random = e_random;
    ENG.wickr_crypto_engine_cipher_key_random = e_cipher_key_random;
    ENG.wickr_crypto_engine_cipher_encrypt = e_encrypt;
    ENG.wickr_crypto_engine_cipher_decrypt = e_decrypt;
    ENG.wickr_crypto_engine_encrypt_file = e_encrypt_file;
    ENG.wickr_crypto_engine_decrypt_file = e_decrypt_file;
    ENG.wickr_crypto_engine_encrypt_ofile = e_encrypt_ofile;
    ENG.wickr_crypto_engine_decrypt_ofile = e_decrypt_ofile;
    ENG.wickr_crypto_engine_digest = e_digest;
    ENG.wickr_crypto_engine_digest_file = e_digest_file;
    ENG.wickr_crypto_engine_ec_rand_key = e_ec_rand;
    ENG.wickr_crypto_engine_ec_key_import = e_ec_import;
    ENG.wickr_crypto_engine_ec_sign = e_sign;
    ENG.wickr_crypto_engine_ec_verify = e_verify;
    ENG.wickr_crypto_engine_ecdsa_to_raw = e_to_raw;
    ENG.wickr_crypto_engine_ecdsa_from_raw = e_from_raw;
    ENG.wickr_crypto_engine_gen_shared_secret = e_shared;
    ENG.wickr_crypto_engine_hmac_create = e_hmac;
    ENG.wickr_crypto_engine_hmac_verify = e_hmac_verify;
    ENG.wickr_crypto_kdf_gen = e_kdf_gen;
    ENG.wickr_crypto_kdf_meta = e_kdf_meta;
}

// If the library is broken in a way that stops the pool from being built, the worlds see empty entries and
// report through their own oracles; a process that cannot even do this exits with an error.
void build_pool() {
    build_engine();
    Plan p; p.seed = 20240607; g.begin_run(p); obs.reset(); obs.record_kiv = false;
    for (int i = 0; i < NPOOL; i++) {
        PoolId id;
        ORoot rk(wickr_root_keys_generate(&RAW));
        if (!rk) { fprintf(stderr, "SIM-POOL: wickr_root_keys_generate failed\n"); exit(96); }
        OBuf s(wickr_root_keys_serialize(rk.p));
        id.root_keys = B(s);
        Bytes ident(32, 0); for (int j = 0; j < 32; j++) ident[j] = (char)(i * 37 + j * 11 + 5);
        OId root(wickr_identity_create(IDENTITY_TYPE_ROOT, mkbuf(ident), wickr_ec_key_copy(rk->node_signature_root), NULL));
        OBuf devid(mkbuf(ident.substr(0, 16) + Bytes(16, (char)(0x40 + i))));
        OId node(wickr_node_identity_gen(&RAW, root.p, devid.p));
        if (!root || !node) { fprintf(stderr, "SIM-POOL: identity generation failed\n"); exit(96); }
        OBuf rid(wickr_identity_serialize(root.p)); id.root_id = B(rid);
        OChain ch(wickr_identity_chain_create(root.release(), node.release()));
        OBuf a(wickr_identity_chain_serialize_private(ch.p)), b(wickr_identity_chain_serialize(ch.p));
        id.chain_priv = B(a); id.chain_pub = B(b);
        pool.push_back(id);
    }
    for (int i = 0; i < 8; i++) {
        OEc k(RAW.wickr_crypto_engine_ec_rand_key(EC_CURVE_NIST_P521));
        if (!k) { fprintf(stderr, "SIM-POOL: key generation failed\n"); exit(96); }
        pool_ec.push_back(B(k->pri_data));
    }
    g.end_run();
}
wickr_identity_chain_t *pool_chain(int i, bool priv) {
    PauseFaults pf;
    OBuf b(mkbuf(priv ? pool[i % NPOOL].chain_priv : pool[i % NPOOL].chain_pub));
    return wickr_identity_chain_create_from_buffer(b.p, &RAW);
}
wickr_root_keys_t *pool_root(int i) {
    PauseFaults pf;
    OBuf b(mkbuf(pool[i % NPOOL].root_keys));
    return wickr_root_keys_create_from_buffer(&RAW, b.p);
}

uint64_t live_blocks() { return g.live.size(); }
void check_leaks(const char *prop) {
    if (g.viols.size()) return;
    if (g.prop == "C13") prop = "C13";
    if (!g.live.empty()) {
        std::map<size_t, int> sz; for (auto &l : g.live) sz[l.second.n]++;
        std::string d; int n = 0; for (auto &s : sz) { if (n++ > 6) break; d += " " + std::to_string(s.second) + "x" + std::to_string(s.first) + "B"; }
        g.fail(prop, "leak", "%zu blocks never released:%s", g.live.size(), d.c_str());
    }
}
bool heap_contains(const Bytes &n, int actor) {
    for (auto &l : g.live) if ((actor < 0 || l.second.actor == actor) && l.second.n >= n.size() && memmem(l.first, l.second.n, n.data(), n.size())) return true;
    return false;
}
Bytes ec_scalar(const Bytes &d) {
    // SEQUENCE { INTEGER 1, OCTET STRING(66), ... }
    for (size_t i = 0; i + 68 <= d.size() && i < 16; i++)
        if ((uint8_t)d[i] == 0x04 && (uint8_t)d[i + 1] == 0x42) return d.substr(i + 2, 66);
    return d;
}

Bytes downgrade(const Bytes &s, size_t prefix, int64_t flip) {
    if (s.size() <= prefix + 29 || s[prefix] != CIPHER_ID_AES256_GCM) return s;
    Bytes ct = s.substr(prefix + 29);
    if (flip & 1) ct[(size_t)(flip >> 4) % ct.size()] ^= (char)(1 << (flip >> 1 & 7));
    return s.substr(0, prefix) + Bytes(1, (char)CIPHER_ID_AES256_CTR) + s.substr(prefix + 1, 12) + Bytes("\0\0\0\2", 4) + ct;
}
