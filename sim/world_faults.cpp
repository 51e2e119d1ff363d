// World "faults" (C13): every public operation, with a failure injected at one (or several) of the dependency calls it
// makes. A plan is a list of "try" operations: scenario, fault set. The generator enumerates (scenario, kind, k) - one-shot
// and persistent - from a table of call counts measured once per process, then draws random multi-fault sets.
#include "lib.hpp"
#include "vfs.hpp"
#include <execinfo.h>
#include <algorithm>
#include <unistd.h>
#include <sys/wait.h>
#include <memory>

namespace {
typedef std::function<bool()> FB;
typedef std::function<void()> FV;
struct Try {
    const std::vector<Fault> *faults;
    std::string name;
    int64_t counts[F_NKINDS];
    bool baseline_ok = true;
    bool retry_checked = false;
    int calls = 0;
    void fail(const char *c, const char *d) { g.fail("C13", std::string(c) + ":" + name, "%s", d); }
    // op: performs the operation, true on success. check: is the result fully correct? clean: releases the results.
    // rng: success is impossible if the random source failed.
    void call(FB op, FB check, FV clean, bool rng = false, bool retry = true) {
        calls++;
        bool ok; int fired; int rngf;
        { FaultScope fs(*faults); ok = op(); for (int i = 0; i < F_NKINDS; i++) counts[i] = g.count[i]; rngf = g.fired[F_RNG]; }
        fired = last_scope_fired;
        g.log("%s: %s fired=%d", name.c_str(), ok ? "ok" : "failed", fired);
        if (!fired && !ok) baseline_ok = false;
        bool good = !ok || check();
        if (!good && !fired) baseline_ok = false;
        if (fired) {
            if (!good) fail("bad-result", "reported success with an incorrect or partial result after a dependency failed");
            if (ok && rng && rngf) fail("rng-ignored", "reported success although the random source failed");
            g.cover(hmix(hmix(fnv(name), (uint64_t)ok), hmix((uint64_t)(*faults)[0].kind, (uint64_t)(*faults)[0].k)));
            g.stat(ok ? "survived" : "reported");
        }
        clean();
        if (fired && retry && !g.failed()) {
            static const std::vector<Fault> none;
            { FaultScope fs(none); ok = op(); }
            if (!ok) fail("no-retry", "the same operation keeps failing after the fault is gone");
            else if (!check()) fail("no-retry", "the same operation gives an incorrect result after the fault is gone");
            else g.progress();
            clean();
        } else if (!fired && ok && good) g.progress();
    }
    // op must never return true, whatever fails
    void reject(FB op) {
        bool ok;
        { FaultScope fs(*faults); ok = op(); for (int i = 0; i < F_NKINDS; i++) counts[i] = g.count[i]; }
        int fired = last_scope_fired;
        g.log("%s: %s fired=%d", name.c_str(), ok ? "accepted" : "rejected", fired);
        if (ok && !fired) baseline_ok = false;
        if (ok && fired) fail("accepted", "a check that must fail passed after a dependency failed");
        g.cover(hmix(fnv(name), fired));
        if (fired) g.stat("reported");
        g.progress();
    }
};
typedef void (*ScenFn)(Try &);
struct Scen { const char *name; ScenFn fn; };
std::vector<Scen> &scens() { static std::vector<Scen> v; return v; }
struct Reg { Reg(const char *n, ScenFn f) { scens().push_back({n, f}); } };
#define SCEN(n) static void s_##n(Try &t); static Reg r_##n(#n, s_##n); static void s_##n(Try &t)

const wickr_cipher_t GCM = CIPHER_AES256_GCM, CTR = CIPHER_AES256_CTR;
const wickr_ec_curve_t P521 = EC_CURVE_NIST_P521;
OBuf buf(const Bytes &b) { return OBuf(mkbuf(b)); }
Bytes pat(size_t n, int s) { Bytes b(n, 0); for (size_t i = 0; i < n; i++) b[i] = (char)(i * 7 + s * 31 + (i >> 3)); return b; }
OKey ckey(wickr_cipher_t c, int s) { return OKey(wickr_cipher_key_create(c, mkbuf(pat(c.key_len, s)))); }
OEc eckey(int i) { OBuf b = buf(pool_ec[i]); return OEc(RAW.wickr_crypto_engine_ec_key_import(b.p, true)); }
bool same(const wickr_buffer_t *a, const wickr_buffer_t *b) { return a && b && B(a) == B(b); }
Bytes ser(const wickr_cipher_key_t *k) { OBuf b(wickr_cipher_key_serialize(k)); return b ? B(b) : Bytes("?"); }
Bytes ser(const wickr_cipher_result_t *k) { OBuf b(wickr_cipher_result_serialize(k)); return b ? B(b) : Bytes("?"); }
Bytes ser(const wickr_identity_t *k) { OBuf b(wickr_identity_serialize(k)); return b ? B(b) : Bytes("?"); }
Bytes ser(const wickr_identity_chain_t *k) { OBuf b(wickr_identity_chain_serialize_private(k)); return b ? B(b) : Bytes("?"); }
Bytes ser(const wickr_node_t *k) { OBuf b(wickr_node_serialize(k)); return b ? B(b) : Bytes("?"); }
Bytes ser(const wickr_root_keys_t *k) { OBuf b(wickr_root_keys_serialize(k)); return b ? B(b) : Bytes("?"); }
Bytes ser(const wickr_storage_keys_t *k) { OBuf b(wickr_storage_keys_serialize(k)); return b ? B(b) : Bytes("?"); }
Bytes ser(const wickr_ecdsa_result_t *k) { OBuf b(wickr_ecdsa_result_serialize(k)); return b ? B(b) : Bytes("?"); }
Bytes ser(const wickr_packet_t *k) { OBuf b(wickr_packet_serialize(k)); return b ? B(b) : Bytes("?"); }
Bytes ser(const wickr_payload_t *k) { OBuf b(wickr_payload_serialize(k)); return b ? B(b) : Bytes("?"); }
Bytes ser(const wickr_stream_key_t *k) { OBuf b(wickr_stream_key_serialize(k)); return b ? B(b) : Bytes("?"); }
Bytes ser(const wickr_ctx_t *k) { OBuf b(wickr_ctx_serialize(k)); return b ? B(b) : Bytes("?"); }
Bytes ser(const wickr_key_exchange_set_t *k) { OBuf b(wickr_key_exchange_set_serialize(k)); return b ? B(b) : Bytes("?"); }
Bytes ser(const wickr_ephemeral_keypair_t *k) { OBuf b(wickr_ephemeral_keypair_serialize(k)); return b ? B(b) : Bytes("?"); }
Bytes ser(const wickr_kdf_meta_t *k) { OBuf b(wickr_kdf_meta_serialize(k)); return b ? B(b) : Bytes("?"); }

#define MAKE(T, expr, chk) do { T out; t.call([&] { out.reset(expr); return (bool)out; }, [&] { return (bool)(chk); }, [&] { out.reset(); }); } while (0)
#define MAKER(T, expr, chk) do { T out; t.call([&] { out.reset(expr); return (bool)out; }, [&] { return (bool)(chk); }, [&] { out.reset(); }, true); } while (0)

// ------------------------------------------------------------ buffers, arrays, encodings
SCEN(buffer_ops) {
    OBuf a = buf(pat(40, 1)), b = buf(pat(9, 2)); OBuf o1, o2, o3, o4;
    t.call([&] {
        o1.reset(wickr_buffer_copy(a.p)); o2.reset(wickr_buffer_concat(a.p, b.p)); o3.reset(wickr_buffer_copy_section(a.p, 3, 10));
        wickr_buffer_t *v[] = {b.p, a.p, b.p}; o4.reset(wickr_buffer_concat_multi(v, 3));
        return o1 && o2 && o3 && o4; },
        [&] { return B(o1) == pat(40, 1) && B(o2) == pat(40, 1) + pat(9, 2) && B(o3) == pat(40, 1).substr(3, 10) && B(o4) == pat(9, 2) + pat(40, 1) + pat(9, 2); },
        [&] { o1.reset(); o2.reset(); o3.reset(); o4.reset(); });
}
SCEN(encodings) {
    OBuf a = buf(pat(33, 3)); OBuf h, x, b6, y, b3, z;
    t.call([&] {
        h.reset(getHexStringFromData(a.p)); if (!h) return false; x.reset(getDataFromHexString(h.p));
        b6.reset(getBase64FromData(a.p)); if (!b6) return false; y.reset(getDataFromBase64(b6.p));
        b3.reset(base32_encode(a.p)); if (!b3) return false; z.reset(base32_decode(b3.p));
        return x && y && z; },
        [&] { return same(x.p, a.p) && same(y.p, a.p) && B(z).substr(0, 33) == B(a); },
        [&] { h.reset(); x.reset(); b6.reset(); y.reset(); b3.reset(); z.reset(); });
}
SCEN(node_array) {
    ONode n(wickr_node_create(mkbuf(pat(16, 1)), pool_chain(0, true), NULL)); 
    if (!n) { // a node may need a key pair
        OEc k = eckey(0); OBuf x = buf(B(k->pub_data)); OSig sg(RAW.wickr_crypto_engine_ec_sign(k.p, x.p, DIGEST_SHA_512));
        n.reset(wickr_node_create(mkbuf(pat(16, 1)), pool_chain(0, true), wickr_ephemeral_keypair_create(7, k.release(), sg.release())));
    }
    ONodes arr, cp;
    t.call([&] {
        arr.reset(wickr_node_array_new(3)); if (!arr) return false;
        for (int i = 0; i < 3; i++) { wickr_node_t *c = wickr_node_copy(n.p); if (!c) return false; if (!wickr_node_array_set_item(arr.p, i, c)) { wickr_node_destroy(&c); return false; } }
        cp.reset(wickr_node_array_copy(arr.p)); return (bool)cp; },
        [&] { for (int i = 0; i < 3; i++) { wickr_node_t *x = wickr_node_array_fetch_item(cp.p, i); if (!x || ser(x) != ser(n.p)) return false; } return wickr_array_get_item_count(cp.p) == 3; },
        [&] { arr.reset(); cp.reset(); });
}
// ------------------------------------------------------------ crypto suite
SCEN(random_bytes) { MAKER(OBuf, ENG.wickr_crypto_engine_crypto_random(32), out->length == 32 && B(out) != Bytes(32, (char)0xA5)); }
SCEN(cipher_key_random) { MAKER(OKey, ENG.wickr_crypto_engine_cipher_key_random(GCM), out->key_data && out->key_data->length == 32 && B(out->key_data) != Bytes(32, (char)0xA5)); }
static void enc_dec(Try &t, wickr_cipher_t c, bool with_aad, bool with_iv) {
    OKey k = ckey(c, 1); OBuf pt = buf(pat(77, 2)), aad; if (with_aad) aad = buf(pat(20, 3));
    OBuf iv; if (with_iv) iv = buf(pat(c.iv_len, 4));
    OCipher out;
    t.call([&] { out.reset(ENG.wickr_crypto_engine_cipher_encrypt(pt.p, aad.p, k.p, iv.p)); return (bool)out; },
        [&] { OBuf d(RAW.wickr_crypto_engine_cipher_decrypt(out.p, aad.p, k.p, false)); return same(d.p, pt.p) && (!with_iv || same(out->iv, iv.p)) && B(out->iv) != Bytes(c.iv_len, (char)0xA5); },
        [&] { out.reset(); }, !with_iv);
}
SCEN(encrypt_gcm) { enc_dec(t, GCM, false, false); }
SCEN(encrypt_gcm_aad) { enc_dec(t, GCM, true, false); }
SCEN(encrypt_gcm_iv) { enc_dec(t, GCM, true, true); }
SCEN(encrypt_ctr) { enc_dec(t, CTR, false, false); }
static void dec(Try &t, wickr_cipher_t c, bool with_aad) {
    OKey k = ckey(c, 1); OBuf pt = buf(pat(77, 2)), aad; if (with_aad) aad = buf(pat(20, 3));
    OCipher ct(RAW.wickr_crypto_engine_cipher_encrypt(pt.p, aad.p, k.p, NULL));
    MAKE(OBuf, ENG.wickr_crypto_engine_cipher_decrypt(ct.p, aad.p, k.p, c.is_authenticated), same(out.p, pt.p));
}
SCEN(decrypt_gcm) { dec(t, GCM, false); }
SCEN(decrypt_gcm_aad) { dec(t, GCM, true); }
SCEN(decrypt_ctr) { dec(t, CTR, false); }
SCEN(decrypt_tampered) {
    OKey k = ckey(GCM, 1); OBuf pt = buf(pat(77, 2)); OCipher ct(RAW.wickr_crypto_engine_cipher_encrypt(pt.p, NULL, k.p, NULL));
    ct->cipher_text->bytes[5] ^= 4;
    t.reject([&] { OBuf d(ENG.wickr_crypto_engine_cipher_decrypt(ct.p, NULL, k.p, true)); return (bool)d; });
}
SCEN(digest) {
    OBuf a = buf(pat(50, 1)), s = buf(pat(8, 2)); OBuf ref(RAW.wickr_crypto_engine_digest(a.p, s.p, DIGEST_SHA_512));
    MAKE(OBuf, ENG.wickr_crypto_engine_digest(a.p, s.p, DIGEST_SHA_512), same(out.p, ref.p));
}
SCEN(digest_nosalt) {
    OBuf a = buf(pat(50, 1)); OBuf ref(RAW.wickr_crypto_engine_digest(a.p, NULL, DIGEST_SHA_256));
    MAKE(OBuf, ENG.wickr_crypto_engine_digest(a.p, NULL, DIGEST_SHA_256), same(out.p, ref.p));
}
SCEN(hmac) {
    OBuf a = buf(pat(50, 1)), s = buf(pat(32, 2)); OBuf ref(RAW.wickr_crypto_engine_hmac_create(a.p, s.p, DIGEST_SHA_384));
    MAKE(OBuf, ENG.wickr_crypto_engine_hmac_create(a.p, s.p, DIGEST_SHA_384), same(out.p, ref.p));
}
SCEN(hmac_verify) {
    OBuf a = buf(pat(50, 1)), s = buf(pat(32, 2)); OBuf ref(RAW.wickr_crypto_engine_hmac_create(a.p, s.p, DIGEST_SHA_256));
    t.call([&] { return ENG.wickr_crypto_engine_hmac_verify(a.p, s.p, DIGEST_SHA_256, ref.p); }, [] { return true; }, [] {});
}
SCEN(hmac_verify_wrong) {
    OBuf a = buf(pat(50, 1)), s = buf(pat(32, 2)); OBuf ref(RAW.wickr_crypto_engine_hmac_create(a.p, s.p, DIGEST_SHA_256)); ref->bytes[3] ^= 1;
    t.reject([&] { return ENG.wickr_crypto_engine_hmac_verify(a.p, s.p, DIGEST_SHA_256, ref.p); });
}
SCEN(ec_rand) {
    MAKER(OEc, ENG.wickr_crypto_engine_ec_rand_key(P521), ([&] {
        if (!out->pub_data || !out->pri_data) return false;
        OEc imp(RAW.wickr_crypto_engine_ec_key_import(out->pri_data, true));
        return imp && same(imp->pub_data, out->pub_data) && out->pub_data->length == P521_PUB_KEY_MAX_SIZE; })());
}
SCEN(ec_import_private) { OBuf b = buf(pool_ec[1]); OEc ref = eckey(1); MAKE(OEc, ENG.wickr_crypto_engine_ec_key_import(b.p, true), same(out->pub_data, ref->pub_data) && same(out->pri_data, ref->pri_data)); }
SCEN(ec_import_public) { OEc ref = eckey(1); MAKE(OEc, ENG.wickr_crypto_engine_ec_key_import(ref->pub_data, false), same(out->pub_data, ref->pub_data) && !out->pri_data); }
SCEN(ec_sign) {
    OEc k = eckey(2); OBuf d = buf(pat(100, 5));
    MAKE(OSig, ENG.wickr_crypto_engine_ec_sign(k.p, d.p, DIGEST_SHA_512), RAW.wickr_crypto_engine_ec_verify(out.p, k.p, d.p));
}
SCEN(ec_verify) {
    OEc k = eckey(2); OBuf d = buf(pat(100, 5)); OSig s(RAW.wickr_crypto_engine_ec_sign(k.p, d.p, DIGEST_SHA_512));
    t.call([&] { return ENG.wickr_crypto_engine_ec_verify(s.p, k.p, d.p); }, [] { return true; }, [] {});
}
SCEN(ec_verify_wrong) {
    OEc k = eckey(2), k2 = eckey(3); OBuf d = buf(pat(100, 5)); OSig s(RAW.wickr_crypto_engine_ec_sign(k.p, d.p, DIGEST_SHA_512));
    t.reject([&] { return ENG.wickr_crypto_engine_ec_verify(s.p, k2.p, d.p); });
}
SCEN(ecdsa_to_raw) {
    OEc k = eckey(2); OBuf d = buf(pat(100, 5)); OSig s(RAW.wickr_crypto_engine_ec_sign(k.p, d.p, DIGEST_SHA_512));
    MAKE(OBuf, ENG.wickr_crypto_engine_ecdsa_to_raw(s.p), ([&] { OSig back(RAW.wickr_crypto_engine_ecdsa_from_raw(P521, DIGEST_SHA_512, out.p)); return back && RAW.wickr_crypto_engine_ec_verify(back.p, k.p, d.p); })());
}
SCEN(ecdsa_from_raw) {
    OEc k = eckey(2); OBuf d = buf(pat(100, 5)); OSig s(RAW.wickr_crypto_engine_ec_sign(k.p, d.p, DIGEST_SHA_512)); OBuf raw(RAW.wickr_crypto_engine_ecdsa_to_raw(s.p));
    MAKE(OSig, ENG.wickr_crypto_engine_ecdsa_from_raw(P521, DIGEST_SHA_512, raw.p), RAW.wickr_crypto_engine_ec_verify(out.p, k.p, d.p));
}
SCEN(ecdsa_serialize) {
    OEc k = eckey(2); OBuf d = buf(pat(100, 5)); OSig s(RAW.wickr_crypto_engine_ec_sign(k.p, d.p, DIGEST_SHA_512)); Bytes ref = ser(s.p);
    OBuf o; OSig back, cp;
    t.call([&] { o.reset(wickr_ecdsa_result_serialize(s.p)); if (!o) return false; back.reset(wickr_ecdsa_result_create_from_buffer(o.p)); cp.reset(wickr_ecdsa_result_copy(s.p)); return back && cp; },
        [&] { return B(o) == ref && RAW.wickr_crypto_engine_ec_verify(back.p, k.p, d.p) && RAW.wickr_crypto_engine_ec_verify(cp.p, k.p, d.p); },
        [&] { o.reset(); back.reset(); cp.reset(); });
}
SCEN(shared_secret) {
    OEc a = eckey(1), b = eckey(2); OBuf ref(RAW.wickr_crypto_engine_gen_shared_secret(a.p, b.p));
    MAKE(OBuf, ENG.wickr_crypto_engine_gen_shared_secret(b.p, a.p), same(out.p, ref.p));
}
SCEN(ec_key_copy) { OEc a = eckey(1); MAKE(OEc, wickr_ec_key_copy(a.p), same(out->pub_data, a->pub_data) && same(out->pri_data, a->pri_data)); }
SCEN(ec_key_fixed_len) { OEc a = eckey(1); MAKE(OBuf, wickr_ec_key_get_pubdata_fixed_len(a.p), out->length == P521_PUB_KEY_MAX_SIZE && B(out).find(B(a->pub_data)) != Bytes::npos); }
SCEN(cipher_key) {
    OKey k = ckey(GCM, 9); Bytes ref = ser(k.p); OBuf o; OKey back, cp;
    t.call([&] { o.reset(wickr_cipher_key_serialize(k.p)); if (!o) return false; back.reset(wickr_cipher_key_from_buffer(o.p)); cp.reset(wickr_cipher_key_copy(k.p)); return back && cp; },
        [&] { return B(o) == ref && ser(back.p) == ref && ser(cp.p) == ref; }, [&] { o.reset(); back.reset(); cp.reset(); });
}
static void cres(Try &t, wickr_cipher_t c) {
    OKey k = ckey(c, 1); OBuf pt = buf(pat(30, 2)); OCipher ct(RAW.wickr_crypto_engine_cipher_encrypt(pt.p, NULL, k.p, NULL)); Bytes ref = ser(ct.p); OBuf o; OCipher back, cp;
    t.call([&] { o.reset(wickr_cipher_result_serialize(ct.p)); if (!o) return false; back.reset(wickr_cipher_result_from_buffer(o.p)); cp.reset(wickr_cipher_result_copy(ct.p)); return back && cp; },
        [&] { OBuf d(RAW.wickr_crypto_engine_cipher_decrypt(cp.p, NULL, k.p, false)); return B(o) == ref && ser(back.p) == ref && ser(cp.p) == ref && same(d.p, pt.p); }, [&] { o.reset(); back.reset(); cp.reset(); });
}
SCEN(cipher_result_gcm) { cres(t, GCM); }
SCEN(cipher_result_ctr) { cres(t, CTR); }
// ------------------------------------------------------------ KDF
static void kdf(Try &t, wickr_kdf_algo_t a) {
    OBuf p = buf(pat(20, 6)); OKdf r, r2;
    t.call([&] { r.reset(ENG.wickr_crypto_kdf_gen(a, p.p)); return (bool)r; },
        [&] { OKdf x(RAW.wickr_crypto_kdf_meta(r->meta, p.p)); return x && same(x->hash, r->hash) && r->hash->length; }, [&] { r.reset(); }, true);
    if (g.failed() || t.calls == 0) return;
}
static void kdf_m(Try &t, wickr_kdf_algo_t a, bool info) {
    OBuf p = buf(pat(20, 6)); OKdf r(RAW.wickr_crypto_kdf_gen(a, p.p)); if (!r) { t.baseline_ok = false; return; }
    OKdfMeta m(wickr_kdf_meta_create(a, wickr_buffer_copy(r->meta->salt), info ? mkbuf(pat(11, 7)) : NULL));
    OKdf ref(RAW.wickr_crypto_kdf_meta(m.p, p.p));
    OKdf o, cp; OKdfMeta mc, mp; OBuf ms;
    t.call([&] {
        o.reset(ENG.wickr_crypto_kdf_meta(m.p, p.p)); if (!o) return false; cp.reset(wickr_kdf_result_copy(o.p)); if (!cp) return false;
        mc.reset(wickr_kdf_meta_copy(m.p)); if (!mc) return false; if (info) return true;
        ms.reset(wickr_kdf_meta_serialize(m.p)); if (!ms) return false; mp.reset(wickr_kdf_meta_create_with_buffer(ms.p)); return (bool)mp; },
        [&] { return ref && same(o->hash, ref->hash) && same(cp->hash, ref->hash) && same(mc->salt, m->salt) && (info ? same(mc->info, m->info) : same(mp->salt, m->salt)); },
        [&] { o.reset(); cp.reset(); mc.reset(); ms.reset(); mp.reset(); });
}
SCEN(kdf_scrypt) { kdf(t, KDF_SCRYPT_2_17); }
SCEN(kdf_bcrypt) { kdf(t, KDF_BCRYPT_15); }
SCEN(kdf_hkdf) { kdf(t, KDF_HKDF_SHA512); }
SCEN(kdf_scrypt_meta) { kdf_m(t, KDF_SCRYPT_2_17, false); }
SCEN(kdf_bcrypt_meta) { kdf_m(t, KDF_BCRYPT_15, false); }
SCEN(kdf_hkdf_meta) { kdf_m(t, KDF_HKDF_SHA256, true); }
SCEN(kdf_expand) {
    OBuf p = buf(pat(64, 6)); OKdf ref; OKdf o; OKdfMeta m;
    { OKdfMeta mm(wickr_kdf_meta_create_hkdf_expand(&DIGEST_SHA_512, mkbuf(pat(5, 1)), 100)); ref.reset(RAW.wickr_crypto_kdf_meta(mm.p, p.p)); }
    OBuf info;
    t.call([&] { wickr_buffer_t *i = mkbuf(pat(5, 1)); m.reset(wickr_kdf_meta_create_hkdf_expand(&DIGEST_SHA_512, i, 100)); if (!m) { wickr_buffer_destroy(&i); return false; } o.reset(ENG.wickr_crypto_kdf_meta(m.p, p.p)); return (bool)o; },
        [&] { return ref && o->hash->length == 100 && same(o->hash, ref->hash); }, [&] { m.reset(); o.reset(); });
}
SCEN(kdf_cipher) {
    OBuf v = buf(pat(60, 2)), p = buf(pat(14, 3));
    MAKER(OBuf, wickr_crypto_engine_kdf_cipher(&ENG, KDF_SCRYPT_2_17, GCM, v.p, p.p), ([&] { OBuf d(wickr_crypto_engine_kdf_decipher(&RAW, out.p, p.p)); return same(d.p, v.p); })());
}
SCEN(kdf_decipher) {
    OBuf v = buf(pat(60, 2)), p = buf(pat(14, 3)); OBuf c(wickr_crypto_engine_kdf_cipher(&RAW, KDF_SCRYPT_2_17, GCM, v.p, p.p));
    MAKE(OBuf, wickr_crypto_engine_kdf_decipher(&ENG, c.p, p.p), same(out.p, v.p));
}
SCEN(kdf_decipher_wrong) {
    OBuf v = buf(pat(60, 2)), p = buf(pat(14, 3)), q = buf(pat(14, 4)); OBuf c(wickr_crypto_engine_kdf_cipher(&RAW, KDF_SCRYPT_2_17, GCM, v.p, p.p));
    t.reject([&] { OBuf d(wickr_crypto_engine_kdf_decipher(&ENG, c.p, q.p)); return (bool)d; });
}
// ------------------------------------------------------------ identities
SCEN(identity_sign) { OChain c(pool_chain(0, true)); OBuf d = buf(pat(31, 2)); MAKE(OSig, wickr_identity_sign(c->node, &ENG, d.p), RAW.wickr_crypto_engine_ec_verify(out.p, c->node->sig_key, d.p)); }
SCEN(identity_node_gen) {
    OChain c(pool_chain(1, true)); ORoot rk(pool_root(1)); OBuf rid = buf(pool[1].root_id); OId root(wickr_identity_create_from_buffer(rid.p, &RAW));
    OId r2(wickr_identity_create(IDENTITY_TYPE_ROOT, wickr_buffer_copy(root->identifier), wickr_ec_key_copy(rk->node_signature_root), NULL));
    MAKER(OId, wickr_node_identity_gen(&ENG, r2.p, NULL), out->signature && RAW.wickr_crypto_engine_ec_verify(out->signature, r2->sig_key, out->sig_key->pub_data) && out->sig_key->pri_data && out->identifier);
}
SCEN(identity_copy) { OChain c(pool_chain(0, true)); MAKE(OId, wickr_identity_copy(c->node), ser(out.p) == ser(c->node) && same(out->sig_key->pri_data, c->node->sig_key->pri_data)); }
SCEN(identity_serialize) { OChain c(pool_chain(0, true)); Bytes ref = ser(c->node); OBuf o; OId back;
    t.call([&] { o.reset(wickr_identity_serialize(c->node)); if (!o) return false; back.reset(wickr_identity_create_from_buffer(o.p, &ENG)); return (bool)back; },
        [&] { return B(o) == ref && ser(back.p) == ref && same(back->identifier, c->node->identifier); }, [&] { o.reset(); back.reset(); });
}
SCEN(chain_serialize) { OChain c(pool_chain(0, true)); Bytes ref = ser(c.p); OBuf o; OChain back;
    t.call([&] { o.reset(wickr_identity_chain_serialize_private(c.p)); if (!o) return false; back.reset(wickr_identity_chain_create_from_buffer(o.p, &ENG)); return (bool)back; },
        [&] { return B(o) == ref && ser(back.p) == ref; }, [&] { o.reset(); back.reset(); });
}
SCEN(chain_serialize_public) { OChain c(pool_chain(0, true)); OBuf ref(wickr_identity_chain_serialize(c.p)); OBuf o; OChain back;
    t.call([&] { o.reset(wickr_identity_chain_serialize(c.p)); if (!o) return false; back.reset(wickr_identity_chain_create_from_buffer(o.p, &ENG)); return (bool)back; },
        [&] { return same(o.p, ref.p) && same(back->root->sig_key->pub_data, c->root->sig_key->pub_data) && same(back->node->sig_key->pub_data, c->node->sig_key->pub_data); }, [&] { o.reset(); back.reset(); });
}
SCEN(chain_copy) { OChain c(pool_chain(0, true)); wickr_identity_chain_validate(c.p, &RAW); MAKE(OChain, wickr_identity_chain_copy(c.p), ser(out.p) == ser(c.p) && out->status == c->status); }
SCEN(chain_validate) {
    OChain c(pool_chain(0, false));
    t.call([&] { return wickr_identity_chain_validate(c.p, &ENG); }, [&] { return wickr_identity_chain_validate(c.p, &RAW); }, [] {});
}
SCEN(chain_validate_again) {
    OChain c(pool_chain(0, false)); if (!wickr_identity_chain_validate(c.p, &RAW)) { t.baseline_ok = false; return; }
    t.call([&] { return wickr_identity_chain_validate(c.p, &ENG); }, [&] { return wickr_identity_chain_validate(c.p, &RAW); }, [] {});
}
SCEN(chain_validate_bad) {
    OChain c(pool_chain(0, false)), d(pool_chain(1, false)); std::swap(c->node, d->node);
    t.reject([&] { return wickr_identity_chain_validate(c.p, &ENG); });
}
SCEN(chain_validate_replaced) {        // the node was swapped after a positive verdict
    OChain c(pool_chain(0, false)), d(pool_chain(1, false)); wickr_identity_chain_validate(c.p, &RAW); wickr_identity_chain_validate(d.p, &RAW); std::swap(c->node, d->node);
    t.reject([&] { return wickr_identity_chain_validate(c.p, &ENG); });
}
SCEN(fingerprint) {
    OChain a(pool_chain(0, false)), b(pool_chain(1, false));
    OFinger f1, f2, f3; OBuf s1, s2, s3, s4;
    OFinger ref(wickr_identity_get_bilateral_fingerprint(a->root, b->root, RAW)); OBuf r1(wickr_fingerprint_get_b32(ref.p, FINGERPRINT_OUTPUT_LONG)), r2(wickr_fingerprint_get_hex(ref.p, FINGERPRINT_OUTPUT_SHORT));
    OFinger refu(wickr_identity_get_fingerprint(a->root, RAW)); 
    t.call([&] {
        f1.reset(wickr_identity_get_fingerprint(a->root, ENG)); f2.reset(wickr_identity_get_bilateral_fingerprint(a->root, b->root, ENG)); if (!f1 || !f2) return false;
        f3.reset(wickr_fingerprint_copy(f1.p)); if (!f3) return false;
        s1.reset(wickr_fingerprint_get_b32(f2.p, FINGERPRINT_OUTPUT_LONG)); s2.reset(wickr_fingerprint_get_hex(f2.p, FINGERPRINT_OUTPUT_SHORT));
        s3.reset(wickr_fingerprint_get_b32(f2.p, FINGERPRINT_OUTPUT_SHORT)); s4.reset(wickr_fingerprint_get_hex(f2.p, FINGERPRINT_OUTPUT_LONG));
        return s1 && s2 && s3 && s4; },
        [&] { return same(f2->data, ref->data) && same(f1->data, refu->data) && same(f3->data, refu->data) && same(s1.p, r1.p) && same(s2.p, r2.p); },
        [&] { f1.reset(); f2.reset(); f3.reset(); s1.reset(); s2.reset(); s3.reset(); s4.reset(); });
}
SCEN(devinfo_new) { OBuf s = buf(pat(32, 8)); MAKER(ODevInfo, wickr_dev_info_create_new(&ENG, s.p), ([&] { ODevInfo d(wickr_dev_info_derive(&RAW, mkbuf(B(out->dev_salt)), s.p)); return d && same(d->msg_proto_id, out->msg_proto_id) && same(d->srv_comm_id, out->srv_comm_id) && same(d->system_salt, out->system_salt); })()); }
SCEN(devinfo_derive) {
    OBuf s = buf(pat(32, 8)); ODevInfo ref(wickr_dev_info_derive(&RAW, mkbuf(pat(32, 9)), s.p)); ODevInfo o, c;
    t.call([&] { wickr_buffer_t *salt = mkbuf(pat(32, 9)); o.reset(wickr_dev_info_derive(&ENG, salt, s.p)); if (!o) { wickr_buffer_destroy(&salt); return false; } c.reset(wickr_dev_info_copy(o.p)); return (bool)c; },
        [&] { return ref && same(o->msg_proto_id, ref->msg_proto_id) && same(c->srv_comm_id, ref->srv_comm_id) && same(c->dev_salt, ref->dev_salt) && same(c->system_salt, ref->system_salt); }, [&] { o.reset(); c.reset(); });
}
// ------------------------------------------------------------ accounts
ODevInfo devinfo(int i) { OBuf s = buf(pat(32, 40 + i)); return ODevInfo(wickr_dev_info_derive(&RAW, mkbuf(pat(32, 50 + i)), s.p)); }
SCEN(root_keys_generate) { MAKER(ORoot, wickr_root_keys_generate(&ENG), out->node_signature_root && out->node_storage_root && out->remote_storage_root && ser(out->node_storage_root) != ser(out->remote_storage_root)); }
SCEN(root_keys_serialize) {
    ORoot k(pool_root(0)); Bytes ref = ser(k.p); OBuf o; ORoot b, c;
    t.call([&] { o.reset(wickr_root_keys_serialize(k.p)); if (!o) return false; b.reset(wickr_root_keys_create_from_buffer(&ENG, o.p)); c.reset(wickr_root_keys_copy(k.p)); return b && c; },
        [&] { return B(o) == ref && ser(b.p) == ref && ser(c.p) == ref; }, [&] { o.reset(); b.reset(); c.reset(); });
}
SCEN(root_keys_export) {
    ORoot k(pool_root(0)); OKey ek = ckey(GCM, 3);
    MAKER(OCipher, wickr_root_keys_export(k.p, &ENG, ek.p), ([&] { OBuf s(wickr_cipher_result_serialize(out.p)); ORoot b(wickr_ctx_gen_import_recovery(RAW, s.p, ek.p)); return b && ser(b.p) == ser(k.p); })());
}
SCEN(root_keys_localize) {
    ORoot k(pool_root(0)); ODevInfo d = devinfo(0); OStorage ref(wickr_root_keys_localize(k.p, &RAW, d.p));
    MAKE(OStorage, wickr_root_keys_localize(k.p, &ENG, d.p), ref && ser(out.p) == ser(ref.p));
}
SCEN(storage_keys) {
    ORoot k(pool_root(0)); ODevInfo d = devinfo(0); OStorage s(wickr_root_keys_localize(k.p, &RAW, d.p)); Bytes ref = ser(s.p); OBuf o; OStorage b, c;
    t.call([&] { o.reset(wickr_storage_keys_serialize(s.p)); if (!o) return false; b.reset(wickr_storage_keys_create_from_buffer(o.p)); c.reset(wickr_storage_keys_copy(s.p)); return b && c; },
        [&] { return B(o) == ref && ser(b.p) == ref && ser(c.p) == ref; }, [&] { o.reset(); b.reset(); c.reset(); });
}
// a device context whose engine is the instrumented one, built with faults off
OGen mkgen(int i, int dev) { PauseFaults pf; ORoot k(pool_root(i)); ODevInfo d = devinfo(dev); OBuf id = buf(pat(32, i)); return OGen(wickr_ctx_gen_with_root_keys(ENG, d.p, k.p, id.p)); }
bool gen_good(const wickr_ctx_gen_result_t *r, const Bytes &root_pub, const Bytes &ident) {
    if (!r->ctx || !r->recovery_key || !r->root_keys || !r->ctx->id_chain || !r->ctx->storage_keys || !r->ctx->dev_info || !r->ctx->packet_header_key) return false;
    if (!root_pub.empty() && B(r->ctx->id_chain->root->sig_key->pub_data) != root_pub) return false;
    if (B(r->ctx->id_chain->root->identifier) != ident) return false;
    if (!wickr_identity_chain_validate(r->ctx->id_chain, &RAW)) return false;
    OBuf rec(wickr_ctx_gen_result_make_recovery(r)); if (!rec) return false;
    ORoot back(wickr_ctx_gen_import_recovery(RAW, rec.p, r->recovery_key));
    return back && ser(back.p) == ser(r->root_keys);
}
SCEN(ctx_gen_new) { ODevInfo d = devinfo(1); OBuf id = buf(pat(32, 1)); MAKER(OGen, wickr_ctx_gen_new(ENG, d.p, id.p), gen_good(out.p, "", pat(32, 1))); }
SCEN(ctx_gen_sig_key) { ODevInfo d = devinfo(1); OBuf id = buf(pat(32, 1)); OEc k = eckey(4); MAKER(OGen, wickr_ctx_gen_new_with_sig_key(ENG, d.p, k.p, id.p), gen_good(out.p, B(k->pub_data), pat(32, 1))); }
SCEN(ctx_gen_root_keys) { ORoot k(pool_root(1)); ODevInfo d = devinfo(1); OBuf id = buf(pat(32, 1)); MAKER(OGen, wickr_ctx_gen_with_root_keys(ENG, d.p, k.p, id.p), gen_good(out.p, B(k->node_signature_root->pub_data), pat(32, 1)) && ser(out->root_keys) == ser(k.p)); }
SCEN(ctx_gen_recovery) {
    OGen s = mkgen(1, 1); OBuf rec(wickr_ctx_gen_result_make_recovery(s.p)); ODevInfo d = devinfo(2); OBuf id = buf(pat(32, 1));
    MAKER(OGen, wickr_ctx_gen_with_recovery(ENG, d.p, rec.p, s->recovery_key, id.p), gen_good(out.p, B(s->root_keys->node_signature_root->pub_data), pat(32, 1)) && ser(out->recovery_key) == ser(s->recovery_key));
}
SCEN(ctx_gen_passphrase) {
    OGen s = mkgen(1, 1); OBuf rec(wickr_ctx_gen_result_make_recovery(s.p)), pw = buf(pat(12, 2)); OBuf ex(wickr_ctx_gen_export_recovery_key_passphrase(s.p, pw.p)); ODevInfo d = devinfo(2); OBuf id = buf(pat(32, 1));
    MAKER(OGen, wickr_ctx_gen_with_passphrase(ENG, d.p, ex.p, pw.p, rec.p, id.p), gen_good(out.p, B(s->root_keys->node_signature_root->pub_data), pat(32, 1)) && ser(out->recovery_key) == ser(s->recovery_key));
}
SCEN(ctx_gen_copy) { OGen s = mkgen(1, 1); MAKE(OGen, wickr_ctx_gen_result_copy(s.p), ser(out->ctx) == ser(s->ctx) && ser(out->recovery_key) == ser(s->recovery_key) && ser(out->root_keys) == ser(s->root_keys)); }
SCEN(ctx_recovery_export) {
    OGen s = mkgen(1, 1); OBuf pw = buf(pat(12, 2)); OBuf rec, ex; OKey imp; ORoot r;
    t.call([&] { rec.reset(wickr_ctx_gen_result_make_recovery(s.p)); ex.reset(wickr_ctx_gen_export_recovery_key_passphrase(s.p, pw.p)); if (!rec || !ex) return false;
            imp.reset(wickr_ctx_gen_import_recovery_key_passphrase(ENG, ex.p, pw.p)); if (!imp) return false; r.reset(wickr_ctx_gen_import_recovery(ENG, rec.p, imp.p)); return (bool)r; },
        [&] { return ser(imp.p) == ser(s->recovery_key) && ser(r.p) == ser(s->root_keys); }, [&] { rec.reset(); ex.reset(); imp.reset(); r.reset(); }, true);
}
SCEN(ctx_copy) { OGen s = mkgen(1, 1); s->ctx->pkt_enc_version = 3; MAKE(OCtx, wickr_ctx_copy(s->ctx), ser(out.p) == ser(s->ctx) && out->pkt_enc_version == 3 && same(out->dev_info->msg_proto_id, s->ctx->dev_info->msg_proto_id)); }
SCEN(ctx_serialize) {
    OGen s = mkgen(1, 1); Bytes ref = ser(s->ctx); OBuf o; OCtx b;
    t.call([&] { ODevInfo d; { PauseFaults pf; d = devinfo(1); } o.reset(wickr_ctx_serialize(s->ctx)); if (!o) return false; b.reset(wickr_ctx_create_from_buffer(ENG, d.p, o.p)); if (b) d.release(); return (bool)b; },
        [&] { return B(o) == ref && ser(b.p) == ref; }, [&] { o.reset(); b.reset(); });
}
SCEN(ctx_export) {
    OGen s = mkgen(1, 1); Bytes ref = ser(s->ctx); OBuf pw = buf(pat(12, 2)); OBuf o; OCtx b;
    t.call([&] { ODevInfo d; { PauseFaults pf; d = devinfo(1); } o.reset(wickr_ctx_export(s->ctx, pw.p)); if (!o) return false; b.reset(wickr_ctx_import(ENG, d.p, o.p, pw.p)); if (b) d.release(); return (bool)b; },
        [&] { return ser(b.p) == ref; }, [&] { o.reset(); b.reset(); }, true);
}
SCEN(ctx_storage_export) {
    OGen s = mkgen(1, 1); OBuf pw = buf(pat(12, 2)); OBuf o; OStorage b;
    t.call([&] { o.reset(wickr_ctx_export_storage_keys(s->ctx, pw.p)); if (!o) return false; b.reset(wickr_ctx_import_storage_keys(ENG, o.p, pw.p)); return (bool)b; },
        [&] { return ser(b.p) == ser(s->ctx->storage_keys); }, [&] { o.reset(); b.reset(); }, true);
}
SCEN(ctx_cipher) {
    OGen s = mkgen(1, 1); OBuf pt = buf(pat(45, 2)); OCipher l, r; OBuf dl, dr;
    t.call([&] { l.reset(wickr_ctx_cipher_local(s->ctx, pt.p)); r.reset(wickr_ctx_cipher_remote(s->ctx, pt.p)); if (!l || !r) return false;
            dl.reset(wickr_ctx_decipher_local(s->ctx, l.p)); dr.reset(wickr_ctx_decipher_remote(s->ctx, r.p)); return dl && dr; },
        [&] { return same(dl.p, pt.p) && same(dr.p, pt.p); }, [&] { l.reset(); r.reset(); dl.reset(); dr.reset(); }, true);
}
SCEN(ephemeral_gen) { OGen s = mkgen(1, 1); MAKER(OEph, wickr_ctx_ephemeral_keypair_gen(s->ctx, 77), out->identifier == 77 && wickr_ephemeral_keypair_verify_owner(out.p, &RAW, s->ctx->id_chain->node) && out->ec_key->pri_data); }
SCEN(ephemeral_ops) {
    OGen s = mkgen(1, 1); OEph e; { PauseFaults pf; e.reset(wickr_ctx_ephemeral_keypair_gen(s->ctx, 5)); } Bytes ref = ser(e.p); OBuf o; OEph b, c;
    t.call([&] { o.reset(wickr_ephemeral_keypair_serialize(e.p)); if (!o) return false; b.reset(wickr_ephemeral_keypair_create_from_buffer(o.p, &ENG)); c.reset(wickr_ephemeral_keypair_copy(e.p)); return b && c && wickr_ephemeral_keypair_verify_owner(b.p, &ENG, s->ctx->id_chain->node); },
        [&] { return B(o) == ref && ser(b.p) == ref && ser(c.p) == ref; }, [&] { o.reset(); b.reset(); c.reset(); });
}
ONode mknode(const wickr_ctx_t *c, OEph *keep, uint64_t kid) {
    PauseFaults pf; OEph e(wickr_ctx_ephemeral_keypair_gen(c, kid)); if (keep) keep->reset(wickr_ephemeral_keypair_copy(e.p));
    return ONode(wickr_node_create(mkbuf(B(c->dev_info->msg_proto_id)), wickr_identity_chain_copy(c->id_chain), e.release()));
}
SCEN(node_verify) {
    OGen s = mkgen(1, 1); ONode n = mknode(s->ctx, nullptr, 1);
    t.call([&] { return wickr_node_verify_signature_chain(n.p, &ENG); }, [&] { return wickr_node_verify_signature_chain(n.p, &RAW); }, [] {});
}
SCEN(node_verify_again) {
    OGen s = mkgen(1, 1); ONode n = mknode(s->ctx, nullptr, 1); if (!wickr_node_verify_signature_chain(n.p, &RAW)) { t.baseline_ok = false; return; }
    t.call([&] { return wickr_node_verify_signature_chain(n.p, &ENG); }, [&] { return wickr_node_verify_signature_chain(n.p, &RAW); }, [] {});
}
SCEN(node_verify_bad) {
    OGen s = mkgen(1, 1), s2 = mkgen(2, 2); ONode n = mknode(s->ctx, nullptr, 1), m = mknode(s2->ctx, nullptr, 1);
    wickr_node_verify_signature_chain(n.p, &RAW); wickr_node_verify_signature_chain(m.p, &RAW); std::swap(n->ephemeral_keypair, m->ephemeral_keypair);
    t.reject([&] { return wickr_node_verify_signature_chain(n.p, &ENG); });
}
SCEN(node_ops) {
    OGen s = mkgen(1, 1); ONode n = mknode(s->ctx, nullptr, 1); wickr_node_verify_signature_chain(n.p, &RAW); Bytes ref = ser(n.p); OBuf o; ONode b, c;
    t.call([&] { o.reset(wickr_node_serialize(n.p)); if (!o) return false; b.reset(wickr_node_create_from_buffer(o.p, &ENG)); c.reset(wickr_node_copy(n.p)); return b && c; },
        [&] { return B(o) == ref && ser(b.p) == ref && ser(c.p) == ref; }, [&] { o.reset(); b.reset(); c.reset(); });
}
SCEN(node_rotate) {
    OGen s = mkgen(1, 1); ONode n = mknode(s->ctx, nullptr, 1); OEph e(wickr_ctx_ephemeral_keypair_gen(s->ctx, 9));
    t.call([&] { return wickr_node_rotate_keypair(n.p, e.p, true); }, [&] { return n->ephemeral_keypair && n->ephemeral_keypair->identifier == 9 && ser(n->ephemeral_keypair) == ser(e.p); }, [] {});
    if (!n->ephemeral_keypair) t.fail("harmed", "a failed key rotation left the node without a key pair");
}
// ------------------------------------------------------------ messages
struct Msg { OGen snd, rcv; OEph key; ONodes nodes; OPayload pl; std::vector<OGen> more; std::vector<OEph> more_keys; };
OPayload payload(int s) { wickr_ephemeral_info_t ei = {100, 200}; return OPayload(wickr_payload_create(wickr_packet_meta_create(ei, mkbuf(pat(8, s)), 3), mkbuf(pat(70, s)))); }
void mkmsg(Msg &m, int version, int nrec) {
    PauseFaults pf; m.snd = mkgen(1, 1); m.rcv = mkgen(2, 2); m.snd->ctx->pkt_enc_version = (uint8_t)version; m.pl = payload(4);
    m.nodes.reset(wickr_node_array_new(nrec));
    for (int i = 0; i < nrec; i++) {
        ONode n; if (i == 0) n = mknode(m.rcv->ctx, &m.key, 21); else { OGen o = mkgen(2 + i, 2 + i); OEph k; n = mknode(o->ctx, &k, 30 + i); m.more.push_back(std::move(o)); m.more_keys.push_back(std::move(k)); }
        wickr_node_array_set_item(m.nodes.p, i, n.release());
    }
}
static bool reads(const wickr_ctx_t *c, const wickr_ephemeral_keypair_t *key, Msg &m, const Bytes &pkt, const wickr_payload_t *pl, int version) {
    OBuf b = buf(pkt);
    OCtxPacket cp(wickr_ctx_parse_packet(c, b.p, m.snd->ctx->id_chain)); if (!cp || cp->parse_result->err != E_SUCCESS) return false;
    if (cp->packet->version != version || !cp->parse_result->key_exchange || cp->parse_result->key_exchange->key_id != key->identifier) return false;
    ODec d(wickr_ctx_decode_packet(c, cp.p, key->ec_key));
    return d && d->err == E_SUCCESS && d->decrypted_payload && ser(d->decrypted_payload) == ser(pl);
}
// everybody the message is for can read it
static bool decodes(Msg &m, const Bytes &pkt, const wickr_payload_t *pl, int version) {
    if (!reads(m.rcv->ctx, m.key.p, m, pkt, pl, version)) return false;
    for (size_t i = 0; i < m.more.size(); i++) if (!reads(m.more[i]->ctx, m.more_keys[i].p, m, pkt, pl, version)) return false;
    return true;
}
static void encode(Try &t, int v, int n) {
    Msg m; mkmsg(m, v, n);
    MAKER(OEnc, wickr_ctx_encode_packet(m.snd->ctx, m.pl.p, m.nodes.p), out->packet && out->packet_key && decodes(m, ser(out->packet), m.pl.p, v));
}
SCEN(encode_v4) { encode(t, 4, 2); }
SCEN(encode_v3) { encode(t, 3, 2); }
SCEN(encode_v2) { encode(t, 2, 2); }
SCEN(encode_three) { encode(t, 4, 3); }
static void decode(Try &t, int v) {
    Msg m; mkmsg(m, v, 2); OEnc e(wickr_ctx_encode_packet(m.snd->ctx, m.pl.p, m.nodes.p)); if (!e) { t.baseline_ok = false; return; }
    Bytes w = ser(e->packet); OBuf b = buf(w); OCtxPacket cp; ODec d;
    t.call([&] { cp.reset(wickr_ctx_parse_packet(m.rcv->ctx, b.p, m.snd->ctx->id_chain)); if (!cp || cp->parse_result->err != E_SUCCESS) return false;
            d.reset(wickr_ctx_decode_packet(m.rcv->ctx, cp.p, m.key->ec_key)); return d && d->err == E_SUCCESS; },
        [&] { return d->decrypted_payload && d->payload_key && ser(d->decrypted_payload) == ser(m.pl.p) && ser(d->payload_key) == ser(e->packet_key); }, [&] { cp.reset(); d.reset(); });
}
SCEN(decode_v4) { decode(t, 4); }
SCEN(decode_v3) { decode(t, 3); }
SCEN(decode_v2) { decode(t, 2); }
SCEN(parse_no_decode) {
    Msg m; mkmsg(m, 4, 2); OEnc e(wickr_ctx_encode_packet(m.snd->ctx, m.pl.p, m.nodes.p)); if (!e) { t.baseline_ok = false; return; } OBuf b = buf(ser(e->packet)); OCtxPacket cp, cq;
    t.call([&] { cp.reset(wickr_ctx_parse_packet_no_decode(m.rcv->ctx, b.p, m.snd->ctx->id_chain)); cq.reset(wickr_ctx_stateless_parse_packet(&ENG, m.rcv->ctx->id_chain->node->identifier, b.p, m.snd->ctx->id_chain)); return cp && cq && cp->parse_result->err == E_SUCCESS && cq->parse_result->err == E_SUCCESS; },
        [&] { return cp->parse_result->key_exchange_set && wickr_array_get_item_count(cp->parse_result->key_exchange_set->exchanges) == 2 && cq->parse_result->key_exchange; }, [&] { cp.reset(); cq.reset(); });
}
SCEN(decode_tampered) {      // re-signed by nobody: content flipped
    Msg m; mkmsg(m, 4, 1); OEnc e(wickr_ctx_encode_packet(m.snd->ctx, m.pl.p, m.nodes.p)); if (!e) { t.baseline_ok = false; return; } Bytes w = ser(e->packet); w[w.size() / 2] ^= 1; OBuf b = buf(w);
    t.reject([&] { OCtxPacket cp(wickr_ctx_parse_packet(m.rcv->ctx, b.p, m.snd->ctx->id_chain)); if (!cp || cp->parse_result->err != E_SUCCESS) return false; ODec d(wickr_ctx_decode_packet(m.rcv->ctx, cp.p, m.key->ec_key)); return d && d->err == E_SUCCESS; });
}
SCEN(decode_wrong_sender) {
    Msg m; mkmsg(m, 4, 1); OEnc e(wickr_ctx_encode_packet(m.snd->ctx, m.pl.p, m.nodes.p)); if (!e) { t.baseline_ok = false; return; } OBuf b = buf(ser(e->packet));
    OChain other(wickr_identity_chain_copy(m.snd->ctx->id_chain)), o2(pool_chain(3, false)); std::swap(other->node->sig_key, o2->node->sig_key);
    t.reject([&] { OCtxPacket cp(wickr_ctx_parse_packet(m.rcv->ctx, b.p, other.p)); if (!cp || cp->parse_result->err != E_SUCCESS || cp->parse_result->signature_status != PACKET_SIGNATURE_VALID) return false; return true; });
}
SCEN(message_objects) {
    Msg m; mkmsg(m, 4, 2); OEnc e(wickr_ctx_encode_packet(m.snd->ctx, m.pl.p, m.nodes.p)); if (!e) { t.baseline_ok = false; return; } Bytes w = ser(e->packet); OBuf b = buf(w);
    OCtxPacket cp(wickr_ctx_parse_packet(m.rcv->ctx, b.p, m.snd->ctx->id_chain)); ODec d(wickr_ctx_decode_packet(m.rcv->ctx, cp.p, m.key->ec_key));
    if (!d || d->err) { t.baseline_ok = false; return; }
    OEnc e2; OPacket p2, p3; OParse r2; ODec d2; OPayload pl2, pl3; OBuf s; OBuf s2; OPMeta pm;
    t.call([&] {
        e2.reset(wickr_encoder_result_copy(e.p)); if (!e2) return false; p2.reset(wickr_packet_copy(e->packet)); if (!p2) return false;
        s2.reset(wickr_packet_serialize(e->packet)); if (!s2) return false; p3.reset(wickr_packet_create_from_buffer(b.p)); if (!p3) return false;
        r2.reset(wickr_parse_result_copy(cp->parse_result)); if (!r2) return false; d2.reset(wickr_decode_result_copy(d.p)); if (!d2) return false;
        pl2.reset(wickr_payload_copy(m.pl.p)); if (!pl2) return false; s.reset(wickr_payload_serialize(m.pl.p)); if (!s) return false; pl3.reset(wickr_payload_create_from_buffer(s.p)); if (!pl3) return false;
        pm.reset(wickr_packet_meta_copy(m.pl->meta)); return (bool)pm; },
        [&] { return ser(e2->packet) == w && ser(e2->packet_key) == ser(e->packet_key) && ser(p2.p) == w && B(s2) == w && ser(p3.p) == w && ser(r2->key_exchange_set) == ser(cp->parse_result->key_exchange_set) && ser(r2->enc_payload) == ser(cp->parse_result->enc_payload) &&
                ser(d2->decrypted_payload) == ser(m.pl.p) && ser(d2->payload_key) == ser(d->payload_key) && ser(pl2.p) == ser(m.pl.p) && ser(pl3.p) == ser(m.pl.p) && same(pm->channel_tag, m.pl->meta->channel_tag) && pm->content_type == 3; },
        [&] { e2.reset(); p2.reset(); p3.reset(); r2.reset(); d2.reset(); pl2.reset(); pl3.reset(); s.reset(); s2.reset(); pm.reset(); });
}
SCEN(payload_cipher) {
    OPayload p = payload(2); OKey k = ckey(GCM, 3); OCipher c; OPayload b;
    t.call([&] { c.reset(wickr_payload_encrypt(p.p, &ENG, k.p)); if (!c) return false; b.reset(wickr_payload_create_from_cipher(&ENG, c.p, k.p)); return (bool)b; }, [&] { return ser(b.p) == ser(p.p); }, [&] { c.reset(); b.reset(); }, true);
}
SCEN(exchange_set) {
    OKey k = ckey(GCM, 3), hk = ckey(GCM, 5); OBuf pt = buf(pat(33, 1)); OEc pub = eckey(1);
    OExchSet set; OCipher c; OExchSet b, b2, cp; OBuf s; OExch f;
    t.call([&] {
        OExchArr arr(wickr_exchange_array_new(2)); if (!arr) return false;
        for (int i = 0; i < 2; i++) {
            wickr_buffer_t *id; { PauseFaults pf; id = mkbuf(pat(16, i)); }
            wickr_cipher_result_t *ct = RAW.wickr_crypto_engine_cipher_encrypt(pt.p, NULL, k.p, NULL); if (!ct) { wickr_buffer_destroy(&id); return false; }
            wickr_key_exchange_t *e = wickr_key_exchange_create(id, 10 + i, ct); if (!e) { wickr_buffer_destroy(&id); wickr_cipher_result_destroy(&ct); return false; }
            if (!wickr_exchange_array_set_item(arr.p, i, e)) { wickr_key_exchange_destroy(&e); return false; }
        }
        wickr_ec_key_t *pk; { PauseFaults pf; pk = wickr_ec_key_copy(pub.p); }
        set.reset(wickr_key_exchange_set_create(pk, arr.p)); if (!set) { wickr_ec_key_destroy(&pk); return false; } arr.release();
        OBuf q; { PauseFaults pf; q = buf(pat(16, 1)); } OExch fe(wickr_key_exchange_set_find(set.p, q.p)); if (!fe) return false; f.reset(wickr_key_exchange_copy(fe.p)); if (!f) return false;
        s.reset(wickr_key_exchange_set_serialize(set.p)); if (!s) return false; b.reset(wickr_key_exchange_set_create_from_buffer(&ENG, s.p)); if (!b) return false;
        c.reset(wickr_key_exchange_set_encrypt(set.p, &ENG, hk.p)); if (!c) return false; b2.reset(wickr_key_exchange_set_create_from_cipher(&ENG, c.p, hk.p)); if (!b2) return false;
        cp.reset(wickr_key_exchange_set_copy(set.p)); return (bool)cp; },
        [&] { Bytes r = ser(set.p); return r != "?" && ser(b.p) == r && ser(b2.p) == r && ser(cp.p) == r && B(s) == r && f->key_id == 11 && B(f->exchange_id) == pat(16, 1); },
        [&] { set.reset(); c.reset(); b.reset(); b2.reset(); cp.reset(); s.reset(); f.reset(); });
}
SCEN(key_exchange_psk) {
    OGen s = mkgen(1, 1), r = mkgen(2, 2); OEph key; ONode n = mknode(r->ctx, &key, 3); OEc ek = eckey(5); OKey pk = ckey(GCM, 4); OBuf psk = buf(pat(20, 9)); OExch o; OKey b;
    t.call([&] { o.reset(wickr_key_exchange_create_with_packet_key(&ENG, s->ctx->id_chain, n.p, ek.p, pk.p, psk.p, 4)); return (bool)o; },
        [&] {
            ONode mine(wickr_node_copy(n.p)); wickr_ephemeral_keypair_destroy(&mine->ephemeral_keypair); mine->ephemeral_keypair = wickr_ephemeral_keypair_copy(key.p);
            b.reset(wickr_key_exchange_derive_packet_key(&RAW, s->ctx->id_chain, mine.p, ek.p, o.p, psk.p, 4)); return b && ser(b.p) == ser(pk.p); },
        [&] { o.reset(); b.reset(); }, true);
}
SCEN(ecdh_cipher) {
    OEc pk = eckey(1); OEc rk = eckey(2); OBuf pt = buf(pat(40, 2)); OBuf salt = buf(pat(64, 1));
    OKdfMeta meta(wickr_kdf_meta_create(KDF_HKDF_SHA512, mkbuf(pat(64, 1)), mkbuf(pat(9, 2))));
    OKdfMeta meta256(wickr_kdf_meta_create(KDF_HKDF_SHA256, mkbuf(pat(32, 1)), mkbuf(pat(9, 2))));
    OEcdh a, b, r; OCipher c; OBuf d; wickr_kdf_meta_t *mt = meta256.p;
    OEcdh rr(wickr_ecdh_cipher_ctx_create_key(RAW, wickr_ec_key_copy(rk.p), GCM));
    { OEcdh x(wickr_ecdh_cipher_ctx_create_key(RAW, wickr_ec_key_copy(pk.p), GCM)); OCipher cc(wickr_ecdh_cipher_ctx_cipher(x.p, pt.p, rk.p, mt)); if (!cc) mt = meta.p; }
    t.call([&] { a.reset(wickr_ecdh_cipher_ctx_create(ENG, P521, GCM)); if (!a) return false; b.reset(wickr_ecdh_cipher_ctx_copy(a.p)); if (!b) return false;
            c.reset(wickr_ecdh_cipher_ctx_cipher(b.p, pt.p, rk.p, mt)); if (!c) return false;
            wickr_ec_key_t *k2; { PauseFaults pf; k2 = wickr_ec_key_copy(rk.p); } r.reset(wickr_ecdh_cipher_ctx_create_key(ENG, k2, GCM)); if (!r) { wickr_ec_key_destroy(&k2); return false; }
            OEc lp; { PauseFaults pf; lp.reset(wickr_ec_key_copy(a->local_key)); }
            d.reset(wickr_ecdh_cipher_ctx_decipher(r.p, c.p, lp.p, mt)); return (bool)d; },
        [&] { return same(d.p, pt.p); }, [&] { a.reset(); b.reset(); c.reset(); r.reset(); d.reset(); }, true);
}
// ------------------------------------------------------------ streams
OSKey skey(uint32_t ppe, bool ud) { return OSKey(wickr_stream_key_create_user_data(wickr_cipher_key_create(GCM, mkbuf(pat(32, 1))), mkbuf(pat(64, 2)), ppe, ud ? mkbuf(pat(6, 3)) : NULL)); }
SCEN(stream_key) {
    OSKey k = skey(512, true); Bytes ref = ser(k.p); OBuf o; OSKey b, c, r;
    t.call([&] { o.reset(wickr_stream_key_serialize(k.p)); if (!o) return false; b.reset(wickr_stream_key_create_from_buffer(o.p)); c.reset(wickr_stream_key_copy(k.p)); r.reset(wickr_stream_key_create_rand(ENG, GCM, 512)); return b && c && r; },
        [&] { return B(o) == ref && ser(b.p) == ref && ser(c.p) == ref && B(r->cipher_key->key_data) != Bytes(32, (char)0xA5) && r->evolution_key; }, [&] { o.reset(); b.reset(); c.reset(); r.reset(); }, true);
}
static void stream_enc(Try &t, bool evolve) {
    OSKey k = skey(4, false); OStream e(wickr_stream_ctx_create(ENG, wickr_stream_key_copy(k.p), STREAM_DIRECTION_ENCODE)), d(wickr_stream_ctx_create(RAW, wickr_stream_key_copy(k.p), STREAM_DIRECTION_DECODE));
    OBuf pt = buf(pat(50, 1)), aad = buf(pat(10, 2)); uint64_t seq = 1;
    for (; evolve && seq < 4; seq++) { OCipher c(wickr_stream_ctx_encode(e.p, pt.p, aad.p, seq)); }
    OCipher out;
    t.call([&] { out.reset(wickr_stream_ctx_encode(e.p, pt.p, aad.p, seq)); return (bool)out; }, [&] { OBuf x(wickr_stream_ctx_decode(d.p, out.p, aad.p, seq)); if (same(x.p, pt.p)) { seq++; return true; } return false; }, [&] { out.reset(); }, false);
    // whatever failed, the stream still works
    for (int i = 0; i < 6 && !g.failed(); i++, seq++) { OCipher c(wickr_stream_ctx_encode(e.p, pt.p, aad.p, seq)); OBuf x; if (c) x.reset(wickr_stream_ctx_decode(d.p, c.p, aad.p, seq)); if (!same(x.p, pt.p)) { if (t.baseline_ok && t.faults->size()) t.fail("no-retry", "the stream cannot be used any more after a failed encode"); break; } }
}
SCEN(stream_encode) { stream_enc(t, false); }
SCEN(stream_encode_evolve) { stream_enc(t, true); }
static void stream_dec(Try &t, uint64_t seq) {
    OSKey k = skey(4, false); OStream e(wickr_stream_ctx_create(RAW, wickr_stream_key_copy(k.p), STREAM_DIRECTION_ENCODE)), d(wickr_stream_ctx_create(ENG, wickr_stream_key_copy(k.p), STREAM_DIRECTION_DECODE));
    OBuf pt = buf(pat(50, 1)), aad = buf(pat(10, 2)); OCipher c(wickr_stream_ctx_encode(e.p, pt.p, aad.p, seq)); OBuf out;
    bool done = false;
    t.call([&] { if (done) { // already accepted once: replays are refused, use the next packet
                PauseFaults pf; seq++; c.reset(wickr_stream_ctx_encode(e.p, pt.p, aad.p, seq)); }
            out.reset(wickr_stream_ctx_decode(d.p, c.p, aad.p, seq)); done = done || (bool)out; return (bool)out; }, [&] { return same(out.p, pt.p); }, [&] { out.reset(); });
}
SCEN(stream_decode) { stream_dec(t, 1); }
SCEN(stream_decode_evolve) { stream_dec(t, 6); }
SCEN(stream_ctx) {
    OSKey k = skey(4, true); OStream a, b, r; OBuf pt = buf(pat(50, 1));
    t.call([&] { wickr_stream_key_t *kc; { PauseFaults pf; kc = wickr_stream_key_copy(k.p); } a.reset(wickr_stream_ctx_create(ENG, kc, STREAM_DIRECTION_ENCODE)); if (!a) { wickr_stream_key_destroy(&kc); return false; } b.reset(wickr_stream_ctx_copy(a.p)); return (bool)b; },
        [&] { OStream d(wickr_stream_ctx_create(RAW, wickr_stream_key_copy(k.p), STREAM_DIRECTION_DECODE)); OCipher c(wickr_stream_ctx_encode(b.p, pt.p, NULL, 1)); OBuf x; if (c) x.reset(wickr_stream_ctx_decode(d.p, c.p, NULL, 1)); return same(x.p, pt.p); },
        [&] { a.reset(); b.reset(); });
}
SCEN(stream_iv) {
    OSIv i, c; OBuf x, y;
    t.call([&] { i.reset(wickr_stream_iv_create(ENG, GCM)); if (!i) return false; x.reset(wickr_stream_iv_generate(i.p)); if (!x) return false; y.reset(wickr_stream_iv_generate(i.p)); if (!y) return false; c.reset(wickr_stream_iv_copy(i.p)); return (bool)c; },
        [&] { return B(x) != B(y) && x->length == 12; }, [&] { i.reset(); c.reset(); x.reset(); y.reset(); }, true);
}
// ------------------------------------------------------------ transport
SCEN(transport_packet) {
    OChain c(pool_chain(0, true)), v(pool_chain(0, false)); OTPacket p, q, r; OBuf s; wickr_transport_packet_meta_t m; 
    t.call([&] { wickr_buffer_t *b; { PauseFaults pf; b = mkbuf(pat(40, 2)); wickr_transport_packet_meta_initialize_handshake(&m, 1, TRANSPORT_MAC_TYPE_NONE); }
            p.reset(wickr_transport_packet_create(m, b)); if (!p) { wickr_buffer_destroy(&b); return false; }
            if (!wickr_transport_packet_sign(p.p, &ENG, c.p)) return false; s.reset(wickr_transport_packet_serialize(p.p)); if (!s) return false;
            q.reset(wickr_transport_packet_create_from_buffer(s.p)); r.reset(wickr_transport_packet_copy(p.p)); return q && r && wickr_transport_packet_verify(q.p, &ENG, v.p); },
        [&] { OBuf s2(wickr_transport_packet_serialize(q.p)), s3(wickr_transport_packet_serialize(r.p)); return same(s.p, s2.p) && same(s.p, s3.p) && B(q->body) == pat(40, 2) && wickr_transport_packet_verify(r.p, &RAW, v.p); },
        [&] { p.reset(); q.reset(); r.reset(); s.reset(); });
}
SCEN(transport_packet_verify_bad) {
    OChain c(pool_chain(0, true)), v(pool_chain(1, false)); wickr_transport_packet_meta_t m; wickr_transport_packet_meta_initialize_handshake(&m, 1, TRANSPORT_MAC_TYPE_NONE);
    OTPacket p(wickr_transport_packet_create(m, mkbuf(pat(40, 2)))); wickr_transport_packet_sign(p.p, &RAW, c.p); OBuf s(wickr_transport_packet_serialize(p.p)); OTPacket q(wickr_transport_packet_create_from_buffer(s.p));
    t.reject([&] { return wickr_transport_packet_verify(q.p, &ENG, v.p); });
}
SCEN(transport_root_key) {
    OTRoot k(wickr_transport_root_key_create(mkbuf(pat(32, 4)), GCM, 512, 512)); OBuf salt = buf(pat(32, 1)), id = buf(pat(4, 5)); OTRoot c, r; OSKey o;
    OSKey ref(wickr_transport_root_key_to_stream_key(k.p, &RAW, salt.p, id.p, STREAM_DIRECTION_ENCODE));
    t.call([&] { r.reset(wickr_transport_root_key_create_random(&ENG, GCM, 512, 512)); if (!r) return false; c.reset(wickr_transport_root_key_copy(k.p)); if (!c) return false; o.reset(wickr_transport_root_key_to_stream_key(c.p, &ENG, salt.p, id.p, STREAM_DIRECTION_ENCODE)); return (bool)o; },
        [&] { return ref && ser(o.p) == ser(ref.p); }, [&] { c.reset(); r.reset(); o.reset(); }, true);
}
static OChain hs_peer[2];
static void hs_cb(const wickr_transport_handshake_t *, wickr_identity_chain_t *id, void *u) { hs_peer[(intptr_t)u].reset(id); }
SCEN(handshake) {
    OChain a(pool_chain(0, true)), b(pool_chain(1, true)); OHandshake h0, h1; OHRes r0, r1, rc; bool known = false;
    // stage-wise: either everything works, or the failing step says so
    t.call([&] {
        wickr_identity_chain_t *la, *lb, *ra = nullptr, *rb = nullptr; { PauseFaults pf; la = wickr_identity_chain_copy(a.p); lb = wickr_identity_chain_copy(b.p); if (known) { ra = pool_chain(0, false); rb = pool_chain(1, false); } }
        h0.reset(wickr_transport_handshake_create(ENG, la, rb, hs_cb, 512, (void *)0)); if (!h0) { wickr_identity_chain_destroy(&la); wickr_identity_chain_destroy(&lb); return false; }
        h1.reset(wickr_transport_handshake_create(ENG, lb, ra, hs_cb, 512, (void *)1)); if (!h1) { wickr_identity_chain_destroy(&lb); return false; }
        OTPacket p(wickr_transport_handshake_start(h0.p)); if (!p) return false;
        OTPacket q(wickr_transport_handshake_process(h1.p, p.p));
        if (!q && hs_peer[1]) q.reset(wickr_transport_handshake_verify_identity(h1.p, true)); if (!q) return false;
        OTPacket x(wickr_transport_handshake_process(h0.p, q.p)); if (!x && hs_peer[0]) x.reset(wickr_transport_handshake_verify_identity(h0.p, true));
        if (x) { OTPacket y(wickr_transport_handshake_process(h1.p, x.p)); }
        r0.reset(wickr_transport_handshake_finalize(h0.p)); r1.reset(wickr_transport_handshake_finalize(h1.p)); if (!r0 || !r1) return false;
        rc.reset(wickr_transport_handshake_res_copy(r0.p)); return (bool)rc; },
        [&] { return ser(wickr_transport_handshake_res_get_local_key(r0.p)) == ser(wickr_transport_handshake_res_get_remote_key(r1.p)) && ser(wickr_transport_handshake_res_get_local_key(r1.p)) == ser(wickr_transport_handshake_res_get_remote_key(r0.p)) && ser(wickr_transport_handshake_res_get_local_key(rc.p)) == ser(wickr_transport_handshake_res_get_local_key(r0.p)); },
        [&] { h0.reset(); h1.reset(); r0.reset(); r1.reset(); rc.reset(); hs_peer[0].reset(); hs_peer[1].reset(); }, true);
}
SCEN(handshake_copy) {
    OChain a(pool_chain(0, true)); OHandshake h(wickr_transport_handshake_create(ENG, a.release(), NULL, hs_cb, 512, (void *)0)); OTPacket p(wickr_transport_handshake_start(h.p));
    MAKE(OHandshake, wickr_transport_handshake_copy(h.p), wickr_transport_handshake_get_status(out.p) == wickr_transport_handshake_get_status(h.p));
}
// copies of a handshake at every step, with and without an expected peer; each copy must be able to finish in the original's place
struct Hs { OHandshake h[2]; OTPacket p, q; };
static bool hs_step(Hs &x, int s) {
    switch (s) {
        case 0: x.p.reset(wickr_transport_handshake_start(x.h[0].p)); return (bool)x.p;
        case 1: x.q.reset(wickr_transport_handshake_process(x.h[1].p, x.p.p)); return true;
        case 2: if (!x.q) x.q.reset(wickr_transport_handshake_verify_identity(x.h[1].p, true)); return (bool)x.q;
        case 3: { OTPacket y(wickr_transport_handshake_process(x.h[0].p, x.q.p)); return true; }
        default: if (wickr_transport_handshake_get_status(x.h[0].p) == TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION) { OTPacket y(wickr_transport_handshake_verify_identity(x.h[0].p, true)); } return true;
    }
}
static Bytes hs_ids(const wickr_transport_handshake_t *h) {
    OBuf a(wickr_identity_chain_serialize_private(wickr_transport_handshake_get_local_identity(h)));
    auto r = wickr_transport_handshake_get_remote_identity(h); OBuf b(r ? wickr_identity_chain_serialize(r) : nullptr);
    return B(a) + "|" + B(b);
}
template <int K, int S, int R> static void hs_copy_at(Try &t) {
    Hs x; bool known = K == 1;
    for (int i = 0; i < 2; i++) {
        wickr_identity_chain_t *l = pool_chain(i, true), *r = known ? pool_chain(1 - i, false) : nullptr;
        x.h[i].reset(wickr_transport_handshake_create(ENG, l, r, hs_cb, 512, (void *)(intptr_t)i));
    }
    for (int s = 0; s < S; s++) if (!x.h[0] || !x.h[1] || !hs_step(x, s)) { t.baseline_ok = false; return; }
    OHandshake out;
    t.call([&] { out.reset(wickr_transport_handshake_copy(x.h[R].p)); return (bool)out; },
        [&] {
            if (wickr_transport_handshake_get_status(out.p) != wickr_transport_handshake_get_status(x.h[R].p) || hs_ids(out.p) != hs_ids(x.h[R].p)) return false;
            if (wickr_transport_handshake_get_user_data(out.p) != wickr_transport_handshake_get_user_data(x.h[R].p)) return false;
            Hs y; y.h[1 - R].reset(wickr_transport_handshake_copy(x.h[1 - R].p)); y.h[R] = std::move(out);
            if (x.p) y.p.reset(wickr_transport_packet_copy(x.p.p)); if (x.q) y.q.reset(wickr_transport_packet_copy(x.q.p));
            for (int s = S; s < 5; s++) if (!hs_step(y, s)) return false;
            OHRes r0(wickr_transport_handshake_finalize(y.h[0].p)), r1(wickr_transport_handshake_finalize(y.h[1].p));
            return r0 && r1 && ser(wickr_transport_handshake_res_get_local_key(r0.p)) == ser(wickr_transport_handshake_res_get_remote_key(r1.p)) && ser(wickr_transport_handshake_res_get_local_key(r1.p)) == ser(wickr_transport_handshake_res_get_remote_key(r0.p)); },
        [&] { out.reset(); });
}
template <int K, int S, int R> struct RegHs { RegHs() { scens().push_back({strdup(("handshake_copy_" + std::string(K ? "known" : "unknown") + std::to_string(S) + (R ? "r" : "i")).c_str()), hs_copy_at<K, S, R>}); } };
static RegHs<0, 0, 0> hc00i; static RegHs<1, 0, 0> hc10i; static RegHs<1, 0, 1> hc10r; static RegHs<0, 1, 0> hc01i; static RegHs<1, 1, 0> hc11i;
static RegHs<0, 2, 1> hc02r; static RegHs<1, 2, 1> hc12r; static RegHs<0, 3, 1> hc03r; static RegHs<0, 4, 0> hc04i; static RegHs<1, 4, 0> hc14i; static RegHs<0, 5, 0> hc05i; static RegHs<1, 5, 1> hc15r;
struct End { OTransport t; std::vector<Bytes> out, in; std::vector<int> states; wickr_identity_chain_t *peer = nullptr; wickr_transport_validate_identity_callback done = nullptr; };
static End *ends[2];
static End *endof(const wickr_transport_ctx_t *c) { return (End *)wickr_transport_ctx_get_user_ctx(c); }
static void cb_tx(const wickr_transport_ctx_t *c, wickr_buffer_t *d) { PauseFaults pf; endof(c)->out.push_back(B(d)); wickr_buffer_destroy(&d); }
static void cb_rx(const wickr_transport_ctx_t *c, wickr_buffer_t *d) { PauseFaults pf; endof(c)->in.push_back(B(d)); wickr_buffer_destroy(&d); }
static void cb_st(const wickr_transport_ctx_t *c, wickr_transport_status s) { endof(c)->states.push_back(s); }
static void cb_id(const wickr_transport_ctx_t *c, wickr_identity_chain_t *id, wickr_transport_validate_identity_callback done) { { PauseFaults pf; wickr_identity_chain_destroy(&id); } done(c, true); }
static bool mkend(End &e, int me, int peer) {
    wickr_identity_chain_t *l, *r = nullptr; { PauseFaults pf; l = pool_chain(me, true); if (peer >= 0) r = pool_chain(peer, false); }
    wickr_transport_callbacks_t cb = {cb_tx, cb_rx, cb_st, cb_id};
    e.t.reset(wickr_transport_ctx_create(ENG, l, r, 512, cb, &e)); if (!e.t) { PauseFaults pf; wickr_identity_chain_destroy(&l); if (r) wickr_identity_chain_destroy(&r); return false; }
    return true;
}
static void pump(End &a, End &b) {
    for (int i = 0; i < 12 && (a.out.size() || b.out.size()); i++) {
        std::vector<Bytes> x; x.swap(a.out); for (auto &m : x) { OBuf d; { PauseFaults pf; d = buf(m); } wickr_transport_ctx_process_rx_buffer(b.t.p, d.p); { PauseFaults pf; d.reset(); } }
        x.clear(); x.swap(b.out); for (auto &m : x) { OBuf d; { PauseFaults pf; d = buf(m); } wickr_transport_ctx_process_rx_buffer(a.t.p, d.p); { PauseFaults pf; d.reset(); } }
    }
}
static bool err(const End &e) { return e.t && wickr_transport_ctx_get_status(e.t.p) == TRANSPORT_STATUS_ERROR; }
static bool act(const End &e) { return e.t && wickr_transport_ctx_get_status(e.t.p) == TRANSPORT_STATUS_ACTIVE; }
static void session(Try &t, bool known) {
    End a, b; bool reported = true;
    t.call([&] {
        if (!mkend(a, 0, known ? 1 : -1) || !mkend(b, 1, known ? 0 : -1)) return false;
        wickr_transport_ctx_start(a.t.p); pump(a, b);
        if (act(a) && act(b)) {
            OBuf m; { PauseFaults pf; m = buf(pat(60, 7)); }
            wickr_transport_ctx_process_tx_buffer(a.t.p, m.p); wickr_transport_ctx_process_tx_buffer(b.t.p, m.p); pump(a, b); { PauseFaults pf; m.reset(); }
            if (b.in.size() == 1 && a.in.size() == 1) return true;
        }
        reported = err(a) || err(b) || (a.t && wickr_transport_ctx_get_last_error(a.t.p)) || (b.t && wickr_transport_ctx_get_last_error(b.t.p));
        return false; },
        [&] { return a.in[0] == pat(60, 7) && b.in[0] == pat(60, 7) && act(a) && act(b); },
        [&] { if (!reported) t.fail("silent", "the session neither works nor reports an error after a dependency failed"); reported = true; a.t.reset(); b.t.reset(); a.out.clear(); b.out.clear(); a.in.clear(); b.in.clear(); a.states.clear(); b.states.clear(); }, false);
}
SCEN(session_known) { session(t, true); }
SCEN(session_unknown) { session(t, false); }
SCEN(transport_copy) {
    End a, b; mkend(a, 0, 1); mkend(b, 1, 0); wickr_transport_ctx_start(a.t.p); pump(a, b); if (!act(a)) { t.baseline_ok = false; return; }
    MAKE(OTransport, wickr_transport_ctx_copy(a.t.p), wickr_transport_ctx_get_status(out.p) == TRANSPORT_STATUS_ACTIVE && wickr_transport_ctx_get_remote_identity_ptr(out.p));
}
// copies of a session at every step
static void copy_end(End &to, const End &from) { to.t.reset(wickr_transport_ctx_copy(from.t.p)); if (to.t) wickr_transport_ctx_set_user_ctx(to.t.p, &to); to.out = from.out; }
static Bytes end_ids(const End &e) {
    OBuf a(wickr_identity_chain_serialize_private(wickr_transport_ctx_get_local_identity_ptr(e.t.p)));
    auto r = wickr_transport_ctx_get_remote_identity_ptr(e.t.p); OBuf b(r ? wickr_identity_chain_serialize(r) : nullptr);
    return B(a) + "|" + B(b);
}
// identities are approved when the driver says so, so that sessions can be copied while they wait
static void cb_id_later(const wickr_transport_ctx_t *c, wickr_identity_chain_t *id, wickr_transport_validate_identity_callback done) { PauseFaults pf; wickr_identity_chain_destroy(&id); endof(c)->done = done; }
static void sess_step(End &a, End &b, int s) {
    auto go = [](End &f, End &t) { std::vector<Bytes> x; x.swap(f.out); for (auto &m : x) { OBuf d = buf(m); wickr_transport_ctx_process_rx_buffer(t.t.p, d.p); } };
    switch (s) {
        case 0: wickr_transport_ctx_start(a.t.p); break;
        case 1: go(a, b); break;
        case 2: if (b.done) { auto f = b.done; b.done = nullptr; f(b.t.p, true); } break;
        case 3: go(b, a); break;
        case 4: if (a.done) { auto f = a.done; a.done = nullptr; f(a.t.p, true); } break;
        default: { for (End *e : {&a, &b}) { OBuf m = buf(pat(60, 7)); wickr_transport_ctx_process_tx_buffer(e->t.p, m.p); } go(a, b); go(b, a); }
    }
}
template <int K, int S, int R> static void sess_copy_at(Try &t) {
    End e[2];
    for (int i = 0; i < 2; i++) {
        wickr_transport_callbacks_t cb = {cb_tx, cb_rx, cb_st, cb_id_later};
        e[i].t.reset(wickr_transport_ctx_create(ENG, pool_chain(i, true), K ? pool_chain(1 - i, false) : nullptr, 2, cb, &e[i]));
        if (!e[i].t) { t.baseline_ok = false; return; }
    }
    for (int s = 0; s < S; s++) sess_step(e[0], e[1], s);
    OTransport out;
    t.call([&] { out.reset(wickr_transport_ctx_copy(e[R].t.p)); return (bool)out; },
        [&] {
            End c[2]; copy_end(c[1 - R], e[1 - R]); c[R].t = std::move(out); wickr_transport_ctx_set_user_ctx(c[R].t.p, &c[R]); c[R].out = e[R].out;
            c[0].done = e[0].done; c[1].done = e[1].done;
            if (wickr_transport_ctx_get_status(c[R].t.p) != wickr_transport_ctx_get_status(e[R].t.p) || end_ids(c[R]) != end_ids(e[R])) return false;
            for (int s = S; s < 7; s++) sess_step(c[0], c[1], s);
            if (S > 5) sess_step(c[0], c[1], 5);
            return act(c[0]) && act(c[1]) && c[0].in.size() >= 1 && c[1].in.size() >= 1 && c[0].in[0] == pat(60, 7) && c[1].in[0] == pat(60, 7); },
        [&] { out.reset(); });
}
template <int K, int S, int R> struct RegSc { RegSc() { scens().push_back({strdup(("session_copy_" + std::string(K ? "known" : "unknown") + std::to_string(S) + (R ? "r" : "i")).c_str()), sess_copy_at<K, S, R>}); } };
static RegSc<0, 0, 0> sc00i; static RegSc<1, 0, 1> sc10r; static RegSc<0, 1, 0> sc01i; static RegSc<1, 1, 0> sc11i; static RegSc<0, 2, 1> sc02r; static RegSc<0, 3, 1> sc03r; static RegSc<1, 3, 1> sc13r; static RegSc<0, 4, 0> sc04i; static RegSc<0, 5, 0> sc05i; static RegSc<1, 5, 1> sc15r; static RegSc<1, 6, 0> sc16i; static RegSc<1, 6, 1> sc16r; static RegSc<0, 6, 1> sc06r;
// ------------------------------------------------------------ files
static void fenc(Try &t, wickr_cipher_t c, size_t n) {
    vfs.reset(); vfs.put("/d/src", pat(n, 2)); OKey k = ckey(c, 1);
    t.call([&] { return ENG.wickr_crypto_engine_encrypt_file(k.p, "/d/src", "/d/dst"); },
        [&] { if (!RAW.wickr_crypto_engine_decrypt_file(k.p, "/d/dst", "/d/back", false)) return false; return vfs.get("/d/back") == pat(n, 2) && vfs.get("/d/src") == pat(n, 2); },
        [&] { vfs.files.erase("/d/dst"); vfs.files.erase("/d/back"); if (vfs.open_handles) t.fail("leak", "a file handle was left open"); }, true);
    vfs.reset(); vfs.on = false;
}
SCEN(file_encrypt) { fenc(t, GCM, 5000); }
SCEN(file_encrypt_ctr) { fenc(t, CTR, 300); }
static void fdec(Try &t, wickr_cipher_t c, size_t n) {
    vfs.reset(); vfs.put("/d/src", pat(n, 2)); OKey k = ckey(c, 1); RAW.wickr_crypto_engine_encrypt_file(k.p, "/d/src", "/d/enc");
    t.call([&] { return ENG.wickr_crypto_engine_decrypt_file(k.p, "/d/enc", "/d/dst", c.is_authenticated); },
        [&] { return vfs.get("/d/dst") == pat(n, 2); }, [&] { vfs.files.erase("/d/dst"); if (vfs.open_handles) t.fail("leak", "a file handle was left open"); });
    vfs.reset(); vfs.on = false;
}
SCEN(file_decrypt) { fdec(t, GCM, 5000); }
SCEN(file_decrypt_ctr) { fdec(t, CTR, 300); }
SCEN(file_decrypt_tampered) {
    vfs.reset(); vfs.put("/d/src", pat(5000, 2)); OKey k = ckey(GCM, 1); RAW.wickr_crypto_engine_encrypt_file(k.p, "/d/src", "/d/enc"); vfs.files["/d/enc"]->data[2000] ^= 1;
    t.reject([&] { return ENG.wickr_crypto_engine_decrypt_file(k.p, "/d/enc", "/d/dst", true) || vfs.has("/d/dst"); });
    vfs.reset(); vfs.on = false;
}
SCEN(file_digest) {
    vfs.reset(); vfs.put("/d/src", pat(9000, 2)); OBuf whole = buf(pat(9000, 2)); OBuf ref(RAW.wickr_crypto_engine_digest(whole.p, NULL, DIGEST_SHA_256));
    OBuf out;
    t.call([&] { FILE *f; { PauseFaults pf; f = vfs_open("/d/src", "rb"); } out.reset(ENG.wickr_crypto_engine_digest_file(f, DIGEST_SHA_256)); { PauseFaults pf; fclose(f); } return (bool)out; }, [&] { return same(out.p, ref.p); }, [&] { out.reset(); });
    vfs.reset(); vfs.on = false;
}
SCEN(file_streams) {
    vfs.reset(); vfs.put("/d/src", pat(6000, 2)); OKey k = ckey(GCM, 1);
    t.call([&] {
        FILE *i, *o; { PauseFaults pf; i = vfs_open("/d/src", "rb"); o = vfs_open("/d/enc", "wb"); } bool ok = ENG.wickr_crypto_engine_encrypt_ofile(i, k.p, o); fclose(i); if (fclose(o)) ok = false; if (!ok) return false;
        { PauseFaults pf; i = vfs_open("/d/enc", "rb"); o = vfs_open("/d/dst", "wb"); } ok = ENG.wickr_crypto_engine_decrypt_ofile(i, k.p, o, true); fclose(i); if (fclose(o)) ok = false; return ok; },
        [&] { return vfs.get("/d/dst") == pat(6000, 2); }, [&] { vfs.files.erase("/d/dst"); vfs.files.erase("/d/enc"); });
    vfs.reset(); vfs.on = false;
}

// ------------------------------------------------------------ running
int find_scen(int64_t i) { int n = (int)scens().size(); return i < 0 || i >= n ? -1 : (int)i; }
std::vector<int> order() {          // registration order is source order; scenarios are named in plans by a stable number
    std::vector<int> o; for (size_t i = 0; i < scens().size(); i++) o.push_back((int)i); return o;
}
uint64_t scen_id(const Scen &s) { return fnv(s.name, strlen(s.name)) & 0xffffff; }
const Scen *by_id(uint64_t id) { for (auto &s : scens()) if (scen_id(s) == id) return &s; return nullptr; }

void warm_openssl() {
    // caches inside libcrypto are filled by running the scenarios once without faults in this process
    static bool done = false; if (done) return; done = true;
}
void run_try(const Scen &s, const std::vector<Fault> &f, Try &t) {
    t.faults = &f; t.name = s.name; memset(t.counts, 0, sizeof t.counts);
    size_t before = g.live.size();
    s.fn(t);
    vfs.on = false;
    hs_peer[0].reset(); hs_peer[1].reset();
    if (g.live.size() > before && !g.failed()) {
        std::map<size_t, int> sz; for (auto &l : g.live) sz[l.second.n]++;
        std::string d; int n = 0; for (auto &x : sz) { if (n++ > 6) break; d += " " + std::to_string(x.second) + "x" + std::to_string(x.first) + "B"; }
        g.fail("C13", std::string("leak:") + s.name, "%zu blocks never released:%s", g.live.size() - before, d.c_str());
    }
}
extern "C" void ERR_clear_error(void);
void run(const Plan &p) {
    for (auto &op : p.ops) {
        if (g.stop) break;
        const Scen *s = by_id((uint64_t)op.arg(0)); if (!s) continue;
        g.log("try %s", s->name);
        ERR_clear_error(); int64_t o0 = g.ossl_live;
        vfs.err_mode = 0;
        Try t; run_try(*s, op.faults, t);
        g.stat("tries"); g.sim_time++;
        ERR_clear_error();
        // libcrypto objects: a real leak grows on every repetition, a cache does not
        if (g.ossl_live > o0 && !g.failed()) {
            int64_t grow[3]; auto st = g.stats; auto rp = g.run_progress, rf = g.run_faults; auto sh = g.sched_hash; auto h = g.hash; auto ne = g.nevents; bool vb = g.verbose; g.verbose = false;
            for (int i = 0; i < 3 && !g.failed(); i++) { int64_t a = g.ossl_live; Try x; run_try(*s, op.faults, x); ERR_clear_error(); grow[i] = g.ossl_live - a; }
            g.stats = st; g.run_progress = rp; g.run_faults = rf; g.sched_hash = sh; g.hash = h; g.nevents = ne; g.verbose = vb;
            if (!g.failed() && grow[0] > 0 && grow[1] > 0 && grow[2] > 0) g.fail("C13", std::string("leak-crypto:") + s->name, "an object of the crypto library is never released");
        }
    }
}
// every dependency call of each scenario, measured without faults in a forked child each (a broken scenario is skipped)
struct Point { int scen, kind; int64_t k; int mode; int tier; uint64_t ord; };
std::vector<Point> points; std::vector<int> usable;
std::map<std::pair<int, int>, int64_t> maxk;
uint64_t tier_end[7];
void measure() {
    static bool done = false; if (done) return; done = true;
    { void *b[4]; backtrace(b, 4); }            // loads the unwinder
    struct Raw { int scen; Sim::Site s; uint64_t cost; };
    std::vector<Raw> raw;
    for (size_t i = 0; i < scens().size(); i++) {
        int pp[2]; if (pipe(pp)) continue;
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            close(pp[0]); (void)!freopen("/dev/null", "w", stderr);
            Plan p; p.prop = "C13"; p.seed = 1; g.prop = "C13"; obs.reset(); g.begin_run(p); g.stats.clear();
            std::vector<Sim::Site> st; g.sites = &st;
            std::vector<Fault> none; Try t; run_try(scens()[i], none, t);
            g.sites = nullptr;
            int64_t rec[F_NKINDS + 1]; memcpy(rec, t.counts, sizeof t.counts); rec[F_NKINDS] = t.baseline_ok && !g.failed();
            std::string o((char *)rec, sizeof rec); o.append((char *)st.data(), st.size() * sizeof st[0]);
            for (size_t w = 0; w < o.size();) { ssize_t n = write(pp[1], o.data() + w, o.size() - w); if (n <= 0) break; w += (size_t)n; }
            _exit(0);
        }
        close(pp[1]); std::string in; char buf[65536]; ssize_t n; while ((n = read(pp[0], buf, sizeof buf)) > 0) in.append(buf, (size_t)n);
        close(pp[0]); int st; waitpid(pid, &st, 0);
        int64_t rec[F_NKINDS + 1]; bool ok = in.size() >= sizeof rec; if (ok) memcpy(rec, in.data(), sizeof rec);
        if (!ok || !rec[F_NKINDS]) { g.stat(std::string("skipped_scenario:") + scens()[i].name); fprintf(stderr, "scenario %s unusable\n", scens()[i].name); continue; }
        usable.push_back((int)i);
        size_t ns = (in.size() - sizeof rec) / sizeof(Sim::Site); uint64_t cost = ns;
        for (size_t j = 0; j < ns; j++) { Raw r; r.scen = (int)i; r.cost = cost; memcpy(&r.s, in.data() + sizeof rec + j * sizeof(Sim::Site), sizeof r.s); if (r.s.kind != F_CRASH) raw.push_back(r); }
        for (int k = 0; k < F_NKINDS; k++) if (k != F_CRASH) maxk[{(int)i, k}] = rec[k];
    }
    // first one failure at every distinct place of the library (shortest scenario that gets there), alone and lasting; then at
    // every distinct call chain of every scenario; then at every single call
    std::stable_sort(raw.begin(), raw.end(), [](const Raw &a, const Raw &b) { return a.cost < b.cost; });
    std::set<uint64_t> near; std::set<std::pair<int, uint64_t>> full; std::map<std::tuple<int, int, int64_t>, int> tiers;
    std::map<std::pair<int, uint64_t>, int> seen; std::set<uint64_t> again;
    for (auto &r : raw) {
        int nth = ++seen[{r.scen, r.s.near}];
        int tier = near.insert(r.s.near).second ? 0 : full.insert({r.scen, r.s.full}).second ? 2 : 4;
        if (tier == 0) full.insert({r.scen, r.s.full});
        // the same place again in one scenario (the next turn of a loop): another failure, as what came before has succeeded
        if (nth == 2 && tier && again.insert(r.s.near).second) { tier = 0; g.stats["c13_second_turns"]++; }
        auto it = tiers.insert({{r.scen, r.s.kind, r.s.n}, tier}).first; it->second = std::min(it->second, tier);
    }
    for (auto &x : tiers) for (int m = 0; m < 2; m++) points.push_back({std::get<0>(x.first), std::get<1>(x.first), std::get<2>(x.first), m, x.second + m, 0});
    for (auto &q : points) q.ord = hmix(hmix(q.scen, q.kind), (uint64_t)(q.k / 6) * 2 + q.mode);     // a fixed shuffle that keeps neighbours together
    std::stable_sort(points.begin(), points.end(), [](const Point &a, const Point &b) { return a.tier != b.tier ? a.tier < b.tier : a.ord < b.ord; });
    for (auto &q : points) for (int t = q.tier + 1; t < 7; t++) tier_end[t]++;
    g.stats["c13_scenarios"] = usable.size(); g.stats["c13_fault_points"] = points.size(); g.stats["c13_distinct_places"] = tier_end[1];
}
}
extern int64_t g_plan_index;
extern uint64_t g_plan_vseed;
static const int CHUNK = 12;
static void gen(const std::string &, Rng &r, Plan &p) {
    measure();
    p.world = "faults";
    if (points.empty()) { p.op("none"); return; }
    size_t nch = (points.size() + CHUNK - 1) / CHUNK;
    if (g_plan_index >= 0 && (uint64_t)g_plan_index < nch) {
        // the order of the points is the order of their worth; the seed only says where in each round the search begins
        size_t pos = (size_t)g_plan_index * CHUNK;
        int t = 0; while (t < 5 && pos >= tier_end[t + 1]) t++;
        size_t lo = tier_end[t], hi = tier_end[t + 1];
        for (size_t i = pos; i < pos + CHUNK && i < points.size(); i++) {
            size_t x = i; if (i >= lo && i < hi) x = lo + (i - lo + (size_t)(g_plan_vseed * 7919)) % (hi - lo);
            auto &q = points[x]; Op op{"try", {(int64_t)scen_id(scens()[q.scen])}, {Fault{q.kind, q.k, q.mode}}}; p.ops.push_back(op);
        }
        g.stats["c13_points_enumerated"] += p.ops.size(); g.stats["c13_points_tier" + std::to_string(t)] += p.ops.size();
        return;
    }
    for (int i = 0; i < CHUNK; i++) {
        int s = r.pick(usable); Op op{"try", {(int64_t)scen_id(scens()[s])}, {}};
        int n = 1 + (int)r.below(4);
        for (int j = 0; j < n; j++) { int k = (int)r.below(F_NKINDS); int64_t mk = maxk[{s, k}]; if (!mk) continue; op.faults.push_back(Fault{k, r.range(1, mk + 2), r.chance(1, 4)}); }
        p.ops.push_back(op);
    }
}
extern const World W_faults;
const World W_faults = {"faults", gen, run};
