// World "device": accounts with several devices on a simulated message service. Devices publish message keys, send to
// each other over a network that loses, duplicates, reorders, delays, alters and forges packets, keep data in local and
// remote storage, crash and come back from what they saved (exports, possibly torn or altered), and are set up again from
// backups; dependencies fail at chosen calls. Checked against a model of who sent what to whom and who owns which data.
#include "lib.hpp"
#include <memory>
#include <algorithm>
#include <cstdarg>
#include <openssl/evp.h>
#include <openssl/ec.h>

namespace {
struct Acct { Bytes ident, root_ser, root_pub, remote; Bytes backup, rk_ser, rk_export, pass; bool ready = false; };
struct EK { Bytes blob, pub; };
struct Dev {
    int id = 0, acct = 0; Bytes salt, sys, devid, nodeid, chain_priv, chain_pub, node_scalar;
    OGen gen; OCtx own; uint8_t version = 4;
    std::map<uint64_t, EK> keys; uint64_t next_key = 1;
    std::vector<std::pair<Bytes, Bytes>> saves;      // (export, passphrase)
    Bytes ctx_ser, storage_ser, local;
    wickr_ctx_t *ctx() const { return gen ? gen->ctx : own.p; }
};
struct Pay { Bytes body, tag; uint64_t ttl, bor; uint16_t ct;
    bool operator==(const Pay &o) const { return body == o.body && tag == o.tag && ttl == o.ttl && bor == o.bor && ct == o.ct; } };
struct Rc { int dev; uint64_t key; Bytes nodeid; };
struct Pkt { int sender; int version; Bytes bytes, content; Pay pay; Bytes paykey; std::vector<Rc> rc; };
struct Blob { int dev; bool local; Bytes ser, pt; };
struct Contact { ONode n; Bytes genuine; uint64_t key = 0; bool tampered = false; };
struct W_ {
    std::map<int, Acct> accts; std::map<int, std::unique_ptr<Dev>> devs;
    std::map<int, std::pair<Bytes, uint64_t>> dir;              // published node of each device
    std::map<std::pair<int, int>, Contact> book;                // (owner, of) -> what the owner knows
    std::vector<Pkt> net; std::vector<Blob> blobs;
    std::map<Bytes, std::set<int>> signed_by;                   // packet content -> devices that signed it
    std::set<Bytes> fresh;                                      // values that must never repeat
    std::map<Bytes, std::pair<int, bool>> locals;               // (acct, salt, sys) -> seen
    std::map<std::tuple<int, Bytes, Bytes>, Bytes> local_keys;
    Secrets sec; uint64_t ord = 0;
};
W_ *W;

// ---------------------------------------------------------------- helpers
Bytes rnd(size_t n) { Rng r(++W->ord * 0x9E37 + g.run_seed * 3 + 11); return r.bytes(n); }
void secret(const Bytes &b, const char *what) {
    if (b.size() < 16) return;
    W->sec.add(b.substr(0, 16), what); W->sec.add(b.substr(b.size() - 16), what);
    if (b.size() >= 48) W->sec.add(b.substr(b.size() / 2, 16), what);
}
void fresh(const Bytes &b, const char *what) {
    if (b.empty()) return;
    if (!W->fresh.insert(b).second) g.fail("C04", "randomness-repeated", "%s is the same as an earlier one", what);
}
void emitted(const Bytes &b, const char *what) {
    const char *x = W->sec.scan(b);
    if (!x && obs.record_keys) x = obs.keys.scan(b);
    if (x) g.fail("C16", std::string("secret-in-") + what, "%s contains %s in the clear", what, x);
}
bool ref_verify(const wickr_ecdsa_result_t *s, const wickr_buffer_t *pub, const wickr_buffer_t *data) {
    PauseFaults pf;
    if (!s || !s->sig_data || !pub || !data) return false;
    const EVP_MD *md = s->digest_mode.digest_id == DIGEST_ID_SHA256 ? EVP_sha256() : s->digest_mode.digest_id == DIGEST_ID_SHA384 ? EVP_sha384() : s->digest_mode.digest_id == DIGEST_ID_SHA512 ? EVP_sha512() : nullptr;
    // public keys are a curve number followed by the encoded point
    if (pub->length < 2 || pub->bytes[0] != EC_CURVE_NIST_P521.identifier) return false;
    static std::unordered_map<std::string, bool> memo;
    std::string mk = B(pub) + "|" + B(s->sig_data) + "|" + B(data) + (char)s->digest_mode.digest_id;
    auto hit = memo.find(mk); if (hit != memo.end()) return hit->second;
    const unsigned char *q = pub->bytes + 1;
    EVP_PKEY *k = nullptr; bool ok = false;
    EC_KEY *ec = EC_KEY_new_by_curve_name(NID_secp521r1);
    if (ec && o2i_ECPublicKey(&ec, &q, (long)pub->length - 1) && q == pub->bytes + pub->length) { k = EVP_PKEY_new(); EVP_PKEY_assign_EC_KEY(k, ec); } else EC_KEY_free(ec);
    if (k && md) {
        EVP_MD_CTX *m = EVP_MD_CTX_new();
        ok = EVP_DigestVerifyInit(m, NULL, md, NULL, k) == 1 && EVP_DigestVerify(m, s->sig_data->bytes, s->sig_data->length, data->bytes, data->length) == 1;
        EVP_MD_CTX_free(m);
    }
    EVP_PKEY_free(k);
    if (memo.size() > 20000) memo.clear();
    return memo[mk] = ok;
}
bool ref_chain_valid(const wickr_identity_chain_t *c) { return c && c->node && c->root && c->node->signature && c->root->sig_key && c->node->sig_key && ref_verify(c->node->signature, c->root->sig_key->pub_data, c->node->sig_key->pub_data); }
bool ref_node_valid(const wickr_node_t *n) {
    return n && n->ephemeral_keypair && n->ephemeral_keypair->signature && n->ephemeral_keypair->ec_key && ref_chain_valid(n->id_chain) &&
           ref_verify(n->ephemeral_keypair->signature, n->id_chain->node->sig_key->pub_data, n->ephemeral_keypair->ec_key->pub_data);
}
Dev *dev(int64_t i) { auto it = W->devs.find((int)i); return it == W->devs.end() || !it->second->ctx() ? nullptr : it->second.get(); }
bool rng_fired() { return g.fired[F_RNG] > 0; }
Pay pay_of(const wickr_payload_t *p) { Pay r; r.body = B(p->body); r.tag = B(p->meta->channel_tag); r.ttl = p->meta->ephemerality_settings.ttl; r.bor = p->meta->ephemerality_settings.bor; r.ct = p->meta->content_type; return r; }
Bytes ser_chain(const wickr_identity_chain_t *c, bool priv) { PauseFaults pf; OBuf b(priv ? wickr_identity_chain_serialize_private(c) : wickr_identity_chain_serialize(c)); return B(b); }
OChain pub_chain(const Dev &d) { PauseFaults pf; OBuf b(mkbuf(d.chain_pub)); return OChain(wickr_identity_chain_create_from_buffer(b.p, &RAW)); }
wickr_dev_info_t *mkdev(const Bytes &salt, const Bytes &sys) {
    PauseFaults pf;
    OBuf s(mkbuf(sys)), sa(mkbuf(salt));
    wickr_dev_info_t *i = wickr_dev_info_derive(&RAW, sa.p, s.p);
    if (i) sa.release();
    return i;
}
// runs fn once with the faults of the operation; if that fails because of them, once more without. fired: in the attempt that counted.
template <class T, class F> T attempt(const Op *op, bool &fired, F fn) {
    T r;
    if (op && !op->faults.empty()) {
        bool rf;
        { FaultScope fs(*op); r = fn(); fired = fs.any(); rf = rng_fired(); }
        if (r && rf) g.fail("C04", "rng-ignored", "%s succeeds although the random source failed", op->kind.c_str());
    } else { r = fn(); fired = false; }
    return r;
}

// ---------------------------------------------------------------- accounts and devices (C12)
// what any set-up device must be, whichever way it came about
void check_device(Dev &d, const char *how) {
    PauseFaults pf;
    Acct &a = W->accts[d.acct];
    wickr_ctx_t *c = d.ctx();
    auto bad = [&](const char *cls, const char *what) { g.fail("C12", cls, "device %d of account %d (%s): %s", d.id, d.acct, how, what); };
    if (!c->id_chain || !c->dev_info || !c->storage_keys) { bad("incomplete-device", "parts are missing"); return; }
    if (B(c->id_chain->root->identifier) != a.ident) { bad("account-identity", "presents another account identifier"); return; }
    if (B(c->id_chain->root->sig_key->pub_data) != a.root_pub) { bad("account-identity", "presents another account key"); return; }
    if (!ref_chain_valid(c->id_chain)) { bad("chain-invalid", "its identity chain does not verify"); return; }
    OChain p = pub_chain(d);
    if (!p || !ref_chain_valid(p.p) || !wickr_identity_chain_validate(p.p, &RAW)) { bad("chain-invalid", "its published identity chain does not validate"); return; }
    if (B(p->root->sig_key->pub_data) != a.root_pub || B(p->root->identifier) != a.ident) { bad("account-identity", "its published chain presents another account"); return; }
    for (auto &o : W->devs) if (o.second.get() != &d && o.second->nodeid == d.nodeid) { bad("device-identity", "shares its device identity with another device"); return; }
    if (B(c->dev_info->dev_salt) != d.salt || B(c->dev_info->msg_proto_id) != d.devid) { bad("device-info", "holds other device information than it was given"); return; }
    for (auto &o : W->devs) if (o.second.get() != &d && (o.second->devid == d.devid) != (o.second->salt == d.salt && o.second->sys == d.sys)) { bad("device-info", "device ids do not follow the salt and system identifier"); return; }
    Bytes loc = B(c->storage_keys->local->key_data);
    auto key = std::make_tuple(d.acct, d.salt, d.sys);
    for (auto &o : W->local_keys) {
        bool same = o.first == key;
        if (same && o.second != loc) { bad("local-key", "set up again with the same salt and system identifier, its local storage key differs"); return; }
        // the local key depends on the account and the system identifier; other devices never share it
        if (!same && (std::get<0>(o.first) != d.acct || std::get<2>(o.first) != d.sys) && o.second == loc) { bad("local-key-shared", "another device has the same local storage key"); return; }
    }
    W->local_keys[key] = loc;
    if (B(c->storage_keys->remote->key_data) == loc) { bad("local-key-shared", "its local storage key is the remote one"); return; }
    if (B(c->storage_keys->remote->key_data) != a.remote) { bad("remote-key", "its remote storage key differs from the account's"); return; }
    g.progress();
}
void learn(Dev &d) {
    PauseFaults pf;
    wickr_ctx_t *c = d.ctx();
    d.chain_priv = ser_chain(c->id_chain, true); d.chain_pub = ser_chain(c->id_chain, false);
    d.nodeid = B(c->id_chain->node->identifier);
    d.devid = B(c->dev_info->msg_proto_id);
    d.version = c->pkt_enc_version;
    OBuf s(wickr_ctx_serialize(c)); d.ctx_ser = B(s);
    OBuf st(wickr_storage_keys_serialize(c->storage_keys)); d.storage_ser = B(st);
    if (c->id_chain->node->sig_key->pri_data) secret(ec_scalar(B(c->id_chain->node->sig_key->pri_data)), "a device signature key");
    if (c->id_chain->root->sig_key->pri_data) secret(ec_scalar(B(c->id_chain->root->sig_key->pri_data)), "an account signature key");
    secret(B(c->storage_keys->local->key_data), "a local storage key"); secret(B(c->storage_keys->remote->key_data), "a remote storage key");
    secret(B(c->dev_info->system_salt), "a system salt");
    emitted(d.chain_pub, "public-identity");
    OBuf ri(wickr_identity_serialize(c->id_chain->root)), ni(wickr_identity_serialize(c->id_chain->node));
    emitted(B(ri), "public-identity"); emitted(B(ni), "public-identity");
    fresh(d.nodeid, "a device identifier"); fresh(B(c->id_chain->node->sig_key->pub_data), "a device signature key");
}
// how: 0 new account, 1 new account with a given signature key, 2 given root keys, 3 backup, 4 backup via passphrase
void do_device(int id, int acct, int how, int recreate, int64_t v, const Op &op) {
    if (W->devs.count(id) || W->devs.size() > 9) return;
    Acct &a = W->accts[acct];
    if (a.ready && how < 2) how = 2;
    if (!a.ready && how > 2) how = 2;
    if (how == 3 && (a.backup.empty() || a.rk_ser.empty())) how = 2;
    if (how == 4 && (a.backup.empty() || a.rk_export.empty())) how = 2;
    auto d = std::make_unique<Dev>();
    d->id = id; d->acct = acct;
    auto old = W->devs.find(recreate);
    if (recreate >= 0 && old != W->devs.end()) { d->salt = old->second->salt; d->sys = old->second->sys; }
    else { d->salt = rnd(64); d->sys = rnd(16 + v % 20); }
    // other hardware with the same salt, or the same hardware with another salt
    auto little = [&](Bytes &b) { switch (v / 5 % 6) { case 0: b[b.size() - 1] ^= 1; break; case 1: b += '\0'; break; case 2: b[0] ^= (char)0x80; break; case 3: if (b.size() > 17) b.resize(b.size() - 1); else b += 'x'; break; default: b = rnd(b.size()); } };
    if (recreate < 0 && v % 9 == 0) d->sys = rnd(100 + v % 70);
    if (recreate >= 0 && old != W->devs.end()) { if (v % 5 == 1) little(d->sys); else if (v % 5 == 2) { if (v / 5 % 6 == 0) d->salt[63] ^= 1; else d->salt = rnd(64); } }
    secret(d->sys, "a system identifier");
    if (!a.ready) {
        a.ident = rnd(8 + v % 40);
        // account identifiers are not under anybody's control: another account may bear nearly or exactly the same
        if (v % 4 == 1) for (auto &o : W->accts) if (o.second.ready) { a.ident = o.second.ident; if (v % 8 == 1) a.ident += (char)v; break; }
    }
    ODevInfo di(mkdev(d->salt, d->sys));
    if (!di) { g.fail("C12", "device-info", "device information cannot be derived"); return; }
    d->devid = B(di->msg_proto_id);
    OBuf ident(mkbuf(a.ident));
    OEc sk; ORoot root; OBuf backup, rke, pass; OKey rk;
    if (how == 1) { OBuf b(mkbuf(pool_ec[v % pool_ec.size()])); sk.reset(RAW.wickr_crypto_engine_ec_key_import(b.p, true)); if (!sk) return; }
    if (how == 2) {
        if (!a.ready) root.reset(pool_root(acct % NPOOL)); else { OBuf b(mkbuf(a.root_ser)); root.reset(wickr_root_keys_create_from_buffer(&RAW, b.p)); }
        if (!root) { g.fail("C12", "root-unreadable", "root keys cannot be read back"); return; }
    }
    if (how >= 3) { backup.reset(mkbuf(a.backup)); OBuf k(mkbuf(a.rk_ser)); rk.reset(wickr_cipher_key_from_buffer(k.p)); rke.reset(mkbuf(a.rk_export)); pass.reset(mkbuf(a.pass)); }
    auto make = [&]() {
        switch (how) {
            case 0: return OGen(wickr_ctx_gen_new(ENG, di.p, ident.p));
            case 1: return OGen(wickr_ctx_gen_new_with_sig_key(ENG, di.p, sk.p, ident.p));
            case 2: return OGen(wickr_ctx_gen_with_root_keys(ENG, di.p, root.p, ident.p));
            case 3: return OGen(wickr_ctx_gen_with_recovery(ENG, di.p, backup.p, rk.p, ident.p));
            default: return OGen(wickr_ctx_gen_with_passphrase(ENG, di.p, rke.p, pass.p, backup.p, ident.p));
        }
    };
    static const char *hown[] = {"new account", "new account with given key", "root keys", "backup", "backup and passphrase"};
    g.log("device %d account %d: %s%s", id, acct, hown[how], recreate >= 0 ? " again" : "");
    bool fired = false;
    d->gen = attempt<OGen>(&op, fired, make);
    if (!d->gen && fired) { d->gen = make(); fired = false; g.stat("retried_setup"); }
    if (!d->gen && how >= 3) g.fail("C11", "backup-lost", "device %d of account %d cannot be set up from its intact %s", id, acct, hown[how]);
    if (!d->gen) { g.fail("C12", "setup-refused", "device %d of account %d cannot be set up (%s) although nothing fails", id, acct, hown[how]); return; }
    if (!d->gen->ctx || !d->gen->root_keys || !d->gen->recovery_key) { g.fail("C12", "incomplete-device", "the set-up result lacks parts"); return; }
    OBuf rs(wickr_root_keys_serialize(d->gen->root_keys));
    if (!a.ready) {
        a.ready = true; a.root_ser = B(rs); a.root_pub = B(d->gen->root_keys->node_signature_root->pub_data); a.remote = B(d->gen->root_keys->remote_storage_root->key_data);
        secret(ec_scalar(B(d->gen->root_keys->node_signature_root->pri_data)), "an account signature key");
        secret(B(d->gen->root_keys->node_storage_root->key_data), "a storage root key");
        secret(a.remote, "the remote storage key");
        if (how < 2) { fresh(a.remote, "a remote storage root"); fresh(B(d->gen->root_keys->node_storage_root->key_data), "a node storage root"); if (how == 0) fresh(a.root_pub, "an account key"); }
        if (how == 1 && a.root_pub != B(sk->pub_data)) { g.fail("C12", "account-identity", "the account was not made with the given signature key"); return; }
    } else if (B(rs) != a.root_ser) { if (how >= 3) g.fail("C11", "restored-differs", "a device set up from a %s has other root keys", hown[how]); g.fail("C12", "root-differs", "device %d holds other root keys than its account (%s)", id, hown[how]); return; }
    OBuf rks(wickr_cipher_key_serialize(d->gen->recovery_key));
    if (how >= 3) { if (B(rks) != a.rk_ser) { g.fail("C11", "recovery-key", "a device set up from a %s does not keep the recovery key of that backup", hown[how]); g.fail("C12", "recovery-key", "a recovered device does not keep the recovery key it was given"); return; } }
    else fresh(B(rks), "a recovery key");
    secret(B(d->gen->recovery_key->key_data), "a recovery key");
    Dev &D = *d;
    learn(D);
    W->devs[id] = std::move(d);
    check_device(D, hown[how]);
    if (recreate >= 0 && v % 5 != 1 && v % 5 != 2) g.stat("same_hardware");
    if (recreate >= 0 || how >= 3) g.fault_event(recreate >= 0 ? "device_recreated" : "device_recovered");
    g.cover(hmix(hmix(1, how), hmix(recreate >= 0, fired)));
}
Bytes alter_bytes(const Bytes &s, int64_t kind, int64_t a, int64_t b) {
    Bytes d = s; if (d.empty()) return d;
    size_t n = d.size();
    switch (kind % 10) {
        case 0: d[(size_t)a % n] ^= (char)(1 << (b & 7)); break;
        case 1: d.resize((size_t)a % n); break;
        case 2: d += Bytes(1 + (size_t)(a % 40), (char)b); break;
        case 3: d[(size_t)a % std::min<size_t>(n, 40)] ^= (char)(1 + (b % 255)); break;
        case 4: d.resize(n - std::min<size_t>(n - 1, 1 + (size_t)(a % 20))); break;
        case 5: { size_t at = (size_t)a % n, len = std::min<size_t>(n - at, 1 + (size_t)(b % 32)); for (size_t i = 0; i < len; i++) d[at + i] = 0; break; }
        case 6: d.erase((size_t)a % n, 1 + (size_t)(b % 8)); break;
        case 7: d.insert((size_t)a % n, 1 + (size_t)(b % 8), (char)b); break;
        case 9: d = downgrade(s, s[0] == CIPHER_ID_AES256_GCM ? 0 : 1 + SCRYPT_SALT_SIZE, a * 16 + b); break;
        default: { size_t h = n / 2; d = d.substr(0, h) + d.substr(0, n - h); break; }
    }
    return d;
}
void do_backup(Dev &d, int what, const Op &op) {
    Acct &a = W->accts[d.acct];
    if (!d.gen) return;
    bool fired = false;
    g.log("device %d backs up (%d)", d.id, what);
    OBuf ks(wickr_cipher_key_serialize(d.gen->recovery_key));
    if (what == 0 || a.backup.empty()) {
        auto f = [&]() { return OBuf(wickr_ctx_gen_result_make_recovery(d.gen.p)); };
        OBuf b = attempt<OBuf>(&op, fired, f);
        if (!b && !fired) { g.fail("C11", "backup-refused", "making a backup fails although nothing failed"); return; }
        if (!b) return;
        emitted(B(b), "backup");
        a.backup = B(b); a.rk_ser = B(ks); a.rk_export.clear(); a.pass.clear();
    }
    if (a.rk_ser != B(ks)) return;          // the backup was made under another recovery key
    if (what) {
        size_t wide = (size_t)(W->ord % 100); Bytes pw = rnd(what == 3 ? 60 + wide : 12 + (size_t)what); secret(pw, "a passphrase");
        OBuf p(mkbuf(pw));
        OBuf b = attempt<OBuf>(&op, fired, [&]() { return OBuf(wickr_ctx_gen_export_recovery_key_passphrase(d.gen.p, p.p)); });
        if (!b && !fired) { g.fail("C11", "backup-refused", "exporting the recovery key fails although nothing failed"); return; }
        if (!b) return;
        emitted(B(b), "recovery-key-export");
        a.rk_export = B(b); a.pass = pw;
    }
    g.progress();
}
// torn, altered or wrongly opened backups and recovery keys are rejected (C11)
void do_badbackup(int acct, int64_t kind, int64_t x, int64_t y) {
    auto it = W->accts.find(acct); if (it == W->accts.end() || it->second.backup.empty()) return;
    Acct &a = it->second;
    OBuf k(mkbuf(a.rk_ser)); OKey rk(wickr_cipher_key_from_buffer(k.p));
    if (!rk) return;
    g.fault_event("backup_damaged");
    bool good = false;
    if (kind >= 20) {
        // intact: must open
        OBuf b(mkbuf(a.backup)); ORoot r(wickr_ctx_gen_import_recovery(ENG, b.p, rk.p));
        OBuf s(r ? wickr_root_keys_serialize(r.p) : nullptr);
        if (!r || B(s) != a.root_ser) g.fail("C11", "backup-lost", "an intact backup does not give back the root keys");
        return;
    }
    if (kind % 2 && a.rk_export.size()) {
        Bytes e = kind % 4 == 1 ? alter_bytes(a.rk_export, x % 10, x / 10, y) : a.rk_export, pw = a.pass;
        if (kind % 4 == 3) { size_t at = (size_t)x % pw.size(); switch (y % 3) { case 0: pw[at] ^= 1; break; case 1: pw.resize(at ? at : 1); break; default: pw += (char)(1 + (y / 3) % 255); } if (pw == a.pass) return; }
        else if (e == a.rk_export) return;
        if (e.empty()) return;
        OBuf eb(mkbuf(e)), pb(mkbuf(pw));
        OKey r(wickr_ctx_gen_import_recovery_key_passphrase(ENG, eb.p, pb.p));
        if (r) { g.fail("C11", "damaged-accepted", "a recovery key export that was altered or opened with a wrong passphrase is accepted"); return; }
    } else {
        Bytes b = kind % 4 == 0 ? alter_bytes(a.backup, x % 10, x / 10, y) : a.backup;
        if (kind % 4 == 2) { rk->key_data->bytes[x % rk->key_data->length] ^= (uint8_t)(1 << (y & 7)); good = false; }
        else if (b == a.backup) return;
        if (b.empty()) return;
        OBuf bb(mkbuf(b));
        ORoot r(wickr_ctx_gen_import_recovery(ENG, bb.p, rk.p));
        if (r) { g.fail("C11", "damaged-accepted", "a backup that was altered or opened with a wrong key is accepted"); return; }
    }
    (void)good; g.progress();
}

// ---------------------------------------------------------------- storage
void do_store(Dev &d, bool local, int64_t len, const Op &op, const Bytes *again = nullptr) {
    Bytes pt = again ? *again : rnd((size_t)len + 1);
    if (pt.size() >= 16) secret(pt, "stored plaintext");
    OBuf p(mkbuf(pt));
    bool fired = false;
    OCipher c = attempt<OCipher>(&op, fired, [&]() { return OCipher(local ? wickr_ctx_cipher_local(d.ctx(), p.p) : wickr_ctx_cipher_remote(d.ctx(), p.p)); });
    if (!c && !fired) { g.fail("C12", "store-refused", "device %d cannot encrypt %lld bytes for storage", d.id, (long long)len); return; }
    if (!c) return;
    OBuf s(wickr_cipher_result_serialize(c.p)); if (!s) return;
    emitted(B(s), "stored-data");
    g.log("device %d stores %zu bytes %s", d.id, pt.size(), local ? "locally" : "remotely");
    if (W->blobs.size() < 24) W->blobs.push_back(Blob{d.id, local, B(s), pt});
    if (!again && W->ord % 3 == 0) { g.stat("stored_again"); do_store(d, local, len, Op{"store", {}, {}}, &pt); }     // the same once more
}
bool may_read(const Dev &d, const Blob &b) {
    auto it = W->devs.find(b.dev); if (it == W->devs.end()) return false;
    const Dev &w = *it->second;
    if (w.acct != d.acct) return false;
    return !b.local || (w.salt == d.salt && w.sys == d.sys);
}
void do_read(Dev &d, const Blob &b, const Op *op, const char *prop) {
    OBuf s(mkbuf(b.ser)); OCipher c(wickr_cipher_result_from_buffer(s.p));
    if (!c) { g.fail(prop, "stored-unreadable", "stored data cannot be parsed"); return; }
    bool fired = false;
    OBuf r = attempt<OBuf>(op, fired, [&]() { return OBuf(b.local ? wickr_ctx_decipher_local(d.ctx(), c.p) : wickr_ctx_decipher_remote(d.ctx(), c.p)); });
    OBuf cross;
    if (op == nullptr) cross.reset(b.local ? wickr_ctx_decipher_remote(d.ctx(), c.p) : wickr_ctx_decipher_local(d.ctx(), c.p));
    bool may = may_read(d, b);
    // the same system with another device salt: the local key is bound to the system, so either answer is right
    if (!may && b.local) { auto it = W->devs.find(b.dev); if (it != W->devs.end() && it->second->acct == d.acct && it->second->sys == d.sys) { if (r && B(r) != b.pt) g.fail("C12", "stored-differs", "device %d reads other bytes than device %d stored", d.id, b.dev); return; } }
    const char *w = b.local ? "local" : "remote";
    if (r && !may) { g.fail("C12", "foreign-read", "device %d reads %s data of device %d", d.id, w, b.dev); return; }
    if (cross) { g.fail("C12", "wrong-store", "device %d reads %s data with its other storage key", d.id, w); return; }
    if (r && B(r) != b.pt) { g.fail(prop, "stored-differs", "device %d reads other bytes than device %d stored", d.id, b.dev); return; }
    if (!r && may && !fired) { g.fail(prop, "stored-lost", "device %d cannot read %s data stored by device %d", d.id, w, b.dev); return; }
    if (r) g.progress();
}

// stored data that was altered, or swapped between the two stores, is not read
void do_readbad(Dev &d, const Blob &b, int64_t kind, int64_t x, int64_t y) {
    Bytes e = alter_bytes(b.ser, kind % 10, x, y); if (e == b.ser || e.empty()) return;
    OBuf s(mkbuf(e)); OCipher c(wickr_cipher_result_from_buffer(s.p)); if (!c) return;
    g.fault_event("stored_altered");
    OBuf l(wickr_ctx_decipher_local(d.ctx(), c.p)), r(wickr_ctx_decipher_remote(d.ctx(), c.p));
    if (l || r) g.fail("C12", "altered-read", "device %d reads %s data from stored bytes that were altered", d.id, l ? "local" : "remote");
    g.progress();
}

// ---------------------------------------------------------------- message keys and contacts
Bytes open_header(const Bytes &content, const Dev &s);
bool pb_split(const Bytes &c, std::vector<std::pair<int, Bytes>> &out);
void do_keygen(Dev &d, bool publish, const Op &op) {
    if (d.next_key > 6) return;
    uint64_t id = d.next_key * 1000003ull * (d.id % 2 ? 1 : 70000001ull) + (uint64_t)d.id;
    static const uint64_t edges[] = {0, 255, 65535, 1ull << 32, 1ull << 63, ~0ull};
    if ((g.run_seed >> 3) % 3 == 0) id = edges[(d.next_key - 1 + (g.run_seed >> 6)) % 6] + (uint64_t)(d.id % 10) * 1000;
    bool fired = false;
    OEph k = attempt<OEph>(&op, fired, [&]() { return OEph(wickr_ctx_ephemeral_keypair_gen(d.ctx(), id)); });
    if (!k && !fired) { g.fail("C01", "keygen-refused", "device %d cannot make a message key", d.id); return; }
    if (!k) return;
    d.next_key++;
    if (k->identifier != id || !k->ec_key || !k->signature || !k->ec_key->pri_data) { g.fail("C01", "keygen-incomplete", "a new message key lacks parts"); return; }
    EK e;
    secret(ec_scalar(B(k->ec_key->pri_data)), "a message private key");
    fresh(B(k->ec_key->pub_data), "a message key");
    // the device keeps the private key in its local storage
    OCipher c(wickr_ctx_cipher_local(d.ctx(), k->ec_key->pri_data));
    OBuf cs(c ? wickr_cipher_result_serialize(c.p) : nullptr);
    if (!cs) { g.fail("C12", "store-refused", "device %d cannot store its message key", d.id); return; }
    emitted(B(cs), "stored-data");
    e.blob = B(cs); e.pub = B(k->ec_key->pub_data);
    d.keys[id] = e;
    OBuf ks(wickr_ephemeral_keypair_serialize(k.p));
    emitted(B(ks), "published-key");
    if (obs.record_keys) {
        // the public forms of parts: a key that is not signed yet, identities on their own, a public chain, a message key without its private part
        PauseFaults pf;
        wickr_ecdsa_result_t *sg = k->signature; k->signature = nullptr;
        OBuf u(wickr_ephemeral_keypair_serialize(k.p)); k->signature = sg;
        OBuf ir(wickr_identity_serialize(d.ctx()->id_chain->root)), in(wickr_identity_serialize(d.ctx()->id_chain->node)), ic(wickr_identity_chain_serialize(d.ctx()->id_chain));
        OEph pk(wickr_ephemeral_keypair_copy(k.p));
        if (pk) wickr_ephemeral_keypair_make_public(pk.p);
        if (pk && pk->ec_key && pk->ec_key->pri_data && B(pk->ec_key->pri_data) == B(k->ec_key->pri_data)) { g.fail("C16", "private-part-kept", "a message key that was made public still has its private part"); return; }
        OBuf pu(pk ? wickr_ephemeral_keypair_serialize(pk.p) : nullptr);
        emitted(B(u), "unsigned-key"); emitted(B(ir), "root-identity"); emitted(B(in), "node-identity"); emitted(B(ic), "identity-chain"); emitted(B(pu), "public-key");
    }
    g.log("device %d message key %llu%s", d.id, (unsigned long long)id, publish ? " published" : "");
    if (!publish) return;
    ONode n(wickr_node_create(mkbuf(d.devid), wickr_identity_chain_copy(d.ctx()->id_chain), k.release()));
    OBuf ns(n ? wickr_node_serialize(n.p) : nullptr);
    if (!ns) { g.fail("C01", "publish-refused", "device %d cannot publish its message key", d.id); return; }
    emitted(B(ns), "published-device");
    W->dir[d.id] = {B(ns), id};
}
// makes sure the owner knows the target; refresh: 0 as is, 1 parse the latest, 2 rotate in place (taking), 3 rotate in place (copying)
Contact *contact(Dev &o, int target, int refresh) {
    auto pub = W->dir.find(target); if (pub == W->dir.end()) return nullptr;
    Contact &c = W->book[{o.id, target}];
    PauseFaults pf;
    if (!c.n || refresh == 1 || c.tampered) {
        if (c.n && c.tampered && refresh != 1) return &c;
        OBuf b(mkbuf(pub->second.first));
        ONode n(wickr_node_create_from_buffer(b.p, &ENG));
        if (!n) { g.fail("C01", "published-unreadable", "the published form of device %d cannot be read", target); return nullptr; }
        c.n = std::move(n); c.genuine = pub->second.first; c.key = pub->second.second; c.tampered = false;
        return &c;
    }
    if (refresh >= 2 && c.key != pub->second.second) {
        OBuf b(mkbuf(pub->second.first)); ONode n(wickr_node_create_from_buffer(b.p, &ENG));
        if (!n) return &c;
        bool copy = refresh == 3;
        wickr_ephemeral_keypair_t *k = n->ephemeral_keypair;
        if (!copy) n->ephemeral_keypair = nullptr;
        if (!wickr_node_rotate_keypair(c.n.p, k, copy)) { if (!copy) wickr_ephemeral_keypair_destroy(&k); g.fail("C03", "rotation-refused", "replacing the message key of a known device fails"); return nullptr; }
        c.genuine = pub->second.first; c.key = pub->second.second;
        g.stat("rotations");
    }
    return &c;
}
void ask(Contact &c, int owner, int target, const Op *op) {
    bool truth = ref_node_valid(c.n.p), ans, fired = false;
    if (op && !op->faults.empty()) { FaultScope fs(*op); ans = wickr_node_verify_signature_chain(c.n.p, &ENG); fired = fs.any(); }
    else ans = wickr_node_verify_signature_chain(c.n.p, &ENG);
    g.log("device %d asks about %d: %d (truth %d)", owner, target, ans, truth);
    if (ans && !truth) g.fail("C03", "invalid-accepted", "device %d is reported valid although its signatures do not verify", target);
    if (!ans && truth && !fired) g.fail("C03", "valid-rejected", "device %d is reported invalid although all its signatures verify", target);
    bool ct = ref_chain_valid(c.n->id_chain), ca = wickr_identity_chain_validate(c.n->id_chain, &ENG);
    if (ca != ct) g.fail("C03", ca ? "invalid-chain-accepted" : "valid-chain-rejected", "the identity chain of device %d is reported %s", target, ca ? "valid" : "invalid");
    g.cover(hmix(hmix(30, truth * 2 + ans), hmix(c.tampered, fired)));
    g.progress();
}
void do_tamper(Dev &o, int target, int64_t kind, int64_t x, int64_t y, const Op &op) {
    Contact *cp = contact(o, target, 0); if (!cp) return;
    Contact &c = *cp; wickr_node_t *n = c.n.p;
    Contact *oc = nullptr;
    for (auto &b : W->book) if (b.first.first == o.id && b.first.second != target && b.second.n) { oc = &b.second; if (b.first.second >= x % 10) break; }
    auto flip = [&](wickr_buffer_t *b) { if (b && b->length) b->bytes[(size_t)x % b->length] ^= (uint8_t)(1 << (y & 7)); };
    auto eph = n->ephemeral_keypair; auto chain = n->id_chain;
    g.log("device %d: contact %d changed (%lld)", o.id, target, (long long)kind);
    bool was = c.tampered; c.tampered = true;
    switch (kind) {
        case 0: if (eph && eph->signature) flip(eph->signature->sig_data); break;
        case 1: if (chain->node->signature) flip(chain->node->signature->sig_data); break;
        case 2: if (eph) flip(eph->ec_key->pub_data); break;
        case 3: flip(chain->node->sig_key->pub_data); break;
        case 4: flip(chain->root->sig_key->pub_data); break;
        case 5: if (oc) { std::swap(n->id_chain, oc->n->id_chain); oc->tampered = true; } break;                 // chains of two devices exchanged
        case 6: if (oc) { std::swap(chain->node, oc->n->id_chain->node); oc->tampered = true; } break;
        case 7: if (oc) { std::swap(chain->root, oc->n->id_chain->root); oc->tampered = true; } break;
        case 8: if (oc && oc->n->ephemeral_keypair) wickr_node_rotate_keypair(n, oc->n->ephemeral_keypair, true); break;   // somebody else's message key
        case 9: if (oc) { std::swap(n->ephemeral_keypair, oc->n->ephemeral_keypair); oc->tampered = true; } break;
        case 10: if (eph && eph->signature && oc && oc->n->ephemeral_keypair && oc->n->ephemeral_keypair->signature) { std::swap(eph->signature, oc->n->ephemeral_keypair->signature); oc->tampered = true; } break;
        case 11: if (eph && oc && oc->n->ephemeral_keypair) { std::swap(eph->ec_key, oc->n->ephemeral_keypair->ec_key); oc->tampered = true; } break;
        case 12: if (eph && eph->signature) eph->signature->digest_mode = y & 1 ? DIGEST_SHA_256 : DIGEST_SHA_384; break;
        case 13: if (chain->node->signature) chain->node->signature->digest_mode = y & 1 ? DIGEST_SHA_256 : DIGEST_SHA_384; break;
        case 14: if (eph && eph->signature) eph->signature->digest_mode = DIGEST_SHA_512; if (chain->node->signature) chain->node->signature->digest_mode = DIGEST_SHA_512; break;
        case 15: wickr_ephemeral_keypair_destroy(&n->ephemeral_keypair); break;
        case 16: if (oc) { wickr_identity_chain_destroy(&n->id_chain); n->id_chain = wickr_identity_chain_copy(oc->n->id_chain); } break;
        case 17: case 18: {     // undo: the genuine parts again, in place
            OBuf b(mkbuf(c.genuine)); ONode f(wickr_node_create_from_buffer(b.p, &ENG)); if (!f) break;
            std::swap(n->ephemeral_keypair, f->ephemeral_keypair);
            if (kind == 17) std::swap(n->id_chain, f->id_chain);
            else {              // keeps the chain object and whatever it remembers
                std::swap(chain->node, f->id_chain->node); std::swap(chain->root, f->id_chain->root);
            }
            c.tampered = false; break;
        }
        case 19: {              // replaced by a copy
            bool fired = false; ONode f = attempt<ONode>(&op, fired, [&]() { return ONode(wickr_node_copy(n)); });
            if (!f && !fired) { g.fail("C15", "copy-refused", "a device cannot be copied"); return; }
            if (f) c.n = std::move(f);
            c.tampered = was; break;
        }
        case 20: {              // through its serialized form
            bool fired = false; OBuf s = attempt<OBuf>(&op, fired, [&]() { return OBuf(wickr_node_serialize(n)); });
            if (s) { ONode f(wickr_node_create_from_buffer(s.p, &ENG)); if (f) c.n = std::move(f); }
            c.tampered = was; break;
        }
        case 21: {              // chain replaced by its copy
            OChain f(wickr_identity_chain_copy(chain)); if (f) { wickr_identity_chain_destroy(&n->id_chain); n->id_chain = f.release(); }
            c.tampered = was; break;
        }
        case 22: { OEph f(wickr_ephemeral_keypair_copy(eph)); if (f) wickr_node_rotate_keypair(n, f.release(), false); c.tampered = was; break; }
        case 23: if (oc) { std::swap(n->_status_cache, oc->n->_status_cache); std::swap(n->status, oc->n->status); oc->tampered = oc->tampered; c.tampered = was; } break;   // remembered verdicts of two devices exchanged
        case 24: case 25: {     // identifiers made equal (no signature covers them), alone or with a signature that no longer matches
            wickr_buffer_t *i = wickr_buffer_copy(y & 2 ? n->dev_id : chain->root->identifier);
            if (i) { wickr_buffer_destroy(&chain->node->identifier); chain->node->identifier = i; }
            if (kind == 25) { if (y & 1) flip(chain->node->signature ? chain->node->signature->sig_data : nullptr); else if (eph && eph->signature) flip(eph->signature->sig_data); }
            break;
        }
        case 26: if (y & 1) wickr_ecdsa_result_destroy(&chain->node->signature); else if (eph) wickr_ecdsa_result_destroy(&eph->signature); break;
        case 27: {              // signed by the wrong one of the account's own keys
            if (!eph) break;
            Dev *t = dev(target); if (!t) break;
            auto own = t->ctx()->id_chain;
            bool e = y & 1;
            OSig s(RAW.wickr_crypto_engine_ec_sign(e ? own->root->sig_key : own->node->sig_key, e ? eph->ec_key->pub_data : chain->node->sig_key->pub_data, DIGEST_SHA_512));
            if (!s) break;
            wickr_ecdsa_result_t **slot = e ? &eph->signature : &chain->node->signature;
            wickr_ecdsa_result_destroy(slot); *slot = s.release();
            break;
        }
        case 28: {              // the account's own key in place of the device's, or the other way round
            if (y & 1) { OEc k(wickr_ec_key_copy(chain->root->sig_key)); if (k) { wickr_ec_key_destroy(&chain->node->sig_key); chain->node->sig_key = k.release(); } }
            else { OEc k(wickr_ec_key_copy(chain->node->sig_key)); if (k) { wickr_ec_key_destroy(&chain->root->sig_key); chain->root->sig_key = k.release(); } }
            break;
        }
        case 29: if (eph) { OEc k(wickr_ec_key_copy(y & 1 ? chain->node->sig_key : chain->root->sig_key)); if (k) { wickr_ec_key_destroy(&eph->ec_key); eph->ec_key = k.release(); } } break;
        case 30: {              // an attacker's whole chain, or only its device, under the genuine names
            OChain f(pool_chain((int)(x % 5), true));
            if (!f || !eph) break;
            OSig s(RAW.wickr_crypto_engine_ec_sign(f->node->sig_key, eph->ec_key->pub_data, DIGEST_SHA_512));
            OEc nk(wickr_ec_key_copy(f->node->sig_key)), rk(wickr_ec_key_copy(f->root->sig_key)); OSig ns(wickr_ecdsa_result_copy(f->node->signature));
            if (!s || !nk || !rk || !ns) break;
            wickr_ec_key_destroy(&chain->node->sig_key); chain->node->sig_key = nk.release();
            if (y & 1) { wickr_ecdsa_result_destroy(&chain->node->signature); chain->node->signature = ns.release(); }
            if (y & 2) { wickr_ec_key_destroy(&chain->root->sig_key); chain->root->sig_key = rk.release(); }
            wickr_ecdsa_result_destroy(&eph->signature); eph->signature = s.release();
            break;
        }
        case 31: if (eph && eph->signature && chain->node->signature) std::swap(eph->signature, chain->node->signature); break;
        default: c.tampered = was; break;
    }
    if (c.tampered) g.fault_event("contact_damaged");
}

// ---------------------------------------------------------------- messages
void do_send(Dev &s, int64_t mask, int64_t refresh, int64_t len, int64_t v, const Op &op) {
    // recipients
    std::vector<std::pair<int, Contact *>> rc;
    for (auto &d : W->devs) if (mask >> (d.first % 10) & 1) { Contact *c = contact(s, d.first, (int)((refresh >> (2 * (d.first % 10))) & 3)); if (g.failed()) return; if (c) rc.push_back({d.first, c}); }
    if (v % 5 == 0 && rc.size() > 1) std::swap(rc[0], rc[rc.size() - 1]);
    Pay p; Rng r((uint64_t)v * 77 + ++W->ord);
    p.body = r.bytes((size_t)len + 1); p.tag = r.bytes(v % 7 == 0 ? 1 : v % 11 == 0 ? (size_t)r.edge(5000) : 16 + v % 30);
    p.ttl = v % 3 ? (uint64_t)r.loguni(1ll << 50) : (v % 2 ? ~0ull : 0); p.bor = v % 4 ? (uint64_t)r.loguni(1ll << 40) : (v % 8 ? 0 : ~0ull); p.ct = (uint16_t)(v % 6 ? r.below(65536) : v % 2 ? 65535 : 0);
    if (p.body.size() >= 16) secret(p.body, "a message body");
    if (p.tag.size() >= 16) secret(p.tag, "a channel tag");
    OPMeta meta(wickr_packet_meta_create(wickr_ephemeral_info_t{p.ttl, p.bor}, mkbuf(p.tag), p.ct));
    if (!meta) return;
    OPayload pl(wickr_payload_create(meta.p, mkbuf(p.body))); if (!pl) return; meta.release();
    // a large audience: further devices under identifiers of their own (which device signatures do not cover)
    std::vector<Contact> extra; size_t wide = rc.empty() ? 0 : (size_t)op.arg(5) % 600;
    bool near = !wide && !rc.empty() && v % 9 == 4; if (near) wide = 1 + (size_t)v % 4;
    for (size_t i = 0; i < wide; i++) {
        PauseFaults pf; Contact c; c.n.reset(wickr_node_copy(rc[0].second->n.p));
        if (!c.n || !c.n->id_chain || !c.n->id_chain->node) break;
        Bytes ident = r.bytes(32);
        if (near || r.chance(1, 4)) {   // almost the identifier of a real recipient
            auto &real = rc[r.below(rc.size())].second->n; Bytes q = real->id_chain && real->id_chain->node ? B(real->id_chain->node->identifier) : Bytes(); size_t at = q.empty() ? 0 : (size_t)r.below(q.size());
            switch (q.empty() ? -1 : (int)r.below(5)) { case 0: q[q.size() - 1] ^= 1; ident = q; break; case 1: q[at] ^= 0x40; ident = q; break; case 2: ident = q.substr(0, q.size() > 1 ? q.size() - 1 : 1); break; case 3: ident = q + "x"; break; case 4: q[0] ^= 1; ident = q; break; }
        }
        wickr_buffer_destroy(&c.n->id_chain->node->identifier); c.n->id_chain->node->identifier = mkbuf(ident);
        c.tampered = rc[0].second->tampered; extra.push_back(std::move(c));
    }
    if (wide) {
        size_t at = (near ? v : op.arg(6)) % 3 == 0 ? 0 : (near ? v : op.arg(6)) % 3 == 1 ? rc.size() : 1; std::vector<std::pair<int, Contact *>> ins;
        for (auto &c : extra) ins.push_back({-1, &c});
        rc.insert(rc.begin() + (long)at, ins.begin(), ins.end());
        g.stat("wide_sends"); g.stat("wide_recipients", extra.size());
    }
    // a device that is listed again, perhaps with a message key pair it published earlier
    if (v % 23 == 3 && !rc.empty() && extra.empty()) {
        PauseFaults pf; size_t j = (size_t)(v / 23) % rc.size(); int who = rc[j].first; Contact c; c.tampered = rc[j].second->tampered; c.n.reset(wickr_node_copy(rc[j].second->n.p));
        if (c.n && who >= 0) {
            if (v % 2) { contact(s, who, 1); if (g.failed()) return; }
            if (v / 2 % 3 == 0 && c.n->ephemeral_keypair && c.n->ephemeral_keypair->signature) {   // the second entry is not valid
                wickr_buffer_t *sg = c.n->ephemeral_keypair->signature->sig_data; sg->bytes[sg->length - 1 - (size_t)(v / 46) % 20] ^= (uint8_t)(1 << v % 8); c.tampered = true;
            }
            extra.push_back(std::move(c)); rc.insert(rc.begin() + (long)((size_t)(v / 46) % (rc.size() + 1)), {who, &extra[0]});
            g.stat("listed_twice");
        }
    }
    bool hole = v % 29 == 7 && !rc.empty();   // a slot of the address list that was never filled
    wickr_node_array_t *arr = wickr_node_array_new((uint32_t)rc.size() + hole);
    if (!arr) return;
    bool all_valid = !rc.empty() && !hole, all_ok = true;
    std::vector<Rc> rl;
    for (size_t i = 0; i < rc.size(); i++) {
        wickr_node_array_set_item(arr, (uint32_t)i + (hole && v % 2), rc[i].second->n.p);
        wickr_node_t *n = rc[i].second->n.p;
        if (!ref_node_valid(n)) all_valid = false;
        if (rc[i].second->tampered) all_ok = false;
        rl.push_back(Rc{rc[i].second->tampered ? -1 : rc[i].first, n->ephemeral_keypair ? n->ephemeral_keypair->identifier : 0, n->id_chain && n->id_chain->node ? B(n->id_chain->node->identifier) : Bytes()});
    }
    g.log("device %d sends to %zu devices (%zu bytes, version %d)%s", s.id, rc.size(), p.body.size(), s.ctx()->pkt_enc_version, all_valid ? "" : " some invalid");
    int tries = op.faults.empty() ? 1 : 2;
    for (int t = 0; t < tries; t++) {
        bool fired = false;
        OEnc e;
        auto enc = [&]() { return OEnc(wickr_ctx_encode_packet(s.ctx(), pl.p, arr)); };
        e = t == 0 ? attempt<OEnc>(&op, fired, enc) : enc();
        g.cover(hmix(hmix(40 + s.ctx()->pkt_enc_version, rc.size()), hmix(all_valid * 4 + !!e * 2 + fired, all_ok)));
        if (!e) {
            if (!fired && all_valid) { g.fail("C01", "send-refused", "device %d cannot send to %zu valid devices", s.id, rc.size()); break; }
            if (!fired) break;
            g.stat("send_failed");
            continue;
        }
        if (!all_valid) { g.fail("C03", "sent-to-invalid", "device %d encrypts a message although an addressed device is not valid", s.id); break; }
        OBuf b(e->packet && e->packet_key ? wickr_packet_serialize(e->packet) : nullptr);
        if (!b) { g.fail("C01", "unserializable", "an encoded packet cannot be serialized"); break; }
        Pkt k; k.sender = s.id; k.version = s.ctx()->pkt_enc_version; k.bytes = B(b); k.content = B(e->packet->content); k.pay = p; k.paykey = B(e->packet_key->key_data); k.rc = rl;
        if (!ref_verify(e->packet->signature, s.ctx()->id_chain->node->sig_key->pub_data, e->packet->content)) { g.fail("C01", "unsigned", "an encoded packet is not signed by its sender"); break; }
        secret(k.paykey, "a payload key"); fresh(k.paykey, "a payload key");
        emitted(k.bytes, "packet");
        {
            Bytes h = open_header(k.content, s); std::vector<std::pair<int, Bytes>> f;
            if (obs.record_keys) emitted(h, "packet-header");
            if (pb_split(h, f)) for (auto &x : f) if (x.first == 1) { fresh(x.second, "the exchange key of a message"); break; }
        }
        W->signed_by[k.content].insert(s.id);
        W->net.push_back(std::move(k));
        g.progress();
        break;
    }
    wickr_node_array_destroy(&arr);
}
OEc message_key(Dev &d, uint64_t id) {
    PauseFaults pf;
    auto it = d.keys.find(id); if (it == d.keys.end()) return OEc();
    OBuf s(mkbuf(it->second.blob)); OCipher c(wickr_cipher_result_from_buffer(s.p));
    OBuf p(c ? wickr_ctx_decipher_local(d.ctx(), c.p) : nullptr);
    if (!p) { g.fail("C11", "stored-lost", "device %d cannot read back its message key", d.id); return OEc(); }
    return OEc(RAW.wickr_crypto_engine_ec_key_import(p.p, true));
}
wickr_cipher_key_t *header_key(const Dev &s) {
    Bytes id = W->accts[s.acct].ident;
    Bytes m = s.nodeid + id; (void)m;
    OBuf r(mkbuf(id)), n(mkbuf(s.nodeid));
    OBuf h(RAW.wickr_crypto_engine_digest(r.p, n.p, DIGEST_SHA_256));
    return h ? wickr_cipher_key_create(CIPHER_AES256_GCM, h.release()) : nullptr;
}
Bytes pb_field(int f, const Bytes &v) { Bytes r(1, (char)(f << 3 | 2)); size_t n = v.size(); do { r += (char)((n & 127) | (n > 127 ? 128 : 0)); n >>= 7; } while (n); return r + v; }
bool pb_split(const Bytes &c, std::vector<std::pair<int, Bytes>> &out) {
    size_t i = 0;
    while (i < c.size()) {
        int t = (uint8_t)c[i++]; if ((t & 7) != 2) return false;
        size_t n = 0; int sh = 0; while (i < c.size() && sh < 35) { uint8_t x = (uint8_t)c[i++]; n |= (size_t)(x & 127) << sh; sh += 7; if (!(x & 128)) break; }
        if (i + n > c.size()) return false;
        out.push_back({t >> 3, c.substr(i, n)}); i += n;
    }
    return true;
}
// everybody can open the header of a packet: its key is made of the sender's identifiers
Bytes open_header(const Bytes &content, const Dev &s) {
    PauseFaults pf;
    std::vector<std::pair<int, Bytes>> f;
    if (!pb_split(content, f) || f.empty()) return Bytes();
    OKey hk(header_key(s)); OBuf hs(mkbuf(f[0].second)); OCipher c(hs ? wickr_cipher_result_from_buffer(hs.p) : nullptr);
    OBuf p(c && hk ? RAW.wickr_crypto_engine_cipher_decrypt(c.p, NULL, hk.p, true) : nullptr);
    if (p) g.stat("headers_opened");
    return B(p);
}
Bytes sign_packet(const Dev &by, int version, const Bytes &content, bool by_root = false) {
    OBuf cb(mkbuf(content)); if (!cb) return Bytes();
    ORoot rk;
    if (by_root) { OBuf rb(mkbuf(W->accts[by.acct].root_ser)); rk.reset(wickr_root_keys_create_from_buffer(&RAW, rb.p)); if (!rk) return Bytes(); g.stat("root_signed"); }
    // with the key of the account instead of the device's: that is not a signature of the device
    OSig sg(by_root ? RAW.wickr_crypto_engine_ec_sign(rk->node_signature_root, cb.p, DIGEST_SHA_512) : wickr_identity_sign(by.ctx()->id_chain->node, &RAW, cb.p)); if (!sg) return Bytes();
    OPacket p(wickr_packet_create((uint8_t)version, cb.p, sg.p)); if (!p) return Bytes();
    cb.release(); sg.release();
    OBuf b(wickr_packet_serialize(p.p));
    if (!by_root) W->signed_by[content].insert(by.id);
    return B(b);
}
// what an attacker makes out of packet k (x, y: choices). `as`: the identity the forger signs with.
Bytes forge(const Pkt &k, int64_t kind, int64_t x, int64_t y, Dev *as) {
    PauseFaults pf;
    const Pkt &o = W->net[(size_t)x % W->net.size()];
    std::vector<std::pair<int, Bytes>> f, fo;
    if (!pb_split(k.content, f) || f.size() != 2 || !pb_split(o.content, fo) || fo.size() != 2) return Bytes();
    const Bytes head = k.bytes.substr(0, 2), sig = k.bytes.substr(2 + k.content.size());
    const Bytes osig = o.bytes.substr(2 + o.content.size());
    Bytes mix = pb_field(f[0].first, f[0].second) + pb_field(fo[1].first, fo[1].second);
    OKey hk(header_key(*W->devs[k.sender])), ak(as ? header_key(*as) : nullptr);
    auto seal = [&](const Bytes &pt, const Bytes &key, const Bytes &like) {
        OKey kk(wickr_cipher_key_create(CIPHER_AES256_GCM, mkbuf(key))); OBuf p(mkbuf(pt));
        OCipher c(kk ? RAW.wickr_crypto_engine_cipher_encrypt(p.p, NULL, kk.p, NULL) : nullptr);
        OBuf s(c ? wickr_cipher_result_serialize(c.p) : nullptr); (void)like; return B(s);
    };
    auto open = [&](const Bytes &ct, wickr_cipher_key_t *key) {
        OBuf s(mkbuf(ct)); OCipher c(wickr_cipher_result_from_buffer(s.p));
        OBuf p(c && key ? RAW.wickr_crypto_engine_cipher_decrypt(c.p, NULL, key, true) : nullptr); return B(p);
    };
    switch (kind) {
        case 10: return head + mix + sig;                                        // header of one packet, payload of another
        case 11: return head + mix + osig;
        case 12: return head + k.content + osig;                                 // somebody else's signature
        case 13: return head + o.content + sig;
        case 14: return as ? sign_packet(*as, k.version, k.content, (y & 7) == 4) : Bytes();   // re-signed
        case 15: {                                                               // insider knows the payload key: new payload, own signature
            if (!as) return Bytes();
            Pay p = k.pay; Rng r((uint64_t)y + 5); p.body = r.bytes(40);
            OPMeta m(wickr_packet_meta_create(wickr_ephemeral_info_t{p.ttl, p.bor}, mkbuf(p.tag), p.ct)); OPayload pl(wickr_payload_create(m.p, mkbuf(p.body))); if (!pl) return Bytes(); m.release();
            OBuf s(wickr_payload_serialize(pl.p)); if (!s) return Bytes();
            Bytes c = pb_field(f[0].first, f[0].second) + pb_field(f[1].first, seal(B(s), k.paykey, f[1].second));
            if (y & 1) return sign_packet(*as, k.version, c, (y & 14) == 2);
            return head + c + sig;
        }
        case 16: {                                                               // header re-encrypted for the forger's own identity
            if (!as) return Bytes();
            Bytes h = open(f[0].second, hk.p); if (h.empty()) return Bytes();
            Bytes c = pb_field(f[0].first, seal(h, B(ak->key_data), f[0].second)) + pb_field(f[1].first, f[1].second);
            return sign_packet(*as, k.version, c);
        }
        case 17: {                                                               // the same, with a payload of the forger's choosing
            if (!as) return Bytes();
            Bytes h = open(f[0].second, hk.p); if (h.empty()) return Bytes();
            Bytes c = pb_field(f[0].first, seal(h, y & 1 ? B(ak->key_data) : B(hk->key_data), f[0].second)) + pb_field(fo[1].first, fo[1].second);
            return sign_packet(*as, k.version, c);
        }
        case 18: return as ? sign_packet(*as, k.version, k.content + pb_field(fo[1].first, fo[1].second)) : Bytes();   // a second payload field
        case 19: return head + k.content + pb_field(fo[1].first, fo[1].second) + sig;
        case 20: { Bytes b = k.bytes; b[0] = (char)(2 + (y % 3)); return b; }    // another version
        case 21: { Bytes b = k.bytes; b[1] = (char)y; return b; }
        case 22: return head + mix + Bytes(sig.size(), '\0');
        default: return alter_bytes(k.bytes, kind % 10, x, y);
    }
}
void do_deliver(int64_t pi, Dev &d, int64_t kind, int64_t x, int64_t y, int64_t claim, int64_t keysel, const Op &op) {
    if (W->net.empty()) return;
    const Pkt k = W->net[(size_t)pi % W->net.size()];
    Dev *snd = W->devs[k.sender].get();
    Dev *cl = snd;
    if (claim == 99) ;
    else if (claim > 0) { auto it = W->devs.begin(); std::advance(it, (size_t)claim % W->devs.size()); cl = it->second.get(); }
    Dev *as = nullptr;
    if (kind >= 10) { auto it = W->devs.begin(); std::advance(it, (size_t)(y >> 4) % W->devs.size()); as = it->second.get(); if (!as->ctx()) as = nullptr; }
    if (claim == 99 && as) cl = as;
    Bytes b = kind < 0 ? k.bytes : forge(k, kind, x, y, as);
    if (b.empty()) return;
    bool pristine = b == k.bytes && cl == snd;
    if (b != k.bytes) g.fault_event(kind >= 10 ? "forged" : "corrupted");
    if (cl != snd) g.fault_event("misattributed");
    OChain chain = pub_chain(*cl); if (!chain) return;
    const Rc *me = nullptr;
    for (auto &r : k.rc) if (r.nodeid == d.nodeid && !me) me = &r;
    // a device set up again on the same hardware is the same device id but another identity: not addressed
    OBuf buf(mkbuf(b));
    g.log("device %d receives packet %lld of %d (kind %lld, claim %d)", d.id, (long long)(pi % (int64_t)W->net.size()), k.sender, (long long)kind, cl->id);
    int tries = op.faults.empty() ? 1 : 2;
    for (int t = 0; t < tries && !g.failed(); t++) {
        bool fired = false, f2 = false;
        bool withf = t == 0 && !op.faults.empty();
        OCtxPacket cp;
        Dev *search = &d;
        // an eavesdropper may look for any node in the packet
        if (keysel == 3 && !k.rc.empty() && k.rc[(size_t)x % k.rc.size()].dev >= 0) search = W->devs[k.rc[(size_t)x % k.rc.size()].dev].get();
        OBuf sid(mkbuf(search->nodeid));
        auto parse = [&]() { return OCtxPacket(search == &d && y % 3 ? wickr_ctx_parse_packet(d.ctx(), buf.p, chain.p) : wickr_ctx_stateless_parse_packet(&ENG, sid.p, buf.p, chain.p)); };
        cp = attempt<OCtxPacket>(withf && op.arg(7) == 0 ? &op : nullptr, fired, parse);
        const Rc *found = me; if (search != &d) for (auto &r : k.rc) if (r.nodeid == search->nodeid) { found = &r; break; }
        bool parsed = cp && cp->parse_result && cp->parse_result->err == E_SUCCESS;
        if (cp && cp->parse_result && cp->parse_result->signature_status == PACKET_SIGNATURE_VALID) {
            Bytes c = cp->packet ? B(cp->packet->content) : Bytes();
            auto it = W->signed_by.find(c);
            if (it == W->signed_by.end() || !it->second.count(cl->id)) { g.fail("C02", "signature-accepted", "a packet that device %d never signed is reported as signed by it", cl->id); return; }
        }
        if (parsed && cp->parse_result->signature_status != PACKET_SIGNATURE_VALID) { g.fail("C02", "unverified-parse", "a packet parses successfully without a valid signature"); return; }
        if (pristine && found && !fired && !parsed) { g.fail("C01", "not-recovered", "device %d cannot parse the packet device %d sent to %s (version %d)", d.id, k.sender, search == &d ? "it" : "another", k.version); if (d.own || snd->own) g.fail("C11", "messages-lost", "after a restore device %d cannot parse the packet device %d sent", d.id, k.sender); return; }
        if (pristine && !found && parsed) { g.fail("C01", "found-unaddressed", "device %d finds itself among the recipients although it was not addressed", d.id); return; }
        if (pristine && parsed && cp->parse_result->key_exchange) {
            bool named = false; for (auto &r : k.rc) if (found && r.nodeid == found->nodeid && r.key == cp->parse_result->key_exchange->key_id) named = true;
            if (found && !named) { g.fail("C01", "wrong-key-named", "the packet names another message key than was published"); return; }
        }
        if (parsed && !cp->parse_result->key_exchange) { g.fail("C01", "no-exchange", "a successful parse for a recipient lacks its key exchange"); return; }
        g.cover(hmix(hmix(50, (uint64_t)(kind + 1)), hmix(parsed * 8 + (cp ? (uint64_t)cp->parse_result->err : 7) * 16 + (uint64_t)k.version, keysel * 2 + (cl != snd))));
        // recipient list, for any holder of the sender's identity
        if (y % 2 == 0 || !parsed) {
            bool fl = false;
            auto nod = [&]() { return OCtxPacket(y % 4 < 2 ? wickr_ctx_parse_packet_no_decode(d.ctx(), buf.p, chain.p) : wickr_ctx_stateless_parse_packet(&ENG, NULL, buf.p, chain.p)); };
            OCtxPacket np = attempt<OCtxPacket>(withf && op.arg(7) == 1 ? &op : nullptr, fl, nod);
            bool ok = np && np->parse_result && np->parse_result->err == E_SUCCESS;
            if (pristine && !fl && !ok) { g.fail("C01", "list-unreadable", "the recipient list of an intact packet cannot be read"); return; }
            if (ok) {
                auto it = W->signed_by.find(B(np->packet->content));
                if (np->parse_result->signature_status != PACKET_SIGNATURE_VALID || it == W->signed_by.end() || !it->second.count(cl->id)) { g.fail("C02", "signature-accepted", "the recipient list of a packet that device %d never signed is accepted", cl->id); return; }
            }
            if (ok && pristine) {
                wickr_exchange_array_t *ex = np->parse_result->key_exchange_set ? np->parse_result->key_exchange_set->exchanges : nullptr;
                uint32_t n = ex ? wickr_array_get_item_count(ex) : 0;
                bool same = n == k.rc.size();
                for (uint32_t i = 0; same && i < n; i++) { wickr_key_exchange_t *e = wickr_exchange_array_fetch_item(ex, i); same = e && B(e->exchange_id) == k.rc[i].nodeid && e->key_id == k.rc[i].key; }
                if (!same) { g.fail("C01", "recipient-list", "the recipient list read from the packet (%u) is not the addressed one (%zu)", n, k.rc.size()); return; }
                if (y % 8 == 0) { ODec nd(wickr_ctx_decode_packet(d.ctx(), np.p, NULL)); if (nd && nd->decrypted_payload) { g.fail("C01", "keyless-read", "a payload is obtained without any key"); return; } }
                g.progress();
            }
        }
        // decode
        OEc key; bool right = false; Dev *owner = &d; uint64_t kid = 0;
        if (parsed) {
            kid = cp->parse_result->key_exchange->key_id;
            if (keysel == 0 || keysel == 3) { if (d.keys.count(kid)) { key = message_key(d, kid); right = true; } else if (!d.keys.empty()) { auto kt = d.keys.begin(); std::advance(kt, (size_t)x % d.keys.size()); key = message_key(d, kt->first); } }
            else if (keysel == 1) { auto kt = d.keys.begin(); std::advance(kt, (size_t)x % d.keys.size()); if (kt != d.keys.end() && kt->first != kid) key = message_key(d, kt->first); }
            else { for (auto &o : W->devs) if (o.second->ctx() && o.second.get() != &d && !o.second->keys.empty() && ((x + o.first) % 2)) { owner = o.second.get(); break; } if (owner != &d) { auto kt = owner->keys.count(kid) ? owner->keys.find(kid) : owner->keys.begin(); key = message_key(*owner, kt->first); } }
            if (keysel == 3 && search != &d) { right = false; if (y & 8) { OEc rk = message_key(*search, kid); if (rk) key = std::move(rk); owner = search; } }
            if (keysel >= 1 && key) g.fault_event("wrong_key");
        }
        if (g.failed()) return;
        if (parsed && !key && right) { g.fail("C11", "stored-lost", "a stored message key cannot be imported"); return; }
        // on this hardware and account: a re-created device shares the device id; with the old private key it is the addressed device
        bool same_hw = search != &d && search->devid == d.devid && search->acct == d.acct;
        if (same_hw && owner == search) continue;
        ODec dr;
        if (cp) dr = attempt<ODec>(withf && op.arg(7) == 2 ? &op : nullptr, f2, [&]() { return ODec(wickr_ctx_decode_packet(d.ctx(), cp.p, key.p)); });
        bool got = dr && dr->decrypted_payload;
        if (got && (dr->err != E_SUCCESS || !dr->payload_key)) { g.fail("C01", "half-result", "a decode result carries a payload together with an error or without its key"); return; }
        if (dr && !got && dr->err == E_SUCCESS) { g.fail("C01", "empty-success", "a decode result reports success without a payload"); return; }
        if (got) {
            if (!parsed) { g.fail("C02", "unverified-payload", "a payload is obtained from a packet that did not parse or verify"); return; }
            Pay p = pay_of(dr->decrypted_payload);
            // "forged" by the very device it is attributed to; beyond version 2 nobody of another account can do it without knowing a message key
            bool legit = as && as->id == cl->id && kind >= 14 && kind <= 18 && !(kind == 15 && !(y & 1)) && (k.version == 2 || W->accts[as->acct].root_pub == W->accts[snd->acct].root_pub);
            for (auto &q : W->net) if (q.sender == cl->id && q.pay == p) for (auto &r : q.rc) if (r.nodeid == d.nodeid) legit = true;
            if (pristine && right) {
                if (!(p == k.pay)) { g.fail("C01", "payload-differs", "device %d obtains another payload than was sent (version %d)", d.id, k.version); return; }
                if (B(dr->payload_key->key_data) != k.paykey) { g.fail("C01", "payload-key-differs", "device %d obtains another payload key than the sender got", d.id); return; }
            }
            if (!right) { g.fail("C01", me ? "wrong-key-read" : "unaddressed-read", "device %d obtains a payload %s", d.id, search != &d ? "of a packet for another device" : "with a key the packet does not name"); return; }
            if (!legit && !(k.version == 2 && kind == 16)) { g.fail("C02", pristine ? "misdelivered" : "forgery-accepted", "device %d obtains a payload that device %d never sent to it (kind %lld, version %d)", d.id, cl->id, (long long)kind, k.version); return; }
            g.progress(2);
        } else if (pristine && right && found && !fired && !f2) { g.fail("C01", "not-recovered", "device %d cannot decode the packet device %d sent to it (version %d, key %llu)", d.id, k.sender, k.version, (unsigned long long)kid); if (d.own || snd->own) g.fail("C11", "messages-lost", "after a restore device %d cannot decode the packet device %d sent", d.id, k.sender); return; }
        if (!(fired || f2)) break;
    }
}

// a single key exchange, with and without a pre-shared key
void do_wrap(Dev &s, int target, int64_t v, int64_t x, int64_t y, const Op &op) {
    Contact *c = contact(s, target, 0); Dev *t = dev(target);
    if (!c || c->tampered || !t) return;
    OEc key = message_key(*t, c->n->ephemeral_keypair->identifier); if (!key) return;
    int version = 2 + (int)(v % 3); bool raw = v / 3 % 2, gcm = !raw ? false : v / 6 % 2; int usepsk = (int)(v / 12 % 3);
    Bytes psk = usepsk ? rnd(usepsk == 1 ? 1 + (size_t)(x % 16) : 16 + (size_t)(x % 100)) : Bytes(), data = rnd(raw ? 1 + (size_t)(y % 90) : 32);
    if (psk.size() >= 12) secret(psk, "a pre-shared key"); if (data.size() >= 12) secret(data, "a wrapped key");
    OEc ek; { PauseFaults pf; OBuf b(mkbuf(pool_ec[(size_t)x % pool_ec.size()])); ek.reset(RAW.wickr_crypto_engine_ec_key_import(b.p, true)); } if (!ek) return;
    OBuf pb(psk.empty() ? nullptr : mkbuf(psk)), db(mkbuf(data));
    OKey pk(raw ? nullptr : wickr_cipher_key_create(CIPHER_AES256_GCM, mkbuf(data)));
    const wickr_cipher_t xc = gcm ? CIPHER_AES256_GCM : CIPHER_AES256_CTR;
    bool fired = false;
    auto make = [&]() { return OExch(raw ? wickr_key_exchange_create_with_data(&ENG, s.ctx()->id_chain, c->n.p, ek.p, db.p, xc, pb.p, (uint8_t)version) : wickr_key_exchange_create_with_packet_key(&ENG, s.ctx()->id_chain, c->n.p, ek.p, pk.p, pb.p, (uint8_t)version)); };
    OExch e = attempt<OExch>(&op, fired, make);
    if (!e && fired) { e = make(); }
    if (!e) { g.fail("C01", "wrap-refused", "a key exchange with device %d fails (version %d, %zu bytes of pre-shared key)", target, version, psk.size()); return; }
    OBuf es(e->exchange_ciphertext ? wickr_cipher_result_serialize(e->exchange_ciphertext) : nullptr); emitted(B(es), "key-exchange");
    if (B(e->exchange_id) != t->nodeid || e->key_id != c->n->ephemeral_keypair->identifier) { g.fail("C01", "wrong-key-named", "a key exchange names another device or key than it was made for"); return; }
    OChain sp = pub_chain(s); if (!sp) return;
    OEc pub(wickr_ec_key_copy(ek.p)); if (!pub) return; wickr_buffer_destroy_zero(&pub->pri_data);
    auto open = [&](const wickr_identity_chain_t *from, const wickr_node_t *me, wickr_ec_key_t *with, const Bytes &ps, int ver) {
        OBuf p(ps.empty() ? nullptr : mkbuf(ps));
        if (raw) { OBuf b(wickr_key_exchange_derive_data(&ENG, from, me, with, e.p, p.p, (uint8_t)ver)); return B(b); }
        OKey k(wickr_key_exchange_derive_packet_key(&ENG, from, me, with, e.p, p.p, (uint8_t)ver)); return k && k->cipher.cipher_id == CIPHER_AES256_GCM.cipher_id ? B(k->key_data) : Bytes();
    };
    PauseFaults pf;
    auto node_of = [&](const Dev &d, const OEc &k) { return ONode(wickr_node_create(mkbuf(d.devid), wickr_identity_chain_copy(d.ctx()->id_chain), wickr_ephemeral_keypair_create(c->n->ephemeral_keypair->identifier, wickr_ec_key_copy(k.p), NULL))); };
    ONode me = node_of(*t, key); if (!me) return;
    g.log("device %d wraps %zu bytes for %d (version %d, psk %zu)", s.id, data.size(), target, version, psk.size());
    g.cover(hmix(hmix(70, (uint64_t)version), hmix((uint64_t)(raw * 2 + gcm), (uint64_t)usepsk)));
    if (open(sp.p, me.p, pub.p, psk, version) != data) { g.fail("C01", "unwrap-differs", "device %d does not obtain the key that was wrapped for it (version %d, %zu bytes of pre-shared key)", target, version, psk.size()); return; }
    g.progress();
    if (data.size() < 8) return;
    g.fault_event("wrong_key");
    std::vector<Bytes> wrong = {rnd(20)};
    if (!psk.empty()) { wrong.push_back(Bytes()); Bytes q = psk; q[(size_t)y % q.size()] ^= 1; wrong.push_back(q); wrong.push_back(psk + "x"); if (psk.size() > 1) wrong.push_back(psk.substr(0, psk.size() - 1)); }
    auto hmac_key = [](Bytes k) { while (!k.empty() && k.back() == '\0') k.pop_back(); return k; };   // HMAC pads its key with zeros
    for (auto &q : wrong) if (hmac_key(q) != hmac_key(psk)) { Bytes b = open(sp.p, me.p, pub.p, q, version); if (b == data || (gcm && !b.empty())) { g.fail("C01", "wrong-psk-read", "a wrapped key is obtained with another pre-shared key (version %d)", version); return; } }
    for (auto &o : W->devs) if (o.second->ctx() && o.second.get() != t) {
        if (!o.second->keys.empty()) { OEc k2 = message_key(*o.second, o.second->keys.begin()->first); ONode n2 = k2 ? node_of(*t, k2) : ONode(); if (n2) { Bytes b = open(sp.p, n2.p, pub.p, psk, version); if (b == data || (gcm && !b.empty())) { g.fail("C01", "wrong-key-read", "a wrapped key is obtained with the message key of another device"); return; } } }
        if (version >= 3 && W->accts[o.second->acct].root_pub != W->accts[s.acct].root_pub) { OChain oc = pub_chain(*o.second); if (oc) { Bytes b = open(oc.p, me.p, pub.p, psk, version); if (b == data || (gcm && !b.empty())) { g.fail("C02", "wrap-misattributed", "a key wrapped by one account opens as coming from another (version %d)", version); return; } } }
        if (o.second->devid != t->devid) { ONode n3 = node_of(*o.second, key); if (n3) { Bytes b = open(sp.p, n3.p, pub.p, psk, version); if (b == data || (gcm && !b.empty())) { g.fail("C01", "wrong-device-read", "a key wrapped for one device opens as another device (version %d)", version); return; } } }
    }
}

// ---------------------------------------------------------------- save and restore (C11)
void same_device(Dev &d, const char *how, const char *prop) {
    PauseFaults pf;
    wickr_ctx_t *c = d.ctx();
    OBuf s(wickr_ctx_serialize(c));
    if (!s || B(s) != d.ctx_ser) {
        Bytes cp = ser_chain(c->id_chain, true); OBuf st(wickr_storage_keys_serialize(c->storage_keys));
        g.fail(prop, "restored-differs", "device %d %s is not what it was:%s%s", d.id, how, cp != d.chain_priv ? " identity differs" : "", B(st) != d.storage_ser ? " storage keys differ" : ""); return;
    }
    if (B(c->dev_info->msg_proto_id) != d.devid || B(c->dev_info->dev_salt) != d.salt) { g.fail(prop, "restored-differs", "device %d %s has other device information", d.id, how); return; }
    // it can still act as the device: what it signs is accepted
    OBuf m(mkbuf(rnd(20))); OSig sg(wickr_identity_sign(c->id_chain->node, &ENG, m.p));
    OChain pub = pub_chain(d);
    if (!sg || !pub || !ref_verify(sg.p, pub->node->sig_key->pub_data, m.p)) { g.fail(prop, "restored-mute", "device %d %s can no longer sign as itself", d.id, how); return; }
    int n = 0;
    for (auto &b : W->blobs) if (b.dev == d.id && n++ < 3) { do_read(d, b, nullptr, prop); if (g.failed()) return; }
}
void do_restart(Dev &d, int64_t mode, int64_t kind, int64_t x, int64_t y, const Op &op) {
    Bytes saved, pw;
    bool fired = false;
    uint8_t ver = d.ctx()->pkt_enc_version;
    if (mode == 0) {
        OBuf b = attempt<OBuf>(&op, fired, [&]() { return OBuf(wickr_ctx_serialize(d.ctx())); });
        if (!b && !fired) { g.fail("C11", "save-refused", "device %d cannot be serialized", d.id); return; }
        if (!b) return;
        saved = B(b);
        if (saved != d.ctx_ser) { g.fail("C11", "save-differs", "two serializations of the same device differ"); return; }
    } else if (mode == 1 && !d.saves.empty() && x % 3 == 0) { auto &s = d.saves[(size_t)y % d.saves.size()]; saved = s.first; pw = s.second; }
    else {
        pw = rnd(y % 4 == 0 ? 1 : y % 4 == 1 ? 60 + y % 150 : 12 + y % 30); if (pw.size() >= 12) secret(pw, "a passphrase");
        OBuf p(mkbuf(pw));
        OBuf b = attempt<OBuf>(&op, fired, [&]() { return OBuf(wickr_ctx_export(d.ctx(), p.p)); });
        if (!b && !fired) { g.fail("C11", "save-refused", "device %d cannot be exported", d.id); return; }
        if (!b) return;
        saved = B(b); emitted(saved, "export");
        d.saves.push_back({saved, pw});
    }
    g.log("device %d saved (%lld), %zu bytes", d.id, (long long)mode, saved.size());
    // what the disk or an attacker may have made of it
    if (mode) {
        for (int i = 0; i < 3; i++) {
            Bytes e = saved, q = pw; Rng r((uint64_t)(kind * 3 + i) * 7919 + (uint64_t)x);
            if (r.chance(3, 4)) e = alter_bytes(saved, (int64_t)r.below(10), (int64_t)r.below(100000), (int64_t)r.below(256));
            else switch (r.below(4)) { case 0: q[r.below(q.size())] ^= (char)(1 << r.below(8)); break; case 1: q += (char)(1 + r.below(255)); break; case 2: if (q.size() > 1) q.resize(q.size() - 1 - r.below(q.size() / 2)); break; default: q = rnd(8); }
            if ((e == saved && q == pw) || e.empty()) continue;
            g.fault_event(e != saved ? "save_damaged" : "wrong_passphrase");
            ODevInfo di(mkdev(d.salt, d.sys)); OBuf eb(mkbuf(e)), pb(mkbuf(q));
            OCtx c(wickr_ctx_import(ENG, di.p, eb.p, pb.p));
            if (c) { di.release(); g.fail("C11", "damaged-accepted", "an export that was %s is accepted", e != saved ? "altered" : "opened with a wrong passphrase"); return; }
        }
    }
    // the process dies; only what was saved survives
    if (op.arg(5)) { g.fault_event("restart"); d.gen.reset(); d.own.reset(); }
    OBuf sb(mkbuf(saved)), pb(mkbuf(pw)); OCtx c;
    for (int t = 0; t < 2 && !c; t++) {
        ODevInfo di(mkdev(d.salt, d.sys)); if (!di) return;
        bool f2 = false;
        auto imp = [&]() { return OCtx(mode ? wickr_ctx_import(ENG, di.p, sb.p, pb.p) : wickr_ctx_create_from_buffer(ENG, di.p, sb.p)); };
        // the faults belong to the export unless told otherwise
        Op o2 = op; if (op.arg(6) == 0) o2.faults.clear();
        if (t == 0) { bool rf; { FaultScope fs(o2); c = imp(); f2 = fs.any(); rf = rng_fired(); } (void)rf; } else c = imp();
        if (c) di.release();
        if (!c && !f2) { g.fail("C11", "restore-refused", "device %d cannot be restored from its intact %s", d.id, mode ? "export" : "serialized form"); return; }
    }
    if (op.arg(5)) d.own = std::move(c);
    else { d.gen.reset(); d.own = std::move(c); }
    if (d.ctx()->pkt_enc_version != 4) { g.fail("C11", "restored-version", "a restored device uses packet version %d", d.ctx()->pkt_enc_version); return; }
    d.ctx()->pkt_enc_version = ver;
    same_device(d, "after a restart", "C11");
    g.cover(hmix(60 + mode, d.saves.size()));
    g.progress();
}
void do_storagekeys(Dev &d, int64_t kind, int64_t x, int64_t y, const Op &op) {
    Bytes pw = rnd(y % 3 ? 14 : 60 + (size_t)(y % 150)); secret(pw, "a passphrase");
    OBuf p(mkbuf(pw)); bool fired = false;
    OBuf b = attempt<OBuf>(&op, fired, [&]() { return OBuf(wickr_ctx_export_storage_keys(d.ctx(), p.p)); });
    if (!b && !fired) { g.fail("C11", "save-refused", "storage keys cannot be exported"); return; }
    if (!b) return;
    emitted(B(b), "storage-key-export");
    Bytes e = alter_bytes(B(b), kind % 10, x, y), q = pw; q[(size_t)x % q.size()] ^= 4;
    g.fault_event("save_damaged");
    if (e != B(b) && !e.empty()) { OBuf eb(mkbuf(e)); OStorage s(wickr_ctx_import_storage_keys(ENG, eb.p, p.p)); if (s) { g.fail("C11", "damaged-accepted", "an altered storage key export is accepted"); return; } }
    { OBuf qb(mkbuf(q)); OStorage s(wickr_ctx_import_storage_keys(ENG, b.p, qb.p)); if (s) { g.fail("C11", "damaged-accepted", "a storage key export opens with a wrong passphrase"); return; } }
    OStorage s(wickr_ctx_import_storage_keys(ENG, b.p, p.p));
    OBuf ss(s ? wickr_storage_keys_serialize(s.p) : nullptr);
    if (!s || B(ss) != d.storage_ser) { g.fail("C11", "restored-differs", "exported storage keys do not come back"); return; }
    // a context built from the parts reads the stored data
    if (x % 3 == 0) {
        ODevInfo di(mkdev(d.salt, d.sys)); OBuf cb(mkbuf(d.chain_priv)); OChain ch(wickr_identity_chain_create_from_buffer(cb.p, &ENG));
        if (!di || !ch) { g.fail("C11", "restore-refused", "the saved identity cannot be read"); return; }
        uint8_t ver = d.ctx()->pkt_enc_version;
        OCtx c(wickr_ctx_create(ENG, di.p, ch.p, s.p));
        if (!c) { g.fail("C11", "restore-refused", "a device cannot be put together from its saved parts"); return; }
        di.release(); ch.release(); s.release();
        d.gen.reset(); d.own = std::move(c); d.ctx()->pkt_enc_version = ver;
        same_device(d, "put together from saved parts", "C11");
        g.fault_event("restart");
    }
    g.progress();
}

void exec(const Op &op) {
    const std::string &k = op.kind;
    g.sim_time++;
    if (k == "dev") { do_device((int)op.arg(0), (int)op.arg(1), (int)op.arg(2), (int)op.arg(3, -1), op.arg(4), op); return; }
    if (k == "badbackup") { do_badbackup((int)op.arg(0), op.arg(1), op.arg(2), op.arg(3)); return; }
    Dev *d = dev(op.arg(0)); if (!d) return;
    if (k == "backup") { do_backup(*d, (int)op.arg(1), op); return; }
    if (k == "key") { do_keygen(*d, op.arg(1) != 0, op); return; }
    if (k == "send") { do_send(*d, op.arg(1), op.arg(2), op.arg(3), op.arg(4), op); return; }
    if (k == "recv") { do_deliver(op.arg(1), *d, op.arg(2), op.arg(3), op.arg(4), op.arg(5), op.arg(6), op); return; }
    if (k == "wrap") { do_wrap(*d, (int)op.arg(1), op.arg(2), op.arg(3), op.arg(4), op); return; }
    if (k == "store") { do_store(*d, op.arg(1) != 0, op.arg(2), op); return; }
    if (k == "read") { if (!W->blobs.empty()) do_read(*d, W->blobs[(size_t)op.arg(1) % W->blobs.size()], op.faults.empty() ? nullptr : &op, "C12"); return; }
    if (k == "readbad") { if (!W->blobs.empty()) do_readbad(*d, W->blobs[(size_t)op.arg(1) % W->blobs.size()], op.arg(2), op.arg(3), op.arg(4)); return; }
    if (k == "matrix") { for (auto &b : W->blobs) { do_read(*d, b, nullptr, "C12"); if (g.failed()) return; } return; }
    if (k == "restart") { do_restart(*d, op.arg(1), op.arg(2), op.arg(3), op.arg(4), op); return; }
    if (k == "storagekeys") { do_storagekeys(*d, op.arg(1), op.arg(2), op.arg(3), op); return; }
    if (k == "version") { d->ctx()->pkt_enc_version = (uint8_t)(2 + op.arg(1) % 3); return; }
    if (k == "tamper") { do_tamper(*d, (int)op.arg(1), op.arg(2), op.arg(3), op.arg(4), op); return; }
    if (k == "ask") { Contact *c = contact(*d, (int)op.arg(1), (int)op.arg(2)); if (c) ask(*c, d->id, (int)op.arg(1), &op); return; }
    if (k == "copyctx") {
        bool fired = false; uint8_t ver = d->ctx()->pkt_enc_version;
        OCtx c = attempt<OCtx>(&op, fired, [&]() { return OCtx(wickr_ctx_copy(d->ctx())); });
        if (!c && !fired) { g.fail("C15", "copy-refused", "a device context cannot be copied"); return; }
        if (!c) return;
        if (c->pkt_enc_version != ver) { g.fail("C15", "copy-differs", "the copy of a device context uses another packet version"); return; }
        d->gen.reset(); d->own = std::move(c);
        same_device(*d, "copied", "C15");
        return;
    }
}
void run(const Plan &p) {
    auto w = std::make_unique<W_>(); W = w.get();
    obs.record_keys = p.prop == "C16";
    for (auto &op : p.ops) { exec(op); g.steps++; if (g.failed()) break; }
    // whatever happened, every message still waiting reaches its recipients once the faults are over
    if (!g.failed() && p.c("final", 1)) for (size_t i = 0; i < W->net.size() && !g.failed(); i++) {
        if (i % 2 == 0 && W->net.size() > 6) continue;
        for (auto &r : std::vector<Rc>(W->net[i].rc)) { Dev *d = r.dev >= 0 ? dev(r.dev) : nullptr; if (d) do_deliver((int64_t)i, *d, -1, 1, 1, 0, 0, Op()); if (g.failed()) break; }
    }
    w.reset(); W = nullptr;
    check_leaks("C14");
}

// ---------------------------------------------------------------- generation
Op mk(const char *k, std::vector<int64_t> a) { return Op{k, a, {}}; }
void gen(const std::string &prop, Rng &r, Plan &p) {
    int na = 1 + (int)r.below(3), nd = 0;
    bool c12 = prop == "C12", c11 = prop == "C11", c03 = prop == "C03", c02 = prop == "C02";
    std::vector<int> acct_of;
    for (int a = 0; a < na; a++) { p.ops.push_back(mk("dev", {nd, a, r.chance(3, 4) ? 2 : (int64_t)r.below(2), -1, (int64_t)r.below(1000)})); acct_of.push_back(a); nd++; }
    if (na == 1 || r.chance(1, 2)) { p.ops.push_back(mk("dev", {nd, (int64_t)r.below(na), 2, -1, (int64_t)r.below(1000)})); nd++; }
    for (int i = 0; i < nd; i++) if (!c12 || r.chance(1, 2)) p.ops.push_back(mk("key", {i, 1}));
    if (r.chance(1, 2)) for (int i = 0; i < nd; i++) if (r.chance(1, 3)) p.ops.push_back(mk("version", {i, (int64_t)r.below(3)}));
    // swarm: each run leaves out some kinds of operation
    int w_dev = c12 ? 6 : (int)r.below(2), w_backup = c12 || c11 ? 4 : (int)r.below(2), w_badb = c11 ? 4 : 0, w_key = c12 ? 1 : (int)r.below(4), w_send = c12 ? 1 : c11 ? 2 : 4 + (int)r.below(6), w_recv = c12 ? 1 : c11 ? 3 : 6 + (int)r.below(10), w_store = c12 || c11 ? 5 : prop == "C04" ? 1 + (int)r.below(3) : (int)r.below(2), w_read = c12 ? 6 : c11 ? 2 : (int)r.below(2), w_restart = c11 ? 8 : c12 ? 2 : (int)r.below(3), w_sk = c11 ? 3 : (int)r.below(2), w_ver = (int)r.below(2), w_tamper = c03 ? 14 : r.chance(1, 4) ? 2 : 0, w_ask = c03 ? 10 : r.chance(1, 4) ? 2 : 0, w_copy = (int)r.below(2), w_wrap = c12 || c11 ? 0 : (int)r.below(3);
    if (prop == "C01") { w_tamper = 0; w_ask = 0; }
    int forge_pct = c02 ? 80 : prop == "C01" ? (int)r.below(30) : (int)r.below(40);
    struct { const char *k; int w; } ws[] = {{"dev", w_dev}, {"backup", w_backup}, {"badbackup", w_badb}, {"key", w_key}, {"send", w_send}, {"recv", w_recv}, {"store", w_store}, {"read", w_read}, {"restart", w_restart}, {"storagekeys", w_sk}, {"version", w_ver}, {"tamper", w_tamper}, {"ask", w_ask}, {"copyctx", w_copy}, {"wrap", w_wrap}};
    int tot = 0; for (auto &x : ws) tot += x.w;
    int n = 8 + (int)r.below(22);
    auto D = [&]() { return (int64_t)r.below((uint64_t)nd); };
    bool any_sent = false;
    for (int i = 0; i < n; i++) {
        int x = (int)r.below((uint64_t)tot); std::string k;
        for (auto &y : ws) { if (x < y.w) { k = y.k; break; } x -= y.w; }
        if (k == "recv" && !any_sent) k = "send";
        if (k == "dev") { if (nd < 7) { int how = 2 + (int)r.below(3); p.ops.push_back(mk("dev", {nd, (int64_t)r.below(na), how, r.chance(1, 3) ? D() : -1, (int64_t)r.below(1000)})); nd++; if (r.chance(1, 2)) p.ops.push_back(mk("key", {nd - 1, 1})); } }
        else if (k == "backup") p.ops.push_back(mk("backup", {D(), (int64_t)r.below(4)}));
        else if (k == "badbackup") p.ops.push_back(mk("badbackup", {(int64_t)r.below(na), (int64_t)(r.chance(1, 5) ? 20 : r.below(4)), (int64_t)r.below(100000), (int64_t)r.below(256)}));
        else if (k == "key") p.ops.push_back(mk("key", {D(), (int64_t)r.chance(3, 4)}));
        else if (k == "send") { any_sent = true; int64_t m = r.chance(1, 2) ? 1ll << r.below((uint64_t)nd) | 1ll << r.below((uint64_t)nd) : (int64_t)r.below(128); if (r.chance(1, 12)) m = 1023;
            p.ops.push_back(mk("send", {D(), m, (int64_t)r.below(1 << 20), r.chance(1, 60) ? 65000 + r.loguni(200000) : r.chance(1, 4) ? r.loguni(9000) : r.chance(1, 6) ? r.edge(66000) - 1 : (int64_t)r.below(60), (int64_t)r.below(5000)})); }
        else if (k == "recv") { bool fo = (int)r.below(100) < forge_pct; int64_t kd = fo ? (r.chance(1, 2) ? (int64_t)(r.chance(1, 10) ? 9 : r.below(9)) : 10 + (int64_t)r.below(13)) : -1;
            int64_t claim = kd >= 14 && kd <= 18 && r.chance(2, 3) ? 99 : r.chance(fo ? 2 : 1, 8) ? 1 + (int64_t)r.below(10) : 0, ks = r.chance(1, 5) ? 1 + (int64_t)r.below(3) : 0;
            p.ops.push_back(mk("recv", {D(), (int64_t)r.below(1000), kd, (int64_t)r.below(100000), (int64_t)r.below(256), claim, ks, (int64_t)r.below(3)})); }
        else if (k == "store") p.ops.push_back(mk("store", {D(), (int64_t)r.below(2), r.chance(1, 4) ? r.loguni(3000) : r.chance(1, 5) ? r.edge(5000) : (int64_t)r.below(50)}));
        else if (k == "read") p.ops.push_back(r.chance(1, 5) ? mk("readbad", {D(), (int64_t)r.below(24), (int64_t)r.below(10), (int64_t)r.below(100000), (int64_t)r.below(256)}) : r.chance(1, 3) ? mk("matrix", {D()}) : mk("read", {D(), (int64_t)r.below(24)}));
        else if (k == "restart") p.ops.push_back(mk("restart", {D(), r.chance(1, 4) ? 0 : 1 + (int64_t)r.below(2), (int64_t)r.below(10000), (int64_t)r.below(10000), (int64_t)r.below(10000), (int64_t)r.chance(3, 4), (int64_t)r.below(2)}));
        else if (k == "storagekeys") p.ops.push_back(mk("storagekeys", {D(), (int64_t)r.below(10), (int64_t)r.below(10000), (int64_t)r.below(256)}));
        else if (k == "version") p.ops.push_back(mk("version", {D(), (int64_t)r.below(3)}));
        else if (k == "tamper") { int64_t o = D(), t = D(); p.ops.push_back(mk("ask", {o, t, 0})); p.ops.push_back(mk("tamper", {o, t, r.chance(1, 4) ? 17 + (int64_t)r.below(2) : (int64_t)r.below(32), (int64_t)r.below(1000), (int64_t)r.below(256)})); if (r.chance(2, 3)) p.ops.push_back(mk("ask", {o, t, 0})); if (r.chance(1, 4)) { p.ops.push_back(mk("send", {o, 1ll << t | (r.chance(1, 2) ? 1ll << D() : 0), 0, 20, (int64_t)r.below(5000)})); any_sent = true; } }
        else if (k == "ask") p.ops.push_back(mk("ask", {D(), D(), (int64_t)r.below(4)}));
        else if (k == "wrap") p.ops.push_back(mk("wrap", {D(), D(), (int64_t)r.below(36), (int64_t)r.below(10000), (int64_t)r.below(10000)}));
        else p.ops.push_back(mk("copyctx", {D()}));
    }
    if (c12 || c11) for (int i = 0; i < nd; i++) p.ops.push_back(mk("matrix", {i}));
    else if (r.chance(1, prop == "C01" ? 25 : 120)) {        // a message to more devices than small counters hold
        Op o = mk("send", {D(), 1ll << D() | 1ll << D(), 0, 30, (int64_t)r.below(5000), r.chance(1, 6) ? (int64_t)r.below(600) : 250 + (int64_t)r.below(12), (int64_t)r.below(3)});
        for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].kind == "send") { p.ops[i] = o; for (int j = 0; j < nd; j++) p.ops.push_back(mk("recv", {j, 0, -1, 1, (int64_t)r.below(8), 0, 0, 0})); break; }
    }
    // faults
    int nf = r.chance(2, 3) ? 1 + (int)r.below(4) : 0;
    if (prop == "C04" || prop == "C16") nf += 2;
    for (int i = 0; i < nf; i++) {
        Op &o = p.ops[r.below(p.ops.size())];
        if (o.kind == "version" || o.kind == "matrix" || o.kind == "badbackup") continue;
        int fk = (int)r.below(10);
        int kind = fk < 3 ? F_ALLOC : fk < 6 ? F_ENGINE : fk < 8 ? F_OSSL : F_RNG;
        if (prop == "C04" && r.chance(1, 2)) kind = F_RNG;
        o.faults.push_back(Fault{kind, r.loguni(kind == F_ALLOC ? 200 : kind == F_OSSL ? 100 : kind == F_RNG ? 8 : 24), (int64_t)r.chance(1, 5)});
    }
}
}
extern const World W_device;
const World W_device = {"device", gen, run};
