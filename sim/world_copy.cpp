// World "copy" (C15, and copied sessions for C04): every copyable object, copied at arbitrary points of its history.
// Each object is accompanied by a twin that was built from scratch by replaying the same history without any copy.
// Object and twin must answer every question alike at every step, whatever happens to the relatives of the object.
#include "lib.hpp"
#include <memory>
#include <deque>
#include <algorithm>

namespace {
struct Ev { int act; int64_t x, y; uint64_t seed; };
uint64_t rseed(uint64_t s) { return hmix(g.run_seed ^ 0xC0B1, s); }
bool g_lock = true;        // without lock step (C04) randomness is never repeated
void reseed(uint64_t s) { if (g_lock) g.sysrng.reseed(rseed(s)); }
OBuf Q(const Bytes &b) { return OBuf(mkbuf(b)); }
// numbers next to the limits of the types that may carry them
uint64_t big(uint64_t v) { switch (v % 7) { case 3: return 0xFFFFFFFFull + v % 3; case 4: return (1ull << 32) + v; case 5: return (1ull << 63) | v; case 6: return ~0ull - v % 2; default: return v; } }
uint16_t big16(uint64_t v) { static const uint16_t e[] = {0, 1, 127, 128, 255, 256, 16383, 16384, 32767, 32768, 65535}; return v % 3 ? (uint16_t)v : e[v / 3 % 11]; }
uint32_t interval(uint64_t v) { static const uint32_t e[] = {1, 2, 127, 128, 255, 256, 512, 16383, 16384, 32767, 32768}; return v % 3 ? (uint32_t)(1 + v % 900) : e[v / 3 % 11]; }
size_t some_size(uint64_t v) { static const size_t e[] = {1, 127, 128, 255, 256, 4095, 4096, 65535, 65536, 70001}; return v % 4 ? 1 + v % 200 : e[v / 4 % 10]; }
Bytes S(wickr_buffer_t *b) { OBuf o(b); return o ? "+" + B(o) : Bytes("-"); }

// ---------------------------------------------------------------- reading objects field by field
struct V {
    Bytes t; std::vector<wickr_buffer_t *> bufs;
    void n(uint64_t v) { t += std::to_string(v) + ","; }
    bool null(const void *p) { t += p ? "(" : "0,"; return !p; }
    void v(const wickr_buffer_t *b) { if (null(b)) return; n(b->length); if (b->bytes && b->length) { t.append((const char *)b->bytes, b->length); bufs.push_back(const_cast<wickr_buffer_t *>(b)); } t += ")"; }
    void v(const wickr_ec_key_t *k) { if (null(k)) return; n(k->curve.identifier); n(k->curve.signature_size); v(k->pub_data); v(k->pri_data); t += ")"; }
    void v(const wickr_ecdsa_result_t *s) { if (null(s)) return; n(s->curve.identifier); n(s->digest_mode.digest_id); n(s->digest_mode.size); v(s->sig_data); t += ")"; }
    void c(const wickr_cipher_t &c) { n(c.cipher_id); n(c.key_len); n(c.iv_len); n(c.auth_tag_len); n(c.is_authenticated); }
    void v(const wickr_cipher_key_t *k) { if (null(k)) return; c(k->cipher); v(k->key_data); t += ")"; }
    void v(const wickr_cipher_result_t *k) { if (null(k)) return; c(k->cipher); v(k->iv); v(k->cipher_text); v(k->auth_tag); t += ")"; }
    void v(const wickr_identity_t *i) { if (null(i)) return; n(i->type); v(i->identifier); v(i->sig_key); v(i->signature); t += ")"; }
    void v(const wickr_identity_chain_t *i) { if (null(i)) return; v(i->root); v(i->node); t += ")"; }
    void v(const wickr_ephemeral_keypair_t *k) { if (null(k)) return; n(k->identifier); v(k->ec_key); v(k->signature); t += ")"; }
    void v(const wickr_node_t *k) { if (null(k)) return; v(k->dev_id); v(k->id_chain); v(k->ephemeral_keypair); t += ")"; }
    void v(const wickr_dev_info_t *d) { if (null(d)) return; v(d->dev_salt); v(d->system_salt); v(d->msg_proto_id); v(d->srv_comm_id); t += ")"; }
    void v(const wickr_root_keys_t *d) { if (null(d)) return; v(d->node_signature_root); v(d->node_storage_root); v(d->remote_storage_root); t += ")"; }
    void v(const wickr_storage_keys_t *d) { if (null(d)) return; v(d->local); v(d->remote); t += ")"; }
    void a(const wickr_kdf_algo_t &k) { n(k.algo_id); n(k.kdf_id); n(k.salt_size); n(k.output_size); n(k.cost); }
    void v(const wickr_kdf_meta_t *d) { if (null(d)) return; a(d->algo); v(d->salt); v(d->info); t += ")"; }
    void v(const wickr_kdf_result_t *d) { if (null(d)) return; v(d->meta); v(d->hash); t += ")"; }
    void v(const wickr_key_exchange_t *d) { if (null(d)) return; v(d->exchange_id); n(d->key_id); v(d->exchange_ciphertext); t += ")"; }
    void v(const wickr_array_t *d, bool nodes) { if (null(d)) return; uint32_t c = wickr_array_get_item_count(d); n(c); for (uint32_t i = 0; i < c; i++) { if (nodes) v(wickr_node_array_fetch_item(d, i)); else v(wickr_exchange_array_fetch_item(const_cast<wickr_array_t *>(d), i)); } t += ")"; }
    void v(const wickr_key_exchange_set_t *d) { if (null(d)) return; v(d->sender_pub); v(d->exchanges, false); t += ")"; }
    void v(const wickr_packet_meta_t *d) { if (null(d)) return; n(d->ephemerality_settings.ttl); n(d->ephemerality_settings.bor); n(d->content_type); v(d->channel_tag); t += ")"; }
    void v(const wickr_payload_t *d) { if (null(d)) return; v(d->meta); v(d->body); t += ")"; }
    void v(const wickr_packet_t *d) { if (null(d)) return; n(d->version); v(d->content); v(d->signature); t += ")"; }
    void v(const wickr_parse_result_t *d) { if (null(d)) return; n(d->err); n(d->signature_status); v(d->key_exchange_set); v(d->key_exchange); v(d->enc_payload); t += ")"; }
    void v(const wickr_decode_result_t *d) { if (null(d)) return; n(d->err); v(d->payload_key); v(d->decrypted_payload); t += ")"; }
    void v(const wickr_encoder_result_t *d) { if (null(d)) return; v(d->packet_key); v(d->packet); t += ")"; }
    void v(const wickr_fingerprint_t *d) { if (null(d)) return; n(d->type); v(d->data); t += ")"; }
    void v(const wickr_stream_key_t *d) { if (null(d)) return; v(d->cipher_key); v(d->evolution_key); v(d->user_data); n(d->packets_per_evolution); t += ")"; }
    void v(const wickr_transport_root_key_t *d) { if (null(d)) return; v(d->secret); c(d->cipher); n(d->packets_per_evo_send); n(d->packets_per_evo_recv); t += ")"; }
    // a context derives a key from its identities when it is created: they are not to be altered behind its back
    void v(const wickr_ctx_t *d) { if (null(d)) return; v(d->dev_info); size_t keep = bufs.size(); v(d->id_chain); bufs.resize(keep); v(d->storage_keys); n(d->pkt_enc_version); t += ")"; }
    void v(const wickr_ctx_gen_result_t *d) { if (null(d)) return; v(d->recovery_key); v(d->root_keys); v(d->ctx); t += ")"; }
    void v(const wickr_ecdh_cipher_ctx_t *d) { if (null(d)) return; v(d->local_key); c(d->cipher); t += ")"; }
    // the network buffer is a cache of the serialised packet that copies may leave to be recomputed
    void v(const wickr_transport_packet_t *d) { if (null(d)) return; n(d->meta.body_type); n(d->meta.mac_type); if (d->meta.body_type == TRANSPORT_PAYLOAD_TYPE_HANDSHAKE) n(d->meta.body_meta.handshake.protocol_version); else n(d->meta.body_meta.data.sequence_number); v(d->body); v(d->mac); t += ")"; }
};
void flip(V &v, int64_t x, int64_t y) { if (v.bufs.empty()) return; wickr_buffer_t *b = v.bufs[(size_t)x % v.bufs.size()]; b->bytes[(size_t)y % b->length] ^= (uint8_t)(1 << (y & 7)); }

// ---------------------------------------------------------------- kinds
struct Obj { virtual ~Obj() {} virtual Obj *copy(int64_t side, const std::function<std::unique_ptr<Obj>()> &rebuild) = 0; virtual void act(int a, int64_t x, int64_t y) = 0; virtual Bytes look() = 0; virtual Bytes ask(int64_t x) { (void)x; return look(); } };
template <class T> struct Fns { T *(*copy)(const T *); void (*destroy)(T **); void (*act)(T *, int, int64_t, int64_t); Bytes (*ask)(T *, int64_t); bool noflip = false; };
template <class T> struct Val : Obj {
    T *p; Fns<T> f;
    Val(T *x, const Fns<T> &fn) : p(x), f(fn) {}
    ~Val() { if (p) f.destroy(&p); }
    Obj *copy(int64_t, const std::function<std::unique_ptr<Obj>()> &) override { T *c = f.copy(p); return c ? new Val(c, f) : nullptr; }
    void act(int a, int64_t x, int64_t y) override { if (f.noflip && (a % 3 == 0 || !f.act)) return; if (a % 3 == 0 || !f.act) { V v; v.v(p); flip(v, x, y); } else f.act(p, a, x, y); }
    Bytes look() override { V v; v.v(p); return v.t; }
    Bytes ask(int64_t x) override { return f.ask ? f.ask(p, x) : look(); }
};
template <class T> Obj *val(T *x, Fns<T> f) { return x ? new Val<T>(x, f) : nullptr; }

wickr_dev_info_t *devinfo(int i) { OBuf s = Q(Bytes(20, (char)('s' + i))); wickr_buffer_t *salt = mkbuf(Bytes(64, (char)(7 + i))); wickr_dev_info_t *d = wickr_dev_info_derive(&RAW, salt, s.p); return d; }
wickr_ctx_gen_result_t *gen_result(int i) { ORoot r(pool_root(i)); ODevInfo d(devinfo(i)); OBuf id = Q(Bytes(16, (char)('a' + i))); return r && d ? wickr_ctx_gen_with_root_keys(ENG, d.p, r.p, id.p) : nullptr; }
wickr_ctx_t *a_ctx(int i) { OGen gr(gen_result(i)); if (!gr) return nullptr; wickr_ctx_t *c = gr->ctx; gr->ctx = nullptr; ODevInfo(nullptr); return c; }
wickr_node_t *a_node(wickr_ctx_t *c, uint64_t kid, bool priv) {
    OEph e(wickr_ctx_ephemeral_keypair_gen(c, kid)); if (!e) return nullptr;
    if (!priv) { OBuf pub(wickr_buffer_copy(e->ec_key->pub_data)); wickr_ec_key_t *k = RAW.wickr_crypto_engine_ec_key_import(pub.p, false); wickr_ec_key_destroy(&e->ec_key); e->ec_key = k; }
    OChain ch(wickr_identity_chain_copy(c->id_chain)); wickr_buffer_t *id = mkbuf(B(c->dev_info->msg_proto_id));
    wickr_node_t *n = wickr_node_create(id, ch.p, e.p); if (n) { ch.release(); e.release(); } else wickr_buffer_destroy(&id);
    return n;
}
wickr_payload_t *a_payload(uint64_t s) { Rng r(s + 3); Bytes body = r.bytes(some_size(s)), tag = r.bytes(1 + s % 40); return wickr_payload_create(wickr_packet_meta_create(wickr_ephemeral_info_t{big(s), big(s / 3)}, mkbuf(tag), big16(s)), mkbuf(body)); }
wickr_node_array_t *env_recipients();
wickr_encoder_result_t *encode_env(uint64_t s);
// fixed bystanders of a run: a sender, a recipient with its message key, a packet between them
struct Env { OCtx snd, rcv; ONode rnode; OEc rkey; OEnc enc; OBuf wire; OChain sndpub; };
Env *E_;
// the bystander among other recipients; how many and where depends on the run
wickr_node_array_t *env_recipients() {
    uint64_t h = hmix(g.run_seed, 77); uint32_t cnt = h % 16 == 3 ? 66 : (uint32_t)(1 + h / 16 % 4), at = (uint32_t)(h / 64 % cnt);
    wickr_node_array_t *a = wickr_node_array_new(cnt); if (!a) return nullptr;
    ONode o(a_node(E_->snd.p, 7, false));
    for (uint32_t i = 0; i < cnt; i++) { wickr_node_t *n = wickr_node_copy(i == at ? E_->rnode.p : o.p); if (n) wickr_node_array_set_item(a, i, n); }
    return a;
}
wickr_encoder_result_t *encode_env(uint64_t s) {
    OPayload pl(a_payload(s)); wickr_node_array_t *a = env_recipients(); if (!a) return nullptr;
    wickr_encoder_result_t *e = wickr_ctx_encode_packet(E_->snd.p, pl.p, a); wickr_array_destroy(&a, true);
    return e;
}
Bytes enc_to(const wickr_ctx_t *c, wickr_node_t *n, wickr_ec_key_t *key, uint64_t s) {
    OPayload pl(a_payload(s)); wickr_node_array_t *arr = wickr_node_array_new(1); wickr_node_array_set_item(arr, 0, n);
    OEnc e(wickr_ctx_encode_packet(c, pl.p, arr)); wickr_node_array_destroy(&arr);
    if (!e) return "-";
    V v; v.v(e.p); Bytes out = v.t;
    if (key) { OBuf b(wickr_packet_serialize(e->packet)); OCtxPacket p(wickr_ctx_parse_packet(E_->rcv.p, b.p, c->id_chain)); ODec d(p ? wickr_ctx_decode_packet(E_->rcv.p, p.p, key) : nullptr); V w; w.v(d.p); out += w.t; }
    return out;
}
void accept_id(const wickr_transport_handshake_t *, wickr_identity_chain_t *id, void *) { OChain c(id); }
const char *PW = "open sesame";
Bytes ask_ctx(wickr_ctx_t *c, int64_t x) {
    OBuf pw = Q(PW);
    switch (x % 7) {
        case 0: return S(wickr_ctx_serialize(c));
        case 1: return S(wickr_ctx_export(c, pw.p)) + S(wickr_ctx_export_storage_keys(c, pw.p));
        case 2: { OBuf p = Q("remember me"); OCipher l(wickr_ctx_cipher_local(c, p.p)), r(wickr_ctx_cipher_remote(c, p.p)); Bytes o; if (l) o += S(wickr_ctx_decipher_local(c, l.p)); if (r) o += S(wickr_ctx_decipher_remote(c, r.p)); V v; v.v(l.p); v.v(r.p); return o + v.t; }
        case 3: return enc_to(c, E_->rnode.p, E_->rkey.p, (uint64_t)x);
        case 4: { OCtxPacket p(wickr_ctx_parse_packet(c, E_->wire.p, E_->sndpub.p)); if (!p) return "-"; V v; v.v(p->parse_result); ODec d(wickr_ctx_decode_packet(c, p.p, E_->rkey.p)); v.v(d.p); return v.t; }
        case 5: { OEph e(wickr_ctx_ephemeral_keypair_gen(c, 9)); V v; v.v(e.p); return v.t; }
        default: { OChain k(wickr_identity_chain_copy(c->id_chain)); bool ok = wickr_identity_chain_validate(c->id_chain, &ENG); V v; v.n(ok); v.n(c->id_chain->status); v.n(k ? wickr_identity_chain_validate(k.p, &ENG) : 9); return v.t; }
    }
}
Bytes ask_node(wickr_node_t *n, int64_t x) {
    V v;
    switch (x % 4) {
        case 0: v.n(wickr_node_verify_signature_chain(n, &ENG)); v.n(n->status); return v.t;
        case 1: return S(wickr_node_serialize(n));
        case 2: return enc_to(E_->snd.p, n, nullptr, (uint64_t)x);
        default: v.n(wickr_identity_chain_validate(n->id_chain, &ENG)); v.n(n->id_chain->status); v.n(wickr_node_verify_signature_chain(n, &ENG)); return v.t;
    }
}
Bytes ask_chain(wickr_identity_chain_t *c, int64_t x) {
    V v;
    switch (x % 4) {
        case 0: v.n(wickr_identity_chain_validate(c, &ENG)); v.n(c->status); return v.t;
        case 1: return S(wickr_identity_chain_serialize(c)) + S(wickr_identity_chain_serialize_private(c));
        case 2: { OBuf m = Q("sign this"); OSig s(wickr_identity_sign(c->node, &ENG, m.p)); v.v(s.p); return v.t; }
        default: { OFinger f(wickr_identity_get_fingerprint(c->root, ENG)), b(wickr_identity_get_bilateral_fingerprint(c->root, E_->sndpub->root, ENG)); v.v(f.p); v.v(b.p); return v.t; }
    }
}
Bytes ask_exset(wickr_key_exchange_set_t *s, int64_t) {
    OKey k(wickr_cipher_key_create(CIPHER_AES256_GCM, mkbuf(Bytes(32, 'k')))); OBuf id = Q(Bytes(32, 'r'));
    Bytes o = S(wickr_key_exchange_set_serialize(s)); OExch f(wickr_key_exchange_set_find(s, E_->rnode->dev_id)); V v; v.v(f.p);
    OCipher c(wickr_key_exchange_set_encrypt(s, &ENG, k.p)); v.v(c.p); return o + v.t;
}

// buffers and plain arrays
struct BufObj : Obj {
    OBuf b; explicit BufObj(wickr_buffer_t *x) : b(x) {}
    Obj *copy(int64_t, const std::function<std::unique_ptr<Obj>()> &) override { wickr_buffer_t *c = wickr_buffer_copy(b.p); return c ? new BufObj(c) : nullptr; }
    void act(int, int64_t x, int64_t y) override { V v; v.v(b.p); flip(v, x, y); }
    Bytes look() override { V v; v.v(b.p); return v.t; }
};
struct ArrObj : Obj {               // arrays of recipients or of key exchanges, deep copies
    wickr_array_t *p; bool nodes;
    ArrObj(wickr_array_t *x, bool n) : p(x), nodes(n) {}
    ~ArrObj() { if (nodes) wickr_array_destroy(&p, true); else wickr_exchange_array_destroy(&p); }
    Obj *copy(int64_t side, const std::function<std::unique_ptr<Obj>()> &) override { wickr_array_t *c = nodes ? (side % 2 ? wickr_node_array_copy(p) : wickr_array_copy(p, true)) : (side % 2 ? wickr_exchange_array_copy(p) : wickr_array_copy(p, true)); return c ? new ArrObj(c, nodes) : nullptr; }
    void act(int a, int64_t x, int64_t y) override {
        uint32_t n = wickr_array_get_item_count(p); if (!n) return;
        if (a % 3 == 1 && !nodes) { wickr_key_exchange_t *e = wickr_exchange_array_fetch_item(p, (uint32_t)x % n); if (e) e->key_id += 1 + (uint64_t)y; return; }
        if (a % 3 == 1 && nodes) { wickr_node_t *e = wickr_node_array_fetch_item(p, (uint32_t)x % n); if (e) (void)wickr_node_verify_signature_chain(e, &ENG); return; }
        V v; v.v(p, nodes); flip(v, x, y);
    }
    Bytes look() override { V v; v.v(p, nodes); return v.t; }
    Bytes ask(int64_t x) override {
        if (!nodes) return look();
        V v; if (x % 2) { uint32_t n = wickr_array_get_item_count(p); for (uint32_t i = 0; i < n; i++) { wickr_node_t *e = wickr_node_array_fetch_item(p, i); v.n(e ? wickr_node_verify_signature_chain(e, &ENG) : 7); } return v.t; }
        OPayload pl(a_payload((uint64_t)x)); OEnc e(wickr_ctx_encode_packet(E_->snd.p, pl.p, p)); v.v(e.p); return v.t;
    }
};

// a pair of handshakes exchanging packets; copies take one end and leave the other to a rebuilt peer
struct HsObj : Obj {
    struct End { OHandshake h; std::deque<Bytes> out; bool ask = false; OHRes res; HsObj *o = nullptr; } e[2];
    Bytes log; int64_t cfg;
    static void on_id(const wickr_transport_handshake_t *, wickr_identity_chain_t *id, void *user) { OChain c(id); End *e = (End *)user; V v; v.v(c.p); e->o->log += "ask" + std::to_string(fnv(v.t)) + ";"; e->ask = true; }
    explicit HsObj(int64_t c) : cfg(c) {
        for (int i = 0; i < 2; i++) {
            e[i].o = this; bool pin = c >> i & 1;
            wickr_identity_chain_t *l = pool_chain(i, true), *r = pin ? pool_chain(1 - i, false) : nullptr;
            e[i].h.reset(wickr_transport_handshake_create(ENG, l, r, on_id, interval((uint64_t)c), &e[i]));
            if (!e[i].h) { wickr_identity_chain_destroy(&l); if (r) wickr_identity_chain_destroy(&r); }
        }
    }
    void sent(int i, wickr_transport_packet_t *p) { OTPacket k(p); if (!k) { log += "none;"; return; } OBuf b(wickr_transport_packet_serialize(k.p)); e[i].out.push_back(B(b)); log += "pkt" + std::to_string(fnv(B(b))) + ";"; }
    void act(int a, int64_t x, int64_t y) override {
        int i = (int)(x & 1); End &m = e[i]; if (!m.h) return;
        log += std::to_string(a % 7) + (i ? "b:" : "a:");
        switch (a % 7) {
            case 0: sent(i, wickr_transport_handshake_start(m.h.p)); break;
            case 1: case 2: case 3: {
                End &o = e[1 - i]; if (o.out.empty()) break; Bytes b = o.out.front(); o.out.pop_front(); if (y % 16 == 5) b[(size_t)y % b.size()] ^= 4;
                OBuf q = Q(b); OTPacket k(wickr_transport_packet_create_from_buffer(q.p)); if (k) sent(i, wickr_transport_handshake_process(m.h.p, k.p)); break;
            }
            case 4: if (m.ask) { m.ask = false; sent(i, wickr_transport_handshake_verify_identity(m.h.p, y % 8 != 3)); } break;
            case 5: case 6: if (!m.res) { m.res.reset(wickr_transport_handshake_finalize(m.h.p)); log += m.res ? "fin;" : "nofin;"; } break;
        }
    }
    Bytes look() override {
        V v; v.t = log;
        for (int i = 0; i < 2; i++) { End &m = e[i]; v.n(m.h ? wickr_transport_handshake_get_status(m.h.p) : 99); if (m.h) { v.v(wickr_transport_handshake_get_local_identity(m.h.p)); v.v(wickr_transport_handshake_get_remote_identity(m.h.p)); } if (m.res) { v.v(wickr_transport_handshake_res_get_local_key(m.res.p)); v.v(wickr_transport_handshake_res_get_remote_key(m.res.p)); } }
        return v.t;
    }
    Obj *copy(int64_t side, const std::function<std::unique_ptr<Obj>()> &rebuild) override {
        std::unique_ptr<Obj> qo; { PauseFaults pf; qo = rebuild(); } HsObj *q = (HsObj *)qo.get(); if (!q) return nullptr;
        for (int i = 0; i < 2; i++) if (side % 3 == 2 || side % 3 == i) {
            if (!e[i].h) continue;
            wickr_transport_handshake_t *c = wickr_transport_handshake_copy(e[i].h.p); if (!c) return nullptr;
            if (wickr_transport_handshake_get_user_data(c) != &e[i]) { g.fail("C15", "copy-differs", "the copy of a handshake has lost its user data"); wickr_transport_handshake_destroy(&c); return nullptr; }
            wickr_transport_set_user_data(c, &q->e[i]); q->e[i].h.reset(c);
            if (e[i].res) { wickr_transport_handshake_res_t *r = wickr_transport_handshake_res_copy(e[i].res.p); if (!r) return nullptr; q->e[i].res.reset(r); }
        }
        return qo.release();
    }
};
// a pair of sessions
struct SesObj : Obj {
    struct End { OTransport t; std::deque<Bytes> out; wickr_transport_validate_identity_callback cb = nullptr; SesObj *o = nullptr; int i = 0, policy = 0; } e[2];
    Bytes log; int64_t cfg; uint64_t n = 0;
    static End *end(const wickr_transport_ctx_t *c) { return (End *)wickr_transport_ctx_get_user_ctx(c); }
    static void tx(const wickr_transport_ctx_t *c, wickr_buffer_t *d) { PauseFaults pf; OBuf b(d); End *e = end(c); e->out.push_back(B(b)); e->o->log += std::string(e->i ? "b" : "a") + "tx" + std::to_string(b.p->length) + ";"; }
    static void rx(const wickr_transport_ctx_t *c, wickr_buffer_t *d) { PauseFaults pf; OBuf b(d); End *e = end(c); e->o->log += std::string(e->i ? "b" : "a") + "rx" + std::to_string(fnv(B(b))) + ";"; g.progress(); }
    static void st(const wickr_transport_ctx_t *c, wickr_transport_status s) { PauseFaults pf; End *e = end(c); e->o->log += std::string(e->i ? "b" : "a") + "st" + std::to_string((int)s) + ";"; }
    static void id(const wickr_transport_ctx_t *c, wickr_identity_chain_t *i, wickr_transport_validate_identity_callback done) {
        End *e = end(c); { PauseFaults pf; OChain ch(i); V v; v.v(ch.p); e->o->log += std::string(e->i ? "b" : "a") + "id" + std::to_string(fnv(v.t)) + ";"; }
        if (e->policy == 1) { e->cb = done; return; }
        done(c, e->policy == 0);
    }
    explicit SesObj(int64_t c) : cfg(c) {
        wickr_transport_callbacks_t cb = {tx, rx, st, id};
        for (int i = 0; i < 2; i++) {
            e[i].o = this; e[i].i = i; bool pin = c >> i & 1; e[i].policy = (c >> (2 + i) & 1) ? 1 : 0;
            wickr_identity_chain_t *l = pool_chain(i, true), *r = pin ? pool_chain(1 - i, false) : nullptr;
            static const uint32_t evo[] = {1, 2, 3, 7, 0, 32768};
            e[i].t.reset(wickr_transport_ctx_create(ENG, l, r, evo[(c >> 4) % 6], cb, &e[i]));
            if (!e[i].t) { wickr_identity_chain_destroy(&l); if (r) wickr_identity_chain_destroy(&r); }
        }
    }
    void act(int a, int64_t x, int64_t y) override {
        int i = (int)(x & 1); End &m = e[i]; if (!m.t) return;
        log += std::to_string(a % 8) + (i ? "b:" : "a:");
        switch (a % 8) {
            case 0: wickr_transport_ctx_start(m.t.p); break;
            case 1: case 2: case 3: case 4: {
                End &o = e[1 - i]; for (int k = 0; k < (a % 8 == 4 ? 3 : 1) && !o.out.empty(); k++) { Bytes b = o.out.front(); o.out.pop_front(); if (y % 40 == 7 && b.size() > 9) b[9 + (size_t)y % (b.size() - 9)] ^= 4;   /* not in the sequence number: see the known finding of C14 */
                     if (y % 10 == 1) { log += "lost;"; continue; } OBuf q = Q(b); wickr_transport_ctx_process_rx_buffer(m.t.p, q.p); }
                break;
            }
            case 5: case 6: { if (wickr_transport_ctx_get_status(m.t.p) != TRANSPORT_STATUS_ACTIVE && y % 16) break; Rng r((uint64_t)(y * 7 + x)); OBuf q = Q(r.bytes(1 + (size_t)(y % 90))); wickr_transport_ctx_process_tx_buffer(m.t.p, q.p); break; }
            case 7: if (m.cb) { auto cb = m.cb; m.cb = nullptr; cb(m.t.p, y % 8 != 3); } break;
        }
    }
    Bytes look() override {
        V v; v.t = log;
        for (int i = 0; i < 2; i++) { if (!e[i].t) { v.t += "none"; continue; } v.n(wickr_transport_ctx_get_status(e[i].t.p)); v.n(wickr_transport_ctx_get_last_error(e[i].t.p)); v.v(wickr_transport_ctx_get_local_identity_ptr(e[i].t.p)); v.v(wickr_transport_ctx_get_remote_identity_ptr(e[i].t.p)); v.n(e[i].out.size()); }
        return v.t;
    }
    Obj *copy(int64_t side, const std::function<std::unique_ptr<Obj>()> &rebuild) override {
        std::unique_ptr<Obj> qo; { PauseFaults pf; qo = rebuild(); } SesObj *q = (SesObj *)qo.get(); if (!q) return nullptr;
        for (int i = 0; i < 2; i++) if (side % 3 == 2 || side % 3 == i) {
            if (!e[i].t) continue;
            wickr_transport_ctx_t *c = wickr_transport_ctx_copy(e[i].t.p); if (!c) return nullptr;
            if (wickr_transport_ctx_get_user_ctx(c) != &e[i]) { g.fail("C15", "copy-differs", "the copy of a session has lost its user pointer"); wickr_transport_ctx_destroy(&c); return nullptr; }
            wickr_transport_ctx_set_user_ctx(c, &q->e[i]); q->e[i].t.reset(c);
            g.stat(wickr_transport_ctx_get_status(e[i].t.p) == TRANSPORT_STATUS_ACTIVE ? "copied_active_session" : "copied_inactive_session");
        }
        return qo.release();
    }
};

enum { T_CTX, T_NODE, T_CHAIN, T_IDENT, T_ECKEY, T_CKEY, T_EPH, T_ROOT, T_STORAGE, T_DEVINFO, T_KDFMETA, T_KDFRES, T_TROOT, T_SKEY, T_SIG, T_CRES, T_PAYLOAD, T_META, T_PACKET, T_PARSE, T_ENC, T_DEC, T_EXCH, T_EXSET, T_GEN, T_FINGER, T_TPKT, T_ECDH, T_BUF, T_NODES, T_EXARR, T_HS, T_SES, T_N };
const char *tname[] = {"device context", "recipient device", "identity chain", "identity", "key pair", "cipher key", "message key", "root keys", "storage keys", "device information", "kdf parameters", "kdf result", "session root key", "stream key", "signature", "cipher result", "payload", "payload metadata", "packet", "parse result", "encoder result", "decode result", "key exchange", "key exchange set", "generated context", "fingerprint", "session packet", "ecdh context", "buffer", "recipient list", "key exchange list", "handshake", "session"};
Obj *make(int kind, int64_t v) {
    PauseFaults pf; reseed(0xABC0 + (uint64_t)kind * 97 + (uint64_t)v);
    switch (kind) {
        case T_CTX: return val<wickr_ctx_t>(a_ctx((int)(v % NPOOL)), {wickr_ctx_copy, wickr_ctx_destroy, [](wickr_ctx_t *c, int a, int64_t x, int64_t) { if (a % 3 == 1) c->pkt_enc_version = (uint8_t)(2 + x % 3); else (void)wickr_identity_chain_validate(c->id_chain, &ENG); }, ask_ctx});
        case T_NODE: return val<wickr_node_t>(a_node(E_->rcv.p, big((uint64_t)v), v & 1), {wickr_node_copy, wickr_node_destroy, [](wickr_node_t *n, int a, int64_t x, int64_t y) {
                if (a % 3 == 1) { (void)wickr_node_verify_signature_chain(n, &ENG); return; }
                OEph e(wickr_ctx_ephemeral_keypair_gen((x & 2 ? E_->rcv : E_->snd).p, (uint64_t)y)); if (!e) return;
                if (wickr_node_rotate_keypair(n, e.p, x & 1) && !(x & 1)) e.release();
            }, ask_node});
        case T_CHAIN: return val<wickr_identity_chain_t>(pool_chain((int)(v / 2 % NPOOL), v & 1), {wickr_identity_chain_copy, wickr_identity_chain_destroy, [](wickr_identity_chain_t *c, int, int64_t, int64_t) { (void)wickr_identity_chain_validate(c, &ENG); }, ask_chain});
        case T_IDENT: { OChain c(pool_chain((int)(v / 4 % NPOOL), v & 1)); if (!c) return nullptr; wickr_identity_t *i = v & 2 ? c->root : c->node; (v & 2 ? c->root : c->node) = nullptr;
            if (i && v % 3 == 2) { wickr_buffer_destroy(&i->identifier); i->identifier = mkbuf(Rng((uint64_t)v).bytes(1 + (size_t)(v / 3 % 127))); }
            return val<wickr_identity_t>(i, {wickr_identity_copy, wickr_identity_destroy, nullptr, [](wickr_identity_t *i, int64_t x) { if (x % 2) return S(wickr_identity_serialize(i)); OBuf m = Q("text"); OSig s(wickr_identity_sign(i, &ENG, m.p)); OFinger f(wickr_identity_get_fingerprint(i, ENG)); V v; v.v(s.p); v.v(f.p); return v.t; }}); }
        case T_ECKEY: { OBuf b = Q(pool_ec[(size_t)v % 8]); OEc k(RAW.wickr_crypto_engine_ec_key_import(b.p, true)); if (k && v & 1) wickr_buffer_destroy(&k->pri_data); return val<wickr_ec_key_t>(k.release(), {wickr_ec_key_copy, wickr_ec_key_destroy, nullptr, nullptr}); }
        case T_CKEY: return val<wickr_cipher_key_t>(RAW.wickr_crypto_engine_cipher_key_random(v & 1 ? CIPHER_AES256_CTR : CIPHER_AES256_GCM), {wickr_cipher_key_copy, wickr_cipher_key_destroy, nullptr, [](wickr_cipher_key_t *k, int64_t) { OBuf p = Q("abc"); OCipher c(ENG.wickr_crypto_engine_cipher_encrypt(p.p, NULL, k, NULL)); V v; v.v(c.p); return v.t + S(wickr_cipher_key_serialize(k)); }});
        case T_EPH: return val<wickr_ephemeral_keypair_t>(wickr_ctx_ephemeral_keypair_gen(E_->snd.p, big((uint64_t)v)), {wickr_ephemeral_keypair_copy, wickr_ephemeral_keypair_destroy, [](wickr_ephemeral_keypair_t *k, int, int64_t x, int64_t) { k->identifier += (uint64_t)x; }, [](wickr_ephemeral_keypair_t *k, int64_t) { return S(wickr_ephemeral_keypair_serialize(k)); }});
        case T_ROOT: return val<wickr_root_keys_t>(pool_root((int)(v % NPOOL)), {wickr_root_keys_copy, wickr_root_keys_destroy, nullptr, [](wickr_root_keys_t *k, int64_t x) { if (x % 2) return S(wickr_root_keys_serialize(k)); OStorage s(wickr_root_keys_localize(k, &ENG, E_->snd->dev_info)); V v; v.v(s.p); return v.t; }});
        case T_STORAGE: return val<wickr_storage_keys_t>(wickr_storage_keys_create(RAW.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM), RAW.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM)), {wickr_storage_keys_copy, wickr_storage_keys_destroy, nullptr, [](wickr_storage_keys_t *k, int64_t) { return S(wickr_storage_keys_serialize(k)); }});
        case T_DEVINFO: return val<wickr_dev_info_t>(devinfo((int)(v % 40)), {wickr_dev_info_copy, wickr_dev_info_destroy, nullptr, nullptr});
        case T_KDFMETA: case T_KDFRES: {
            OBuf pw = Q(PW); OKdf r(RAW.wickr_crypto_kdf_gen(v & 1 ? KDF_SCRYPT_2_17 : KDF_BCRYPT_15, pw.p)); if (!r) return nullptr;
            if (kind == T_KDFRES) return val<wickr_kdf_result_t>(r.release(), {wickr_kdf_result_copy, wickr_kdf_result_destroy, nullptr, nullptr});
            OKdfMeta m(v & 2 ? wickr_kdf_meta_create(KDF_HKDF_SHA512, mkbuf(Bytes(64, 's')), mkbuf(Bytes(v % 3 ? (size_t)(1 + v % 20) : some_size((uint64_t)v / 3), 'i'))) : r->meta); if (m.p == r->meta) r->meta = nullptr;
            return val<wickr_kdf_meta_t>(m.release(), {wickr_kdf_meta_copy, wickr_kdf_meta_destroy, nullptr, [](wickr_kdf_meta_t *m, int64_t) { OBuf p = Q(PW); OKdf r(ENG.wickr_crypto_kdf_meta(m, p.p)); V v; v.v(r.p); return v.t + S(wickr_kdf_meta_serialize(m)); }}); }
        case T_TROOT: return val<wickr_transport_root_key_t>(wickr_transport_root_key_create_random(&RAW, CIPHER_AES256_GCM, interval((uint64_t)v), interval((uint64_t)v / 7)), {wickr_transport_root_key_copy, wickr_transport_root_key_destroy, nullptr, [](wickr_transport_root_key_t *k, int64_t x) { OBuf s = Q(Bytes(64, 's')), i = Q(Bytes(8, 'i')); OSKey a(wickr_transport_root_key_to_stream_key(k, &ENG, s.p, i.p, x & 1 ? STREAM_DIRECTION_ENCODE : STREAM_DIRECTION_DECODE)); V v; v.v(a.p); return v.t; }});
        case T_SKEY: { OSKey k(wickr_stream_key_create_rand(RAW, CIPHER_AES256_GCM, interval((uint64_t)v))); if (k && v & 1) k->user_data = mkbuf(Rng((uint64_t)v).bytes(some_size((uint64_t)v / 2))); if (k && v % 5 == 4) { wickr_buffer_destroy(&k->evolution_key); k->evolution_key = mkbuf(Rng((uint64_t)v + 1).bytes(1 + (size_t)(v % 200))); } return val<wickr_stream_key_t>(k.release(), {wickr_stream_key_copy, wickr_stream_key_destroy, [](wickr_stream_key_t *k, int, int64_t x, int64_t) { k->packets_per_evolution = 1 + (uint32_t)(x % 500); }, [](wickr_stream_key_t *k, int64_t) { return S(wickr_stream_key_serialize(k)); }}); }
        case T_SIG: { OBuf m = Q("signed"); return val<wickr_ecdsa_result_t>(wickr_identity_sign(E_->snd->id_chain->node, &RAW, m.p), {wickr_ecdsa_result_copy, wickr_ecdsa_result_destroy, nullptr, [](wickr_ecdsa_result_t *s, int64_t) { OBuf m = Q("signed"); V v; v.n(ENG.wickr_crypto_engine_ec_verify(s, E_->snd->id_chain->node->sig_key, m.p)); return v.t + S(wickr_ecdsa_result_serialize(s)); }}); }
        case T_CRES: { OKey k(wickr_cipher_key_create(v & 1 ? CIPHER_AES256_CTR : CIPHER_AES256_GCM, mkbuf(Bytes(32, 'q')))); OBuf p = Q(Bytes(some_size((uint64_t)v), 'p')); return val<wickr_cipher_result_t>(RAW.wickr_crypto_engine_cipher_encrypt(p.p, NULL, k.p, NULL), {wickr_cipher_result_copy, wickr_cipher_result_destroy, nullptr, [](wickr_cipher_result_t *c, int64_t) { OKey k(wickr_cipher_key_create(c->cipher, mkbuf(Bytes(32, 'q')))); return S(ENG.wickr_crypto_engine_cipher_decrypt(c, NULL, k.p, false)) + S(wickr_cipher_result_serialize(c)); }}); }
        case T_PAYLOAD: return val<wickr_payload_t>(a_payload((uint64_t)v), {wickr_payload_copy, wickr_payload_destroy, [](wickr_payload_t *p, int, int64_t x, int64_t) { p->meta->ephemerality_settings.ttl += (uint64_t)x; }, [](wickr_payload_t *p, int64_t) { return S(wickr_payload_serialize(p)); }});
        case T_META: { OPayload p(a_payload((uint64_t)v)); wickr_packet_meta_t *m = p->meta; p->meta = nullptr; return val<wickr_packet_meta_t>(m, {wickr_packet_meta_copy, wickr_packet_meta_destroy, [](wickr_packet_meta_t *p, int, int64_t x, int64_t) { p->content_type = (uint16_t)x; }, nullptr}); }
        case T_PACKET: return val<wickr_packet_t>(wickr_packet_create_from_buffer(E_->wire.p), {wickr_packet_copy, wickr_packet_destroy, [](wickr_packet_t *p, int, int64_t x, int64_t) { p->version = (uint8_t)(2 + x % 3); }, [](wickr_packet_t *p, int64_t) { OBuf b(wickr_packet_serialize(p)); Bytes o = B(b); OCtxPacket c(b ? wickr_ctx_parse_packet(E_->rcv.p, b.p, E_->sndpub.p) : nullptr); ODec d(c ? wickr_ctx_decode_packet(E_->rcv.p, c.p, E_->rkey.p) : nullptr); V v; v.v(d.p); return o + v.t; }});
        case T_PARSE: case T_DEC: {
            OCtxPacket c(v % 5 == 3 ? wickr_ctx_parse_packet_no_decode(E_->rcv.p, E_->wire.p, E_->sndpub.p) : wickr_ctx_parse_packet(E_->rcv.p, E_->wire.p, v % 5 == 4 ? E_->rcv->id_chain : E_->sndpub.p)); if (!c) return nullptr;
            if (kind == T_DEC) { ODec d(v % 5 == 2 ? wickr_decode_result_create_failure(ERROR_NODE_NOT_FOUND) : wickr_ctx_decode_packet(E_->rcv.p, c.p, E_->rkey.p)); return val<wickr_decode_result_t>(d.release(), {wickr_decode_result_copy, wickr_decode_result_destroy, [](wickr_decode_result_t *d, int, int64_t x, int64_t) { if (d->decrypted_payload) d->decrypted_payload->meta->content_type = (uint16_t)x; }, [](wickr_decode_result_t *d, int64_t) { return d->decrypted_payload ? S(wickr_payload_serialize(d->decrypted_payload)) : Bytes("none"); }}); }
            wickr_parse_result_t *r = c->parse_result; c->parse_result = nullptr;
            return val<wickr_parse_result_t>(r, {wickr_parse_result_copy, wickr_parse_result_destroy, [](wickr_parse_result_t *r, int, int64_t x, int64_t) { if (r->key_exchange) r->key_exchange->key_id += (uint64_t)x; }, [](wickr_parse_result_t *r, int64_t x) {
                // a copied result used in place of the original
                OPacket k(wickr_packet_create_from_buffer(E_->wire.p)); OParse c(wickr_parse_result_copy(r)); V v; if (!k || !c) return Bytes("-");
                if (x % 2 && r->key_exchange_set) return ask_exset(r->key_exchange_set, x);
                OCtxPacket cp(wickr_ctx_packet_create(k.p, E_->sndpub.p ? wickr_identity_chain_copy(E_->sndpub.p) : nullptr, c.p)); if (!cp) return Bytes("-"); k.release(); c.release();
                ODec d(wickr_ctx_decode_packet(E_->rcv.p, cp.p, E_->rkey.p)); v.v(d.p); return v.t; }}); }
        case T_ENC: return val<wickr_encoder_result_t>(encode_env((uint64_t)v), {wickr_encoder_result_copy, wickr_encoder_result_destroy, nullptr, [](wickr_encoder_result_t *e, int64_t) { return S(wickr_packet_serialize(e->packet)); }});
        case T_EXCH: { OCtxPacket c(wickr_ctx_parse_packet(E_->rcv.p, E_->wire.p, E_->sndpub.p)); if (!c || !c->parse_result || !c->parse_result->key_exchange) return nullptr; wickr_key_exchange_t *x = c->parse_result->key_exchange; c->parse_result->key_exchange = nullptr; return val<wickr_key_exchange_t>(x, {wickr_key_exchange_copy, wickr_key_exchange_destroy, [](wickr_key_exchange_t *k, int, int64_t x, int64_t) { k->key_id += (uint64_t)x; }, [](wickr_key_exchange_t *x, int64_t) { OEc sp(wickr_ec_key_copy(E_->enc ? E_->snd->id_chain->node->sig_key : nullptr)); OKey k(wickr_key_exchange_derive_packet_key(&ENG, E_->sndpub.p, E_->rnode.p, sp.p, x, NULL, 4)); V v; v.v(k.p); return v.t; }}); }
        case T_EXSET: { OCtxPacket c(wickr_ctx_parse_packet(E_->rcv.p, E_->wire.p, E_->sndpub.p)); if (!c || !c->parse_result) return nullptr; wickr_key_exchange_set_t *s = c->parse_result->key_exchange_set; c->parse_result->key_exchange_set = nullptr; return val<wickr_key_exchange_set_t>(s, {wickr_key_exchange_set_copy, wickr_key_exchange_set_destroy, nullptr, ask_exset}); }
        case T_GEN: return val<wickr_ctx_gen_result_t>(gen_result((int)(v % NPOOL)), {wickr_ctx_gen_result_copy, wickr_ctx_gen_result_destroy, nullptr, [](wickr_ctx_gen_result_t *r, int64_t x) { OBuf pw = Q(PW); if (x % 3 == 0) return S(wickr_ctx_gen_result_make_recovery(r)); if (x % 3 == 1) return S(wickr_ctx_gen_export_recovery_key_passphrase(r, pw.p)); return ask_ctx(r->ctx, x / 3); }});
        case T_FINGER: return val<wickr_fingerprint_t>(wickr_identity_get_fingerprint((v & 1 ? E_->snd : E_->rcv)->id_chain->root, RAW), {wickr_fingerprint_copy, wickr_fingerprint_destroy, nullptr, [](wickr_fingerprint_t *f, int64_t x) { return S(wickr_fingerprint_get_b32(f, x & 1 ? FINGERPRINT_OUTPUT_SHORT : FINGERPRINT_OUTPUT_LONG)) + S(wickr_fingerprint_get_hex(f, x & 1 ? FINGERPRINT_OUTPUT_SHORT : FINGERPRINT_OUTPUT_LONG)); }});
        case T_TPKT: {
            wickr_transport_packet_meta_t m; if (v & 1) wickr_transport_packet_meta_initialize_handshake(&m, 1, TRANSPORT_MAC_TYPE_EC_P521); else wickr_transport_packet_meta_initialize_data(&m, big((uint64_t)v * 3), TRANSPORT_MAC_TYPE_AUTH_CIPHER);
            if (v % 5 == 4) {       // a packet as received: the opening of a handshake, which a responder then answers
                wickr_identity_chain_t *l = pool_chain(0, true); OHandshake h(wickr_transport_handshake_create(RAW, l, NULL, accept_id, 20, NULL)); if (!h) { wickr_identity_chain_destroy(&l); return nullptr; }
                OTPacket st(wickr_transport_handshake_start(h.p)); OBuf b(wickr_transport_packet_serialize(st.p)); OTPacket q(wickr_transport_packet_create_from_buffer(b.p));
                return val<wickr_transport_packet_t>(q.release(), {wickr_transport_packet_copy, wickr_transport_packet_destroy, nullptr, [](wickr_transport_packet_t *p, int64_t x) {
                    if (x % 2) return S(wickr_transport_packet_serialize(p));
                    wickr_identity_chain_t *l = pool_chain(1, true), *r = x % 4 ? nullptr : pool_chain(0, false); OHandshake h(wickr_transport_handshake_create(ENG, l, r, accept_id, 20, NULL)); if (!h) { wickr_identity_chain_destroy(&l); wickr_identity_chain_destroy(&r); return Bytes("-"); }
                    OTPacket a(wickr_transport_handshake_process(h.p, p)); if (!a) a.reset(wickr_transport_handshake_verify_identity(h.p, true));
                    V o; o.n(wickr_transport_handshake_get_status(h.p)); OHRes f(wickr_transport_handshake_finalize(h.p)); if (f) { o.v(wickr_transport_handshake_res_get_local_key(f.p)); o.v(wickr_transport_handshake_res_get_remote_key(f.p)); } return o.t + S(wickr_transport_packet_serialize(a.p)); }, true});
            }
            wickr_buffer_t *body = mkbuf(Bytes(some_size((uint64_t)v), 'b')); OTPacket p(wickr_transport_packet_create(m, body)); if (!p) { wickr_buffer_destroy(&body); return nullptr; }
            if (v & 1 && v & 2) (void)wickr_transport_packet_sign(p.p, &RAW, E_->snd->id_chain);
            return val<wickr_transport_packet_t>(p.release(), {wickr_transport_packet_copy, wickr_transport_packet_destroy, [](wickr_transport_packet_t *p, int, int64_t, int64_t) { (void)wickr_transport_packet_sign(p, &ENG, E_->snd->id_chain); }, [](wickr_transport_packet_t *p, int64_t) { V v; v.n(wickr_transport_packet_verify(p, &ENG, E_->sndpub.p)); return v.t + S(wickr_transport_packet_serialize(p)); }, true}); }
        case T_ECDH: { OBuf b = Q(pool_ec[(size_t)v % 8]); OEc k(RAW.wickr_crypto_engine_ec_key_import(b.p, true)); OEcdh x(wickr_ecdh_cipher_ctx_create_key(ENG, k.p, v & 1 ? CIPHER_AES256_CTR : CIPHER_AES256_GCM)); if (x) k.release(); return val<wickr_ecdh_cipher_ctx_t>(x.release(), {wickr_ecdh_cipher_ctx_copy, wickr_ecdh_cipher_ctx_destroy, nullptr, [](wickr_ecdh_cipher_ctx_t *x, int64_t) { OKdfMeta m(wickr_kdf_meta_create(KDF_HKDF_SHA512, mkbuf(Bytes(64, 1)), mkbuf(Bytes(8, 2)))); OBuf p = Q("for you"); OCipher c(wickr_ecdh_cipher_ctx_cipher(x, p.p, E_->snd->id_chain->node->sig_key, m.p)); V v; v.v(c.p); Bytes o = v.t; if (c) o += S(wickr_ecdh_cipher_ctx_decipher(x, c.p, E_->snd->id_chain->node->sig_key, m.p)); return o; }}); }
        case T_BUF: return new BufObj(mkbuf(Rng((uint64_t)v).bytes(some_size((uint64_t)v))));
        case T_NODES: {
            uint32_t cnt = v % 11 == 10 ? (uint32_t)(60 + v % 80) : (uint32_t)(1 + v % 3);
            wickr_array_t *a = wickr_node_array_new(cnt); if (!a) return nullptr;
            for (uint32_t i = 0; i < cnt; i++) {
                if (v % 7 == 6 && i) continue;
                wickr_node_t *n = i < 4 ? a_node((i & 1 ? E_->snd : E_->rcv).p, i + 1, false) : wickr_node_copy((wickr_node_t *)wickr_node_array_fetch_item(a, i % 4));
                if (n) { if (i >= 4 && n->ephemeral_keypair) n->ephemeral_keypair->identifier = i; wickr_node_array_set_item(a, i, n); }
            }
            return new ArrObj(a, true); }
        case T_EXARR: { uint32_t n = v % 11 == 10 ? (uint32_t)(60 + v % 300) : (uint32_t)(v % 4); wickr_array_t *a = wickr_exchange_array_new(n); if (!a) return nullptr; OKey k(wickr_cipher_key_create(CIPHER_AES256_GCM, mkbuf(Bytes(32, 'q')))); for (uint32_t i = 0; i < n; i++) { if (v % 7 == 6 && i) continue; OBuf pt = Q(Bytes(33, (char)i)); wickr_exchange_array_set_item(a, i, wickr_key_exchange_create(mkbuf(Bytes(32, (char)('x' + i))), big(i + (uint64_t)v), RAW.wickr_crypto_engine_cipher_encrypt(pt.p, NULL, k.p, NULL))); } return new ArrObj(a, false); }
        case T_HS: return new HsObj(v);
        case T_SES: return new SesObj(v);
    }
    return nullptr;
}

// ---------------------------------------------------------------- the world
struct Item { int kind = 0, root = 0; int64_t v = 0; std::unique_ptr<Obj> o, twin; std::vector<Ev> hist; bool poisoned = false, family = false; };
struct W_ { std::map<int, Item> it; uint64_t n = 0; bool lock = true; };
W_ *W;
std::unique_ptr<Obj> rebuild(const Item &i) {
    PauseFaults pf;
    std::unique_ptr<Obj> t(make(i.kind, i.v)); if (!t) return t;
    for (auto &e : i.hist) { reseed(e.seed); t->act(e.act, e.x, e.y); }
    return t;
}
std::string show(const Bytes &b, size_t k) { std::string o; for (size_t i = k > 20 ? k - 20 : 0; i < b.size() && i < k + 30; i++) { unsigned char c = (unsigned char)b[i]; char t[8]; if (c >= 32 && c < 127) o += (char)c; else { snprintf(t, sizeof t, "\\%02x", c); o += t; } } return o; }
void compare(int id, Item &i, int64_t q) {
    if (!W->lock || i.poisoned || !i.o || !i.twin || g.failed()) return;
    PauseFaults pf; uint64_t s = ++W->n + 1000000;
    Bytes a, b;
    if (q < 0) { a = i.o->look(); b = i.twin->look(); }
    else { reseed(s); a = i.o->ask(q); reseed(s); b = i.twin->ask(q); g.cover(hmix(hmix(15, (uint64_t)i.kind), hmix((uint64_t)q % 8, fnv(a) % 2 + i.family * 2))); }
    if (a != b) { size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) k++; g.log("%zu and %zu bytes differ at %zu: %s vs %s", a.size(), b.size(), k, show(a, k).c_str(), show(b, k).c_str()); }
    if (a != b) g.fail("C15", std::string(i.family ? "copy-differs" : "not-repeatable") + ":" + tname[i.kind], "%s %d (%s) %s than one with the same history that was never copied", tname[i.kind], id, i.family ? "copied" : "not copied", q < 0 ? "is different" : "answers differently");
}
bool setup() {
    PauseFaults pf; reseed(1); E_->snd.reset(a_ctx(0)); reseed(2); E_->rcv.reset(a_ctx(1)); if (!E_->snd || !E_->rcv) return false;
    reseed(3); OEph e(wickr_ctx_ephemeral_keypair_gen(E_->rcv.p, 55)); if (!e) return false;
    E_->rkey.reset(wickr_ec_key_copy(e->ec_key)); OChain ch(wickr_identity_chain_copy(E_->rcv->id_chain)); OBuf id = Q(B(E_->rcv->dev_info->msg_proto_id));
    E_->rnode.reset(wickr_node_create(id.p, ch.p, e.p)); if (!E_->rnode) return false; id.release(); ch.release(); e.release();
    OBuf cs(wickr_identity_chain_serialize(E_->snd->id_chain)); E_->sndpub.reset(wickr_identity_chain_create_from_buffer(cs.p, &RAW));
    reseed(4); E_->enc.reset(encode_env(5)); if (!E_->enc) return false;
    E_->wire.reset(wickr_packet_serialize(E_->enc->packet));
    return E_->wire && E_->sndpub && E_->rkey;
}
Item *get(int64_t id) { auto f = W->it.find((int)id); return f == W->it.end() ? nullptr : &f->second; }
void exec(const Op &op) {
    const std::string &k = op.kind; g.sim_time++;
    if (k == "new") {
        int id = (int)op.arg(0); if (W->it.count(id) || W->it.size() > 14) return;
        Item i; i.kind = (int)(op.arg(1) % T_N); i.root = id; i.v = op.arg(2);
        i.o.reset(make(i.kind, i.v)); if (!i.o) { g.stat(std::string("unmade:") + tname[i.kind]); return; }
        if (W->lock) i.twin.reset(make(i.kind, i.v));
        g.log("new %d: %s", id, tname[i.kind]);
        W->it[id] = std::move(i); return;
    }
    Item *i = get(op.arg(0)); if (!i) return;
    if (k == "act") {
        Ev e{(int)op.arg(1), op.arg(2), op.arg(3), ++W->n};
        if (!W->lock) e.seed = 0; else reseed(e.seed);
        g.log("act %d %d", (int)op.arg(0), e.act);
        bool hurt;
        { FaultScope fs(op); i->o->act(e.act, e.x, e.y); hurt = fs.any(); }
        if (hurt) { i->poisoned = true; i->twin.reset(); }
        else { i->hist.push_back(e); if (i->twin) { PauseFaults pf; reseed(e.seed); i->twin->act(e.act, e.x, e.y); } }
        if (i->family) g.progress();
        g.cover(hmix(hmix(16, (uint64_t)i->kind), hmix((uint64_t)e.act % 24, i->family * 2 + hurt)));
    } else if (k == "copy") {
        int id = (int)op.arg(1); if (W->it.count(id) || W->it.size() > 14) return;
        Item c; c.kind = i->kind; c.root = i->root; c.v = i->v; c.hist = i->hist; c.family = true; c.poisoned = i->poisoned;
        if (i->poisoned && (i->kind == T_HS || i->kind == T_SES)) return;      // its peer cannot be rebuilt
        if (i->poisoned || !W->lock) c.poisoned = true;
        if (W->lock) reseed(++W->n + 500000);
        bool fired; Obj *n;
        { FaultScope fs(op); n = i->o->copy(W->lock ? op.arg(2) : 2, [&]() { return rebuild(*i); }); fired = fs.any(); }
        if (g.failed()) { delete n; return; }
        g.log("copy %d -> %d: %s", (int)op.arg(0), id, n ? "made" : "failed");
        if (!n) { if (!fired && !i->poisoned) g.fail("C15", std::string("copy-refused:") + tname[i->kind], "a %s cannot be copied", tname[i->kind]); return; }
        c.o.reset(n); if (!c.poisoned) c.twin = rebuild(*i);
        i->family = true; g.fault_event("copy"); g.stat(std::string("copies:") + tname[i->kind]);
        if (W->lock) reseed(++W->n + 600000);
        W->it[id] = std::move(c);
        compare(id, W->it[id], -1);
    } else if (k == "ask") { compare((int)op.arg(0), *i, op.arg(1)); if (!i->poisoned) g.progress(); }
    else if (k == "drop") { g.fault_event("destroyed"); g.log("drop %d", (int)op.arg(0)); W->it.erase((int)op.arg(0)); }
    for (auto &x : W->it) { if (g.failed()) break; compare(x.first, x.second, -1); }
}
void run(const Plan &p) {
    W_ w; W = &w; Env env; E_ = &env; w.lock = g_lock = p.prop != "C04";
    obs.record_kiv = false;
    if (!setup()) { g.log("set-up impossible"); g.stat("setup_failed"); env = Env(); W = nullptr; return; }
    obs.record_kiv = p.prop == "C04";
    for (auto &op : p.ops) { exec(op); g.steps++; if (g.failed()) break; }
    // at the end every object still behaves
    if (w.lock) for (auto &x : w.it) for (int q = 0; q < 3 && !g.failed(); q++) compare(x.first, x.second, (int64_t)(x.first * 3 + q));
    while (!w.it.empty() && !g.failed()) { w.it.erase(w.it.begin()); for (auto &x : w.it) compare(x.first, x.second, -1); }
    w.it.clear(); env = Env(); E_ = nullptr;
    check_leaks("C14");
    W = nullptr;
}
void gen(const std::string &prop, Rng &r, Plan &p) {
    int next = 1; std::vector<std::pair<int, int>> live;        // id, kind
    bool nolock = prop == "C04";
    int groups = nolock ? 1 : 1 + (int)r.below(3);
    for (int i = 0; i < groups; i++) {
        int k = nolock ? (int)T_SES : r.chance(1, 3) ? (int)T_SES - (int)r.below(2) : r.chance(1, 4) ? (int)r.below(3) : (int)r.below(T_N);
        int id = next++; p.op("new", {id, k, (int64_t)r.below(1 << 12)}); live.push_back({id, k});
    }
    auto act = [&](int id, int k) {
        if (k == T_SES) { static const int a[] = {1, 2, 3, 4, 5, 6, 5, 6, 7}; p.op("act", {id, a[r.below(9)], (int64_t)r.below(2), (int64_t)r.below(1000)}); }
        else if (k == T_HS) { static const int a[] = {0, 1, 2, 3, 1, 4, 4, 5, 6}; p.op("act", {id, a[r.below(9)], (int64_t)r.below(2), (int64_t)r.below(1000)}); }
        else p.op("act", {id, (int64_t)(r.chance(1, 2) ? 1 + r.below(2) : r.below(3)), (int64_t)r.below(1000), (int64_t)r.below(1000)});
    };
    for (auto &l : live) if (l.second == T_SES || l.second == T_HS) {        // get somewhere first
        int who = (int)r.below(2), upto = (int)r.below(7);
        static const int ses[] = {0, 4, 7, 4, 7, 5, 4}; static const int hs[] = {0, 1, 4, 1, 4, 5, 5};
        for (int i = 0; i < upto + (nolock ? 7 : 0) && i < 7; i++) { int side = (i == 0 || i == 3 || i == 4 || i == 6) ? who : i == 5 ? who : 1 - who; p.op("act", {l.first, l.second == T_SES ? ses[i] : hs[i], side, 8}); }
    }
    int n = 12 + (int)r.below(30);
    for (int i = 0; i < n && !live.empty(); i++) {
        auto l = live[r.below(live.size())]; int c = (int)r.below(10);
        if (c < 2 && live.size() < 9) { int id = next++; p.op("copy", {l.first, id, (int64_t)r.below(6)}); live.push_back({id, l.second}); }
        else if (c < 7) act(l.first, l.second);
        else if (c < 9) { if (nolock) act(l.first, l.second); else p.op("ask", {l.first, (int64_t)r.below(1000)}); }
        else if (live.size() > 1 && r.chance(1, 2)) { p.op("drop", {l.first}); live.erase(std::find(live.begin(), live.end(), l)); }
    }
    if (r.chance(1, 3)) {
        std::vector<size_t> c; for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].kind == "copy" || p.ops[i].kind == "act") c.push_back(i);
        int k = 1 + (int)r.below(2); for (int i = 0; i < k && !c.empty(); i++) { Op &o = p.ops[r.pick(c)]; int fk = nolock && r.chance(1, 2) ? F_RNG : o.kind == "copy" ? F_ALLOC : (int)(r.chance(1, 2) ? F_ALLOC : F_OSSL); o.faults.push_back(Fault{fk, fk == F_RNG ? 1 : r.loguni(60), r.chance(1, 6)}); }
    }
}
}
extern const World W_copy;
const World W_copy = {"copy", gen, run};
