// World "stream": raw packet streams over a lossy, reordering, corrupting network, with copies, restarts from a
// serialized stream key, and dependency failures, against an executable reference model of the key schedule.
#include "lib.hpp"
#include <memory>
#include <cstdarg>
#include <algorithm>
#include <openssl/hmac.h>
#include <openssl/evp.h>

namespace {
struct Root { uint32_t ppe = 0; Bytes ser; std::vector<Bytes> ck, ek; std::vector<int> pkts; std::map<Bytes, uint64_t> seen; };
struct Pk { int root; uint64_t kidx, seq; Bytes aad; bool has_aad; Bytes pt; OCipher c; Bytes ser; };
struct SC { int id = 0, root = 0, actor = 0; bool enc = false, family = false; OStream ctx; uint64_t base = 0, last = 0; size_t cur = 0; int last_pkt = -1; uint64_t key_seen = 0; };
struct W_ {
    std::map<int, Root> roots;
    std::map<int, std::unique_ptr<SC>> cs;
    std::vector<std::unique_ptr<Pk>> pk;
    Secrets sec;
    int nact = 200; uint64_t ord = 0;
    Rng *r = nullptr;
};
W_ *W;
struct Act { int was; explicit Act(int a) : was(g.actor) { g.actor = a; } ~Act() { g.actor = was; } };

uint64_t kidx(const SC &s, uint64_t seq) { uint32_t p = W->roots[s.root].ppe; return s.base + seq / p; }
// the documented schedule: HMAC-SHA512 of the current key under the evolution key gives the next pair
void extend(Root &r, uint64_t upto) {
    while (r.ck.size() <= upto) {
        unsigned char o[64]; unsigned n = 64;
        const Bytes &c = r.ck.back(), &e = r.ek.back();
        HMAC(EVP_sha512(), e.data(), (int)e.size(), (const unsigned char *)c.data(), c.size(), o, &n);
        r.ck.push_back(Bytes((char *)o, 32)); r.ek.push_back(Bytes((char *)o + 32, 32));
    }
}
void key_oracle(SC &s, uint64_t idx, const Bytes &key, const char *what) {
    Root &r = W->roots[s.root];
    PauseFaults pf;
    auto it = r.seen.find(key);
    if (it != r.seen.end() && it->second != idx) g.fail("C17", "key-not-changed", "stream %d %s in interval %llu with the key of interval %llu (interval length %u)", s.id, what, (unsigned long long)idx, (unsigned long long)it->second, r.ppe);
    for (auto &o : r.seen) if (o.second == idx && o.first != key) { g.fail("C17", "key-changed-early", "stream %d %s in interval %llu with a second key (interval length %u)", s.id, what, (unsigned long long)idx, r.ppe); break; }
    r.seen[key] = idx;
    extend(r, idx);
    if (key != r.ck[idx]) g.fail("C17", "key-off-schedule", "stream %d %s in interval %llu with a key that is not the documented derivation (interval length %u)", s.id, what, (unsigned long long)idx, r.ppe);
    if (idx > s.key_seen) {
        g.stat("key_changes", idx - s.key_seen);
        for (uint64_t i = idx > s.key_seen + 64 ? idx - 64 : s.key_seen; i < idx; i++)
            if (heap_contains(r.ck[i], s.actor)) { g.fail("C17", "old-key-retained", "stream %d still holds the key of interval %llu in interval %llu (%s)", s.id, (unsigned long long)i, (unsigned long long)idx, what); break; }
        s.key_seen = idx;
    }
}
void emitted(const Bytes &b, const Bytes &pt) {
    if (pt.size() >= 16) W->sec.add(pt, "the plaintext");
    const char *x = W->sec.scan(b); if (!x) x = obs.keys.scan(b);
    if (x) g.fail("C16", "secret-in-stream-packet", "an encoded packet contains %s", x);
}
SC *get(int64_t id, bool enc) { auto it = W->cs.find((int)id); return it == W->cs.end() || it->second->enc != enc ? nullptr : it->second.get(); }
SC *any(int64_t id) { auto it = W->cs.find((int)id); return it == W->cs.end() ? nullptr : it->second.get(); }
void bad(const SC &s, const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
void bad(const SC &s, const char *cls, const char *fmt, ...) {
    char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    g.fail("C09", cls, "%s", b);
    if (s.family) g.fail("C15", cls, "%s (the stream was copied)", b);
}
Bytes aad_for(uint64_t seq, uint64_t salt, int kind) {
    if (kind == 0) return Bytes();
    Bytes a(8, 0); memcpy(&a[0], &seq, 8);
    if (kind > 1) { Rng r(salt * 31 + 7); a += r.bytes(kind == 4 ? 240 + (size_t)r.below(40) : kind == 5 ? (size_t)r.below(70000) : (size_t)kind * 5); }
    return a;
}

bool do_encode(SC &s, uint64_t seq, size_t len, int aadk, const Op *op) {
    Rng r(++W->ord * 131 + 3);
    Bytes pt = r.bytes(len);
    OBuf d(mkbuf(pt));
    Bytes aad = aad_for(seq, W->ord, aadk);
    OBuf a(aadk ? mkbuf(aad) : nullptr);
    OCipher c; bool fired = false;
    bool expect = seq > s.last;
    g.log("s%d encode seq %llu len %zu", s.id, (unsigned long long)seq, len);
    {
        Act x(s.actor);
        if (op) { FaultScope fs(*op); c.reset(wickr_stream_ctx_encode(s.ctx.p, d.p, a.p, seq)); fired = fs.any(); }
        else c.reset(wickr_stream_ctx_encode(s.ctx.p, d.p, a.p, seq));
    }
    if (c && !expect) { bad(s, "encoded-old-sequence", "s%d encoded sequence %llu after %llu", s.id, (unsigned long long)seq, (unsigned long long)s.last); return false; }
    if (!c && expect && !fired) { bad(s, "encode-refused", "s%d refused to encode sequence %llu after %llu (interval %u)", s.id, (unsigned long long)seq, (unsigned long long)s.last, W->roots[s.root].ppe); return false; }
    if (!c) return false;
    auto p = std::make_unique<Pk>();
    p->root = s.root; p->kidx = kidx(s, seq); p->seq = seq; p->aad = aad; p->has_aad = aadk != 0; p->pt = pt;
    {
        Act x(0);
        OBuf ser(wickr_cipher_result_serialize(c.p)); p->ser = B(ser);
        p->c.reset(wickr_cipher_result_copy(c.p));
    }
    Bytes used = obs.last_enc_key;
    s.last = seq;
    key_oracle(s, p->kidx, used, "encodes");
    emitted(p->ser, pt);
    g.progress();
    W->roots[s.root].pkts.push_back((int)W->pk.size());
    W->pk.push_back(std::move(p));
    g.cover(hmix(hmix(1, seq % W->roots[s.root].ppe == 0 ? 0 : seq % W->roots[s.root].ppe == 1 ? 1 : 2), W->roots[s.root].ppe * 8 + fired * 2 + s.family));
    return true;
}
bool same(const wickr_cipher_result_t *a, const wickr_cipher_result_t *b) {
    return a->cipher.cipher_id == b->cipher.cipher_id && B(a->iv) == B(b->iv) && B(a->auth_tag) == B(b->auth_tag) && B(a->cipher_text) == B(b->cipher_text);
}
void do_decode(SC &s, int pi, int64_t alter, int64_t a, int64_t b, const Op *op) {
    Pk &p = *W->pk[pi];
    PauseFaults pf;
    OCipher c(wickr_cipher_result_copy(p.c.p));
    if (!c) return;
    Bytes aad = p.aad; bool has = p.has_aad; uint64_t seq = p.seq;
    uint32_t ppe = W->roots[s.root].ppe;
    auto flip = [&](wickr_buffer_t *x) { if (x && x->length) x->bytes[(size_t)a % x->length] ^= (uint8_t)(1 << (b & 7)); };
    auto reser = [&](const Bytes &x) { OBuf bb(mkbuf(x)); c.reset(wickr_cipher_result_from_buffer(bb.p)); };
    switch (alter) {
        case 1: flip(c->cipher_text); break;
        case 2: flip(c->iv); break;
        case 3: flip(c->auth_tag); break;
        case 4: { Bytes x = p.ser; x[(size_t)a % x.size()] ^= (char)(1 << (b & 7)); reser(x); break; }
        case 5: { Bytes x = p.ser; x.resize((size_t)a % x.size()); reser(x); break; }
        case 6: { Bytes x = p.ser + Bytes(1 + (size_t)(a % 20), (char)b); reser(x); break; }
        case 7: if (has) aad[(size_t)a % aad.size()] ^= (char)(1 << (b & 7)); else { has = true; aad = Bytes(1 + (size_t)(a % 9), (char)b); } break;
        case 8: has = !has; if (!has) aad.clear(); else aad = aad_for(seq, 1, 2); break;
        case 9: { Pk &q = *W->pk[(size_t)a % W->pk.size()]; if (q.has_aad) { aad = q.aad; has = true; } break; }
        case 10: { uint64_t n = seq + 1 + (uint64_t)(a % ((int64_t)ppe * 3 + 2)); if (has) { seq = n; memcpy(&aad[0], &seq, 8); } break; }
        case 11: { uint64_t n = (uint64_t)(1 + a % 3); if (has && seq > n) { seq -= n; memcpy(&aad[0], &seq, 8); } break; }
        case 12: c->cipher = CIPHER_AES256_CTR; break;
        case 13: { Pk &q = *W->pk[(size_t)a % W->pk.size()]; c.reset(wickr_cipher_result_copy(q.c.p)); break; }
        case 14: if (c->auth_tag) c->auth_tag->length = (size_t)(a % 16); break;
        case 15: wickr_buffer_destroy(&c->auth_tag); break;
        case 16: { Pk &q = *W->pk[(size_t)a % W->pk.size()]; wickr_buffer_destroy(&c->auth_tag); c->auth_tag = wickr_buffer_copy(q.c->auth_tag); break; }
        case 17: { uint64_t n = (seq / ppe + 1 + (uint64_t)(a % 40)) * ppe + (uint64_t)(b % ppe); if (has) { seq = n; memcpy(&aad[0], &seq, 8); } break; }
        case 18: if (c->cipher_text && c->cipher_text->length > 1) c->cipher_text->length -= 1 + (size_t)a % (c->cipher_text->length - 1); break;
        case 19: reser(downgrade(p.ser, 0, a * 16 + b)); break;
        default: break;
    }
    // reference model
    int match = -1;
    if (c && seq > s.last) {
        uint64_t ki = kidx(s, seq);
        for (int q : W->roots[s.root].pkts) {
            Pk &x = *W->pk[q];
            // the sequence number travels in the associated data, as sessions do it; without it only the interval is bound
            if (x.kidx == ki && (x.seq == seq || !has) && x.has_aad == has && x.aad == aad && same(x.c.p, c.p)) { match = q; break; }
        }
    }
    bool expect = match >= 0;
    // forged far-away numbers cost one key derivation per interval (a known finding, see the hostile world)
    if (!expect && seq / ppe > s.last / ppe + 400) { g.stat("far_forgery_skipped"); return; }
    if (!c) { g.log("s%d unparsable packet", s.id); if (alter == 0) bad(s, "genuine-unparsable", "s%d cannot parse a genuine packet", s.id); return; }
    if (alter) g.fault_event("packet_alter");
    if (!alter && !expect) g.fault_event(seq <= s.last ? "replay_or_old" : "wrong_stream");
    OBuf ab(has ? mkbuf(aad) : nullptr);
    OBuf out; bool fired = false;
    obs.last_dec_key.clear();
    g.log("s%d decode p%d alter %lld seq %llu", s.id, pi, (long long)alter, (unsigned long long)seq);
    for (int attempt = 0; attempt < 2; attempt++) {
        {
            Act x(s.actor);
            if (op && attempt == 0) { FaultScope fs(*op); out.reset(wickr_stream_ctx_decode(s.ctx.p, c.p, ab.p, seq)); fired = fs.any(); }
            else { FaultScope fs(std::vector<Fault>{}); out.reset(wickr_stream_ctx_decode(s.ctx.p, c.p, ab.p, seq)); fired = false; }
        }
        if (out && !expect) { bad(s, seq <= s.last ? "accepted-old" : "accepted-altered", "s%d accepted packet %d (alteration %lld) with sequence %llu after %llu", s.id, pi, (long long)alter, (unsigned long long)seq, (unsigned long long)s.last); return; }
        if (out || !fired) break;
        g.log("s%d decode failed on a fault, retrying", s.id);
    }
    if (!out && expect) {
        bad(s, "genuine-rejected", "s%d rejected the genuine packet %d: sequence %llu after %llu, interval length %u", s.id, pi, (unsigned long long)seq, (unsigned long long)s.last, ppe);
        if (op && op->faults.size()) g.fail("C13", "stream-fault-not-transparent", "s%d rejects a genuine packet after a fault", s.id);
        return;
    }
    if (!expect) { g.cover(hmix(hmix(2, (uint64_t)alter), hmix(seq <= s.last, ppe))); return; }
    if (B(out) != W->pk[match]->pt) { bad(s, "wrong-data", "s%d decoded packet %d to other data", s.id, pi); return; }
    Bytes used = obs.last_dec_key;
    uint64_t ki = kidx(s, seq);
    bool jump = seq / ppe != s.last / ppe;
    s.last = seq; s.last_pkt = pi;
    { Act x(0); key_oracle(s, ki, used, "decodes"); }
    g.progress();
    g.cover(hmix(hmix(3, jump), hmix(ppe, (seq % ppe == 0) * 4 + (seq % ppe == ppe - 1) * 2 + s.family)));
}
void do_open(int id, int root, bool enc, const Op *op) {
    if (!W->roots.count(root) || W->cs.count(id) || W->cs.size() > 20) return;
    auto s = std::make_unique<SC>();
    s->id = id; s->root = root; s->enc = enc; s->actor = W->nact++;
    Act x(s->actor);
    OBuf b(mkbuf(W->roots[root].ser));
    OSKey k; { PauseFaults pf; k.reset(wickr_stream_key_create_from_buffer(b.p)); }
    if (!k) { g.fail("C09", "stream-key-unreadable", "a serialized stream key cannot be read back"); return; }
    bool fired = false;
    if (op) { FaultScope fs(*op); s->ctx.reset(wickr_stream_ctx_create(ENG, k.p, enc ? STREAM_DIRECTION_ENCODE : STREAM_DIRECTION_DECODE)); fired = fs.any(); }
    else s->ctx.reset(wickr_stream_ctx_create(ENG, k.p, enc ? STREAM_DIRECTION_ENCODE : STREAM_DIRECTION_DECODE));
    if (!s->ctx) { if (!fired) bad(*s, "open-refused", "a stream with interval %u cannot be opened", W->roots[root].ppe); else g.log("open failed on fault"); return; }
    k.release();
    W->cs[id] = std::move(s);
}
// The state captured now (as a serialized key, the only durable form) must not open packets of earlier intervals.
void do_probe(SC &s) {
    Act x(0);
    OBuf ser(wickr_stream_key_serialize(s.ctx->key));
    if (!ser) { bad(s, "key-unserializable", "s%d: the current stream key cannot be serialized", s.id); return; }
    uint64_t now = kidx(s, s.last);
    uint32_t ppe = W->roots[s.root].ppe;
    g.stat("captured_states");
    int tried = 0;
    for (size_t i = W->roots[s.root].pkts.size(); i-- > 0 && tried < 6;) {
        Pk &p = *W->pk[W->roots[s.root].pkts[i]];
        if (p.kidx >= now) continue;
        tried++;
        uint64_t cand[] = {p.seq, p.seq % ppe ? p.seq % ppe : ppe, 1, ppe, ppe + 1ull};
        for (uint64_t q : cand) {
            if (q / ppe > 50) continue;
            OSKey k(wickr_stream_key_create_from_buffer(ser.p));
            if (!k) return;
            OStream t(wickr_stream_ctx_create(RAW, k.p, STREAM_DIRECTION_DECODE));
            if (!t) return;
            k.release();
            OBuf ab(p.has_aad ? mkbuf(p.aad) : nullptr);
            OBuf o(wickr_stream_ctx_decode(t.p, p.c.p, ab.p, q));
            if (o) { g.fail("C17", "captured-state-opens-earlier", "the state s%d holds in interval %llu opens a packet of interval %llu", s.id, (unsigned long long)now, (unsigned long long)p.kidx); return; }
        }
    }
    // and the copied context itself does not look back either
    OStream cp(wickr_stream_ctx_copy(s.ctx.p));
    if (cp) {
        for (auto &o : W->roots[s.root].seen) if (o.second < now) {
            bool held = B(cp->key->cipher_key->key_data) == o.first;
            if (held) { g.fail("C17", "copy-looks-back", "a copy of s%d taken in interval %llu holds the key of interval %llu", s.id, (unsigned long long)now, (unsigned long long)o.second); return; }
        }
    }
}
void do_restart(SC &s, const Op *op) {
    Act x(s.actor);
    OBuf ser; bool fired = false;
    if (op) { FaultScope fs(*op); ser.reset(wickr_stream_key_serialize(s.ctx->key)); fired = fs.any(); }
    else ser.reset(wickr_stream_key_serialize(s.ctx->key));
    if (!ser) { if (!fired) bad(s, "key-unserializable", "s%d: the current stream key cannot be serialized", s.id); return; }
    Bytes saved = B(ser); ser.reset();
    uint64_t nb = kidx(s, s.last);
    s.ctx.reset();                              // the process dies; only the serialized key survives
    for (auto &l : g.live) if (l.second.actor == s.actor) l.second.actor = 0;
    OBuf b(mkbuf(saved));
    OSKey k(wickr_stream_key_create_from_buffer(b.p));
    int id = s.id;
    if (!k) { bad(s, "stream-key-unreadable", "s%d: its saved stream key cannot be read back", id); W->cs.erase(id); return; }
    OStream n(wickr_stream_ctx_create(ENG, k.p, s.enc ? STREAM_DIRECTION_ENCODE : STREAM_DIRECTION_DECODE));
    if (!n) { bad(s, "open-refused", "s%d: its saved stream key cannot be used", id); W->cs.erase(id); return; }
    k.release();
    s.ctx = std::move(n);
    s.base = nb; s.last = 0; s.key_seen = nb;
    g.fault_event("restart");
    g.log("s%d restarted at interval %llu", id, (unsigned long long)nb);
}
void exec(const Op &op) {
    const std::string &k = op.kind;
    g.sim_time++;
    if (k == "root") {
        int id = (int)op.arg(0); if (W->roots.count(id)) return;
        Root r; r.ppe = (uint32_t)op.arg(1);
        OSKey sk(wickr_stream_key_create_rand(RAW, CIPHER_AES256_GCM, r.ppe));
        if (!sk) { g.fail("C17", "interval-refused", "a stream key with the allowed interval %u is refused", r.ppe); return; }
        if (op.arg(2)) { sk->user_data = mkbuf(Bytes((size_t)(op.arg(2) > 60 ? op.arg(2) * 37 : op.arg(2)), 'u')); }
        if (op.arg(3)) { wickr_buffer_destroy(&sk->evolution_key); sk->evolution_key = mkbuf(Rng((uint64_t)op.arg(3)).bytes((size_t)op.arg(3))); }
        OBuf s(wickr_stream_key_serialize(sk.p));
        if (!s) { g.fail("C09", "key-unserializable", "a stream key cannot be serialized"); return; }
        r.ser = B(s);
        r.ck.push_back(B(sk->cipher_key->key_data)); r.ek.push_back(B(sk->evolution_key));
        W->sec.add(r.ck[0], "the stream key"); W->sec.add(r.ek[0], "the evolution key");
        W->roots[id] = std::move(r);
        return;
    }
    if (k == "open") { do_open((int)op.arg(0), (int)op.arg(1), op.arg(2) != 0, &op); return; }
    if (k == "badppe") {
        // intervals outside the allowed range are refused in every way a stream key can come into being
        uint32_t v = (uint32_t)op.arg(0);
        bool ok = v >= 1 && v <= 32768;
        OSKey a(wickr_stream_key_create_rand(RAW, CIPHER_AES256_GCM, v));
        if (!!a != ok) { g.fail("C17", ok ? "interval-refused" : "bad-interval-accepted", "creating a stream key with interval %u %s", v, a ? "succeeds" : "fails"); return; }
        // the serialized form, made from a good key by editing its interval field
        OSKey good(wickr_stream_key_create_rand(RAW, CIPHER_AES256_GCM, 7));
        if (!good) return;
        good->packets_per_evolution = v;
        OBuf s(wickr_stream_key_serialize(good.p));
        good->packets_per_evolution = 7;
        if (s) {
            OSKey b(wickr_stream_key_create_from_buffer(s.p));
            if (!!b != ok) { g.fail("C17", ok ? "interval-refused" : "bad-interval-accepted", "reading a stream key with interval %u %s", v, b ? "succeeds" : "fails"); return; }
        }
        // the key agreed in a session handshake, in either direction
        for (int dir = 0; dir < 2; dir++) {
            OTRoot tr(wickr_transport_root_key_create_random(&RAW, CIPHER_AES256_GCM, dir ? 8 : v, dir ? v : 8));
            OBuf salt(mkbuf(Bytes(64, 's'))), sid(mkbuf(Bytes(32, 'i')));
            OSKey t(tr ? wickr_transport_root_key_to_stream_key(tr.p, &RAW, salt.p, sid.p, dir ? STREAM_DIRECTION_DECODE : STREAM_DIRECTION_ENCODE) : nullptr);
            if (!!t != ok) { g.fail("C17", ok ? "interval-refused" : "bad-interval-accepted", "a session key with interval %u is %s", v, t ? "accepted" : "refused"); return; }
            if (t && t->packets_per_evolution != v) { g.fail("C17", "interval-differs", "a session key agreed for interval %u has interval %u", v, t->packets_per_evolution); return; }
        }
        // and a session set up by the application (0 stands for the default)
        {
            wickr_transport_callbacks_t cb;
            cb.tx = [](const wickr_transport_ctx_t *, wickr_buffer_t *b) { wickr_buffer_destroy(&b); };
            cb.rx = [](const wickr_transport_ctx_t *, wickr_buffer_t *b) { wickr_buffer_destroy(&b); };
            cb.on_state = [](const wickr_transport_ctx_t *, wickr_transport_status) {};
            cb.on_identity_verify = [](const wickr_transport_ctx_t *, wickr_identity_chain_t *i, wickr_transport_validate_identity_callback) { wickr_identity_chain_destroy(&i); };
            OChain l(pool_chain(0, true));
            OTransport c(wickr_transport_ctx_create(RAW, l.p, nullptr, v, cb, nullptr));
            if (c) l.release();
            if (!!c != (ok || v == 0)) { g.fail("C17", c ? "bad-interval-accepted" : "interval-refused", "a session with interval %u is %s", v, c ? "accepted" : "refused"); return; }
        }
        g.fault_event("bad_interval"); g.progress();
        return;
    }
    if (k == "enc") {
        SC *s = get(op.arg(0), true); if (!s) return;
        uint32_t ppe = W->roots[s->root].ppe; uint64_t v = (uint64_t)op.arg(2), n = s->last;
        switch (op.arg(1)) {
            case 0: n += 1; break;
            case 1: n = (n / ppe + 1) * ppe; break;
            case 2: n = (n / ppe + 1 + (n % ppe == ppe - 1)) * ppe - 1; if (n <= s->last) n = s->last + 1; break;
            case 3: n = (n / ppe + 1) * ppe + 1; break;
            case 4: n = (n / ppe + 1 + v % 30) * ppe + (v >> 8) % ppe; break;
            case 5: n += 2 + v % 9; break;
            case 6: n += 1 + v % (2ull * ppe); break;
            case 8: {           // around the limits of 31 and 32 bits
                static const uint64_t lim[] = {1ull << 31, 1ull << 32};
                n = lim[v % 2] + (v >> 2) % 1000; n -= std::min<uint64_t>((v >> 12) % 1500, n);
                if (n <= s->last || ppe < 16384) n = s->last + 1; else g.stat("wide_sequences");
                break;
            }
            case 9: {           // very many whole intervals without a packet
                static const uint64_t far[] = {127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 383, 511, 512, 513, 700, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 32767, 32768, 65535, 65536};
                n = (n / ppe + far[v % (v % 11 == 10 ? 26 : 20)]) * ppe + (v >> 8) % ppe; g.stat("far_jumps"); break;
            }
            default: n += 1 + v % 3; break;
        }
        if (!do_encode(*s, n, (size_t)op.arg(3, 20) + 1, (int)(op.arg(4) % 6), &op) && !g.failed() && op.faults.size() && op.arg(5)) do_encode(*s, n, (size_t)op.arg(3, 20) + 1, (int)(op.arg(4) % 6), nullptr);
        return;
    }
    if (k == "burst") {          // many short packets in a row, then the receiver catches up with some of them
        SC *s = get(op.arg(0), true); if (!s) return;
        uint64_t n = std::min<uint64_t>((uint64_t)op.arg(1), 5000); size_t first = W->roots[s->root].pkts.size();
        g.stat("burst_packets", n);
        for (uint64_t i = 0; i < n && !g.failed(); i++) if (!do_encode(*s, s->last + 1, 1 + i % 3, (int)(op.arg(2) % 3), nullptr)) return;
        SC *d = get(op.arg(3), false);
        if (!d || d->root != s->root || g.failed()) return;
        auto &own = W->roots[s->root].pkts; uint64_t step = 1 + (uint64_t)op.arg(4) % 97;
        for (size_t i = first; i < own.size() && !g.failed(); i += step) do_decode(*d, own[i], 0, 0, 0, nullptr);
        if (step > 1) g.fault_event("packet_loss");
        d->cur = own.size();
        return;
    }
    if (k == "oldenc") { SC *s = get(op.arg(0), true); if (!s) return; uint64_t b = (uint64_t)op.arg(1); g.fault_event("old_sequence"); do_encode(*s, s->last > b ? s->last - b : 0, 30, 1, &op); return; }
    if (k == "wrongdir") {
        SC *s = any(op.arg(0)); if (!s || W->pk.empty()) return;
        g.fault_event("wrong_direction");
        OBuf d(mkbuf(Bytes(20, 'w'))); Act x(s->actor);
        if (s->enc) { Pk &p = *W->pk.back(); OBuf o(wickr_stream_ctx_decode(s->ctx.p, p.c.p, nullptr, s->last + 1)); if (o) bad(*s, "wrong-direction", "encoder s%d decodes", s->id); }
        else { OCipher o(wickr_stream_ctx_encode(s->ctx.p, d.p, nullptr, s->last + 1)); if (o) bad(*s, "wrong-direction", "decoder s%d encodes", s->id); }
        return;
    }
    if (k == "dec") {
        SC *s = get(op.arg(0), false); if (!s) return;
        auto &own = W->roots[s->root].pkts;
        if (W->pk.empty()) return;
        int pi = -1; int64_t v = op.arg(2);
        switch (op.arg(1)) {
            case 0: if (s->cur < own.size()) pi = own[s->cur++]; break;
            case 1: { size_t lost = (size_t)(v % 5); s->cur += lost; if (lost) g.fault_event("packet_loss"); if (s->cur < own.size()) pi = own[s->cur++]; break; }
            case 2: if (own.size()) pi = own[(size_t)v % own.size()]; break;
            case 3: pi = s->last_pkt; break;
            case 4: if (s->cur > 1 && own.size()) { pi = own[std::min(own.size() - 1, s->cur - 1 - std::min((size_t)(v % 4), s->cur - 1))]; g.fault_event("packet_reorder"); } break;
            case 5: pi = (int)((size_t)v % W->pk.size()); break;
            case 6: if (own.size()) pi = own.back(); break;
            case 7: if (s->cur < own.size()) pi = own[s->cur]; break;         // peek: attack on the next packet
            default: break;
        }
        if (pi < 0) return;
        do_decode(*s, pi, op.arg(3), op.arg(4), op.arg(5), &op);
        return;
    }
    if (k == "copy") {
        SC *s = any(op.arg(0)); int id = (int)op.arg(1);
        if (!s || W->cs.count(id) || W->cs.size() > 20) return;
        auto n = std::make_unique<SC>();
        n->id = id; n->root = s->root; n->enc = s->enc; n->base = s->base; n->last = s->last; n->cur = s->cur; n->last_pkt = s->last_pkt; n->actor = W->nact++; n->family = true; n->key_seen = kidx(*s, s->last);
        Act x(n->actor);
        bool fired;
        { FaultScope fs(op); n->ctx.reset(wickr_stream_ctx_copy(s->ctx.p)); fired = fs.any(); }
        g.log("copy s%d -> s%d", s->id, id);
        if (!n->ctx) { if (!fired) { s->family = true; bad(*s, "copy-refused", "s%d cannot be copied", s->id); } return; }
        s->family = true;
        g.fault_event("copy");
        W->cs[id] = std::move(n);
        return;
    }
    if (k == "refcycle") {
        SC *s = any(op.arg(0)); if (!s) return;
        if (!wickr_stream_ctx_ref_up(s->ctx.p)) return;
        wickr_stream_ctx_t *t = s->ctx.p; wickr_stream_ctx_destroy(&t);
        return;
    }
    if (k == "restart") { SC *s = any(op.arg(0)); if (s) do_restart(*s, &op); return; }
    if (k == "resync") {         // both ends agree on a packet, save their keys and come back
        SC *e = get(op.arg(0), true), *d = get(op.arg(1), false);
        if (!e || !d || e->root != d->root) return;
        if (!do_encode(*e, e->last + 1, 24, 1, nullptr)) return;
        do_decode(*d, (int)W->pk.size() - 1, 0, 0, 0, nullptr);
        if (g.failed()) return;
        do_restart(*e, nullptr); if (g.failed() || !any(op.arg(1))) return;
        do_restart(*d, nullptr); d->cur = W->roots[d->root].pkts.size();
        return;
    }
    if (k == "probe") { SC *s = any(op.arg(0)); if (s) do_probe(*s); return; }
    if (k == "kill") { SC *s = any(op.arg(0)); if (s) { g.fault_event("endpoint_crash"); g.log("kill s%d", s->id); W->cs.erase(s->id); } return; }
}
void run(const Plan &p) {
    W_ w; W = &w;
    Rng r(p.seed + 17); w.r = &r;
    obs.record_keys = true;
    for (auto &op : p.ops) { exec(op); g.steps++; if (g.failed()) break; }
    if (!g.failed()) {
        // bounded liveness: every stream still works
        for (auto &c : w.cs) if (c.second->enc && !g.failed()) do_encode(*c.second, c.second->last + 1, 32, 2, nullptr);
        for (auto &c : w.cs) {
            if (c.second->enc || g.failed()) continue;
            auto &own = w.roots[c.second->root].pkts;
            for (size_t i = own.size() > 8 ? own.size() - 8 : 0; i < own.size() && !g.failed(); i++) do_decode(*c.second, own[i], 0, 0, 0, nullptr);
            if (!g.failed()) do_probe(*c.second);
        }
    }
    w.cs.clear(); w.pk.clear(); w.roots.clear();
    check_leaks("C14");
    W = nullptr;
}
Op mk(const char *k, std::vector<int64_t> a) { return Op{k, a, {}}; }
void gen(const std::string &prop, Rng &r, Plan &p) {
    static const int64_t ppes[] = {1, 2, 3, 5, 7, 16, 64, 512, 32768};
    int nroots = r.chance(1, 3) ? 2 : 1;
    std::vector<int> enc, dec; int next = 1;
    std::vector<int> eroot, droot;
    for (int i = 0; i < nroots; i++) {
        p.ops.push_back(mk("root", {i, r.chance(3, 4) ? ppes[r.below(6)] : r.chance(1, 2) ? ppes[r.below(9)] : 1 + (int64_t)r.below(32768), (int64_t)(r.chance(1, 3) ? 1 + r.below(64) : 0), (int64_t)(r.chance(1, 6) ? 8 + r.below(200) : 0)}));
        int e = next++, d = next++;
        p.ops.push_back(mk("open", {e, i, 1})); p.ops.push_back(mk("open", {d, i, 0}));
        enc.push_back(e); eroot.push_back(i); dec.push_back(d); droot.push_back(i);
        if (r.chance(1, 4)) { int d2 = next++; p.ops.push_back(mk("open", {d2, i, 0})); dec.push_back(d2); droot.push_back(i); }
        if (r.chance(1, 6)) { int e2 = next++; p.ops.push_back(mk("open", {e2, i, 1})); enc.push_back(e2); eroot.push_back(i); }
    }
    bool burst = r.chance(1, 2), attack = prop != "C04" && r.chance(3, 4);
    int copies = prop == "C15" ? 1 + (int)r.below(4) : r.chance(1, 2) ? (int)r.below(3) : 0;
    int n = 15 + (int)r.below(60);
    auto E = [&]() { return (int64_t)enc[r.below(enc.size())]; };
    auto D = [&]() { return (int64_t)dec[r.below(dec.size())]; };
    auto A = [&]() { return r.chance(1, 2) ? E() : D(); };
    bool far = r.chance(1, 12);
    auto do_enc = [&]() {
        static const int gk[] = {0, 0, 0, 1, 1, 2, 3, 4, 5, 6};
        p.ops.push_back(mk("enc", {E(), far && r.chance(1, 8) ? 9 : gk[r.below(10)], (int64_t)r.below(1 << 20), r.chance(1, 30) ? 4000 + (int64_t)r.below(4000) : r.chance(1, 25) ? r.edge(20000) : (int64_t)r.below(80), (int64_t)r.below(8) < 7 ? (r.chance(1, 25) ? 4 + (int64_t)r.below(2) : 1 + (int64_t)r.below(3)) : 0, (int64_t)r.chance(3, 4)}));
    };
    auto do_dec = [&]() {
        if (attack && r.chance(1, 3)) {
            p.ops.push_back(mk("dec", {D(), r.chance(3, 5) ? 7 : (int64_t)r.below(8), (int64_t)r.below(1000), 1 + (int64_t)r.below(19), (int64_t)r.below(100000), (int64_t)r.below(256)}));
            return;
        }
        static const int sk[] = {0, 0, 0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 6};
        p.ops.push_back(mk("dec", {D(), sk[r.below(13)], (int64_t)r.below(1000), 0, 0, 0}));
    };
    for (int i = 0; i < n; i++) {
        if (burst) { int k = 1 + (int)r.below(4); while (k--) do_enc(); k = 1 + (int)r.below(5); while (k--) do_dec(); }
        else { do_enc(); do_dec(); }
        if (copies && r.chance(1, 8)) {
            bool e = r.chance(prop == "C04" ? 4 : 1, prop == "C04" ? 5 : 2); int s = e ? (int)E() : (int)D(), c = next++;
            p.ops.push_back(mk("copy", {s, c}));
            for (size_t j = 0; j < enc.size(); j++) if (e && enc[j] == s) { enc.push_back(c); eroot.push_back(eroot[j]); break; }
            for (size_t j = 0; j < dec.size(); j++) if (!e && dec[j] == s) { dec.push_back(c); droot.push_back(droot[j]); break; }
            copies--;
        }
        if (r.chance(1, 14)) p.ops.push_back(mk("oldenc", {E(), (int64_t)r.below(4)}));
        if (r.chance(1, 30)) p.ops.push_back(mk("wrongdir", {A()}));
        if (r.chance(1, 25)) p.ops.push_back(mk("refcycle", {A()}));
        if (r.chance(1, 12)) p.ops.push_back(mk("probe", {A()}));
        if (r.chance(1, 18)) { size_t e = r.below(enc.size()); for (size_t j = 0; j < dec.size(); j++) if (droot[j] == eroot[e]) { p.ops.push_back(mk("resync", {enc[e], dec[j]})); break; } }
        if (r.chance(1, 60)) p.ops.push_back(mk("restart", {A()}));
        if (r.chance(1, 50)) p.ops.push_back(mk("kill", {A()}));
    }
    if (r.chance(1, prop == "C17" ? 4 : 30)) {
        static const int64_t bad[] = {0, 32769, 65536, 65537, 4294967295ll, 1, 32768, 2147483648ll, 33000};
        p.ops.insert(p.ops.begin() + r.below(p.ops.size() + 1), mk("badppe", {bad[r.below(9)]}));
    }
    if (r.chance(1, prop == "C04" ? 6 : 60)) {       // more packets in one interval than small counters hold
        int64_t many = r.chance(1, 12) ? 4200 : 200 + (int64_t)r.below(500);
        p.ops[0].a[1] = r.chance(1, 2) ? 32768 : 512 + (int64_t)r.below(2000);
        p.ops.insert(p.ops.begin() + 3 + (long)r.below(p.ops.size() - 2), mk("burst", {enc[0], many, (int64_t)r.below(3), dec[0], (int64_t)r.below(97)}));
        if (r.chance(1, 2)) p.ops.push_back(mk("burst", {E(), many, (int64_t)r.below(3), D(), (int64_t)r.below(97)}));
    }
    bool faults = prop == "C04" || prop == "C16" ? r.chance(3, 4) : prop == "C13" || r.chance(1, 2);
    if (faults) {
        int k = 1 + (int)r.below(5);
        for (int i = 0; i < k; i++) {
            Op &o = p.ops[r.below(p.ops.size())];
            if (o.kind == "probe" || o.kind == "root" || o.kind == "badppe") continue;
            int kinds[] = {F_ALLOC, F_ENGINE, F_OSSL, F_RNG}; int fk = kinds[r.below(4)];
            if (prop == "C04" && o.kind == "copy") fk = F_RNG;
            o.faults.push_back(Fault{fk, fk == F_RNG ? 1 : r.loguni(fk == F_ALLOC ? 60 : 12), r.chance(1, 6)});
        }
    }
    if (r.chance(1, prop == "C15" ? 60 : 150)) {       // sequence numbers beyond 31 and 32 bits
        p.ops.clear();
        p.ops.push_back(mk("root", {0, 32768, 0})); p.ops.push_back(mk("open", {1, 0, 1})); p.ops.push_back(mk("open", {2, 0, 0}));
        for (int i = 0; i < 2; i++) {
            int64_t es = 1, ds = 2;
            if (i && r.chance(prop == "C15" ? 4 : 2, 4)) { p.ops.push_back(mk("copy", {1, es = 3})); p.ops.push_back(mk("copy", {2, ds = 4})); }
            p.ops.push_back(mk("enc", {es, 0, 0, 20, 2, 0})); p.ops.push_back(mk("dec", {ds, 0, 0, 0, 0, 0}));
            if (!i) {
                p.ops.push_back(mk("enc", {1, 8, (int64_t)(r.below(1 << 22) * 4 + (r.chance(prop == "C15" ? 3 : 1, 4) ? 1 : 0)), 20, 2, 0}));
                if (r.chance(1, 3)) p.ops.push_back(mk("dec", {2, 7, 0, 1 + (int64_t)r.below(9), (int64_t)r.below(1000), 3}));
                if (r.chance(1, 2)) { p.ops.push_back(mk("enc", {1, 0, 0, 20, 2, 0})); p.ops.push_back(mk("dec", {2, 1, 1, 0, 0, 0})); }
                else p.ops.push_back(mk("dec", {2, 0, 0, 0, 0, 0}));
            }
            p.ops.push_back(mk("dec", {2, 3, 0, 0, 0, 0})); p.ops.push_back(mk("dec", {2, 2, (int64_t)r.below(8), 0, 0, 0}));
        }
    }
}
}
extern const World W_stream;
const World W_stream = {"stream", gen, run};
