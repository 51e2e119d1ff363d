// World "session": transport endpoints with real handshakes on an adversarial simulated network.
#include "lib.hpp"
#include <deque>
#include <memory>
#include <algorithm>
extern "C" {
#include "stream.pb-c.h"
#include "identity.pb-c.h"
}

static const int M = 5;                 // pool identity of the attacker; 0..4 are honest
static const int MACLEN = 143;

namespace {
struct Pkt { int from; int nth; Bytes data; bool handshake; bool response; };
struct Ep {
    int id = 0, owner = 0, expected = -1, chain_kind = 0, policy = 0, flags = 0;
    uint32_t evo = 0;
    OTransport ctx;
    bool alive = true;
    wickr_transport_status announced = TRANSPORT_STATUS_NONE;
    int announcements = 0;
    int peer = -1;
    std::deque<int> inbox;              // wire indices routed to this endpoint
    std::vector<int> sent;              // wire indices this endpoint transmitted
    bool started = false;
    Bytes seed, resp;                   // handshake packets it transmitted
    Bytes cur_input, act_input;         // input being processed / input that made it active
    Bytes pend_input;
    bool pending = false;               // app owes a verdict
    bool verdict_given = false, verdict = false, rejected = false;
    Bytes pres_root, pres_node, presented;
    wickr_transport_validate_identity_callback cb = nullptr;
    int verify_calls = 0;
    bool active_ever = false, active_malicious = false;
    int active_owner = -1;
    std::vector<Bytes> submitted;
    int delivered = 0; int last_k = -1;
    int tx_count = 0, rx_count = 0, data_tx = 0, hs_tx = 0;
    int cb_budget = 0;
    int frames = 0;                     // library calls on this endpoint that have not returned
    bool tainted = false;               // a fault was injected into this endpoint
    std::map<uint64_t, Bytes> epoch_key;
    uint64_t last_epoch = 0; Bytes first_keys_secret;
    bool forged_key = false;
};
struct World_ {
    const Plan *plan = nullptr;
    std::map<int, std::unique_ptr<Ep>> eps;
    std::vector<Pkt> wire;
    std::vector<OChain> master;         // this run's identity chain objects (their cached status evolves)
    std::map<int, OChain> learned;      // chain objects handed to the application
    std::vector<Bytes> rootpub, nodepub, pubser;
    Secrets secrets;
    bool sync = false, share = false, live_mode = false;
    uint64_t msgno = 0;
    int depth = 0;
    Rng *fr = nullptr;                  // filler content
};
World_ *W;
Ep *ep_of(const wickr_transport_ctx_t *c) {
    for (auto &e : W->eps) if (e.second->ctx.p == c) return e.second.get();
    return nullptr;
}
const char *P07 = "C07";
Bytes prefix(const Bytes &b) { return b.size() > (size_t)MACLEN ? b.substr(0, b.size() - MACLEN) : Bytes(); }
bool is_data(const Bytes &b) { return b.size() && ((uint8_t)b[0] >> 4) == 1; }
bool is_hs(const Bytes &b) { return b.size() && ((uint8_t)b[0] >> 4) == 0; }

void do_rx(Ep &e, const Bytes &data, const Op *op);
void do_send(Ep &e, size_t len, const Op *op);

struct Frame { Ep &e; Bytes in; explicit Frame(Ep &x) : e(x), in(x.cur_input) { e.frames++; } ~Frame() { if (--e.frames) e.cur_input = in; } };
struct Actor { int was; explicit Actor(int a) : was(g.actor) { g.actor = a; } ~Actor() { g.actor = was; } };

// ---------------------------------------------------------------- oracles
void check_active(Ep &e) {
    if (e.active_ever) return;
    e.active_ever = true;
    const Bytes &in = e.pending || e.verdict_given ? e.pend_input : e.cur_input;
    e.act_input = in;
    if (e.chain_kind != 0 || e.owner == M) { e.active_malicious = true; }   // the attacker's own endpoints promise nothing
    int who = e.expected;
    if (e.owner == M) return;
    if (e.expected < 0) {
        if (!e.verify_calls) { g.fail("C05", "active-unverified", "ep%d became active without asking the application about the presented identity", e.id); return; }
        if (!e.verdict_given || !e.verdict) { g.fail("C05", "active-unapproved", "ep%d became active although the application %s", e.id, e.rejected ? "rejected the identity" : "gave no approval"); return; }
        who = -1;
        for (int i = 0; i < NPOOL; i++) if (W->rootpub[i] == e.pres_root && W->nodepub[i] == e.pres_node) who = i;
        if (who < 0) { g.fail("C05", "active-invalid-chain", "ep%d became active with an identity whose chain is not valid", e.id); return; }
    } else if (e.rejected) { g.fail("C05", "active-unapproved", "ep%d became active after a rejection", e.id); return; }
    e.active_owner = who;
    if (who == M) { e.active_malicious = true; return; }
    bool found = false;
    for (auto &w : W->wire) {
        if (!w.handshake || w.from < 0) continue;
        auto it = W->eps.find(w.from);
        if (it == W->eps.end() || it->second->owner != who || it->second->chain_kind != 0) continue;
        if (prefix(w.data) != prefix(in)) continue;
        if (e.started) {
            Ep &f = *it->second;
            if (!w.response) continue;
            if (prefix(f.cur_input) != prefix(e.seed) && prefix(f.act_input) != prefix(e.seed) && prefix(f.pend_input) != prefix(e.seed)) continue;
        }
        found = true; break;
    }
    if (!found) g.fail("C05", e.started ? "active-not-own-attempt" : "active-not-peer", "ep%d (owner %d) became active towards identity %d without processing %s", e.id, e.owner, who,
                       e.started ? "that identity's response to its own attempt" : "a handshake message signed by it");
}
Ep *partner(Ep &x) {
    if (x.started) {            // initiator: endpoint whose response was accepted
        for (auto &w : W->wire) if (w.handshake && w.response && w.from >= 0 && prefix(w.data) == prefix(x.act_input)) { auto it = W->eps.find(w.from); if (it != W->eps.end()) return it->second.get(); }
        return nullptr;
    }
    for (auto &o : W->eps) {
        Ep &y = *o.second;
        if (y.started && y.active_ever && prefix(y.seed) == prefix(x.act_input) && x.resp.size() && prefix(y.act_input) == prefix(x.resp)) return &y;
    }
    return nullptr;
}
void check_delivery(Ep &x, const Bytes &d) {
    x.delivered++;
    g.progress();
    if (x.owner == M) return;
    Ep *y = partner(x);
    if (!y) {
        // the peer's endpoint is not simulated code only when the peer is the attacker itself
        if (x.active_malicious) return;
        g.fail("C06", "delivered-from-nowhere", "ep%d delivered %zu bytes although no peer shares its session", x.id, d.size());
        return;
    }
    if ((size_t)(x.last_k + 1) < y->submitted.size() && y->submitted[(size_t)(x.last_k + 1)] == d) { x.last_k++; return; }
    // short buffers may repeat: the earliest one that is still due
    for (size_t k = (size_t)(x.last_k + 1); k < y->submitted.size(); k++) if (y->submitted[k] == d) { x.last_k = (int)k; return; }
    for (size_t k = 0; k < y->submitted.size(); k++) if (y->submitted[k] == d) {
        { g.fail("C06", "reordered-or-duplicated", "ep%d delivered buffer %zu of ep%d after buffer %d", x.id, k, y->id, x.last_k); return; }
    }
    g.fail("C06", "delivered-not-submitted", "ep%d delivered %zu bytes that ep%d never submitted", x.id, d.size(), y->id);
}
void check_epochs(Ep &e, const Bytes &pkt) {
    // C17: the packet key changes exactly when the sequence number crosses a multiple of the interval
    if (e.owner == M || pkt.size() < 9) return;
    uint64_t seq; memcpy(&seq, pkt.data() + 1, 8);
    Ep *r = e.started ? partner(e) : &e;
    if (!r) return;
    uint64_t ppe = r->evo ? r->evo : 512;
    uint64_t ep = seq / ppe;
    Bytes key = obs.last_enc_key;
    if (key.size() < 16) return;
    auto it = e.epoch_key.find(ep);
    if (it != e.epoch_key.end() && it->second != key) g.fail("C17", "key-changed-early", "ep%d changed its key inside interval %llu (seq %llu, interval length %llu)", e.id, (unsigned long long)ep, (unsigned long long)seq, (unsigned long long)ppe);
    for (auto &o : e.epoch_key) if (o.first != ep && o.second == key) g.fail("C17", "key-not-changed", "ep%d uses the key of interval %llu in interval %llu (seq %llu)", e.id, (unsigned long long)o.first, (unsigned long long)ep, (unsigned long long)seq);
    bool fresh = it == e.epoch_key.end();
    e.epoch_key[ep] = key;
    if (fresh) for (auto &o : e.epoch_key) if (o.first < ep && heap_contains(o.second, 100 + e.id)) { g.fail("C17", "old-key-retained", "ep%d still holds the key of interval %llu in interval %llu", e.id, (unsigned long long)o.first, (unsigned long long)ep); break; }
}

// ---------------------------------------------------------------- callbacks
void route(Ep &e, int widx) {
    auto it = W->eps.find(e.peer);
    if (it == W->eps.end() || !it->second->alive) return;
    Ep &p = *it->second;
    if (W->sync && W->depth < 60) {
        W->depth++;
        g.sim_time++;
        do_rx(p, W->wire[widx].data, nullptr);
        W->depth--;
    } else p.inbox.push_back(widx);
}
void cb_tx(const wickr_transport_ctx_t *c, wickr_buffer_t *data) {
    PauseFaults pf;
    Ep *e = ep_of(c);
    Bytes d = B(data);
    wickr_buffer_destroy(&data);
    if (!e) return;
    wickr_transport_status st = wickr_transport_ctx_get_status(c);
    g.log("ep%d tx %zu bytes status %d h=%llx", e->id, d.size(), (int)st, (unsigned long long)fnv(d));
    if (st == TRANSPORT_STATUS_ERROR) g.fail(P07, "tx-after-error", "ep%d transmitted %zu bytes in the error state", e->id, d.size());
    if (is_data(d) && st != TRANSPORT_STATUS_ACTIVE) g.fail(P07, "data-while-not-active", "ep%d transmitted application data in state %d", e->id, (int)st);
    if (e->owner != M) {
        const char *s = W->secrets.scan(d);
        if (!s) s = obs.keys.scan(d);
        if (s) g.fail("C16", "secret-on-wire", "ep%d transmitted a packet that contains %s in the clear", e->id, s);
    }
    e->tx_count++;
    if (st == TRANSPORT_STATUS_ACTIVE) check_active(*e);
    int idx = (int)W->wire.size();
    bool hs = !is_data(d);
    bool response = hs && !(e->started && e->seed.empty());
    W->wire.push_back(Pkt{e->id, (int)e->sent.size(), d, hs, response});
    e->sent.push_back(idx);
    if (hs) { e->hs_tx++; if (!response) e->seed = d; else e->resp = d; }
    else { e->data_tx++; check_epochs(*e, d); }
    route(*e, idx);
    if (!hs && (e->flags & 4) && e->cb_budget > 0 && wickr_transport_ctx_get_status(c) == TRANSPORT_STATUS_ACTIVE) {
        e->cb_budget--; do_send(*e, 20 + e->cb_budget, nullptr);
    }
}
void cb_rx(const wickr_transport_ctx_t *c, wickr_buffer_t *data) {
    PauseFaults pf;
    Ep *e = ep_of(c);
    Bytes d = B(data);
    wickr_buffer_destroy(&data);
    if (!e) return;
    g.log("ep%d rx %zu h=%llx", e->id, d.size(), (unsigned long long)fnv(d));
    if (wickr_transport_ctx_get_status(c) != TRANSPORT_STATUS_ACTIVE) g.fail(P07, "delivery-while-not-active", "ep%d delivered data in state %d", e->id, (int)wickr_transport_ctx_get_status(c));
    e->rx_count++;
    if (wickr_transport_ctx_get_status(c) == TRANSPORT_STATUS_ACTIVE) check_active(*e);
    check_delivery(*e, d);
    if ((e->flags & 2) && e->cb_budget > 0) { e->cb_budget--; do_send(*e, 30 + e->cb_budget, nullptr); }
}
void cb_state(const wickr_transport_ctx_t *c, wickr_transport_status s) {
    PauseFaults pf;
    Ep *e = ep_of(c);
    if (!e) return;
    g.log("ep%d state %d -> %d", e->id, (int)e->announced, (int)s);
    wickr_transport_status o = e->announced;
    bool ok = (o == TRANSPORT_STATUS_NONE && s != TRANSPORT_STATUS_NONE) || (o == TRANSPORT_STATUS_INITIAL_HANDSHAKE && (s == TRANSPORT_STATUS_ACTIVE || s == TRANSPORT_STATUS_ERROR)) || (o == TRANSPORT_STATUS_ACTIVE && s == TRANSPORT_STATUS_ERROR);
    if (!ok) g.fail(P07, s == o ? "announced-twice" : "bad-transition", "ep%d announced %d after %d", e->id, (int)s, (int)o);
    if (wickr_transport_ctx_get_status(c) != s) g.fail(P07, "announced-other-status", "ep%d announced %d while its status is %d", e->id, (int)s, (int)wickr_transport_ctx_get_status(c));
    e->announced = s; e->announcements++;
    g.cover(hmix(hmix((uint64_t)o * 7 + s, e->started * 2 + (e->expected < 0)), e->owner == M));
    if (s == TRANSPORT_STATUS_ACTIVE) {
        g.progress();
        check_active(*e);
        int n = (e->flags & 1) ? 1 + (e->flags >> 8) % 3 : 0;
        for (int i = 0; i < n && e->announced == TRANSPORT_STATUS_ACTIVE; i++) do_send(*e, 40 + i, nullptr);
    }
}
void give_verdict(Ep &e, bool ok, const Op *op) {
    wickr_transport_status before = e.announced;
    bool was_pending = e.pending;
    e.pending = false;
    int tx0 = e.tx_count;
    if (was_pending && before != TRANSPORT_STATUS_ERROR) { e.verdict_given = true; e.verdict = ok; if (!ok) e.rejected = true; }
    g.log("ep%d verdict %d (pending %d)", e.id, ok, was_pending);
    bool fired = false;
    {
        Actor a(100 + e.id);
        Frame fr(e);
        if (op) { FaultScope fs(*op); e.cb(e.ctx.p, ok); fired = fs.any(); }
        else { e.cb(e.ctx.p, ok); }
    }
    if (fired) e.tainted = true;
    wickr_transport_status st = wickr_transport_ctx_get_status(e.ctx.p);
    if (e.frames) return;
    if (st != e.announced) g.fail(P07, "unannounced-status", "ep%d has status %d but announced %d", e.id, (int)st, (int)e.announced);
    if (before == TRANSPORT_STATUS_ERROR && (st != TRANSPORT_STATUS_ERROR || e.tx_count != tx0)) g.fail(P07, "left-error", "ep%d reacted to a verdict after its error", e.id);
    if (was_pending && before != TRANSPORT_STATUS_ERROR) {
        if (!ok && st != TRANSPORT_STATUS_ERROR) g.fail(P07, "rejected-not-error", "ep%d has status %d after its application rejected the peer", e.id, (int)st);
        if (ok && st != TRANSPORT_STATUS_ACTIVE && st != TRANSPORT_STATUS_ERROR) g.fail(P07, "stuck-after-verdict", "ep%d is stuck in status %d after the verdict", e.id, (int)st);
        if (ok && st == TRANSPORT_STATUS_ACTIVE && !e.started && e.hs_tx != 1) g.fail(P07, "silent-active", "ep%d is active but transmitted %d handshake packets", e.id, e.hs_tx);
    }
}
void cb_verify(const wickr_transport_ctx_t *c, wickr_identity_chain_t *id, wickr_transport_validate_identity_callback done) {
    PauseFaults pf;
    Ep *e = ep_of(c);
    OChain chain(id);
    if (!e) return;
    e->verify_calls++;
    if (e->expected >= 0) g.log("ep%d asked although pinned", e->id);
    OBuf ser(wickr_identity_chain_serialize(chain.p));
    e->presented = B(ser);
    e->pres_root = chain ? B(chain->root->sig_key->pub_data) : Bytes();
    e->pres_node = chain ? B(chain->node->sig_key->pub_data) : Bytes();
    int who = -1;
    for (int i = 0; i < NPOOL; i++) if (W->rootpub[i] == e->pres_root && W->nodepub[i] == e->pres_node) who = i;
    if (who < 0) g.fail("C05", "asked-with-invalid-chain", "ep%d presented an identity without a valid chain for approval", e->id);
    if (who >= 0) W->learned[who] = std::move(chain);
    e->pend_input = e->cur_input;
    e->cb = done;
    e->pending = true;
    g.log("ep%d identity question: %d", e->id, who);
    if (e->policy == 0) give_verdict(*e, true, nullptr);
    else if (e->policy == 1) give_verdict(*e, false, nullptr);
    // policy 2: answered later by a "verify" operation
}
wickr_transport_callbacks_t callbacks() { wickr_transport_callbacks_t c; c.tx = cb_tx; c.rx = cb_rx; c.on_state = cb_state; c.on_identity_verify = cb_verify; return c; }

// ---------------------------------------------------------------- operations
void settle(Ep &e, const char *what, wickr_transport_status before) {
    wickr_transport_status st = wickr_transport_ctx_get_status(e.ctx.p);
    if (!e.frames && st != e.announced) g.fail(P07, "unannounced-status", "ep%d has status %d but announced %d (%s)", e.id, (int)st, (int)e.announced, what);
    if (before == TRANSPORT_STATUS_ERROR && st != TRANSPORT_STATUS_ERROR) g.fail(P07, "left-error", "ep%d left the error state on %s", e.id, what);
    if (st == TRANSPORT_STATUS_ERROR && wickr_transport_ctx_get_last_error(e.ctx.p) == TRANSPORT_ERROR_NONE) g.fail(P07, "error-without-code", "ep%d is in error without an error code (%s)", e.id, what);
    g.cover(hmix(hmix(fnv(what, strlen(what)), before * 5 + st), e.pending * 4 + e.started * 2 + e.tainted));
}
void do_rx(Ep &e, const Bytes &data, const Op *op) {
    wickr_transport_status before = e.announced;
    bool pend0 = e.pending; int ver0 = e.verify_calls, rx0 = e.rx_count, tx0 = e.tx_count, hs0 = e.hs_tx;
    OBuf b(mkbuf(data));
    bool fired = false;
    {
        Actor a(100 + e.id);
        Frame fr(e);
        e.cur_input = data;
        if (op) { FaultScope fs(*op); wickr_transport_ctx_process_rx_buffer(e.ctx.p, b.p); fired = fs.any(); }
        else { PauseFaults pf; wickr_transport_ctx_process_rx_buffer(e.ctx.p, b.p); }
    }
    if (fired) e.tainted = true;
    wickr_transport_status st = wickr_transport_ctx_get_status(e.ctx.p);
    settle(e, "rx", before);
    if (g.failed() || W->depth || e.frames) return;
    const char *kind = is_data(data) ? "data" : is_hs(data) ? "handshake" : "junk";
    if (before == TRANSPORT_STATUS_ERROR) { if (e.tx_count != tx0 || e.rx_count != rx0) g.fail(P07, "acts-after-error", "ep%d acted on input after its error", e.id); return; }
    if (before == TRANSPORT_STATUS_ACTIVE) {
        if (st == TRANSPORT_STATUS_ACTIVE && e.rx_count == rx0) g.fail(P07, "silently-dropped", "ep%d neither delivered nor reported a %s packet while active", e.id, kind);
        if (e.hs_tx != hs0) g.fail(P07, "handshake-while-active", "ep%d answered a handshake while active", e.id);
        return;
    }
    bool asked = e.verify_calls != ver0;
    if (pend0 && st != TRANSPORT_STATUS_ERROR) g.fail(P07, "input-while-pending", "ep%d accepted a %s packet while waiting for the application's verdict (status %d)", e.id, kind, (int)st);
    if (!pend0 && st != TRANSPORT_STATUS_ACTIVE && st != TRANSPORT_STATUS_ERROR && !asked) g.fail(P07, "stuck", "ep%d stayed in status %d after a %s packet it could not process%s", e.id, (int)st, kind, fired ? " (dependency failed)" : "");
    if (asked && e.policy == 2 && st != before && st != TRANSPORT_STATUS_ERROR) g.fail(P07, "moved-while-pending", "ep%d moved to %d before the verdict", e.id, (int)st);
    if (st == TRANSPORT_STATUS_ACTIVE && !e.started && e.hs_tx - hs0 != 1) g.fail(P07, "silent-active", "ep%d is active but transmitted %d responses", e.id, e.hs_tx - hs0);
    if (e.started && e.hs_tx != hs0) g.fail(P07, "unexpected-handshake", "initiator ep%d transmitted another handshake packet", e.id);
}
void do_send(Ep &e, size_t len, const Op *op) {
    if (!e.alive) return;
    wickr_transport_status before = e.announced;
    Bytes body(len, 0);
    uint64_t no = ++W->msgno; Rng r(no * 77 + 5);
    for (size_t i = 0; i < len; i++) body[i] = (char)r.next();
    if (len >= 8) memcpy(&body[0], &no, 8);
    int tx0 = e.data_tx;
    if (before == TRANSPORT_STATUS_ACTIVE) { if (e.owner != M && len >= 16) W->secrets.add(body, "message plaintext"); }
    size_t slot = e.submitted.size();
    if (wickr_transport_ctx_get_status(e.ctx.p) == TRANSPORT_STATUS_ACTIVE) e.submitted.push_back(body);
    OBuf b(mkbuf(body));
    bool fired = false;
    g.log("ep%d send %zu", e.id, len);
    {
        Actor a(100 + e.id);
        Frame fr(e);
        if (op) { FaultScope fs(*op); wickr_transport_ctx_process_tx_buffer(e.ctx.p, b.p); fired = fs.any(); }
        else { PauseFaults pf; wickr_transport_ctx_process_tx_buffer(e.ctx.p, b.p); }
    }
    (void)slot;
    if (fired) e.tainted = true;
    settle(e, "tx", before);
    if (g.failed() || W->depth || e.frames) return;
    wickr_transport_status st = e.announced;
    if (before != TRANSPORT_STATUS_ACTIVE && st != TRANSPORT_STATUS_ERROR) g.fail(P07, "send-outside-active", "ep%d accepted application data in status %d", e.id, (int)before);
    if (before != TRANSPORT_STATUS_ACTIVE && e.data_tx != tx0) g.fail(P07, "data-while-not-active", "ep%d transmitted data submitted in status %d", e.id, (int)before);
    if (before == TRANSPORT_STATUS_ACTIVE && st == TRANSPORT_STATUS_ACTIVE && e.data_tx == tx0) g.fail(P07, "silently-dropped", "ep%d neither transmitted nor reported submitted data", e.id);
}
void do_start(Ep &e, const Op *op) {
    wickr_transport_status before = e.announced;
    bool pend0 = e.pending;
    int hs0 = e.hs_tx;
    bool can = before == TRANSPORT_STATUS_NONE && !pend0;
    if (can) e.started = true;
    bool fired = false;
    g.log("ep%d start", e.id);
    {
        Actor a(100 + e.id);
        Frame fr(e);
        if (op) { FaultScope fs(*op); wickr_transport_ctx_start(e.ctx.p); fired = fs.any(); }
        else { PauseFaults pf; wickr_transport_ctx_start(e.ctx.p); }
    }
    if (fired) e.tainted = true;
    settle(e, "start", before);
    if (g.failed() || W->depth) return;
    wickr_transport_status st = e.announced;
    if (!can && st != TRANSPORT_STATUS_ERROR) g.fail(P07, "bad-start-accepted", "ep%d accepted a start in status %d%s", e.id, (int)before, pend0 ? " while waiting for a verdict" : "");
    if (can && !W->sync && st != TRANSPORT_STATUS_INITIAL_HANDSHAKE && st != TRANSPORT_STATUS_ERROR) g.fail(P07, "stuck", "ep%d has status %d after start", e.id, (int)st);
    if (can && st != TRANSPORT_STATUS_ERROR && e.hs_tx - hs0 != 1) g.fail(P07, "silent-start", "ep%d transmitted %d packets on start", e.id, e.hs_tx - hs0);
}

OChain public_of(int who) { OBuf b(mkbuf(W->pubser[(size_t)who])); return OChain(wickr_identity_chain_create_from_buffer(b.p, &RAW)); }
// attacker-made identity chains
wickr_identity_chain_t *make_chain(int owner, int kind) {
    PauseFaults pf;
    OChain own(wickr_identity_chain_copy(W->master[owner].p));
    if (kind == 0 || !own) return own.release();
    OChain victim(public_of(kind % 5));
    if (!victim) return nullptr;
    switch ((kind / 5) % 11) {
        case 0: {   // the victim's root above the attacker's node
            return wickr_identity_chain_create(wickr_identity_copy(victim->root), wickr_identity_copy(own->node));
        }
        case 1: {   // the victim's root and node identity, with the attacker's node key
            OId n(wickr_identity_create(IDENTITY_TYPE_NODE, wickr_buffer_copy(victim->node->identifier), wickr_ec_key_copy(own->node->sig_key), wickr_ecdsa_result_copy(victim->node->signature)));
            if (!n) return nullptr;
            return wickr_identity_chain_create(wickr_identity_copy(victim->root), n.release());
        }
        case 2: {   // attacker's key signed by itself under the victim's root
            OSig s(RAW.wickr_crypto_engine_ec_sign(own->node->sig_key, own->node->sig_key->pub_data, DIGEST_SHA_512));
            OId n(wickr_identity_create(IDENTITY_TYPE_NODE, wickr_buffer_copy(victim->node->identifier), wickr_ec_key_copy(own->node->sig_key), s.release()));
            if (!n) return nullptr;
            return wickr_identity_chain_create(wickr_identity_copy(victim->root), n.release());
        }
        case 3: {   // a wholly valid chain of the attacker's that goes by the victim's account identifier
            OId r(wickr_identity_create(IDENTITY_TYPE_ROOT, wickr_buffer_copy(victim->root->identifier), wickr_ec_key_copy(own->root->sig_key), wickr_ecdsa_result_copy(own->root->signature)));
            if (!r) return nullptr;
            return wickr_identity_chain_create(r.release(), wickr_identity_copy(own->node));
        }
        case 4: {   // the same, and by the victim's device identifier as well
            OId r(wickr_identity_create(IDENTITY_TYPE_ROOT, wickr_buffer_copy(victim->root->identifier), wickr_ec_key_copy(own->root->sig_key), wickr_ecdsa_result_copy(own->root->signature)));
            OId n(wickr_identity_create(IDENTITY_TYPE_NODE, wickr_buffer_copy(victim->node->identifier), wickr_ec_key_copy(own->node->sig_key), wickr_ecdsa_result_copy(own->node->signature)));
            if (!r || !n) return nullptr;
            return wickr_identity_chain_create(r.release(), n.release());
        }
        case 5: {   // the attacker's root above the victim's node
            return wickr_identity_chain_create(wickr_identity_copy(own->root), wickr_identity_copy(victim->node));
        }
        case 6: {   // only the victim's device identifier is borrowed
            OId n(wickr_identity_create(IDENTITY_TYPE_NODE, wickr_buffer_copy(victim->node->identifier), wickr_ec_key_copy(own->node->sig_key), wickr_ecdsa_result_copy(own->node->signature)));
            if (!n) return nullptr;
            return wickr_identity_chain_create(wickr_identity_copy(own->root), n.release());
        }
        case 7: {   // the victim's root above an attacker's node that goes by the account's identifier, signed by itself or by the attacker's root
            OSig s(RAW.wickr_crypto_engine_ec_sign(kind & 1 ? own->node->sig_key : own->root->sig_key, own->node->sig_key->pub_data, DIGEST_SHA_512));
            OId n(wickr_identity_create(IDENTITY_TYPE_NODE, wickr_buffer_copy(victim->root->identifier), wickr_ec_key_copy(own->node->sig_key), s.release()));
            if (!n) return nullptr;
            return wickr_identity_chain_create(wickr_identity_copy(victim->root), n.release());
        }
        case 8: {   // a wholly valid chain of the attacker's that goes by the victim's account identifier twice
            OId r(wickr_identity_create(IDENTITY_TYPE_ROOT, wickr_buffer_copy(victim->root->identifier), wickr_ec_key_copy(own->root->sig_key), wickr_ecdsa_result_copy(own->root->signature)));
            OId n(wickr_identity_create(IDENTITY_TYPE_NODE, wickr_buffer_copy(victim->root->identifier), wickr_ec_key_copy(own->node->sig_key), wickr_ecdsa_result_copy(own->node->signature)));
            if (!r || !n) return nullptr;
            return wickr_identity_chain_create(r.release(), n.release());
        }
        case 9: {   // the victim's root above an attacker's node without a signature
            OId n(wickr_identity_create(IDENTITY_TYPE_NODE, wickr_buffer_copy(victim->node->identifier), wickr_ec_key_copy(own->node->sig_key), nullptr));
            if (!n) return nullptr;
            return wickr_identity_chain_create(wickr_identity_copy(victim->root), n.release());
        }
        default: {  // garbled node signature
            OChain c(wickr_identity_chain_copy(own.p));
            if (c && c->node->signature && c->node->signature->sig_data->length > 40) c->node->signature->sig_data->bytes[40] ^= 1;
            return c.release();
        }
    }
}
void do_ep(const Op &op) {
    int id = (int)op.arg(0);
    if (W->eps.count(id) || W->eps.size() > 700) return;
    auto e = std::make_unique<Ep>();
    e->id = id;
    e->owner = (int)(op.arg(1) % NPOOL);
    int exp = (int)op.arg(2); e->expected = exp < 0 ? -1 : exp % NPOOL;
    e->evo = (uint32_t)op.arg(3);
    e->policy = (int)(op.arg(4) % 3);
    e->flags = (int)op.arg(5);
    e->chain_kind = e->owner == M ? (int)op.arg(6) : 0;
    e->cb_budget = (e->flags & 6) ? 3 : 0;
    wickr_identity_chain_t *local, *remote = nullptr;
    {
        PauseFaults pf;
        local = make_chain(e->owner, e->chain_kind);
        if (e->expected >= 0) {
            if (W->share && W->learned.count(e->expected) && W->learned[e->expected].p) remote = wickr_identity_chain_copy(W->learned[e->expected].p);
            else remote = W->share ? wickr_identity_chain_copy(W->master[e->expected].p) : public_of(e->expected).release();
        }
    }
    if (!local) return;
    Actor a(100 + id);
    e->ctx.reset(wickr_transport_ctx_create(ENG, local, remote, e->evo, callbacks(), nullptr));
    if (!e->ctx) { wickr_identity_chain_destroy(&local); wickr_identity_chain_destroy(&remote); return; }
    g.log("ep%d owner %d expects %d evo %u", id, e->owner, e->expected, e->evo);
    W->eps[id] = std::move(e);
}
Ep *get(int64_t id) { auto it = W->eps.find((int)id); return it == W->eps.end() || !it->second->alive ? nullptr : it->second.get(); }
const Bytes *captured(int64_t ep, int64_t n) {
    auto it = W->eps.find((int)ep);
    if (it == W->eps.end() || it->second->sent.empty()) return nullptr;
    auto &s = it->second->sent;
    return &W->wire[s[(size_t)n % s.size()]].data;
}
// A forged sequence number makes the receiver derive that many keys before it can check anything (a known
// finding, exercised by the "hostile" world); here forged numbers are kept small.
Bytes tame(Bytes d) {
    if (is_data(d) && d.size() >= 9) { uint64_t s; memcpy(&s, &d[1], 8); if (s > 0x3fff) { s &= 0x3fff; memcpy(&d[1], &s, 8); } }
    return d;
}
Bytes mutate(const Bytes &in, int64_t kind, int64_t a, int64_t b) {
    Bytes d = in;
    if (d.empty()) return d;
    switch (kind % 9) {
        case 8: d = downgrade(in, 9, a * 16 + b); break;
        case 0: d[(size_t)a % d.size()] ^= (char)(1 << (b & 7)); break;
        case 1: d.resize((size_t)a % d.size()); break;
        case 2: d += Bytes(1 + (size_t)(a % 40), (char)b); break;
        case 3: d.erase((size_t)a % d.size(), 1 + (size_t)(b % 8)); break;
        case 4: d.insert((size_t)a % d.size(), 1 + (size_t)(b % 8), (char)b); break;
        case 5: d[0] = (char)a; break;
        case 6: if (d.size() >= 9) { uint64_t s; memcpy(&s, &d[1], 8); s += (b & 1) ? (uint64_t)(a % 2000) : (uint64_t)-(int64_t)(a % 5); memcpy(&d[1], &s, 8); } break;
        default: if (d.size() > 150) { d[d.size() - 1 - (size_t)(a % MACLEN)] ^= (char)(1 + (b & 127)); } break;
    }
    return tame(d);
}
// handshake packets rebuilt by the attacker out of captured ones
Bytes forge(const Bytes &in, int64_t kind, int64_t x) {
    PauseFaults pf;
    if (!is_hs(in)) return in;
    OBuf ib(mkbuf(in));
    OTPacket pkt(wickr_transport_packet_create_from_buffer(ib.p));
    if (!pkt) return in;
    Wickr__Proto__HandshakeV1 *hs = wickr__proto__handshake_v1__unpack(NULL, pkt->body->length, pkt->body->bytes);
    if (!hs) return in;
    OChain sign(wickr_identity_chain_copy(W->master[M].p));
    Bytes chainb;
    int ck = (int)(x % 60);
    OChain put;
    auto set_chain = [&](wickr_identity_chain_t *c) { OBuf s(wickr_identity_chain_serialize(c)); chainb = B(s); };
    bool keep_sig = false;
    Bytes eph;
    bool drop_chain = false; int idreq = -1, unsign = -1;
    switch (kind % 13) {
        case 0: break;                                               // re-signed only
        case 1: set_chain(W->master[M].p); break;                    // under the attacker's own identity
        case 2: eph = pool_ec[x % pool_ec.size()]; break;            // attacker's ephemeral key
        case 3: put.reset(make_chain(M, 1 + ck)); if (put) { set_chain(put.p); sign.reset(wickr_identity_chain_copy(put.p)); } break;
        case 4: set_chain(W->master[M].p); eph = pool_ec[x % pool_ec.size()]; break;
        case 5: eph = pool_ec[x % pool_ec.size()]; keep_sig = true; break;
        case 6: drop_chain = true; break;
        case 7: idreq = (int)(x & 1); keep_sig = (x & 2) != 0; break;
        // no signature at all, under another kind of authentication
        case 9: eph = pool_ec[x % pool_ec.size()]; unsign = 0; break;
        case 10: eph = pool_ec[x % pool_ec.size()]; unsign = 1 + (int)(x % 15); break;
        case 11: unsign = 0; break;
        case 12: put.reset(make_chain(M, 1 + ck)); if (put) set_chain(put.p); unsign = 0; break;
        default: set_chain(W->master[x % 5].p); keep_sig = (x & 8) != 0; break;   // another honest identity
    }
    Wickr__Proto__IdentityChain *pc = NULL;
    if (!chainb.empty()) pc = wickr__proto__identity_chain__unpack(NULL, chainb.size(), (const uint8_t *)chainb.data());
    Wickr__Proto__IdentityChain **slot = NULL; ProtobufCBinaryData *ep = NULL;
    if (hs->payload_case == WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_SEED) { slot = &hs->seed->id_chain; ep = &hs->seed->ephemeral_pubkey; if (idreq >= 0) hs->seed->identity_required = idreq; }
    else if (hs->payload_case == WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_RESPONSE) { slot = &hs->response->id_chain; ep = &hs->response->ephemeral_pubkey; }
    Wickr__Proto__IdentityChain *orig = NULL;
    if (slot) { orig = *slot; if (pc) *slot = pc; if (drop_chain) *slot = NULL; }
    ProtobufCBinaryData oe = {0, NULL}; Bytes ephpub;
    if (ep && !eph.empty()) {
        OBuf kb(mkbuf(eph)); OEc k(RAW.wickr_crypto_engine_ec_key_import(kb.p, true));
        if (k) { ephpub = B(k->pub_data); oe = *ep; ep->data = (uint8_t *)ephpub.data(); ep->len = ephpub.size(); }
    }
    Bytes body(wickr__proto__handshake_v1__get_packed_size(hs), 0);
    wickr__proto__handshake_v1__pack(hs, (uint8_t *)&body[0]);
    if (oe.data) *ep = oe;
    if (slot) *slot = orig;
    if (pc) wickr__proto__identity_chain__free_unpacked(pc, NULL);
    wickr__proto__handshake_v1__free_unpacked(hs, NULL);
    if (unsign >= 0) { Bytes h = in.substr(0, 10); h[0] = (char)((h[0] & 0xf0) | unsign); return h + body + (unsign && (x & 32) ? in.substr(in.size() > MACLEN ? in.size() - MACLEN : 0) : Bytes()); }
    if (keep_sig) return in.substr(0, 10) + body + in.substr(in.size() > MACLEN ? in.size() - MACLEN : 0);
    wickr_transport_packet_meta_t meta = pkt->meta;
    OTPacket np(wickr_transport_packet_create(meta, mkbuf(body)));
    if (!np || !sign || !wickr_transport_packet_sign(np.p, &RAW, sign.p)) return in;
    OBuf out(wickr_transport_packet_serialize(np.p));
    return B(out);
}
void exec(const Op &op) {
    const std::string &k = op.kind;
    g.sim_time++;
    if (k == "ep") { do_ep(op); return; }
    if (k == "link") { auto a = W->eps.find((int)op.arg(0)), b = W->eps.find((int)op.arg(1)); if (a != W->eps.end() && b != W->eps.end()) { a->second->peer = (int)op.arg(1); b->second->peer = (int)op.arg(0); } return; }
    if (k == "route") { auto a = W->eps.find((int)op.arg(0)); if (a != W->eps.end()) a->second->peer = (int)op.arg(1); return; }
    Ep *e = get(op.arg(0));
    if (!e) return;
    if (k == "start") { do_start(*e, &op); return; }
    if (k == "dl") {
        int64_t n = op.arg(1, 1);
        while (n-- > 0 && !e->inbox.empty() && !g.failed()) { int w = e->inbox.front(); e->inbox.pop_front(); Bytes d = W->wire[w].data; do_rx(*e, d, &op); }
        return;
    }
    if (k == "dlall") { while (!e->inbox.empty() && !g.failed()) { int w = e->inbox.front(); e->inbox.pop_front(); Bytes d = W->wire[w].data; do_rx(*e, d, nullptr); } return; }
    if (k == "drop") { if (!e->inbox.empty()) { e->inbox.pop_front(); g.fault_event("net_drop"); g.log("drop"); } return; }
    if (k == "dup") { if (!e->inbox.empty()) { g.fault_event("net_duplicate"); Bytes d = W->wire[e->inbox.front()].data; do_rx(*e, d, &op); } return; }
    if (k == "swap") { size_t n = e->inbox.size(); if (n >= 2) { size_t i = (size_t)op.arg(1) % n, j = (size_t)op.arg(2) % n; if (i != j) { std::swap(e->inbox[i], e->inbox[j]); g.fault_event("net_reorder"); g.log("swap %zu %zu", i, j); } } return; }
    if (k == "alter") {
        if (e->inbox.empty()) return;
        int w = e->inbox.front(); e->inbox.pop_front();
        Bytes d = mutate(W->wire[w].data, op.arg(1), op.arg(2), op.arg(3));
        g.fault_event("net_alter"); do_rx(*e, d, &op); return;
    }
    if (k == "inj") { const Bytes *c = captured(op.arg(1), op.arg(2)); if (c) { g.fault_event("net_replay"); Bytes d = *c; do_rx(*e, d, &op); } return; }
    if (k == "injmut") { const Bytes *c = captured(op.arg(1), op.arg(2)); if (c) { g.fault_event("net_inject_altered"); do_rx(*e, mutate(*c, op.arg(3), op.arg(4), op.arg(5)), &op); } return; }
    if (k == "forge") { const Bytes *c = captured(op.arg(1), op.arg(2)); if (c) { g.fault_event("net_forge"); do_rx(*e, forge(*c, op.arg(3), op.arg(4)), &op); } return; }
    if (k == "raw") { Rng r(op.arg(2) + 99); g.fault_event("net_junk"); Bytes d = r.bytes((size_t)(op.arg(1) % 400)); if (op.arg(2) % 3 == 0 && d.size()) d[0] = (char)((op.arg(2) >> 3) % 3 << 4 | ((op.arg(2) >> 5) % 4)); do_rx(*e, tame(d), &op); return; }
    if (k == "send") { do_send(*e, (size_t)std::max<int64_t>(op.arg(1, 16) % 600000, 1), &op); return; }
    if (k == "many") {      // a long session: a, b, how many, what is lost
        Ep *b = get(op.arg(1)); int64_t n = std::min<int64_t>(op.arg(2), 70000), lose = op.arg(3);
        if (!b || b == e || e->announced != TRANSPORT_STATUS_ACTIVE || b->announced != TRANSPORT_STATUS_ACTIVE || e->peer != b->id) return;
        bool sy = W->sync; W->sync = false; int fl[2] = {e->flags, b->flags}; e->flags = b->flags = 0;
        g.stat("long_session_packets", (uint64_t)n);
        for (int64_t i = 0; i < n && !g.failed() && e->announced == TRANSPORT_STATUS_ACTIVE; i++) {
            do_send(*e, 8 + (size_t)(i % 3), nullptr);
            if (lose && i + 1 < n && (lose == 1 ? i % 97 == 3 : i % lose != 0) && !b->inbox.empty()) { b->inbox.pop_back(); g.fault_event("net_drop"); continue; }
            while (!b->inbox.empty() && !g.failed()) { int w = b->inbox.front(); b->inbox.pop_front(); Bytes d = W->wire[w].data; do_rx(*b, d, nullptr); }
        }
        W->sync = sy; e->flags = fl[0]; b->flags = fl[1];
        return;
    }
    if (k == "verify") { if (e->cb && (e->pending || (op.arg(2) && e->verify_calls))) { if (!e->pending || e->announced == TRANSPORT_STATUS_ERROR) g.fault_event("late_verdict"); give_verdict(*e, op.arg(1) & 1, &op); } return; }
    if (k == "null") { g.fault_event("null_input"); wickr_transport_status b = e->announced; if (op.arg(1) & 1) wickr_transport_ctx_process_tx_buffer(e->ctx.p, NULL); else wickr_transport_ctx_process_rx_buffer(e->ctx.p, NULL); settle(*e, "null", b); if (!g.failed() && e->announced != TRANSPORT_STATUS_ERROR) g.fail(P07, "null-accepted", "ep%d accepted missing input", e->id); return; }
    if (k == "kill") { g.fault_event("endpoint_crash"); g.log("kill ep%d", e->id); e->alive = false; e->inbox.clear(); return; }
}

void probe_keys() {
    // C05: endpoints whose handshake messages arrived unaltered hold matching keys
    for (auto &o : W->eps) {
        Ep &e = *o.second;
        if (g.failed() || !e.alive || !e.started || e.announced != TRANSPORT_STATUS_ACTIVE || e.owner == M) continue;
        for (auto &p : W->eps) {
            Ep &f = *p.second;
            if (&f == &e || !f.alive || f.started || f.announced != TRANSPORT_STATUS_ACTIVE || f.owner == M) continue;
            if (f.act_input != e.seed || e.act_input != f.resp || e.seed.empty() || f.resp.empty()) continue;
            bool s = W->sync; W->sync = false;
            for (int dir = 0; dir < 2 && !g.failed(); dir++) {
                Ep &x = dir ? f : e, &y = dir ? e : f;
                int fl = x.flags; x.flags = 0; int fy = y.flags; y.flags = 0;
                size_t n0 = x.sent.size(); int rx0 = y.rx_count;
                do_send(x, 64, nullptr);
                if (x.sent.size() == n0 + 1) {
                    Bytes d = W->wire[x.sent.back()].data; do_rx(y, d, nullptr);
                    if (!g.failed() && y.rx_count != rx0 + 1) g.fail("C05", "keys-differ", "ep%d and ep%d are active on the same unaltered handshake but cannot read each other", e.id, f.id);
                }
                x.flags = fl; y.flags = fy;
            }
            W->sync = s;
        }
    }
}

// ---------------------------------------------------------------- C08: fault-free phase
void live_phase(const Plan &p, Rng &r) {
    int ids[2] = {900, 901};
    int oa = (int)r.below(3), ob = 3 + (int)r.below(2);
    if (r.chance(1, 4)) ob = (oa + 1) % 3;
    bool pin_a = r.chance(3, 5), pin_b = r.chance(3, 5);
    int64_t evs[] = {0, 1, 2, 3, 5, 7, 16, 100, 512, 32768};
    if (p.c("live_long")) for (int i = 1; i < 8; i++) evs[i] = 512 << (i % 7);
    bool now_ = p.c("live_sync") != 0;      // a synchronous network cannot hold packets back while a verdict is outstanding
    Op a{"ep", {ids[0], oa, pin_a ? ob : -1, evs[r.below(10)], pin_a || now_ ? 0 : (r.chance(1, 2) ? 0 : 2), (int64_t)(r.below(8) | (r.below(3) << 8)), 0}, {}};
    Op b{"ep", {ids[1], ob, pin_b ? oa : -1, evs[r.below(10)], pin_b || now_ ? 0 : (r.chance(1, 2) ? 0 : 2), (int64_t)(r.below(8) | (r.below(3) << 8)), 0}, {}};
    W->sync = p.c("live_sync") != 0;
    W->share = p.c("share") != 0;
    exec(a); exec(b);
    Ep *ea = get(ids[0]), *eb = get(ids[1]);
    if (!ea || !eb) { g.fail("C08", "cannot-create", "endpoints could not be created"); return; }
    exec(Op{"link", {ids[0], ids[1]}, {}});
    do_start(*ea, nullptr);
    auto pump = [&]() {
        for (int i = 0; i < 20000 && !g.failed(); i++) {
            bool any = false;
            Ep *es[2] = {ea, eb};
            int first = (int)r.below(2);
            for (int j = 0; j < 2; j++) {
                Ep *x = es[(first + j) & 1];
                if (x->pending && r.chance(1, 2)) { any = true; give_verdict(*x, true, nullptr); }
                else if (x->pending) any = true;
                else if (!x->inbox.empty()) { any = true; int n = 1 + (int)r.below(4); while (n-- && !x->inbox.empty() && !x->pending && !g.failed()) { int w = x->inbox.front(); x->inbox.pop_front(); Bytes d = W->wire[w].data; do_rx(*x, d, nullptr); } }
            }
            if (!any) return;
        }
    };
    pump();
    if (g.failed()) return;
    if (ea->announced != TRANSPORT_STATUS_ACTIVE || eb->announced != TRANSPORT_STATUS_ACTIVE) { g.fail("C08", "not-established", "endpoints ended in status %d and %d on a working network (errors %d, %d)", (int)ea->announced, (int)eb->announced, (int)wickr_transport_ctx_get_last_error(ea->ctx.p), (int)wickr_transport_ctx_get_last_error(eb->ctx.p)); return; }
    if (ea->hs_tx != 1 || eb->hs_tx != 1) { g.fail("C08", "handshake-packets", "handshake used %d and %d packets", ea->hs_tx, eb->hs_tx); return; }
    if (p.c("live_long")) {
        Op o{"many", {r.chance(1, 2) ? 900 : 901, 0, 66000, 0}, {}}; o.a[1] = 1801 - o.a[0];
        exec(o);
    }
    int n = (int)p.c("live_msgs", 20);
    for (int i = 0; i < n && !g.failed(); i++) {
        Ep *x = r.chance(1, 2) ? ea : eb;
        int burst = r.chance(1, 5) ? 1 + (int)r.below(30) : 1;
        size_t len = r.chance(1, 12) ? (size_t)r.loguni(66000) : r.chance(1, 10) ? (size_t)r.edge(70000) : r.chance(1, 100) ? (r.chance(1, 3) ? (1u << (17 + r.below(6))) - 20 + (size_t)r.loguni(100000) : 65500 + (size_t)r.loguni(300000)) : r.chance(1, 10) ? 1 + (size_t)r.below(16) : 1 + (size_t)r.below(200);
        if (len > 65000) burst = 1;
        while (burst-- && !g.failed()) do_send(*x, len, nullptr);
        if (r.chance(1, 2)) pump();
    }
    pump();
    if (g.failed()) return;
    if (ea->announced != TRANSPORT_STATUS_ACTIVE || eb->announced != TRANSPORT_STATUS_ACTIVE) { g.fail("C08", "died", "session died on a working network (status %d/%d, error %d/%d)", (int)ea->announced, (int)eb->announced, (int)wickr_transport_ctx_get_last_error(ea->ctx.p), (int)wickr_transport_ctx_get_last_error(eb->ctx.p)); return; }
    if (ea->delivered != (int)eb->submitted.size() || eb->delivered != (int)ea->submitted.size())
        g.fail("C08", "not-delivered", "%d of %zu and %d of %zu buffers were delivered on a working network", ea->delivered, eb->submitted.size(), eb->delivered, ea->submitted.size());
    g.stat("probe:live_epochs", ea->epoch_key.size());
    if (ea->submitted.empty() && eb->submitted.empty()) return;
    g.progress();
    g.cover(hmix(hmix(pin_a * 2 + pin_b, ea->evo * 31 + eb->evo), hmix(ea->flags & 7, eb->flags & 7) + W->sync));
}

void run(const Plan &p) {
    World_ w; W = &w; w.plan = &p;
    w.sync = p.c("sync") != 0; w.share = p.c("share") != 0;
    obs.record_keys = p.prop == "C16" || p.prop.empty();
    for (int i = 0; i < NPOOL; i++) {
        w.master.push_back(OChain(pool_chain(i, true)));
        if (!w.master.back()) { g.fail("C11", "chain-restore", "identity chain cannot be restored from its own serialization"); return; }
        int64_t sib = p.c("sibling", -1);
        if (sib >= 0 && i != sib && (i == M || (p.c("sibling2") && i == (sib + 1) % M))) {   // another device of the account of identity `sib`
            OChain r(pool_chain((int)sib, true)); auto own = w.master.back().p;
            OSig s(r ? RAW.wickr_crypto_engine_ec_sign(r->root->sig_key, own->node->sig_key->pub_data, DIGEST_SHA_512) : nullptr);
            OId n(s ? wickr_identity_create(IDENTITY_TYPE_NODE, wickr_buffer_copy(own->node->identifier), wickr_ec_key_copy(own->node->sig_key), s.p) : nullptr);
            if (n) { s.release(); OChain c(wickr_identity_chain_create(wickr_identity_copy(r->root), n.p)); if (c) { n.release(); w.master.back() = std::move(c); g.fault_event("sibling_device"); } }
        }
        { OBuf s(wickr_identity_chain_serialize(w.master.back().p)); w.pubser.push_back(B(s)); }
        w.rootpub.push_back(B(w.master[i]->root->sig_key->pub_data));
        w.nodepub.push_back(B(w.master[i]->node->sig_key->pub_data));
        if (i != M) {
            if (w.master[i]->root->sig_key->pri_data) w.secrets.add(ec_scalar(B(w.master[i]->root->sig_key->pri_data)), "a private root key");
            if (w.master[i]->node->sig_key->pri_data) w.secrets.add(ec_scalar(B(w.master[i]->node->sig_key->pri_data)), "a private node key");
        }
    }
    if (w.share) for (int i = 0; i < NPOOL; i++) wickr_identity_chain_validate(w.master[i].p, &RAW);
    for (auto &op : p.ops) {
        g.log("op %s %lld %lld", op.kind.c_str(), (long long)op.arg(0), (long long)op.arg(1));
        g.sched_hash = hmix(g.sched_hash, fnv(op.kind) + (uint64_t)op.arg(0) * 131 + (uint64_t)op.arg(1));
        exec(op);
        if (g.failed()) break;
    }
    if (!g.failed() && p.c("probe")) probe_keys();
    if (!g.failed() && p.c("live")) { Rng r(p.seed ^ 0x11aa); if (!p.ops.size()) g.fault_event("schedule_only"); live_phase(p, r); }
    w.eps.clear(); w.learned.clear(); w.master.clear();
    if (p.prop == "C13" || p.prop == "C14") check_leaks(p.prop.c_str());
    W = nullptr;
}

// ---------------------------------------------------------------- generation
typedef std::vector<Op> Thread;
Op mk(const char *k, std::vector<int64_t> a) { return Op{k, a, {}}; }
void add_traffic(Rng &r, Thread &t, int a, int b, int n) {
    for (int i = 0; i < n; i++) {
        int x = r.chance(1, 2) ? a : b, y = x == a ? b : a;
        if (r.chance(3, 5)) t.push_back(mk("send", {x, r.chance(1, 15) ? r.loguni(60000) : r.chance(1, 10) ? r.edge(70000) : r.chance(1, 150) ? 65000 + r.loguni(200000) : 1 + (int64_t)r.below(128)}));
        if (r.chance(3, 5)) t.push_back(mk("dl", {y, 1 + (int64_t)r.below(3)}));
    }
}
void gen(const std::string &prop, Rng &r, Plan &p) {
    p.cfg["share"] = r.chance(1, 2);
    p.cfg["sync"] = 0;
    std::vector<Thread> th;
    int next = 0;
    int npairs = 1 + (int)r.below(3);
    if (prop == "C17" || prop == "C16") npairs = 1 + (int)r.below(2);
    int64_t evs[] = {0, 1, 2, 3, 4, 5, 8, 16, 64, 512, 32767, 32768};
    if (r.chance(1, 3)) { p.cfg["sibling"] = (int64_t)r.below(5); p.cfg["sibling2"] = (int64_t)r.below(2); }
    std::vector<int> eps; 
    bool unpinned_bias = r.chance(1, 2);
    struct Pair { int a, b, oa, ob; }; std::vector<Pair> pairs;
    auto newep = [&](Thread &t, int owner, int expected, int kind = 0, int policy = -1) {
        int id = next++;
        if (policy < 0) policy = r.chance(3, 5) ? 0 : r.chance(1, 4) ? 1 : 2;
        int64_t flags = 0;
        if (r.chance(1, 3)) flags |= 1 | (r.below(3) << 8);
        if (r.chance(1, 5)) flags |= 2;
        if (r.chance(1, 8)) flags |= 4;
        t.push_back(mk("ep", {id, owner, expected, r.chance(1, 2) ? evs[r.below(12)] : 1 + (int64_t)r.below(9), policy, flags, kind}));
        eps.push_back(id);
        return id;
    };
    auto handshake = [&](Thread &t, int a, int b) {
        t.push_back(mk("link", {a, b}));
        t.push_back(mk("start", {a}));
        t.push_back(mk("dl", {b, 1}));
        if (r.chance(1, 2)) t.push_back(mk("verify", {b, 1}));
        t.push_back(mk("dl", {a, 1}));
        if (r.chance(1, 2)) t.push_back(mk("verify", {a, 1}));
    };
    int traffic = prop == "C06" ? 10 + (int)r.below(25) : prop == "C17" ? 10 + (int)r.below(50) : prop == "C05" ? (int)r.below(4) : (int)r.below(14);
    for (int i = 0; i < npairs; i++) {
        Thread t;
        int oa = (int)r.below(5), ob = (int)r.below(5); if (ob == oa) ob = (oa + 1) % 5;
        bool ma = prop != "C17" && r.chance(1, 14), mb = prop != "C17" && r.chance(1, 14);
        int ea = newep(t, ma ? M : oa, r.chance(unpinned_bias ? 2 : 4, 5) ? (mb ? M : ob) : -1, ma ? (int)r.below(61) : 0);
        int eb = newep(t, mb ? M : ob, r.chance(unpinned_bias ? 2 : 4, 5) ? (ma ? M : oa) : -1, mb ? (int)r.below(61) : 0);
        pairs.push_back({ea, eb, oa, ob});
        handshake(t, ea, eb);
        add_traffic(r, t, ea, eb, traffic);
        th.push_back(t);
    }
    bool attacks = prop == "C05" || prop == "C06" || prop == "C14" || prop == "C07" || prop == "C08";
    int nattack = !attacks ? 0 : prop == "C05" ? 1 + (int)r.below(3) : (int)r.below(2);
    for (int i = 0; i < nattack; i++) {
        Thread t;
        auto &pr = pairs[r.below(pairs.size())];
        switch (r.below(10)) {
            case 0: {   // identity misbinding: relay a's seed under the attacker's name to b', relay the answer back
                int ia = newep(t, pr.oa, r.chance(3, 4) ? pr.ob : -1, 0, 0), ib = newep(t, pr.ob, r.chance(2, 3) ? M : -1, 0, 0);
                t.push_back(mk("start", {ia}));
                t.push_back(mk("forge", {ib, ia, 0, r.chance(3, 4) ? 1 : (int64_t)r.below(13), (int64_t)r.below(120)}));
                t.push_back(mk("inj", {ia, ib, 0}));
                if (r.chance(1, 2)) t.push_back(mk("verify", {ia, 1}));
                break;
            }
            case 1: {   // attacker impersonates b towards a with a made-up chain
                int ia = newep(t, pr.oa, r.chance(1, 2) ? pr.ob : -1, 0, r.chance(3, 4) ? 0 : 2), im = newep(t, M, r.chance(1, 2) ? pr.oa : -1, 1 + (int)r.below(60), 0);
                t.push_back(mk("link", {ia, im})); t.push_back(mk("start", {ia})); t.push_back(mk("dl", {im, 1})); t.push_back(mk("dl", {ia, 1}));
                if (r.chance(1, 2)) t.push_back(mk("verify", {ia, 1}));
                break;
            }
            case 2: {   // attacker starts towards b with a made-up chain or as itself
                int im = newep(t, M, r.chance(1, 2) ? pr.ob : -1, (int)r.below(61), 0), ib = newep(t, pr.ob, r.chance(1, 2) ? pr.oa : -1, 0, r.chance(3, 4) ? 0 : 2);
                t.push_back(mk("link", {im, ib})); t.push_back(mk("start", {im})); t.push_back(mk("dl", {ib, 1})); if (r.chance(1, 2)) t.push_back(mk("verify", {ib, 1})); t.push_back(mk("dl", {im, 1}));
                break;
            }
            case 3: {   // fresh attempt, answered with the response of another attempt
                int ia = newep(t, pr.oa, r.chance(3, 4) ? pr.ob : -1, 0, 0);
                t.push_back(mk("start", {ia})); t.push_back(mk("inj", {ia, pr.b, 0})); break;
            }
            case 4: {   // replay a's seed to a second responder
                int ib = newep(t, pr.ob, r.chance(3, 4) ? pr.oa : -1, 0, 0);
                t.push_back(mk("inj", {ib, pr.a, 0})); t.push_back(mk("inj", {ib, pr.a, 1 + (int64_t)r.below(4)})); t.push_back(mk("inj", {pr.a, ib, 0})); break;
            }
            case 5: {   // seed with the attacker's ephemeral key
                int ib = newep(t, pr.ob, r.chance(3, 4) ? pr.oa : -1, 0, 0);
                t.push_back(mk("forge", {ib, pr.a, 0, (int64_t)r.below(13), (int64_t)r.below(120)})); t.push_back(mk("send", {ib, 40})); break;
            }
            case 6: {   // response forged from a genuine one
                int ia = newep(t, pr.oa, r.chance(3, 5) ? pr.ob : -1, 0, 0), ib = newep(t, pr.ob, r.chance(3, 5) ? pr.oa : -1, 0, 0);
                t.push_back(mk("link", {ia, ib})); t.push_back(mk("start", {ia})); t.push_back(mk("dl", {ib, 1})); t.push_back(mk("forge", {ia, ib, 0, (int64_t)r.below(13), (int64_t)r.below(120)})); t.push_back(mk("send", {ia, 50}));
                break;
            }
            case 7: {   // relay: attacker in the middle with its own sessions on both sides
                int ia = newep(t, pr.oa, r.chance(1, 2) ? pr.ob : -1, 0, 0), im1 = newep(t, M, -1, (int)r.below(61), 0), im2 = newep(t, M, -1, (int)r.below(61), 0), ib = newep(t, pr.ob, r.chance(1, 2) ? pr.oa : -1, 0, 0);
                t.push_back(mk("link", {ia, im1})); t.push_back(mk("link", {im2, ib})); t.push_back(mk("start", {ia})); t.push_back(mk("dl", {im1, 1})); t.push_back(mk("start", {im2})); t.push_back(mk("dl", {ib, 1}));
                t.push_back(r.chance(1, 2) ? mk("inj", {ia, ib, 0}) : mk("dl", {ia, 1})); t.push_back(mk("dl", {im2, 1})); t.push_back(mk("send", {ib, 60})); t.push_back(mk("inj", {ia, ib, 1}));
                break;
            }
            case 9: {   // a refused peer tries again, with the same message or another
                int ib = newep(t, pr.ob, -1, 0, r.chance(1, 2) ? 1 : 2), ia = newep(t, pr.oa, r.chance(1, 2) ? pr.ob : -1, 0, 0), ic = r.chance(1, 2) ? newep(t, pr.oa, -1, 0, 0) : ia;
                t.push_back(mk("link", {ia, ib})); t.push_back(mk("start", {ia})); if (ic != ia) t.push_back(mk("start", {ic}));
                t.push_back(mk("dl", {ib, 1})); t.push_back(mk("verify", {ib, 0, 1}));
                t.push_back(mk("inj", {ib, r.chance(1, 2) ? ic : ia, 0})); t.push_back(mk("verify", {ib, (int64_t)r.below(2), (int64_t)r.below(2)})); t.push_back(mk("inj", {ib, ic, 0}));
                t.push_back(mk("inj", {ic, ib, 0})); t.push_back(mk("send", {ib, 20}));
                break;
            }
            default: {  // altered handshake, then traffic
                bool prefix = r.chance(1, 3);
                int ia = newep(t, pr.oa, r.chance(1, 2) ? pr.ob : -1, 0, 0), ib = newep(t, pr.ob, r.chance(1, 2) ? pr.oa : -1, 0, 0);
                t.push_back(mk("link", {ia, ib})); t.push_back(mk("start", {ia}));
                if (r.chance(1, 2)) t.push_back(mk("alter", {ib, prefix ? 0 : (int64_t)r.below(8), prefix ? (int64_t)r.below(11) : (int64_t)r.below(2000), (int64_t)r.below(256)})); else { t.push_back(mk("dl", {ib, 1})); t.push_back(mk("alter", {ia, prefix ? 0 : (int64_t)r.below(8), prefix ? (int64_t)r.below(11) : (int64_t)r.below(2000), (int64_t)r.below(256)})); }
                t.push_back(mk("send", {ib, 60})); t.push_back(mk("dl", {ia, 1}));
            }
        }
        th.push_back(t);
    }
    // interleave
    std::vector<size_t> pos(th.size(), 0);
    for (;;) {
        std::vector<int> av; for (size_t i = 0; i < th.size(); i++) if (pos[i] < th[i].size()) av.push_back((int)i);
        if (av.empty()) break;
        int x = av[r.below(av.size())];
        int burst = 1 + (int)r.below(4);
        while (burst-- && pos[x] < th[x].size()) p.ops.push_back(th[x][pos[x]++]);
    }
    // network faults and misuse at random points
    int noise = prop == "C05" ? (int)r.below(4) : prop == "C06" ? 2 + (int)r.below(14) : prop == "C07" ? 1 + (int)r.below(8) : prop == "C17" ? (int)r.below(6) : (int)r.below(5);
    if (prop == "C17" || prop == "C06") { // keep most sessions alive: only losses for a good part of the runs
        if (r.chance(1, 2)) { for (int i = 0; i < noise * 2; i++) p.ops.insert(p.ops.begin() + r.below(p.ops.size() + 1), mk("drop", {eps[r.below(eps.size())]})); noise = prop == "C06" ? 1 : 0; }
    }
    auto anyep = [&]() { return (int64_t)eps[r.below(eps.size())]; };
    for (int i = 0; i < noise; i++) {
        Op o;
        switch (r.below(prop == "C07" ? 15 : 11)) {
            case 0: o = mk("drop", {anyep()}); break;
            case 1: o = mk("dup", {anyep()}); break;
            case 2: o = mk("swap", {anyep(), (int64_t)r.below(4), (int64_t)r.below(4)}); break;
            case 3: o = mk("alter", {anyep(), (int64_t)r.below(9), (int64_t)r.below(2000), (int64_t)r.below(256)}); break;
            case 4: case 5: o = mk("inj", {anyep(), anyep(), (int64_t)r.below(12)}); break;
            case 6: o = mk("injmut", {anyep(), anyep(), (int64_t)r.below(12), (int64_t)r.below(9), (int64_t)r.below(2000), (int64_t)r.below(256)}); break;
            case 7: o = mk("forge", {anyep(), anyep(), (int64_t)r.below(3), (int64_t)r.below(13), (int64_t)r.below(120)}); break;
            case 8: o = mk("drop", {anyep()}); break;
            case 9: o = mk("swap", {anyep(), 0, 1}); break;
            case 10: o = r.chance(1, 3) ? mk("raw", {anyep(), (int64_t)r.below(400), (int64_t)r.below(1000)}) : mk("drop", {anyep()}); break;
            case 11: o = mk("start", {anyep()}); break;
            case 12: o = mk("verify", {anyep(), (int64_t)r.below(2), 1}); break;
            case 13: o = mk("send", {anyep(), 33}); break;
            default: o = mk("null", {anyep(), (int64_t)r.below(2)}); break;
        }
        p.ops.insert(p.ops.begin() + r.below(p.ops.size() + 1), o);
    }
    if (prop == "C07" || prop == "C05") for (auto e : eps) if (r.chance(1, 3)) p.ops.push_back(mk("verify", {e, (int64_t)r.below(4) != 0, 1}));
    // dependency failures inside operations
    bool faults = prop == "C07" || prop == "C16" || prop == "C04" || prop == "C14" || ((prop == "C05" || prop == "C06") && r.chance(1, 4));
    if (faults && r.chance(3, 4)) {
        int n = 1 + (int)r.below(3);
        for (int i = 0; i < n; i++) {
            Op &o = p.ops[r.below(p.ops.size())];
            if (o.kind != "start" && o.kind != "dl" && o.kind != "send" && o.kind != "verify" && o.kind != "inj") { continue; }
            int kinds[] = {F_ALLOC, F_RNG, F_ENGINE, F_OSSL};
            int k = kinds[r.below(prop == "C04" ? 2 : 4)];
            if (prop == "C04") k = r.chance(2, 3) ? F_RNG : F_ALLOC;
            o.faults.push_back(Fault{k, r.loguni(k == F_ALLOC ? 400 : k == F_OSSL ? 120 : k == F_ENGINE ? 30 : 6), r.chance(1, 8)});
        }
    }
    if (prop != "C05" && prop != "C07" && r.chance(1, prop == "C06" || prop == "C17" || prop == "C04" ? 12 : 60)) {
        auto &pr = pairs[r.below(pairs.size())]; bool dir = r.chance(1, 2);
        bool huge = r.chance(1, 40) && prop != "C16";
        if (huge) { static const int64_t he[] = {0, 512, 4096, 32768}; for (auto &o : p.ops) if (o.kind == "ep") o.a[3] = he[r.below(4)]; }
        Op o = mk("many", {dir ? pr.a : pr.b, dir ? pr.b : pr.a, huge ? 65000 + (int64_t)r.below(2000) : 230 + (int64_t)r.below(400), r.chance(1, 2) ? 0 : 1 + (int64_t)r.below(5)});
        if (r.chance(1, 2) || huge) p.ops.push_back(o); else p.ops.insert(p.ops.begin() + (long)(p.ops.size() / 2 + r.below(p.ops.size() / 2 + 1)), o);
    }
    if (prop == "C08") {
        p.cfg["live_long"] = r.chance(1, 300);
        p.cfg["live"] = 1;
        p.cfg["live_sync"] = r.chance(1, 4);
        p.cfg["live_msgs"] = r.chance(1, 25) ? 400 : (int64_t)r.below(40);
        if (r.chance(1, 2)) p.ops.clear();
        if (r.chance(1, 30)) {      // a long row of attempts that come to nothing: lost, altered, refused or left hanging
            int n = 10 + (int)r.below(r.chance(1, 6) ? 130 : 40); bool same = r.chance(1, 3); int how = (int)r.below(5);
            p.ops.clear();
            for (int i = 0; i < n; i++) {
                auto &pr = pairs[same ? 0 : r.below(pairs.size())]; Thread t; int k = how == 4 ? (int)r.below(4) : how;
                int ia = newep(t, pr.oa, k == 3 ? (pr.ob + 1) % 5 : pr.ob, 0, k == 2 ? 1 : 0), ib = newep(t, pr.ob, r.chance(1, 2) ? pr.oa : -1, 0, 0);
                t.push_back(mk("link", {ia, ib})); t.push_back(mk("start", {ia}));
                if (k == 1) t.push_back(mk("alter", {ib, (int64_t)r.below(8), (int64_t)r.below(2000), (int64_t)r.below(256)}));
                else if (k >= 2) { t.push_back(mk("dl", {ib, 1})); if (k == 2) t.push_back(mk("verify", {ib, 0, 1})); t.push_back(mk("dl", {ia, 1})); }
                p.ops.insert(p.ops.end(), t.begin(), t.end());
            }
        }
    }
    if (prop == "C05") p.cfg["probe"] = 1;
    if (prop == "C06" || prop == "C07") p.cfg["sync"] = r.chance(1, 6);
}
}
extern const World W_session;
const World W_session = {"session", gen, run};
