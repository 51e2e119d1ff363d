// World "file": the file cipher on a simulated disk: read/write/open/close/seek/rename/remove errors, short reads and
// writes, a full disk, allocation / randomness / libcrypto failures, and process death at any disk operation.
#include "lib.hpp"
#include "vfs.hpp"
#include <memory>
#include <algorithm>
#include <openssl/evp.h>

namespace {
struct Prov { bool enc = false, genuine = false; int key = -1; bool gcm = true; Bytes plain; };   // what a file is known to hold
struct W_ { std::vector<OKey> keys; std::map<Bytes, Prov> reg;   // every encrypted content a successful encryption produced
    Prov of(const std::string &f) { auto it = reg.find(vfs.get(f)); return vfs.has(f) && it != reg.end() ? it->second : Prov(); }
    Secrets sec; uint64_t n = 0; };
W_ *W;
const int NN = 6;
std::string names[NN];
// short names, or long ones of which some are the beginnings of others
void set_names(int64_t v) {
    static const int cut[] = {32, 64, 100, 128, 200, 255, 256, 260, 500, 512, 1000, 1024, 2000};
    static const char *plain[NN] = {"/d/a", "/d/b", "/d/c", "/d/e", "/d/a.temp", "/d/b.temp"};
    for (int i = 0; i < NN; i++) names[i] = plain[i];
    if (v <= 0) return;
    size_t n = (size_t)cut[v % 13] - (size_t)((v / 13) % 2);     // with and without room for a terminator
    std::string base = "/d/"; while (base.size() < n) base += base.size() % 50 == 49 ? '/' : (char)('a' + base.size() % 7);
    if (base.back() == '/') base.back() = 'k';
    names[1] = base; names[0] = base + "more"; names[2] = base + std::string(1 + (size_t)(v % 60), 'q'); names[3] = base.substr(0, n - 5) + "_e";
    names[4] = names[0] + ".temp"; names[5] = names[1] + ".temp";
    g.stat("long_names");
}
std::string nm(int64_t i) { return names[(size_t)(i < 0 ? -i : i) % NN]; }
std::map<std::string, Bytes> snap() { std::map<std::string, Bytes> m; for (auto &f : vfs.files) m[f.first] = f.second->data; return m; }

// Independent reference: decrypts a whole encrypted file in memory. ok=false when it is not a valid result.
bool ref_decrypt(const Bytes &f, int key, Bytes &out) {
    PauseFaults pf;
    const wickr_cipher_t *c = &W->keys[key]->cipher;
    size_t h = 1 + c->iv_len + (c->is_authenticated ? c->auth_tag_len : 0);
    if (f.size() < h || (uint8_t)f[0] != (uint8_t)c->cipher_id) return false;
    Bytes k = B(W->keys[key]->key_data);
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
    const EVP_CIPHER *m = c->is_authenticated ? EVP_aes_256_gcm() : EVP_aes_256_ctr();
    out.assign(f.size() - h, 0); int n = 0; unsigned char fin[32];
    bool ok = EVP_DecryptInit_ex(x, m, NULL, (const unsigned char *)k.data(), (const unsigned char *)f.data() + 1) == 1;
    if (ok && out.size()) ok = EVP_DecryptUpdate(x, (unsigned char *)&out[0], &n, (const unsigned char *)f.data() + h, (int)out.size()) == 1;
    if (ok && c->is_authenticated) { Bytes t = f.substr(1 + c->iv_len, c->auth_tag_len); ok = EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_GCM_SET_TAG, (int)t.size(), &t[0]) == 1 && EVP_DecryptFinal_ex(x, fin, &n) == 1; }
    EVP_CIPHER_CTX_free(x);
    return ok;
}
bool is_key(int64_t k) { return (size_t)k < W->keys.size(); }
void scan_emitted(const Bytes &b, const char *where) {
    const char *s = W->sec.scan(b);
    if (s) g.fail("C16", "secret-in-file", "%s contains %s in the clear", where, s);
}
struct Outcome { bool ok, fired, crashed; };

// Checks one finished or crashed operation against the state before it.
void judge(const char *what, const Outcome &o, const std::map<std::string, Bytes> &before, const std::string &src, const std::string &dst, bool enc, int key, bool expect, const Bytes *want) {
    const std::string tmp = dst + ".temp";
    const Bytes sb = before.count(src) ? before.at(src) : Bytes();
    auto complete = [&](const Bytes &b) {
        if (!enc) return want && b == *want;
        Bytes x; return ref_decrypt(b, key, x) && x == sb;
    };
    auto cur = snap();
    auto same = [&](const std::string &f) { return before.count(f) == cur.count(f) && (!before.count(f) || before.at(f) == cur.at(f)); };
    for (int i = 0; i < NN; i++) {
        std::string f = names[i];
        if (f == dst || f == src) continue;
        if (f == tmp) continue;
        if (!same(f)) { g.fail("C10", "bystander-changed", "%s %s -> %s changed %s", what, src.c_str(), dst.c_str(), f.c_str()); return; }
    }
    for (auto &f : cur) {
        bool known = false; for (auto &n : names) if (f.first == n) known = true;
        if (f.first == tmp) known = true;
        if (!known && !o.crashed && !before.count(f.first) && vfs.fired_remove == 0) { g.fail("C10", "stray-file", "%s %s -> %s leaves %s behind", what, src.c_str(), dst.c_str(), f.first.c_str()); return; }
    }
    if (src != dst && !same(src)) { g.fail("C10", "source-changed", "%s %s -> %s changed its source", what, src.c_str(), dst.c_str()); return; }
    if (o.crashed) {
        if (!same(dst) && !(cur.count(dst) && expect && complete(cur[dst]))) g.fail("C10", "torn-after-crash", "after a crash during %s %s -> %s the destination is neither the old nor the complete new content (%zu bytes)", what, src.c_str(), dst.c_str(), cur.count(dst) ? cur[dst].size() : (size_t)0);
        if (enc) for (auto &f : cur) if (f.first != src && (!before.count(f.first) || before.at(f.first) != f.second)) scan_emitted(f.second, "a file left by a crash");
        return;
    }
    if (o.ok) {
        if (!expect) { g.fail("C10", enc ? "accepted-impossible" : "tampered-accepted", "%s %s -> %s succeeds although the source is %s", what, src.c_str(), dst.c_str(), enc ? "missing" : "altered, truncated, extended or under another key"); return; }
        if (!cur.count(dst) || !complete(cur[dst])) { g.fail("C10", "incomplete-success", "%s %s -> %s reports success but the destination does not hold the complete result (%zu bytes from %zu)", what, src.c_str(), dst.c_str(), cur.count(dst) ? cur[dst].size() : (size_t)0, sb.size()); return; }
        if (enc) { const wickr_cipher_t &c = W->keys[key]->cipher; note_kiv(B(W->keys[key]->key_data), cur[dst].substr(1, c.iv_len)); scan_emitted(cur[dst], "an encrypted file"); }
        if (enc && o.fired && vfs.fired_read + vfs.fired_write + vfs.fired_close + vfs.fired_open + vfs.fired_rename + vfs.fired_seek == 0) g.stat("success_despite_fault");
        g.progress();
    } else {
        if (!same(dst)) { g.fail("C10", "failed-but-changed", "%s %s -> %s fails but the destination changed", what, src.c_str(), dst.c_str()); return; }
        if (expect && !o.fired) { g.fail("C10", "refused", "%s %s -> %s fails although nothing failed (%zu source bytes)", what, src.c_str(), dst.c_str(), sb.size()); return; }
    }
    bool tmp_expected = tmp == src;
    if (!tmp_expected && cur.count(tmp) && vfs.fired_remove == 0 && !before.count(tmp)) { g.fail("C10", "temporary-left", "%s %s -> %s (%s) leaves its temporary file behind", what, src.c_str(), dst.c_str(), o.ok ? "success" : "failure"); return; }
    if (enc && !o.ok && cur.count(tmp) && !same(tmp)) scan_emitted(cur[tmp], "a temporary file");
    if (vfs.open_handles) { g.fail("C13", "handle-left-open", "%s leaves a file handle open", what); }
}
bool disk_full_hit() { return vfs.fired_write > 0; }

bool same_key(int a, int b) { return a >= 0 && B(W->keys[a]->key_data) == B(W->keys[b]->key_data) && W->keys[a]->cipher.cipher_id == W->keys[b]->cipher.cipher_id; }
// content that any encryption under the key, failed or not, completed for these source bytes
void reg_complete(const std::string &f, int key, const Bytes &plain) {
    Bytes x;
    if (!vfs.has(f) || !ref_decrypt(vfs.get(f), key, x) || x != plain) return;
    Prov np; np.enc = np.genuine = true; np.key = key; np.gcm = W->keys[key]->cipher.is_authenticated; np.plain = plain;
    W->reg[vfs.get(f)] = np;
}
void do_op(const Op &op, bool enc) {
    int key = (int)(op.arg(0) % (int64_t)W->keys.size());
    std::string src = nm(op.arg(1)), dst = nm(op.arg(2));
    bool only_auth = op.arg(3) & 1;
    vfs.err_mode = (op.arg(3) >> 1) & 1; vfs.short_reads = (op.arg(3) >> 2) & 1;
    int64_t cap = op.arg(4, -1);
    const wickr_cipher_t &c = W->keys[key]->cipher;
    for (int attempt = 0; attempt < 2; attempt++) {
        auto before = snap();
        Prov sp = W->of(src);
        bool have = vfs.has(src);
        bool expect; Bytes want;
        if (enc) expect = have && src != dst + ".temp";
        else {
            Bytes ref;
            bool valid = have && ref_decrypt(vfs.get(src), key, ref);
            expect = valid && src != dst + ".temp" && !(only_auth && !c.is_authenticated);
            want = ref;
            // what decrypts must be what was encrypted (authenticated ciphers)
            if (valid && c.is_authenticated && !(sp.enc && same_key(sp.key, key))) g.stat("unexpected_valid");
        }
        vfs.clear_fired();
        bool use_faults = attempt == 0;
        vfs.capacity = use_faults && cap >= 0 ? vfs.used() + cap : -1;
        Outcome o;
        g.log("%s %s -> %s key %d attempt %d", enc ? "encrypt" : "decrypt", src.c_str(), dst.c_str(), key, attempt);
        {
            FaultScope fs(use_faults ? op.faults : std::vector<Fault>());
            o.ok = enc ? RAW.wickr_crypto_engine_encrypt_file(W->keys[key].p, src.c_str(), dst.c_str()) : RAW.wickr_crypto_engine_decrypt_file(W->keys[key].p, src.c_str(), dst.c_str(), only_auth);
            o.fired = fs.any() || disk_full_hit();
        }
        vfs.capacity = -1;
        o.crashed = vfs.crashed;
        if (vfs.fired_open + vfs.fired_read + vfs.fired_write + vfs.fired_seek + vfs.fired_close + vfs.fired_rename + vfs.fired_remove)
            g.stat(std::string("io_fault_") + (vfs.fired_open ? "open" : vfs.fired_read ? "read" : vfs.fired_write ? "write" : vfs.fired_seek ? "seek" : vfs.fired_close ? "close" : vfs.fired_rename ? "rename" : "remove"));
        g.cover(hmix(hmix(enc * 8 + c.is_authenticated * 4 + o.ok * 2 + o.crashed, hmix(vfs.fired_open * 2 + vfs.fired_read, vfs.fired_write * 2 + vfs.fired_seek)), hmix(vfs.fired_close * 4 + vfs.fired_rename * 2 + vfs.fired_remove, hmix(src == dst, std::min<size_t>(before.count(src) ? before[src].size() / 1024 : 999, 70)))));
        if (o.crashed) {
            if (vfs.open_handles) g.stat("handles_after_crash");
            vfs.reboot();
            judge(enc ? "encrypt" : "decrypt", o, before, src, dst, enc, key, expect, enc ? nullptr : &want);
            if (g.failed()) return;
        } else judge(enc ? "encrypt" : "decrypt", o, before, src, dst, enc, key, expect, enc ? nullptr : &want);
        if (g.failed()) return;
        // what the destination is now known to hold
        if (vfs.has(dst) && (!before.count(dst) || before[dst] != vfs.get(dst))) {
            Prov np;
            if (enc) { np.enc = np.genuine = true; np.key = key; np.gcm = c.is_authenticated; np.plain = before[src]; }
            else {
                // C10 round trip through the recorded history: a genuine authenticated file decrypts to what went in
                if (sp.enc && sp.genuine && same_key(sp.key, key) && vfs.get(dst) != sp.plain) { g.fail("C10", "round-trip", "decrypting %s gives %zu bytes instead of the %zu that were encrypted", src.c_str(), vfs.get(dst).size(), sp.plain.size()); return; }
                if (c.is_authenticated && !(sp.enc && sp.genuine && same_key(sp.key, key))) { g.fail("C10", "tampered-accepted", "%s was not produced by encrypting with this key, or was altered since, yet decrypts", src.c_str()); return; }
            }
            if (enc) W->reg[vfs.get(dst)] = np;
        }
        // a failed or crashed encryption may leave a complete result behind
        if (enc) { reg_complete(dst + ".temp", key, before[src]); reg_complete(dst, key, before[src]); }
        // repeat without faults after a failure or crash: the operation must then go through
        bool again = (o.crashed || (!o.ok && o.fired)) && op.arg(5);
        if (!again) break;
        if (!vfs.has(src)) break;
    }
}
void do_stream(const Op &op, bool enc) {
    int key = (int)(op.arg(0) % (int64_t)W->keys.size());
    std::string src = nm(op.arg(1)), dst = nm(op.arg(2));
    if (src == dst || !vfs.has(src)) return;
    const wickr_cipher_t &c = W->keys[key]->cipher;
    vfs.err_mode = (op.arg(3) >> 1) & 1; vfs.short_reads = (op.arg(3) >> 2) & 1;
    Prov sp = W->of(src);
    Bytes sb = vfs.get(src), ref; bool only_auth = op.arg(3) & 1;
    bool expect = enc || (ref_decrypt(sb, key, ref) && !(only_auth && !c.is_authenticated));
    vfs.clear_fired();
    FILE *in = vfs_open(src.c_str(), "rb"), *out = vfs_open(dst.c_str(), "wb");
    if (!in || !out) return;
    bool ok, fired;
    {
        FaultScope fs(op);
        ok = enc ? RAW.wickr_crypto_engine_encrypt_ofile(in, W->keys[key].p, out) : RAW.wickr_crypto_engine_decrypt_ofile(in, W->keys[key].p, out, only_auth);
        { PauseFaults pf; fclose(in); }
        if (fclose(out)) ok = false;
        fired = fs.any();
    }
    bool crashed = vfs.crashed;
    if (crashed) vfs.reboot();
    if (enc) reg_complete(dst, key, sb);
    if (crashed) return;
    Prov np; np.key = key;
    if (ok && !expect) { g.fail("C10", "tampered-accepted", "decrypting the stream %s succeeds although it is altered or under another key", src.c_str()); return; }
    if (!ok && expect && !fired) { g.fail("C10", "refused", "stream %s of %zu bytes fails although nothing failed", enc ? "encryption" : "decryption", sb.size()); return; }
    if (ok && enc) {
        Bytes x, f = vfs.get(dst);
        if (!ref_decrypt(f, key, x) || x != sb) { g.fail("C10", "incomplete-success", "stream encryption of %zu bytes reports success but the result does not decrypt to them", sb.size()); return; }
        note_kiv(B(W->keys[key]->key_data), f.substr(1, c.iv_len)); scan_emitted(f, "an encrypted stream");
        np.enc = np.genuine = true; np.gcm = c.is_authenticated; np.plain = sb; g.progress();
    }
    if (ok && !enc) {
        if (vfs.get(dst) != ref) { g.fail("C10", "incomplete-success", "stream decryption reports success but gives other bytes"); return; }
        if (sp.enc && sp.genuine && same_key(sp.key, key) && ref != sp.plain) g.fail("C10", "round-trip", "stream decryption of %s does not give what was encrypted", src.c_str());
        g.progress();
    }
    if (np.enc) W->reg[vfs.get(dst)] = np;
}
void exec(const Op &op) {
    const std::string &k = op.kind;
    g.sim_time++;
    if (k == "names") { if (vfs.files.empty()) set_names(op.arg(0)); return; }
    if (k == "key") {
        Rng r(op.arg(1) + 1);
        const wickr_cipher_t &c = op.arg(0) ? CIPHER_AES256_CTR : CIPHER_AES256_GCM;
        Bytes kb = r.bytes(c.key_len);
        W->keys.emplace_back(wickr_cipher_key_create(c, mkbuf(kb)));
        W->sec.add(kb, "the file key");
        return;
    }
    if (k == "sib") {       // the same key bytes under the other mode
        if (W->keys.empty()) return;
        auto &o = W->keys[(size_t)op.arg(0) % W->keys.size()];
        W->keys.emplace_back(wickr_cipher_key_create(o->cipher.is_authenticated ? CIPHER_AES256_CTR : CIPHER_AES256_GCM, wickr_buffer_copy(o->key_data)));
        return;
    }
    if (W->keys.empty()) return;
    if (k == "put") {
        Rng r(op.arg(2) * 7 + 1); size_t n = (size_t)op.arg(1);
        Bytes b = r.bytes(n);
        if (op.arg(2) % 5 == 0) b.assign(n, (char)op.arg(2));
        vfs.put(nm(op.arg(0)), b);
        if (n >= 32 && op.arg(2) % 5) { W->sec.add(b.substr(0, 24), "source bytes"); W->sec.add(b.substr(n - 24), "source bytes"); W->sec.add(b.substr(n / 2, 12), "source bytes"); }
        g.log("put %s %zu", nm(op.arg(0)).c_str(), n);
        return;
    }
    if (k == "rm") { vfs.files.erase(nm(op.arg(0))); return; }
    if (k == "cp") { std::string a = nm(op.arg(0)), b = nm(op.arg(1)); if (vfs.has(a) && a != b) vfs.put(b, vfs.get(a)); return; }
    if (k == "alter") {
        std::string f = nm(op.arg(0)); if (!vfs.has(f)) return;
        Bytes d = vfs.get(f), o = d; int64_t a = op.arg(2), b = op.arg(3);
        if (d.empty()) return;
        switch (op.arg(1) % 9) {
            case 0: d[(size_t)a % d.size()] ^= (char)(1 << (b & 7)); break;
            case 1: d.resize((size_t)a % d.size()); break;
            case 2: d += Bytes(1 + (size_t)(a % 5000), (char)b); break;
            case 3: d[0] = (char)b; break;
            case 4: d[(size_t)a % std::min<size_t>(d.size(), 29)] ^= (char)(1 << (b & 7)); break;
            case 5: { size_t bs = 4096; if (d.size() > 2 * bs) { size_t n = d.size() / bs; size_t x = (size_t)a % n, y = (size_t)b % n; Bytes t = d.substr(x * bs, bs); d.replace(x * bs, bs, d.substr(y * bs, bs)); d.replace(y * bs, bs, t); } break; }
            case 6: d.resize(d.size() - std::min<size_t>(d.size(), 1 + (size_t)(a % 16))); break;
            case 8: d = downgrade(d, 0, a * 16 + b); break;
            default: if (d.size() > 30) d.erase(29 + (size_t)a % (d.size() - 29), 1 + (size_t)(b % 16)); break;
        }
        if (d == o) return;
        g.fault_event("file_alter");
        vfs.put(f, d);
        g.log("alter %s", f.c_str());
        return;
    }
    if (k == "enc") { do_op(op, true); return; }
    if (k == "dec") { do_op(op, false); return; }
    if (k == "senc") { do_stream(op, true); return; }
    if (k == "sdec") { do_stream(op, false); return; }
    if (k == "digest") {
        std::string f = nm(op.arg(0)); if (!vfs.has(f)) return;
        FILE *in = vfs_open(f.c_str(), "rb"); if (!in) return;
        OBuf d; bool fired;
        { FaultScope fs(op); d.reset(RAW.wickr_crypto_engine_digest_file(in, DIGEST_SHA_256)); fired = fs.any(); }
        fclose(in);
        if (vfs.crashed) { vfs.reboot(); return; }
        Bytes x = vfs.get(f); unsigned char o[32]; unsigned n = 32;
        EVP_Digest(x.data(), x.size(), o, &n, EVP_sha256(), NULL);
        if (!d && !fired) g.fail("C10", "refused", "digest of %s fails", f.c_str());
        if (d && B(d) != Bytes((char *)o, 32)) g.fail("C10", "wrong-digest", "the digest of %s (%zu bytes) is reported wrong", f.c_str(), x.size());
        return;
    }
}
void run(const Plan &p) {
    W_ w; W = &w;
    vfs.reset(); set_names(0);
    for (auto &op : p.ops) { exec(op); g.steps++; if (g.failed()) break; }
    vfs.on = false;
    w.keys.clear();
    check_leaks("C14");
    vfs.files.clear(); vfs.image.clear();
    W = nullptr;
}
Op mk(const char *k, std::vector<int64_t> a) { return Op{k, a, {}}; }
int64_t size_of(Rng &r) {
    static const int64_t edge[] = {0, 1, 2, 15, 16, 17, 28, 29, 30, 31, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 4096 - 29, 4096 - 17, 65535, 65536, 65537};
    if (r.chance(1, 2)) return edge[r.below(22)];
    if (r.chance(1, 60)) { static const int64_t big[] = {131072, 262144, 262145, 524288, 1048575, 1048576, 1048577, 2097152 + 77}; return big[r.below(8)]; }
    return r.loguni(60000);
}
void gen(const std::string &prop, Rng &r, Plan &p) {
    if (r.chance(1, 5)) p.ops.push_back(mk("names", {1 + (int64_t)r.below(1560)}));
    int nk = 1 + (int)r.below(3);
    for (int i = 0; i < nk; i++) p.ops.push_back(mk("key", {(int64_t)r.chance(1, 4), (int64_t)r.below(1000)}));
    if (r.chance(1, 3)) { p.ops.push_back(mk("sib", {(int64_t)r.below(nk)})); nk++; }
    auto K = [&]() { return (int64_t)(r.chance(3, 4) ? 0 : r.below(nk)); };
    auto N = [&]() { return (int64_t)(r.chance(9, 10) ? r.below(4) : r.below(NN)); };
    p.ops.push_back(mk("put", {N(), size_of(r), (int64_t)r.below(1000)}));
    p.ops.push_back(mk("put", {0, size_of(r), (int64_t)r.below(1000)}));
    int n = 4 + (int)r.below(14);
    for (int i = 0; i < n; i++) {
        Op o;
        int x = (int)r.below(20);
        int64_t fl = (int64_t)r.below(2) | (int64_t)r.below(2) << 1 | (int64_t)r.chance(1, 4) << 2;
        int64_t cap = r.chance(1, 10) ? r.loguni(70000) - 1 : -1;
        if (x < 7) { int64_t s = N(); o = mk("enc", {K(), s, r.chance(1, 6) ? s : N(), fl, cap, (int64_t)r.chance(1, 2)}); p.ops.push_back(o); if (r.chance(2, 3)) { if (r.chance(1, 3)) p.ops.push_back(mk("alter", {o.a[2], (int64_t)r.below(8), (int64_t)r.below(100000), (int64_t)r.below(256)})); p.ops.push_back(mk("dec", {r.chance(5, 6) ? o.a[0] : K(), o.a[2], r.chance(1, 5) ? o.a[2] : N(), (int64_t)(r.below(8)), r.chance(1, 10) ? r.loguni(70000) - 1 : -1, 1})); } continue; }
        else if (x < 11) o = mk("dec", {K(), N(), N(), fl, cap, (int64_t)r.chance(1, 2)});
        else if (x < 13) o = mk("put", {N(), size_of(r), (int64_t)r.below(1000)});
        else if (x < 15) o = mk("alter", {N(), (int64_t)r.below(9), (int64_t)r.below(100000), (int64_t)r.below(256)});
        else if (x < 16) o = mk("cp", {N(), N()});
        else if (x < 17) o = mk("senc", {K(), N(), N(), fl});
        else if (x < 18) o = mk("sdec", {K(), N(), N(), fl});
        else if (x < 19) o = mk("rm", {N()});
        else o = mk("digest", {N()});
        p.ops.push_back(o);
    }
    int nf = r.chance(5, 6) ? 1 + (int)r.below(4) : 0;
    if (prop == "C04" || prop == "C16") nf += 1;
    for (int i = 0; i < nf * 3; i++) {
        Op &o = p.ops[r.below(p.ops.size())];
        bool f = o.kind == "enc" || o.kind == "dec";
        if (!f && o.kind != "senc" && o.kind != "sdec" && o.kind != "digest") continue;
        int fk = (int)r.below(10); int kind = fk < 4 ? F_IO : fk < 7 && f ? F_CRASH : fk < 8 ? F_ALLOC : fk < 9 ? F_OSSL : F_RNG;
        if (prop == "C04" && r.chance(1, 2)) kind = F_RNG;
        o.faults.push_back(Fault{kind, kind == F_RNG ? 1 : r.loguni(kind == F_IO || kind == F_CRASH ? 24 : 14), kind == F_CRASH ? 0 : (int64_t)r.chance(1, 5)});
        if (r.chance(1, 12)) o.faults.push_back(Fault{F_IO, r.loguni(24), 0});
        if (f && r.chance(1, 10)) o.faults.push_back(Fault{F_RENAME, 1 + (int64_t)r.below(2) / 2, (int64_t)r.chance(1, 2)});
    }
}
}
extern const World W_file;
const World W_file = {"file", gen, run};
