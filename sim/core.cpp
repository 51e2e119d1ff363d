#include <execinfo.h>
#include "core.hpp"
#include <sanitizer/asan_interface.h>
#include <cstdarg>
#include <cstdlib>
#include <sstream>
#include <openssl/rand.h>
#include <openssl/crypto.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/ec.h>
#include <openssl/ecdsa.h>
#include <openssl/kdf.h>
#include <openssl/x509.h>
#include <unistd.h>

Sim g;
int last_scope_fired = 0;
const char *fault_kind_name[F_NKINDS] = {"alloc", "rng", "engine", "ossl", "io", "crash", "kdf", "rename"};

uint64_t fnv(const void *p, size_t n, uint64_t h) {
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
std::string hex(const Bytes &b, size_t max) {
    static const char *d = "0123456789abcdef";
    std::string r;
    for (size_t i = 0; i < b.size() && i < max; i++) { r += d[(uint8_t)b[i] >> 4]; r += d[(uint8_t)b[i] & 15]; }
    if (b.size() > max) r += "..";
    return r;
}

// ---------------------------------------------------------------- plan text
std::string Plan::str() const {
    std::ostringstream o;
    o << "wsim-replay 1\nproperty " << prop << "\nworld " << world << "\nseed " << seed << "\n";
    for (auto &c : cfg) o << "cfg " << c.first << " " << c.second << "\n";
    for (auto &p : ops) {
        o << "op " << p.kind;
        for (auto v : p.a) o << " " << v;
        for (auto &f : p.faults) o << " ! " << fault_kind_name[f.kind] << " " << f.k << " " << f.mode;
        o << "\n";
    }
    return o.str();
}
bool Plan::parse(const std::string &text, Plan &p, std::map<std::string, std::string> *extra) {
    std::istringstream in(text);
    std::string line;
    if (!std::getline(in, line) || line != "wsim-replay 1") return false;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line);
        std::string w; l >> w;
        if (w == "property") l >> p.prop;
        else if (w == "world") l >> p.world;
        else if (w == "seed") l >> p.seed;
        else if (w == "cfg") { std::string k; int64_t v; l >> k >> v; p.cfg[k] = v; }
        else if (w == "op") {
            Op op; l >> op.kind;
            std::string t;
            while (l >> t) {
                if (t == "!") {
                    std::string k; Fault f; l >> k >> f.k >> f.mode; f.kind = -1;
                    for (int i = 0; i < F_NKINDS; i++) if (k == fault_kind_name[i]) f.kind = i;
                    if (f.kind < 0) return false;
                    op.faults.push_back(f);
                } else op.a.push_back(strtoll(t.c_str(), 0, 10));
            }
            p.ops.push_back(op);
        } else if (extra) { std::string rest; std::getline(l, rest); if (!rest.empty() && rest[0] == ' ') rest = rest.substr(1); (*extra)[w] = rest; }
    }
    return true;
}

// ---------------------------------------------------------------- sim
void Sim::begin_run(const Plan &p) {
    run_seed = p.seed;
    sysrng.reseed(p.seed ^ 0x5157454552ull);
    run_dep_faults = 0; armed.clear(); memset(count, 0, sizeof count); memset(fired, 0, sizeof fired);
    in_lib = false;
    live.clear(); actor = 0; track = true; ossl_live = 0;
    drain_pool(); reuse = hmix(p.seed, 0x5e) % 3 == 0;
    alloc_calls = 0; alloc_budget = 0;
    hash = 1469598103934665603ull; nevents = 0; text.clear();
    viols.clear(); stop = false;
    run_progress = run_faults = 0;
    sched_hash = p.seed;
    ERR_clear_error();
}
void Sim::end_run() { ERR_clear_error(); track = false; drain_pool(); }
void Sim::log(const char *fmt, ...) {
    char buf[1024];
    va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
    hash = fnv(buf, n, hash) * 31 + 7;
    nevents++;
    if (verbose) text.push_back(std::string(buf, n));
}
void Sim::fail(const char *prop_, const std::string &cls, const char *fmt, ...) {
    char buf[1024];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    log("VIOLATION %s %s %s", prop_, cls.c_str(), buf);
    // under failing dependencies every wrong result is also a result that "is reported as success but is not fully correct"
    if (prop == "C13" && prop != prop_ && run_dep_faults && strcmp(prop_, "C14") && strcmp(prop_, "C04")) {
        if (viols.size() < 5) viols.push_back(Violation{"C13", "under-faults:" + cls, std::string(buf) + " (after a dependency failed)"});
        stop = true; return;
    }
    if (!prop.empty() && prop != prop_) { stat(std::string("other_violation:") + prop_ + ":" + cls); return; }
    if (viols.size() < 5) viols.push_back(Violation{prop_, cls, buf});
    stop = true;
}

// ---------------------------------------------------------------- faults
// the call chain of a dependency call, as addresses relative to this program (the same in every process of one build)
extern "C" char __executable_start, etext;
static void note_site(int k, int64_t n) {
    void *b[40]; auto keep = g.sites; g.sites = nullptr; bool il = g.in_lib; g.in_lib = false;
    int m = backtrace(b, 40); g.in_lib = il; g.sites = keep;
    uint64_t near = 7 + k, full = 7 + k; int used = 0;
    for (int i = 3; i < m; i++) {
        uintptr_t a = (uintptr_t)b[i];
        if (a < (uintptr_t)&__executable_start || a > (uintptr_t)&etext) continue;
        full = hmix(full, a - (uintptr_t)&__executable_start);
        if (used++ < 4) near = full;
    }
    g.sites->push_back({k, n, near, full});
}
bool fault_point(FaultKind k) {
    if (!g.in_lib) return false;
    int64_t n = ++g.count[k];
    if (g.sites) note_site(k, n);
    for (auto &f : g.armed) {
        if (f.kind != k) continue;
        if (n == f.k || (f.mode == 1 && n >= f.k)) {
            g.run_dep_faults++;
            g.fired[k]++;
            g.fault_event(fault_kind_name[k]);
            g.log("fault %s #%lld", fault_kind_name[k], (long long)n);
            return true;
        }
    }
    return false;
}
FaultScope::FaultScope(const std::vector<Fault> &f) {
    g.armed = f;
    memset(g.count, 0, sizeof g.count); memset(g.fired, 0, sizeof g.fired);
    g.in_lib = true;
    g.alloc_calls = 0;
    last_scope_fired = 0;
}
FaultScope::~FaultScope() {
    last_scope_fired = 0;
    for (int i = 0; i < F_NKINDS; i++) last_scope_fired += g.fired[i];
    g.armed.clear();
    g.in_lib = false;
}
bool FaultScope::any() const { for (int i = 0; i < F_NKINDS; i++) if (g.fired[i]) return true; return false; }

// ---------------------------------------------------------------- allocator seam (library + protobuf-c)
static void hang_check() {
    if (g.in_lib && ++g.alloc_calls > 3000000) {
        static const char m[] = "SIM-HANG: one library call made more than 3000000 allocations\n";
        (void)!write(2, m, sizeof m - 1);
        _exit(97);
    }
}
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static const size_t kMaxAlloc = 512u << 20;      // the simulated machine refuses larger single requests
static const size_t kPoolBlock = 1024;
static void *from_pool(size_t n) {
    if (!g.reuse || n > kPoolBlock) return NULL;
    auto it = g.pool.find(n); if (it == g.pool.end() || it->second.empty()) return NULL;
    void *p = it->second.back(); it->second.pop_back(); g.pooled.erase(p);
    ASAN_UNPOISON_MEMORY_REGION(p, n);
    g.live[p] = Sim::Blk{n, g.actor};
    return p;
}
static bool to_pool(void *p) {
    if (!g.reuse) return false;
    auto it = g.live.find(p);
    if (it == g.live.end()) { if (g.pooled.count(p)) *(volatile char *)p = 0; return false; }      // freed twice
    size_t n = it->second.n; if (!n || n > kPoolBlock) return false;
    auto &v = g.pool[n]; if (v.size() >= 32) return false;
    g.live.erase(it);
    ASAN_POISON_MEMORY_REGION(p, n);
    v.push_back(p); g.pooled[p] = n;
    return true;
}
void *__wrap_malloc(size_t n) {
    if (!g.track) return __real_malloc(n);
    hang_check();
    if (fault_point(F_ALLOC)) return NULL;
    if (n > kMaxAlloc) { g.stat("huge_alloc"); return NULL; }
    void *p = from_pool(n); if (!p) p = __real_malloc(n);
    if (p) { memset(p, 0xA5, n); g.live[p] = Sim::Blk{n, g.actor}; }
    return p;
}
void *__wrap_calloc(size_t a, size_t b) {
    if (!g.track) return __real_calloc(a, b);
    hang_check();
    if (fault_point(F_ALLOC)) return NULL;
    if (b && a > kMaxAlloc / b) { g.stat("huge_alloc"); return NULL; }
    if (void *q = from_pool(a * b)) { memset(q, 0, a * b); return q; }
    void *p = __real_calloc(a, b);
    if (p) g.live[p] = Sim::Blk{a * b, g.actor};
    return p;
}
void *__wrap_realloc(void *o, size_t n) {
    if (!g.track) return __real_realloc(o, n);
    hang_check();
    if (fault_point(F_ALLOC)) return NULL;
    if (n > kMaxAlloc) { g.stat("huge_alloc"); return NULL; }
    if (o && g.pooled.count(o)) *(volatile char *)o = 0;                                             // used after it was freed
    void *p = __real_realloc(o, n);
    if (p || n == 0) g.live.erase(o);
    if (p) g.live[p] = Sim::Blk{n, g.actor};
    return p;
}
void __wrap_free(void *p) { if (p && g.track) { if (to_pool(p)) return; g.live.erase(p); } __real_free(p); }

void __real_free(void *);
}
void Sim::drain_pool() {
    for (auto &x : pooled) { ASAN_UNPOISON_MEMORY_REGION(x.first, x.second); __real_free(x.first); }
    pooled.clear(); pool.clear();
}
extern "C" {
// ---------------------------------------------------------------- OpenSSL seam
#define W0(ret, name, failv) ret __real_##name(void); ret __wrap_##name(void) { if (fault_point(F_OSSL)) return failv; return __real_##name(); }
#define W1(ret, name, failv, A) ret __real_##name(A); ret __wrap_##name(A a) { if (fault_point(F_OSSL)) return failv; return __real_##name(a); }
#define W2(ret, name, failv, A, B) ret __real_##name(A, B); ret __wrap_##name(A a, B b) { if (fault_point(F_OSSL)) return failv; return __real_##name(a, b); }
#define W3(ret, name, failv, A, B, C) ret __real_##name(A, B, C); ret __wrap_##name(A a, B b, C c) { if (fault_point(F_OSSL)) return failv; return __real_##name(a, b, c); }
#define W4(ret, name, failv, A, B, C, D) ret __real_##name(A, B, C, D); ret __wrap_##name(A a, B b, C c, D d) { if (fault_point(F_OSSL)) return failv; return __real_##name(a, b, c, d); }
#define W5(ret, name, failv, A, B, C, D, E) ret __real_##name(A, B, C, D, E); ret __wrap_##name(A a, B b, C c, D d, E e) { if (fault_point(F_OSSL)) return failv; return __real_##name(a, b, c, d, e); }
typedef unsigned char uc;
#include "ossl_wraps.inc"
}

// ---------------------------------------------------------------- randomness seam
static int sim_rand_bytes(unsigned char *buf, int num) {
    if (fault_point(F_RNG)) return 0;
    for (int i = 0; i < num; i++) buf[i] = (unsigned char)(g.sysrng.next() >> 24);
    return 1;
}
static int sim_rand_status(void) { return 1; }
static RAND_METHOD sim_rand = {NULL, sim_rand_bytes, NULL, NULL, sim_rand_bytes, sim_rand_status};

static void *om(size_t n, const char *, int) { void *p = __real_malloc(n); if (p) g.ossl_live++; return p; }
static void *orr(void *o, size_t n, const char *, int) { if (!o) g.ossl_live++; return __real_realloc(o, n); }
static void of(void *p, const char *, int) { if (p) g.ossl_live--; __real_free(p); }

void sim_init() {
    if (!CRYPTO_set_mem_functions(om, orr, of)) { fprintf(stderr, "CRYPTO_set_mem_functions failed\n"); exit(2); }
    OPENSSL_init_crypto(OPENSSL_INIT_NO_LOAD_CONFIG, NULL);
    RAND_set_rand_method(&sim_rand);
}

// ---------------------------------------------------------------- KDF stand-ins (libscrypt / crypt_blowfish are not installed)
static int stub_kdf(const char *label, const void *pw, size_t pwlen, const void *salt, size_t saltlen, const uint64_t par[3], uint8_t *out, size_t outlen) {
    Bytes m(label);
    auto put = [&](const void *p, size_t n) { uint64_t l = n; m.append((const char *)&l, 8); m.append((const char *)p, n); };
    put(pw, pwlen); put(salt, saltlen); put(par, 24);
    size_t off = 0; uint32_t ctr = 0;
    while (off < outlen) {
        Bytes mm = m; mm.append((const char *)&ctr, 4); ctr++;
        unsigned char md[64]; unsigned int mdl = 0;
        EVP_Digest(mm.data(), mm.size(), md, &mdl, EVP_sha512(), NULL);
        size_t n = outlen - off < mdl ? outlen - off : mdl;
        memcpy(out + off, md, n); off += n;
    }
    return 0;
}
extern "C" int libscrypt_scrypt(const uint8_t *pw, size_t pwlen, const uint8_t *salt, size_t saltlen, uint64_t N, uint32_t r, uint32_t p, uint8_t *buf, size_t buflen) {
    if (fault_point(F_KDF)) return -1;
    bool was = g.in_lib; g.in_lib = false;
    uint64_t par[3] = {N, r, p};
    int rc = (N < 2 || (N & (N - 1)) || !r || !p) ? -1 : stub_kdf("scrypt", pw, pwlen, salt, saltlen, par, buf, buflen);
    g.in_lib = was;
    return rc;
}
static const char b64[] = "./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
extern "C" char *crypt_gensalt_rn(const char *prefix, unsigned long count, const char *input, int size, char *output, int output_size) {
    if (fault_point(F_KDF)) return NULL;
    if (size < 16 || output_size < 7 + 22 + 1 || strncmp(prefix, "$2y$", 4)) { if (output_size > 0) output[0] = 0; return NULL; }
    snprintf(output, output_size, "$2y$%02lu$", count);
    for (int i = 0; i < 22; i++) {
        int bit = i * 6, by = bit / 8, sh = bit % 8;
        unsigned v = ((unsigned)(uint8_t)input[by] << 8 | (by + 1 < 16 ? (uint8_t)input[by + 1] : 0)) >> (10 - sh);
        output[7 + i] = b64[v & 63];
    }
    output[29] = 0;
    return output;
}
extern "C" char *crypt_rn(const char *key, const char *setting, void *data, int size) {
    if (fault_point(F_KDF)) return NULL;
    char *out = (char *)data;
    if (size < 7 + 22 + 31 + 1) return NULL;
    size_t sl = strlen(setting);
    bool ok = sl >= 29 && !strncmp(setting, "$2y$", 4) && setting[6] == '$';
    for (int i = 7; ok && i < 29; i++) ok = strchr(b64, setting[i]) != NULL && setting[i];
    if (!ok) return NULL;
    bool was = g.in_lib; g.in_lib = false;
    uint8_t h[31]; uint64_t par[3] = {(uint64_t)atoi(setting + 4), 0, 0};
    size_t kl = strlen(key); if (kl > 72) kl = 72;
    stub_kdf("bcrypt", key, kl, setting + 7, 22, par, h, 31);
    memcpy(out, setting, 29);
    for (int i = 0; i < 31; i++) out[29 + i] = b64[h[i] & 63];
    out[60] = 0;
    g.in_lib = was;
    return out;
}
