// Deterministic simulation core: seeded PRNG, plans, fault points, simulated allocator / randomness / OpenSSL
// failures, event log, violations, coverage counters.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <unordered_map>
#include <functional>
#include <cstring>
#include <cstdio>

typedef std::string Bytes;

struct Rng {
    uint64_t s[2];
    explicit Rng(uint64_t seed = 1) { reseed(seed); }
    static uint64_t mix(uint64_t &x) {
        uint64_t z = (x += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    void reseed(uint64_t seed) { s[0] = mix(seed); s[1] = mix(seed); }
    uint64_t next() {
        uint64_t a = s[0], b = s[1];
        s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
        return s[1] + b;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    // roughly log-uniform in [1, hi]
    int64_t loguni(int64_t hi) {
        int bits = 0; while ((hi >> bits) > 1) bits++;
        int b = (int)below(bits + 1);
        int64_t v = ((int64_t)1 << b) + (int64_t)below((uint64_t)1 << b);
        return v > hi ? hi : v;
    }
    // a size close to a power of two (or a small multiple of 16), at least 1
    int64_t edge(int64_t hi) {
        int top = 3; while (((int64_t)1 << (top + 1)) <= hi) top++;
        int64_t v = chance(1, 4) ? 16 * range(1, 20) + range(-1, 1) : ((int64_t)1 << range(3, top)) + range(-2, 2);
        return v < 1 ? 1 : v > hi ? hi : v;
    }
    Bytes bytes(size_t n) { Bytes r(n, 0); for (size_t i = 0; i < n; i++) r[i] = (char)next(); return r; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- plans
enum FaultKind { F_ALLOC, F_RNG, F_ENGINE, F_OSSL, F_IO, F_CRASH, F_KDF, F_RENAME, F_NKINDS };
extern const char *fault_kind_name[F_NKINDS];

struct Fault { int kind; int64_t k; int64_t mode; };   // fire on the k-th matching call; mode 0 one-shot, 1 persistent from k
struct Op {
    std::string kind;
    std::vector<int64_t> a;
    std::vector<Fault> faults;
    int64_t arg(size_t i, int64_t d = 0) const { return i < a.size() ? a[i] : d; }
};
struct Plan {
    std::string prop, world;
    uint64_t seed = 0;
    std::map<std::string, int64_t> cfg;
    std::vector<Op> ops;
    int64_t c(const char *k, int64_t d = 0) const { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }
    void op(const char *kind, std::vector<int64_t> a = {}) { ops.push_back(Op{kind, a, {}}); }
    std::string str() const;
    static bool parse(const std::string &text, Plan &p, std::map<std::string, std::string> *extra = nullptr);
};

// ---------------------------------------------------------------- simulation state
struct Violation { std::string prop, cls, detail; };

struct Sim {
    // identification
    std::string prop;              // property being checked ("" = all)
    uint64_t run_seed = 0;
    // randomness handed to the code under test
    Rng sysrng;
    // faults
    std::vector<Fault> armed;
    int64_t count[F_NKINDS];       // matching calls seen since the faults were armed
    uint64_t run_dep_faults = 0;   // dependency failures injected in this run
    int fired[F_NKINDS];           // faults fired since the faults were armed
    bool arming = false;
    bool in_lib = false;           // count calls only inside a fault scope
    struct Site { int kind; int64_t n; uint64_t near, full; };
    std::vector<Site> *sites = nullptr;        // measuring: where each dependency call comes from
    // allocation tracking
    bool track = false;
    struct Blk { size_t n; int actor; };
    std::unordered_map<void *, Blk> live;
    int actor = 0;                             // whose allocations these are
    // in some runs a freed block is handed out again by the next request of its size, so that anything remembered by
    // address meets another object there (until then it is poisoned like any freed memory)
    bool reuse = false;
    std::unordered_map<size_t, std::vector<void *>> pool;
    std::unordered_map<void *, size_t> pooled;
    void drain_pool();
    int64_t ossl_live = 0;
    uint64_t alloc_calls = 0, alloc_budget = 0;   // hang guard
    // log
    bool verbose = false;
    uint64_t hash = 0;
    uint64_t nevents = 0;
    std::vector<std::string> text;
    // outcome
    std::vector<Violation> viols;
    bool stop = false;
    // coverage
    std::map<std::string, uint64_t> stats;     // named counters, accumulated over runs
    std::unordered_set<uint64_t> states;       // distinct abstract states (accumulated)
    uint64_t run_progress = 0, run_faults = 0; // this run: useful work / adversarial events
    uint64_t sched_hash = 0;                   // this run: schedule + faults
    uint64_t steps = 0, sim_time = 0;          // accumulated

    void begin_run(const Plan &p);
    void end_run();
    void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void fail(const char *prop, const std::string &cls, const char *fmt, ...) __attribute__((format(printf, 4, 5)));
    void cover(uint64_t h) { if (states.size() < 400000) states.insert(h); }
    void stat(const std::string &k, uint64_t n = 1) { stats[k] += n; }
    void fault_event(const std::string &k) { stats["fault:" + k]++; run_faults++; sched_hash = sched_hash * 1099511628211ull ^ std::hash<std::string>()(k); }
    void progress(uint64_t n = 1) { run_progress += n; }
    bool failed() const { return !viols.empty(); }
};
extern Sim g;

bool fault_point(FaultKind k);      // true: this call must fail
extern bool (*g_crash_hook)();

uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t fnv(const Bytes &b, uint64_t h = 1469598103934665603ull) { return fnv(b.data(), b.size(), h); }
inline uint64_t hmix(uint64_t a, uint64_t b) { uint64_t x = a * 0x9E3779B97F4A7C15ull + b; return Rng::mix(x); }
std::string hex(const Bytes &b, size_t max = 32);

// Arms the faults of an operation for the duration of a scope.
struct FaultScope {
    explicit FaultScope(const std::vector<Fault> &f);
    explicit FaultScope(const Op &op) : FaultScope(op.faults) {}
    ~FaultScope();
    bool any() const;              // a fault fired in this scope so far
};
// total of faults fired inside the latest finished scope
extern int last_scope_fired;

struct PauseFaults {               // harness code that calls the library while faults are armed
    bool was;
    PauseFaults() : was(g.in_lib) { g.in_lib = false; }
    ~PauseFaults() { g.in_lib = was; }
};

void sim_init();                   // once per process, before anything touches OpenSSL

// ---------------------------------------------------------------- worlds
struct World {
    const char *name;
    void (*gen)(const std::string &prop, Rng &r, Plan &p);
    void (*run)(const Plan &p);
};
const World *find_world(const std::string &name);
void make_plan(const std::string &prop, uint64_t seed, Plan &p);
struct RunResult { uint64_t hash = 0; std::vector<Violation> viols; bool nontrivial = false; uint64_t sched = 0; };
RunResult run_plan(const Plan &p);
