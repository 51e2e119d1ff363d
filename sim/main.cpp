#include "lib.hpp"
#include <cstdlib>
#include <ctime>
#include <csignal>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <poll.h>

extern const World W_session, W_stream, W_file, W_device, W_faults, W_hostile, W_copy;
extern "C" void ERR_clear_error(void);
static const World *worlds[] = {&W_session, &W_stream, &W_file, &W_device, &W_faults, &W_hostile, &W_copy};

extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=12:alloc_dealloc_mismatch=0:max_allocation_size_mb=4000";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=98"; }

const World *find_world(const std::string &n) { for (auto w : worlds) if (n == w->name) return w; return nullptr; }

struct Mix { const char *prop; std::vector<std::pair<const char *, int>> w; };
static const std::vector<Mix> mixes = {
    {"C01", {{"device", 1}}}, {"C02", {{"device", 1}}}, {"C03", {{"device", 1}}},
    {"C04", {{"copy", 1}, {"device", 4}, {"stream", 3}, {"session", 3}, {"file", 2}}},
    {"C05", {{"session", 1}}}, {"C06", {{"session", 1}}}, {"C07", {{"session", 1}}}, {"C08", {{"session", 1}}},
    {"C09", {{"stream", 1}}}, {"C10", {{"file", 1}}}, {"C11", {{"device", 1}}}, {"C12", {{"device", 1}}},
    {"C13", {{"device", 2}, {"stream", 1}, {"session", 2}, {"copy", 1}, {"file", 1}}}, {"C14", {{"hostile", 12}, {"session", 1}, {"device", 1}, {"stream", 1}}}, {"C15", {{"copy", 5}, {"stream", 2}, {"device", 2}}},
    {"C16", {{"device", 4}, {"session", 3}, {"file", 1}, {"stream", 1}}}, {"C17", {{"stream", 3}, {"session", 1}}},
};
int64_t g_plan_index = -1; uint64_t g_plan_vseed = 1;
void make_plan(const std::string &prop, uint64_t seed, Plan &p) {
    p.prop = prop; p.seed = seed;
    Rng r(seed);
    for (auto &m : mixes) if (prop == m.prop) {
        int tot = 0; for (auto &w : m.w) tot += w.second;
        int x = (int)r.below(tot);
        for (auto &w : m.w) { if (x < w.second) { p.world = w.first; break; } x -= w.second; }
    }
    int64_t keep = g_plan_index;
    if (prop == "C13") {         // six of seven runs enumerate failure points, the others meet them in whole histories
        if (g_plan_index < 0) { if (seed % 7) p.world = "faults"; }
        else if (g_plan_index % 7 != 6) { p.world = "faults"; g_plan_index -= g_plan_index / 7; }
    }
    const World *w = find_world(p.world);
    if (!w) { fprintf(stderr, "no world for property %s\n", prop.c_str()); exit(2); }
    w->gen(prop, r, p);
    g_plan_index = keep;
}

static bool nested = false;
RunResult run_plan(const Plan &p) {
    const World *w = find_world(p.world);
    if (!w) { fprintf(stderr, "unknown world %s\n", p.world.c_str()); exit(2); }
    g.prop = p.prop;
    ERR_clear_error(); obs.reset();
    g.begin_run(p);
    struct itimerval it = {{0, 0}, {40, 0}};
    if (!nested) setitimer(ITIMER_VIRTUAL, &it, NULL);
    w->run(p);
    RunResult r;
    r.hash = g.hash; r.viols = g.viols; r.sched = g.sched_hash;
    r.nontrivial = g.run_progress > 0 && g.run_faults > 0;
    ERR_clear_error();
    int64_t ol = g.ossl_live;
    auto text = g.text;
    g.end_run();
    // memory kept by the crypto library: a real leak recurs on every execution, a lazily filled cache does not
    if (!nested && r.viols.empty() && ol > 0 && p.prop == "C14") {
        nested = true;
        int64_t l1, l2; bool v = g.verbose; g.verbose = false;
        auto st = g.stats;
        ERR_clear_error(); obs.reset(); g.begin_run(p); w->run(p); ERR_clear_error(); l1 = g.ossl_live; g.end_run();
        ERR_clear_error(); obs.reset(); g.begin_run(p); w->run(p); ERR_clear_error(); l2 = g.ossl_live; g.end_run();
        g.stats = st; g.verbose = v; nested = false; g.text = text;
        if (l1 > 0 && l2 > 0) r.viols.push_back(Violation{p.prop, "leak-crypto", "a crypto-library object is never released"});
    }
    g.viols = r.viols;
    return r;
}
static void on_vtalrm(int) { static const char m[] = "SIM-HANG: run exceeded its CPU budget\n"; (void)!write(2, m, sizeof m - 1); _exit(97); }

static std::string slurp(const char *f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---- isolated execution (fork): crash classification
struct Iso { bool ok = false; uint64_t hash = 0; std::vector<Violation> v; std::string err; bool nontriv = false; uint64_t sched = 0, simt = 0; };
static void absorb(const std::string &k, std::istringstream &i) {      // coverage measured by a child
    if (k == "S") { uint64_t n; std::string name; i >> n; std::getline(i, name); g.stats[name.substr(1)] += n; }
    else if (k == "T") { uint64_t x; i >> std::hex; while (i >> x) g.cover(x); i >> std::dec; }
}
static std::string crash_class(const std::string &err, int status) {
    auto grab = [&](const char *k) -> std::string { size_t a = err.find(k); if (a == std::string::npos) return ""; size_t e = err.find('\n', a); return err.substr(a, e - a); };
    std::string s = grab("SUMMARY: AddressSanitizer: ");
    if (!s.empty()) {
        std::istringstream i(s.substr(27)); std::string kind, rest, fn; i >> kind; std::getline(i, rest);
        size_t p = rest.rfind(" in "); if (p != std::string::npos) fn = rest.substr(p + 4);
        // prefer a frame inside the library
        size_t q = err.find("/src/wickrcrypto/src/"); 
        if (q != std::string::npos) { size_t ls = err.rfind('\n', q); std::string line = err.substr(ls + 1, q - ls); size_t in = line.find(" in "); if (in != std::string::npos) { size_t sp = line.find(' ', in + 4); fn = line.substr(in + 4, sp - in - 4); } }
        return "crash:" + kind + ":" + fn;
    }
    s = grab("runtime error: ");
    if (!s.empty()) {
        std::string loc; size_t a = err.find("runtime error: "); size_t ls = err.rfind('\n', a); std::string line = err.substr(ls == std::string::npos ? 0 : ls + 1, a - (ls == std::string::npos ? 0 : ls + 1));
        size_t sl = line.rfind('/'); if (sl != std::string::npos) line = line.substr(sl + 1);
        size_t c = line.find(':'); if (c != std::string::npos) line = line.substr(0, c);
        std::string what = s.substr(15); 
        // drop numbers / pointers
        std::string w; for (char ch : what) { if (ch >= '0' && ch <= '9') continue; w += ch == ' ' ? '-' : ch; }
        if (w.size() > 60) w.resize(60);
        return "crash:ub:" + line + ":" + w;
    }
    if (err.find("SIM-HANG") != std::string::npos) return "hang";
    if (WIFSIGNALED(status)) return "crash:signal:" + std::to_string(WTERMSIG(status));
    return "crash:exit:" + std::to_string(WEXITSTATUS(status));
}
static Iso run_iso(const Plan &p, int timeout_s, bool collect = false) {
    Iso r;
    int po[2], pe[2];
    if (pipe(po) || pipe(pe)) { perror("pipe"); exit(2); }
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        close(po[0]); close(pe[0]); dup2(pe[1], 2); close(pe[1]);
        g.verbose = false;
        g.stats.clear(); g.states.clear(); g.sim_time = 0;
        RunResult rr = run_plan(p);
        std::ostringstream o; o << rr.hash << "\n" << rr.nontrivial << " " << rr.sched << " " << g.sim_time << "\n";
        for (auto &v : rr.viols) o << "V\t" << v.prop << "\t" << v.cls << "\t" << v.detail << "\n";
        if (collect) {
            for (auto &st : g.stats) o << "S " << st.second << " " << st.first << "\n";
            if (g.states.size()) { o << "T" << std::hex; for (auto x : g.states) o << " " << x; o << std::dec << "\n"; }
        }
        o << "END\n";
        std::string s = o.str();
        for (size_t w = 0; w < s.size();) { ssize_t n = write(po[1], s.data() + w, s.size() - w); if (n <= 0) break; w += (size_t)n; }
        _exit(0);
    }
    close(po[1]); close(pe[1]);
    std::string out, err; double t0 = now(); bool killed = false;
    struct pollfd pf[2] = {{po[0], POLLIN, 0}, {pe[0], POLLIN, 0}};
    int open_ = 2;
    while (open_) {
        if (poll(pf, 2, 200) < 0) break;
        for (int i = 0; i < 2; i++) if (pf[i].fd >= 0 && pf[i].revents) {
            char b[65536]; ssize_t n = read(pf[i].fd, b, sizeof b);
            if (n <= 0) { close(pf[i].fd); pf[i].fd = -1; open_--; } else if ((i ? err : out).size() < 20000000) (i ? err : out).append(b, n);
        }
        if (!killed && now() - t0 > timeout_s) { kill(pid, SIGKILL); killed = true; }
    }
    int st; waitpid(pid, &st, 0);
    r.err = err;
    size_t e = out.size() >= 4 && out.compare(out.size() - 4, 4, "END\n") == 0 ? out.size() - 4 : std::string::npos;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && e != std::string::npos) {
        std::istringstream i(out.substr(0, e)); std::string l; std::getline(i, l); r.hash = strtoull(l.c_str(), 0, 10);
        std::getline(i, l); { std::istringstream q(l); q >> r.nontriv >> r.sched >> r.simt; }
        while (std::getline(i, l)) {
            if (l[0] == 'V') { l = l.substr(2); size_t a = l.find('\t'), b = l.find('\t', a + 1); r.v.push_back(Violation{l.substr(0, a), l.substr(a + 1, b - a - 1), l.substr(b + 1)}); }
            else if (collect) { std::istringstream q(l); std::string k; q >> k; absorb(k, q); }
        }
        r.ok = true;
    } else {
        std::string c = killed ? "hang" : crash_class(err, st);
        std::string d = "the process running the library died";
        if (c == "hang") d = "a library call did not finish within its budget";
        r.v.push_back(Violation{p.prop, c, d});
        r.hash = fnv(c);
    }
    return r;
}
static uint64_t run_seed(const std::string &prop, uint64_t vseed, uint64_t i) { uint64_t x = vseed * 1000003ull + fnv(prop); x = Rng::mix(x) + i; return Rng::mix(x) >> 1; }
static bool has_class(const Iso &r, const std::string &cls) { for (auto &v : r.v) if (v.cls == cls) return true; return false; }

static int minimize(Plan p, const std::string &cls, double secs, Plan &out) {
    double t0 = now(); int trials = 0;
    auto test = [&](const Plan &q) { trials++; return has_class(run_iso(q, 30), cls); };
    if (!test(p)) return -1;
    // faults first
    bool changed = true;
    while (changed && now() - t0 < secs) {
        changed = false;
        for (size_t n = p.ops.size() / 2; n >= 1 && now() - t0 < secs; n /= 2) {
            for (size_t i = 0; i + 1 <= p.ops.size() && now() - t0 < secs;) {
                Plan q = p; size_t e = std::min(i + n, q.ops.size());
                q.ops.erase(q.ops.begin() + i, q.ops.begin() + e);
                if (test(q)) { p = q; changed = true; } else i += n;
            }
            if (n == 1) break;
        }
        for (size_t i = 0; i < p.ops.size() && now() - t0 < secs; i++)
            for (size_t f = 0; f < p.ops[i].faults.size();) {
                Plan q = p; q.ops[i].faults.erase(q.ops[i].faults.begin() + f);
                if (test(q)) { p = q; changed = true; } else f++;
            }
        for (size_t i = 0; i < p.ops.size() && now() - t0 < secs; i++)
            for (size_t a = 0; a < p.ops[i].a.size(); a++) {
                for (int64_t v : {(int64_t)0, p.ops[i].a[a] / 2}) {
                    if (p.ops[i].a[a] == v || p.ops[i].a[a] == 0) continue;
                    Plan q = p; q.ops[i].a[a] = v;
                    if (test(q)) { p = q; changed = true; break; }
                }
            }
        for (auto &c : std::map<std::string, int64_t>(p.cfg)) {
            if (c.second == 0 || now() - t0 > secs) continue;
            Plan q = p; q.cfg[c.first] = 0;
            if (test(q)) { p = q; changed = true; }
        }
    }
    out = p;
    return trials;
}

static std::string opt(int argc, char **argv, const char *k, const char *d) { for (int i = 2; i + 1 < argc; i++) if (!strcmp(argv[i], k)) return argv[i + 1]; return d; }

int main(int argc, char **argv) {
    if (argc < 2) { fprintf(stderr, "usage: wsim batch|replay|one|minimize|plan ...\n"); return 2; }
    sim_init();
    build_pool();
    signal(SIGVTALRM, on_vtalrm);
    signal(SIGPIPE, SIG_IGN);
    std::string cmd = argv[1];
    if (cmd == "plan") {
        std::string prop = opt(argc, argv, "--prop", "C01"), idx = opt(argc, argv, "--index", "");
        uint64_t seed = strtoull(opt(argc, argv, "--seed", "1").c_str(), 0, 10);
        if (!idx.empty()) g_plan_index = atoll(idx.c_str()), g_plan_vseed = strtoull(opt(argc, argv, "--vseed", "1").c_str(), 0, 10), seed = run_seed(prop, strtoull(opt(argc, argv, "--vseed", "1").c_str(), 0, 10), strtoull(idx.c_str(), 0, 10));
        Plan p; make_plan(prop, seed, p);
        printf("%s", p.str().c_str()); return 0;
    }
    if (cmd == "replay" || cmd == "one" || cmd == "minimize") {
        Plan p; std::map<std::string, std::string> extra;
        if (argc < 3 || !Plan::parse(slurp(argv[2]), p, &extra)) { fprintf(stderr, "cannot read plan\n"); return 2; }
        if (cmd == "replay") {
            g.verbose = true;
            RunResult r = run_plan(p);
            for (auto &t : g.text) printf("%s\n", t.c_str());
            printf("hash %llu\n", (unsigned long long)r.hash);
            for (auto &v : r.viols) printf("VIOLATED property=%s class=%s: %s\n", v.prop.c_str(), v.cls.c_str(), v.detail.c_str());
            return r.viols.empty() ? 0 : 1;
        }
        if (cmd == "one") {
            Iso r = run_iso(p, 120);
            printf("HASH %llu\n", (unsigned long long)r.hash);
            for (auto &v : r.v) printf("VIOL\t%s\t%s\t%s\n", v.prop.c_str(), v.cls.c_str(), v.detail.c_str());
            if (!r.ok) fprintf(stderr, "%s\n", r.err.c_str());
            return 0;
        }
        Plan out; std::string cls = opt(argc, argv, "--class", "");
        int n = minimize(p, cls, atof(opt(argc, argv, "--seconds", "60").c_str()), out);
        if (n < 0) { fprintf(stderr, "not reproduced\n"); return 3; }
        std::ofstream(opt(argc, argv, "--out", "/dev/stdout")) << out.str();
        printf("TRIALS %d\n", n);
        return 0;
    }
    if (cmd == "batch") {
        std::string prop = opt(argc, argv, "--prop", "C01");
        uint64_t vseed = strtoull(opt(argc, argv, "--vseed", "1").c_str(), 0, 10);
        uint64_t off = strtoull(opt(argc, argv, "--offset", "0").c_str(), 0, 10), stride = strtoull(opt(argc, argv, "--stride", "1").c_str(), 0, 10);
        uint64_t count = strtoull(opt(argc, argv, "--count", "1000000000").c_str(), 0, 10);
        double secs = atof(opt(argc, argv, "--seconds", "10").c_str());
        std::string out = opt(argc, argv, "--out", "/dev/stdout");
        int maxviol = atoi(opt(argc, argv, "--max-viol", "1").c_str());
        uint64_t recheck = strtoull(opt(argc, argv, "--recheck", "40").c_str(), 0, 10);
        FILE *fo = fopen(out.c_str(), "w");
        uint64_t minruns = strtoull(opt(argc, argv, "--min-runs", "0").c_str(), 0, 10);
        double maxsecs = atof(opt(argc, argv, "--max-seconds", "100000").c_str());
        std::set<std::string> known; { std::istringstream k(opt(argc, argv, "--known", "")); std::string c; while (std::getline(k, c, ',')) known.insert(c); }
        double t0 = now();
        uint64_t runs = 0, nontriv = 0, rechecked = 0; std::unordered_set<uint64_t> scheds; int nv = 0; std::set<std::string> classes;
        int samples = 0;
        for (uint64_t i = off; i < count && (now() - t0 < secs || runs < minruns) && now() - t0 < maxsecs; i += stride) {
            uint64_t seed = run_seed(prop, vseed, i);
            g_plan_index = (int64_t)i; g_plan_vseed = vseed;
            Plan p; make_plan(prop, seed, p);
            Iso r = run_iso(p, 120, true);
            runs++; g.steps += p.ops.size(); g.sim_time += r.simt;
            if (r.nontriv && scheds.insert(r.sched).second) nontriv++;
            if (recheck && r.ok && runs % recheck == 1) {
                Iso r2 = run_iso(p, 120); rechecked++;
                if (r2.hash != r.hash) { fprintf(fo, "NONDET %llu %llu %llu\n", (unsigned long long)seed, (unsigned long long)r.hash, (unsigned long long)r2.hash); fflush(fo); }
            }
            if (samples < 2 && r.nontriv && r.v.empty()) { samples++; fprintf(fo, "SAMPLE\n%sENDSAMPLE\n", p.str().c_str()); }
            // a wrong result counts against C13 only if it needs the dependency failures
            bool needs_faults = true;
            if (prop == "C13" && p.world != "faults") for (auto &v : r.v) if (v.cls.rfind("under-faults:", 0) == 0 || v.cls == "leak" || v.cls == "hang" || v.cls.rfind("crash", 0) == 0) {
                Plan q = p; for (auto &o : q.ops) o.faults.clear();
                if (run_iso(q, 120).v.size()) { needs_faults = false; g.stat("wrong_without_faults"); }
                break;
            }
            if (!needs_faults) continue;
            for (auto &v : r.v) {
                if (known.count(v.cls)) { g.stat("known:" + v.cls); continue; }
                if (!classes.insert(v.cls).second) continue;
                fprintf(fo, "VIOL\t%llu\t%llu\t%s\t%s\t%s\n", (unsigned long long)i, (unsigned long long)r.hash, v.prop.c_str(), v.cls.c_str(), v.detail.c_str());
                fprintf(fo, "PLAN\n%sENDPLAN\n", p.str().c_str()); fflush(fo);
                nv++;
            }
            if (nv >= maxviol) break;
        }
        fprintf(fo, "RUNS %llu\nNONTRIVIAL %llu\nRECHECKED %llu\nSTEPS %llu\nSIMTIME %llu\nWALL %.3f\n", (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)rechecked, (unsigned long long)g.steps, (unsigned long long)g.sim_time, now() - t0);
        for (auto &s : g.stats) fprintf(fo, "STAT %s %llu\n", s.first.c_str(), (unsigned long long)s.second);
        fprintf(fo, "STATES");
        for (auto s : g.states) fprintf(fo, " %llx", (unsigned long long)s);
        fprintf(fo, "\nDONE\n");
        fclose(fo);
        return 0;
    }
    fprintf(stderr, "unknown command\n");
    return 2;
}
