#include "pbt.h"
#include <cerrno>
#include <cmath>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" __attribute__((visibility("default"))) const char *__asan_default_options() {
    return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:malloc_context_size=12:"
           "handle_abort=1:quarantine_size_mb=16:detect_stack_use_after_return=0:max_allocation_size_mb=2500";
}
extern "C" __attribute__((visibility("default"))) const char *__ubsan_default_options() {
    return "print_stacktrace=1:exitcode=77";
}

namespace pbt {

std::string vfmt(const char *f, va_list ap) {
    va_list b;
    va_copy(b, ap);
    int n = vsnprintf(nullptr, 0, f, b);
    va_end(b);
    std::string s(n, 0);
    vsnprintf(&s[0], n + 1, f, ap);
    return s;
}
std::string fmt(const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    auto s = vfmt(f, ap);
    va_end(ap);
    return s;
}

uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

static uint64_t *g_choice_log;  // shared memory: survives a crash of the case
static size_t g_choice_cap;
static char *g_trace_shm;        // shared memory copy of the trace, 64 KiB
static const size_t TRACE_CAP = 65536;

uint64_t Ctx::draw(uint64_t max) {
    uint64_t v;
    if (replaying) {
        v = out.size() < in.size() ? in[out.size()] : 0;
        if (v > max) v = max == UINT64_MAX ? v : v % (max + 1);
    } else {
        v = splitmix(rng);
        if (max != UINT64_MAX) v = (uint64_t)(((unsigned __int128)v * (max + 1)) >> 64);
    }
    out.push_back(v);
    if (g_choice_log && g_choice_log[0] + 1 < g_choice_cap) g_choice_log[1 + g_choice_log[0]++] = v;
    if (out.size() > 2000000) fail("gen:too-many-choices", "generator runaway");
    return v;
}

int64_t Ctx::biased(int64_t lo, int64_t hi) {
    if (lo >= hi) return lo;
    uint64_t span = (uint64_t)hi - (uint64_t)lo;
    switch (weighted({4, 3, 2, 2, 2})) {
    case 0: return (int64_t)((uint64_t)lo + draw(span < 16 ? span : 16));          // near the low end
    case 1: return (int64_t)((uint64_t)lo + draw(span));                           // uniform
    case 2: return (int64_t)((uint64_t)hi - draw(span < 16 ? span : 16));          // near the high end
    case 3: {                                                     // log scale
        int b = 0;
        while (b < 63 && (1ull << (b + 1)) <= span) b++;
        int k = (int)draw(b);
        uint64_t m = (2ull << k) - 1;
        uint64_t v = draw(m);
        return (int64_t)((uint64_t)lo + (v > span ? span : v));
    }
    default: {                                                    // near a power of two (absolute)
        int k = (int)draw(62);
        int64_t v = (int64_t)((1ull << k) + (uint64_t)((int64_t)draw(4) - 2));
        if (v < lo || v > hi) return (int64_t)((uint64_t)lo + draw(span));
        return v;
    }
    }
}
bool Ctx::chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
int Ctx::weighted(std::initializer_list<int> w) {
    int tot = 0;
    for (int x : w) tot += x;
    int v = (int)draw(tot - 1), i = 0;
    for (int x : w) {
        if (v < x) return i;
        v -= x;
        i++;
    }
    return 0;
}
void Ctx::note(const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    auto s = vfmt(f, ap);
    va_end(ap);
    if (verbose) fprintf(stderr, "%s\n", s.c_str());
    if (trace.size() < 60000) {
        if (g_trace_shm && trace.size() + s.size() + 2 < TRACE_CAP) {
            memcpy(g_trace_shm + trace.size(), s.data(), s.size());
            g_trace_shm[trace.size() + s.size()] = '\n';
        }
        trace += s;
        trace += '\n';
    }
}
void Ctx::mix(const void *p, size_t n) {
    for (size_t i = 0; i < n; i++) mix(((const uint8_t *)p)[i]);
}
void Ctx::fail(const char *sig, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    auto s = vfmt(f, ap);
    va_end(ap);
    throw Fail{sig, s};
}

// ---------------------------------------------------------------- runner
static std::set<std::string> g_known;
bool known(const std::string &s) { return g_known.count(s) > 0; }

struct Slot {
    volatile uint64_t cur;        // index being run
    volatile uint64_t next;       // next index to run
    volatile uint64_t evals, discards;
    volatile int failed;          // property threw
    volatile int done;
};

static const Prop *g_prop;
static uint64_t g_seed;
static bool g_thorough;

static uint64_t case_seed(uint64_t idx) {
    uint64_t s = g_seed * 0x2545F4914F6CDD1Dull + 12345;
    for (const char *p = g_prop->id; *p; p++) s = (s ^ (uint8_t)*p) * 0x100000001b3ull;
    s ^= idx * 0xD1342543DE82EF95ull;
    splitmix(s);
    return splitmix(s);
}

static int HANG_CPU = 40;
static void arm(int sec) {
    struct itimerval it = {};
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &it, nullptr);
}
static void on_prof(int) {
    static const char m[] = "\nPBT: HANG: case exceeded its CPU budget\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(78);
}
static void child_setup() {
    signal(SIGPROF, on_prof);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    int n = open("/dev/null", O_RDWR);
    dup2(n, 0);
    setvbuf(stdout, nullptr, _IONBF, 0);
    if (g_prop->setup) g_prop->setup();
}

struct Result {
    int status = 0;  // 0 pass, 1 fail, 2 discard
    std::string sig, msg, trace;
    std::vector<uint64_t> used;
};

static void wr(int fd, const void *p, size_t n) {
    const char *c = (const char *)p;
    while (n) {
        ssize_t k = write(fd, c, n);
        if (k <= 0) _exit(79);
        c += k;
        n -= k;
    }
}
static std::string slurp(const std::string &f) {
    std::string s;
    FILE *fp = fopen(f.c_str(), "rb");
    if (!fp) return s;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, fp)) > 0) s.append(b, n);
    fclose(fp);
    return s;
}

static std::string g_tmp;

static std::string crash_sig(int st, const std::string &err) {
    std::string s = "crash:";
    size_t p;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 78) return "hang";
    if ((p = err.find("ERROR: AddressSanitizer: ")) != std::string::npos) {
        size_t q = err.find_first_of(" \n", p + 25);
        s += "asan-" + err.substr(p + 25, q - p - 25);
    } else if ((p = err.find("runtime error: ")) != std::string::npos) {
        size_t q = err.find('\n', p);
        std::string m = err.substr(p + 15, q - p - 15);
        std::string o;
        for (char c : m) o += (c >= '0' && c <= '9') ? '#' : c;
        s += "ubsan-" + o.substr(0, 40);
    } else if (WIFSIGNALED(st))
        s += fmt("signal-%d", WTERMSIG(st));
    else
        s += fmt("exit-%d", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    // first frame in the tested sources
    size_t pos = 0;
    std::string where;
    while ((pos = err.find("/repo/", pos)) != std::string::npos) {
        size_t q = err.find_first_of(": \n)", pos);
        where = err.substr(pos + 6, q - pos - 6);
        break;
    }
    if ((p = err.find("Assertion (")) != std::string::npos) {
        size_t q = err.find(" failed", p);
        if (q != std::string::npos) where += ":" + err.substr(p, std::min<size_t>(q - p, 100));
    }
    return s + "@" + where;
}

// run one case in a forked child
struct Pending {
    pid_t pid;
    int fd;
    char *shm;
    std::string errf, buf;
};
static int g_serial;
static Pending launch(const std::vector<uint64_t> *choices, uint64_t seed, bool verbose = false) {
    int p[2];
    if (pipe(p)) { perror("pipe"); exit(4); }
    Pending pe;
    pe.errf = g_tmp + fmt("/err.%d.%d", getpid(), g_serial++);
    pe.shm = (char *)mmap(nullptr, TRACE_CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(4); }
    if (!pid) {
        g_trace_shm = pe.shm;
        close(p[0]);
        if (!verbose) {
            int e = open(pe.errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dup2(e, 2);
            dup2(e, 1);
        }
        child_setup();
        arm(HANG_CPU);
        Ctx c;
        c.thorough = g_thorough;
        c.verbose = verbose;
        if (choices) {
            c.replaying = true;
            c.in = *choices;
        } else
            c.rng = seed;
        int st = 0;
        std::string sig, msg;
        try {
            g_prop->fn(c);
        } catch (Fail &f) {
            st = 1;
            sig = f.sig;
            msg = f.msg;
        } catch (Discard &) {
            st = 2;
        }
        arm(0);
        uint64_t h[5] = {(uint64_t)st, sig.size(), msg.size(), c.trace.size(), c.out.size()};
        wr(p[1], h, sizeof h);
        wr(p[1], sig.data(), sig.size());
        wr(p[1], msg.data(), msg.size());
        wr(p[1], c.trace.data(), c.trace.size());
        wr(p[1], c.out.data(), c.out.size() * 8);
        _exit(0);
    }
    close(p[1]);
    pe.pid = pid;
    pe.fd = p[0];
    return pe;
}
static Result finish(Pending &pe, const std::vector<uint64_t> *choices) {
    std::string b;
    char buf[65536];
    ssize_t n;
    while ((n = read(pe.fd, buf, sizeof buf)) > 0) b.append(buf, n);
    close(pe.fd);
    int st = 0;
    waitpid(pe.pid, &st, 0);
    std::string err = slurp(pe.errf);
    unlink(pe.errf.c_str());
    Result r;
    uint64_t h[5];
    std::string tr(pe.shm, strnlen(pe.shm, TRACE_CAP));
    munmap(pe.shm, TRACE_CAP);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && b.size() >= sizeof h) {
        memcpy(h, b.data(), sizeof h);
        size_t o = sizeof h;
        r.status = (int)h[0];
        r.sig = b.substr(o, h[1]);
        o += h[1];
        r.msg = b.substr(o, h[2]);
        o += h[2];
        r.trace = b.substr(o, h[3]);
        o += h[3];
        r.used.resize(h[4]);
        memcpy(r.used.data(), b.data() + o, h[4] * 8);
        return r;
    }
    r.status = 1;
    r.sig = crash_sig(st, err);
    r.msg = err.substr(0, 12000);
    r.trace = tr;
    if (choices) r.used = *choices;
    return r;
}

static bool same_failure(const Result &a, const Result &b) {
    return b.status == 1 && a.sig == b.sig;
}

static double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static Result shrink(Result best, double budget) {
    double end = now() + budget;
    auto try_all = [&](std::vector<std::vector<uint64_t>> cands) -> bool {
        for (size_t i = 0; i < cands.size(); i += 8) {
            if (now() > end) return false;
            size_t k = std::min(cands.size(), i + 8);
            std::vector<Pending> ps;
            for (size_t j = i; j < k; j++) ps.push_back(launch(&cands[j], 0));
            int hit = -1;
            Result hr;
            for (size_t j = i; j < k; j++) {
                Result r = finish(ps[j - i], &cands[j]);
                if (hit < 0 && same_failure(best, r)) {
                    // strictly simpler only
                    auto &u = r.used;
                    if (u.size() < best.used.size() || (u.size() == best.used.size() && u < best.used)) {
                        hit = (int)j;
                        hr = r;
                    }
                }
            }
            if (hit >= 0) {
                best = hr;
                return true;
            }
        }
        return false;
    };
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t blk : {64, 16, 8, 4, 3, 2, 1}) {
            bool again = true;
            while (again && now() < end) {
                again = false;
                std::vector<std::vector<uint64_t>> c;
                size_t n = best.used.size();
                if (n < blk) break;
                for (size_t i = n - blk + 1; i-- > 0;) {
                    auto v = best.used;
                    v.erase(v.begin() + i, v.begin() + i + blk);
                    c.push_back(v);
                    if (blk > 4 && i >= blk / 2) i -= blk / 2;
                }
                if (try_all(c)) again = progress = true;
            }
        }
        // lower single choices
        for (size_t i = 0; i < best.used.size() && now() < end; i++) {
            if (!best.used[i]) continue;
            std::vector<std::vector<uint64_t>> c;
            uint64_t v = best.used[i];
            std::set<uint64_t> tried;
            auto add = [&](uint64_t x) {
                if (x < v && tried.insert(x).second) {
                    auto w = best.used;
                    w[i] = x;
                    c.push_back(w);
                }
            };
            add(0); add(1); add(v / 16); add(v / 2); add(v - v / 4); add(v - 1); add(v - 16); add(2);
            if (try_all(c)) { progress = true; i--; }
        }
    }
    return best;
}

static std::string jesc(const std::string &s, size_t lim = 100000) {
    std::string o;
    for (size_t i = 0; i < s.size() && i < lim; i++) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
        else o += c;
    }
    return o;
}

static Result load_and_run(const std::string &file, bool verbose, std::string *prop_id, const std::vector<Prop> &props) {
    std::string s = slurp(file);
    size_t p = s.find("choices:");
    size_t q = s.find("property:");
    if (p == std::string::npos || q == std::string::npos) { fprintf(stderr, "bad replay file\n"); exit(4); }
    char id[64];
    sscanf(s.c_str() + q, "property: %63s", id);
    for (auto &x : props)
        if (!strcmp(x.id, id)) g_prop = &x;
    if (!g_prop) { fprintf(stderr, "no such property %s\n", id); exit(4); }
    *prop_id = id;
    std::vector<uint64_t> ch;
    const char *c = s.c_str() + p + 8;
    char *e;
    while (*c && *c != '\n') {
        uint64_t v = strtoull(c, &e, 10);
        if (e == c) break;
        ch.push_back(v);
        c = e;
    }
    Pending pe = launch(&ch, 0, verbose);
    return finish(pe, &ch);
}

// the choices of a case that did not live to report them: rerun with a log in shared memory
static std::vector<uint64_t> choices_of(uint64_t seed) {
    std::vector<uint64_t> used;
    size_t cap = 1 << 20;
    uint64_t *shm = (uint64_t *)mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t pid = fork();
    if (!pid) {
        int e = open("/dev/null", O_WRONLY);
        dup2(e, 2);
        dup2(e, 1);
        child_setup();
        arm(HANG_CPU);
        Ctx c;
        c.thorough = g_thorough;
        c.rng = seed;
        g_choice_log = shm;
        g_choice_cap = cap;
        try { g_prop->fn(c); } catch (...) {}
        _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    size_t n = shm[0];
    for (size_t i = 0; i < n && i + 1 < cap; i++) used.push_back(shm[1 + i]);
    munmap(shm, cap * 8);
    return used;
}

int main_(int argc, char **argv, const std::vector<Prop> &props) {
    std::string id, resf, outdir = "/tmp", knownf, replay;
    uint64_t cases = 0;
    double tlimit = 0;
    int workers = 8, collect_max = 0;
    std::map<std::string, std::pair<uint64_t, int>> collected;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") g_seed = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--tier") g_thorough = next() == "thorough";
        else if (a == "--cases") cases = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--time") tlimit = atof(next().c_str());
        else if (a == "--result") resf = next();
        else if (a == "--out") outdir = next();
        else if (a == "--known") knownf = next();
        else if (a == "--workers") workers = atoi(next().c_str());
        else if (a == "--replay") replay = next();
        else if (a == "--collect") { collect_max = atoi(next().c_str()); HANG_CPU = 6; }  // development: list distinct failures
        else id = a;
    }
    g_tmp = fmt("/tmp/pbt.%d", getpid());
    mkdir(g_tmp.c_str(), 0700);
    if (!knownf.empty()) {
        std::string s = slurp(knownf);
        size_t p = 0;
        while (p < s.size()) {
            size_t q = s.find('\n', p);
            if (q == std::string::npos) q = s.size();
            std::string l = s.substr(p, q - p);
            if (!l.empty()) g_known.insert(l);
            p = q + 1;
        }
    }
    if (!replay.empty()) {
        std::string pid;
        Result r = load_and_run(replay, true, &pid, props);
        rmdir(g_tmp.c_str());
        if (r.status == 1) {
            printf("FAIL %s: %s\n%s\n", r.sig.c_str(), r.msg.c_str(), r.trace.c_str());
            return 1;
        }
        printf("pass\n");
        return 0;
    }
    for (auto &x : props)
        if (id == x.id) g_prop = &x;
    if (!g_prop) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 4; }
    if (!cases) cases = g_thorough ? g_prop->thorough : g_prop->quick;
    if (tlimit <= 0) tlimit = g_thorough ? 600 : 45;

    Slot *slots = (Slot *)mmap(nullptr, sizeof(Slot) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = now(), tend = t0 + tlimit;
    std::vector<pid_t> pids(workers, 0);
    std::vector<std::string> errfs(workers);
    std::set<uint64_t> nontriv;
    std::map<std::string, uint64_t> classes;
    std::vector<std::string> samples;
    std::vector<int> gen(workers, 0);
    uint64_t fail_idx;
    uint64_t evals, disc;

    auto start = [&](int w) {
        errfs[w] = g_tmp + fmt("/w%d.%d.err", w, gen[w]);
        std::string resw = g_tmp + fmt("/w%d.%d.res", w, gen[w]);
        gen[w]++;
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); exit(4); }
        if (pid) { pids[w] = pid; return; }
        int e = open(errfs[w].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(e, 2);
        dup2(e, 1);
        child_setup();
        Slot &S = slots[w];
        std::set<uint64_t> nt;
        std::map<std::string, uint64_t> cl;
        std::vector<std::string> sm;
        uint64_t ran = 0;
        bool failed = false;
        while (S.next < cases && now() < tend) {
            uint64_t idx = S.next;
            S.cur = idx;
            Ctx c;
            c.thorough = g_thorough;
            c.rng = case_seed(idx);
            arm(HANG_CPU);
            try {
                g_prop->fn(c);
                S.evals++;
                if (c.nontrivial) {
                    nt.insert(c.fp);
                    if (sm.size() < 3) sm.push_back(c.trace);
                }
            } catch (Fail &f) {
                S.failed = 1;
                failed = true;
            } catch (Discard &) {
                S.discards++;
            }
            arm(0);
            for (auto &k : c.classes) cl[k.first] += k.second;
            S.next = idx + workers;
            if (failed) break;
            // leaks in the tested code (and in error paths) accumulate: renew the worker
            if (++ran % 512 == 0) {
                struct rusage ru;
                getrusage(RUSAGE_SELF, &ru);
                if (ru.ru_maxrss > 2500000) break;
            }
            lseek(2, 0, SEEK_SET);
            (void)!ftruncate(2, 0);
        }
        FILE *f = fopen(resw.c_str(), "wb");
        fprintf(f, "%zu %zu %zu\n", nt.size(), cl.size(), sm.size());
        for (auto v : nt) fwrite(&v, 8, 1, f);
        for (auto &k : cl) fprintf(f, "%s\t%llu\n", k.first.c_str(), (unsigned long long)k.second);
        for (auto &s : sm) { fprintf(f, "%zu\n", s.size()); fwrite(s.data(), 1, s.size(), f); }
        fclose(f);
        S.done = (!failed && (S.next >= cases || now() >= tend)) ? 1 : 0;
        _exit(failed ? 9 : 0);
    };
    auto collect = [&](int w) {
        std::string s = slurp(g_tmp + fmt("/w%d.%d.res", w, gen[w] - 1));
        if (s.empty()) return;
        unsigned long a, b, c;
        int off = 0;
        if (sscanf(s.c_str(), "%lu %lu %lu\n%n", &a, &b, &c, &off) != 3) return;
        size_t o = s.find('\n') + 1;
        for (unsigned long i = 0; i < a; i++, o += 8) {
            uint64_t v;
            memcpy(&v, s.data() + o, 8);
            nontriv.insert(v);
        }
        for (unsigned long i = 0; i < b; i++) {
            size_t q = s.find('\n', o);
            std::string l = s.substr(o, q - o);
            size_t t = l.rfind('\t');
            classes[l.substr(0, t)] += strtoull(l.c_str() + t + 1, nullptr, 10);
            o = q + 1;
        }
        for (unsigned long i = 0; i < c; i++) {
            size_t q = s.find('\n', o);
            size_t n = strtoull(s.c_str() + o, nullptr, 10);
            if (samples.size() < 6) samples.push_back(s.substr(q + 1, n));
            o = q + 1 + n;
        }
    };
    for (int w = 0; w < workers; w++) slots[w].next = w;
    int rc = 0, unrepro = 0;
    std::string vio;
  search:
    fail_idx = UINT64_MAX;
    for (int w = 0; w < workers; w++) start(w);
    int alive = workers;
    while (alive > 0) {
        int st;
        pid_t p = waitpid(-1, &st, 0);
        if (p < 0) break;
        for (int w = 0; w < workers; w++)
            if (pids[w] == p) {
                pids[w] = 0;
                alive--;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
                    collect(w);
                    if (!slots[w].done && fail_idx == UINT64_MAX) { start(w); alive++; }
                } else {
                    collect(w);
                    uint64_t fi = slots[w].cur;
                    if (collect_max) {
                        Pending pe = launch(nullptr, case_seed(fi));
                        Result r = finish(pe, nullptr);
                        auto &e = collected[r.status == 1 ? r.sig : "(not reproduced)"];
                        if (!e.second++) e.first = fi;
                        slots[w].next = fi + workers;
                        if (now() < tend && (int)collected.size() <= collect_max) { start(w); alive++; }
                        continue;
                    }
                    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && fail_idx != UINT64_MAX) continue;
                    if (fail_idx == UINT64_MAX || fi < fail_idx) fail_idx = fi;
                    for (int k = 0; k < workers; k++)
                        if (pids[k]) kill(pids[k], SIGKILL);
                }
            }
    }
    evals = disc = 0;
    for (int w = 0; w < workers; w++) { evals += slots[w].evals; disc += slots[w].discards; }
    auto write_replay = [&](const Result &m, uint64_t seed, uint64_t idx) {
        std::string f = outdir + "/" + id + fmt("-%016llx.replay", (unsigned long long)seed);
        FILE *fp = fopen(f.c_str(), "w");
        if (!fp) return f;
        fprintf(fp, "property: %s\nseed: %llu case: %llu\nsignature: %s\n", id.c_str(), (unsigned long long)g_seed, (unsigned long long)idx,
                m.sig.c_str());
        fprintf(fp, "choices:");
        for (auto v : m.used) fprintf(fp, " %llu", (unsigned long long)v);
        fprintf(fp, "\nmessage: %s\ntrace:\n%s\n", m.msg.c_str(), m.trace.c_str());
        fclose(fp);
        return f;
    };
    for (auto &k : collected) {
        uint64_t seed = case_seed(k.second.first);
        Pending pe = launch(nullptr, seed);
        Result r = finish(pe, nullptr);
        if (r.status != 1) continue;
        if (r.used.empty()) r.used = choices_of(seed);
        Result m = shrink(r, 4);
        std::string rf = write_replay(m, seed, k.second.first);
        printf("######## %s x%d (case %llu) %s\n%s\n%s\n", k.first.c_str(), k.second.second, (unsigned long long)k.second.first, rf.c_str(), m.msg.substr(0, 9000).c_str(),
               m.trace.substr(0, 1200).c_str());
        fflush(stdout);
    }
    if (fail_idx != UINT64_MAX) {
        uint64_t seed = case_seed(fail_idx);
        Pending pe = launch(nullptr, seed);
        Result r = finish(pe, nullptr);
        if (r.status != 1) {
            // depends on state left by earlier cases of the worker: not a reproducible failure
            fprintf(stderr, "case %llu failed in a worker but not alone (%s); worker output:\n%s\n",
                    (unsigned long long)fail_idx, id.c_str(), slurp(errfs[fail_idx % workers]).substr(0, 4000).c_str());
            rc = 5;
            slots[fail_idx % workers].next = fail_idx + workers;
            if (++unrepro < 6 && now() < tend) goto search;
        } else {
            rc = 0;
            evals++;
            bool haveChoices = !r.used.empty();
            if (!haveChoices) r.used = choices_of(seed);
            // replay three times before believing it
            int ok = 0;
            Result last;
            for (int k = 0; k < 3; k++) {
                Pending q = launch(&r.used, 0);
                last = finish(q, &r.used);
                if (same_failure(r, last)) ok++;
            }
            if (ok < 3) {
                fprintf(stderr, "failure of case %llu does not replay (%d/3): %s / %s: %s\n", (unsigned long long)fail_idx, ok,
                        r.sig.c_str(), last.sig.c_str(), r.msg.substr(0, 2000).c_str());
                rc = 5;
                slots[fail_idx % workers].next = fail_idx + workers;
                if (++unrepro < 6 && now() < tend) goto search;
            } else {
                if (r.trace.empty()) r.trace = last.trace;
                Result m = shrink(r, g_thorough ? 90 : 40);
                std::string f = write_replay(m, seed, fail_idx);
                printf("FAILURE %s [%s]\n%s\n", id.c_str(), m.sig.c_str(), m.msg.substr(0, 4000).c_str());
                printf("--- history of the minimal case\n%s\n", m.trace.substr(0, 6000).c_str());
                vio = f;
                rc = 1;
            }
        }
    }
    if (rc == 5) {
        printf("note: %d failure(s) did not reproduce in isolation and are not reported as violations\n", unrepro);
        rc = 0;
    }
    double wall = now() - t0;
    if (!resf.empty()) {
        FILE *f = fopen(resf.c_str(), "w");
        fprintf(f, "{\"property\":\"%s\",\"unreproduced\":%d,\"evaluations\":%llu,\"discards\":%llu,\"distinct_nontrivial\":%zu,\"rule\":\"%s\",\"wall_s\":%.2f,",
                id.c_str(), unrepro, (unsigned long long)evals, (unsigned long long)disc, nontriv.size(), jesc(g_prop->rule).c_str(), wall);
        fprintf(f, "\"planned\":%llu,\"classes\":{", (unsigned long long)cases);
        bool first = true;
        for (auto &k : classes) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(k.first).c_str(), (unsigned long long)k.second); first = false; }
        fprintf(f, "},\"samples\":[");
        first = true;
        for (auto &s : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s, 1500).c_str()); first = false; }
        fprintf(f, "],\"violation\":\"%s\"}\n", jesc(vio).c_str());
        fclose(f);
    }
    if (rc == 1) printf("VIOLATION property=%s replay=%s\n", id.c_str(), vio.c_str());
    std::string rmc = g_tmp;  // remove our own scratch files
    for (int w = 0; w < workers; w++)
        for (int g = 0; g < gen[w]; g++) {
            unlink((g_tmp + fmt("/w%d.%d.err", w, g)).c_str());
            unlink((g_tmp + fmt("/w%d.%d.res", w, g)).c_str());
        }
    rmdir(g_tmp.c_str());
    return rc;
}
}  // namespace pbt
