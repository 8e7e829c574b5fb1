#include "mc.hpp"
#include "shim/dSFMT.h"
#include <algorithm>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <map>

extern "C" { dsfmt_t dsfmt_global_data; } // position of the default stream
extern "C" double rand_normal(double mu, double sigma) __attribute__((weak));
extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));

namespace mc {

static const int EXIT_FAIL = 101, EXIT_HANG = 102, EXIT_DIVERGE = 103, EXIT_DONE = 0;
static const size_t MAXP = 1 << 20;
static const size_t TBL = 1 << 23;

struct Scn {
    std::string name;
    Opt opt;
    std::function<void()> body;
};
struct Shm {
    volatile long execs, transitions, states, outcomes, validated, points, maxpoints, maxdraws;
    volatile int bound_done, capped, in_exec, finished, by_fail;
    volatile uint32_t plen;
    char key[256];
    char msg[8192];
    char log[1 << 16];
    char sample[2][6000];
    uint16_t path[MAXP];
};
struct Pt {
    uint8_t kind; // 0 free, 1 random
    uint16_t n, val;
};

static std::vector<Scn> &scns()
{
    static std::vector<Scn> s;
    return s;
}
static bool g_thorough = false;
static Shm *S = nullptr;
static Scn *C = nullptr;
static std::vector<uint16_t> prefix;
static std::vector<Pt> rec;
static size_t pos;
static uint64_t &rng = dsfmt_global_data.state;
static bool g_branch, g_free, g_honor;
static std::vector<double> g_script;
static long g_since = 0; // draws since the execution or the last script began
static size_t g_spos;
static long g_draws;
static size_t loglen;
static uint64_t *tstate, *tout;
static uint64_t trace_hash;
static int g_timeout = 60;
static std::string g_dir = "/tmp";
static bool g_verbose = false;

bool thorough() { return g_thorough; }

void add(const std::string &name, const Opt &opt, std::function<void()> body)
{
    scns().push_back({ name, opt, std::move(body) });
}

static uint64_t splitmix(uint64_t &x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

[[noreturn]] static void die(int code)
{
    _exit(code);
}

static int point(uint8_t kind, int n)
{
    int v = 0;
    if (pos < prefix.size()) {
        v = prefix[pos];
        if (v >= n) {
            snprintf(S->key, sizeof(S->key), "divergence");
            snprintf(S->msg, sizeof(S->msg), "replay divergence: choice %d of %d at point %zu", v, n, pos);
            die(EXIT_DIVERGE);
        }
    }
    if (pos < MAXP) {
        S->path[pos] = (uint16_t) v;
        S->plen = (uint32_t) (pos + 1);
    } else {
        snprintf(S->key, sizeof(S->key), "hang");
        snprintf(S->msg, sizeof(S->msg), "more than %zu decision points in one execution", MAXP);
        die(EXIT_HANG);
    }
    ++pos;
    rec.push_back({ kind, (uint16_t) n, (uint16_t) v });
    return v;
}

int choose(int n)
{
    if (n <= 1) return 0;
    return point(0, n);
}
double pick(const std::vector<double> &v) { return v[choose((int) v.size())]; }
int picki(const std::vector<int> &v) { return v[choose((int) v.size())]; }
bool flip() { return choose(2) != 0; }
void branch(bool on) { g_branch = on; }
void free_draws(bool on) { g_free = on; }
void script(std::vector<double> v)
{
    g_script = std::move(v);
    g_spos = 0;
    g_since = 0;
}
void seed_stream(uint64_t s) { rng = s; }
void honor_seed(bool on) { g_honor = on; }
long draws() { return g_draws; }
RngState rng_save() { return { rng }; }
void rng_restore(RngState r) { rng = r.s; }

static double draw()
{
    ++g_draws;
    if (++g_since > 20000000) {
        snprintf(S->key, sizeof(S->key), "hang");
        snprintf(S->msg, sizeof(S->msg), "more than 2e7 random draws in one execution");
        die(EXIT_HANG);
    }
    const double d = ((double) (splitmix(rng) >> 12) + 0.5) / 4503599627370496.0;
    if (g_spos < g_script.size()) return g_script[g_spos++];
    if (g_free) return C->opt.alpha[point(0, (int) C->opt.alpha.size())];
    if (!g_branch) return d;
    const int v = point(1, 1 + (int) C->opt.alpha.size());
    return v ? C->opt.alpha[v - 1] : d;
}

void flush_normal()
{
    if (!rand_normal) return;
    const bool b = g_branch, f = g_free;
    const uint64_t r = rng;
    const size_t sp = g_spos;
    const std::vector<double> sc;
    std::vector<double> keep;
    keep.swap(g_script);
    g_spos = 0;
    g_branch = g_free = false;
    for (int i = 0; i < 4; ++i) {
        const long before = g_draws;
        (void) rand_normal(0, 1);
        if (g_draws == before) break;
    }
    g_branch = b;
    g_free = f;
    rng = r;
    g_script.swap(keep);
    g_spos = sp;
}

void log(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    if (loglen + 2 < sizeof(S->log)) {
        const int n = vsnprintf(S->log + loglen, sizeof(S->log) - loglen - 2, fmt, ap);
        if (n > 0) {
            loglen = std::min(loglen + (size_t) n, sizeof(S->log) - 3);
            S->log[loglen++] = '\n';
            S->log[loglen] = 0;
        }
    }
    va_end(ap);
}

void fail(const char *key, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    snprintf(S->key, sizeof(S->key), "%s", key);
    vsnprintf(S->msg, sizeof(S->msg), fmt, ap);
    va_end(ap);
    S->by_fail = 1;
    die(EXIT_FAIL);
}

static bool tadd(uint64_t *t, uint64_t h)
{
    if (h == 0) h = 1;
    for (size_t i = h & (TBL - 1), n = 0; n < 64; ++n, i = (i + 1) & (TBL - 1)) {
        if (t[i] == h) return false;
        if (t[i] == 0) {
            t[i] = h;
            return true;
        }
    }
    return false; // table full: not counted (the count is then a lower bound)
}
void step() { ++S->transitions; }
void state(uint64_t h)
{
    trace_hash = trace_hash * 1099511628211ULL + h;
    if (tadd(tstate, h)) ++S->states;
}
void outcome(uint64_t h)
{
    trace_hash = trace_hash * 1099511628211ULL + h;
    if (tadd(tout, h)) ++S->outcomes;
}
void validated() { ++S->validated; }
size_t mem() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }

bool rejects(const std::function<void()> &fn)
{
    fflush(nullptr);
    const pid_t p = fork();
    if (p == 0) {
        S->in_exec = 2;
        alarm(g_timeout < 30 ? (unsigned) g_timeout : 30U); // alarms are not inherited
        fn();
        _exit(77); // returned normally
    }
    int st = 0;
    waitpid(p, &st, 0);
    S->in_exec = 1;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) return false;
    if (WIFEXITED(st) && WEXITSTATUS(st) != 99 && WEXITSTATUS(st) != EXIT_FAIL && WEXITSTATUS(st) != EXIT_HANG) return true;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == EXIT_FAIL || WEXITSTATUS(st) == EXIT_HANG)) die(EXIT_FAIL);
    fail("crash", "child crashed (status 0x%x) while handling an input it should reject or accept", st);
}

static void on_alarm(int)
{
    snprintf(S->key, sizeof(S->key), "hang");
    snprintf(S->msg, sizeof(S->msg), "execution did not finish within %d s", g_timeout);
    _exit(EXIT_HANG);
}
static void on_exit_hook(void)
{
    if (S && S->in_exec == 1) {
        fflush(nullptr);
        snprintf(S->key, sizeof(S->key), "exit");
        snprintf(S->msg, sizeof(S->msg), "the code under test called exit() on a legal history");
        _exit(EXIT_FAIL);
    }
}

static size_t run_body()
{
    rec.clear();
    pos = 0;
    rng = C->opt.seed * 0x2545F4914F6CDD1DULL + 12345;
    g_branch = g_free = g_honor = false;
    g_script.clear();
    g_since = 0;
    g_spos = 0;
    g_draws = 0;
    loglen = 0;
    S->log[0] = 0;
    S->plen = 0;
    trace_hash = 7;
    flush_normal();
    g_draws = 0;
    alarm((unsigned) g_timeout);
    S->in_exec = 1;
    const size_t m0 = mem();
    C->body();
    const size_t m1 = mem();
    S->in_exec = 0;
    if (pos < prefix.size()) {
        snprintf(S->key, sizeof(S->key), "divergence");
        snprintf(S->msg, sizeof(S->msg), "replay divergence: execution ended after %zu of %zu decisions", pos, prefix.size());
        die(EXIT_DIVERGE);
    }
    return m1 > m0 ? m1 - m0 : 0;
}
static void exec_one()
{
    size_t lk = run_body();
    if (C->opt.leak && lk) {
        // one-time allocations of the runtime are not leaks: the same path again, twice
        const std::vector<uint16_t> keep = prefix;
        prefix.clear();
        for (auto &p : rec) prefix.push_back(p.val);
        run_body();
        lk = run_body();
        prefix = keep;
        if (lk) fail("leak", "%zu bytes were not released by freeing the system", lk);
    }
    ++S->execs;
    S->points += (long) rec.size();
    if ((long) rec.size() > S->maxpoints) S->maxpoints = (long) rec.size();
    if (g_draws > S->maxdraws) S->maxdraws = g_draws;
}

static std::string describe_path()
{
    std::string s;
    for (size_t i = 0; i < rec.size() && s.size() < 3000; ++i) {
        if (rec[i].kind == 1 && rec[i].val == 0) continue;
        s += (rec[i].kind ? " r" : " c") + std::to_string(i) + "=" + std::to_string(rec[i].val);
    }
    return s;
}

static void child_setup()
{
    const int n = open("/dev/null", O_WRONLY);
    if (!g_verbose) dup2(n, 1);
    signal(SIGALRM, on_alarm);
    atexit(on_exit_hook);
    tstate = (uint64_t *) mmap(nullptr, TBL * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    tout = (uint64_t *) mmap(nullptr, TBL * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    rec.reserve(1 << 16);
    prefix.reserve(1 << 16);
}

// explore one scenario completely (in a child process)
static void explore(Scn &s)
{
    C = &s;
    child_setup();
    for (int D = 0; D <= s.opt.bound; ++D) {
        long n = 0;
        prefix.clear();
        while (true) {
            exec_one();
            ++n;
            if (D == 0 && n == 1) { // own the nondeterminism: the same path must give the same trace
                const uint64_t h = trace_hash;
                const std::vector<Pt> r = rec;
                snprintf(S->sample[0], sizeof(S->sample[0]), "%s", S->log);
                prefix.clear();
                for (auto &p : r) prefix.push_back(p.val);
                exec_one();
                bool same = h == trace_hash && r.size() == rec.size();
                for (size_t i = 0; same && i < r.size(); ++i) same = r[i].n == rec[i].n && r[i].kind == rec[i].kind;
                if (!same) {
                    snprintf(S->key, sizeof(S->key), "nondeterminism");
                    snprintf(S->msg, sizeof(S->msg), "the same decisions gave two different executions");
                    die(EXIT_FAIL);
                }
            }
            // backtrack
            int cost = 0;
            std::vector<int> before(rec.size());
            for (size_t i = 0; i < rec.size(); ++i) {
                before[i] = cost;
                if (rec[i].kind == 1 && rec[i].val != 0) ++cost;
            }
            long i = (long) rec.size() - 1;
            for (; i >= 0; --i) {
                const Pt &p = rec[(size_t) i];
                if (p.val + 1 < p.n && (p.kind == 0 || before[(size_t) i] + 1 <= D)) break;
            }
            if (i < 0) break;
            if (s.opt.cap && n >= s.opt.cap) {
                S->capped = D + 1;
                break;
            }
            prefix.resize((size_t) i + 1);
            for (long j = 0; j < i; ++j) prefix[(size_t) j] = rec[(size_t) j].val;
            prefix[(size_t) i] = (uint16_t) (rec[(size_t) i].val + 1);
            if ((n & 1023) == 0) {
                const std::string d = describe_path();
                snprintf(S->sample[1], sizeof(S->sample[1]), "decisions:%s\n%.3500s", d.c_str(), S->log);
            }
        }
        if (S->sample[1][0] == 0) {
            const std::string d = describe_path();
            snprintf(S->sample[1], sizeof(S->sample[1]), "decisions:%s\n%.3500s", d.c_str(), S->log);
        }
        S->bound_done = D;
        if (S->capped) break;
    }
    S->finished = 1;
    _exit(EXIT_DONE);
}

static void replay(Scn &s, const std::vector<uint16_t> &path)
{
    C = &s;
    child_setup();
    prefix = path;
    exec_one();
    _exit(EXIT_DONE);
}

static Shm *newshm()
{
    Shm *p = (Shm *) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(2);
    }
    p->bound_done = -1;
    return p;
}

static std::string esc(const std::string &s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += (char) c;
        } else if (c == '\n') {
            o += "\\n";
        } else if (c < 32 || c > 126) {
            o += '?';
        } else {
            o += (char) c;
        }
    }
    return o;
}
static std::string slurp(const std::string &f, size_t max)
{
    std::string o;
    if (FILE *fp = fopen(f.c_str(), "r")) {
        o.resize(max);
        o.resize(fread(&o[0], 1, max, fp));
        fclose(fp);
    }
    return o;
}

static int spawn_wait_replay(Scn &s, Shm *m, const std::string &err, const std::vector<uint16_t> &path, int timeout)
{
    const pid_t p = fork();
    if (p == 0) {
        S = m;
        g_timeout = timeout;
        const int f = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(f, 2);
        replay(s, path);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return st;
}

int run(int argc, char **argv)
{
    std::string out = "result.json", only, replayf;
    int jobs = 8;
    bool list = false;
    for (int i = 1; i < argc; ++i) {
        const std::string a = argv[i];
        if (a == "--out") out = argv[++i];
        else if (a == "--dir") g_dir = argv[++i];
        else if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--only") only = argv[++i];
        else if (a == "--thorough") g_thorough = true;
        else if (a == "--replay") replayf = argv[++i];
        else if (a == "--list") list = true;
        else if (a == "-v") g_verbose = true;
    }
    scenarios();
    auto &v = scns();
    if (list) {
        for (auto &s : v) printf("%s\n", s.name.c_str());
        return 0;
    }
    if (!replayf.empty()) {
        const std::string t = slurp(replayf, 1 << 24);
        std::vector<uint16_t> path;
        std::string name;
        size_t a = t.find("scenario: ");
        size_t b = t.find('\n', a);
        name = t.substr(a + 10, b - a - 10);
        a = t.find("path:");
        b = t.find('\n', a);
        const std::string ps = t.substr(a + 5, b - a - 5);
        const char *c = ps.c_str();
        char *e = nullptr;
        while (true) {
            const long x = strtol(c, &e, 10);
            if (e == c) break;
            path.push_back((uint16_t) x);
            c = e;
        }
        for (auto &s : v) {
            if (s.name != name) continue;
            Shm *m = newshm();
            const std::string err = g_dir + "/replay.err";
            const int st = spawn_wait_replay(s, m, err, path, 180);
            printf("status=0x%x key=%s msg=%s\n%s\n%s\n", st, m->key, m->msg, m->log, slurp(err, 8000).c_str());
            return st == 0 ? 0 : 1;
        }
        printf("unknown scenario %s\n", name.c_str());
        return 2;
    }
    if (!only.empty()) {
        std::vector<Scn> w;
        for (auto &s : v)
            if (s.name.find(only) != std::string::npos) w.push_back(s);
        v = w;
    }
    std::map<pid_t, size_t> live;
    std::vector<Shm *> shm(v.size(), nullptr);
    std::vector<int> status(v.size(), 0);
    std::vector<double> t0(v.size(), 0), secs(v.size(), 0);
    auto now = [] {
        timespec ts;
        clock_gettime(CLOCK_MONOTONIC, &ts);
        return (double) ts.tv_sec + 1e-9 * (double) ts.tv_nsec;
    };
    size_t next = 0;
    auto errf = [&](size_t i) { return g_dir + "/scn" + std::to_string(i) + ".err"; };
    int failed = 0;
    size_t skipped = 0;
    const double begin = now();
    auto failing = [&](size_t i) { return !(WIFEXITED(status[i]) && WEXITSTATUS(status[i]) == EXIT_DONE && shm[i]->finished); };
    while (next < v.size() || !live.empty()) {
        // a broken tree is reported, not mapped: enough failures (or time) end the exploration
        if (failed >= 16 || (!g_thorough && now() - begin > 480)) {
            skipped += v.size() - next;
            v.resize(next);
        }
        while (next < v.size() && (int) live.size() < jobs) {
            const size_t i = next++;
            shm[i] = newshm();
            t0[i] = now();
            fflush(nullptr);
            const pid_t p = fork();
            if (p < 0) {
                perror("fork");
                return 2;
            }
            if (p == 0) {
                S = shm[i];
                const int f = open(errf(i).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
                dup2(f, 2);
                explore(v[i]);
            }
            live[p] = i;
        }
        int st = 0;
        const pid_t p = waitpid(-1, &st, 0);
        auto it = live.find(p);
        if (it == live.end()) continue;
        status[it->second] = st;
        secs[it->second] = now() - t0[it->second];
        failed += failing(it->second);
        live.erase(it);
    }
    // report
    char *buf = nullptr; // in memory: forked copies that exit() must not write to the file
    size_t buf_len = 0;
    FILE *fp = open_memstream(&buf, &buf_len);
    if (!fp) {
        perror("out");
        return 2;
    }
    // confirm failures by replaying them, hangs last, until there are enough
    std::vector<size_t> order;
    for (int hang = 0; hang < 2; ++hang)
        for (size_t i = 0; i < v.size(); ++i)
            if (failing(i) && (strcmp(shm[i]->key, "hang") == 0) == (hang == 1)) order.push_back(i);
    std::map<size_t, int> confirmed;
    const double rb = now();
    int good = 0;
    for (size_t i : order) {
        if (good >= 12 || (good >= 3 && now() - rb > 60)) break;
        Shm *m = shm[i];
        const std::vector<uint16_t> path(m->path, m->path + m->plen);
        const bool hang = strcmp(m->key, "hang") == 0;
        Shm *m2 = newshm();
        bool again = spawn_wait_replay(v[i], m2, errf(i) + "2", path, hang ? 120 : 60) != 0;
        if (!again && !hang) {
            // only after a history of executions: explore the scenario again
            Shm *m3 = newshm();
            const pid_t p = fork();
            if (p == 0) {
                S = m3;
                explore(v[i]);
            }
            int st3 = 0;
            waitpid(p, &st3, 0);
            again = st3 != 0;
            confirmed[i] = again ? 2 : 0;
        } else confirmed[i] = again;
        good += again;
    }
    int rc = 0;
    fprintf(fp, "{\"scenarios\": [\n");
    for (size_t i = 0; i < v.size(); ++i) {
        Shm *m = shm[i];
        const int st = status[i];
        std::string verdict = "ok", key, msg, err;
        std::vector<uint16_t> path;
        std::string plog;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == EXIT_DONE && m->finished)) {
            key = m->key;
            msg = m->msg;
            if (key.empty()) {
                key = "crash";
                char b[128];
                snprintf(b, sizeof(b), "the code under test crashed (wait status 0x%x)", st);
                msg = b;
            }
            path.assign(m->path, m->path + m->plen);
            plog = m->log;
            err = slurp(errf(i), 6000);
            const auto c = confirmed.find(i);
            const bool again = c != confirmed.end() && c->second;
            if (again && c->second == 2) msg += " [needs the preceding executions of the same process]";
            if (c == confirmed.end()) verdict = "unconfirmed";
            else
            verdict = again ? "violation" : "unreproduced";
            rc = 1;
        }
        fprintf(fp, "%s{\"name\": \"%s\", \"verdict\": \"%s\", \"key\": \"%s\", \"msg\": \"%s\", ", i ? ",\n" : "", esc(v[i].name).c_str(),
                verdict.c_str(), esc(key).c_str(), esc(msg).c_str());
        fprintf(fp, "\"executions\": %ld, \"transitions\": %ld, \"states\": %ld, \"outcomes\": %ld, \"validated\": %ld, \"points\": %ld, "
                    "\"max_points\": %ld, \"max_draws\": %ld, \"bound\": %d, \"bound_done\": %d, \"capped\": %d, \"secs\": %.2f, ",
                m->execs, m->transitions, m->states, m->outcomes, m->validated, m->points, m->maxpoints, m->maxdraws, v[i].opt.bound,
                m->bound_done, m->capped, secs[i]);
        fprintf(fp, "\"sample\": [\"%s\", \"%s\"]", esc(std::string(m->sample[0]).substr(0, 1500)).c_str(), esc(std::string(m->sample[1]).substr(0, 1500)).c_str());
        if (!path.empty() || verdict != "ok") {
            fprintf(fp, ", \"log\": \"%s\", \"stderr\": \"%s\", \"path\": [", esc(plog).c_str(), esc(err).c_str());
            for (size_t j = 0; j < path.size(); ++j) fprintf(fp, "%s%d", j ? "," : "", path[j]);
            fprintf(fp, "]");
        }
        fprintf(fp, "}");
    }
    if (skipped) {
        fprintf(fp, "%s{\"name\": \"(%zu scenarios not started)\", \"verdict\": \"ok\", \"key\": \"\", \"msg\": \"\", \"executions\": 0, \"transitions\": 0, \"states\": 0, \"outcomes\": 0, "
                    "\"validated\": 0, \"points\": 0, \"max_points\": 0, \"max_draws\": 0, \"bound\": 0, \"bound_done\": 0, \"capped\": 1, \"secs\": 0, \"sample\": []}",
                v.empty() ? "" : ",\n", skipped);
    }
    fprintf(fp, "\n]}\n");
    fclose(fp);
    if (FILE *o = fopen(out.c_str(), "w")) {
        fwrite(buf, 1, buf_len, o);
        fclose(o);
    }
    return rc;
}

} // namespace mc

extern "C" void vt_draw(void) __attribute__((weak)); // the virtual-thread runtime observes draws
extern "C" double mc_rng_next(void)
{
    if (vt_draw) vt_draw();
    return mc::draw();
}
extern "C" void mc_rng_seed(uint32_t seed) { if (mc::g_honor) mc::seed_stream(seed * 0x9E3779B97F4A7C15ULL + 77); }

int main(int argc, char **argv) { return mc::run(argc, argv); }
