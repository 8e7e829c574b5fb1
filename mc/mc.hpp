// Stateless explicit-path model checker for sequential code.
//
// A scenario is a closed driver (a C++ function) that runs the real code from scratch.  Every
// nondeterministic decision - the next operation, an input value, a random draw - goes through the
// engine, which enumerates all decision sequences depth first by re-execution.  Free choices are
// always fully enumerated; random draws follow a fixed default stream and may deviate from it, each
// deviation (a value from a small alphabet) costing one; all executions with at most `bound`
// deviations are run, for bound = 0, 1, ... up to the scenario's bound.
#pragma once
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Opt {
    int bound = 0; // maximum random deviations
    uint64_t seed = 1;
    std::vector<double> alpha = { 1e-9, 0.5, 1 - 1e-9 };
    long cap = 0; // maximum executions per bound level (0: none); reaching it is reported
    bool leak = false; // memory still allocated after an execution (twice in a row) is a violation
};

bool thorough();
void add(const std::string &name, const Opt &opt, std::function<void()> body);

// decisions
int choose(int n); // free choice in [0, n)
double pick(const std::vector<double> &v);
int picki(const std::vector<int> &v);
bool flip();
// random draws
void branch(bool on); // whether draws are decision points (default off at start of an execution)
void free_draws(bool on); // draws become free choices over the alphabet (no default stream)
void script(std::vector<double> v); // answer the next draws from a script, then the default stream
void seed_stream(uint64_t s);
void honor_seed(bool on); // let the code's own seeding position the stream (default: seeding is ignored)
long draws(); // draws so far in this execution
struct RngState { uint64_t s; };
RngState rng_save(); // default stream position (used to replay a stream)
void rng_restore(RngState);
void flush_normal(); // empty the code's cached normal deviate

// reporting
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void step(); // one transition taken
void state(uint64_t h); // a reached state
void outcome(uint64_t h); // an observable outcome (vacuity control)
void validated(); // one model trace compared with the implementation
size_t mem(); // bytes currently allocated

// run fn in a forked copy; returns true when it ended by exit()/_exit with non-zero status
// (a rejection), false when fn returned.  A crash or sanitizer report is a violation.
bool rejects(const std::function<void()> &fn);

struct Hash {
    uint64_t h = 1469598103934665603ULL;
    void b(const void *p, size_t n)
    {
        const unsigned char *c = (const unsigned char *) p;
        for (size_t i = 0; i < n; ++i) {
            h ^= c[i];
            h *= 1099511628211ULL;
        }
    }
    void d(double v) { if (v == 0) v = 0; b(&v, 8); }
    void i(long v) { b(&v, 8); }
    void v(const std::vector<double> &x) { i((long) x.size()); for (double e : x) d(e); }
};

void scenarios(); // defined by the harness
int run(int argc, char **argv);
} // namespace mc
