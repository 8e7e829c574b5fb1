// C20: the same seed and calls give the same run.
#include "ref.hpp"
#include <ctime>
#include <unistd.h>
extern "C" {
#include "xcsf/env.h"
#include "xcsf/env_mux.h"
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
}
using namespace xc;

static time_t now = 1000;
extern "C" time_t time(time_t *p) noexcept
{
    if (p) *p = now;
    return now;
}
// contents of fresh heap memory
static int fill = -1;
static void on_malloc(const volatile void *p, size_t n)
{
    if (fill >= 0 && n <= 65536) memset((void *) p, fill, n);
}
static void on_free(const volatile void *) { }
static void __attribute__((noinline)) scribble(int b)
{
    volatile unsigned char a[40000];
    for (size_t i = 0; i < sizeof(a); ++i) a[i] = (unsigned char) b;
}

struct Result {
    vector<Snap> pop;
    vector<std::pair<string, double>> params;
    V out;
    uint64_t rng;
};
static string differ(const Result &a, const Result &b)
{
    if (a.pop.size() != b.pop.size()) return std::to_string(a.pop.size()) + " vs " + std::to_string(b.pop.size()) + " rules";
    string d;
    for (size_t i = 0; i < a.pop.size() && d.empty(); ++i) d = diff(a.pop[i], b.pop[i]);
    if (d.empty()) d = diff_params(a.params, b.params);
    if (d.empty())
        for (size_t i = 0; i < a.out.size(); ++i)
            if (!(a.out[i] == b.out[i]) && !(std::isnan(a.out[i]) && std::isnan(b.out[i]))) {
                char t[100];
                snprintf(t, sizeof(t), "result %zu %.17g vs %.17g", i, a.out[i], b.out[i]);
                return t;
            }
    if (d.empty() && a.rng != b.rng) d = "the random generator is at another position";
    return d;
}
static const int N_READ = 7;
static const char *RN[] = { "print population", "export population", "export parameters", "print parameters", "save", "size queries", "rule exports" };
static void read_only(XCSF *s, int k)
{
    switch (k) {
        case 0: xcsf_print_pset(s, true, true, true); break;
        case 1: free(clset_json_export(s, &s->pset, true, true, true)); break;
        case 2: free(param_json_export(s)); break;
        case 3: param_print(s); break;
        case 4: {
            const char *d = getenv("MC_WORK");
            const string f = string(d ? d : ".") + "/c20." + std::to_string(getpid());
            xcsf_save(s, f.c_str());
            unlink(f.c_str());
            break;
        }
        case 5:
            clset_mean_cond_size(s, &s->pset);
            clset_mean_pred_size(s, &s->pset);
            clset_total_fit(&s->pset);
            if (s->cond->type == COND_TYPE_NEURAL || s->cond->type == RULE_TYPE_NEURAL) {
                clset_mean_cond_layers(s, &s->pset);
                clset_mean_cond_neurons(s, &s->pset, 0);
                clset_mean_cond_connections(s, &s->pset, 0);
            }
            if (s->pred->type == PRED_TYPE_NEURAL) {
                clset_mean_pred_layers(s, &s->pset);
                clset_mean_pred_neurons(s, &s->pset, 0);
                clset_mean_pred_connections(s, &s->pset, 0);
                clset_mean_pred_eta(s, &s->pset, 0);
            }
            break;
        default:
            for (const Clist *i = s->pset.list; i; i = i->next) {
                cl_print(s, i->cl, true, true, true);
                free(cl_json_export(s, i->cl, true, true, true));
                cl_cond_size(s, i->cl);
                cl_pred_size(s, i->cl);
            }
    }
}
static const int N_OPS = 6;
static void op(XCSF *s, const Cfg &c, int k, V &out)
{
    V xs, ys;
    for (int i = 0; i < 4; ++i) {
        for (double v : sample(c, i)) xs.push_back(v);
        for (double v : target(c, i)) ys.push_back(v);
        for (int j = c.y; j < s->pa_size; ++j) ys.push_back(0.3);
    }
    Data d(c.x, c.y, xs, ys);
    V fb((size_t) s->pa_size, -7.5);
    switch (k) {
        case 0: out.push_back(xcs_supervised_fit(s, &d.in, nullptr, true, 0, 2)); break;
        case 1: out.push_back(xcs_supervised_fit(s, &d.in, nullptr, false, 1, 1)); break;
        case 2: {
            V o((size_t) s->pa_size, 0);
            xcs_supervised_predict(s, xs.data(), o.data(), 1, fb.data());
            out.insert(out.end(), o.begin(), o.end());
            break;
        }
        case 3: out.push_back(xcs_supervised_score_n(s, &d.in, 2, fb.data())); break;
        case 4:
            if (c.y == 1) out.push_back(xcs_rl_fit(s, xs.data(), c.a - 1, 0.5));
            break;
        case 5:
            if (c.y != 1) break;
            xcs_rl_init_trial(s);
            for (int i = 0; i < 2; ++i) {
                const double *st = &xs[(size_t) (i * c.x)];
                xcs_rl_init_step(s);
                param_set_explore(s, i == 0);
                const int a = xcs_rl_decision(s, st);
                out.push_back(a);
                xcs_rl_update(s, st, a, i, i == 1);
                out.push_back(xcs_rl_error(s, a, i, i == 1, 1));
                xcs_rl_end_step(s, st, a, i);
            }
            xcs_rl_end_trial(s);
    }
}
// the tree constants are of no use to other conditions; network descriptions are completed on first use
static vector<std::pair<string, double>> relevant(const XCSF *s)
{
    vector<std::pair<string, double>> r;
    for (auto &p : dump_params(s))
        if (p.first.find(" net ") == string::npos && (p.first != "constant" || s->cond->type == COND_TYPE_GP)) r.push_back(p);
    return r;
}
struct Variation {
    int f = 0; // fresh memory and stack
    int warm = 0; // trials before the operations
    int read = -1, at = 0; // read-only call interleaved after `at` operations
};
static Result run(const Cfg &c, int seed, const vector<int> &ops, const Variation &v)
{
    Result r;
    fill = v.f;
    scribble(v.f);
    XCSF *s = (XCSF *) malloc(sizeof(XCSF));
    configure(s, c);
    param_set_random_state(s, seed);
    xcsf_init(s);
    grow(s, c, v.warm, 2);
    for (size_t i = 0; i <= ops.size(); ++i) {
        if (v.read >= 0 && v.at == (int) i) read_only(s, v.read);
        scribble(v.f);
        if (i < ops.size()) op(s, c, ops[i], r.out);
    }
    for (int i = 0; i < 3; ++i) op(s, c, 2, r.out);
    r.pop = snap_pop(s);
    r.params = relevant(s);
    r.rng = mc::rng_save().s;
    fill = -1;
    destroy(s);
    return r;
}
static void used(const Cfg &c, int n)
{
    XCSF *s = make(c);
    V out;
    for (int i = 0; i < n; ++i) op(s, c, i % 2, out);
    destroy(s);
}
static void prelude(int k, const Cfg &c, const Cfg &other)
{
    now = 1000 + k * 77;
    mc::seed_stream(1 + (uint64_t) k);
    switch (k) {
        case 1: break;
        case 2: used(other, 2); break;
        case 3: used(c, 3); break;
        case 4: used(c, 1); used(other, 1); break;
    }
    mc::flush_normal();
}
static void body(const Cfg &c, const Cfg &other, int depth, bool thorough, int warm = 0)
{
    mc::honor_seed(true);
    vector<int> ops;
    for (int i = 0; i < depth; ++i) ops.push_back(mc::choose(N_OPS));
    const int seed = warm ? 41 : mc::choose(thorough ? 3 : 2) * 41;
    Variation v;
    v.warm = warm;
    prelude(0, c, other);
    const Result a = run(c, seed, ops, v);
    int k = 0;
    string what;
    const int kind = mc::choose(3);
    if (kind == 0) { // something ran earlier
        k = 1 + mc::choose(4);
        what = "something else ran before";
    } else if (kind == 1) { // memory contents
        static const int F[] = { 0xFF, 0x3F, 0x01 };
        v.f = F[mc::choose(3)];
        what = "fresh memory held other values";
    } else {
        v.read = mc::choose(N_READ);
        v.at = mc::choose(depth + 1);
        what = string("a read-only call was interleaved: ") + RN[v.read];
    }
    for (int o : ops) mc::log("op %d", o);
    mc::log("seed %d, %s", seed, what.c_str());
    prelude(k, c, other);
    const Result b = run(c, seed, ops, v);
    const string d = differ(a, b);
    mc::step();
    if (!d.empty()) mc::fail(kind == 0 ? "history" : kind == 1 ? "memory" : "read-only", "two runs with the same seed and calls differ when %s: %s", what.c_str(), d.c_str());
    mc::validated();
    mc::Hash h;
    h.v(a.out);
    mc::outcome(h.h);
    for (const Snap &p : a.pop) {
        mc::Hash g;
        g.v(p.stats);
        g.v(p.cond);
        g.v(p.pred);
        mc::state(g.h);
    }
}
// the whole experiment of the command-line program
static void experiment(int bits, int trials, bool thorough)
{
    mc::honor_seed(true);
    const int seed = mc::choose(thorough ? 4 : 2), k = mc::choose(3), f = mc::picki({ 0, 0xFF });
    auto go = [&](int fl) {
        Result r;
        fill = fl;
        scribble(fl);
        XCSF *s = (XCSF *) malloc(sizeof(XCSF));
        char b0[] = "xcsf", b1[] = "mp", b2[8];
        snprintf(b2, sizeof(b2), "%d", bits);
        char *argv[] = { b0, b1, b2, nullptr };
        env_init(s, argv);
        param_set_omp_num_threads(s, 1);
        param_set_random_state(s, seed);
        param_set_pop_size(s, 30);
        param_set_max_trials(s, trials);
        param_set_perf_trials(s, trials);
        cond_param_set_type(s, COND_TYPE_TERNARY);
        pred_param_set_type(s, PRED_TYPE_CONSTANT);
        xcsf_init(s);
        r.out.push_back(xcs_rl_exp(s));
        r.pop = snap_pop(s);
        r.params = relevant(s);
        r.rng = mc::rng_save().s;
        fill = -1;
        xcsf_free(s);
        env_free(s);
        param_free(s);
        free(s);
        return r;
    };
    Cfg c;
    prelude(0, c, c);
    const Result a = go(0);
    prelude(k, c, c);
    const Result b = go(f);
    const string d = differ(a, b);
    mc::step();
    if (!d.empty()) mc::fail("experiment", "two experiments with the same seed differ: %s", d.c_str());
    mc::validated();
    mc::Hash h;
    h.v(a.out);
    mc::outcome(h.h);
}
// an odd number of normal deviates drawn before seeding
static void cached(int before)
{
    mc::honor_seed(true);
    Cfg c;
    c.pop = 3;
    c.pop_init = true;
    c.x = 2;
    const vector<int> ops = { 0, 0 };
    Variation v;
    now = 1;
    mc::seed_stream(5);
    mc::flush_normal();
    const Result a = run(c, 9, ops, v);
    mc::seed_stream(5);
    mc::flush_normal();
    for (int i = 0; i < before; ++i) rand_normal(0, 1);
    const Result b = run(c, 9, ops, v);
    const string d = differ(a, b);
    mc::flush_normal();
    mc::step();
    if (!d.empty()) mc::fail("cached-normal", "drawing %d normal deviate(s) before setting the seed changes the seeded run: %s", before, d.c_str());
}

void mc::scenarios()
{
    const bool T = thorough();
    static const int once = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    (void) once;
    auto cat = catalog(true);
    for (size_t i = 0; i < cat.size(); ++i) {
        auto &e = cat[i];
        Cfg c = e.c, other = cat[(i + 17) % cat.size()].c;
        c.subs = i % 2;
        c.setsubs = i % 3 == 0;
        c.pop_init = i % 2 == 0;
        if (i % 4 == 3) c.select = EA_SELECT_TOURNAMENT;
        Opt o;
        o.seed = 201;
        add("run-" + e.name, o, [=] { body(c, other, T ? 3 : 2, T); });
    }
    for (int bits : { 3, 6 }) {
        Opt o;
        add("experiment-mp" + std::to_string(bits), o, [=] { experiment(bits, T ? 300 : 60, T); });
    }
    for (int n : { 1, 2, 3 }) add("normals-before-seed-" + std::to_string(n), Opt(), [=] { cached(n); });
    for (auto &e : wide(true)) {
        const Cfg c = e.c, other = cat[cat.size() / 2].c;
        Opt o;
        o.seed = 203;
        add("run-" + e.name, o, [=] { body(c, other, 1, T, T ? 300 : 40); });
    }
}
