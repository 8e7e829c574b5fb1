// C06: saving then loading a system is lossless.
#include "ref.hpp"
#include <unistd.h>
using namespace xc;

static string path()
{
    const char *d = getenv("MC_WORK");
    return string(d ? d : ".") + "/c06." + std::to_string(getpid());
}
static void trial(XCSF *s, const Cfg &c, int op)
{
    if (op == 2) {
        V x = sample(c, 3), o((size_t) s->pa_size), fb((size_t) s->pa_size, 0.5);
        xcs_supervised_predict(s, x.data(), o.data(), 1, fb.data());
    } else if (op == 3 && c.y == 1) {
        V x = sample(c, 2);
        xcs_rl_fit(s, x.data(), c.a - 1, 0.5);
    } else {
        fit1(s, sample(c, op), target(c, op));
    }
}
static string same(const XCSF *a, const XCSF *b)
{
    string d = diff_params(dump_params(a), dump_params(b));
    if (!d.empty()) return "parameter " + d;
    if (a->pset.size != b->pset.size || a->pset.num != b->pset.num) return "reported sizes differ";
    vector<Cl *> ra = rules(a->pset), rb = rules(b->pset);
    if (ra.size() != rb.size()) return "number of rules differs";
    for (size_t i = 0; i < ra.size(); ++i) {
        Snap x = snap(a, ra[i]), y = snap(b, rb[i]);
        d = diff(x, y);
        if (d.empty() && !bits_eq(x.prediction, y.prediction)) d = "last prediction";
        if (d.empty() && x.action != y.action) d = "last action";
        if (d.empty() && ra[i]->m != rb[i]->m) d = "last match";
        if (!d.empty()) return "rule " + std::to_string(i) + ": " + d;
    }
    if (a->loss_ptr != b->loss_ptr) return "loss function";
    return "";
}
static XCSF *receiver(int k, const Cfg &c, const Cfg &other)
{
    if (k == 0) { // untouched defaults
        XCSF *s = (XCSF *) malloc(sizeof(XCSF));
        memset(s, 0xAB, sizeof(XCSF));
        s->E0 = 0;
        param_init(s, 1, 1, 1);
        param_set_pop_init(s, false);
        xcsf_init(s);
        return s;
    }
    if (k == 1) return make(c);
    XCSF *s = make(k == 2 ? other : c); // already used
    for (int i = 0; i < 3; ++i) trial(s, k == 2 ? other : c, i % 2);
    return s;
}
static void body(const Cfg &c, const Cfg &other, int depth, bool branching, int after, int warm = 0)
{
    XCSF *s = make(c);
    if (warm) grow(s, c, warm, mc::choose(2) * 2);
    if (c.m_prob == 9999) param_set_population_file(s, "some/where.json");
    for (int i = 0; i < depth; ++i) {
        const int op = mc::choose(branching ? 2 : 4);
        mc::branch(branching && i + 1 == depth);
        trial(s, c, op);
        mc::branch(false);
    }
    const string f = path();
    const auto pb = dump_params(s);
    const vector<Snap> sb = snap_pop(s);
    const size_t w = xcsf_save(s, f.c_str());
    if (!diff_params(pb, dump_params(s)).empty()) mc::fail("save-params", "saving changed a parameter: %s", diff_params(pb, dump_params(s)).c_str());
    if (sb != snap_pop(s)) mc::fail("save-pop", "saving changed the population");
    XCSF *t = receiver(branching ? 2 : mc::choose(4), c, other);
    const size_t r = xcsf_load(t, f.c_str());
    mc::step();
    if (w != r) mc::fail("count", "%zu items written, %zu read", w, r);
    string d = same(s, t);
    if (!d.empty()) mc::fail("lossy", "after loading: %s", d.c_str());
    for (Cl *r : rules(t->pset))
        for (Cl *q : rules(s->pset))
            if (r == q) mc::fail("shared", "a loaded rule is shared with the original system");
    mc::state(hash_pop(s));
    // the same continuation on both
    vector<int> ops;
    for (int i = 0; i < after; ++i) ops.push_back(i == 0 ? (branching ? 0 : mc::choose(3)) : (ops[0] + i) % 2);
    mc::RngState rs = mc::rng_save();
    for (XCSF *u : { s, t }) {
        mc::rng_restore(rs);
        mc::flush_normal();
        V fb((size_t) u->pa_size, -7.5);
        for (int op : ops) trial(u, c, op);
    }
    d = same(s, t);
    if (!d.empty()) mc::fail("diverges", "after the same further trials: %s", d.c_str());
    for (int i = 0; i < 5; ++i) {
        V x = sample(c, i), o1((size_t) s->pa_size, 9), o2 = o1, fb((size_t) s->pa_size, -7.5);
        xcs_supervised_predict(s, x.data(), o1.data(), 1, fb.data());
        xcs_supervised_predict(t, x.data(), o2.data(), 1, fb.data());
        if (!bits_eq(o1, o2)) mc::fail("predict", "%s: original predicts %s, loaded %s", str(x).c_str(), str(o1).c_str(), str(o2).c_str());
        mc::Hash h;
        h.v(o1);
        mc::outcome(h.h);
    }
    { // several rows at once
        const size_t n = (size_t) s->pa_size;
        V x, o1(3 * n, 9), o2(3 * n + 64, 9), fb(n + 64, -7.5);
        for (int i = 0; i < 3; ++i)
            for (double v : sample(c, i)) x.push_back(v);
        xcs_supervised_predict(s, x.data(), o1.data(), 3, fb.data());
        xcs_supervised_predict(t, x.data(), o2.data(), 3, fb.data());
        for (size_t k = 3 * n; k < o2.size(); ++k)
            if (o2[k] != 9) mc::fail("predict-rows", "the loaded system writes predictions of another size");
        o2.resize(3 * n);
        if (!bits_eq(o1, o2)) mc::fail("predict-rows", "original predicts %s, loaded %s", str(o1).c_str(), str(o2).c_str());
    }
    d = same(s, t);
    if (!d.empty()) mc::fail("diverges-p", "after predicting: %s", d.c_str());
    unlink(f.c_str());
    mc::validated();
    destroy(s);
    destroy(t);
}

void mc::scenarios()
{
    const bool T = thorough();
    auto cat = catalog(true);
    for (size_t i = 0; i < cat.size(); ++i) {
        auto &e = cat[i];
        Cfg c = e.c, other = cat[(i + 13) % cat.size()].c;
        c.subs = true;
        if (i % 2) { // more actions, outputs and inputs than the system that is loaded
            other = Cfg();
            other.a = c.a + 2;
            other.y = c.y + 2;
            other.x = c.x + 3;
            other.pop = 20;
        }
        if (i % 3 == 0) {
            c.setsubs = c.compaction = true;
            c.select = EA_SELECT_TOURNAMENT;
            c.loss = i % 2 ? LOSS_HUBER : LOSS_RMSE;
        }
        if (i % 4 == 1) c.m_prob = 9999;
        c.tweak = [=](XCSF *s) {
            param_set_teletransportation(s, 17);
            param_set_gamma(s, 0.71);
            param_set_alpha(s, 0.3);
            param_set_nu(s, 4);
            param_set_delta(s, 0.2);
            param_set_p_explore(s, 0.25);
            param_set_huber_delta(s, 0.7);
            param_set_random_state(s, 99);
            param_set_max_trials(s, 1234);
            ea_param_set_select_size(s, 0.6);
            ea_param_set_err_reduc(s, 0.9);
            ea_param_set_fit_reduc(s, 0.2);
            cond_param_set_eta(s, 0.05);
            cond_param_set_min(s, -0.5);
            cond_param_set_max(s, 1.5);
            cond_param_set_spread_min(s, 0.15);
            cond_param_set_p_dontcare(s, 0.4);
            pred_param_set_evolve_eta(s, true);
            pred_param_set_eta_min(s, 0.001);
            pred_param_set_lambda(s, 0.99);
            pred_param_set_scale_factor(s, 50);
            pred_param_set_x0(s, 0.8);
        };
        Opt o;
        o.seed = 61;
        o.leak = true;
        add("hist-" + e.name, o, [=] { body(c, other, T ? 4 : 2, false, 2); });
        Opt r = o;
        r.bound = T ? 2 : 1;
        r.cap = T ? 30000 : 3000;
        add("rng-" + e.name, r, [=] { body(c, other, 3, true, 1); });
        // every small population, from none at all
        if (i % 2 == 0 || T)
            add("sizes-" + e.name, o, [=] {
                Cfg k = c;
                k.pop_init = true;
                const int n = mc::choose(7);
                k.pop = n < 2 ? c.a : c.a + n - 2;
                if (n == 0) k.pop_init = false;
                mc::log("population %d ", n ? k.pop : 0);
                body(k, other, n % 3 == 2 ? 1 : 0, false, 2);
            });
    }
    // larger systems after longer histories
    for (auto &e : wide(true)) {
        const Cfg c = e.c, other = cat[cat.size() / 3].c;
        Opt o;
        o.seed = 67;
        o.leak = true;
        for (int n : T ? vector<int>{ 40, 200, 1000 } : vector<int>{ 60 })
            add("long" + std::to_string(n) + "-" + e.name, o, [=] { body(c, other, 1, false, 12, n); });
    }
}
