// C04: predictions are fitness-weighted means; action choice follows them.
#include "ref.hpp"
#include <set>
using namespace xc;

// a population of rules that match everything
static Cl *add_rule(XCSF *s, int action, double fit, const V &pred)
{
    Cl *c = (Cl *) malloc(sizeof(Cl));
    cl_init(s, c, 1, 0);
    cl_rand(s, c);
    c->fit = fit;
    ((ActInteger *) c->act)->action = action;
    c->action = action;
    for (int i = 0; i < s->y_dim; ++i) c->prediction[i] = pred[(size_t) i];
    clset_add(&s->pset, c);
    return c;
}
struct Want {
    V pa;
    std::set<int> acts, best;
};
static Want want(const XCSF *s, const vector<Cl *> &m, const vector<V> &p)
{
    Want w;
    w.pa.assign((size_t) (s->n_actions * s->y_dim), 0);
    for (int a = 0; a < s->n_actions; ++a)
        for (int j = 0; j < s->y_dim; ++j) {
            double f = 0, v = 0;
            for (size_t i = 0; i < m.size(); ++i)
                if (m[i]->action == a) {
                    w.acts.insert(a);
                    f += m[i]->fit;
                    v += m[i]->fit * p[i][(size_t) j];
                }
            w.pa[(size_t) (a * s->y_dim + j)] = f > 0 ? v / f : 0;
        }
    return w;
}
static void compare(const XCSF *s, const Want &w)
{
    for (size_t i = 0; i < w.pa.size(); ++i)
        if (!near(s->pa[i], w.pa[i], 1e-9, 1e-11))
            mc::fail("mean", "predicted payoff of action %zu output %zu is %.12g, the fitness-weighted mean is %.12g", i / s->y_dim, i % s->y_dim, s->pa[i], w.pa[i]);
    mc::step();
}
static std::set<int> best_of(const XCSF *s, const double *pa)
{
    std::set<int> b;
    double m = pa[0];
    for (int a = 1; a < s->n_actions; ++a) m = fmax(m, pa[a]);
    for (int a = 0; a < s->n_actions; ++a)
        if (pa[a] == m) b.insert(a);
    return b;
}
static string sstr(const std::set<int> &s)
{
    string r;
    for (int i : s) r += (r.empty() ? "{" : ",") + std::to_string(i);
    return r + "}";
}
// all answers of a choice over a grid of two random draws
static const int G = 12;
static std::map<int, int> answers(const std::function<int()> &f)
{
    std::map<int, int> r;
    for (int i = 0; i < G; ++i)
        for (int j = 0; j < G; ++j) {
            mc::script({ (i + 0.5) / G, (j + 0.5) / G });
            ++r[f()];
        }
    mc::script({});
    return r;
}

static void sets(const Cfg &c, int maxrules, const V &fits, const V &preds)
{
    XCSF *s = make(c);
    const int n = 1 + mc::choose(maxrules);
    for (int i = 0; i < n; ++i) {
        V p;
        const int a = mc::choose(c.a);
        const double f = mc::pick(fits);
        for (int j = 0; j < c.y; ++j) p.push_back(mc::pick(preds));
        add_rule(s, a, f, p);
    }
    clset_init(&s->mset);
    clset_init(&s->kset);
    V x = { 0.5 };
    // leftovers of an earlier state must not matter
    for (int i = 0; i < s->pa_size; ++i) s->pa[i] = s->nr[i] = 777;
    clset_match(s, x.data(), false);
    pa_build(s, x.data());
    vector<Cl *> m = rules(s->mset);
    vector<V> p;
    for (Cl *r : m) p.push_back(V(r->prediction, r->prediction + c.y));
    const Want w = want(s, m, p);
    compare(s, w);
    if (c.y == 1) {
        const std::set<int> best = best_of(s, s->pa);
        double mx = s->pa[*best.begin()];
        if (pa_best_val(s) != mx) mc::fail("bestval", "best payoff reported %g, is %g", pa_best_val(s), mx);
        for (int a = 0; a < c.a; ++a)
            if (pa_val(s, a) != s->pa[a]) mc::fail("val", "payoff of action %d reported %g, is %g", a, pa_val(s, a), s->pa[a]);
        std::set<int> got;
        for (auto &e : answers([&] { return pa_best_action(s); })) got.insert(e.first);
        if (got != best) mc::fail("best", "payoffs %s: exploitation can choose %s, the best actions are %s", str(V(s->pa, s->pa + c.a)).c_str(), sstr(got).c_str(), sstr(best).c_str());
        got.clear();
        for (auto &e : answers([&] { return pa_rand_action(s); })) got.insert(e.first);
        if (got != w.acts) mc::fail("rand", "exploration can choose %s, represented actions are %s", sstr(got).c_str(), sstr(w.acts).c_str());
        mc::Hash h;
        h.v(w.pa);
        mc::outcome(h.h);
    }
    mc::state(hash_pop(s));
    mc::validated();
    clset_free(&s->mset);
    destroy(s);
}
// many rules, many actions, many outputs
static void crowd(const Cfg &c)
{
    XCSF *s = make(c);
    const int n = mc::picki({ 7, 20, 64 }), k = mc::choose(4);
    const bool zero = mc::flip();
    for (int i = 0; i < n; ++i) {
        V p;
        for (int j = 0; j < c.y; ++j) p.push_back(((i * 5 + j * 3 + k) % 7) - 3.0);
        const int a = (i * (k + 1)) % c.a;
        add_rule(s, a, zero && a == 1 ? 0 : 0.01 + ((i * 3 + k) % 5) * 0.2, p);
    }
    clset_init(&s->mset);
    clset_init(&s->kset);
    V x = { 0.5 };
    for (int i = 0; i < s->pa_size; ++i) s->pa[i] = s->nr[i] = -777;
    clset_match(s, x.data(), false);
    pa_build(s, x.data());
    vector<Cl *> m = rules(s->mset);
    vector<V> p;
    for (Cl *r : m) p.push_back(V(r->prediction, r->prediction + c.y));
    const Want w = want(s, m, p);
    compare(s, w);
    if (c.y == 1) {
        const std::set<int> best = best_of(s, s->pa);
        if (pa_best_val(s) != s->pa[*best.begin()]) mc::fail("bestval", "best payoff reported %g, is %g", pa_best_val(s), s->pa[*best.begin()]);
        std::set<int> got;
        for (auto &e : answers([&] { return pa_best_action(s); })) got.insert(e.first);
        if (got != best) mc::fail("best", "payoffs %s: exploitation can choose %s, the best actions are %s", str(V(s->pa, s->pa + c.a)).c_str(), sstr(got).c_str(), sstr(best).c_str());
        got.clear();
        for (auto &e : answers([&] { return pa_rand_action(s); })) got.insert(e.first);
        if (got != w.acts) mc::fail("rand", "exploration can choose %s, represented actions are %s", sstr(got).c_str(), sstr(w.acts).c_str());
    }
    mc::state(hash_pop(s));
    mc::Hash h;
    h.v(w.pa);
    mc::outcome(h.h);
    mc::validated();
    clset_free(&s->mset);
    destroy(s);
}
// the whole decision: match, predict, explore or exploit
static void decision(const Cfg &c, const V &preds)
{
    XCSF *s = make(c);
    for (int a = 0; a < c.a; ++a) add_rule(s, a, 0.5, { mc::pick(preds) });
    const double p = mc::pick({ 0, 0.25, 0.5, 0.75, 1 });
    const bool explore = mc::flip();
    param_set_p_explore(s, p);
    param_set_explore(s, explore);
    V x = { 0.5 };
    std::set<int> best;
    auto r = answers([&] {
        clset_init(&s->mset);
        clset_init(&s->aset);
        clset_init(&s->kset);
        const int a = xcs_rl_decision(s, x.data());
        best = best_of(s, s->pa);
        clset_free(&s->mset);
        clset_kill(s, &s->kset);
        return a;
    });
    int non = 0, tot = 0;
    for (auto &e : r) {
        tot += e.second;
        if (!best.count(e.first)) non += e.second;
    }
    const double eff = explore ? p : 0;
    const double expect = eff * (c.a - (double) best.size()) / c.a;
    if (fabs((double) non / tot - expect) > 0.02) mc::fail("explore", "exploration probability %g, exploring %d: a non-best action is chosen with frequency %g, expected %g", p, explore, (double) non / tot, expect);
    if (eff > 0)
        for (int a = 0; a < c.a; ++a)
            if (!r.count(a)) mc::fail("reach", "exploring with probability %g never chooses action %d", eff, a);
    for (int b : best)
        if (eff < 1 && !r.count(b)) mc::fail("tie", "best action %d is never chosen", b);
    mc::state(hash_pop(s));
    mc::outcome((uint64_t) non);
    mc::validated();
    destroy(s);
}
// systems as they come out of learning, every component type
static void learned(const Cfg &c, int depth, int warm = 0)
{
    XCSF *s = make(c);
    if (warm) grow(s, c, warm, mc::choose(4));
    const vector<V> xs = { { 0.1, 0.7 }, { 0.8, 0.2 }, { 0.45, 0.5 } };
    auto in = [&](int i) { if (c.x > 2) return sample(c, i); return V(xs[(size_t) i].begin(), xs[(size_t) i].begin() + c.x); };
    for (int d = 0; d < depth; ++d) {
        const int i = mc::choose(2);
        mc::branch(d + 1 == depth);
        fit1(s, in(i), V((size_t) c.y, i ? 1.0 : -0.5));
        mc::branch(false);
    }
    for (int i = 0; i < (warm ? 14 : 3); ++i) {
        const V x = in(i);
        vector<Cl *> m;
        vector<V> p;
        bool sure = true;
        for (Cl *r : rules(s->pset)) {
            double mg, amg;
            const bool acc = ref::accepts(s, r, x, &mg);
            const int a = ref::action(s, r, x, &amg);
            if (mg < 1e-9 || amg < 1e-9) sure = false;
            if (acc) {
                p.push_back(ref::predict(s, r, x));
                r->action = a;
                m.push_back(r);
            }
        }
        const Want w = want(s, m, p);
        V out((size_t) s->pa_size), cover((size_t) s->pa_size, 7.5);
        xcs_supervised_predict(s, x.data(), out.data(), 1, cover.data());
        if (!sure) continue;
        if (m.empty()) {
            for (double v : out)
                if (v != 7.5) mc::fail("fallback", "no rule matches %s but the prediction is %g, not the fallback", str(x).c_str(), v);
        } else {
            for (size_t k = 0; k < out.size(); ++k)
                if (!near(out[k], w.pa[k], 1e-7, 1e-9)) mc::fail("system", "prediction %zu for %s is %.12g, the fitness-weighted mean is %.12g", k, str(x).c_str(), out[k], w.pa[k]);
        }
        mc::step();
        mc::Hash h;
        h.v(w.pa);
        mc::outcome(h.h);
    }
    mc::state(hash_pop(s));
    mc::validated();
    destroy(s);
}

void mc::scenarios()
{
    const bool T = thorough();
    for (int a : { 1, 2, 3, 4 })
        for (int y : { 1, 2 }) {
            Cfg c;
            c.cond = COND_TYPE_DUMMY;
            c.pred = PRED_TYPE_CONSTANT;
            c.a = a;
            c.y = y;
            c.pop = 20;
            Opt o;
            const int n = T ? 4 : y == 1 && a < 2 ? 4 : a == 4 || y == 2 ? 2 : 3;
            add("sets-" + c.name(), o, [=] { sets(c, n, { 0, 0.25, 1 }, a < 3 && y == 1 ? V{ 0, 1, -3 } : V{ 1, -3 }); });
            // rules of next to no fitness count like any other
            add("faint-" + c.name(), o, [=] { sets(c, n - 1, { 1e-7, 1e-12, 1e-100 }, { 1, -3 }); });
            if (y == 1 && a > 1) add("decision-" + c.name(), o, [=] { decision(c, { 0, 1, -2 }); });
        }
    for (int cond : ALL_CONDS)
        for (int pred : ALL_PREDS)
            for (int a : { 1, 2 })
                for (int act : { ACT_TYPE_INTEGER, ACT_TYPE_NEURAL }) {
                    if (act == ACT_TYPE_NEURAL && (a == 1 || pred != PRED_TYPE_NLMS_LINEAR)) continue;
                    Cfg c;
                    c.cond = cond;
                    c.pred = pred;
                    c.act = act;
                    c.a = a;
                    c.x = 2;
                    c.y = a == 1 ? 2 : 1;
                    c.pop = 5;
                    Opt o;
                    o.seed = 31;
                    o.bound = T ? 2 : 1;
                    o.cap = T ? 100000 : 12000;
                    o.leak = true;
                    add("learned-" + c.name(), o, [=] { learned(c, T ? 5 : 4); });
                }
    for (int a : { 1, 2, 3, 5, 6, 7, 8, 10 })
        for (int y : { 1, 3, 5 }) {
            Cfg c;
            c.cond = COND_TYPE_DUMMY;
            c.pred = PRED_TYPE_CONSTANT;
            c.a = a;
            c.y = y;
            c.pop = 100;
            add("crowd-" + c.name(), Opt(), [=] { crowd(c); });
            if (y == 1 && a == 6) add("decision-" + c.name(), Opt(), [=] { decision(c, { 0, 1 }); });
        }
    for (auto &e : wide(false)) {
        const Cfg c = e.c;
        Opt o;
        o.seed = 37;
        o.leak = true;
        for (int n : T ? vector<int>{ 30, 200, 1000 } : vector<int>{ 60 }) add("long" + std::to_string(n) + "-" + e.name, o, [=] { learned(c, 1, n); });
    }
}
