// C11: evolution triggers, creates and subsumes offspring by the rules.
#include "ref.hpp"
using namespace xc;

struct R {
    int num, exp, time;
    double err, fit, size;
};
static Cl *put(XCSF *s, const R &r)
{
    Cl *c = (Cl *) malloc(sizeof(Cl));
    cl_init(s, c, r.size, r.time);
    cl_rand(s, c);
    c->num = r.num;
    c->exp = r.exp;
    c->err = r.err;
    c->fit = r.fit;
    clset_add(&s->pset, c);
    return c;
}
static int index(const vector<Cl *> &v, const Cl *c)
{
    for (size_t i = 0; i < v.size(); ++i)
        if (v[i] == c) return (int) i;
    return -1;
}
static Cfg base(int cond = COND_TYPE_DUMMY, int pred = PRED_TYPE_CONSTANT)
{
    Cfg c;
    c.cond = cond;
    c.pred = pred;
    c.pop = 1000;
    c.theta_sub = 20;
    c.e0 = 0.1;
    return c;
}
static void check_counts(const XCSF *s)
{
    int n = 0, num = 0;
    for (Cl *r : rules(s->pset)) {
        ++n;
        num += r->num;
    }
    if (n != s->pset.size || num != s->pset.num) mc::fail("counts", "population of %d rules, numerosity %d, reported %d and %d", n, num, s->pset.size, s->pset.num);
}
// ---- when it runs, and what it stamps ----
static void trigger(bool crowd)
{
    Cfg c = base();
    XCSF *s = make(c);
    s->time = 100;
    const int theta = mc::picki({ 0, 1, 10, 11 });
    ea_param_set_theta(s, theta);
    const int lambda = 2 + mc::choose(crowd ? 3 : 4) * (crowd ? 7 : 1);
    ea_param_set_lambda(s, lambda);
    const int n = crowd ? mc::picki({ 9, 30, 70 }) : mc::choose(4); // size of the set
    const int how = crowd ? mc::choose(6) : 0;
    vector<Cl *> all;
    vector<R> rs;
    Set set;
    clset_init(&set);
    double tsum = 0;
    int nsum = 0;
    for (int i = 0; i < n; ++i) {
        R r { 1, 0, 0, 0.3, 0.2, 2 };
        r.num = crowd ? 1 + (i * 5 + how) % 4 : 1 + mc::choose(2) * 2;
        if (crowd) r.time = 100 - (i * 3 + how * 4) % (how % 2 ? 22 : 19);
        else r.time = mc::picki({ 100, 91, 90, 89, 100 + (n > 2 ? -19 : -20) });
        rs.push_back(r);
        all.push_back(put(s, r));
        clset_add(&set, all.back());
        tsum += r.time * r.num;
        nsum += r.num;
    }
    rs.push_back({ 2, 0, 3, 0.3, 0.2, 2 }); // outside the set
    all.push_back(put(s, rs.back()));
    const bool runs = n > 0 && 101 - tsum / nsum >= theta;
    ea(s, &set);
    mc::step();
    if (s->time != 101) mc::fail("clock", "the clock went from 100 to %d", s->time);
    int gain = 0;
    if (rules(s->pset).size() != all.size()) mc::fail("rules", "unchanged offspring became rules");
    for (size_t i = 0; i < all.size(); ++i) {
        const bool member = i + 1 < all.size();
        const int want = member && runs ? 101 : rs[i].time;
        if (all[i]->time != want) mc::fail("stamp", "%s, threshold %d, mean time %.6g at time 101: a rule last stamped %d has the stamp %d", member ? "in the set" : "outside the set", theta, n ? tsum / nsum : 0, rs[i].time, all[i]->time);
        const int g = all[i]->num - rs[i].num;
        if (g < 0 || (g && !member)) mc::fail("numerosity", "a rule %s went from numerosity %d to %d", member ? "in the set" : "outside the set", rs[i].num, all[i]->num);
        gain += g;
        if (all[i]->err != rs[i].err || all[i]->fit != rs[i].fit || all[i]->exp != rs[i].exp || all[i]->size != rs[i].size) mc::fail("touched", "evolution changed the statistics of a parent");
    }
    const int offspring = runs ? (lambda + 1) / 2 * 2 : 0; // created in pairs
    if (gain != offspring) mc::fail("trigger", "threshold %d, mean time %.6g at time 101, %d offspring per run: %d offspring", theta, n ? tsum / nsum : 0, lambda, gain);
    check_counts(s);
    mc::outcome((uint64_t) gain * 31 + (uint64_t) n);
    mc::validated();
    clset_free(&set);
    destroy(s);
}
// ---- who becomes a parent ----
static void select(int type, int grid, bool crowd = false)
{
    Cfg c = base();
    c.select = type;
    XCSF *s = make(c);
    ea_param_set_theta(s, 0);
    ea_param_set_lambda(s, 2);
    ea_param_set_select_size(s, 0.4);
    const int n = crowd ? mc::picki({ 7, 20, 45 }) : 1 + mc::choose(3);
    const int how = crowd ? mc::choose(3) : 0;
    vector<R> rs;
    double sum = 0;
    for (int i = 0; i < n; ++i) {
        R r { crowd ? 1 + i % 6 : 1 + i, 0, 0, 0.3, (crowd ? 0.05 + ((i * 5 + how) % 9) * 0.1 : mc::pick({ 0.1, 0.25, 0.7, 0 })) + i * 1e-3, 2 };
        if (r.fit < 0.01 && i == 0) r.fit = 0;
        rs.push_back(r);
        sum += r.fit;
    }
    if (sum == 0) {
        destroy(s);
        return;
    }
    vector<double> hit((size_t) n, 0), want((size_t) n, 0);
    auto once = [&](const vector<double> &draws) {
        vector<Cl *> all;
        Set set;
        clset_init(&set);
        for (const R &r : rs) {
            all.push_back(put(s, r));
            clset_add(&set, all.back());
        }
        Cl *out = put(s, { 1, 0, 0, 0.3, 50, 2 }); // a fit rule outside the set
        s->time = 10;
        mc::script(draws);
        ea(s, &set);
        mc::script({});
        mc::step();
        if (out->num != 1) mc::fail("outside", "a parent came from outside the set");
        int g = 0;
        for (int i = 0; i < n; ++i) {
            hit[(size_t) i] += all[(size_t) i]->num - rs[(size_t) i].num;
            g += all[(size_t) i]->num - rs[(size_t) i].num;
        }
        if (g != 2) mc::fail("two", "%d unchanged offspring instead of two", g);
        clset_free(&set);
        clset_kill(s, &s->pset);
    };
    double tol;
    if (type == EA_SELECT_ROULETTE) {
        for (int a = 0; a < grid; ++a)
            for (int b = 0; b < grid; ++b) once({ (a + 0.5) / grid, (b + 0.5) / grid });
        for (int i = 0; i < n; ++i) want[(size_t) i] = 2.0 * grid * grid * rs[(size_t) i].fit / sum;
        tol = 2.01 * grid;
    } else {
        // every combination of who enters the two tournaments (everyone enters a repeated one)
        const int bits = 2 * n;
        for (int m = 0; m < 1 << bits; ++m) {
            vector<double> d;
            for (int i = 0; i < bits; ++i) d.push_back(m >> i & 1 ? 0.3999 : 0.4001);
            for (int i = 0; i < 2 * n; ++i) d.push_back(0.1);
            once(d);
            // the same draws, by definition
            size_t p = 0;
            for (int t = 0; t < 2; ++t) {
                int w = -1;
                while (w < 0)
                    for (int i = n; i-- > 0; ++p)
                        if (d[p] < 0.4 && (w < 0 || rs[(size_t) i].fit > rs[(size_t) w].fit)) w = i;
                want[(size_t) w] += 1;
            }
        }
        tol = 1e-6;
        if (n > 1) { // equal fitness cannot occur: fitnesses differ by construction
        }
    }
    for (int i = 0; i < n; ++i)
        if (fabs(hit[(size_t) i] - want[(size_t) i]) > tol)
            mc::fail("selection", "rule %d of fitness %.6g (total %.6g) became a parent %g times, expected %.4g", i, rs[(size_t) i].fit, sum, hit[(size_t) i], want[(size_t) i]);
    mc::Hash h;
    h.v(hit);
    mc::outcome(h.h);
    mc::validated();
    destroy(s);
}
// ---- what offspring look like, and what becomes of them ----
struct Child {
    V cond, act, pred, whole;
    double err, fit;
    int own, other; // parents
};
struct World {
    XCSF *s;
    vector<Cl *> all;
    vector<R> rs;
    Set set;
    int n; // members of the set
};
static void shape(const XCSF *s, Cl *c, int k)
{
    static const double lo[] = { -0.5, 0.1, 0.3, 0.0 }, hi[] = { 1.5, 0.9, 0.5, 0.6 };
    switch (s->cond->type) {
        case COND_TYPE_HYPERRECTANGLE_CSR:
            for (int i = 0; i < s->x_dim; ++i) {
                ((CondRectangle *) c->cond)->b1[i] = (lo[k] + hi[k]) / 2;
                ((CondRectangle *) c->cond)->b2[i] = (hi[k] - lo[k]) / 2;
            }
            break;
        case COND_TYPE_HYPERRECTANGLE_UBR:
            for (int i = 0; i < s->x_dim; ++i) {
                ((CondRectangle *) c->cond)->b1[i] = lo[k];
                ((CondRectangle *) c->cond)->b2[i] = hi[k];
            }
            break;
        case COND_TYPE_HYPERELLIPSOID:
            for (int i = 0; i < s->x_dim; ++i) {
                ((CondEllipsoid *) c->cond)->center[i] = (lo[k] + hi[k]) / 2;
                ((CondEllipsoid *) c->cond)->spread[i] = (hi[k] - lo[k]) / 2;
            }
            break;
        case COND_TYPE_TERNARY: {
            static const char *t[] = { "####", "#1#0", "01#0", "1###" };
            CondTernary *r = (CondTernary *) c->cond;
            for (int i = 0; i < r->length; ++i) r->string[i] = t[k][i % 4];
            break;
        }
    }
}
static World world(const Cfg &c, const vector<int> &kinds, const vector<int> &shapes, uint64_t stream)
{
    World w;
    mc::seed_stream(stream + 1);
    mc::flush_normal();
    w.s = make(c);
    XCSF *s = w.s;
    s->time = 10;
    clset_init(&w.set);
    w.n = (int) kinds.size();
    for (size_t i = 0; i < kinds.size(); ++i) {
        // kinds: 0 novice, 1 experienced and accurate, 2 experienced and inaccurate, 3 accurate at the experience threshold
        R r { 1 + (int) i, 0, 3 + (int) i, 0, 0.11 + 0.2 * (double) i, 2.5 + (double) i };
        r.exp = kinds[i] == 0 ? 3 : kinds[i] == 3 ? 20 : 21;
        r.err = (kinds[i] == 2 ? 0.5 : 0.02) + 0.003 * (double) (1 << i);
        if (kinds[i] == 2 && i == 0) r.err = s->E0; // exactly the target is not below it
        w.rs.push_back(r);
        w.all.push_back(put(s, r));
        Cl *cl = w.all.back();
        shape(s, cl, shapes[i]);
        for (int k = 0; k < s->y_dim; ++k) cl->prediction[k] = 1.5 + (double) i + k;
        if (s->pred->type == PRED_TYPE_NLMS_LINEAR)
            for (int k = 0; k < ((PredNLMS *) cl->pred)->n_weights; ++k) ((PredNLMS *) cl->pred)->weights[k] = 0.25 * k - 0.1 * (double) i;
        if (s->pred->type == PRED_TYPE_RLS_LINEAR)
            for (int k = 0; k < ((PredRLS *) cl->pred)->n_weights; ++k) ((PredRLS *) cl->pred)->weights[k] = 0.25 * k - 0.1 * (double) i;
        clset_add(&w.set, cl);
    }
    w.rs.push_back({ 4, 30, 1, 0.001, 0.9, 2 });
    w.all.push_back(put(s, w.rs.back())); // outside the set, accurate and fully general
    shape(s, w.all.back(), 0);
    mc::seed_stream(stream);
    mc::flush_normal();
    return w;
}
static V model(const XCSF *s, const Cl *c)
{
    V v = dump_pred(s, c, false, false);
    if (s->pred->type == PRED_TYPE_NLMS_LINEAR) v[2] = 0; // the learning rate evolves
    if (s->pred->type == PRED_TYPE_RLS_LINEAR) v.resize(2 + (size_t) ((const PredRLS *) c->pred)->n_weights);
    return v;
}
static V fresh_model(XCSF *s)
{
    Cl *c = (Cl *) malloc(sizeof(Cl));
    cl_init(s, c, 1, 1);
    cl_rand(s, c);
    V v = model(s, c);
    cl_free(s, c);
    return v;
}
static void close(World &w)
{
    clset_free(&w.set);
    destroy(w.s);
}
static void offspring(Cfg c, int nset, bool branching)
{
    vector<int> kinds, shapes;
    for (int i = 0; i < nset; ++i) {
        kinds.push_back(mc::choose(4));
        shapes.push_back(mc::choose(4));
    }
    const uint64_t stream = (uint64_t) mc::choose(branching ? 1 : 3) * 7919 + 11;
    const double er = mc::pick({ 1, 0.5 }), fr = mc::pick({ 0.1, 1 });
    const int cross = mc::choose(2);
    auto set_up = [=](XCSF *s) {
        ea_param_set_theta(s, 0);
        ea_param_set_lambda(s, 2);
        ea_param_set_err_reduc(s, er);
        ea_param_set_fit_reduc(s, fr);
        ea_param_set_p_crossover(s, cross ? 1 : 0);
        cond_param_set_min(s, -0.5);
        cond_param_set_max(s, 1.5);
    };
    c.tweak = set_up;
    // first without subsumption: changed offspring become rules
    c.subs = false;
    World w = world(c, kinds, shapes, stream);
    XCSF *s = w.s;
    vector<V> conds, acts, models;
    for (Cl *r : w.all) {
        conds.push_back(dump_cond(s, r, false, false));
        acts.push_back(dump_act(s, r, false, false));
        models.push_back(model(s, r));
    }
    vector<int> num0;
    for (Cl *r : w.all) num0.push_back(r->num);
    ea(s, &w.set);
    mc::step();
    vector<Child> kids;
    vector<int> same; // parents of unchanged offspring
    int total = 0;
    for (size_t i = 0; i < w.all.size(); ++i) {
        const int g = w.all[i]->num - num0[i];
        if (g < 0 || (g && (int) i >= w.n)) mc::fail("numerosity", "a rule %s the set went from numerosity %d to %d", (int) i >= w.n ? "outside" : "in", num0[i], w.all[i]->num);
        for (int k = 0; k < g; ++k) same.push_back((int) i);
        if (w.all[i]->err != w.rs[i].err || w.all[i]->fit != w.rs[i].fit || w.all[i]->exp != w.rs[i].exp) mc::fail("parents", "evolution changed the statistics of an existing rule");
        if (!bits_eq(conds[i], dump_cond(s, w.all[i], false, false)) || !bits_eq(acts[i], dump_act(s, w.all[i], false, false)) || !bits_eq(models[i], model(s, w.all[i])))
            mc::fail("parent-parts", "evolution changed a part of an existing rule");
    }
    for (Cl *r : rules(s->pset)) {
        if (index(w.all, r) >= 0) continue;
        Child k;
        k.cond = dump_cond(s, r, false, false);
        k.act = dump_act(s, r, false, false);
        k.pred = model(s, r);
        k.err = r->err;
        k.fit = r->fit;
        if (r->num != 1 || r->exp != 0) mc::fail("newborn", "an offspring starts with numerosity %d and experience %d", r->num, r->exp);
        if (r->time != s->time) mc::fail("newborn-time", "an offspring made at time %d has the stamp %d", s->time, r->time);
        if (r->age != 0 || r->mtotal != 0) mc::fail("newborn-age", "an offspring starts with %d samples seen and %d matched", r->age, r->mtotal);
        bool sz = false;
        for (int i = 0; i < w.n; ++i) sz |= r->size == w.rs[(size_t) i].size;
        if (!sz) mc::fail("newborn-size", "an offspring starts with the set size %g of no parent", r->size);
        kids.push_back(k);
    }
    total = (int) (kids.size() + same.size());
    if (total != 2) mc::fail("pair", "%d offspring instead of 2", total);
    check_counts(s);
    // parents that explain the statistics
    struct Pair { int p, q; bool cm; };
    vector<Pair> ok;
    for (int p = 0; p < w.n; ++p)
        for (int q = 0; q < w.n; ++q)
            for (int cm = 0; cm < 2; ++cm) {
                auto E = [&](int own) { return cm ? er * (w.rs[(size_t) p].err + w.rs[(size_t) q].err) / 2 : er * w.rs[(size_t) own].err; };
                auto F = [&](int own) {
                    auto u = [&](int i) { return w.rs[(size_t) i].fit / w.rs[(size_t) i].num; };
                    return cm ? fr * (u(p) + u(q)) / 2 : fr * u(own);
                };
                auto M = [&](int own, const Child &k) { return bits_eq(k.pred, c.pred_reset ? fresh_model(s) : models[(size_t) own]); };
                auto fits = [&](const Child &k, int own) {
                    return near(k.err, E(own), 1e-12) && near(k.fit, F(own), 1e-12) && (c.pred == PRED_TYPE_NEURAL || M(own, k));
                };
                bool good = false;
                if (kids.size() == 2) good = (fits(kids[0], p) && fits(kids[1], q)) || (fits(kids[1], p) && fits(kids[0], q));
                if (kids.size() == 1) good = !cm && ((fits(kids[0], p) && same[0] == q) || (fits(kids[0], q) && same[0] == p));
                if (kids.empty()) good = !cm && ((same[0] == p && same[1] == q) || (same[0] == q && same[1] == p));
                if (good) ok.push_back({ p, q, cm != 0 });
            }
    if (ok.empty())
        mc::fail("inherit", "no two rules of the set explain the offspring: error reduction %g, fitness reduction %g; offspring error %.9g, fitness %.9g (second: %.9g, %.9g); unchanged: %zu", er, fr,
            kids.empty() ? -1 : kids[0].err, kids.empty() ? -1 : kids[0].fit, kids.size() < 2 ? -1 : kids[1].err, kids.size() < 2 ? -1 : kids[1].fit, same.size());
    for (const Pair &p : ok)
        if (p.cm && !cross) {
            bool other = false;
            for (const Pair &q : ok) other |= !q.cm;
            if (!other) mc::fail("crossover", "offspring have crossed statistics although crossover is off");
        }
    mc::validated();
    // now with subsumption, same draws
    c.subs = true;
    World v = world(c, kinds, shapes, stream);
    XCSF *t = v.s;
    ea(t, &v.set);
    mc::step();
    check_counts(t);
    vector<int> gain;
    for (size_t i = 0; i < v.all.size(); ++i) {
        gain.push_back(v.all[i]->num - num0[i]);
        if (gain.back() < 0 || (gain.back() && (int) i >= v.n)) mc::fail("subsumer-outside", "a rule outside the set absorbed an offspring");
        if (v.all[i]->err != w.rs[i].err || v.all[i]->fit != w.rs[i].fit || v.all[i]->exp != w.rs[i].exp) mc::fail("parents", "evolution changed the statistics of an existing rule");
    }
    for (int p : same) --gain[(size_t) p]; // unchanged offspring
    // rebuild the changed offspring as rules to compare with the members of the set
    vector<Cl *> born;
    for (Cl *r : rules(s->pset))
        if (index(w.all, r) < 0) born.push_back(r);
    auto wide = [&](int i) { return w.rs[(size_t) i].exp > s->THETA_SUB && w.rs[(size_t) i].err < s->E0; };
    vector<V> joined;
    for (Cl *r : rules(t->pset)) {
        if (index(v.all, r) >= 0) continue;
        V d = dump_cond(t, r, false, false);
        for (double x : dump_act(t, r, false, false)) d.push_back(x);
        for (double x : model(t, r)) d.push_back(x);
        d.push_back(r->err);
        d.push_back(r->fit);
        if (r->num != 1 || r->exp != 0) mc::fail("newborn", "an offspring starts with numerosity %d and experience %d", r->num, r->exp);
        joined.push_back(d);
    }
    // try to explain what happened: each offspring has the set of rules that may absorb it
    bool explained = false;
    string why;
    for (const Pair &pq : ok) {
        for (int order = 0; order < 2 && !explained; ++order) {
            vector<int> g = gain;
            vector<V> j = joined;
            vector<vector<int>> may;
            for (size_t k = 0; k < born.size(); ++k) {
                int own, oth;
                if (born.size() == 2) {
                    own = (k == 0) == (order == 0) ? pq.p : pq.q;
                    oth = (k == 0) == (order == 0) ? pq.q : pq.p;
                } else {
                    own = order == 0 ? pq.p : pq.q;
                    oth = order == 0 ? pq.q : pq.p;
                }
                vector<int> m;
                if (wide(own) && cl_general(s, w.all[(size_t) own], born[k])) m = { own };
                else if (wide(oth) && cl_general(s, w.all[(size_t) oth], born[k])) m = { oth };
                else
                    for (int i = 0; i < w.n; ++i)
                        if (wide(i) && cl_general(s, w.all[(size_t) i], born[k])) m.push_back(i);
                may.push_back(m);
            }
            std::function<bool(size_t, vector<int>, vector<V>)> rec = [&](size_t k, vector<int> gg, vector<V> jj) -> bool {
                if (k == born.size()) {
                    for (int x : gg)
                        if (x) return false;
                    return jj.empty();
                }
                if (may[k].empty()) {
                    V d = dump_cond(s, born[k], false, false);
                    for (double x : dump_act(s, born[k], false, false)) d.push_back(x);
                    for (double x : model(s, born[k])) d.push_back(x);
                    d.push_back(born[k]->err);
                    d.push_back(born[k]->fit);
                    for (size_t i = 0; i < jj.size(); ++i)
                        if (bits_eq(jj[i], d)) {
                            jj.erase(jj.begin() + (long) i);
                            return rec(k + 1, gg, jj);
                        }
                    return false;
                }
                for (int m : may[k])
                    if (gg[(size_t) m] > 0) {
                        vector<int> g2 = gg;
                        --g2[(size_t) m];
                        if (rec(k + 1, g2, jj)) return true;
                    }
                return false;
            };
            explained = rec(0, g, j);
        }
    }
    if (!explained) {
        string d;
        for (size_t i = 0; i < gain.size(); ++i) d += " " + std::to_string(gain[i]);
        mc::fail("subsumption", "%zu changed offspring, %zu joined as new rules; numerosity gained by the set's rules:%s - not what parents first, then other accurate experienced more general rules of the set, allow", born.size(), joined.size(), d.c_str());
    }
    mc::Hash h;
    for (int x : gain) h.i(x);
    h.i((long) joined.size());
    h.i((long) kids.size());
    mc::outcome(h.h);
    mc::state(hash_pop(t));
    close(w);
    close(v);
}
// in whole trials: the clock, the stamps and the number of offspring
static void trials(const Cfg &c0, int depth, int warm = 0)
{
    Cfg c = c0;
    c.theta_ea = mc::picki({ 1, 2, 3 });
    c.pop = 1000;
    XCSF *s = make(c);
    if (warm) grow(s, c, warm, mc::choose(2));
    ea_param_set_lambda(s, 2);
    for (int i = 0; i < depth; ++i) {
        const int op = mc::choose(2);
        std::map<const Cl *, std::pair<int, int>> before; // stamp, numerosity
        for (Cl *r : rules(s->pset)) before[r] = { r->time, r->num };
        const int t0 = s->time, n0 = s->pset.num;
        fit1(s, sample(c, op), target(c, op));
        mc::step();
        if (s->time != t0 + 1) mc::fail("clock", "one learning trial moved the clock from %d to %d", t0, s->time);
        // who took part: rules that match the input
        double ts = 0;
        int ns = 0;
        const V x = sample(c, op);
        bool any = false;
        for (auto &b : before) {
            const_cast<Cl *>(b.first)->m = cond_match(s, const_cast<Cl *>(b.first), x.data());
            if (b.first->m) {
                any = true;
                ts += b.second.first * b.second.second;
                ns += b.second.second;
            }
        }
        if (!any) continue; // covered: the new rule's stamp is the current time
        const bool runs = s->time - ts / ns >= c.theta_ea;
        for (auto &b : before) {
            const int want = b.first->m && runs ? s->time : b.second.first;
            if (b.first->time != want) mc::fail("stamp", "time %d, mean stamp %.6g, threshold %g: a rule that %s has the stamp %d, expected %d", s->time, ts / ns, c.theta_ea, b.first->m ? "matches" : "does not match", b.first->time, want);
        }
        if (s->pset.num - n0 != (runs ? 2 : 0)) mc::fail("trigger", "time %d, mean stamp %.6g, threshold %g: numerosity went from %d to %d", s->time, ts / ns, c.theta_ea, n0, s->pset.num);
        mc::state(hash_pop(s));
    }
    destroy(s);
}

void mc::scenarios()
{
    const bool T = thorough();
    Opt o;
    o.leak = true;
    o.seed = 111;
    add("trigger", o, [=] { trigger(false); });
    add("trigger-crowd", o, [=] { trigger(true); });
    add("select-roulette", o, [=] { select(EA_SELECT_ROULETTE, T ? 60 : 24); });
    add("select-roulette-crowd", o, [=] { select(EA_SELECT_ROULETTE, T ? 120 : 60, true); });
    add("select-tournament", o, [=] { select(EA_SELECT_TOURNAMENT, 0); });
    for (int cond : { COND_TYPE_DUMMY, COND_TYPE_TERNARY, COND_TYPE_HYPERRECTANGLE_CSR, COND_TYPE_HYPERRECTANGLE_UBR, COND_TYPE_HYPERELLIPSOID, COND_TYPE_GP, COND_TYPE_DGP, COND_TYPE_NEURAL, RULE_TYPE_DGP, RULE_TYPE_NEURAL })
        for (int pred : { PRED_TYPE_CONSTANT, PRED_TYPE_NLMS_LINEAR, PRED_TYPE_RLS_LINEAR })
            for (int reset = 0; reset < 2; ++reset) {
                const bool geo = cond == COND_TYPE_TERNARY || cond == COND_TYPE_HYPERRECTANGLE_CSR || cond == COND_TYPE_HYPERRECTANGLE_UBR || cond == COND_TYPE_HYPERELLIPSOID;
                if (!geo && (pred == PRED_TYPE_RLS_LINEAR)) continue;
                Cfg c = base(cond, pred);
                c.pred_reset = reset;
                c.x = 2;
                c.a = cond == RULE_TYPE_DGP || cond == RULE_TYPE_NEURAL ? 2 : 1;
                const string nm = string(cond_name(cond)) + "-" + pred_name(pred) + (reset ? "-reset" : "");
                if (!reset || pred != PRED_TYPE_RLS_LINEAR) {
                    add("offspring-" + nm, o, [=] { offspring(c, 2, false); });
                }
                if (reset == 0 && pred == PRED_TYPE_CONSTANT) {
                    if (geo) add("offspring3-" + nm, o, [=] { offspring(c, 3, !thorough()); });
                    Cfg a = c;
                    a.a = 2;
                    if (geo) add("offspring-acts-" + nm, o, [=] { offspring(a, 2, false); });
                    if (cond != RULE_TYPE_DGP && cond != RULE_TYPE_NEURAL && cond != COND_TYPE_NEURAL && cond != COND_TYPE_DGP) {
                        Opt q = o;
                        add("trials-" + nm, q, [=] { trials(c, T ? 10 : 8); });
                    }
                }
            }
    for (auto &e : wide(false)) {
        Cfg c = e.c;
        if (c.a > 1 || c.cond == RULE_TYPE_DGP || c.cond == RULE_TYPE_NEURAL || c.cond == COND_TYPE_NEURAL || c.cond == COND_TYPE_DGP) continue;
        if (c.pred != PRED_TYPE_NLMS_LINEAR && c.pred != PRED_TYPE_CONSTANT) continue;
        add("trials-" + e.name, o, [=] { trials(c, T ? 6 : 4, 40); });
    }
}
