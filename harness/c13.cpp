// C13: genetic operators stay legal, report change truthfully, and never alias.
#include "wf.hpp"
using namespace xc;

static bool rls(const XCSF *s) { return s->pred->type == PRED_TYPE_RLS_LINEAR || s->pred->type == PRED_TYPE_RLS_QUADRATIC; }
// what the rule does: condition, action, model; without mutation rates, memory and accumulated momentum
struct Pheno {
    V cond, act, pred;
    bool operator==(const Pheno &o) const { return bits_eq(cond, o.cond) && bits_eq(act, o.act) && bits_eq(pred, o.pred); }
};
static Pheno pheno(const XCSF *s, const Cl *c, bool rates)
{
    const bool was = dopt.momentum;
    dopt.momentum = false;
    Pheno p = { dump_cond(s, c, false, rates), dump_act(s, c, false, rates), dump_pred(s, c, false, rates) };
    if (rls(s)) p.pred.resize(2 + (size_t) ((const PredRLS *) c->pred)->n_weights); // every copy restarts the gain matrix
    dopt.momentum = was;
    return p;
}
static string apart(const Pheno &a, const Pheno &b)
{
    Snap x = {}, y = {};
    x.cond = a.cond; x.act = a.act; x.pred = a.pred;
    y.cond = b.cond; y.act = b.act; y.pred = b.pred;
    return diff(x, y);
}
// everything the rule holds, bit for bit
static Snap everything(const XCSF *s, const Cl *c)
{
    dopt.momentum = true;
    return snap(s, c, true);
}
static void same_all(const XCSF *s, const Cl *c, const Snap &was, const char *what)
{
    const Snap now = everything(s, c);
    const string d = diff(was, now);
    if (!d.empty()) mc::fail("shared", "%s changed the other rule: %s", what, d.c_str());
    for (int i = 0; i < s->y_dim; ++i)
        if (!near(now.prediction[(size_t) i], was.prediction[(size_t) i], 0, 0)) mc::fail("shared", "%s changed the other rule's stored prediction", what);
}
static Cl *fresh(XCSF *s, const Cfg &c, int how)
{
    Cl *r = (Cl *) malloc(sizeof(Cl));
    cl_init(s, r, 3, 7);
    if (how == 0) cl_rand(s, r);
    else {
        const V x = sample(c, how);
        cl_cover(s, r, x.data(), (how - 1) % c.a);
    }
    return r;
}
static void learn(XCSF *s, const Cfg &c, Cl *r, int i)
{
    const V x = sample(c, i), y = target(c, i);
    cl_match(s, r, x.data());
    cl_action(s, r, x.data());
    cl_predict(s, r, x.data());
    r->age += 1;
    cl_update(s, r, x.data(), y.data(), 4, true);
}
static Cl *copy(XCSF *s, const Cl *a, int how)
{
    Cl *b = (Cl *) malloc(sizeof(Cl));
    if (how == 0) {
        cl_init_copy(s, b, a);
    } else {
        cl_init(s, b, a->size, a->time);
        cl_copy(s, b, a);
    }
    return b;
}
static bool mutate(XCSF *s, Cl *r)
{
    const Pheno was = pheno(s, r, false);
    const int act = r->action;
    const V stats = dump_stats(r);
    mc::branch(true);
    const bool changed = cl_mutate(s, r);
    mc::branch(false);
    rule_ok(s, r, true);
    const Pheno now = pheno(s, r, false);
    if (!changed && !(was == now)) mc::fail("untruthful", "mutation reported no change but changed the rule: %s", apart(was, now).c_str());
    if (!bits_eq(stats, dump_stats(r))) mc::fail("stats", "mutation changed the rule's statistics");
    if (s->n_actions == 1 && !bits_eq(was.act, now.act)) mc::fail("one-action", "mutation changed the action when there is only one");
    (void) act;
    mc::outcome(changed * 2 + (was == now));
    return changed;
}
static bool swapped(const V &a, const V &b, const V &a2, const V &b2, size_t i)
{
    auto eq = [](double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); };
    return (eq(a[i], a2[i]) && eq(b[i], b2[i])) || (eq(a[i], b2[i]) && eq(b[i], a2[i]));
}
static void exchanged(const char *what, const V &a, const V &b, const V &a2, const V &b2)
{
    if ((bits_eq(a, a2) && bits_eq(b, b2)) || (bits_eq(a, b2) && bits_eq(b, a2))) return;
    bool ok = a.size() == b.size() && a.size() == a2.size() && b.size() == b2.size();
    for (size_t i = 0; ok && i < a.size(); ++i) ok = swapped(a, b, a2, b2, i);
    if (!ok) mc::fail("exchange", "crossover of %s did not only exchange material: %s and %s became %s and %s", what, str(a).c_str(), str(b).c_str(), str(a2).c_str(), str(b2).c_str());
}
static vector<int> tree_of(const Cl *c)
{
    auto *r = (const CondGP *) c->cond;
    return vector<int>(r->gp.tree, r->gp.tree + r->gp.len);
}
static void subtrees(const vector<int> &a, const vector<int> &b, const vector<int> &a2, const vector<int> &b2)
{
    if (a == a2 && b == b2) return;
    for (size_t i = 0; i < a.size(); ++i)
        for (size_t j = 0; j < b.size(); ++j) {
            const size_t ie = (size_t) tree_end(a, i), je = (size_t) tree_end(b, j);
            if (a.size() - (ie - i) + (je - j) != a2.size() || b.size() - (je - j) + (ie - i) != b2.size()) continue;
            vector<int> x(a.begin(), a.begin() + (long) i), y(b.begin(), b.begin() + (long) j);
            x.insert(x.end(), b.begin() + (long) j, b.begin() + (long) je);
            x.insert(x.end(), a.begin() + (long) ie, a.end());
            if (x != a2) continue;
            y.insert(y.end(), a.begin() + (long) i, a.begin() + (long) ie);
            y.insert(y.end(), b.begin() + (long) je, b.end());
            if (y == b2) return;
        }
    mc::fail("exchange", "crossover of two trees is not an exchange of one subtree each");
}
static bool cross(XCSF *s, Cl *a, Cl *b)
{
    const Pheno pa = pheno(s, a, false), pb = pheno(s, b, false);
    const V sa = dump_stats(a), sb = dump_stats(b);
    vector<int> ta, tb;
    const bool gp = s->cond->type == COND_TYPE_GP;
    if (gp) {
        ta = tree_of(a);
        tb = tree_of(b);
    }
    mc::branch(true);
    const bool changed = cl_crossover(s, a, b);
    mc::branch(false);
    rule_ok(s, a);
    rule_ok(s, b);
    const Pheno qa = pheno(s, a, false), qb = pheno(s, b, false);
    if (!changed && !(pa == qa && pb == qb)) mc::fail("untruthful", "crossover reported no change but changed a rule: %s", (apart(pa, qa) + apart(pb, qb)).c_str());
    if (!bits_eq(sa, dump_stats(a)) || !bits_eq(sb, dump_stats(b))) mc::fail("stats", "crossover changed the statistics of a rule");
    if (gp) subtrees(ta, tb, tree_of(a), tree_of(b));
    else exchanged("conditions", pa.cond, pb.cond, qa.cond, qb.cond);
    exchanged("actions", pa.act, pb.act, qa.act, qb.act);
    exchanged("models", pa.pred, pb.pred, qa.pred, qb.pred);
    mc::outcome(4 + changed * 2 + (pa == qa));
    return changed;
}
// a copy is equal and independent, whichever of the two is then worked on or freed first
static void copies(Cfg c)
{
    XCSF *s = make(c);
    const int how = mc::choose(2);
    Cl *a = fresh(s, c, mc::choose(3));
    const int before = mc::choose(4);
    if (before & 1) learn(s, c, a, 3);
    if (before & 2) cl_mutate(s, a);
    const Snap was = everything(s, a);
    Cl *b = copy(s, a, how);
    same_all(s, a, was, "copying");
    rule_ok(s, b);
    if (!(how == 1 && s->ea->pred_reset)) {
        const string d = apart(pheno(s, a, true), pheno(s, b, true));
        if (!d.empty()) mc::fail("copy", "the copy differs from the original: %s", d.c_str());
    } else {
        const Pheno p = pheno(s, a, true), q = pheno(s, b, true);
        if (!bits_eq(p.cond, q.cond) || !bits_eq(p.act, q.act)) mc::fail("copy", "the copy's condition or action differs from the original");
    }
    if (how == 0) {
        if (!bits_eq(dump_stats(a), dump_stats(b)) || a->age != b->age || a->mtotal != b->mtotal) mc::fail("copy-stats", "the copy's statistics differ from the original");
    }
    // the same input gives the same answers (memory apart)
    if (stateless(c) && !(how == 1 && s->ea->pred_reset))
        for (int i = 0; i < 5; ++i) {
            const V x = sample(c, i);
            Cl *p[2] = { a, b };
            V o[2];
            for (int k = 0; k < 2; ++k) {
                const auto st = mc::rng_save();
                o[k].push_back(cl_match(s, p[k], x.data()));
                o[k].push_back(cl_action(s, p[k], x.data()));
                if (s->pred->type != PRED_TYPE_CONSTANT) {
                    const double *v = cl_predict(s, p[k], x.data());
                    for (int j = 0; j < s->y_dim; ++j) o[k].push_back(v[j]);
                }
                mc::rng_restore(st);
            }
            for (size_t j = 0; j < o[0].size(); ++j)
                if (!near(o[0][j], o[1][j], 1e-12, 1e-13)) mc::fail("copy-answers", "input %d: the copy answers %g, the original %g", i, o[1][j], o[0][j]);
            mc::validated();
        }
    mc::state(mc::Hash().h ^ (uint64_t) (how * 64 + before));
    const bool swap = mc::flip();
    Cl *work = swap ? b : a, *rest = swap ? a : b;
    Cl *third = fresh(s, c, 0);
    static const char *N[] = { "mutating", "learning in", "crossing", "growing", "freeing", "asking" };
    for (int i = 0; i < 2; ++i) {
        const int op = mc::choose(6);
        mc::log("%s", N[op]);
        const Snap keep = everything(s, rest);
        switch (op) {
            case 0:
                for (int k = 0; k < 3; ++k) cl_mutate(s, work);
                break;
            case 1: learn(s, c, work, 1); break;
            case 2: cl_crossover(s, work, third); break;
            case 3:
                if (s->pred->type == PRED_TYPE_NEURAL) pred_neural_expand(s, work);
                break;
            case 4:
                cl_free(s, work);
                work = nullptr;
                break;
            case 5: {
                const V x = sample(c, 2);
                cl_match(s, work, x.data());
                cl_action(s, work, x.data());
                cl_predict(s, work, x.data());
                break;
            }
        }
        same_all(s, rest, keep, N[op]);
        mc::step();
        mc::Hash h;
        hash_cl(s, rest, h);
        if (work) hash_cl(s, work, h);
        mc::state(h.h);
        if (!work) break;
    }
    // the one left alone still works after the other is gone
    if (work) cl_free(s, work);
    learn(s, c, rest, 2);
    if (s->pred->type != PRED_TYPE_NEURAL || (int) ((PredNeural *) rest->pred)->net.n_outputs == s->y_dim) cl_mutate(s, rest);
    cl_free(s, rest);
    cl_free(s, third);
    destroy(s);
}
// sequences of operators on two rules, random outcomes branching in each
static void sequences(Cfg c, int depth, int from)
{
    XCSF *s = make(c);
    mc::branch(true);
    Cl *a = fresh(s, c, from);
    mc::branch(false);
    Cl *b = fresh(s, c, 2);
    rule_ok(s, a);
    rule_ok(s, b);
    static const char *N[] = { "mutate a", "cross", "learn a", "replace b by a copy of a" };
    for (int i = 0; i < depth; ++i) {
        const int op = mc::choose(4);
        mc::log("%s", N[op]);
        if (op == 0) {
            const Snap keep = everything(s, b);
            mutate(s, a);
            same_all(s, b, keep, "mutating");
        } else if (op == 1) {
            cross(s, a, b);
        } else if (op == 2) {
            const Snap keep = everything(s, b);
            learn(s, c, a, i % 3);
            rule_ok(s, a);
            same_all(s, b, keep, "learning");
        } else {
            cl_free(s, b);
            b = copy(s, a, 1);
            rule_ok(s, b);
        }
        mc::step();
        mc::Hash h;
        hash_cl(s, a, h);
        hash_cl(s, b, h);
        mc::state(h.h);
    }
    cl_free(s, a);
    cl_free(s, b);
    destroy(s);
}
// every draw of one operator free over the alphabet, at extreme mutation rates
static void exhaust(Cfg c, double mu, bool crossing)
{
    XCSF *s = make(c);
    Cl *a = fresh(s, c, 1), *b = fresh(s, c, 2);
    auto force = [&](double *m, int n) {
        for (int i = 0; i < n; ++i) m[i] = mu;
    };
    if (!crossing) {
        switch (s->cond->type) {
            case COND_TYPE_HYPERRECTANGLE_CSR:
            case COND_TYPE_HYPERRECTANGLE_UBR: force(((CondRectangle *) a->cond)->mu, 1); break;
            case COND_TYPE_HYPERELLIPSOID: force(((CondEllipsoid *) a->cond)->mu, 1); break;
            case COND_TYPE_TERNARY: force(((CondTernary *) a->cond)->mu, 1); break;
            case COND_TYPE_GP: force(((CondGP *) a->cond)->gp.mu, 1); break;
            case COND_TYPE_DGP: force(((CondDGP *) a->cond)->dgp.mu, 3); break;
            case RULE_TYPE_DGP: force(((RuleDGP *) a->cond)->dgp.mu, 3); break;
        }
        if (s->cond->type != RULE_TYPE_DGP && s->cond->type != RULE_TYPE_NEURAL && s->act->type == ACT_TYPE_INTEGER) force(((ActInteger *) a->act)->mu, 1);
    }
    mc::free_draws(true);
    if (crossing) cross(s, a, b);
    else mutate(s, a);
    mc::free_draws(false);
    mc::step();
    mc::Hash h;
    hash_cl(s, a, h);
    hash_cl(s, b, h);
    mc::state(h.h);
    cl_free(s, a);
    cl_free(s, b);
    destroy(s);
}
// a graph rule needs one node per output: fewer are rejected, not read out of bounds
static void nodes()
{
    Cfg c;
    c.cond = RULE_TYPE_DGP;
    c.a = 2 + mc::choose(7);
    const int n = 1 + mc::choose(5);
    c.tweak = [n](XCSF *s) { graph_param_set_n(s->cond->dargs, n); };
    mc::step();
    if (mc::rejects([&] {
            XCSF *s = make(c);
            Cl *r = fresh(s, c, 0);
            for (int i = 0; i < 4; ++i) learn(s, c, r, i);
            cl_mutate(s, r);
            cl_free(s, r);
            destroy(s);
        }) &&
        n >= rule_outputs(c.a))
        mc::fail("nodes", "%d nodes were rejected for %d actions", n, c.a);
    mc::state((uint64_t) (c.a * 10 + n));
}

void mc::scenarios()
{
    rate_min = 0.0005;
    add("nodes", Opt(), [] { nodes(); });
    const bool T = thorough();
    auto cat = catalog(true);
    Cfg extra; // evolved learning rates, other cycle settings
    extra.x = 2;
    extra.a = 3;
    extra.tweak = [](XCSF *s) { pred_param_set_evolve_eta(s, true); pred_param_set_eta_min(s, 0.05); };
    cat.push_back({ "eta", extra, false, true });
    extra.pred = PRED_TYPE_NLMS_QUADRATIC;
    cat.push_back({ "eta2", extra, false, true });
    extra.cond = COND_TYPE_DGP;
    extra.tweak = [](XCSF *s) { graph_param_set_evolve_cycles(s->cond->dargs, true); graph_param_set_max_t(s->cond->dargs, 3); graph_param_set_n(s->cond->dargs, 2); };
    cat.push_back({ "cycles", extra, false, true });
    extra.cond = RULE_TYPE_DGP;
    extra.tweak = [](XCSF *s) { graph_param_set_evolve_cycles(s->cond->dargs, true); graph_param_set_max_t(s->cond->dargs, 3); graph_param_set_n(s->cond->dargs, 3); };
    cat.push_back({ "rcycles", extra, false, true });
    for (size_t i = 0; i < cat.size(); ++i) {
        auto &e = cat[i];
        Cfg c = e.c;
        c.pred_reset = i % 5 == 4;
        Opt o;
        o.seed = 131 + i;
        o.leak = true;
        add("copy-" + e.name, o, [=] { copies(c); });
        Opt r = o;
        r.bound = T ? 2 : 1;
        r.cap = T ? 400000 : 30000;
        for (int from : { 0, 1 }) add((from ? "ops-cover-" : "ops-rand-") + e.name, r, [=] { sequences(c, (T ? 4 : 3) - (c.x == 4), from); });
    }
    for (int cond : ALL_CONDS) {
        if (cond == COND_TYPE_NEURAL || cond == RULE_TYPE_NEURAL) continue;
        for (int a : { 1, 3 }) {
            for (int k = 0; k < 3; ++k) {
                Cfg c;
                c.cond = cond;
                c.pred = PRED_TYPE_CONSTANT;
                c.x = 1;
                c.a = a;
                c.tweak = [](XCSF *s) {
                    cond_param_set_bits(s, 2);
                    graph_param_set_n(s->cond->dargs, s->cond->type == RULE_TYPE_DGP ? rule_outputs(s->n_actions) : 2);
                    graph_param_set_max_k(s->cond->dargs, 1);
                    tree_param_set_init_depth(s->cond->targs, 1);
                };
                Opt o;
                o.seed = 5 + (uint64_t) a;
                o.leak = true;
                o.alpha = { 1e-9, 0.3, 0.6, 1 - 1e-9 };
                o.cap = T ? 2000000 : 100000;
                const double mu = k == 1 ? 1 : 1e-3;
                const bool cr = k == 2;
                add(string(cr ? "cross-" : mu == 1 ? "mutate-hi-" : "mutate-lo-") + c.name(), o, [=] { exhaust(c, mu, cr); });
            }
        }
    }
    for (auto &e : wide(true)) {
        const Cfg c = e.c;
        Opt o;
        o.seed = 137;
        o.leak = true;
        add("copy-" + e.name, o, [=] { copies(c); });
        o.bound = 1;
        o.cap = T ? 100000 : 2000;
        for (int from : { 0, 1 }) add((from ? "ops-cover-" : "ops-rand-") + e.name, o, [=] { sequences(c, T ? 3 : 2, from); });
    }
}
