// C12: deletion and set subsumption pick legal victims and keep counts.
#include "ref.hpp"
using namespace xc;

struct R { // one rule
    int num;
    double fit, size;
    int exp, mtotal, age;
    double err = 0;
    int len = 0; // tree length (0: whatever)
    int cond = 0; // which condition
};
static Cl *put(XCSF *s, const R &r)
{
    Cl *c = (Cl *) malloc(sizeof(Cl));
    cl_init(s, c, r.size, 0);
    cl_rand(s, c);
    c->num = r.num;
    c->fit = r.fit;
    c->exp = r.exp;
    c->mtotal = r.mtotal;
    c->age = r.age;
    c->err = r.err;
    clset_add(&s->pset, c);
    return c;
}
static Cl *put_tree(XCSF *s, const R &r, int inner)
{
    Cl *c = put(s, r);
    if (s->cond->type == COND_TYPE_GP) { // a tree with `inner` binary functions
        CondGP *g = (CondGP *) c->cond;
        free(g->gp.tree);
        g->gp.len = 2 * inner + 1;
        g->gp.tree = (int *) malloc(sizeof(int) * (size_t) g->gp.len);
        const int leaf = 4; // after the four functions
        for (int i = 0; i < g->gp.len; ++i) g->gp.tree[i] = i < inner ? 0 : leaf;
    }
    if (s->pred->type == PRED_TYPE_NEURAL) { // a network without 2 - inner of its connections
        Layer *l = ((PredNeural *) c->pred)->net.tail->layer;
        for (int i = 0; i < l->n_weights; ++i) {
            l->weight_active[i] = i >= 2 - inner;
            l->weights[i] = l->weight_active[i] ? 0.25 : 0;
        }
        l->n_active = l->n_weights - (2 - inner);
    }
    return c;
}
static double vote(const XCSF *s, const R &r, double avg)
{
    double v = r.size * r.num;
    if (r.exp > s->THETA_DEL && r.fit < s->DELTA * avg * r.num) v *= avg / (r.fit / r.num);
    return v;
}
static void counts(const XCSF *s, const vector<Cl *> &old, const vector<R> &rs, vector<int> &left)
{
    left.assign(old.size(), 0);
    int num = 0, n = 0;
    for (Cl *c : rules(s->pset)) {
        size_t k = 0;
        while (k < old.size() && old[k] != c) ++k;
        if (k == old.size()) mc::fail("stranger", "deletion added a rule");
        left[k] = c->num;
        num += c->num;
        ++n;
        if (c->num < 1 || c->num > rs[k].num) mc::fail("numerosity", "a rule of numerosity %d has %d after deletion", rs[k].num, c->num);
        if (c->fit != rs[k].fit || c->exp != rs[k].exp || c->size != rs[k].size || c->mtotal != rs[k].mtotal || c->age != rs[k].age || c->err != rs[k].err)
            mc::fail("touched", "deletion changed another attribute of a rule");
    }
    if (s->pset.size != n || s->pset.num != num) mc::fail("counts", "%d rules of numerosity %d, reported %d and %d", n, num, s->pset.size, s->pset.num);
}
static XCSF *system(int cond, bool compaction, int pred = PRED_TYPE_CONSTANT)
{
    Cfg c;
    c.cond = cond;
    c.pred = pred;
    if (pred == PRED_TYPE_NEURAL) {
        c.x = 4;
        L out;
        out.n = 1;
        out.func = LINEAR;
        c.pnet = { out };
    }
    c.compaction = compaction;
    c.pop = 1000;
    c.theta_del = 5;
    c.m_prob = 10;
    XCSF *s = make(c);
    param_set_delta(s, 0.5);
    param_set_e0(s, 0.1);
    clset_init(&s->kset);
    return s;
}
static void clear(XCSF *s)
{
    clset_kill(s, &s->kset);
    clset_kill(s, &s->pset);
}
// one unit over the limit: the distribution of victims over a grid of draws is the distribution of votes
static void votes(const vector<R> &kinds, int n, int grid)
{
    XCSF *s = system(COND_TYPE_DUMMY, false);
    vector<R> rs;
    int total = 0;
    const int how = n > 4 ? mc::choose((int) kinds.size()) : 0, stride = n > 4 ? 1 + mc::choose(5) : 0;
    for (int i = 0; i < n; ++i) {
        rs.push_back(kinds[n > 4 ? (size_t) (i * stride + how) % kinds.size() : (size_t) mc::choose((int) kinds.size())]);
        total += rs.back().num;
    }
    param_set_pop_size(s, total - 1 > 0 ? total - 1 : 1);
    if (total - 1 < 1) {
        destroy(s);
        return;
    }
    double fit = 0, sum = 0;
    for (const R &r : rs) fit += r.fit;
    const double avg = fit / total;
    V p;
    bool never = false;
    for (const R &r : rs) never |= r.mtotal == 0 && r.age > s->M_PROBATION;
    for (const R &r : rs) {
        p.push_back(never ? 0 : vote(s, r, avg));
        sum += p.back();
    }
    vector<int> hit(rs.size(), 0);
    for (int g = 0; g < grid; ++g) {
        vector<Cl *> old;
        for (const R &r : rs) old.push_back(put(s, r));
        mc::script({ (g + 0.5) / grid });
        clset_pset_enforce_limit(s);
        mc::script({});
        vector<int> left;
        counts(s, old, rs, left);
        if (s->pset.num != total - 1) mc::fail("limit", "%d units over a limit of %d became %d", total, total - 1, s->pset.num);
        int victim = -1;
        for (size_t i = 0; i < rs.size(); ++i)
            if (left[i] != rs[i].num) {
                if (victim >= 0) mc::fail("two", "one unit over the limit, two rules reduced");
                victim = (int) i;
                if (left[i] != rs[i].num - 1) mc::fail("units", "a numerosity went from %d to %d", rs[i].num, left[i]);
            }
        if (victim < 0) mc::fail("none", "no rule was reduced");
        ++hit[(size_t) victim];
        if (never && !(rs[(size_t) victim].mtotal == 0 && rs[(size_t) victim].age > s->M_PROBATION))
            mc::fail("probation", "a rule was reduced although another one past its probation never matched");
        mc::step();
        clear(s);
    }
    if (!never)
        for (size_t i = 0; i < rs.size(); ++i) {
            const double want = std::isinf(sum) ? (std::isinf(p[i]) ? -1 : 0) : p[i] / sum * grid;
            if (want < 0) continue;
            if (fabs(hit[i] - want) > 1.001)
                mc::fail("vote", "rule %zu (numerosity %d, fitness %g, set size %g, experience %d) was chosen for %d of %d evenly spaced draws; its vote is %.6g of %.6g (expected %.4g)", i,
                    rs[i].num, rs[i].fit, rs[i].size, rs[i].exp, hit[i], grid, p[i], sum, want);
        }
    mc::Hash h;
    for (int x : hit) h.i(x);
    mc::outcome(h.h);
    mc::state(h.h);
    mc::validated();
    destroy(s);
}
// compaction: the larger of two choices
static void compact(int grid, bool nets)
{
    const bool on = mc::flip();
    const int where = mc::choose(3); // the system error below, at and above the target
    XCSF *s = nets ? system(COND_TYPE_DUMMY, on, PRED_TYPE_NEURAL) : system(COND_TYPE_GP, on);
    s->error = where == 0 ? 0.05 : where == 1 ? 0.1 : 0.2;
    const bool two = on && where == 0;
    static const vector<R> K = { { 1, 0.5, 1, 0, 1, 5 }, { 2, 0.5, 3, 0, 1, 5 }, { 1, 0.01, 2, 9, 1, 5 } };
    vector<R> rs;
    vector<int> inner;
    int total = 0;
    for (int i = 0; i < 3; ++i) {
        rs.push_back(K[nets ? 0 : (size_t) mc::choose(3)]);
        inner.push_back(mc::choose(3));
        total += rs.back().num;
    }
    param_set_pop_size(s, total - 1);
    double fit = 0, sum = 0;
    for (const R &r : rs) fit += r.fit;
    V p, sz(3, 0);
    for (const R &r : rs) {
        p.push_back(vote(s, r, fit / total));
        sum += p.back();
    }
    for (double &v : p) v /= sum;
    vector<int> hit(3, 0);
    for (int g = 0; g < grid; ++g)
        for (int q = 0; q < grid; ++q) {
            vector<Cl *> old;
            for (int i = 0; i < 3; ++i) {
                old.push_back(put_tree(s, rs[(size_t) i], inner[(size_t) i]));
                sz[(size_t) i] = nets ? inner[(size_t) i] : 2 * inner[(size_t) i] + 1;
                if (nets) continue;
                if (cl_cond_size(s, old.back()) + cl_pred_size(s, old.back()) != sz[(size_t) i] + cl_pred_size(s, old.back())) mc::fail("size", "size of a tree");
            }
            mc::script({ (g + 0.5) / grid, (q + 0.5) / grid });
            clset_pset_enforce_limit(s);
            mc::script({});
            vector<int> left;
            counts(s, old, rs, left);
            int v = -1;
            for (size_t i = 0; i < 3; ++i)
                if (left[i] != rs[i].num) v = v >= 0 ? 9 : (int) i;
            if (v < 0 || v > 2) mc::fail("victims", "one unit over the limit: not exactly one rule reduced");
            ++hit[(size_t) v];
            mc::step();
            clear(s);
        }
    // rules of equal size: which of the two is taken is not specified, so compare by size
    std::map<double, double> want, got;
    for (size_t i = 0; i < 3; ++i) {
        got[two ? sz[i] : (double) i] += hit[i];
        if (!two) {
            want[(double) i] += p[i] * grid * grid;
        } else {
            for (size_t j = 0; j < 3; ++j) want[fmax(sz[i], sz[j])] += p[i] * p[j] * grid * grid;
        }
    }
    for (auto &w : want)
        if (fabs(w.second - got[w.first]) > 4.01 * grid)
            mc::fail("compaction", "compaction %d, error %s the target: victims of size %g: %g of %d, expected %.4g", on, where == 0 ? "below" : where == 1 ? "at" : "above", w.first, got[w.first], grid * grid, w.second);
    mc::Hash h;
    for (int x : hit) h.i(x);
    mc::outcome(h.h);
    mc::validated();
    destroy(s);
}
// several units over the limit
static void several(const vector<R> &kinds, int n)
{
    const bool comp = mc::flip();
    XCSF *s = system(COND_TYPE_DUMMY, comp);
    s->error = 0.01;
    vector<R> rs;
    vector<Cl *> old;
    int total = 0, nm = 0;
    for (int i = 0; i < n; ++i) {
        rs.push_back(kinds[(size_t) mc::choose((int) kinds.size())]);
        total += rs.back().num;
        if (rs.back().mtotal == 0 && rs.back().age > s->M_PROBATION) nm += rs.back().num;
        old.push_back(put(s, rs.back()));
    }
    const int low = std::max(1, total - (comp ? 2 : 4)); // two draws for one deletion under compaction
    const int limit = low + mc::choose(total - low + 1);
    param_set_pop_size(s, limit);
    mc::free_draws(true);
    clset_pset_enforce_limit(s);
    mc::free_draws(false);
    mc::step();
    vector<int> left;
    counts(s, old, rs, left);
    if (s->pset.num != (total > limit ? limit : total)) mc::fail("limit", "numerosity %d with a limit of %d became %d", total, limit, s->pset.num);
    int nmleft = 0;
    for (size_t i = 0; i < rs.size(); ++i)
        if (rs[i].mtotal == 0 && rs[i].age > s->M_PROBATION) nmleft += left[i];
    const int gone = total - s->pset.num;
    if (nm - nmleft != (gone < nm ? gone : nm)) mc::fail("first", "%d units of never-matching rules past probation and %d units removed, but %d of the former went", nm, gone, nm - nmleft);
    mc::Hash h;
    for (int x : left) h.i(x);
    mc::outcome(h.h);
    mc::state(h.h ^ (uint64_t) limit);
    clear(s);
    destroy(s);
}
// ---- set subsumption ----
static void shape(const XCSF *s, Cl *c, int k)
{
    static const double lo[] = { 0.0, 0.1, 0.2, 0.25, 0.15 }, hi[] = { 1.0, 0.9, 0.5, 0.95, 0.45 };
    switch (s->cond->type) {
        case COND_TYPE_HYPERRECTANGLE_CSR: {
            CondRectangle *r = (CondRectangle *) c->cond;
            r->b1[0] = (lo[k] + hi[k]) / 2;
            r->b2[0] = (hi[k] - lo[k]) / 2;
            break;
        }
        case COND_TYPE_HYPERRECTANGLE_UBR: {
            CondRectangle *r = (CondRectangle *) c->cond;
            r->b1[0] = k % 2 ? hi[k] : lo[k];
            r->b2[0] = k % 2 ? lo[k] : hi[k];
            break;
        }
        case COND_TYPE_HYPERELLIPSOID: {
            CondEllipsoid *r = (CondEllipsoid *) c->cond;
            r->center[0] = (lo[k] + hi[k]) / 2;
            r->spread[0] = (hi[k] - lo[k]) / 2;
            break;
        }
        case COND_TYPE_TERNARY: {
            static const char *t[] = { "##", "#1", "01", "1#", "0#" };
            memcpy(((CondTernary *) c->cond)->string, t[k], 2);
            break;
        }
    }
}
// reference: a covers b (equal intervals cover each other, equal ternary strings do not count)
static bool wider(int cond, int a, int b)
{
    static const double lo[] = { 0.0, 0.1, 0.2, 0.25, 0.15 }, hi[] = { 1.0, 0.9, 0.5, 0.95, 0.45 };
    static const char *t[] = { "##", "#1", "01", "1#", "0#" };
    if (a == b) return cond != COND_TYPE_TERNARY;
    if (cond == COND_TYPE_TERNARY) {
        for (int i = 0; i < 2; ++i)
            if (t[a][i] != '#' && t[a][i] != t[b][i]) return false;
        return true;
    }
    return lo[a] <= lo[b] && hi[a] >= hi[b];
}
static void subsume(int cond, int n, int shapes)
{
    Cfg c;
    c.cond = cond;
    c.pred = PRED_TYPE_CONSTANT;
    c.setsubs = mc::choose(8) != 0;
    c.pop = 1000;
    c.theta_sub = 20;
    c.e0 = 0.1;
    c.beta = 0.1;
    XCSF *s = make(c);
    clset_init(&s->kset);
    Set set;
    clset_init(&set);
    vector<Cl *> all;
    vector<int> num, sh, in;
    int total = 0;
    auto mk = [&](int k, bool sub_exp, bool acc, int nm, bool member) {
        R r { nm, 0.3, 2, sub_exp ? 20 : 19, 1, 5 };
        r.err = acc ? 0.05 : 0.5;
        Cl *cl = put(s, r);
        shape(s, cl, k);
        all.push_back(cl);
        num.push_back(nm);
        sh.push_back(k);
        in.push_back(member);
        total += nm;
        if (member) clset_add(&set, cl);
    };
    mk(0, true, true, 2, false); // a general accurate rule outside the set
    const int heavy = mc::choose(2); // numerous rules first or last
    for (int i = 0; i < n; ++i) {
        const int k = mc::choose(shapes), q = mc::choose(3);
        mk(k, q != 1, q != 2, heavy ? n - i : 1 + i, true);
    }
    mk(2, true, true, 1, false);
    const double x = 0.3, y = 0;
    vector<V> before;
    for (Cl *cl : all) before.push_back(dump_cond(s, cl));
    clset_update(s, &set, &x, &y, true);
    mc::step();
    // after the update
    vector<int> alive(all.size(), 0), sub(all.size(), 0), now(all.size(), 0);
    int tot = 0, cnt = 0;
    for (Cl *r : rules(s->pset)) {
        size_t k = 0;
        while (k < all.size() && all[k] != r) ++k;
        if (k == all.size()) mc::fail("stranger", "set subsumption added a rule");
        alive[k] = 1;
        now[k] = r->num;
        tot += r->num;
        ++cnt;
        if (!bits_eq(before[k], dump_cond(s, r))) mc::fail("condition", "set subsumption changed a condition");
        if (r->num < 1) mc::fail("zero", "a rule of numerosity %d stays in the population", r->num);
    }
    if (tot != total) mc::fail("total", "the total numerosity went from %d to %d", total, tot);
    if (s->pset.num != tot || s->pset.size != cnt) mc::fail("counts", "population of %d rules, numerosity %d, reported %d and %d", cnt, tot, s->pset.size, s->pset.num);
    int sn = 0, sc = 0;
    for (Cl *r : rules(set)) {
        size_t k = 0;
        while (k < all.size() && all[k] != r) ++k;
        if (k == all.size() || !alive[k] || !in[k]) mc::fail("set", "the set holds a rule that is not in the population");
        sn += r->num;
        ++sc;
    }
    if (set.size != sc || set.num != sn) mc::fail("set-counts", "set of %d rules, numerosity %d, reported %d and %d", sc, sn, set.size, set.num);
    vector<size_t> victims;
    int winner = -1;
    for (size_t k = 0; k < all.size(); ++k) {
        sub[k] = in[k] && all[k]->exp > s->THETA_SUB && all[k]->err < s->E0; // victims are freed later
        if (!alive[k]) victims.push_back(k);
        else if (now[k] != num[k]) {
            if (winner >= 0) mc::fail("winners", "two rules gained numerosity");
            winner = (int) k;
        }
    }
    for (size_t k : victims)
        if (!in[k]) mc::fail("outside", "a rule outside the set was subsumed");
    if (!c.setsubs && (!victims.empty() || winner >= 0)) mc::fail("disabled", "set subsumption happened although it is off");
    if (winner >= 0 && victims.empty()) mc::fail("gain", "a rule gained numerosity from nowhere");
    auto below = [&](size_t w) {
        vector<size_t> r;
        for (size_t k = 0; k < all.size(); ++k)
            if (in[k] && k != w && wider(cond, sh[w], sh[k])) r.push_back(k);
        return r;
    };
    // rules that may take the others: accurate and experienced, none of those more general
    vector<size_t> top;
    for (size_t k = 0; k < all.size(); ++k) {
        if (!sub[k]) continue;
        bool best = true;
        for (size_t j = 0; j < all.size(); ++j) best &= !(sub[j] && sh[j] != sh[k] && wider(cond, sh[j], sh[k]));
        if (best) top.push_back(k);
    }
    if (c.setsubs) {
        bool ok = top.empty() && victims.empty();
        for (size_t w : top) {
            if (below(w) != victims) continue;
            if (victims.empty() || winner == (int) w) ok = true;
        }
        if (!ok) {
            string v, t;
            for (size_t k : victims) v += " " + std::to_string(k);
            for (size_t k : top) t += " " + std::to_string(k);
            mc::fail("illegal", "subsumed rules:%s, gaining rule: %d; most general accurate experienced rules:%s", v.c_str(), winner, t.c_str());
        }
    }
    mc::Hash h;
    for (int v : now) h.i(v);
    mc::outcome(h.h);
    mc::state(h.h);
    mc::validated();
    clset_free(&set);
    clset_kill(s, &s->kset);
    destroy(s);
}
// whole trials keep the numerosities of the population within the limit and consistent
static void trials(const Cfg &c, int depth, int warm = 0)
{
    XCSF *s = make(c);
    if (warm) grow(s, c, warm, mc::choose(2));
    for (int i = 0; i < depth; ++i) {
        const int op = mc::choose(2);
        mc::branch(i + 1 == depth);
        fit1(s, sample(c, op), target(c, op));
        mc::branch(false);
        int num = 0, n = 0;
        for (Cl *r : rules(s->pset)) {
            if (r->num < 1) mc::fail("zero", "a rule of numerosity %d stays in the population", r->num);
            num += r->num;
            ++n;
        }
        if (num != s->pset.num || n != s->pset.size) mc::fail("counts", "population of %d rules, numerosity %d, reported %d and %d", n, num, s->pset.size, s->pset.num);
        if (num > c.pop) mc::fail("limit", "numerosity %d with a limit of %d", num, c.pop);
        mc::step();
        mc::state(hash_pop(s));
    }
    destroy(s);
}

void mc::scenarios()
{
    const bool T = thorough();
    // numerosity, fitness, set size, experience, matches, age: around every threshold
    const vector<R> K = {
        { 1, 0.5, 1, 0, 1, 5 }, { 2, 0.5, 1, 0, 1, 5 }, { 1, 0.5, 3, 5, 1, 50 }, { 3, 0.9, 2, 6, 2, 50 },
        { 1, 0.01, 1, 6, 1, 5 }, { 2, 0.02, 2, 6, 1, 5 }, { 2, 0.01, 2, 5, 1, 5 }, { 1, 0.1, 1.5, 40, 1, 5 },
        { 1, 0.5, 1, 0, 0, 11 }, { 2, 0.01, 2, 6, 0, 10 }, { 2, 0.9, 1, 9, 0, 12 }, { 1, 0.2, 5, 9, 1, 11 },
    };
    for (int n = 1; n <= (T ? 4 : 3); ++n) {
        Opt o;
        o.leak = true;
        if (n == 4) o.cap = 12 * 12 * 12 * 12;
        add("votes-" + std::to_string(n), o, [=] { votes(K, n, T ? 160 : 80); });
    }
    for (int n : { 6, 15, 40 })
        for (bool idle : { false, true }) { // with and without rules that never matched
            vector<R> k = K;
            if (!idle) k.erase(k.begin() + 8, k.begin() + 11);
            Opt o;
            o.leak = true;
            add("votes-" + std::to_string(n) + (idle ? "-idle" : ""), o, [=] { votes(k, n, T ? 400 : 200); });
        }
    {
        Opt o;
        o.leak = true;
        add("compaction", o, [=] { compact(T ? 40 : 16, false); });
        add("compaction-nets", o, [=] { compact(T ? 45 : 30, true); });
    }
    for (int n : { 2, 3 }) {
        Opt o;
        o.leak = true;
        if (!T) o.alpha = { 0.02, 0.55, 0.98 };
        else o.alpha = { 1e-9, 0.2, 0.4, 0.6, 0.8, 1 - 1e-9 };
        const vector<R> K2 = { K[0], K[3], K[5], K[8], K[10], K[9] };
        add("several-" + std::to_string(n), o, [=] { several(n == 2 ? K : K2, n); });
    }
    for (int cond : { COND_TYPE_HYPERRECTANGLE_CSR, COND_TYPE_HYPERRECTANGLE_UBR, COND_TYPE_HYPERELLIPSOID, COND_TYPE_TERNARY })
        for (int n : { 1, 2, 3, 4 }) {
            if (n == 4 && !T) continue;
            Opt o;
            o.leak = true;
            add(string("subsume-") + cond_name(cond) + "-" + std::to_string(n), o, [=] { subsume(cond, n, n == 4 ? 4 : 5); });
        }
    for (int cond : ALL_CONDS)
        for (int k = 0; k < 2; ++k) {
            Cfg c;
            c.cond = cond;
            c.x = 2;
            c.pop = k ? 2 : 4;
            c.subs = true;
            c.setsubs = true;
            c.compaction = k;
            c.m_prob = 1;
            c.e0 = 0.5;
            c.theta_sub = 0;
            c.pred = k ? PRED_TYPE_CONSTANT : PRED_TYPE_NLMS_LINEAR;
            Opt o;
            o.seed = 121;
            o.bound = T ? 2 : 1;
            o.cap = T ? 40000 : 4000;
            o.leak = true;
            add(string("trials-") + cond_name(cond) + "-" + std::to_string(k), o, [=] { trials(c, T ? 6 : 4); });
        }
    for (auto &e : wide(false)) {
        if (e.c.pred != PRED_TYPE_NLMS_LINEAR && e.c.pred != PRED_TYPE_CONSTANT) continue;
        Cfg c = e.c;
        c.setsubs = true;
        c.compaction = c.a > 1;
        c.m_prob = 20;
        c.e0 = 0.3;
        Opt o;
        o.seed = 127;
        o.leak = true;
        add("trials-" + e.name, o, [=] { trials(c, 3, T ? 300 : 60); });
    }
}
