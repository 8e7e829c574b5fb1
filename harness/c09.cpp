// C09: rule error, set size, accuracy and fitness follow the XCS update rules.
#include "ref.hpp"
#include <set>
using namespace xc;

struct Stat { double err, size, fit; int exp, num; };
static Stat stat(const Cl *c) { return { c->err, c->size, c->fit, c->exp, c->num }; }
// the statistics after one update of a set; losses: of the predictions made before learning
static bool edge; // an error within rounding of the target error: its accuracy is not determined
static vector<Stat> model(const XCSF *s, vector<Stat> r, const V &losses)
{
    int num = 0;
    double sum = 0;
    for (auto &c : r) num += c.num;
    vector<double> acc;
    for (size_t i = 0; i < r.size(); ++i) {
        Stat &c = r[i];
        ++c.exp;
        const double rate = c.exp * s->BETA < 1 ? 1.0 / c.exp : s->BETA;
        c.err += rate * (losses[i] - c.err);
        c.size += rate * (num - c.size);
        acc.push_back(ref::accuracy(s, c.err));
        sum += acc.back() * c.num;
    }
    for (size_t i = 0; i < r.size(); ++i) r[i].fit += s->BETA * (acc[i] * r[i].num / sum - r[i].fit);
    return r;
}
static void compare(const Cl *c, const Stat &w, size_t i, bool err = true)
{
    if (c->exp != w.exp) mc::fail("experience", "rule %zu has experience %d, expected %d", i, c->exp, w.exp);
    if (c->num != w.num) mc::fail("numerosity", "rule %zu has numerosity %d, expected %d", i, c->num, w.num);
    if (err && !near(c->err, w.err, 1e-9, 1e-11)) mc::fail("error", "rule %zu has error %.15g, expected %.15g", i, c->err, w.err);
    if (!near(c->size, w.size, 1e-9, 1e-11)) mc::fail("size", "rule %zu has set size %.15g, expected %.15g", i, c->size, w.size);
    if (err && !edge && !near(c->fit, w.fit, 1e-8, 1e-13)) mc::fail("fitness", "rule %zu has fitness %.15g, expected %.15g", i, c->fit, w.fit);
    mc::step();
}
static void find_edge(const XCSF *s, const vector<Cl *> &set, const vector<Stat> &w)
{
    edge = false;
    for (size_t i = 0; i < set.size(); ++i)
        if (near(w[i].err, s->E0, 1e-9, 1e-12) && set[i]->err != w[i].err) edge = true;
}

// rules placed directly in a set
static Cl *rule(XCSF *s, const Stat &t)
{
    Cl *c = (Cl *) malloc(sizeof(Cl));
    cl_init(s, c, t.size, 0);
    cl_rand(s, c);
    c->err = t.err;
    c->fit = t.fit;
    c->exp = t.exp;
    c->num = t.num;
    clset_add(&s->pset, c);
    return c;
}
static void direct(const Cfg &c, const vector<int> &in_set, const vector<Stat> &st, int steps, double beta, double e0, double alpha, double nu)
{
    XCSF *s = make(c);
    param_set_beta(s, beta);
    param_set_e0(s, e0);
    param_set_alpha(s, alpha);
    param_set_nu(s, nu);
    vector<Cl *> all, set;
    for (const Stat &t : st) all.push_back(rule(s, t));
    clset_init(&s->mset);
    for (size_t i = 0; i < all.size(); ++i)
        if (in_set[i]) clset_add(&s->mset, all[i]);
    set = rules(s->mset);
    for (int k = 0; k < steps; ++k) {
        const int op = mc::choose(3);
        const bool cur = mc::flip();
        const V x = sample(c, op);
        V y = target(c, op);
        if (c.loss == LOSS_LOG || c.loss == LOSS_BINARY_LOG || c.loss == LOSS_ONEHOT) {
            y.assign(y.size(), 0);
            y[(size_t) op % y.size()] = 1;
        }
        mc::log("update %d (%s state) ", op, cur ? "current" : "previous");
        vector<Stat> before;
        V losses;
        vector<Snap> others;
        for (Cl *r : set) {
            before.push_back(stat(r));
            // a current-state update uses the prediction already made; a previous-state update makes it
            if (cur) cl_predict(s, r, x.data());
            losses.push_back(ref::loss(s, ref::predict(s, r, x), y));
        }
        for (size_t i = 0; i < all.size(); ++i)
            if (!in_set[i]) others.push_back(snap(s, all[i]));
        const vector<Stat> w = model(s, before, losses);
        clset_update(s, &s->mset, x.data(), y.data(), cur);
        find_edge(s, set, w);
        for (size_t i = 0; i < set.size(); ++i) compare(set[i], w[i], i);
        size_t o = 0;
        for (size_t i = 0; i < all.size(); ++i)
            if (!in_set[i]) {
                const string d = diff(others[o++], snap(s, all[i]));
                if (!d.empty()) mc::fail("outside", "rule %zu is not in the updated set but changed: %s", i, d.c_str());
            }
        mc::validated();
        mc::state(hash_pop(s));
    }
    clset_free(&s->mset);
    destroy(s);
}
// whole trials: match, predict, update, no evolution
static void trials(const Cfg &c0, int steps, bool noisy, int warm = 0)
{
    Cfg c = c0;
    if (!warm) c.theta_ea = 1e9; // evolution is a different property
    c.setsubs = false;
    XCSF *s = make(c);
    if (warm) {
        grow(s, c, warm, mc::choose(4));
        ea_param_set_theta(s, 1e9);
    }
    for (int k = 0; k < steps; ++k) {
        const int op = mc::choose(c.y == 1 && c.a > 1 ? 4 : 3);
        const bool rl = op == 3;
        const V x = sample(c, op), y = rl ? V{ 0.75 } : target(c, op);
        const int a = rl ? mc::choose(c.a) : -1;
        mc::log("%s %d/%d ", rl ? "rl_fit" : "fit", op, a);
        std::map<Cl *, Snap> before;
        std::map<Cl *, Stat> st;
        std::map<Cl *, double> ls;
        std::map<Cl *, bool> in;
        bool close = false;
        for (Cl *r : rules(s->pset)) {
            before[r] = snap(s, r);
            st[r] = stat(r);
            double mg, mga = 1;
            in[r] = ref::accepts(s, r, x, &mg);
            if (rl) in[r] = in[r] && ref::action(s, r, x, &mga) == a;
            if (mg < 1e-9 || mga < 1e-9) close = true;
            if (!noisy) ls[r] = ref::loss(s, ref::predict(s, r, x), y);
        }
        std::map<Cl *, double> centre; // first bound of moving conditions
        if (rl) xcs_rl_fit(s, x.data(), a, 0.75);
        else fit1(s, x, y);
        mc::state(hash_pop(s));
        if (close) continue;
        vector<Cl *> set;
        vector<Stat> b;
        V losses;
        bool fresh = false;
        int num = 0;
        for (Cl *r : rules(s->pset)) {
            const bool old = before.count(r) != 0;
            if (!old && rl && c.cond != RULE_TYPE_DGP && c.cond != RULE_TYPE_NEURAL && r->action != a) continue;
            if (!old && rl && (c.cond == RULE_TYPE_DGP || c.cond == RULE_TYPE_NEURAL) && r->exp == 0) continue;
            if (old && !in[r]) {
                Snap q = snap(s, r), p = before[r];
                if (r->num < p.stats[2]) p.stats[2] = r->num; // deletion made room for covering
                p.age = q.age;
                p.mtotal = q.mtotal;
                if (c.cond == COND_TYPE_DGP || c.cond == RULE_TYPE_DGP) { p.cond = dump_cond(s, r, false); q.cond = p.cond; }
                const string d = diff(p, q);
                if (!d.empty()) mc::fail("outside", "a rule outside the updated set changed: %s", d.c_str());
                continue;
            }
            set.push_back(r);
            Stat t = old ? st[r] : Stat{ s->INIT_ERROR, 0, s->INIT_FITNESS, 0, 1 };
            t.num = r->num;
            if (r->num > (old ? st[r].num : 1)) mc::fail("numerosity", "an update raised a rule's numerosity");
            b.push_back(t);
            num += r->num;
            fresh = fresh || !old;
            losses.push_back(old && !noisy ? ls[r] : 0);
        }
        // a rule created by covering: its first error is the loss itself, taken from the rule
        for (size_t i = 0; i < set.size(); ++i)
            if (!before.count(set[i]) || noisy) {
                const int e = b[i].exp + 1;
                const double rate = e * s->BETA < 1 ? 1.0 / e : s->BETA;
                losses[i] = b[i].err + (set[i]->err - b[i].err) / rate;
                if (losses[i] < -1e-9) mc::fail("error", "error of a new rule moved away from its loss");
            }
        if (set.empty()) mc::fail("no-set", "no rule was updated");
        const vector<Stat> w = model(s, b, losses);
        find_edge(s, set, w);
        for (size_t i = 0; i < set.size(); ++i) {
            compare(set[i], w[i], i);
            // condition: only its centre may move, and only as configured
            if (before.count(set[i])) {
                V want = before[set[i]].cond;
                const double eta = s->cond->eta;
                if (c.cond == COND_TYPE_HYPERRECTANGLE_CSR || c.cond == COND_TYPE_HYPERELLIPSOID)
                    for (int j = 0; j < s->x_dim; ++j) want[(size_t) j] += eta * (x[(size_t) j] - want[(size_t) j]);
                V got = dump_cond(s, set[i]);
                if (c.cond == COND_TYPE_DGP || c.cond == RULE_TYPE_DGP || c.cond == COND_TYPE_NEURAL || c.cond == RULE_TYPE_NEURAL) continue;
                for (size_t j = 0; j < got.size(); ++j)
                    if (!near(got[j], want[j], 1e-10, 1e-13)) mc::fail("condition", "an update changed the condition: value %zu is %.12g, expected %.12g", j, got[j], want[j]);
            }
        }
        mc::validated();
    }
    destroy(s);
}

void mc::scenarios()
{
    const bool T = mc::thorough();
    // one rule: every stage of experience, every parameter setting
    for (int loss = 0; loss <= LOSS_HUBER; ++loss)
        for (int y : { 1, 2 }) {
            Cfg c;
            c.cond = COND_TYPE_DUMMY;
            c.x = 2; c.y = y; c.loss = loss;
            mc::add("one-loss" + std::to_string(loss) + "-y" + std::to_string(y), Opt(), [c, T] {
                const double beta = mc::pick({ 0, 0.1, 0.3, 1 }), e0 = mc::pick({ 0, 0.1, 0.6 }), alpha = mc::pick({ 0, 0.1, 1 }), nu = mc::pick({ 0, 1, 5 });
                const int exp = mc::picki({ 0, 1, 2, 3, 8, 9, 10 });
                const double err = mc::pick({ 0, 0.6, 5 });
                direct(c, { 1 }, { { err, 2.5, 0.3, exp, mc::picki({ 1, 3 }) } }, T ? 2 : 1, beta, e0, alpha, nu);
            });
        }
    // several rules: shares, numerosities, rules outside the set
    for (int pred : { PRED_TYPE_CONSTANT, PRED_TYPE_NLMS_LINEAR, PRED_TYPE_RLS_QUADRATIC }) {
        Cfg c;
        c.cond = COND_TYPE_DUMMY;
        c.pred = pred;
        c.x = 2; c.pop = 50;
        mc::add(string("sets-") + pred_name(pred), Opt(), [c, T] {
            const int n = 1 + mc::choose(3);
            vector<int> in;
            vector<Stat> st;
            int members = 0;
            for (int i = 0; i < n; ++i) {
                in.push_back(mc::choose(2));
                members += in.back();
                st.push_back({ T ? mc::pick({ 0, 0.2, 2 }) : mc::pick({ 0.2, 2 }), i + 1.5, T ? mc::pick({ 0.01, 0.7 }) : 0.01 + 0.3 * i, mc::picki({ 0, 4 }), mc::picki({ 1, 4 }) });
            }
            if (!members) return;
            const double beta = mc::pick({ 0.2, 0.5 });
            direct(c, in, st, 1, beta, 0.2, 0.1, 5);
        });
        mc::add(string("sequences-") + pred_name(pred), Opt(), [c, T] {
            vector<int> in = { 1, mc::choose(2), 1 };
            vector<Stat> st = { { 0, 1, 0.01, 0, 1 }, { 0.1, 2, 0.5, 3, 2 }, { 1.5, 3, 0.2, 7, 1 } };
            direct(c, in, st, T ? 5 : 3, mc::pick({ 0.2, 0.5 }), 0.1, 0.1, 5);
        });
    }
    for (const Entry &e : catalog(false)) {
        const bool noisy = e.name.find("dropout") != string::npos || e.name.find("noise") != string::npos;
        if (noisy && e.c.cond == COND_TYPE_NEURAL) continue; // whether it matches is itself random
        Cfg c = e.c;
        mc::add("trials-" + e.name, Opt(), [c, T, noisy] { trials(c, T ? 5 : 4, noisy); });
        // at the population limit: covering deletes while the set is being built
        if (c.pnet.empty() && c.cnet.empty() && c.anet.empty()) {
            Cfg t = c;
            t.pop = c.a + 1;
            Opt o;
            o.bound = T ? 2 : 1;
            o.cap = T ? 0 : 4000;
            mc::add("limit-" + e.name, o, [t, T] { trials(t, 3, false); });
        }
    }
    // conditions that follow their inputs
    for (int cond : { COND_TYPE_HYPERRECTANGLE_CSR, COND_TYPE_HYPERRECTANGLE_UBR, COND_TYPE_HYPERELLIPSOID })
        for (double eta : { 0.0, 0.3, 1.0 }) {
            Cfg c;
            c.cond = cond;
            c.x = 2;
            c.tweak = [eta](XCSF *s) { cond_param_set_eta(s, eta); };
            mc::add("centre-" + string(cond_name(cond)) + "-" + std::to_string(eta).substr(0, 3), Opt(), [c] { trials(c, 4, false); });
        }
    for (const Entry &e : wide(false)) {
        const Cfg c = e.c;
        for (int n : T ? vector<int>{ 40, 300 } : vector<int>{ 60 })
            mc::add("long" + std::to_string(n) + "-" + e.name, Opt(), [c, n, T] { trials(c, T ? 3 : 2, false, n); });
    }
}
