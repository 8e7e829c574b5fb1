// C02: the match set is exact and covering represents every action.
#include "ref.hpp"
#include <set>
using namespace xc;

static bool same(const Snap &a, const Snap &b)
{
    return bits_eq(a.cond, b.cond) && bits_eq(a.act, b.act) && bits_eq(a.pred, b.pred);
}

static void check_match(XCSF *s, const V &x, bool cover)
{
    struct Before { bool acc; double margin; int action; double amargin; Snap snap; int num, age, mtotal; };
    std::map<Cl *, Before> before;
    for (Cl *c : rules(s->pset)) {
        Before b;
        b.acc = ref::accepts(s, c, x, &b.margin);
        b.action = ref::action(s, c, x, &b.amargin);
        b.snap = snap(s, c, false);
        b.num = c->num;
        b.age = c->age;
        b.mtotal = c->mtotal;
        before[c] = b;
    }
    std::set<int> acts; // actions the population represents for x before covering
    int nmatch = 0;
    bool unsure = false;
    for (auto &b : before) {
        if (b.second.margin < 1e-9 || b.second.amargin < 1e-9) unsure = true;
        if (b.second.acc) {
            ++nmatch;
            acts.insert(b.second.action);
        }
    }
    const int num_before = s->pset.num;
    clset_init(&s->mset);
    clset_init(&s->kset);
    clset_match(s, x.data(), cover);
    mc::log("match %s cover=%d: %d of %d rules", str(x).c_str(), cover, s->mset.size, s->pset.size);
    // the match set lists live population rules once each, with exact totals
    vector<Cl *> m = rules(s->mset), p = rules(s->pset);
    std::set<Cl *> ms, ps(p.begin(), p.end());
    int num = 0;
    for (Cl *c : m) {
        if (!ps.count(c)) mc::fail("stray", "the match set holds a rule that is not in the population");
        if (!ms.insert(c).second) mc::fail("twice", "a rule is in the match set twice");
        num += c->num;
    }
    if ((int) m.size() != s->mset.size) mc::fail("msize", "match set says %d rules, lists %zu", s->mset.size, m.size());
    if (num != s->mset.num) mc::fail("mnum", "match set says numerosity %d, its rules have %d", s->mset.num, num);
    // exactly the accepting rules
    int created = 0;
    for (Cl *c : p) {
        auto it = before.find(c);
        const bool in = ms.count(c) > 0;
        if (it == before.end() || !same(it->second.snap, snap(s, c, false))) { // created by covering
            ++created;
            double mg = 1, amg = 1;
            const bool acc = ref::accepts(s, c, x, &mg);
            const int a = ref::action(s, c, x, &amg);
            if (!in) mc::fail("covered-out", "a rule created by covering is not in the match set");
            if (mg > 1e-9 && !acc) mc::fail("covered-reject", "a rule created by covering does not accept %s: condition %s", str(x).c_str(), str(dump_cond(s, c)).c_str());
            if (amg > 1e-9 && a != c->action) mc::fail("covered-action", "a rule created by covering for action %d advocates %d", c->action, a);
            if (!cover) mc::fail("uncalled", "a rule was created although covering was not allowed");
            if (c->err != s->INIT_ERROR || c->fit != s->INIT_FITNESS || c->exp != 0 || c->num != 1 || c->time != s->time)
                mc::fail("covered-stats", "a rule created by covering starts with error %g fitness %g experience %d numerosity %d time %d", c->err, c->fit, c->exp, c->num, c->time);
        } else {
            const Before &b = it->second;
            if (b.margin < 1e-9) continue;
            if (in != b.acc) mc::fail("membership", "a rule whose condition %s %s %s the match set for %s", str(b.snap.cond).c_str(), b.acc ? "accepts" : "rejects", in ? "is in" : "is missing from", str(x).c_str());
            if (in && b.amargin > 1e-9 && c->action != b.action) mc::fail("advocated", "a matching rule advocates %d, recorded as %d", b.action, c->action);
            if (c->age != b.age + 1 || c->mtotal != b.mtotal + (b.acc ? 1 : 0)) mc::fail("matchcount", "a rule seen once more (matching: %d) went from %d/%d samples matched to %d/%d", b.acc, b.mtotal, b.age, c->mtotal, c->age);
        }
    }
    if (s->pset.num > s->POP_SIZE) mc::fail("limit", "covering left numerosity %d above the limit %d", s->pset.num, s->POP_SIZE);
    if (cover) {
        if (m.empty()) mc::fail("empty", "nothing matches %s after covering", str(x).c_str());
        if (s->n_actions > 1) {
            std::set<int> a;
            for (Cl *c : m) a.insert(c->action);
            for (int i = 0; i < s->n_actions; ++i)
                if (!a.count(i)) mc::fail("action", "no matching rule advocates action %d for %s after covering", i, str(x).c_str());
        }
        if (!unsure && ((s->n_actions == 1 && nmatch > 0) || (s->n_actions > 1 && (int) acts.size() == s->n_actions))) {
            if (created) mc::fail("needless", "covering created %d rules although every action was represented", created);
            if (s->pset.num != num_before) mc::fail("needless-del", "numerosity changed from %d to %d although nothing had to be covered", num_before, s->pset.num);
        }
        if (!unsure && (int) before.size() + 0 > 0 && num_before + s->n_actions <= s->POP_SIZE) {
            // room for everything: exactly one rule per missing action, nothing removed
            const int missing = s->n_actions == 1 ? (nmatch == 0) : s->n_actions - (int) acts.size();
            if (created != missing) mc::fail("created", "%d actions were missing, %d rules were created", missing, created);
            if (s->pset.num != num_before + missing) mc::fail("room", "numerosity %d -> %d with %d created and room left", num_before, s->pset.num, created);
        }
    }
    mc::step();
    mc::Hash h;
    h.i(created);
    h.i((long) m.size());
    h.i(s->pset.size);
    mc::outcome(h.h);
    mc::state(hash_pop(s));
    clset_kill(s, &s->kset);
    clset_free(&s->mset);
    mc::validated();
}

static V grid(int dim, int i, const V &a)
{
    V x;
    for (int d = 0; d < dim; ++d) {
        x.push_back(a[(size_t) i % a.size()]);
        i /= (int) a.size();
    }
    return x;
}

static void body(const Cfg &c, int start, int nops, const V &alpha, int train, bool heavy)
{
    XCSF *s = make(c);
    int n = 1;
    for (int d = 0; d < c.x; ++d) n *= (int) alpha.size();
    // the population: random rules (pop_init), or covering and learning on chosen inputs
    for (int i = 0; i < start; ++i) {
        if (train) fit1(s, grid(c.x, i * 2 + 1, alpha), V(c.y, 0.1 * i));
        else check_match(s, grid(c.x, i * 2 + 1, alpha), true);
    }
    if (heavy) { // rules of higher numerosity, exactly at the limit
        const bool unfit = mc::flip(); // fitness may decay to nothing
        for (Cl *r : rules(s->pset)) {
            const int k = 1 + (unfit ? 0 : mc::choose(2));
            s->pset.num += k - r->num;
            r->num = k;
            if (unfit) r->fit = 0;
        }
        param_set_pop_size(s, s->pset.num > c.a ? s->pset.num : c.a + 1);
    }
    for (int i = 0; i < nops; ++i) {
        const V x = i + 1 < nops ? grid(c.x, (n - 1) * mc::choose(3) / 2, alpha) : grid(c.x, mc::choose(n), alpha);
        const bool cover = i + 1 < nops || mc::flip();
        mc::branch(true);
        check_match(s, x, cover);
        mc::branch(false);
    }
    destroy(s);
}

// larger systems, whole histories: every input of a set after every ten trials
static void longer(const Cfg &c, int n)
{
    XCSF *s = make(c);
    const int pattern = mc::choose(4);
    const bool cover = mc::flip();
    for (int i = 0; i <= n; i += 10) {
        for (int k = 0; k < 14; ++k) check_match(s, sample(c, k), cover);
        grow(s, c, 10, pattern);
    }
    destroy(s);
}

void mc::scenarios()
{
    const bool T = thorough();
    for (int cond : ALL_CONDS)
        for (int act : { ACT_TYPE_INTEGER, ACT_TYPE_NEURAL })
            for (int a : { 1, 2, 3 })
                for (int x : { 1, 2, 3 }) {
                    if (act == ACT_TYPE_NEURAL && (cond == RULE_TYPE_DGP || cond == RULE_TYPE_NEURAL || a == 1)) continue;
                    if (x == 3 && !(a == 2 || T)) continue;
                    Cfg c;
                    c.cond = cond;
                    c.act = act;
                    c.pred = PRED_TYPE_CONSTANT;
                    c.a = a;
                    c.x = x;
                    const V alpha = x == 1 ? V{ 0, 0.25, 0.4, 0.5, 0.75, 1, -0.5, 1.5 } : x == 2 ? V{ 0, 0.3, 0.5, 1 } : V{ 0.1, 0.5, 1 };
                    for (int variant = 0; variant < 5; ++variant) {
                        if (x == 3 && !T && (variant == 1 || variant == 2)) continue;
                        if (act == ACT_TYPE_NEURAL && !T && (variant == 1 || variant == 4) && (cond != COND_TYPE_HYPERRECTANGLE_CSR || a == 3)) continue;
                        const V al = variant == 4 && x > 1 && !T ? V{ 0.1, 0.6 } : alpha;
                        // 0: empty population with room; 1: random population at the limit; 2: trained at the limit; 3: tight limit
                        Cfg v = c;
                        v.pop = variant == 0 ? 20 : variant == 1 ? 6 : variant == 2 ? 5 : (a == 1 ? 1 : a + 1);
                        v.pop_init = variant == 1;
                        if (variant == 3) v.m_prob = 0;
                        v.tweak = [variant](XCSF *s) {
                            if (variant == 1) param_set_init_error(s, 0.25);
                            if (variant == 2) param_set_init_fitness(s, 0.5);
                            if (variant == 3) param_set_init_fitness(s, 0);
                        };
                        Opt o;
                        o.seed = 17 + variant;
                        o.bound = T ? 2 : 1;
                        o.cap = T ? 200000 : 20000;
                        o.leak = true;
                        const int ops = variant == 1 || variant == 4 ? 1 : x == 1 && (act == ACT_TYPE_INTEGER || T) ? 2 : 1;
                        add("match-" + v.name() + "-v" + std::to_string(variant), o, [=] { body(v, variant == 1 ? 0 : variant == 2 ? 6 : variant == 4 ? 2 : 3, ops, al, variant == 2, variant == 4); });
                    }
                }
    for (auto &e : wide(false)) {
        if (e.c.pred != PRED_TYPE_NLMS_LINEAR && e.c.pred != PRED_TYPE_CONSTANT) continue;
        const Cfg c = e.c;
        Opt o;
        o.seed = 31;
        o.leak = true;
        for (int n : T ? vector<int>{ 30, 1000 } : vector<int>{ 30 }) add("long" + std::to_string(n) + "-" + e.name, o, [=] { longer(c, n); });
    }
}
