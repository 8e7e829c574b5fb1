// C05: prediction and scoring leave the learned knowledge untouched.
#include "ref.hpp"
#include <algorithm>
#include <set>
using namespace xc;

static string knowledge(const vector<Snap> &a, const vector<Snap> &b)
{
    if (a.size() != b.size()) return std::to_string(a.size()) + " rules became " + std::to_string(b.size());
    for (size_t i = 0; i < a.size(); ++i) {
        Snap x = a[i], y = b[i];
        x.age = y.age = x.mtotal = y.mtotal = 0; // match counters are not learned knowledge
        const string d = diff(x, y);
        if (!d.empty()) return "rule " + std::to_string(i) + ": " + d;
    }
    return "";
}
struct Guard {
    XCSF *s;
    vector<Snap> pop;
    vector<Cl *> list;
    int time, size, num;
    double error;
    // asked as after a training trial: the system is left in training mode by fitting
    Guard(XCSF *s) : s(s), pop(snap_pop(s, false)), list(rules(s->pset)), time(s->time), size(s->pset.size), num(s->pset.num), error(s->error) { param_set_explore(s, true); }
    void check(const char *what)
    {
        const string d = knowledge(pop, snap_pop(s, false));
        if (!d.empty()) mc::fail("altered", "%s changed the population: %s", what, d.c_str());
        if (rules(s->pset) != list) mc::fail("reordered", "%s reordered or replaced rules", what);
        if (s->time != time || s->pset.size != size || s->pset.num != num || s->error != error)
            mc::fail("system", "%s changed the system: time %d->%d size %d->%d numerosity %d->%d error %g->%g", what, time, s->time, size, s->pset.size, num, s->pset.num, error, s->error);
        mc::step();
    }
};

static void trial(XCSF *s, const Cfg &c, int op)
{
    if (op < 3) {
        fit1(s, sample(c, op), target(c, op));
    } else if (c.y == 1) {
        const V x = sample(c, 1);
        xcs_rl_fit(s, x.data(), c.a - 1, 0.5);
    } else {
        Data d(c.x, c.y, sample(c, 1), target(c, 0));
        Data t(c.x, c.y, sample(c, 2), target(c, 1));
        xcs_supervised_fit(s, &d.in, &t.in, false, 0, 2);
    }
}

static void body(const Cfg &c, int depth, bool branching, int warm = 0)
{
    XCSF *s = make(c);
    if (warm) grow(s, c, warm, mc::choose(4));
    for (int i = 0; i < depth; ++i) {
        const int op = mc::choose(branching ? 2 : 4);
        mc::branch(branching && i + 1 == depth);
        trial(s, c, op);
        mc::branch(false);
    }
    const int N = 5;
    V fb((size_t) s->pa_size);
    for (size_t i = 0; i < fb.size(); ++i) fb[i] = 3.25 - 10.0 * (double) i;
    // each row alone
    vector<V> alone;
    for (int i = 0; i < N; ++i) {
        Guard g(s);
        V x = sample(c, i), o((size_t) s->pa_size, 99);
        bool any = false, sure = true;
        for (Cl *r : rules(s->pset)) {
            double m;
            if (ref::accepts(s, r, x, &m)) any = true;
            if (m < 1e-9) sure = false;
        }
        xcs_supervised_predict(s, x.data(), o.data(), 1, fb.data());
        g.check("predicting with a fallback");
        if (sure && !any)
            for (size_t k = 0; k < o.size(); ++k)
                if (o[k] != fb[k]) mc::fail("fallback", "no rule matches %s: the answer is %g, the fallback %g", str(x).c_str(), o[k], fb[k]);
        alone.push_back(o);
        mc::Hash h;
        h.v(o);
        mc::outcome(h.h);
    }
    // batches: forwards, backwards, repeated rows; same answers whatever the company
    const vector<vector<int>> orders = { { 0, 1, 2, 3, 4 }, { 4, 3, 2, 1, 0 }, { 3, 0, 3, 3, 1 }, { 2, 4 } };
    for (auto &ord : orders) {
        Guard g(s);
        V x, o(ord.size() * (size_t) s->pa_size, 99), y;
        for (int i : ord) {
            V r = sample(c, i), t = target(c, i);
            x.insert(x.end(), r.begin(), r.end());
            y.insert(y.end(), t.begin(), t.end());
        }
        xcs_supervised_predict(s, x.data(), o.data(), (int) ord.size(), fb.data());
        g.check("predicting a batch with a fallback");
        for (size_t r = 0; r < ord.size(); ++r)
            if (!bits_eq(V(o.begin() + (long) r * s->pa_size, o.begin() + (long) (r + 1) * s->pa_size), alone[(size_t) ord[r]]))
                mc::fail("company", "row %s is answered %s in a batch and %s alone", str(sample(c, ord[r])).c_str(), str(V(o.begin() + (long) r * s->pa_size, o.begin() + (long) (r + 1) * s->pa_size)).c_str(), str(alone[(size_t) ord[r]]).c_str());
        Data d(c.x, c.y, x, y);
        const double a = xcs_supervised_score(s, &d.in, fb.data());
        g.check("scoring with a fallback");
        param_set_explore(s, true);
        const double b = xcs_supervised_score(s, &d.in, fb.data());
        if (!(a == b) && !(std::isnan(a) && std::isnan(b))) mc::fail("rescore", "scoring again gives %.17g, then %.17g", a, b);
        param_set_explore(s, true);
        xcs_supervised_score_n(s, &d.in, (int) ord.size() - 1, fb.data());
        g.check("scoring a sample with a fallback");
    }
    mc::state(hash_pop(s));
    mc::validated();
    destroy(s);
}
// the same history with and without predictions in between ends in the same population
static void twin(const Cfg &c, int depth, int warm = 0)
{
    vector<int> ops;
    for (int i = 0; i < depth; ++i) ops.push_back(mc::choose(4));
    vector<Snap> end[2];
    for (int k = 0; k < 2; ++k) {
        mc::seed_stream(77);
        mc::flush_normal();
        XCSF *s = make(c);
        grow(s, c, warm);
        for (int op : ops) {
            trial(s, c, op);
            if (k) {
                V x, y, fb((size_t) s->pa_size, 1.5), o(3 * (size_t) s->pa_size);
                for (int i = 0; i < 3; ++i) {
                    V r = sample(c, i + 2 > 4 ? 0 : i + 2), t = target(c, i);
                    x.insert(x.end(), r.begin(), r.end());
                    y.insert(y.end(), t.begin(), t.end());
                }
                xcs_supervised_predict(s, x.data(), o.data(), 3, fb.data());
                Data d(c.x, c.y, x, y);
                xcs_supervised_score(s, &d.in, fb.data());
            }
        }
        end[k] = snap_pop(s, false);
        mc::state(hash_pop(s));
        destroy(s);
    }
    const string d = knowledge(end[0], end[1]);
    if (!d.empty()) mc::fail("twin", "predicting between trials changed what was learned: %s", d.c_str());
    mc::outcome(end[0].size());
    mc::validated();
}
// without a fallback only covering may add rules
static void nofallback(const Cfg &c, int depth)
{
    XCSF *s = make(c);
    for (int i = 0; i < depth; ++i) trial(s, c, mc::choose(2));
    param_set_pop_size(s, 50);
    vector<Cl *> before = rules(s->pset);
    vector<Snap> snaps = snap_pop(s, false);
    const int time = s->time;
    const double error = s->error;
    mc::branch(true);
    V x = sample(c, mc::choose(5)), o((size_t) s->pa_size), o2((size_t) s->pa_size);
    xcs_supervised_predict(s, x.data(), o.data(), 1, nullptr);
    mc::branch(false);
    auto compare = [&](const char *what) {
        vector<Cl *> after = rules(s->pset);
        size_t k = 0;
        for (Cl *r : after) {
            auto it = std::find(before.begin(), before.end(), r);
            if (it == before.end()) {
                if (r->exp != 0 || r->num != 1 || r->err != s->INIT_ERROR || r->fit != s->INIT_FITNESS) mc::fail("new", "%s added a rule that is not a fresh covering rule", what);
                continue;
            }
            if (it - before.begin() != (long) k) mc::fail("order", "%s reordered the existing rules", what);
            Snap a = snaps[k], b = snap(s, r, false);
            a.age = b.age;
            a.mtotal = b.mtotal;
            const string d = diff(a, b);
            if (!d.empty()) mc::fail("altered", "%s altered an existing rule: %s", what, d.c_str());
            ++k;
        }
        if (k != before.size()) mc::fail("lost", "%s removed a rule although there was room", what);
        if (s->time != time || s->error != error) mc::fail("system", "%s changed time or error", what);
        mc::step();
    };
    compare("predicting with covering");
    // asking again: nothing to cover any more, same answer
    const int n = s->pset.size;
    param_set_explore(s, true);
    xcs_supervised_predict(s, x.data(), o2.data(), 1, nullptr);
    if (s->pset.size != n) mc::fail("again-size", "asking again covered again");
    if (!bits_eq(o, o2)) mc::fail("again", "asking again gives %s, first %s", str(o2).c_str(), str(o).c_str());
    Data d(c.x, c.y, x, target(c, 0));
    param_set_explore(s, true);
    xcs_supervised_score(s, &d.in, nullptr);
    compare("scoring with covering");
    mc::state(hash_pop(s));
    mc::Hash h;
    h.v(o);
    mc::outcome(h.h);
    mc::validated();
    destroy(s);
}

void mc::scenarios()
{
    const bool T = thorough();
    for (auto &e : catalog(false)) {
        Cfg c = e.c;
        Opt o;
        o.seed = 41;
        o.leak = true;
        c.subs = c.setsubs = true;
        add("ask-" + e.name, o, [=] { body(c, T ? 5 : 3, false); });
        Opt r = o;
        r.bound = T ? 2 : 1;
        r.cap = T ? 50000 : 6000;
        add("rng-" + e.name, r, [=] { body(c, 2, true); });
        add("twin-" + e.name, o, [=] { twin(c, T ? 5 : 3); });
        add("cover-" + e.name, r, [=] { nofallback(c, 2); });
    }
    for (auto &e : wide(false)) {
        const Cfg c = e.c;
        Opt o;
        o.seed = 43;
        o.leak = true;
        for (int n : T ? vector<int>{ 40, 200, 1000 } : vector<int>{ 60 }) {
            add("ask" + std::to_string(n) + "-" + e.name, o, [=] { body(c, 1, false, n); });
            add("twin" + std::to_string(n) + "-" + e.name, o, [=] { twin(c, 1, n); });
        }
    }
}
