// C19: a stored population snapshot is isolated and restored exactly.
#include "ref.hpp"
using namespace xc;

typedef vector<V> Pop; // one vector per rule, sorted: the order of rules is not part of the snapshot

// everything that decides future matching, actions, predictions and bookkeeping
static V whole(const XCSF *s, const Cl *c)
{
    V o = dump_stats(c);
    o.push_back(c->age);
    o.push_back(c->mtotal);
    V model = dump_pred(s, c, false);
    if (s->pred->type == PRED_TYPE_RLS_LINEAR || s->pred->type == PRED_TYPE_RLS_QUADRATIC) // a copied model restarts its gain matrix
        model.resize(2 + (size_t) ((const PredRLS *) c->pred)->n_weights);
    for (const V &v : { dump_cond(s, c, false), dump_act(s, c, false), model }) {
        o.push_back(-12345);
        o.insert(o.end(), v.begin(), v.end());
    }
    return o;
}
static Pop all(const XCSF *s)
{
    Pop p;
    int num = 0;
    for (Cl *c : rules(s->pset)) {
        p.push_back(whole(s, c));
        num += c->num;
    }
    if ((int) p.size() != s->pset.size || num != s->pset.num) mc::fail("sizes", "the population has %zu rules of numerosity %d but reports %d and %d", p.size(), num, s->pset.size, s->pset.num);
    std::sort(p.begin(), p.end());
    return p;
}
static string differ(const Pop &a, const Pop &b)
{
    if (a.size() != b.size()) return std::to_string(a.size()) + " rules, expected " + std::to_string(b.size());
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i].size() != b[i].size()) return "a rule of another shape";
        for (size_t j = 0; j < a[i].size(); ++j)
            if (!(a[i][j] == b[i][j]) && !(std::isnan(a[i][j]) && std::isnan(b[i][j]))) {
                char t[160];
                snprintf(t, sizeof(t), "rule %zu value %zu is %.17g, expected %.17g", i, j, a[i][j], b[i][j]);
                return t;
            }
    }
    return "";
}
static vector<V> answers(XCSF *s, const Cfg &c)
{
    vector<V> r;
    for (int i = 0; i < 5; ++i) {
        V x = sample(c, i), o((size_t) s->pa_size, 9), fb((size_t) s->pa_size, -7.5);
        xcs_supervised_predict(s, x.data(), o.data(), 1, fb.data());
        r.push_back(o);
    }
    return r;
}
// predicting counts matches; put the counters back so that asking leaves no trace
static vector<V> ask(XCSF *s, const Cfg &c)
{
    vector<std::pair<int, int>> k;
    for (Cl *r : rules(s->pset)) k.push_back({ r->age, r->mtotal });
    const int tm = s->time;
    const vector<V> a = answers(s, c);
    size_t i = 0;
    for (Cl *r : rules(s->pset)) {
        r->age = k[i].first;
        r->mtotal = k[i++].second;
    }
    s->time = tm;
    return a;
}
static void learn(XCSF *s, const Cfg &c, int op)
{
    if (op == 1 && c.y == 1) {
        V x = sample(c, 2);
        xcs_rl_fit(s, x.data(), c.a - 1, 0.5);
    } else {
        fit1(s, sample(c, op), target(c, op));
    }
}
static void body(const Cfg &c, bool memory, int depth, bool branching, int warm = 0)
{
    dopt.momentum = false;
    XCSF *s = make(c);
    if (warm) grow(s, c, warm, 2);
    bool have = false;
    Pop stored;
    vector<V> said;
    static const char *N[] = { "learn a", "learn b", "store", "retrieve", "predict" };
    if (branching) {
        learn(s, c, 0);
        learn(s, c, 1);
    }
    for (int i = 0; i < depth; ++i) {
        int op;
        if (branching) {
            static const int fixed[] = { 2, 0, 3, 1 };
            op = fixed[i];
        } else {
            op = mc::choose(5);
        }
        mc::log("%s", N[op]);
        const Pop before = op >= 2 && op <= 3 ? all(s) : Pop();
        switch (op) {
            case 2:
                xcsf_store_pset(s);
                have = !before.empty(); // an empty population leaves nothing to retrieve
                stored = before;
                if (!differ(all(s), before).empty()) mc::fail("store", "storing changed the live population: %s", differ(all(s), before).c_str());
                if (!memory) said = ask(s, c);
                break;
            case 3: {
                xcsf_retrieve_pset(s);
                const Pop now = all(s);
                const Pop &want = have ? stored : before;
                const string d = differ(now, want);
                if (!d.empty()) mc::fail(have ? "retrieve" : "nothing", "%s: %s", have ? "the retrieved population differs from the stored one" : "retrieving without a snapshot changed the population", d.c_str());
                if (have && !memory) {
                    const vector<V> a = ask(s, c);
                    for (size_t k = 0; k < a.size(); ++k)
                        for (size_t j = 0; j < a[k].size(); ++j)
                            if (!near(a[k][j], said[k][j], 1e-9, 1e-10))
                                mc::fail("answers", "input %zu output %zu: predicted %.15g when stored, %.15g when retrieved", k, j, said[k][j], a[k][j]);
                    mc::validated();
                }
                have = false;
                mc::Hash h;
                for (const V &v : now) h.v(v);
                mc::outcome(h.h);
                break;
            }
            case 4: answers(s, c); break;
            default:
                mc::branch(branching);
                if (warm) grow(s, c, 20, op);
                else learn(s, c, op);
                mc::branch(false);
        }
        mc::step();
        mc::state(hash_pop(s) ^ (have ? 0x9e3779b97f4a7c15ULL : 0));
    }
    destroy(s);
}

void mc::scenarios()
{
    const bool T = thorough();
    auto cat = catalog(true);
    for (size_t i = 0; i < cat.size(); ++i) {
        auto &e = cat[i];
        Cfg c = e.c;
        c.subs = i % 2;
        c.pred_reset = i % 3 == 0;
        if (i % 4 == 2) c.setsubs = true;
        const bool mem = e.memory;
        Opt o;
        o.seed = 191 + i;
        o.leak = true;
        add("hist-" + e.name, o, [=] { body(c, mem, T ? 7 : 5, false); });
        Opt r = o;
        r.bound = T ? 2 : 1;
        r.cap = T ? 40000 : 4000;
        add("rng-" + e.name, r, [=] { body(c, mem, 4, true); });
    }
    // tiny populations: deletion empties and replaces the live population after storing
    for (int pop : { 1, 2 }) {
        Cfg c;
        c.pop = pop;
        c.x = 2;
        c.pred = PRED_TYPE_CONSTANT;
        for (bool init : { false, true }) {
            c.pop_init = init;
            Opt o;
            o.seed = 7;
            o.leak = true;
            add("tiny-" + std::to_string(pop) + (init ? "-init" : ""), o, [=] { body(c, false, T ? 8 : 6, false); });
        }
    }
    // larger systems after longer histories
    for (auto &e : wide(true)) {
        const Cfg c = e.c;
        const bool mem = e.memory;
        Opt o;
        o.seed = 71;
        o.leak = true;
        for (int n : T ? vector<int>{ 40, 400 } : vector<int>{ 60 })
            add("long" + std::to_string(n) + "-" + e.name, o, [=] { body(c, mem, T ? 4 : 3, false, n); });
    }
}
