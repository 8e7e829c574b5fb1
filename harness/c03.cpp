// C03: conditions accept exactly their region; generality is sound.
#include "ref.hpp"
using namespace xc;

// a rule with random components, to be filled in by the harness
static Cl *blank(XCSF *s)
{
    Cl *c = (Cl *) malloc(sizeof(Cl));
    cl_init(s, c, 1, 0);
    cl_rand(s, c);
    return c;
}
static vector<V> grid(int dim, const V &a)
{
    vector<V> r = { {} };
    for (int d = 0; d < dim; ++d) {
        vector<V> n;
        for (auto &p : r)
            for (double v : a) {
                V q = p;
                q.push_back(v);
                n.push_back(q);
            }
        r = n;
    }
    return r;
}
static long accepted, rejected;
// compare acceptance (and the advocated action) with the definition
static bool judge(XCSF *s, Cl *c, const V &x, bool exact)
{
    double mg, amg;
    const bool want = ref::accepts(s, c, x, &mg);
    const int a = ref::action(s, c, x, &amg);
    const bool got = cl_match(s, c, x.data());
    if (got != want && (exact || mg > 1e-9))
        mc::fail("accept", "condition %s %s %s but is said to %s it", str(dump_cond(s, c)).c_str(), want ? "accepts" : "rejects", str(x).c_str(), got ? "accept" : "reject");
    if (cl_m(s, c) != got) mc::fail("flag", "the match flag differs from the match result");
    const int ga = cl_action(s, c, x.data());
    if (ga < 0 || ga >= s->n_actions) mc::fail("actrange", "advocated action %d of %d", ga, s->n_actions);
    if ((exact || amg > 1e-9) && ga != a) mc::fail("action", "a rule advocating %d for %s is said to advocate %d", a, str(x).c_str(), ga);
    mc::step();
    (got ? accepted : rejected)++;
    mc::Hash h;
    h.i(got);
    h.i(ga);
    mc::outcome(h.h);
    return got;
}
// ask again: a stateless condition keeps its answer
static void judge_all(XCSF *s, Cl *c, const vector<V> &xs, bool exact)
{
    vector<bool> m;
    for (auto &x : xs) m.push_back(judge(s, c, x, exact));
    if (!s->STATEFUL)
        for (size_t i = xs.size(); i-- > 0;)
            if (cl_match(s, c, xs[i].data()) != m[i]) mc::fail("again", "asking again for %s gives a different answer", str(xs[i]).c_str());
    mc::Hash h;
    hash_cl(s, c, h);
    mc::state(h.h);
    mc::validated();
}

static void rect_params(XCSF *s, Cl *c, const V &b1, const V &b2)
{
    for (int i = 0; i < s->x_dim; ++i) {
        if (s->cond->type == COND_TYPE_HYPERELLIPSOID) {
            auto *r = (CondEllipsoid *) c->cond;
            r->center[i] = mc::pick(b1);
            r->spread[i] = mc::pick(b2);
        } else {
            auto *r = (CondRectangle *) c->cond;
            r->b1[i] = mc::pick(b1);
            r->b2[i] = mc::pick(b2);
        }
    }
}
static void boxes(Cfg c, const V &b1, const V &b2, const V &xs)
{
    XCSF *s = make(c);
    Cl *r = blank(s);
    rect_params(s, r, b1, b2);
    judge_all(s, r, grid(c.x, xs), true);
    cl_free(s, r);
    destroy(s);
}
static void check_general(XCSF *s, Cl *a, Cl *b, const vector<V> &xs, bool expect)
{
    const bool g = cl_general(s, a, b);
    if (g) {
        if (a->act && b->act && s->n_actions > 1)
            for (auto &x : xs)
                if (ref::action(s, a, x) != ref::action(s, b, x)) mc::fail("gen-action", "a rule is judged more general than one advocating another action");
        for (auto &x : xs)
            if (ref::accepts(s, b, x) && !ref::accepts(s, a, x))
                mc::fail("unsound", "%s is judged more general than %s but rejects %s", str(dump_cond(s, a)).c_str(), str(dump_cond(s, b)).c_str(), str(x).c_str());
    } else if (expect) {
        mc::fail("incomplete", "%s strictly contains %s, advocates the same action, and is not judged more general", str(dump_cond(s, a)).c_str(), str(dump_cond(s, b)).c_str());
    }
    mc::outcome(g);
    mc::step();
}
static void set_action(XCSF *s, Cl *c)
{
    if (s->n_actions > 1) ((ActInteger *) c->act)->action = mc::choose(s->n_actions);
    c->action = ((ActInteger *) c->act)->action;
}
static void box_general(Cfg c, const V &b1, const V &b2, const V &xs)
{
    XCSF *s = make(c);
    Cl *a = blank(s), *b = blank(s);
    rect_params(s, a, b1, b2);
    rect_params(s, b, b1, b2);
    set_action(s, a);
    set_action(s, b);
    auto *p = (CondRectangle *) a->cond, *q = (CondRectangle *) b->cond;
    bool strict = a->action == b->action;
    const bool csr = c.cond == COND_TYPE_HYPERRECTANGLE_CSR;
    for (int i = 0; i < c.x; ++i) {
        auto lo = [&](CondRectangle *r) { return csr ? r->b1[i] - r->b2[i] : fmin(r->b1[i], r->b2[i]); };
        auto hi = [&](CondRectangle *r) { return csr ? r->b1[i] + r->b2[i] : fmax(r->b1[i], r->b2[i]); };
        if (!(lo(p) < lo(q) && hi(p) > hi(q))) strict = false;
        // clearly inside the search space, so that clipping at its ends plays no part
        if (lo(p) < s->cond->min || hi(p) > s->cond->max) strict = false;
    }
    check_general(s, a, b, grid(c.x, xs), strict);
    mc::validated();
    cl_free(s, a);
    cl_free(s, b);
    destroy(s);
}
static void ternary_params(XCSF *s, Cl *c)
{
    auto *r = (CondTernary *) c->cond;
    for (int i = 0; i < r->length; ++i) r->string[i] = "01#"[mc::choose(3)];
}
static void ternary(Cfg c, int bits, const V &xs)
{
    c.tweak = [=](XCSF *s) { cond_param_set_bits(s, bits); };
    XCSF *s = make(c);
    Cl *r = blank(s);
    ternary_params(s, r);
    judge_all(s, r, grid(c.x, xs), true);
    cl_free(s, r);
    destroy(s);
}
static void ternary_general(Cfg c, int bits, const V &xs)
{
    c.tweak = [=](XCSF *s) { cond_param_set_bits(s, bits); };
    XCSF *s = make(c);
    Cl *a = blank(s), *b = blank(s);
    ternary_params(s, a);
    ternary_params(s, b);
    set_action(s, a);
    set_action(s, b);
    auto *p = (CondTernary *) a->cond, *q = (CondTernary *) b->cond;
    bool strict = a->action == b->action, more = false;
    for (int i = 0; i < p->length; ++i) {
        if (p->string[i] != '#' && p->string[i] != q->string[i]) strict = false;
        if (p->string[i] == '#' && q->string[i] != '#') more = true;
    }
    check_general(s, a, b, grid(c.x, xs), strict && more);
    mc::validated();
    cl_free(s, a);
    cl_free(s, b);
    destroy(s);
}
static void dummy(Cfg c)
{
    XCSF *s = make(c);
    Cl *a = blank(s), *b = blank(s);
    judge_all(s, a, grid(c.x, { -1, 0, 0.5, 2 }), true);
    set_action(s, a);
    set_action(s, b);
    check_general(s, a, b, grid(c.x, { -1, 0, 0.5, 2 }), false);
    cl_free(s, a);
    cl_free(s, b);
    destroy(s);
}
// all trees up to a number of nodes over four functions, two constants and the inputs
static void grow(vector<int> &t, int open, int max, int terms)
{
    while (open > 0) {
        const int room = max - (int) t.size() - open; // nodes left beyond one per open slot
        const int k = mc::choose(room >= 2 ? terms + 4 : terms);
        if (k < terms) {
            t.push_back(4 + k);
            --open;
        } else {
            t.push_back(k - terms);
            ++open;
        }
    }
}
static void trees(Cfg c, int max, const V &consts, const V &xs, bool exact = false)
{
    c.tweak = [=](XCSF *s) {
        tree_param_set_n_constants(s->cond->targs, (int) consts.size());
        tree_args_init_constants(s->cond->targs);
        for (size_t i = 0; i < consts.size(); ++i) s->cond->targs->constants[i] = consts[i];
    };
    XCSF *s = make(c);
    Cl *r = blank(s);
    vector<int> t;
    grow(t, 1, max, (int) consts.size() + c.x);
    GPTree *g = &((CondGP *) r->cond)->gp;
    free(g->tree);
    g->tree = (int *) malloc(sizeof(int) * t.size());
    g->len = (int) t.size();
    memcpy(g->tree, t.data(), sizeof(int) * t.size());
    judge_all(s, r, grid(c.x, xs), exact);
    cl_free(s, r);
    destroy(s);
}
static void graphs(Cfg c, int n, int k, const V &init, const V &xs, bool stateful, int tmax, bool exact = false)
{
    c.stateful = stateful;
    c.tweak = [=](XCSF *s) {
        graph_param_set_n(s->cond->dargs, n);
        graph_param_set_max_k(s->cond->dargs, k);
        graph_param_set_max_t(s->cond->dargs, tmax + 1);
    };
    XCSF *s = make(c);
    Cl *r = blank(s);
    Graph *g = c.cond == COND_TYPE_DGP ? &((CondDGP *) r->cond)->dgp : &((RuleDGP *) r->cond)->dgp;
    g->t = 1 + mc::choose(tmax);
    for (int i = 0; i < n; ++i) {
        g->function[i] = mc::choose(3);
        g->initial_state[i] = mc::pick(init);
        g->state[i] = g->initial_state[i];
    }
    for (int i = 0; i < g->klen; ++i) g->connectivity[i] = mc::choose(n + c.x);
    judge_all(s, r, grid(c.x, xs), exact);
    cl_free(s, r);
    destroy(s);
}
static void nets(Cfg c, const V &ws, const V &xs, bool exact = false)
{
    XCSF *s = make(c);
    Cl *r = blank(s);
    Net *nets[2] = { nullptr, nullptr };
    if (c.cond == COND_TYPE_NEURAL) nets[0] = &((CondNeural *) r->cond)->net;
    if (c.cond == RULE_TYPE_NEURAL) nets[0] = &((RuleNeural *) r->cond)->net;
    if (c.act == ACT_TYPE_NEURAL && c.cond != RULE_TYPE_NEURAL && c.cond != RULE_TYPE_DGP) nets[1] = &((ActNeural *) r->act)->net;
    for (Net *n : nets) {
        if (!n) continue;
        for (const Llist *i = n->tail; i; i = i->prev) {
            Layer *l = i->layer;
            if (l->type != CONNECTED) continue;
            for (int j = 0; j < l->n_weights; ++j) l->weights[j] = mc::pick(ws);
            for (int j = 0; j < l->n_biases; ++j) l->biases[j] = mc::pick(ws);
        }
    }
    judge_all(s, r, grid(c.x, xs), exact);
    cl_free(s, r);
    destroy(s);
}
// rules the system itself makes: random, covered, evolved, for every representation
static void natural(Cfg c, const V &xs, bool cover)
{
    XCSF *s = make(c);
    const vector<V> g = grid(c.x, xs);
    mc::branch(true);
    Cl *r = (Cl *) malloc(sizeof(Cl));
    cl_init(s, r, 1, 0);
    if (cover) cl_cover(s, r, g[(size_t) mc::choose((int) g.size())].data(), c.a - 1);
    else cl_rand(s, r);
    mc::branch(false);
    judge_all(s, r, g, false);
    mc::branch(true);
    cl_mutate(s, r);
    mc::branch(false);
    judge_all(s, r, g, false);
    cl_free(s, r);
    destroy(s);
}

// larger conditions: made, then evolved several times, judged on many inputs after each change
static void larger(const Cfg &c, int rounds)
{
    XCSF *s = make(c);
    vector<V> g;
    for (int i = 0; i < 16; ++i) g.push_back(sample(c, i));
    mc::branch(true);
    Cl *r = (Cl *) malloc(sizeof(Cl));
    cl_init(s, r, 1, 0);
    if (mc::flip()) cl_cover(s, r, g[(size_t) mc::choose(3)].data(), c.a - 1);
    else cl_rand(s, r);
    mc::branch(false);
    for (int i = 0; i < rounds; ++i) {
        judge_all(s, r, g, false);
        cl_mutate(s, r);
    }
    judge_all(s, r, g, false);
    cl_free(s, r);
    destroy(s);
}

void mc::scenarios()
{
    const bool T = thorough();
    Opt o;
    for (int cond : { COND_TYPE_HYPERRECTANGLE_CSR, COND_TYPE_HYPERRECTANGLE_UBR, COND_TYPE_HYPERELLIPSOID })
        for (int x : { 1, 2, 3 }) {
            Cfg c;
            c.cond = cond;
            c.x = x;
            c.pred = PRED_TYPE_CONSTANT;
            const bool ubr = cond == COND_TYPE_HYPERRECTANGLE_UBR;
            const V b1 = x == 1 ? V{ -0.5, 0, 0.125, 0.25, 0.5, 0.75, 1 } : x == 2 ? V{ 0, 0.25, 0.5, 1 } : V{ 0, 0.25, 0.5 };
            const V b2 = ubr ? b1 : x == 1 ? V{ 0.125, 0.25, 0.5, 1, 2 } : x == 2 ? V{ 0.25, 0.5, 1 } : V{ 0.25, 0.5 };
            const V xs = x == 3 ? V{ -0.25, 0, 0.25, 0.5, 0.75, 1 } : V{ -1, -0.25, -0.125, 0, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 1, 1.5 };
            add("box-" + c.name(), o, [=] { boxes(c, b1, b2, xs); });
            if (cond != COND_TYPE_HYPERELLIPSOID && x < 3)
                for (int a : { 1, 2 }) {
                    Cfg d = c;
                    d.a = a;
                    const V g1 = x == 1 ? V{ 0, 0.125, 0.25, 0.5, 0.75, 1 } : ubr ? V{ 0, 0.25, 0.75 } : T ? V{ 0.25, 0.5, 0.75 } : V{ 0.25, 0.5 };
                    const V g2 = ubr ? g1 : x == 1 ? V{ 0.125, 0.25, 0.5, 1 } : V{ 0.125, 0.25 };
                    add("boxgen-" + d.name(), o, [=] { box_general(d, g1, g2, xs); });
                }
        }
    for (int x : { 1, 2, 3 })
        for (int bits : { 1, 2, 3 }) {
            if (x * bits > 6) continue;
            Cfg c;
            c.cond = COND_TYPE_TERNARY;
            c.x = x;
            c.pred = PRED_TYPE_CONSTANT;
            const V xs = x == 3 ? V{ 0, 0.3, 0.5, 1 } : V{ -0.5, 0, 0.1, 0.125, 0.25, 0.3, 0.375, 0.5, 0.6, 0.625, 0.75, 0.875, 0.9, 1, 1.5 };
            if (x == 1) { // just below and above every cut
                V e;
                for (int k = 0; k <= 8; ++k)
                    for (double v : { nextafter(k / 8.0, -1), k / 8.0, nextafter(k / 8.0, 2) }) e.push_back(v);
                add("tern-cuts-b" + std::to_string(bits), o, [=] { ternary(c, bits, e); });
            }
            add("tern-" + c.name() + "b" + std::to_string(bits), o, [=] { ternary(c, bits, xs); });
            if (x * bits <= (T ? 4 : 3))
                for (int a : { 1, 2 }) {
                    Cfg d = c;
                    d.a = a;
                    const V g = { 0, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875, 1 };
                    add("terngen-" + d.name() + "b" + std::to_string(bits), o, [=] { ternary_general(d, bits, g); });
                }
        }
    for (int x : { 1, 2 })
        for (int a : { 1, 2, 3 }) {
            Cfg c;
            c.cond = COND_TYPE_DUMMY;
            c.x = x;
            c.a = a;
            add("dummy-" + c.name(), o, [=] { dummy(c); });
        }
    for (int x : { 1, 2 }) {
        Cfg c;
        c.cond = COND_TYPE_GP;
        c.pred = PRED_TYPE_CONSTANT;
        c.x = x;
        add("tree-large-" + c.name(), o, [=] { trees(c, T ? 5 : 3, { -3000, 0.3, 1200 }, { -2000, -1500, 0.5, 1500, 2000 }); });
        add("tree-" + c.name(), o, [=] { trees(c, T ? 7 : 5, { 0, 0.3, 2000 }, { 0, 0.5, 0.75, 1, -1 }); });
    }
    for (int cond : { COND_TYPE_DGP, RULE_TYPE_DGP })
        for (int x : { 1, 2 })
            for (bool st : { false, true }) {
                Cfg c;
                c.cond = cond;
                c.pred = PRED_TYPE_CONSTANT;
                c.x = x;
                c.a = cond == RULE_TYPE_DGP ? 2 : 1;
                add("graph-" + c.name() + (st ? "-stateful" : ""), o, [=] { graphs(c, 2, 2, x == 1 || T ? V{ 0.25, 0.8 } : V{ 0.8 }, { 0, 0.4, 1 }, st, x == 1 ? 2 : T ? 2 : 1); });
            }
    for (int a : { 3, 4, 5 }) { // several action bits, codes above the number of actions
        Cfg c;
        c.cond = RULE_TYPE_DGP;
        c.pred = PRED_TYPE_CONSTANT;
        c.a = a;
        add("graph-" + c.name(), o, [=] { graphs(c, a == 5 ? 4 : 3, 1, { 0.25, 0.8 }, { 0, 1 }, false, 1); });
    }
    // outputs of exactly one half, and just beside it: all numbers are small dyadic ones, so the arithmetic is exact
    {
        const V half = { 0.25, 0.5 - 0x1p-30, 0.5, 0.5 + 0x1p-30, 0.75 };
        Cfg c;
        c.pred = PRED_TYPE_CONSTANT;
        c.cond = COND_TYPE_GP;
        add("half-tree", o, [=] { trees(c, 1, half, half, true); });
        for (int x : { 1, 2 }) {
            Cfg d = c;
            d.x = x;
            d.cond = COND_TYPE_DGP;
            add("half-dgp-" + std::to_string(x), o, [=] { graphs(d, 1, x, { 0.5 }, x == 1 ? half : V{ 0.25, 0.5, 0.75 }, false, 1, true); });
            d.a = 2;
            d.cond = RULE_TYPE_DGP;
            add("half-rule-dgp-" + std::to_string(x), o, [=] { graphs(d, 2, 1, { 0.5 }, x == 1 ? half : V{ 0.25, 0.5 }, false, 1, true); });
        }
        for (int f : { LINEAR, LOGISTIC, RELU })
            for (int cond : { COND_TYPE_NEURAL, RULE_TYPE_NEURAL }) {
                Cfg d = c;
                L out;
                out.func = f;
                out.n = cond == COND_TYPE_NEURAL ? 1 : 3;
                if (cond == RULE_TYPE_NEURAL) d.a = 4;
                d.cond = cond;
                d.cnet = { out };
                add(string("half-net-") + neural_activation_string(f) + (cond == COND_TYPE_NEURAL ? "" : "-rule"), o, [=] { nets(d, { -0.5, 0, 0.5 }, { -1, -0.5, 0, 0.5, 1, 1 + 0x1p-20, 1 - 0x1p-20 }, true); });
            }
    }
    for (int f : { LINEAR, LOGISTIC, RELU, TANH }) {
        for (int cond : { COND_TYPE_NEURAL, RULE_TYPE_NEURAL, COND_TYPE_DUMMY })
            for (int x : { 1, 2 })
                for (int hid : { 0, 1 }) {
                    Cfg c;
                    c.cond = cond;
                    c.pred = PRED_TYPE_CONSTANT;
                    c.x = x;
                    L h, out, sm;
                    h.n = 1;
                    h.func = f;
                    out.func = f;
                    vector<L> net;
                    if (hid) net.push_back(h);
                    if (cond == COND_TYPE_NEURAL) {
                        out.n = 1;
                        net.push_back(out);
                        c.cnet = net;
                    } else if (cond == RULE_TYPE_NEURAL) {
                        c.a = 2;
                        out.n = 2;
                        net.push_back(out);
                        c.cnet = net;
                    } else {
                        c.a = 3;
                        c.act = ACT_TYPE_NEURAL;
                        out.n = 3;
                        net.push_back(out);
                        if (f == LINEAR) {
                            sm.type = SOFTMAX;
                            sm.n = 3;
                            sm.scale = 2;
                            net.push_back(sm);
                        }
                        c.anet = net;
                    }
                    if (cond == COND_TYPE_DUMMY && x == 2 && hid == 0 && !T) continue;
                    const V ws = hid && cond == COND_TYPE_DUMMY ? V{ -1, 0.7 } : V{ -1, 0.3, 2 };
                    add("net-" + std::to_string(f) + "-" + std::to_string(hid) + "-" + c.name(), o, [=] { nets(c, ws, { -1, 0, 0.4, 1 }); });
                }
    }
    for (int cond : ALL_CONDS)
        for (int a : { 1, 2, 3 })
            for (int x : { 1, 2 })
                for (int st : { 0, 1 })
                    for (int cover : { 0, 1 }) {
                        if (st && cond != COND_TYPE_DGP && cond != RULE_TYPE_DGP) continue;
                        for (int act : { ACT_TYPE_INTEGER, ACT_TYPE_NEURAL }) {
                            if (act == ACT_TYPE_NEURAL && (a == 1 || cond != COND_TYPE_DUMMY)) continue;
                            Cfg c;
                            c.cond = cond;
                            c.act = act;
                            c.pred = PRED_TYPE_CONSTANT;
                            c.a = a;
                            c.x = x;
                            c.stateful = st;
                            Opt r;
                            r.bound = T ? 2 : 1;
                            r.cap = T ? 200000 : 20000;
                            r.seed = 23;
                            add(string("made-") + (cover ? "cover-" : "rand-") + (st ? "stateful-" : "") + c.name(), r, [=] { natural(c, { -0.5, 0, 0.3, 0.5, 0.9, 1 }, cover); });
                        }
                    }
    // recurrent memory: the condition is judged from the state it has, step by step
    for (int type : { RECURRENT, LSTM })
        for (int cond : { COND_TYPE_NEURAL, RULE_TYPE_NEURAL }) {
            Cfg c;
            c.cond = cond;
            c.pred = PRED_TYPE_CONSTANT;
            c.stateful = true;
            c.a = cond == RULE_TYPE_NEURAL ? 2 : 1;
            L h, out;
            h.type = type;
            h.n = 2;
            h.func = TANH;
            h.rfunc = LOGISTIC;
            out.n = c.a;
            out.func = LINEAR;
            c.cnet = { h, out };
            Opt r;
            r.bound = T ? 2 : 1;
            add(string("memory-") + (type == LSTM ? "lstm-" : "rnn-") + c.name(), r, [=] { natural(c, { -0.5, 0, 0.3, 1 }, false); });
        }
    for (auto &e : wide(false)) {
        if (e.c.pred != PRED_TYPE_NLMS_LINEAR && e.c.pred != PRED_TYPE_CONSTANT) continue;
        const Cfg c = e.c;
        Opt o;
        o.seed = 37;
        o.bound = 1;
        o.cap = T ? 0 : 3000;
        add("larger-" + e.name, o, [=] { larger(c, T ? 12 : 4); });
    }
}
