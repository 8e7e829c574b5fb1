// C01: population bookkeeping is exact, bounded and leak-free.
#include "xc.hpp"
#include <set>
#include <unistd.h>
using namespace xc;

static void check_pop(const XCSF *s, const char *where)
{
    std::set<const Cl *> seen;
    int size = 0, num = 0;
    for (const Cl *c : rules(s->pset)) {
        if (!c) mc::fail("null", "after %s: the population lists a null rule", where);
        if (!seen.insert(c).second) mc::fail("duplicate", "after %s: a rule is listed twice", where);
        if (c->num < 1) mc::fail("numerosity", "after %s: a rule has numerosity %d", where, c->num);
        ++size;
        num += c->num;
        // touch everything, so that a released rule is noticed
        hash_cl(s, c, *new (alloca(sizeof(mc::Hash))) mc::Hash);
    }
    if (size != s->pset.size) mc::fail("size", "after %s: reported %d rules, listed %d", where, s->pset.size, size);
    if (num != s->pset.num) mc::fail("num", "after %s: reported total numerosity %d, listed %d", where, s->pset.num, num);
    if (num > s->POP_SIZE) mc::fail("limit", "after %s: total numerosity %d exceeds the maximum %d", where, num, s->POP_SIZE);
    mc::state(hash_pop(s));
    mc::step();
}

static const vector<V> XS = { { 0.1, 0.2, 0.9 }, { 0.8, 0.9, 0.1 }, { 0.5, 0.5, 0.5 } };

static V input(const Cfg &c, int i) { if (c.x > 3) return sample(c, i); return V(XS[(size_t) i].begin(), XS[(size_t) i].begin() + c.x); }

// operations of the history; every operation leaves the population in a state check_pop can judge
enum { FIT0, FIT1, PRED, RLEX, RLMULTI, INSERT, STORE, RETR, SAVE, NOPS };
static const char *ONAME[] = { "fit a", "fit b", "predict with covering", "single-step reinforcement", "multi-step trial", "insert exported rule", "store", "retrieve", "save+load" };

static void do_op(XCSF *s, const Cfg &c, int op)
{
    mc::log("%s", ONAME[op]);
    V y1(c.y, 0.3), y2(c.y, -1.0);
    switch (op) {
        case FIT0: fit1(s, input(c, 0), y1); break;
        case FIT1: fit1(s, input(c, 1), y2); break;
        case PRED: {
            V x = input(c, 2), p(c.a * c.y);
            xcs_supervised_predict(s, x.data(), p.data(), 1, nullptr);
            break;
        }
        case RLEX: {
            V x = input(c, 0);
            xcs_rl_fit(s, x.data(), c.a - 1, 0.7);
            break;
        }
        case RLMULTI: {
            param_set_explore(s, true);
            xcs_rl_init_trial(s);
            for (int t = 0; t < 3; ++t) {
                V x = input(c, t);
                xcs_rl_init_step(s);
                const int a = xcs_rl_decision(s, x.data());
                xcs_rl_update(s, x.data(), a, 0.5, t == 2);
                xcs_rl_error(s, a, 0.5, t == 2, 1);
                xcs_rl_end_step(s, x.data(), a, 0.5);
                check_pop(s, "a reinforcement step");
            }
            xcs_rl_end_trial(s);
            break;
        }
        case INSERT: {
            if (s->pset.size > 0) {
                char *j = clset_json_export(s, &s->pset, true, true, true);
                clset_json_insert(s, j);
                free(j);
            }
            break;
        }
        case STORE: xcsf_store_pset(s); break;
        case RETR: xcsf_retrieve_pset(s); break;
        case SAVE: {
            char f[64];
            snprintf(f, sizeof(f), "c01.%d.bin", (int) getpid());
            xcsf_save(s, f);
            xcsf_load(s, f);
            unlink(f);
            break;
        }
    }
    check_pop(s, ONAME[op]);
}

static bool importable(const Cfg &c)
{
    return c.cond != COND_TYPE_GP && c.cond != COND_TYPE_NEURAL && c.cond != RULE_TYPE_NEURAL && c.pred != PRED_TYPE_NEURAL && c.act != ACT_TYPE_NEURAL;
}

static void history(const Cfg &c, const vector<int> &ops, int depth, int warm, bool branch_last)
{
    {
        XCSF *s = make(c);
        check_pop(s, "init");
        if (c.x > 3) {
            const int pattern = mc::choose(4);
            for (int i = 0; i < warm; i += 10) {
                grow(s, c, 10, pattern);
                check_pop(s, "learning");
            }
        } else {
            for (int i = 0; i < warm; ++i) do_op(s, c, i % 2 ? FIT1 : FIT0);
        }
        for (int d = 0; d < depth; ++d) {
            const int op = ops[(size_t) mc::choose((int) ops.size())];
            mc::branch(branch_last);
            do_op(s, c, op);
            mc::branch(false);
        }
        mc::outcome(hash_pop(s));
        mc::validated();
        destroy(s);
    }
}

void mc::scenarios()
{
    const bool T = thorough();
    // (a) all operation sequences, every representation
    for (int cond : ALL_CONDS) {
        for (int pred : ALL_PREDS) {
            for (int a : { 1, 2 }) {
                for (int act : { ACT_TYPE_INTEGER, ACT_TYPE_NEURAL }) {
                    if (act == ACT_TYPE_NEURAL && (a == 1 || pred != PRED_TYPE_NLMS_LINEAR)) continue;
                    Cfg c;
                    c.cond = cond;
                    c.pred = pred;
                    c.act = act;
                    c.a = a;
                    c.x = 2;
                    c.y = a == 1 ? 2 : 1;
                    c.pop = a == 1 ? 3 : 4;
                    c.subs = c.setsubs = true;
                    c.tweak = [](XCSF *s) { param_set_theta_sub(s, 0); };
                    vector<int> ops = a == 1 ? vector<int>{ FIT0, FIT1, PRED, STORE, RETR, SAVE } : vector<int>{ FIT0, PRED, RLEX, RLMULTI, STORE, RETR, SAVE };
                    if (a == 2 && c.y != 1) ops.erase(ops.begin() + 2, ops.begin() + 4);
                    if (importable(c)) ops.push_back(INSERT);
                    Opt o;
                    const int depth = T ? 5 : 3;
                    o.seed = 3;
                    o.leak = true;
                    add("ops-" + c.name(), o, [=] { history(c, ops, depth, 0, false); });
                    // (b) random deviations in every operation after a warm start at the limit
                    Opt r;
                    r.bound = T ? 2 : 1;
                    r.cap = T ? 100000 : 10000;
                    r.seed = 5;
                    r.leak = true;
                    r.alpha = T ? V{ 1e-9, 0.25, 0.5, 0.75, 1 - 1e-9 } : V{ 1e-9, 0.5, 1 - 1e-9 };
                    vector<int> ops2 = a == 1 ? vector<int>{ FIT0, PRED } : vector<int>{ FIT0, RLEX, RLMULTI };
                    if (pred == PRED_TYPE_CONSTANT || pred == PRED_TYPE_NEURAL || T)
                        add("rng-" + c.name(), r, [=] { history(c, ops2, 1, 4, true); });
                }
            }
        }
    }
    // (c) subsumption / compaction / probation / selection switches on two simple representations
    for (int cond : { COND_TYPE_HYPERRECTANGLE_UBR, COND_TYPE_TERNARY, COND_TYPE_DUMMY }) {
        for (int m = 0; m < 32; ++m) {
            Cfg c;
            c.cond = cond;
            c.pred = PRED_TYPE_CONSTANT;
            c.a = 2;
            c.pop = 1 + (m % 3) * 2;
            if (c.pop < 2) c.pop = 2;
            c.subs = m & 1;
            c.setsubs = m & 2;
            c.compaction = m & 4;
            c.select = m & 8 ? EA_SELECT_TOURNAMENT : EA_SELECT_ROULETTE;
            c.lambda = m & 16 ? 4 : 2;
            c.m_prob = m & 1 ? 0 : 10000;
            c.e0 = 0.9;
            c.pop_init = m & 8;
            c.tweak = [](XCSF *s) { param_set_theta_sub(s, 0); };
            Opt o;
            o.bound = T ? 2 : 1;
            o.cap = T ? 200000 : 15000;
            o.seed = 11 + m;
            o.leak = true;
            add("sw-" + std::to_string(m) + "-" + c.name(), o, [=] { history(c, { FIT0, FIT1, RLEX, RLMULTI, INSERT }, T ? 3 : 2, 2, true); });
        }
    }
    // (d) larger systems after longer histories
    for (auto &e : wide(true)) {
        Cfg c = e.c;
        vector<int> ops = { FIT0, PRED, STORE, RETR, SAVE };
        if (e.importable) ops.push_back(INSERT);
        if (c.y == 1) ops.push_back(RLMULTI);
        c.setsubs = c.a > 1;
        Opt o;
        o.seed = 29;
        o.leak = true;
        for (int n : T ? vector<int>{ 60, 300, 2000 } : vector<int>{ 60 })
            add("long" + std::to_string(n) + "-" + e.name, o, [=] { history(c, ops, T ? 3 : 2, n, false); });
    }
}
