// C15: reinforcement learning applies the right targets at the right time.
#include "ref.hpp"
#include <fcntl.h>
#include <map>
#include <set>
#include <unistd.h>
extern "C" {
#include "xcsf/env.h"
}
using namespace xc;

static double lossf(const XCSF *s, double p, double y) { return ref::loss(s, { p }, { y }); }

struct Rule {
    double err, size;
    int exp, num, time, age, mtotal;
    double fit;
    V cond, act, pred;
};
static std::map<const Cl *, Rule> photo(const XCSF *s)
{
    std::map<const Cl *, Rule> m;
    for (Cl *c : rules(s->pset)) m[c] = { c->err, c->size, c->exp, c->num, c->time, c->age, c->mtotal, c->fit, dump_cond(s, c, false), dump_act(s, c, false), dump_pred(s, c, false) };
    return m;
}
// what a rule's model says, from its stored weights
static double says(const XCSF *s, const V &p, const V &x)
{
    if (s->pred->type == PRED_TYPE_CONSTANT) return p[0];
    double o = p[3] * s->pred->x0;
    for (int i = 0; i < s->x_dim; ++i) o += p[4 + (size_t) i] * x[(size_t) i];
    return o;
}
// the rule after one update towards y on input x, with the given set numerosity
static void expect(const XCSF *s, const Cl *c, const Rule &b, const V &x, double y, int set_num, const char *what)
{
    const double p = says(s, b.pred, x);
    const double e = lossf(s, p, y);
    const int exp = b.exp + 1;
    const double r = exp * s->BETA < 1 ? 1.0 / exp : s->BETA;
    if (c->exp != exp) mc::fail("experience", "%s: experience %d, expected %d", what, c->exp, exp);
    if (!near(c->err, b.err + r * (e - b.err), 1e-9, 1e-11))
        mc::fail("error", "%s: the rule predicted %.9g, target %.9g, its error went from %.9g to %.9g, expected %.9g", what, p, y, b.err, c->err, b.err + r * (e - b.err));
    if (!near(c->size, b.size + r * (set_num - b.size), 1e-9, 1e-11)) mc::fail("size", "%s: set size estimate %.9g, expected %.9g", what, c->size, b.size + r * (set_num - b.size));
    const V now = dump_pred(s, c, false);
    if (s->pred->type == PRED_TYPE_CONSTANT) {
        if (!near(now[0], p + r * (y - p), 1e-9, 1e-11)) mc::fail("model", "%s: constant %.9g moved to %.9g for the target %.9g, expected %.9g", what, p, now[0], y, p + r * (y - p));
    } else {
        const double eta = b.pred[2], n0 = s->pred->x0;
        double norm = n0 * n0;
        for (double v : x) norm += v * v;
        for (int i = 0; i <= s->x_dim; ++i) {
            const double f = i ? x[(size_t) i - 1] : n0;
            const double w = b.pred[3 + (size_t) i] + eta * (y - p) / norm * f;
            if (!near(now[3 + (size_t) i], w, 1e-9, 1e-11)) mc::fail("model", "%s: weight %d is %.9g, expected %.9g (predicted %.9g, target %.9g)", what, i, now[3 + (size_t) i], w, p, y);
        }
    }
}
static void untouched(const XCSF *s, const Cl *c, const Rule &b, const char *what)
{
    if (c->err != b.err || c->exp != b.exp || c->size != b.size || c->fit != b.fit || c->num != b.num || c->time != b.time || !bits_eq(b.pred, dump_pred(s, c, false)) || !bits_eq(b.cond, dump_cond(s, c, false)) || !bits_eq(b.act, dump_act(s, c, false)))
        mc::fail("untouched", "%s: a rule outside the updated action sets changed", what);
}
static void warm(XCSF *s, const Cfg &c)
{
    for (int i = 0; i < 2; ++i)
        for (int a = 0; a < c.a; ++a) {
            V x = sample(c, i);
            xcs_rl_fit(s, x.data(), a, 0.4 + 0.7 * a - 0.9 * i);
        }
}
// trials of up to `len` steps, evolution never due: every number is checked
static void numbers(const Cfg &c0, int len, int ntrials)
{
    Cfg c = c0;
    c.theta_ea = 1e9;
    c.pop = 200;
    XCSF *s = make(c);
    param_set_gamma(s, 0.7);
    param_set_p_explore(s, 1);
    warm(s, c);
    const double max_p = 4;
    for (int t = 0; t < ntrials; ++t) {
        const bool explore = mc::flip();
        const int steps = 1 + mc::choose(len);
        const bool ends = mc::flip();
        mc::log("trial %d: %s, %d steps, %s", t, explore ? "explore" : "exploit", steps, ends ? "ends" : "cut off");
        xcs_rl_init_trial(s);
        vector<const Cl *> prev;
        double prev_reward = 0, prev_pred = 0;
        V prev_x;
        double sys = s->error;
        int clock = s->time;
        for (int k = 0; k < steps; ++k) {
            const int op = mc::choose(2);
            const V x = sample(c, op);
            const double reward = k ? mc::pick({ 0, 1.5 }) : mc::pick({ 0, 1.5, -0.75 });
            const bool done = ends && k + 1 == steps;
            xcs_rl_init_step(s);
            param_set_explore(s, explore);
            const int a = xcs_rl_decision(s, x.data());
            if (a < 0 || a >= c.a) mc::fail("action", "decided for action %d of %d", a, c.a);
            V pa(s->pa, s->pa + s->pa_size);
            double best = pa[0];
            for (double v : pa) best = fmax(best, v);
            if (!explore && pa[(size_t) a] != best) mc::fail("greedy", "exploitation chose payoff %.9g, the best is %.9g", pa[(size_t) a], best);
            // the action set of this step
            vector<const Cl *> cur;
            int cur_num = 0;
            for (Cl *r : rules(s->mset))
                if (r->action == a) {
                    cur.push_back(r);
                    cur_num += r->num;
                }
            auto before = photo(s);
            int prev_num = 0;
            for (const Cl *r : prev) prev_num += r->num;
            V y = x; // the state may be overwritten by its owner afterwards
            xcs_rl_update(s, y.data(), a, reward, done);
            mc::step();
            if (s->pset.size != (int) before.size()) mc::fail("rules", "the population changed from %zu to %d rules although evolution was not due", before.size(), s->pset.size);
            const double target = prev_reward + s->GAMMA * best;
            for (Cl *r : rules(s->pset)) {
                if (!before.count(r)) mc::fail("rules", "a rule appeared");
                const Rule &b = before[r];
                const bool inp = std::find(prev.begin(), prev.end(), r) != prev.end();
                const bool inc = done && std::find(cur.begin(), cur.end(), r) != cur.end();
                if (inp && inc) { // twice: first as a member of the previous set
                    if (r->exp != b.exp + 2) mc::fail("experience", "a rule of both action sets gained %d units of experience", r->exp - b.exp);
                } else if (inp) {
                    expect(s, r, b, prev_x, target, prev_num, "previous action set");
                } else if (inc) {
                    expect(s, r, b, x, reward, cur_num, "final action set");
                } else {
                    untouched(s, r, b, done ? "final step" : "step");
                }
            }
            const int due = (prev.empty() ? 0 : 1) + (done ? 1 : 0);
            if (s->time - clock != (explore ? due : 0)) mc::fail("evolution", "%s with %d updated sets moved the clock of evolution by %d", explore ? "exploration" : "exploitation", due, s->time - clock);
            clock = s->time;
            // the recorded error
            const double pv = pa[(size_t) a];
            double e = 0;
            if (!prev.empty()) e += lossf(s, prev_pred, prev_reward + s->GAMMA * pv) / max_p;
            if (done) e += lossf(s, pv, reward) / max_p;
            const double got = xcs_rl_error(s, a, reward, done, max_p);
            if (!near(got, e, 1e-9, 1e-12)) mc::fail("step-error", "step %d: error %.9g, expected %.9g", k, got, e);
            sys += (e - sys) * s->BETA;
            if (!near(s->error, sys, 1e-9, 1e-12)) mc::fail("system-error", "step %d: system error %.9g, expected %.9g", k, s->error, sys);
            xcs_rl_end_step(s, y.data(), a, reward);
            for (double &v : y) v = -99;
            prev = cur;
            prev_reward = reward;
            prev_pred = pv;
            prev_x = x;
            mc::state(hash_pop(s) ^ (uint64_t) k);
        }
        xcs_rl_end_trial(s);
        mc::validated();
    }
    mc::outcome(hash_pop(s));
    destroy(s);
}
// evolution and deletion in the middle of trials
static void evolving(const Cfg &c0, int steps, int before = 0)
{
    Cfg c = c0;
    c.theta_ea = 0;
    XCSF *s = make(c);
    if (before) grow(s, c, before, 2);
    param_set_gamma(s, 0.7);
    param_set_p_explore(s, 0.5);
    warm(s, c);
    const bool explore = mc::flip();
    xcs_rl_init_trial(s);
    bool first = true;
    for (int k = 0; k < steps; ++k) {
        const V x = sample(c, mc::choose(2));
        const bool done = k + 1 == steps;
        xcs_rl_init_step(s);
        param_set_explore(s, explore);
        mc::branch(k + 1 == steps);
        const int a = xcs_rl_decision(s, x.data());
        const int clock = s->time;
        const auto b = photo(s);
        vector<Cl *> before = rules(s->prev_aset);
        xcs_rl_update(s, x.data(), a, k, done);
        mc::branch(false);
        if (explore) { // evolution is always due here: it stamps the sets that were updated
            std::set<const Cl *> alive;
            for (Cl *r : rules(s->pset)) alive.insert(r);
            if (done)
                for (Cl *r : rules(s->aset)) before.push_back(r);
            for (Cl *r : before)
                if (alive.count(r) && b.count(r) && r->time <= clock) mc::fail("evolve-set", "step %d%s: a rule of an updated action set did not take part in evolution", k, done ? " (last)" : "");
        }
        xcs_rl_error(s, a, k, done, 1);
        mc::step();
        if (!explore) {
            if (s->time != clock) mc::fail("exploit", "evolution ran in exploitation");
            for (Cl *r : rules(s->pset))
                if (!b.count(r)) mc::fail("exploit-new", "exploitation created a rule after its decision");
        } else {
            const int lo = (done ? 1 : 0), hi = lo + (first ? 0 : 1);
            if (s->time - clock < lo || s->time - clock > hi) mc::fail("clock", "the clock of evolution moved by %d, expected %d to %d", s->time - clock, lo, hi);
        }
        int num = 0, n = 0;
        for (Cl *r : rules(s->pset)) {
            num += r->num;
            ++n;
        }
        if (num != s->pset.num || n != s->pset.size || num > c.pop) mc::fail("counts", "population of %d rules, numerosity %d (limit %d), reported %d and %d", n, num, c.pop, s->pset.size, s->pset.num);
        xcs_rl_end_step(s, x.data(), a, k);
        first = false;
        mc::state(hash_pop(s));
    }
    xcs_rl_end_trial(s);
    mc::outcome(hash_pop(s));
    destroy(s);
}
// a single-step fit is a one-step trial with the given action and reward
static void single(const Cfg &c, int depth, int before = 0)
{
    XCSF *s = make(c), *t = nullptr;
    mc::RngState r0;
    (void) r0;
    mc::seed_stream(77);
    mc::flush_normal();
    destroy(s);
    mc::seed_stream(77);
    mc::flush_normal();
    s = make(c);
    mc::seed_stream(77);
    mc::flush_normal();
    t = make(c);
    for (XCSF *u : { s, t }) {
        mc::seed_stream(78);
        mc::flush_normal();
        grow(u, c, before, 2);
    }
    for (int i = 0; i < depth; ++i) {
        const V x = sample(c, mc::choose(3));
        const int a = mc::choose(c.a);
        const double reward = mc::pick({ 0, 1.5, -0.5 });
        const uint64_t st = 1000 + (uint64_t) i;
        mc::seed_stream(st);
        mc::flush_normal();
        const double sys = s->error;
        const double e = xcs_rl_fit(s, x.data(), a, reward);
        mc::step();
        mc::seed_stream(st);
        mc::flush_normal();
        param_set_explore(t, true);
        xcs_rl_init_trial(t);
        xcs_rl_init_step(t);
        clset_match(t, x.data(), true);
        pa_build(t, x.data());
        const double p = t->pa[a];
        xcs_rl_update(t, x.data(), a, reward, true);
        xcs_rl_end_step(t, x.data(), a, reward);
        xcs_rl_end_trial(t);
        const double want = lossf(t, p, reward);
        if (!near(e, want, 1e-9, 1e-12)) mc::fail("fit-error", "fit returned %.9g, the loss of payoff %.9g for reward %.9g is %.9g", e, p, reward, want);
        if (!near(s->error, sys + s->BETA * (want - sys), 1e-9, 1e-12)) mc::fail("fit-system", "system error %.9g, expected %.9g", s->error, sys + s->BETA * (want - sys));
        const auto A = snap_pop(s), B = snap_pop(t);
        if (A.size() != B.size()) mc::fail("fit-size", "fit left %zu rules, the one-step trial %zu", A.size(), B.size());
        for (size_t k = 0; k < A.size(); ++k) {
            const string d = diff(A[k], B[k]);
            if (!d.empty()) mc::fail("fit-rule", "fit and the one-step trial differ: rule %zu %s", k, d.c_str());
        }
        mc::state(hash_pop(s));
        mc::validated();
    }
    destroy(s);
    destroy(t);
}
// ---- whole experiments on a scripted problem ----
struct Plan {
    int ends; // step at which the problem ends (0: never)
    double reward;
};
static vector<Plan> plan;
static int at_trial, at_step, n_resets, n_exec, n_state, n_dec_wrong;
static bool multi;
static V buf;
static vector<bool> modes;
static vector<int> lens;
static vector<V> step_errors; // per trial: the error of every step, read off the running average
static double seen_error;
static void note(const XCSF *s)
{
    if (!lens.empty() && lens.back() > (int) step_errors.back().size()) {
        step_errors.back().push_back(seen_error + (s->error - seen_error) / s->BETA);
        seen_error = s->error;
    }
}
static bool w_done(const XCSF *) { const Plan &p = plan[(size_t) at_trial % plan.size()]; return p.ends && at_step >= p.ends; }
static bool w_multi(const XCSF *) { return multi; }
static double w_exec(const XCSF *s, const int a)
{
    if (a < 0 || a >= s->n_actions) mc::fail("exp-action", "executed action %d", a);
    ++n_exec;
    ++at_step;
    ++lens.back();
    const Plan &p = plan[(size_t) at_trial % plan.size()];
    return p.ends && at_step >= p.ends ? p.reward : 0;
}
static double w_max(const XCSF *) { return 2; }
static const double *w_state(const XCSF *s)
{
    ++n_state;
    note(s);
    for (int i = 0; i < s->x_dim; ++i) buf[(size_t) i] = at_step % 2 ? 0.8 - 0.3 * i : 0.1 + 0.3 * i;
    if (modes.size() < lens.size()) modes.push_back(s->explore);
    else if (modes.back() != s->explore) mc::fail("exp-mode", "the mode changed within a trial");
    return buf.data();
}
static void w_free(const XCSF *) { }
static void w_reset(const XCSF *s)
{
    note(s);
    step_errors.push_back(V());
    if (n_resets++) ++at_trial;
    at_step = 0;
    lens.push_back(0);
}
static const EnvVtbl VT = { w_done, w_multi, w_exec, w_max, w_state, w_free, w_reset };

static void experiment(const Cfg &c)
{
    XCSF *s = make(c);
    s->env_vptr = &VT;
    s->env = nullptr;
    multi = mc::flip();
    const int tele = 1 + mc::choose(3), trials = 1 + mc::choose(2);
    param_set_teletransportation(s, tele);
    param_set_max_trials(s, trials);
    plan.clear();
    for (int i = 0; i < 2 * trials; ++i) {
        static const Plan P[] = { { 1, 1 }, { 1, 0 }, { 2, 2 }, { 3, 1 }, { 0, 0 } };
        plan.push_back(P[mc::choose(multi ? 5 : 2)]);
    }
    at_trial = at_step = n_resets = n_exec = n_state = 0;
    modes.clear();
    lens.clear();
    step_errors.clear();
    seen_error = s->error;
    buf.assign((size_t) c.x, 0);
    const double perf = xcs_rl_exp(s);
    mc::step();
    if (n_resets != 2 * trials) mc::fail("exp-trials", "%d trials requested: %d were started, expected one exploring and one exploiting each", trials, n_resets);
    double want = 0;
    for (int i = 0; i < n_resets; ++i) {
        const Plan &p = plan[(size_t) i];
        const int len = p.ends && p.ends <= tele ? p.ends : tele;
        if (lens[(size_t) i] != len) mc::fail("exp-steps", "trial %d took %d steps; the problem ends after %d, the limit is %d", i, lens[(size_t) i], p.ends, tele);
        if (modes[(size_t) i] != (i % 2 == 0)) mc::fail("exp-alternate", "trial %d ran in the wrong mode", i);
        if (i % 2) want += multi ? len : (p.ends && p.ends <= tele && p.reward > 0 ? 1 : 0);
    }
    want /= trials;
    if (!near(perf, want, 1e-12)) mc::fail("exp-performance", "performance %.9g, expected %.9g", perf, want);
    if (n_state != n_exec) mc::fail("exp-state", "%d states were read for %d steps", n_state, n_exec);
    mc::Hash h;
    h.d(perf);
    h.i(n_exec);
    mc::outcome(h.h);
    mc::state(hash_pop(s));
    mc::validated();
    destroy(s);
}

// the performance lines an experiment prints: one trial per line, so that the mean error of a trial can be read
static void printed(const Cfg &c)
{
    XCSF *s = make(c);
    s->env_vptr = &VT;
    s->env = nullptr;
    multi = true;
    const int tele = 2 + mc::choose(3), trials = 4;
    param_set_teletransportation(s, tele);
    param_set_max_trials(s, trials);
    param_set_perf_trials(s, 1);
    static const Plan P[] = { { 1, 1 }, { 2, 2 }, { 3, 1 }, { 0, 0 }, { 5, 0.5 } };
    plan.clear();
    const int a = mc::choose(5), b = mc::choose(5), e = mc::choose(5);
    for (int i = 0; i < 2 * trials; ++i) plan.push_back(P[i % 2 ? (i % 4 == 1 ? a : b) : e]);
    at_trial = at_step = n_resets = n_exec = n_state = 0;
    modes.clear();
    lens.clear();
    step_errors.clear();
    seen_error = s->error;
    buf.assign((size_t) c.x, 0);
    char path[64];
    snprintf(path, sizeof path, "/tmp/xcsf_c15_%d", (int) getpid());
    fflush(stdout);
    const int keep = dup(1), fd = open(path, O_CREAT | O_TRUNC | O_RDWR, 0600);
    if (keep < 0 || fd < 0) mc::fail("harness", "no scratch file");
    dup2(fd, 1);
    xcs_rl_exp(s);
    fflush(stdout);
    dup2(keep, 1);
    close(keep);
    note(s);
    string text;
    char b1[256];
    lseek(fd, 0, SEEK_SET);
    for (ssize_t n; (n = read(fd, b1, sizeof b1)) > 0;) text.append(b1, (size_t) n);
    close(fd);
    unlink(path);
    std::map<int, std::pair<double, double>> got;
    for (size_t at = 0; at < text.size();) {
        const size_t end = text.find('\n', at);
        int t;
        double q, r;
        if (sscanf(text.c_str() + at, "%d %lf %lf", &t, &q, &r) == 3) got[t] = { q, r };
        if (end == string::npos) break;
        at = end + 1;
    }
    for (int t = 2; t < trials; ++t) { // from the second line on each line covers one trial
        if (!got.count(t)) mc::fail("printed", "no performance line for trial %d in: %s", t, text.c_str());
        const V &w = step_errors[(size_t) (2 * t + 1)];
        double m = 0;
        for (double v : w) m += v;
        m /= (double) w.size();
        if (fabs(got[t].first - lens[(size_t) (2 * t + 1)]) > 2e-5 || fabs(got[t].second - m) > 2e-5)
            mc::fail("printed", "trial %d took %d steps with mean error %.6g, printed as %.6g and %.6g", t, lens[(size_t) (2 * t + 1)], m, got[t].first, got[t].second);
        mc::step();
    }
    mc::state(hash_pop(s));
    mc::validated();
    destroy(s);
}
void mc::scenarios()
{
    const bool T = thorough();
    for (int cond : { COND_TYPE_DUMMY, COND_TYPE_HYPERRECTANGLE_CSR, COND_TYPE_HYPERRECTANGLE_UBR, COND_TYPE_TERNARY, COND_TYPE_HYPERELLIPSOID })
        for (int pred : { PRED_TYPE_CONSTANT, PRED_TYPE_NLMS_LINEAR })
            for (int loss : { LOSS_MAE, LOSS_MSE }) {
                if (loss == LOSS_MSE && cond != COND_TYPE_HYPERRECTANGLE_CSR) continue;
                Cfg c;
                c.cond = cond;
                c.pred = pred;
                c.loss = loss;
                c.x = 2;
                c.a = 2;
                c.beta = 0.3;
                c.tweak = [](XCSF *s) { pred_param_set_evolve_eta(s, false); };
                Opt o;
                o.seed = 151;
                o.leak = true;
                const string nm = string(cond_name(cond)) + "-" + pred_name(pred) + (loss == LOSS_MSE ? "-mse" : "");
                add("numbers-" + nm, o, [=] { numbers(c, T ? 4 : 3, 1); });
                add("two-trials-" + nm, o, [=] { numbers(c, T ? 2 : 2, 2); });
                Cfg d = c;
                d.a = 3;
                add("numbers-3a-" + nm, o, [=] { numbers(d, 3, 1); });
                d.a = 7;
                d.x = 6;
                if (loss == LOSS_MAE) add("numbers-7a-" + nm, o, [=] { numbers(d, 2, 1); });
            }
    for (auto &e : catalog(true, 2)) {
        Opt o;
        o.seed = 152;
        o.leak = true;
        o.bound = T ? 2 : 1;
        o.cap = T ? 40000 : 2500;
        Cfg c = e.c;
        c.subs = true;
        c.setsubs = true;
        c.theta_sub = 0;
        c.e0 = 0.5;
        add("evolving-" + e.name, o, [=] { evolving(c, T ? 4 : 3); });
        Opt f;
        f.seed = 153;
        f.leak = true;
        add("fit-" + e.name, f, [=] { single(c, T ? 3 : 2); });
    }
    for (int pop : { 3, 20 }) {
        Cfg c;
        c.x = 2;
        c.a = 2;
        c.pop = pop;
        Opt o;
        o.seed = 154;
        o.leak = true;
        add("experiment-" + std::to_string(pop), o, [=] { experiment(c); });
        c.beta = 0.5;
        add("printed-" + std::to_string(pop), o, [=] { printed(c); });
    }
    for (auto &e : wide(true)) {
        const Cfg c = e.c;
        if (c.y > 1) continue;
        Opt o;
        o.seed = 157;
        o.leak = true;
        add("evolving-" + e.name, o, [=] { evolving(c, T ? 6 : 4, T ? 200 : 40); });
        add("fit-" + e.name, o, [=] { single(c, 1, T ? 200 : 40); });
    }
}
