// C14: results do not depend on thread count or scheduling.
#include "vt.hpp"
#include "xc.hpp"
using namespace xc;

// what a run leaves behind: every rule in list order, what it answered, how far the random stream moved
struct Out {
    vector<Snap> pop;
    V said;
    uint64_t rng;
};
static const char *NAME[] = { "fit a", "fit b", "predict", "score", "reinforce", "trial" };
// one whole history with the given number of threads
static Out history(const Cfg &c, const vector<int> &ops, int threads)
{
    XCSF *s = make(c);
    param_set_omp_num_threads(s, threads);
    Out o;
    for (int op : ops) {
        switch (op) {
            case 0:
            case 1: o.said.push_back(fit1(s, sample(c, op), target(c, op))); break;
            case 2: {
                V x, fb((size_t) s->pa_size, -7.5), out((size_t) s->pa_size * 3, 9);
                for (int i = 0; i < 3; ++i) {
                    const V v = sample(c, i + 1);
                    x.insert(x.end(), v.begin(), v.end());
                }
                xcs_supervised_predict(s, x.data(), out.data(), 3, fb.data());
                o.said.insert(o.said.end(), out.begin(), out.end());
                break;
            }
            case 3: {
                V x, y, fb((size_t) s->pa_size, 0.25);
                for (int i = 0; i < 3; ++i) {
                    const V v = sample(c, i), t = target(c, i);
                    x.insert(x.end(), v.begin(), v.end());
                    y.insert(y.end(), t.begin(), t.end());
                }
                Data d(s->x_dim, s->y_dim, x, y);
                o.said.push_back(xcs_supervised_score(s, &d.in, fb.data()));
                break;
            }
            case 4: {
                const V x = sample(c, 2);
                o.said.push_back(xcs_rl_fit(s, x.data(), c.a - 1, 0.7));
                break;
            }
            case 5: { // two steps of a multi-step trial
                xcs_rl_init_trial(s);
                s->explore = true;
                for (int i = 0; i < 2; ++i) {
                    const V x = sample(c, i);
                    xcs_rl_init_step(s);
                    const int a = xcs_rl_decision(s, x.data());
                    o.said.push_back(a);
                    const double r = i ? 1 : 0.1;
                    xcs_rl_update(s, x.data(), a, r, i == 1);
                    o.said.push_back(xcs_rl_error(s, a, r, i == 1, 1));
                    xcs_rl_end_step(s, x.data(), a, r);
                }
                xcs_rl_end_trial(s);
                break;
            }
        }
    }
    o.pop = snap_pop(s);
    o.rng = mc::rng_save().s;
    destroy(s);
    return o;
}
static void compare(const Out &want, const Out &got, const char *how)
{
    if (!bits_eq(want.said, got.said)) {
        size_t i = 0;
        while (i < want.said.size() && i < got.said.size() && (want.said[i] == got.said[i] || std::isnan(want.said[i]))) ++i;
        mc::fail("answers", "%s: answer %zu is %.17g, with one thread %.17g", how, i, i < got.said.size() ? got.said[i] : NAN, i < want.said.size() ? want.said[i] : NAN);
    }
    if (want.pop.size() != got.pop.size()) mc::fail("rules", "%s: %zu rules, with one thread %zu", how, got.pop.size(), want.pop.size());
    for (size_t i = 0; i < want.pop.size(); ++i) {
        const string d = diff(want.pop[i], got.pop[i]);
        if (!d.empty()) mc::fail("rules", "%s: rule %zu differs from the run with one thread: %s", how, i, d.c_str());
        if (want.pop[i].action != got.pop[i].action || !bits_eq(want.pop[i].prediction, got.pop[i].prediction)) mc::fail("rules", "%s: rule %zu holds another action or prediction", how, i);
    }
    if (want.rng != got.rng) mc::fail("draws", "%s: a different number of random draws", how);
}
static void body(const Cfg &c, vector<int> ops, int depth, int delays, bool rl)
{
    for (int i = 0; i < depth; ++i) {
        // 0 fit, 1 fit, 2 predict, 3 score, 4/5 reinforcement
        ops.push_back(mc::choose(rl ? 6 : 4));
    }
    for (int op : ops) mc::log("%s", NAME[op]);
    static const int TH[] = { 2, 3, 4, 16 };
    const int threads = TH[mc::choose(4)];
    const auto r = mc::rng_save();
    auto again = [&] {
        mc::rng_restore(r);
        mc::flush_normal();
        mc::rng_restore(r);
    };
    again();
    vt::begin(0, 0);
    const Out want = history(c, ops, 1);
    vt::end();
    bool sync = false;
    for (int order = 0; order < 2; ++order) {
        again();
        vt::begin(order, 0);
        const Out got = history(c, ops, threads);
        const vt::Stats st = vt::end();
        char how[80];
        snprintf(how, sizeof(how), "%d threads, %s order", threads, order ? "descending" : "ascending");
        if (st.racy) mc::fail("race", "%s: %s", how, st.race.c_str());
        compare(want, got, how);
        sync |= st.ordered > 0;
        mc::validated();
        mc::Hash h;
        h.i(st.regions);
        h.i(threads);
        h.i(st.accesses);
        h.v(got.said);
        mc::state(h.h);
        mc::outcome(h.h ^ (uint64_t) order);
        if (order == 0) mc::log("%d threads: %ld regions, %ld accesses to %ld shared words, no conflicts", threads, st.regions, st.accesses, st.granules);
    }
    if (sync && delays) { // the threads synchronise: independence does not hold, enumerate schedules
        again();
        vt::begin(2, delays);
        const Out got = history(c, ops, threads);
        vt::end();
        compare(want, got, "explored schedule");
        mc::outcome(mc::draws() > 0 ? 5 : 6);
    }
}

void mc::scenarios()
{
    const bool T = thorough();
    auto cat = catalog(true);
    for (size_t i = 0; i < cat.size(); ++i) {
        auto &e = cat[i];
        Cfg c = e.c;
        c.pop = 8;
        c.pop_init = true;
        c.subs = i % 2;
        c.setsubs = i % 3 == 0;
        c.tweak = [](XCSF *s) { cond_param_set_spread_min(s, 1); }; // wide rules: large match sets
        const bool rl = c.a > 1 && c.y == 1;
        Opt o;
        o.seed = 141 + i;
        add(e.name, o, [=] { body(c, {}, (T ? 5 : 4) - (c.x == 4), 0, rl); });
        // schedules, where synchronised accesses make their order matter
        o.cap = T ? 50000 : 1500;
        add("schedules-" + e.name, o, [=] { body(c, rl ? vector<int>{ 5, 0 } : vector<int>{ 0, 2 }, 0, T ? 3 : 2, rl); });
    }
    for (auto &e : wide(true)) {
        Cfg c = e.c;
        c.pop_init = true;
        const bool rl = c.a > 1 && c.y == 1;
        Opt o;
        o.seed = 149;
        add(e.name, o, [=] { body(c, {}, T ? 3 : 2, 0, rl); });
    }
}
