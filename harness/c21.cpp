// C21: losses and scores equal their mathematical definitions.
#include "ref.hpp"
#include <set>
#include <unistd.h>
using namespace xc;

static double real_loss(XCSF *s, const V &p, const V &y) { return s->loss_ptr(s, p.data(), y.data()); }
static void check_loss(XCSF *s, const V &p, const V &y, const char *how)
{
    const double got = real_loss(s, p, y), want = ref::loss(s, p, y);
    if (!near(got, want, 1e-12, 1e-14)) mc::fail("loss", "%s: the %s loss of %s for the target %s is %.15g, not %.15g", how, loss_type_as_string(s->LOSS_FUNC), str(p).c_str(), str(y).c_str(), got, want);
    if (!std::isfinite(got)) mc::fail("finite", "%s: the loss is not finite", how);
    mc::step();
}
static const vector<int> LOSSES = { LOSS_MAE, LOSS_MSE, LOSS_RMSE, LOSS_LOG, LOSS_BINARY_LOG, LOSS_ONEHOT, LOSS_HUBER };

static V system_out(XCSF *s, const V &x, const V &fb)
{
    V o((size_t) s->pa_size);
    xcs_supervised_predict(s, x.data(), o.data(), 1, fb.data());
    return o;
}
static V goal(const XCSF *s, int i)
{
    V y((size_t) s->y_dim, 0);
    const bool prob = s->LOSS_FUNC == LOSS_LOG || s->LOSS_FUNC == LOSS_BINARY_LOG || s->LOSS_FUNC == LOSS_ONEHOT;
    if (prob) y[(size_t) (i % s->y_dim)] = 1;
    else
        for (int k = 0; k < s->y_dim; ++k) y[(size_t) k] = 0.3 * i - 0.8 * k;
    return y;
}
// a trained system and a data set; the mean over its rows
static void scores(const Cfg &c, bool sampled, int many = 0)
{
    XCSF *s = make(c);
    const int hist = mc::choose(4);
    for (int k = 0; k < 2; ++k) fit1(s, sample(c, (hist >> k) & 1), target(c, k));
    const int rows = many ? many : 1 + mc::choose(sampled ? 3 : 4);
    V x, y, fb((size_t) s->pa_size, 0.25), ls;
    for (int i = 0; i < rows; ++i) {
        const int k = sampled || many ? i : mc::choose(3);
        const V a = sample(c, k), b = goal(s, k + i);
        x.insert(x.end(), a.begin(), a.end());
        y.insert(y.end(), b.begin(), b.end());
        V o = system_out(s, a, fb);
        o.resize((size_t) s->y_dim);
        ls.push_back(ref::loss(s, o, b));
        mc::log("row %d loss %g ", k, ls.back());
    }
    Data d(s->x_dim, s->y_dim, x, y);
    double mean = 0;
    for (double l : ls) mean += l / rows;
    if (!sampled) {
        const double got = xcs_supervised_score(s, &d.in, fb.data());
        if (!near(got, mean, 1e-11, 1e-13)) mc::fail("score", "the score is %.15g, the mean loss %.15g", got, mean);
        for (int n : { rows + 1, rows + 7 }) {
            const double g = xcs_supervised_score_n(s, &d.in, n, fb.data());
            if (!near(g, mean, 1e-11, 1e-13)) mc::fail("score-all", "the score of %d of %d rows is %.15g, the mean loss of all rows %.15g", n, rows, g, mean);
        }
        mc::validated();
    } else {
        const int n = 1 + mc::choose(rows);
        mc::free_draws(true);
        const double g = xcs_supervised_score_n(s, &d.in, n, fb.data());
        mc::free_draws(false);
        // it has to be the mean of n rows
        bool found = false;
        int total = 1;
        for (int i = 0; i < n; ++i) total *= rows;
        for (int k = 0; k < total && !found; ++k) {
            double m = 0;
            for (int i = 0, q = k; i < n; ++i, q /= rows) m += ls[(size_t) (q % rows)] / n;
            found = near(g, m, 1e-11, 1e-13);
        }
        if (!found) mc::fail("sampled", "the score of %d of %d rows is %.15g, which is not the mean loss of %d of the rows", n, rows, g, n);
        // one row sampled: every row can be the one, and about equally often
        std::map<int, int> seen;
        int ambiguous = 0;
        const int G = 60;
        for (int k = 0; k < G; ++k) {
            mc::script({ (k + 0.5) / G });
            const double one = xcs_supervised_score_n(s, &d.in, 1, fb.data());
            mc::script({});
            int who = -1, many = 0;
            for (int i = 0; i < rows; ++i)
                if (near(one, ls[(size_t) i], 1e-11, 1e-13)) {
                    who = i;
                    ++many;
                }
            if (!many) mc::fail("sampled-one", "the score of one of %d rows is %.15g, the loss of no row", rows, one);
            if (many > 1) ++ambiguous;
            else ++seen[who];
        }
        if (!ambiguous)
            for (int i = 0; i < rows; ++i)
                if (fabs(seen[i] - (double) G / rows) > 1.01) mc::fail("sampled-share", "sampling one of %d rows over %d evenly spaced draws gives row %d %d times", rows, G, i, seen[i]);
        mc::Hash h;
        h.d(rows); h.d(n); h.d(g);
        mc::outcome(h.h);
    }
    mc::step();
    destroy(s);
}
// running error and the value fitting returns
static void running(const Cfg &c, int depth, int warm = 0)
{
    XCSF *s = make(c);
    if (warm) grow(s, c, warm, mc::choose(4));
    const V fb((size_t) s->pa_size, 123);
    double sum = 0;
    int n = 0;
    for (int k = 0; k < depth; ++k) {
        const int op = mc::choose(c.a > 1 && c.y == 1 ? 4 : 3);
        mc::log("%s %d ", op == 3 ? "rl_fit" : "fit", op);
        const V x = sample(c, op), y = goal(s, op);
        V o = system_out(s, x, fb);
        const bool known = o[0] != 123; // some rule matches: covering adds nothing
        bool covered = known;
        if (known && c.a > 1) // every action represented?
            for (int a = 0; a < c.a; ++a) {
                bool has = false;
                for (Cl *r : rules(s->pset)) {
                    double m1, m2;
                    has = has || (ref::accepts(s, r, x, &m1) && ref::action(s, r, x, &m2) == a);
                    if (m1 < 1e-9) covered = false;
                }
                covered = covered && has;
            }
        const double before = s->error;
        double got, l;
        if (op == 3) {
            const int a = mc::choose(c.a);
            got = xcs_rl_fit(s, x.data(), a, 0.7);
            l = ref::loss(s, { o[(size_t) a] }, { 0.7 });
        } else {
            got = fit1(s, x, y);
            V p(o.begin(), o.begin() + s->y_dim);
            l = ref::loss(s, p, y);
        }
        if (covered && !near(got, l, 1e-10, 1e-12)) mc::fail("trial-loss", "the trial reports %.15g, the loss of the prediction made before learning is %.15g", got, l);
        if (!near(s->error, before + s->BETA * (got - before), 1e-12, 1e-15)) mc::fail("running", "the system error is %.15g, expected %.15g", s->error, before + s->BETA * (got - before));
        sum += got;
        ++n;
        mc::step();
        mc::validated();
        mc::state(hash_pop(s));
    }
    destroy(s);
}
static void batch(const Cfg &c)
{
    // one call with several trials reports the mean of what single trials report
    const int rows = 1 + mc::choose(3), trials = 1 + mc::choose(5), start = mc::choose(4);
    V x, y;
    for (int i = 0; i < rows; ++i) {
        const V a = sample(c, i), b = target(c, i);
        x.insert(x.end(), a.begin(), a.end());
        y.insert(y.end(), b.begin(), b.end());
    }
    Data d(c.x, c.y, x, y);
    mc::flush_normal();
    mc::seed_stream(5);
    XCSF *s = make(c), *t;
    const double got = xcs_supervised_fit(s, &d.in, nullptr, false, start, trials);
    mc::flush_normal();
    mc::seed_stream(5);
    t = make(c);
    double sum = 0;
    for (int k = 0; k < trials; ++k) {
        const int r = (start + k) % rows;
        sum += fit1(t, V(x.begin() + r * c.x, x.begin() + (r + 1) * c.x), V(y.begin() + r * c.y, y.begin() + (r + 1) * c.y));
    }
    if (!near(got, sum / trials, 1e-11, 1e-13)) mc::fail("mean", "%d trials from row %d report %.15g, single trials average %.15g", trials, start, got, sum / trials);
    if (!near(s->error, t->error, 1e-11, 1e-13)) mc::fail("running-batch", "system error %.15g, trial by trial %.15g", s->error, t->error);
    mc::validated();
    mc::step();
    destroy(s);
    destroy(t);
}

void mc::scenarios()
{
    const bool T = mc::thorough();
    static const V P = { -1e6, -3, -0.5, 0, 1e-320, 1e-17, 0.3, 0.5, 1, 1 + 1e-12, 2, 1e6 };
    static const V Y = { -2, 0, 0.25, 0.5, 1, 1.5 };
    for (int loss : LOSSES)
        for (int y : { 1, 2, 3, 6 }) {
            Cfg c;
            c.y = y;
            c.loss = loss;
            const string nm = string(loss_type_as_string(loss)) + "-y" + std::to_string(y);
            mc::add("loss-" + nm, Opt(), [c, loss, y, T] {
                XCSF *s = make(c);
                if (loss == LOSS_HUBER) param_set_huber_delta(s, mc::pick({ 0, 0.5, 1, 3 }));
                const V p3 = { -1, 0, 0.3, 1 }, y3 = { 0, 0.25, 1 };
                if (y > 3) {
                    for (int i = 0; i < 500; ++i) {
                        V p, q;
                        for (int k = 0; k < y; ++k) {
                            p.push_back(P[(size_t) (i * 5 + k * (1 + i / 12)) % P.size()]);
                            q.push_back(Y[(size_t) (i + k * (1 + i / 6)) % Y.size()]);
                        }
                        check_loss(s, p, q, "chosen by value");
                    }
                    destroy(s);
                    return;
                }
                const V &ps = y == 3 && !T ? p3 : P, &ys = y == 3 && !T ? y3 : Y;
                const int first = mc::choose((int) ps.size());
                V p((size_t) y), q((size_t) y);
                vector<size_t> ip((size_t) y, 0), iy((size_t) y, 0);
                ip[0] = (size_t) first;
                // inner product loop over the rest of the grid
                long total = 1;
                for (int k = 0; k < y; ++k) total *= (long) ys.size() * (k ? (long) ps.size() : 1);
                for (long n = 0; n < total; ++n) {
                    long r = n;
                    for (int k = 0; k < y; ++k) {
                        q[(size_t) k] = ys[(size_t) (r % (long) ys.size())];
                        r /= (long) ys.size();
                        if (k) {
                            p[(size_t) k] = ps[(size_t) (r % (long) ps.size())];
                            r /= (long) ps.size();
                        } else {
                            p[0] = ps[(size_t) first];
                        }
                    }
                    check_loss(s, p, q, "chosen by value");
                    if (n % 997 == 0) mc::state((uint64_t) n * 31 + (uint64_t) first);
                }
                destroy(s);
            });
            mc::add("select-" + nm, Opt(), [c, loss, y] {
                // every way of choosing the loss chooses the same loss
                Cfg d = c;
                d.loss = LOSS_MAE;
                if (loss == LOSS_MAE) d.loss = LOSS_MSE;
                XCSF *s = make(d);
                XCSF *o = make(c);
                const char *how = "?";
                switch (mc::choose(4)) {
                    case 0: param_set_loss_func(s, loss); how = "chosen by value"; break;
                    case 1: param_set_loss_func_string(s, loss_type_as_string(loss)); how = "chosen by name"; break;
                    case 2: {
                        param_json_import(s, ("{\"loss_func\": \"" + string(loss_type_as_string(loss)) + "\"}").c_str());
                        how = "imported";
                        break;
                    }
                    case 3: {
                        const string fn = "l" + std::to_string(getpid()) + ".bin";
                        xcsf_save(o, fn.c_str());
                        xcsf_load(s, fn.c_str());
                        unlink(fn.c_str());
                        how = "loaded";
                        break;
                    }
                }
                if (s->LOSS_FUNC != loss) mc::fail("select", "%s: another loss is selected", how);
                const int i = mc::choose(4), j = mc::choose(3);
                V p, q;
                for (int k = 0; k < y; ++k) {
                    p.push_back(P[(size_t) (4 + 2 * i + k) % P.size()]);
                    q.push_back(Y[(size_t) (j + k) % Y.size()]);
                }
                check_loss(s, p, q, how);
                destroy(s);
                destroy(o);
            });
        }
    for (int loss : LOSSES)
        for (int y : { 1, 2 }) {
            Cfg c;
            c.x = 2; c.y = y; c.loss = loss; c.theta_ea = 1e9;
            const string nm = string(loss_type_as_string(loss)) + "-y" + std::to_string(y);
            mc::add("score-" + nm, Opt(), [c] { scores(c, false); });
            Opt o;
            o.alpha = { 1e-9, 0.34, 0.5, 0.67, 1 - 1e-9 };
            mc::add("sampled-" + nm, o, [c] { scores(c, true); });
            mc::add("running-" + nm, Opt(), [c, T] { running(c, T ? 5 : 4); });
        }
    for (const Entry &e : catalog(false)) {
        if (e.name.find("dropout") != string::npos || e.name.find("noise") != string::npos) continue; // predictions differ while learning
        const Cfg c = e.c;
        mc::add("running-" + e.name, Opt(), [c, T] { running(c, T ? 4 : 3); });
        if (c.a == 1) mc::add("score-" + e.name, Opt(), [c] { scores(c, false); });
    }
    for (const Entry &e : catalog(true)) {
        const Cfg c = e.c;
        mc::add("batch-" + e.name, Opt(), [c] { batch(c); });
    }
    for (const Entry &e : wide(false)) {
        const Cfg c = e.c;
        mc::add("running-" + e.name, Opt(), [c, T] { running(c, T ? 3 : 2, T ? 300 : 40); });
        for (int n : { 8, 33 })
            if (c.a == 1) mc::add("score-" + e.name + "-" + std::to_string(n), Opt(), [c, n] { scores(c, false, n); });
    }
}
