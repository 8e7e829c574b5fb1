// C10: constant, NLMS and RLS models learn by their defining equations.
#include "ref.hpp"
using namespace xc;

// the textbook recursions, written independently
struct Model {
    int type, y;
    double x0, eta, lambda, scale, beta;
    vector<V> w; // weights per output
    vector<V> P; // covariance (RLS)
    V c; // constant
    int exp = 0;
    bool quad() const { return type == PRED_TYPE_NLMS_QUADRATIC || type == PRED_TYPE_RLS_QUADRATIC; }
    bool nlms() const { return type == PRED_TYPE_NLMS_LINEAR || type == PRED_TYPE_NLMS_QUADRATIC; }
    V predict(const V &x) const
    {
        if (type == PRED_TYPE_CONSTANT) return c;
        const V f = ref::features(x, x0, quad());
        V o;
        for (int i = 0; i < y; ++i) {
            double s = 0;
            for (size_t j = 0; j < f.size(); ++j) s += w[(size_t) i][j] * f[j];
            o.push_back(s);
        }
        return o;
    }
    void learn(const V &x, const V &t)
    {
        ++exp;
        const V p = predict(x);
        if (type == PRED_TYPE_CONSTANT) {
            for (int i = 0; i < y; ++i) c[(size_t) i] += (t[(size_t) i] - p[(size_t) i]) * (exp * beta < 1 ? 1.0 / exp : beta);
            return;
        }
        const V f = ref::features(x, x0, quad());
        const size_t n = f.size();
        if (nlms()) {
            double norm = 0; // of the offset and the inputs
            norm += x0 * x0;
            for (double v : x) norm += v * v;
            for (int i = 0; i < y; ++i)
                for (size_t j = 0; j < n; ++j) w[(size_t) i][j] += eta * (t[(size_t) i] - p[(size_t) i]) / norm * f[j];
            return;
        }
        V Pf(n, 0);
        double d = lambda;
        for (size_t i = 0; i < n; ++i) {
            for (size_t j = 0; j < n; ++j) Pf[i] += P[i][j] * f[j];
            d += f[i] * Pf[i];
        }
        V k(n);
        for (size_t i = 0; i < n; ++i) k[i] = Pf[i] / d;
        for (int i = 0; i < y; ++i)
            for (size_t j = 0; j < n; ++j) w[(size_t) i][j] += k[j] * (t[(size_t) i] - p[(size_t) i]);
        V fP(n, 0);
        for (size_t j = 0; j < n; ++j)
            for (size_t i = 0; i < n; ++i) fP[j] += f[i] * P[i][j];
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j) P[i][j] = (P[i][j] - k[i] * fP[j]) / lambda;
    }
};
static Model initial(const XCSF *s, const Cl *c = nullptr)
{
    Model m;
    m.type = s->pred->type;
    m.y = s->y_dim;
    m.x0 = s->pred->x0;
    m.eta = s->pred->eta;
    m.lambda = s->pred->lambda;
    m.scale = s->pred->scale_factor;
    m.beta = s->BETA;
    const size_t n = m.quad() ? (size_t) (1 + s->x_dim + s->x_dim * (s->x_dim + 1) / 2) : (size_t) (1 + s->x_dim);
    m.c.assign((size_t) s->y_dim, 0);
    if (m.type == PRED_TYPE_CONSTANT) return m;
    if (m.nlms() && c) {
        const double e = ((const PredNLMS *) c->pred)->eta;
        if (s->pred->evolve_eta ? e < s->pred->eta_min || e > s->pred->eta : e != s->pred->eta) mc::fail("rate", "a new rule has the learning rate %.12g", e);
        m.eta = e;
    }
    m.w.assign((size_t) s->y_dim, V(n, 0));
    for (V &v : m.w) v[0] = m.x0; // the offset weight starts at the offset
    if (!m.nlms()) {
        m.P.assign(n, V(n, 0));
        for (size_t i = 0; i < n; ++i) m.P[i][i] = m.scale;
    }
    return m;
}
static void same(const XCSF *s, const Cl *c, const Model &m, const char *when)
{
    if (m.type == PRED_TYPE_CONSTANT) {
        for (int i = 0; i < m.y; ++i)
            if (!near(c->prediction[i], m.c[(size_t) i], 1e-9, 1e-11)) mc::fail("constant", "%s: constant %d is %.12g, expected %.12g", when, i, c->prediction[i], m.c[(size_t) i]);
        return;
    }
    const size_t n = m.w[0].size();
    const double *w;
    int nw;
    if (m.nlms()) {
        w = ((const PredNLMS *) c->pred)->weights;
        nw = ((const PredNLMS *) c->pred)->n_weights;
    } else {
        w = ((const PredRLS *) c->pred)->weights;
        nw = ((const PredRLS *) c->pred)->n_weights;
    }
    if (nw != (int) n * m.y) mc::fail("size", "%s: the model has %d weights, expected %zu", when, nw, n * (size_t) m.y);
    double big = 1;
    for (const V &v : m.w)
        for (double d : v) big = fmax(big, fabs(d));
    for (int i = 0; i < m.y; ++i)
        for (size_t j = 0; j < n; ++j)
            if (!near(w[(size_t) i * n + j], m.w[(size_t) i][j], 1e-6, 1e-8 * big))
                mc::fail("weight", "%s: weight %zu of output %d is %.12g, expected %.12g", when, j, i, w[(size_t) i * n + j], m.w[(size_t) i][j]);
}
static void predicts(const XCSF *s, Cl *c, const Model &m, const V &x, const char *when)
{
    const double *p = cl_predict(s, c, x.data());
    const V w = m.predict(x);
    for (int i = 0; i < m.y; ++i)
        if (!near(p[i], w[(size_t) i], 1e-6, 1e-7 * (1 + fabs(w[(size_t) i])))) mc::fail("prediction", "%s: output %d is %.12g, expected %.12g", when, i, p[i], w[(size_t) i]);
    mc::step();
}
struct Setting { double x0, eta, lambda, scale, beta; bool evolve = false; };

static void direct(const Cfg &c, const Setting &t, const vector<V> &xs, const vector<V> &ys, int depth)
{
    XCSF *s = make(c);
    pred_param_set_x0(s, t.x0);
    pred_param_set_eta(s, t.eta);
    pred_param_set_evolve_eta(s, t.evolve);
    pred_param_set_eta_min(s, t.eta / 4);
    pred_param_set_lambda(s, t.lambda);
    pred_param_set_scale_factor(s, t.scale);
    param_set_beta(s, t.beta);
    Cl *r = (Cl *) malloc(sizeof(Cl));
    cl_init(s, r, 1, 0);
    cl_rand(s, r);
    clset_add(&s->pset, r);
    Model m = initial(s, r);
    same(s, r, m, "new rule");
    predicts(s, r, m, xs[0], "new rule");
    for (int k = 0; k < depth; ++k) {
        const V x = xs[(size_t) mc::choose((int) xs.size())], y = ys[(size_t) mc::choose((int) ys.size())];
        mc::log("learn %s -> %s ", str(x).c_str(), str(y).c_str());
        predicts(s, r, m, x, "before learning");
        cl_update(s, r, x.data(), y.data(), 1, true);
        m.learn(x, y);
        same(s, r, m, "after learning");
        for (const V &q : xs) predicts(s, r, m, q, "after learning");
        mc::validated();
        mc::state(hash_pop(s));
    }
    mc::Hash h;
    h.v(dump_pred(s, r));
    mc::outcome(h.h);
    destroy(s);
}
// the same through whole training trials: one rule that matches everything
static void fitted(const Cfg &c, const Setting &t, int depth)
{
    Cfg d = c;
    d.cond = COND_TYPE_DUMMY;
    d.theta_ea = 1e9;
    XCSF *s = make(d);
    pred_param_set_x0(s, t.x0);
    pred_param_set_eta(s, t.eta);
    pred_param_set_evolve_eta(s, t.evolve);
    pred_param_set_eta_min(s, t.eta / 4);
    pred_param_set_lambda(s, t.lambda);
    pred_param_set_scale_factor(s, t.scale);
    param_set_beta(s, t.beta);
    Model m = initial(s);
    for (int k = 0; k < depth; ++k) {
        const int op = mc::choose(4);
        mc::log("fit %d ", op);
        const V x = sample(d, op), y = target(d, op);
        fit1(s, x, y);
        const vector<Cl *> r = rules(s->pset);
        if (r.size() != 1) mc::fail("rules", "%zu rules", r.size());
        m.learn(x, y);
        same(s, r[0], m, "after a trial");
        V out((size_t) s->pa_size), fb((size_t) s->pa_size, 9), q = sample(d, (op + 1) % 4);
        xcs_supervised_predict(s, q.data(), out.data(), 1, fb.data());
        const V w = m.predict(q);
        for (int i = 0; i < m.y; ++i)
            if (!near(out[(size_t) i], w[(size_t) i], 1e-6, 1e-7)) mc::fail("system", "the system predicts %.12g, the model %.12g", out[(size_t) i], w[(size_t) i]);
        mc::validated();
        mc::state(hash_pop(s));
    }
    destroy(s);
}

void mc::scenarios()
{
    const bool T = mc::thorough();
    for (int pred : { PRED_TYPE_CONSTANT, PRED_TYPE_NLMS_LINEAR, PRED_TYPE_NLMS_QUADRATIC, PRED_TYPE_RLS_LINEAR, PRED_TYPE_RLS_QUADRATIC })
        for (int x : { 1, 2, 3, 6 })
            for (int y : { 1, 2, 3, 5 }) {
                if ((x == 6) != (y == 5)) continue; // one large system
                Cfg c;
                c.pred = pred;
                c.x = x;
                c.y = y;
                vector<V> xs, ys;
                static const double A[4][3] = { { 0.3, -0.7, 0.5 }, { 1, 0.25, -2 }, { 0, 0, 0 }, { -0.4, 0.9, 0.1 } };
                static const double B[3][3] = { { 1, -1, 0.5 }, { 0, 3, -0.25 }, { -2, 0.1, 0 } };
                for (int i = 0; i < 4; ++i) {
                    xs.push_back(V());
                    for (int k = 0; k < x; ++k) xs.back().push_back(k < 3 ? A[i][k] : 0.35 * A[i][k - 3] - 0.2 * i);
                    if (i == 3) break;
                    ys.push_back(V());
                    for (int k = 0; k < y; ++k) ys.back().push_back(k < 3 ? B[i][k] : 0.5 * B[i][k - 3] + 0.3);
                }
                mc::add(c.name() + "-histories", Opt(), [=] {
                    const bool cons = pred == PRED_TYPE_CONSTANT, nl = pred == PRED_TYPE_NLMS_LINEAR || pred == PRED_TYPE_NLMS_QUADRATIC;
                    Setting t = { 1, 0.2, 1, 1000, 0.2 };
                    if (cons) t.beta = mc::pick({ 0.1, 0.4, 1 });
                    else if (nl) { t.eta = mc::pick({ 0.1, 1 }); t.x0 = mc::pick({ 1, 0.5 }); }
                    else { t.lambda = mc::pick({ 1, 0.9 }); t.scale = mc::pick({ 1000, 2 }); t.x0 = mc::pick({ 1, 0.5 }); }
                    direct(c, t, xs, ys, T ? 4 : 3);
                });
                mc::add(c.name() + "-settings", Opt(), [=] {
                    Setting t = { mc::pick({ 1, 0.5, -2, 10 }), mc::pick({ 0, 0.05, 1 }), mc::pick({ 1, 0.95, 1.1 }), mc::pick({ 1000, 1, 50 }), mc::pick({ 0.1, 0.5 }), mc::flip() };
                    direct(c, t, { xs[0], xs[1] }, { ys[0] }, 2);
                });
                mc::add(c.name() + "-trials", Opt(), [=] { fitted(c, { 1, 0.2, 1, 1000, 0.2 }, T ? 5 : 4); });
                // long histories: many repetitions of one period
                mc::add(c.name() + "-long", Opt(), [=] {
                    XCSF *s = make(c);
                    param_set_beta(s, 0.05);
                    Cl *r = (Cl *) malloc(sizeof(Cl));
                    cl_init(s, r, 1, 0);
                    cl_rand(s, r);
                    clset_add(&s->pset, r);
                    Model m = initial(s, r);
                    const int a = mc::choose(4), b = mc::choose(4);
                    for (int k = 0; k < (T ? 300 : 60); ++k) {
                        const V q = xs[(size_t) (k % 2 ? a : b)], z = ys[(size_t) (k % 3)];
                        cl_predict(s, r, q.data());
                        cl_update(s, r, q.data(), z.data(), 1, true);
                        m.learn(q, z);
                        same(s, r, m, "in a long history");
                        mc::step();
                    }
                    destroy(s);
                });
            }
    // many inputs and outputs, and inputs of very different sizes
    for (int pred : { PRED_TYPE_CONSTANT, PRED_TYPE_NLMS_LINEAR, PRED_TYPE_NLMS_QUADRATIC, PRED_TYPE_RLS_LINEAR, PRED_TYPE_RLS_QUADRATIC })
        for (int x : { 9, 17, 33 })
            for (int y : { 1, 4, 12 }) {
                if (y > 4 && x > 9) continue;
                if (x > 9 && pred == PRED_TYPE_RLS_QUADRATIC && (y > 1 || x > 17)) continue; // slow
                Cfg c;
                c.pred = pred;
                c.x = x;
                c.y = y;
                mc::add(c.name() + "-wide", Opt(), [=] {
                    vector<V> xs, ys;
                    for (int i = 0; i < 3; ++i) {
                        xs.push_back(V());
                        for (int k = 0; k < x; ++k) xs.back().push_back(sin(1.7 * k + 0.9 * i));
                        ys.push_back(V());
                        for (int k = 0; k < y; ++k) ys.back().push_back(cos(2.3 * k + 1.1 * i));
                    }
                    direct(c, { 1, 0.2, mc::pick({ 1, 0.95 }), 100, 0.2 }, xs, ys, T ? 3 : 2);
                });
            }
    for (int pred : { PRED_TYPE_CONSTANT, PRED_TYPE_NLMS_LINEAR, PRED_TYPE_NLMS_QUADRATIC }) // recursive least squares is ill-conditioned here
        for (int x : { 1, 3 }) {
            Cfg c;
            c.pred = pred;
            c.x = x;
            c.y = 2;
            mc::add(c.name() + "-sizes", Opt(), [=] {
                const double m = mc::pick({ 1e-9, 1e-3, 40, 1e4 }), t = mc::pick({ 1e-6, 1, 1e5 });
                vector<V> xs, ys;
                for (int i = 0; i < 3; ++i) {
                    xs.push_back(V());
                    for (int k = 0; k < x; ++k) xs.back().push_back(i == 2 ? -0.3 : m * sin(1 + 1.7 * k + 0.9 * i));
                    ys.push_back({ t * cos(1.1 * i), i ? -t : 0 });
                }
                direct(c, { 1, 0.3, 1, 10, 0.2 }, xs, ys, T ? 3 : 2);
            });
        }
}
