// Reference evaluators, written from the documented definitions (not from the code's data flow).
#pragma once
#include "xc.hpp"
#include <cfloat>

namespace ref {
using namespace xc;

inline double clampd(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }

inline double act(int f, double x)
{
    switch (f) {
        case LOGISTIC: return 1 / (1 + exp(-x));
        case RELU: return x > 0 ? x : 0;
        case TANH: return tanh(x);
        case LINEAR: return x;
        case GAUSSIAN: return exp(-x * x);
        case SIN: return sin(x);
        case COS: return cos(x);
        case SOFT_PLUS: return log1p(exp(x));
        case LEAKY: return x > 0 ? x : 0.1 * x;
        case SELU: return x >= 0 ? 1.0507 * x : 1.0507 * 1.6732 * expm1(x);
        case LOGGY: return 2 / (1 + exp(-x)) - 1;
    }
    mc::fail("oracle", "unknown activation %d", f);
}
inline double dact(int f, double x)
{
    switch (f) {
        case LOGISTIC: { const double l = 1 / (1 + exp(-x)); return l * (1 - l); }
        case RELU: return x > 0 ? 1 : 0;
        case TANH: return 1 - tanh(x) * tanh(x);
        case LINEAR: return 1;
        case GAUSSIAN: return -2 * x * exp(-x * x);
        case SIN: return cos(x);
        case COS: return -sin(x);
        case SOFT_PLUS: return 1 / (1 + exp(-x));
        case LEAKY: return x < 0 ? 0.1 : 1;
        case SELU: return x >= 0 ? 1.0507 : 1.0507 * 1.6732 * exp(x);
        case LOGGY: { const double l = 1 / (1 + exp(-x)); return 2 * l * (1 - l); }
    }
    mc::fail("oracle", "unknown activation %d", f);
}

// affine part of a connected layer
inline V affine(const Layer *l, const V &in)
{
    V s(l->n_outputs);
    for (int o = 0; o < l->n_outputs; ++o) {
        s[o] = l->biases[o];
        for (int i = 0; i < l->n_inputs; ++i) s[o] += l->weights[o * l->n_inputs + i] * in[i];
    }
    return s;
}
inline V applyf(V s, int f)
{
    for (double &v : s) v = act(f, clampd(v, -100, 100));
    return s;
}
// one cell of a convolution before activation
inline V conv(const Layer *l, const V &in)
{
    const int oh = (l->height + 2 * l->pad - l->size) / l->stride + 1, ow = (l->width + 2 * l->pad - l->size) / l->stride + 1;
    V s;
    for (int f = 0; f < l->n_filters; ++f)
        for (int r = 0; r < oh; ++r)
            for (int c = 0; c < ow; ++c) {
                double v = l->biases[f];
                for (int ch = 0; ch < l->channels; ++ch)
                    for (int a = 0; a < l->size; ++a)
                        for (int b = 0; b < l->size; ++b) {
                            const int y = r * l->stride + a - l->pad, x = c * l->stride + b - l->pad;
                            if (y < 0 || x < 0 || y >= l->height || x >= l->width) continue;
                            v += l->weights[((f * l->channels + ch) * l->size + a) * l->size + b] * in[(ch * l->height + y) * l->width + x];
                        }
                s.push_back(v);
            }
    return s;
}
inline V forward_layer(const Layer *l, const V &in)
{
    switch (l->type) {
        case CONNECTED: return applyf(affine(l, in), l->function);
        case CONVOLUTIONAL: return applyf(conv(l, in), l->function);
        case DROPOUT:
        case NOISE: return in;
        case SOFTMAX: {
            double m = -DBL_MAX, z = 0;
            for (double v : in) m = fmax(m, v / l->scale);
            V o;
            for (double v : in) z += exp(v / l->scale - m);
            for (double v : in) o.push_back(exp(v / l->scale - m) / z);
            return o;
        }
        case AVGPOOL: {
            V o;
            const int n = l->height * l->width;
            for (int c = 0; c < l->channels; ++c) {
                double s = 0;
                for (int i = 0; i < n; ++i) s += in[c * n + i];
                o.push_back(s / n);
            }
            return o;
        }
        case MAXPOOL: {
            V o;
            const int oh = (l->height + l->pad - l->size) / l->stride + 1, ow = (l->width + l->pad - l->size) / l->stride + 1;
            for (int c = 0; c < l->channels; ++c)
                for (int r = 0; r < oh; ++r)
                    for (int q = 0; q < ow; ++q) {
                        double m = -DBL_MAX;
                        for (int a = 0; a < l->size; ++a)
                            for (int b = 0; b < l->size; ++b) {
                                const int y = r * l->stride + a - l->pad / 2, x = q * l->stride + b - l->pad / 2;
                                if (y >= 0 && x >= 0 && y < l->height && x < l->width) m = fmax(m, in[(c * l->height + y) * l->width + x]);
                            }
                        o.push_back(m);
                    }
            return o;
        }
        case UPSAMPLE: {
            V o;
            for (int c = 0; c < l->channels; ++c)
                for (int r = 0; r < l->height * l->stride; ++r)
                    for (int q = 0; q < l->width * l->stride; ++q) o.push_back(in[(c * l->height + r / l->stride) * l->width + q / l->stride]);
            return o;
        }
        case RECURRENT: {
            // hidden = W_in x + W_self y(t-1); y = f(W_out hidden)
            V prev(l->output_layer->output, l->output_layer->output + l->n_outputs);
            V h = applyf(affine(l->input_layer, in), LINEAR), s = applyf(affine(l->self_layer, prev), LINEAR);
            for (size_t i = 0; i < h.size(); ++i) h[i] += s[i];
            return applyf(affine(l->output_layer, h), l->function);
        }
        case LSTM: {
            const int n = l->n_outputs;
            V h(l->h, l->h + n), c(l->c, l->c + n);
            auto gate = [&](const Layer *u, const Layer *w, int f) {
                V a = applyf(affine(u, in), LINEAR), b = applyf(affine(w, h), LINEAR);
                for (int i = 0; i < n; ++i) a[i] += b[i];
                return applyf(a, f);
            };
            V f = gate(l->uf, l->wf, l->recurrent_function), i = gate(l->ui, l->wi, l->recurrent_function);
            V g = gate(l->ug, l->wg, l->function), o = gate(l->uo, l->wo, l->recurrent_function), out(n);
            for (int k = 0; k < n; ++k) out[k] = o[k] * act(l->function, clampd(f[k] * c[k] + i[k] * g[k], -100, 100));
            return out;
        }
    }
    mc::fail("oracle", "unknown layer type %d", l->type);
}
// output of a network not in training, for the state its layers have now
inline V forward(const Net *n, const V &x)
{
    V v = x;
    for (const Llist *i = n->tail; i; i = i->prev) v = forward_layer(i->layer, v);
    return v;
}

inline double tree(const GPTree *g, const ArgsGPTree *a, const V &x, int &pos)
{
    const int t = g->tree[pos++];
    if (t >= 4 + a->n_constants) return x[t - 4 - a->n_constants];
    if (t >= 4) return a->constants[t - 4];
    const double l = clampd(tree(g, a, x, pos), -1000, 1000), r = clampd(tree(g, a, x, pos), -1000, 1000);
    return t == 0 ? l + r : t == 1 ? l - r : t == 2 ? l * r : r != 0 ? l / r : l;
}
inline V graph(const Graph *g, const V &x, bool reset)
{
    V s(reset ? g->initial_state : g->state, (reset ? g->initial_state : g->state) + g->n);
    for (int t = 0; t < g->t; ++t) {
        V n(s.size());
        for (int i = 0; i < g->n; ++i) {
            double v = 0;
            for (int k = 0; k < g->max_k; ++k) {
                const int c = g->connectivity[i * g->max_k + k];
                const double in = c < g->n_inputs ? x[c] : s[c - g->n_inputs];
                if (g->function[i] == 0) {
                    if (k == 0) v = 1 - in;
                } else if (g->function[i] == 1) {
                    v = k ? v * in : in;
                } else {
                    v = k ? v + in : in;
                }
            }
            n[i] = clampd(v, 0, 1);
        }
        s = n;
    }
    return s;
}
inline string bits(double f, int n)
{
    string s;
    long a = f >= 1 ? (1L << n) - 1 : f <= 0 ? 0 : (long) floor(f * (double) (1L << n));
    for (int i = n - 1; i >= 0; --i) s += (char) ('0' + ((a >> i) & 1));
    return s;
}

// does the rule's condition accept x?  *margin: distance from the decision boundary
inline bool accepts(const XCSF *s, const Cl *c, const V &x, double *margin = nullptr)
{
    double mg = 1e300;
    bool ok = true;
    switch (s->cond->type) {
        case COND_TYPE_DUMMY: break;
        case COND_TYPE_HYPERRECTANGLE_CSR:
        case COND_TYPE_HYPERRECTANGLE_UBR: {
            auto *r = (const CondRectangle *) c->cond;
            const bool csr = s->cond->type == COND_TYPE_HYPERRECTANGLE_CSR;
            for (int i = 0; i < s->x_dim; ++i) {
                const double lo = csr ? r->b1[i] - r->b2[i] : fmin(r->b1[i], r->b2[i]);
                const double hi = csr ? r->b1[i] + r->b2[i] : fmax(r->b1[i], r->b2[i]);
                if (x[i] < lo || x[i] > hi) ok = false;
                if (csr) mg = fmin(mg, fmin(fabs(x[i] - lo), fabs(x[i] - hi)) / (fabs(lo) + fabs(hi) + 1e-300));
            }
            break;
        }
        case COND_TYPE_HYPERELLIPSOID: {
            auto *r = (const CondEllipsoid *) c->cond;
            double d = 0;
            for (int i = 0; i < s->x_dim; ++i) d += (x[i] - r->center[i]) / r->spread[i] * ((x[i] - r->center[i]) / r->spread[i]);
            ok = d < 1;
            mg = fabs(d - 1);
            break;
        }
        case COND_TYPE_TERNARY: {
            auto *r = (const CondTernary *) c->cond;
            string b;
            for (int i = 0; i < s->x_dim; ++i) b += bits(x[i], s->cond->bits);
            for (int i = 0; i < r->length; ++i)
                if (r->string[i] != '#' && r->string[i] != b[i]) ok = false;
            break;
        }
        case COND_TYPE_GP: {
            auto *r = (const CondGP *) c->cond;
            int pos = 0;
            const double v = tree(&r->gp, s->cond->targs, x, pos);
            ok = v > 0.5;
            mg = fabs(v - 0.5);
            break;
        }
        case COND_TYPE_DGP:
        case RULE_TYPE_DGP: {
            const Graph *g = s->cond->type == COND_TYPE_DGP ? &((const CondDGP *) c->cond)->dgp : &((const RuleDGP *) c->cond)->dgp;
            const double v = graph(g, x, !s->STATEFUL)[0];
            ok = v > 0.5;
            mg = fabs(v - 0.5);
            break;
        }
        case COND_TYPE_NEURAL:
        case RULE_TYPE_NEURAL: {
            const Net *n = s->cond->type == COND_TYPE_NEURAL ? &((const CondNeural *) c->cond)->net : &((const RuleNeural *) c->cond)->net;
            const double v = forward(n, x)[0];
            ok = v > 0.5;
            mg = fabs(v - 0.5);
            break;
        }
    }
    if (margin) *margin = mg;
    return ok;
}
// action a rule advocates for x (*margin as above)
inline int action(const XCSF *s, const Cl *c, const V &x, double *margin = nullptr)
{
    double mg = 1e300;
    int a = 0;
    auto binary = [&](const V &o, size_t from, size_t n) {
        for (size_t i = 0; i < n; ++i) {
            mg = fmin(mg, fabs(o[from + i] - 0.5));
            if (o[from + i] > 0.5) a += 1 << i;
        }
        if (a > s->n_actions - 1) a = s->n_actions - 1;
    };
    if (s->cond->type == RULE_TYPE_DGP) {
        auto *r = (const RuleDGP *) c->cond;
        binary(graph(&r->dgp, x, !s->STATEFUL), 1, r->n_outputs);
    } else if (s->cond->type == RULE_TYPE_NEURAL) {
        auto *r = (const RuleNeural *) c->cond;
        V o = forward(&r->net, x);
        binary(o, 1, o.size() - 1);
    } else if (s->act->type == ACT_TYPE_INTEGER) {
        a = ((const ActInteger *) c->act)->action;
    } else {
        V o = forward(&((const ActNeural *) c->act)->net, x);
        for (size_t i = 1; i < o.size(); ++i)
            if (o[i] > o[a]) a = (int) i;
        for (size_t i = 0; i < o.size(); ++i)
            if ((int) i != a) mg = fmin(mg, fabs(o[i] - o[a]));
    }
    if (margin) *margin = mg;
    return a;
}
// prediction of a rule's model for x
inline V features(const V &x, double x0, bool quad)
{
    V f = { x0 };
    for (double v : x) f.push_back(v);
    if (quad)
        for (size_t i = 0; i < x.size(); ++i)
            for (size_t j = i; j < x.size(); ++j) f.push_back(x[i] * x[j]);
    return f;
}
inline V predict(const XCSF *s, const Cl *c, const V &x)
{
    V o(s->y_dim, 0);
    const int t = s->pred->type;
    if (t == PRED_TYPE_CONSTANT) {
        for (int i = 0; i < s->y_dim; ++i) o[i] = c->prediction[i];
    } else if (t == PRED_TYPE_NEURAL) {
        o = forward(&((const PredNeural *) c->pred)->net, x);
        o.resize(s->y_dim);
    } else {
        const bool quad = t == PRED_TYPE_NLMS_QUADRATIC || t == PRED_TYPE_RLS_QUADRATIC;
        const V f = features(x, s->pred->x0, quad);
        const double *w = (t == PRED_TYPE_NLMS_LINEAR || t == PRED_TYPE_NLMS_QUADRATIC) ? ((const PredNLMS *) c->pred)->weights : ((const PredRLS *) c->pred)->weights;
        for (int i = 0; i < s->y_dim; ++i)
            for (size_t j = 0; j < f.size(); ++j) o[i] += w[i * f.size() + j] * f[j];
    }
    return o;
}
// loss of a prediction
inline double loss(int type, double delta, const V &p, const V &y)
{
    double e = 0;
    const size_t n = y.size();
    size_t best = 0;
    for (size_t i = 0; i < n; ++i) {
        const double d = fabs(y[i] - p[i]);
        switch (type) {
            case LOSS_MAE: e += d; break;
            case LOSS_MSE:
            case LOSS_RMSE: e += d * d; break;
            case LOSS_LOG: e -= y[i] * log(fmax(p[i], DBL_EPSILON)); break;
            case LOSS_BINARY_LOG: e -= y[i] * log(fmax(p[i], DBL_EPSILON)) + (1 - y[i]) * log(fmax(1 - p[i], DBL_EPSILON)); break;
            case LOSS_ONEHOT: if (p[i] > p[best]) best = i; break;
            case LOSS_HUBER: e += d > delta ? delta * (d - 0.5 * delta) : 0.5 * d * d; break;
        }
    }
    switch (type) {
        case LOSS_MAE:
        case LOSS_MSE:
        case LOSS_HUBER: return e / (double) n;
        case LOSS_RMSE: return sqrt(e / (double) n);
        case LOSS_ONEHOT: return y[best] == 1 ? 0 : 1;
    }
    return e;
}
inline double loss(const XCSF *s, const V &p, const V &y) { return loss(s->LOSS_FUNC, s->HUBER_DELTA, p, y); }
inline double accuracy(const XCSF *s, double err)
{
    if (!(err > s->E0)) return 1;
    return fmax(s->ALPHA * pow(err / s->E0, -s->NU), DBL_EPSILON);
}
} // namespace ref
