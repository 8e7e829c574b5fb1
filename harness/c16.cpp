// C16: neural networks compute and learn by exact gradients and keep valid shapes.
#include "wf.hpp"
using namespace xc;

typedef vector<L> Arch;
static L conn(int n, int f, bool sgd = true)
{
    L l;
    l.n = n; l.func = f; l.sgd = sgd;
    return l;
}
static L plain(int t)
{
    L l;
    l.type = t; l.ew = false; l.sgd = false;
    return l;
}
static L image(int t, int h, int w, int c)
{
    L l = plain(t);
    l.h = h; l.w = w; l.c = c;
    return l;
}
static L convl(int filters, int f, int h, int w, int c, int size, int stride, int pad)
{
    L l;
    l.type = CONVOLUTIONAL; l.n = filters; l.func = f; l.h = h; l.w = w; l.c = c; l.size = size; l.stride = stride; l.pad = pad;
    return l;
}
static Net *build(int n_in, const Arch &a)
{
    ArgsLayer *args = layers(n_in, a);
    layer_args_validate(args);
    Net *n = (Net *) malloc(sizeof(Net));
    neural_create(n, args);
    layer_args_free(&args);
    return n;
}
static void drop(Net *n)
{
    neural_free(n);
    free(n);
}
static void weights(Net *n, int variant, bool holes)
{
    int k = 3 * variant;
    for (Layer *top : chain(n)) {
        for (Layer *l : leaves(top)) {
            for (int i = 0; i < l->n_weights; ++i, ++k) {
                l->weights[i] = 0.9 * sin(1.37 * k + 0.6 + variant);
                l->weight_active[i] = true;
                if (holes && l->type == CONNECTED && l->n_weights > 1 && i % 3 == 1) l->weight_active[i] = false, l->weights[i] = 0;
            }
            for (int i = 0; i < l->n_biases; ++i, ++k) l->biases[i] = 0.3 * cos(0.9 * k + variant);
            layer_calc_n_active(l);
        }
        if (top->type == RECURRENT || top->type == LSTM) {
            top->n_active = 0;
            for (Layer *l : leaves(top)) top->n_active += l->n_active;
        }
    }
}
static V input(int n, int i)
{
    V x;
    for (int k = 0; k < n; ++k) x.push_back(i == 3 ? 0 : i == 4 ? (k % 2 ? 1.0 : -1.0) : sin(2.1 * k + 1.7 * i + 0.3) + 0.2 * i);
    return x;
}
static V targets(int n, int i)
{
    V y;
    for (int k = 0; k < n; ++k) y.push_back(0.8 * cos(1.1 * k + 2.3 * i));
    return y;
}

// ---------------------------------------------------------------- forward
static void same(const char *what, const double *got, const V &want, double tol = 1e-10)
{
    for (size_t i = 0; i < want.size(); ++i)
        if (!near(got[i], want[i], tol, tol)) mc::fail("forward", "%s: output %zu is %.12g, expected %.12g", what, i, got[i], want[i]);
}
static void forward_check(Net *n, const V &x, bool train, const char *what)
{
    const V want = ref::forward(n, x);
    neural_propagate(n, x.data(), train);
    same(what, neural_outputs(n), want);
    for (int i = 0; i < n->n_outputs; ++i)
        if (neural_output(n, i) != neural_outputs(n)[i]) mc::fail("forward", "the two ways of reading output %d differ", i);
    mc::step();
    mc::validated();
}
static void forwards(int n_in, const Arch &a, int seq)
{
    Net *n = build(n_in, a);
    net_ok(n);
    for (int v = 0; v < 3; ++v) {
        weights(n, v, v == 2);
        for (int t = 0; t < seq; ++t) {
            forward_check(n, input(n_in, t % 5), false, "inference");
            mc::Hash h;
            V o(neural_outputs(n), neural_outputs(n) + n->n_outputs);
            h.v(o);
            mc::state(h.h);
        }
        // saturated activations
        V big = input(n_in, 1);
        for (double &q : big) q *= 300;
        forward_check(n, big, false, "large input");
    }
    drop(n);
}

// ---------------------------------------------------------------- gradients by dual numbers
struct D {
    double v = 0, d = 0;
};
static D operator+(D a, D b) { return { a.v + b.v, a.d + b.d }; }
static D operator*(D a, D b) { return { a.v * b.v, a.d * b.v + a.v * b.d }; }
static D dact(int f, D x)
{
    const double c = ref::clampd(x.v, -100, 100);
    return { ref::act(f, c), x.d * ref::dact(f, c) };
}
struct Mask {
    V mul, add;
};
typedef vector<D> DV;
// the parameter with derivative 1: leaf layer, index, bias or weight; or the output of a layer
struct Seed {
    const Layer *l = nullptr;
    int i = 0;
    int what = 0; // 0 weight, 1 bias, 2 output
};
static DV dforward(const vector<Layer *> &c, const V &x, const std::map<const Layer *, Mask> &masks, const std::map<const Layer *, V> &fixed, Seed sd)
{
    DV in;
    for (double v : x) in.push_back({ v, 0 });
    for (const Layer *l : c) {
        DV o;
        auto W = [&](int i) { return D { l->weights[i], sd.what == 0 && sd.l == l && sd.i == i ? 1.0 : 0.0 }; };
        auto B = [&](int i) { return D { l->biases[i], sd.what == 1 && sd.l == l && sd.i == i ? 1.0 : 0.0 }; };
        auto f = fixed.find(l);
        if (f != fixed.end()) {
            for (double v : f->second) o.push_back({ v, 0 });
        } else
            switch (l->type) {
                case CONNECTED:
                    for (int k = 0; k < l->n_outputs; ++k) {
                        D s = B(k);
                        for (int i = 0; i < l->n_inputs; ++i) s = s + W(k * l->n_inputs + i) * in[(size_t) i];
                        o.push_back(dact(l->function, s));
                    }
                    break;
                case CONVOLUTIONAL: {
                    const int oh = (l->height + 2 * l->pad - l->size) / l->stride + 1, ow = (l->width + 2 * l->pad - l->size) / l->stride + 1;
                    for (int fl = 0; fl < l->n_filters; ++fl)
                        for (int r = 0; r < oh; ++r)
                            for (int q = 0; q < ow; ++q) {
                                D s = B(fl);
                                for (int ch = 0; ch < l->channels; ++ch)
                                    for (int a = 0; a < l->size; ++a)
                                        for (int b = 0; b < l->size; ++b) {
                                            const int y = r * l->stride + a - l->pad, xx = q * l->stride + b - l->pad;
                                            if (y < 0 || xx < 0 || y >= l->height || xx >= l->width) continue;
                                            s = s + W(((fl * l->channels + ch) * l->size + a) * l->size + b) * in[(size_t) ((ch * l->height + y) * l->width + xx)];
                                        }
                                o.push_back(dact(l->function, s));
                            }
                    break;
                }
                case DROPOUT:
                case NOISE: {
                    const Mask &m = masks.at(l);
                    for (size_t i = 0; i < in.size(); ++i) o.push_back({ in[i].v * m.mul[i] + m.add[i], in[i].d * m.mul[i] });
                    break;
                }
                case SOFTMAX: o = in; break; // see softmax gradients below
                case AVGPOOL: {
                    const int k = l->height * l->width;
                    for (int ch = 0; ch < l->channels; ++ch) {
                        D s;
                        for (int i = 0; i < k; ++i) s = s + in[(size_t) (ch * k + i)];
                        o.push_back({ s.v / k, s.d / k });
                    }
                    break;
                }
                case MAXPOOL: {
                    for (int ch = 0; ch < l->channels; ++ch)
                        for (int r = 0; r < l->out_h; ++r)
                            for (int q = 0; q < l->out_w; ++q) {
                                D m { -DBL_MAX, 0 };
                                for (int a = 0; a < l->size; ++a)
                                    for (int b = 0; b < l->size; ++b) {
                                        const int y = r * l->stride + a - l->pad / 2, xx = q * l->stride + b - l->pad / 2;
                                        if (y < 0 || xx < 0 || y >= l->height || xx >= l->width) continue;
                                        const D e = in[(size_t) ((ch * l->height + y) * l->width + xx)];
                                        if (e.v > m.v) m = e;
                                    }
                                o.push_back(m);
                            }
                    break;
                }
                case UPSAMPLE:
                    for (int ch = 0; ch < l->channels; ++ch)
                        for (int r = 0; r < l->height * l->stride; ++r)
                            for (int q = 0; q < l->width * l->stride; ++q) o.push_back(in[(size_t) ((ch * l->height + r / l->stride) * l->width + q / l->stride)]);
                    break;
                default: mc::fail("oracle", "no derivative for layer type %d", l->type);
            }
        if (sd.what == 2 && sd.l == l) o[(size_t) sd.i].d += 1;
        in = o;
    }
    return in;
}
// minus the derivative of half the squared error (or of the cross entropy after a softmax)
static double descent(const vector<Layer *> &c, const V &x, const V &y, const std::map<const Layer *, Mask> &m, const std::map<const Layer *, V> &fixed, Seed sd)
{
    DV o = dforward(c, x, m, fixed, sd);
    V p;
    if (c.back()->type == SOFTMAX) {
        double z = 0;
        for (auto &e : o) z += exp(e.v);
        for (auto &e : o) p.push_back(exp(e.v) / z);
    } else {
        for (auto &e : o) p.push_back(e.v);
    }
    double g = 0;
    for (size_t i = 0; i < o.size(); ++i) g += (y[i] - p[i]) * o[i].d;
    return g;
}
struct Mom {
    V w, b;
};
static Mask observed(const Layer *l, const V &in)
{
    Mask m;
    const double *o = layer_output(l);
    for (int i = 0; i < l->n_inputs; ++i) {
        if (l->type == DROPOUT) {
            const double s = 1 / (1 - l->probability);
            if (o[i] == 0) m.mul.push_back(0);
            else if (near(o[i], in[(size_t) i] * s, 1e-12, 1e-14)) m.mul.push_back(s);
            else mc::fail("dropout", "in training, dropout turned %g into %g (probability %g)", in[(size_t) i], o[i], l->probability);
            m.add.push_back(0);
        } else {
            m.mul.push_back(1);
            m.add.push_back(o[i] - in[(size_t) i]);
        }
    }
    return m;
}
// reference update of one leaf from its descent direction
static void advance(const Layer *l, bool on, const V &gw, const V &gb, Mom &m, V &w, V &b)
{
    w.assign(l->weights, l->weights + l->n_weights);
    b.assign(l->biases, l->biases + l->n_biases);
    if (m.w.empty()) {
        m.w.assign((size_t) l->n_weights, 0);
        m.b.assign((size_t) l->n_biases, 0);
    }
    if (!on || !(l->eta > 0)) return;
    for (size_t i = 0; i < b.size(); ++i) {
        m.b[i] += gb[i];
        b[i] = ref::clampd(b[i] + l->eta * m.b[i], -10, 10);
        m.b[i] *= l->momentum;
    }
    for (size_t i = 0; i < w.size(); ++i) {
        m.w[i] += gw[i] - l->decay * w[i];
        w[i] = l->weight_active[i] ? ref::clampd(w[i] + l->eta * m.w[i], -10, 10) : 0;
        m.w[i] *= l->momentum;
    }
}
static void compare(const Layer *l, const V &w, const V &b, const char *what, int step)
{
    for (size_t i = 0; i < w.size(); ++i)
        if (!near(l->weights[i], w[i], 1e-9, 1e-11)) mc::fail("weight-step", "%s, step %d: weight %zu became %.12g, expected %.12g", what, step, i, l->weights[i], w[i]);
    for (size_t i = 0; i < b.size(); ++i)
        if (!near(l->biases[i], b[i], 1e-9, 1e-11)) mc::fail("bias-step", "%s, step %d: bias %zu became %.12g, expected %.12g", what, step, i, l->biases[i], b[i]);
}
static void learns(int n_in, const Arch &a, int steps, double alpha_draw = -1)
{
    Net *n = build(n_in, a);
    const int variant = mc::choose(3);
    weights(n, variant, variant == 2);
    const int start = mc::choose(3);
    mc::log("weights %d, samples from %d", variant, start);
    auto c = chain(n);
    std::map<const Layer *, Mom> mom;
    for (int t = 0; t < steps; ++t) {
        const V x = input(n_in, (start + t) % 3);
        V y = targets(n->n_outputs, start + t);
        if (c.back()->type == SOFTMAX)
            for (int i = 0; i < n->n_outputs; ++i) y[(size_t) i] = i == (start + t) % n->n_outputs;
        neural_propagate(n, x.data(), true);
        std::map<const Layer *, Mask> masks;
        V in = x;
        for (const Layer *l : c) {
            if (l->type == DROPOUT || l->type == NOISE) masks[l] = observed(l, in);
            else same("training pass", layer_output(l), ref::forward_layer(l, in));
            in.assign(layer_output(l), layer_output(l) + l->n_outputs);
        }
        std::map<const Layer *, std::pair<V, V>> want;
        for (const Layer *l : c) {
            if (l->type != CONNECTED && l->type != CONVOLUTIONAL) continue;
            V gw, gb, w, b;
            for (int i = 0; i < l->n_weights; ++i) gw.push_back(descent(c, x, y, masks, {}, { l, i, 0 }));
            for (int i = 0; i < l->n_biases; ++i) gb.push_back(descent(c, x, y, masks, {}, { l, i, 1 }));
            advance(l, l->options & LAYER_SGD_WEIGHTS, gw, gb, mom[l], w, b);
            want[l] = { w, b };
        }
        neural_learn(n, y.data(), x.data());
        for (auto &p : want) compare(p.first, p.second.first, p.second.second, p.first->type == CONNECTED ? "connected layer" : "convolution", t);
        net_ok(n);
        mc::step();
        mc::validated();
        mc::Hash h;
        for (const Layer *l : c)
            if (want.count(l)) h.v(want[l].first), h.v(want[l].second);
        mc::state(h.h);
    }
    drop(n);
}
// recurrent and LSTM layers: the truncated one-step rule that the library's own tests pin down
static V outer(const V &d, const V &x)
{
    V r;
    for (double a : d)
        for (double b : x) r.push_back(a * b);
    return r;
}
static void recurrents(int n_in, const Arch &a, int steps)
{
    Net *n = build(n_in, a);
    const int variant = mc::choose(3), start = mc::choose(2);
    weights(n, variant, variant == 2);
    auto c = chain(n);
    Layer *r = c[0];
    std::map<const Layer *, Mom> mom;
    V dc((size_t) r->n_outputs, 0);
    for (int t = 0; t < steps; ++t) {
        const V x = input(n_in, (start + t) % 3), y = targets(n->n_outputs, start + t);
        const V hidden_before(r->state, r->state + r->n_outputs);
        V cell, hs;
        if (r->type == LSTM) {
            cell.assign(r->c, r->c + r->n_outputs);
            hs.assign(r->h, r->h + r->n_outputs);
        }
        const V expect = ref::forward(n, x);
        // gates before the pass
        V F, I, G, O, cn, hid, so;
        const int k = r->n_outputs;
        if (r->type == LSTM) {
            auto gate = [&](const Layer *u, const Layer *w, int f) {
                V p = ref::applyf(ref::affine(u, x), LINEAR), q = ref::applyf(ref::affine(w, hs), LINEAR);
                for (int i = 0; i < k; ++i) p[(size_t) i] += q[(size_t) i];
                return ref::applyf(p, f);
            };
            F = gate(r->uf, r->wf, r->recurrent_function);
            I = gate(r->ui, r->wi, r->recurrent_function);
            G = gate(r->ug, r->wg, r->function);
            O = gate(r->uo, r->wo, r->recurrent_function);
            for (int i = 0; i < k; ++i) cn.push_back(ref::clampd(F[(size_t) i] * cell[(size_t) i] + I[(size_t) i] * G[(size_t) i], -1e9, 1e9));
        } else {
            V prev(r->output_layer->output, r->output_layer->output + k);
            hid = ref::applyf(ref::affine(r->input_layer, x), LINEAR);
            V s = ref::applyf(ref::affine(r->self_layer, prev), LINEAR);
            for (int i = 0; i < k; ++i) hid[(size_t) i] += s[(size_t) i];
            so = ref::affine(r->output_layer, hid);
        }
        neural_propagate(n, x.data(), true);
        same("recurrent pass", neural_outputs(n), expect);
        const V out(layer_output(r), layer_output(r) + k);
        // descent direction at the layer's output
        std::map<const Layer *, V> fixed;
        fixed[r] = out;
        V d;
        for (int i = 0; i < k; ++i) d.push_back(descent(c, x, y, {}, fixed, { r, i, 2 }));
        std::map<const Layer *, std::pair<V, V>> want;
        auto leaf = [&](const Layer *l, const V &delta, const V &in) {
            V w, b;
            // gates and parts are linear layers: the direction passes through them, saturated or not
            advance(l, (r->options & LAYER_SGD_WEIGHTS) != 0, outer(delta, in), delta, mom[l], w, b);
            want[l] = { w, b };
        };
        const V zero((size_t) k, 0);
        if (r->type == RECURRENT) {
            V od = d, hd((size_t) k, 0);
            for (int i = 0; i < k; ++i) od[(size_t) i] *= ref::dact(r->function, ref::clampd(so[(size_t) i], -100, 100));
            for (int i = 0; i < k; ++i)
                for (int j = 0; j < k; ++j) hd[(size_t) j] += od[(size_t) i] * r->output_layer->weights[i * k + j];
            leaf(r->output_layer, od, hid);
            leaf(r->self_layer, hd, hidden_before);
            leaf(r->input_layer, hd, x);
        } else {
            V go, gg, gi, gf, t2;
            for (int i = 0; i < k; ++i) {
                const size_t q = (size_t) i;
                const double ac = ref::act(r->function, ref::clampd(cn[q], -100, 100));
                t2.push_back(d[q] * O[q] * ref::dact(r->function, ac) + dc[q]);
                go.push_back(d[q] * ac * ref::dact(r->recurrent_function, O[q]));
                gg.push_back(t2[q] * I[q] * ref::dact(r->function, G[q]));
                gi.push_back(t2[q] * G[q] * ref::dact(r->recurrent_function, I[q]));
                gf.push_back(0);
                dc[q] = t2[q] * F[q];
            }
            leaf(r->wo, go, zero); leaf(r->uo, go, x);
            leaf(r->wg, gg, zero); leaf(r->ug, gg, x);
            leaf(r->wi, gi, zero); leaf(r->ui, gi, x);
            leaf(r->wf, gf, zero); leaf(r->uf, gf, x);
        }
        for (size_t q = 1; q < c.size(); ++q) {
            const Layer *l = c[q];
            V gw, gb, w, b;
            for (int i = 0; i < l->n_weights; ++i) gw.push_back(descent(c, x, y, {}, fixed, { l, i, 0 }));
            for (int i = 0; i < l->n_biases; ++i) gb.push_back(descent(c, x, y, {}, fixed, { l, i, 1 }));
            advance(l, l->options & LAYER_SGD_WEIGHTS, gw, gb, mom[l], w, b);
            want[l] = { w, b };
        }
        neural_learn(n, y.data(), x.data());
        for (auto &p : want) compare(p.first, p.second.first, p.second.second, r->type == LSTM ? "LSTM network" : "recurrent network", t);
        mc::step();
        mc::validated();
    }
    drop(n);
}
// the fraction of dropped (or disturbed) inputs over a grid of draws
static void dropout_rate(int type, double p)
{
    L l = plain(type);
    l.prob = p; l.scale = 0.5; l.n = 1;
    Net *n = build(1, { l });
    const int N = 200;
    int hit = 0;
    const V x = { 0.8 };
    for (int k = 0; k < N; ++k) {
        mc::script({ (k + 0.5) / N, 0.3, 0.7 });
        neural_propagate(n, x.data(), true);
        const double o = neural_outputs(n)[0];
        if (o != x[0] * (type == DROPOUT ? 1 / (1 - p) : 1)) ++hit;
        mc::script({});
        mc::step();
    }
    if (abs(hit - (int) lround(p * N)) > 1) mc::fail("rate", "probability %g, but %d of %d inputs were changed", p, hit, N);
    for (int k = 0; k < 20; ++k) {
        mc::script({ (k + 0.5) / 20 });
        neural_propagate(n, x.data(), false);
        if (neural_outputs(n)[0] != x[0]) mc::fail("inference-noise", "outside training the layer changed its input");
        mc::script({});
    }
    drop(n);
}

// ---------------------------------------------------------------- evolution keeps shapes
static Arch evolving(Arch a)
{
    for (L &l : a) {
        const bool last = &l == &a.back();
        if (l.type == CONNECTED || l.type == CONVOLUTIONAL || l.type == RECURRENT || l.type == LSTM) {
            l.ew = l.ef = l.ee = l.ec = true;
            l.grow = 2;
            l.eta = 0.1;
            l.eta_min = 0.02;
            if (!last) {
                l.en = true;
                l.nmax = l.n + 2;
            }
        }
    }
    return a;
}
static void evolves(int n_in, const Arch &a, int muts)
{
    Net *n = build(n_in, evolving(a));
    const int outs = n->n_outputs;
    net_ok(n);
    for (int m = 0; m < muts; ++m) {
        mc::branch(m < 2);
        const bool mod = neural_mutate(n);
        mc::branch(false);
        (void) mod;
        net_ok(n, true);
        if (n->n_outputs != outs || n->n_inputs != n_in) mc::fail("ends", "mutation changed the network's inputs or outputs");
        double size = 0;
        for (const Layer *l : chain(n))
            if (!leaves(const_cast<Layer *>(l)).empty()) size += l->n_active;
        if (neural_size(n) != size) mc::fail("size", "network size %g, active weights %g", neural_size(n), size);
        const V x = input(n_in, m % 3), y = targets(outs, m);
        forward_check(n, x, false, "after mutation");
        neural_propagate(n, x.data(), true);
        neural_learn(n, y.data(), x.data());
        net_ok(n);
        if (m == 0) {
            Net q;
            neural_copy(&q, n);
            net_ok(&q);
            const V o = ref::forward(&q, x);
            neural_propagate(&q, x.data(), false);
            same("copy", neural_outputs(&q), o);
            neural_free(&q);
        }
        mc::Hash h;
        V dd;
        dump_net(n, dd, false);
        h.v(dd);
        mc::state(h.h);
        mc::step();
    }
    neural_rand(n);
    for (Layer *top : chain(n))
        for (Layer *l : leaves(top)) {
            int act = 0;
            for (int i = 0; i < l->n_weights; ++i) act += l->weight_active[i];
            if (act != l->n_active) mc::fail("rand", "after randomising, %d active weights are counted as %d", act, l->n_active);
        }
    forward_check(n, input(n_in, 1), false, "after randomising");
    drop(n);
}
// inserting and removing layers anywhere
static void surgery()
{
    const int depth = 1 + mc::choose(3);
    Arch a;
    for (int i = 0; i < depth; ++i) a.push_back(conn(i + 1 == depth ? 2 : 3 + i, TANH));
    Net *n = build(3, a);
    for (int op = 0; op < 2; ++op) {
        const bool ins = mc::flip();
        const int pos = mc::choose(n->n_layers + (ins ? 1 : 0));
        auto c = chain(n);
        mc::log("%s at %d of %d", ins ? "insert" : "remove", pos, n->n_layers);
        if (ins) {
            L l = conn(pos == (int) c.size() ? 2 : 4, LOGISTIC);
            ArgsLayer *ar = layers(pos ? c[(size_t) pos - 1]->n_outputs : 3, { l });
            Layer *nl = layer_init(ar);
            layer_args_free(&ar);
            neural_insert(n, nl, pos);
            if (chain(n)[(size_t) pos] != nl) mc::fail("insert", "the layer inserted at %d is not there", pos);
        } else {
            if (n->n_layers < 2) break;
            if (pos == 0) break; // removing the first layer changes the network's inputs: not used by the library
            neural_remove(n, pos);
        }
        neural_resize(n);
        net_ok(n);
        const V x = input(3, 0);
        forward_check(n, x, false, "after surgery");
        neural_propagate(n, x.data(), true);
        const V y = targets(n->n_outputs, 0);
        neural_learn(n, y.data(), x.data());
        net_ok(n);
    }
    drop(n);
}
// growing prediction networks and turning an autoencoder into a classifier, then training on
static void regrow(const Arch &pnet, int cond)
{
    Cfg c;
    c.cond = cond;
    c.x = 3;
    c.y = 3;
    c.pop = 6;
    c.pred = PRED_TYPE_NEURAL;
    c.pnet = pnet;
    c.theta_ea = 0;
    c.loss = LOSS_MSE;
    XCSF *s = make(c);
    for (int i = 0; i < 3; ++i) fit1(s, sample(c, i), sample(c, i));
    const int plan = mc::choose(3);
    const int n_del = mc::choose(3);
    vector<int> lay;
    for (Cl *r : rules(s->pset)) lay.push_back(((PredNeural *) r->pred)->net.n_layers);
    if (plan != 1) {
        xcsf_pred_expand(s);
        size_t k = 0;
        for (Cl *r : rules(s->pset)) {
            const Net *n = &((PredNeural *) r->pred)->net;
            net_ok(n);
            if (n->n_layers != lay[k] + 1) mc::fail("expand", "expanding a %d-layer network left %d layers", lay[k], n->n_layers);
            if (n->n_inputs != 3 || n->n_outputs != 3) mc::fail("expand", "the expanded network maps %d to %d", n->n_inputs, n->n_outputs);
            ++k;
        }
        for (int i = 0; i < 2; ++i) fit1(s, sample(c, i), sample(c, i));
    }
    if (plan != 0) {
        xcsf_ae_to_classifier(s, 2, n_del);
        for (Cl *r : rules(s->pset)) {
            const Net *n = &((PredNeural *) r->pred)->net;
            net_ok(n);
            if (n->n_outputs != 2) mc::fail("classifier", "the classifier has %d outputs", n->n_outputs);
            if (n->head->layer->type != SOFTMAX) mc::fail("classifier", "the classifier does not end in a softmax");
        }
        if (s->y_dim != 2) mc::fail("classifier", "%d outputs", s->y_dim);
    }
    for (int i = 0; i < 4; ++i) {
        const V y = s->y_dim == 2 ? V { (double) (i % 2), (double) (1 - i % 2) } : sample(c, i);
        fit1(s, sample(c, i), y);
        for (Cl *r : rules(s->pset)) {
            const Net *n = &((PredNeural *) r->pred)->net;
            net_ok(n);
            if (n->n_inputs != 3 || n->n_outputs != s->y_dim) mc::fail("trained", "after further training a network maps %d to %d, the problem %d to %d", n->n_inputs, n->n_outputs, 3, s->y_dim);
        }
        mc::step();
    }
    destroy(s);
}

void mc::scenarios()
{
    Opt o;
    o.leak = true;
    const vector<int> F = { LOGISTIC, RELU, TANH, LINEAR, GAUSSIAN, SIN, COS, SOFT_PLUS, LEAKY, SELU, LOGGY };
    for (int f : F) {
        const string s = neural_activation_string(f);
        for (int in : { 1, 3 }) {
            const string t = s + "-" + std::to_string(in);
            mc::add("forward-" + t, o, [=] {
                forwards(in, { conn(1, f) }, 5);
                forwards(in, { conn(3, f), conn(2, TANH) }, 5);
                forwards(in, { conn(3, LOGISTIC), conn(2, f), conn(2, LINEAR) }, 5);
            });
            mc::add("learn-" + t, o, [=] {
                const int k = mc::choose(4);
                L q = conn(3, f);
                q.mom = k % 2 ? 0.9 : 0;
                q.decay = k / 2 ? 0.05 : 0;
                learns(in, { q, conn(2, LINEAR) }, 4);
                learns(in, { conn(2, LOGISTIC), q, conn(2, f) }, 3);
            });
        }
        mc::add("rnn-" + s, o, [=] {
            L r; r.type = RECURRENT; r.n = 2; r.func = f;
            forwards(2, { r }, 5);
            forwards(2, { r, conn(2, LINEAR) }, 5);
            L q; q.type = LSTM; q.n = 2; q.func = f; q.rfunc = LOGISTIC;
            forwards(2, { q }, 5);
            L q2 = q; q2.func = TANH; q2.rfunc = f;
            forwards(2, { q2, conn(2, LINEAR) }, 5);
        });
        mc::add("rnn-learn-" + s, o, [=] {
            L r; r.type = RECURRENT; r.n = 2; r.func = f;
            recurrents(2, { r, conn(2, LINEAR) }, 4);
        });
        mc::add("lstm-learn-" + s, o, [=] {
            L q; q.type = LSTM; q.n = 2; q.func = f; q.rfunc = LOGISTIC;
            if (mc::flip()) q.func = TANH, q.rfunc = f;
            recurrents(2, { q, conn(2, LINEAR) }, 4);
        });
    }
    mc::add("rnn-only", o, [=] {
        L r; r.type = RECURRENT; r.n = 3; r.func = TANH;
        recurrents(1 + mc::choose(2), { r }, 5);
    });
    mc::add("lstm-only", o, [=] {
        L r; r.type = LSTM; r.n = 3; r.func = TANH; r.rfunc = LOGISTIC; r.decay = 0;
        recurrents(1 + mc::choose(2), { r }, 5);
    });
    // layers whose weights do not learn, rates of zero, saturating weights
    mc::add("learn-frozen", o, [=] {
        const int k = mc::choose(5);
        L a = conn(3, TANH), b = conn(2, LOGISTIC), c = conn(2, LINEAR);
        if (k == 0) a.sgd = false;
        if (k == 1) b.sgd = false;
        if (k == 2) c.sgd = false;
        if (k == 3) b.eta = 0;
        if (k == 4) c.eta = 40; // into the weight limits
        learns(2, { a, b, c }, 4);
    });
    // learning rates, momentum and decay over several orders of magnitude
    mc::add("learn-rates", o, [=] {
        L q = conn(3, TANH), r = conn(2, LINEAR);
        q.eta = mc::pick({ 0.001, 0.03, 0.25, 0.5, 1 });
        r.eta = mc::pick({ 0.02, 0.5 });
        q.mom = r.mom = mc::pick({ 0, 0.001, 0.03, 0.25, 1 });
        q.decay = r.decay = mc::pick({ 0, 0.0001, 0.04, 0.5, 1 });
        learns(2, { q, r }, 3);
    });
    mc::add("rnn-learn-rates", o, [=] {
        L q;
        q.type = mc::flip() ? RECURRENT : LSTM;
        q.n = 2;
        q.func = TANH;
        q.rfunc = LOGISTIC;
        q.eta = mc::pick({ 0.001, 0.25, 0.5, 1 });
        q.mom = mc::pick({ 0, 0.03, 0.25, 1 });
        q.decay = mc::pick({ 0, 0.0001, 0.04, 0.5 });
        recurrents(2, { q, conn(2, LINEAR) }, 3);
    });
    mc::add("learn-softmax", o, [=] {
        L m = plain(SOFTMAX);
        m.scale = 1; m.n = 3;
        learns(2, { conn(3, TANH), conn(3, LINEAR), m }, 4);
    });
    mc::add("forward-softmax", o, [=] {
        L m = plain(SOFTMAX);
        m.scale = mc::pick({ 1, 0.5, 3 }); m.n = 3;
        forwards(2, { conn(3, LINEAR), m }, 5);
        forwards(3, { m }, 5);
    });
    mc::add("inference-noise", o, [=] {
        L d = plain(mc::flip() ? DROPOUT : NOISE);
        d.prob = mc::pick({ 0, 0.25, 0.9, 1 });
        d.scale = mc::pick({ 0, 0.3, 2 });
        d.n = 3;
        forwards(2, { conn(3, TANH), d, conn(2, LINEAR) }, 5);
        forwards(3, { d, conn(2, LINEAR) }, 5);
    });
    for (double p : { 0.25, 0.5, 0.8 }) {
        mc::add("dropout-rate-" + std::to_string(p), o, [=] { dropout_rate(DROPOUT, p); });
        mc::add("noise-rate-" + std::to_string(p), o, [=] { dropout_rate(NOISE, p); });
    }
    for (int t : { DROPOUT, NOISE }) {
        Opt b = o;
        b.bound = 2;
        mc::add(string("learn-") + (t == DROPOUT ? "dropout" : "noise"), b, [=] {
            L d = plain(t);
            d.prob = 0.5; d.scale = 0.3; d.n = 3;
            mc::branch(true);
            learns(2, { conn(3, TANH), d, conn(2, LINEAR) }, 2);
        });
        mc::add(string("learn-first-") + (t == DROPOUT ? "dropout" : "noise"), b, [=] {
            L d = plain(t);
            d.prob = 0.5; d.scale = 0.3; d.n = 2;
            mc::branch(true);
            learns(2, { d, conn(2, LINEAR) }, 2);
        });
    }
    // images
    const int big = mc::thorough() ? 5 : 4;
    for (int ch : { 1, 2 })
        for (int size : { 1, 2, 3 })
            for (int stride : { 1, 2, 3 })
                for (int pad : { 0, 1, 2 }) {
                    const string t = "c" + std::to_string(ch) + "s" + std::to_string(size) + "t" + std::to_string(stride) + "p" + std::to_string(pad);
                    mc::add("conv-" + t, o, [=] {
                        const int h = 1 + mc::choose(big), w = 1 + mc::choose(big), fl = 1 + mc::choose(2);
                        if (h + 2 * pad < size || w + 2 * pad < size) return;
                        const L c = convl(fl, TANH, h, w, ch, size, stride, pad);
                        forwards(h * w * ch, { c }, 2);
                        const int oh = (h + 2 * pad - size) / stride + 1, ow = (w + 2 * pad - size) / stride + 1;
                        if (h != w) learns(h * w * ch, { c }, 2);
                        else learns(h * w * ch, { c, conn(2, LINEAR) }, 2);
                        (void) oh; (void) ow;
                    });
                    mc::add("conv2-" + t, o, [=] {
                        // a convolution fed by another one: the error must pass through it
                        const int h = 2 + mc::choose(2), w = 2 + mc::choose(2);
                        const L a = convl(ch, LOGISTIC, h, w, 1, 2, 1, 1);
                        if (h + 1 + 2 * pad < size || w + 1 + 2 * pad < size) return;
                        L b = convl(2, TANH, h + 1, w + 1, ch, size, stride, pad);
                        if (mc::flip()) b.sgd = false;
                        forwards(h * w, { a, b, conn(1, LINEAR) }, 2);
                        learns(h * w, { a, b, conn(1, LINEAR) }, 2);
                    });
                    mc::add("maxpool-" + t, o, [=] {
                        const int h = 1 + mc::choose(big), w = 1 + mc::choose(big);
                        if (pad - pad / 2 >= size || h + pad < size || w + pad < size) return;
                        L m = image(MAXPOOL, h, w, ch);
                        m.size = size; m.stride = stride; m.pad = pad;
                        for (int d = 0; d < 2; ++d) {
                            const int last = ((d ? w : h) + pad - size) / stride * stride - pad / 2;
                            if (last >= (d ? w : h)) return;
                        }
                        forwards(h * w * ch, { m }, 3);
                        const L c = convl(ch, LOGISTIC, h, w, 1, 1, 1, 0);
                        learns(h * w, { c, m, conn(1, LINEAR) }, 2);
                    });
                }
    for (int ch : { 1, 2, 3 })
        for (int st : { 1, 2, 3 }) mc::add("pool-c" + std::to_string(ch) + "t" + std::to_string(st), o, [=] {
            const int h = 1 + mc::choose(3), w = 1 + mc::choose(3);
            L ap = image(AVGPOOL, h, w, ch), up = image(UPSAMPLE, h, w, ch);
            up.stride = st;
            const L c = convl(ch, TANH, h, w, 1, 1, 1, 0);
            if (st == 1) {
                forwards(h * w * ch, { ap }, 3);
                learns(h * w, { c, ap, conn(1, LINEAR) }, 2);
            }
            forwards(h * w * ch, { up }, 3);
            learns(h * w, { c, up, conn(2, LINEAR) }, 2);
        });
    mc::add("learn-image-stack", o, [=] {
        L c1 = convl(2, LOGISTIC, 4, 4, 1, 2, 1, 1), mp = image(MAXPOOL, 5, 5, 2), c2 = convl(2, TANH, 2, 2, 2, 2, 1, 1), up = image(UPSAMPLE, 3, 3, 2), ap = image(AVGPOOL, 6, 6, 2);
        mp.size = 2; mp.stride = 2; mp.pad = 0;
        up.stride = 2;
        forwards(16, { c1, mp, c2, up, ap, conn(2, LINEAR) }, 3);
        learns(16, { c1, mp, c2, up, ap, conn(2, LINEAR) }, 3);
    });
    // larger networks
    for (int in : { 9, 20, 40 })
        for (int hid : { 8, 17, 33 }) mc::add("wide-" + std::to_string(in) + "-" + std::to_string(hid), o, [=] {
            const int out = 1 + 11 * mc::choose(2);
            forwards(in, { conn(hid, TANH), conn(out, LINEAR) }, 3);
            forwards(in, { conn(hid, LOGISTIC), conn(hid + 3, RELU), conn(hid, TANH), conn(out, LINEAR) }, 2);
            if (mc::flip()) learns(in, { conn(hid, TANH), conn(out, LINEAR) }, 2);
            else if (in * hid < 400) learns(in, { conn(hid, LOGISTIC), conn(hid / 2, TANH), conn(out, LINEAR) }, 2);
        });
    for (int k : { 7, 12, 18 }) {
        mc::add("wide-rnn-" + std::to_string(k), o, [=] {
            L r; r.type = RECURRENT; r.n = k; r.func = TANH;
            forwards(k - 2, { r, conn(k + 1, TANH), conn(2, LINEAR) }, 5);
            recurrents(k - 2, { r, conn(5, LINEAR) }, 3);
        });
        mc::add("wide-lstm-" + std::to_string(k), o, [=] {
            L r; r.type = LSTM; r.n = k; r.func = TANH; r.rfunc = LOGISTIC;
            forwards(k - 2, { r, conn(k + 1, TANH), conn(2, LINEAR) }, 5);
            recurrents(k - 2, { r, conn(5, LINEAR) }, 3);
        });
        mc::add("wide-softmax-" + std::to_string(k), o, [=] {
            L m = plain(SOFTMAX);
            m.scale = mc::pick({ 0.5, 1, 2 });
            m.n = k;
            forwards(4, { conn(k, LINEAR), m }, 3);
        });
        mc::add("wide-conv-" + std::to_string(k), o, [=] {
            const int h = k > 12 ? 8 : 6, w = k > 7 ? 9 : 5, ch = k > 12 ? 3 : 1;
            const L c = convl(5 + k % 4, TANH, h, w, ch, 3 + k % 2, 1 + k % 3 / 2, 1);
            forwards(h * w * ch, { c }, 2);
            learns(h * w * ch, { c }, 1);
            L mp = image(MAXPOOL, h, w, ch);
            mp.size = 2; mp.stride = 2; mp.pad = 0;
            forwards(h * w * ch, { mp }, 3);
        });
    }
    // evolution
    struct E { string name; int in; Arch a; };
    vector<E> es;
    es.push_back({ "one", 3, { conn(2, LINEAR) } });
    es.push_back({ "two", 2, { conn(2, TANH), conn(2, LINEAR) } });
    es.push_back({ "three", 3, { conn(1, TANH), conn(2, LOGISTIC), conn(1, LINEAR) } });
    L dr = plain(DROPOUT); dr.prob = 0.5;
    L nz = plain(NOISE); nz.prob = 0.5; nz.scale = 0.2;
    es.push_back({ "through", 2, { conn(2, TANH), dr, nz, conn(1, LINEAR) } });
    L rn; rn.type = RECURRENT; rn.n = 2; rn.func = TANH;
    L ls; ls.type = LSTM; ls.n = 2; ls.func = TANH;
    es.push_back({ "rnn", 2, { rn, conn(1, LINEAR) } });
    es.push_back({ "lstm", 2, { ls, conn(1, LINEAR) } });
    es.push_back({ "mix", 2, { conn(2, TANH), rn, ls, conn(1, LINEAR) } });
    L mp = image(MAXPOOL, 3, 3, 2); mp.size = 2; mp.stride = 1;
    L ap = image(AVGPOOL, 3, 3, 2), up = image(UPSAMPLE, 2, 2, 1); up.stride = 2;
    es.push_back({ "conv", 4, { convl(2, TANH, 2, 2, 1, 2, 1, 1), conn(1, LINEAR) } });
    es.push_back({ "conv-conv", 4, { convl(2, TANH, 2, 2, 1, 2, 1, 1), convl(1, LOGISTIC, 3, 3, 2, 2, 1, 0), conn(1, LINEAR) } });
    es.push_back({ "conv-max", 4, { convl(2, TANH, 2, 2, 1, 2, 1, 1), mp, conn(1, LINEAR) } });
    es.push_back({ "conv-avg", 4, { convl(2, TANH, 2, 2, 1, 2, 1, 1), ap, conn(1, LINEAR) } });
    es.push_back({ "conv-up", 4, { convl(1, TANH, 2, 2, 1, 1, 1, 0), up, dr, nz, conn(1, LINEAR) } });
    es.push_back({ "conn-conv", 2, { conn(3, TANH), convl(1, TANH, 1, 3, 1, 1, 1, 0), conn(1, LINEAR) } });
    es.push_back({ "conn-conv-wide", 2, { conn(3, TANH), convl(2, TANH, 1, 3, 1, 2, 1, 1), mp, conn(1, LINEAR) } });
    es.push_back({ "conn-up", 2, { conn(2, TANH), up, conn(1, LINEAR) } });
    es.push_back({ "rnn-conv", 2, { rn, convl(1, TANH, 1, 2, 1, 1, 1, 0), conn(1, LINEAR) } });
    es.push_back({ "lstm-up", 2, { ls, up, conn(1, LINEAR) } });
    es.push_back({ "conn-drop-conv", 2, { conn(2, TANH), dr, convl(1, TANH, 1, 2, 1, 1, 1, 0), conn(1, LINEAR) } });
    const int seeds = mc::thorough() ? 12 : 3;
    for (auto &e : es)
        for (int sd = 1; sd <= seeds; ++sd) {
            Opt b = o;
            b.bound = 1;
            b.seed = (uint64_t) sd * 101;
            b.cap = mc::thorough() ? 20000 : 1500;
            b.alpha = { 1e-9, 0.02, 0.5, 1 - 1e-9 };
            const auto q = e;
            mc::add("evolve-" + e.name + "-" + std::to_string(sd), b, [=] { evolves(q.in, q.a, 6); });
            Opt z = o;
            z.seed = (uint64_t) sd * 977;
            mc::add("drift-" + e.name + "-" + std::to_string(sd), z, [=] {
                mc::seed_stream((uint64_t) (sd * 1000 + mc::choose(12)));
                evolves(q.in, q.a, 40);
            });
        }
    mc::add("surgery", o, [=] { surgery(); });
    for (int cond : { COND_TYPE_DUMMY, COND_TYPE_HYPERRECTANGLE_CSR, COND_TYPE_HYPERELLIPSOID }) {
        L h = conn(2, TANH);
        h.nmax = 4; h.en = h.ec = h.ee = true;
        const string t = cond_name(cond);
        mc::add("regrow-single-" + t, o, [=] { regrow({ conn(3, LINEAR) }, cond); });
        mc::add("regrow-two-" + t, o, [=] { regrow({ h, conn(3, LINEAR) }, cond); });
        mc::add("regrow-three-" + t, o, [=] { regrow({ h, conn(2, LOGISTIC), conn(3, LINEAR) }, cond); });
    }
}
