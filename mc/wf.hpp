// Well-formedness of networks and rules.
#pragma once
#include "ref.hpp"
#include <malloc.h>

namespace xc {
inline vector<Layer *> chain(const Net *n)
{
    vector<Layer *> r;
    int guard = 0;
    for (const Llist *i = n->tail; i; i = i->prev) {
        r.push_back(i->layer);
        if (++guard > 1000) mc::fail("list", "the layers do not end");
    }
    return r;
}
inline vector<Layer *> leaves(Layer *l) // the connected or convolutional parts
{
    if (l->type == CONNECTED || l->type == CONVOLUTIONAL) return { l };
    if (l->type == RECURRENT) return { l->input_layer, l->self_layer, l->output_layer };
    if (l->type == LSTM) return { l->uf, l->ui, l->ug, l->uo, l->wf, l->wi, l->wg, l->wo };
    return {};
}
// deterministic weights; pattern 1 switches some connections off
// ---------------------------------------------------------------- shapes
inline size_t room(const void *p) { return p ? malloc_usable_size(const_cast<void *>(p)) : 0; }
inline void need(const Layer *l, const void *p, long n, size_t each, const char *what)
{
    if (room(p) < (size_t) n * each) mc::fail("array", "layer type %d: %s has room for %zu of %ld values", l->type, what, room(p) / each, n);
}
inline void leaf_ok(const Layer *l, bool representation)
{
    const bool conv = l->type == CONVOLUTIONAL;
    if (conv) {
        const int oh = (l->height + 2 * l->pad - l->size) / l->stride + 1, ow = (l->width + 2 * l->pad - l->size) / l->stride + 1;
        if (l->out_h != oh || l->out_w != ow || l->out_c != l->n_filters || l->n_outputs != oh * ow * l->n_filters || l->n_inputs != l->height * l->width * l->channels)
            mc::fail("conv-shape", "convolution %dx%dx%d, %d filters of %d, stride %d, pad %d: %d inputs, output %dx%dx%d = %d", l->height, l->width, l->channels, l->n_filters, l->size, l->stride, l->pad, l->n_inputs, l->out_h, l->out_w, l->out_c, l->n_outputs);
        if (l->n_weights != l->channels * l->n_filters * l->size * l->size || l->n_biases != l->n_filters) mc::fail("conv-weights", "convolution has %d weights and %d biases", l->n_weights, l->n_biases);
        if (l->n_filters < 1 || l->n_filters > std::max(l->max_outputs, 1)) mc::fail("filters", "%d filters, limit %d", l->n_filters, l->max_outputs);
    } else {
        if (l->n_weights != l->n_inputs * l->n_outputs || l->n_biases != l->n_outputs) mc::fail("weights", "layer %d -> %d has %d weights and %d biases", l->n_inputs, l->n_outputs, l->n_weights, l->n_biases);
        if (l->n_outputs < 1 || l->n_outputs > l->max_outputs) mc::fail("neurons", "%d neurons, limit %d", l->n_outputs, l->max_outputs);
    }
    int act = 0;
    for (int i = 0; i < l->n_weights; ++i) {
        act += l->weight_active[i];
        if (!l->weight_active[i] && l->weights[i] != 0) mc::fail("inactive", "a connection that is switched off has weight %g", l->weights[i]);
        if (!(fabs(l->weights[i]) <= 10)) mc::fail("limits", "weight %g", l->weights[i]);
    }
    for (int i = 0; i < l->n_biases; ++i)
        if (!(fabs(l->biases[i]) <= 10)) mc::fail("limits", "bias %g", l->biases[i]);
    if (act != l->n_active) mc::fail("active", "%d active weights, counted as %d", act, l->n_active);
    if (!(l->eta >= 0)) mc::fail("eta", "learning rate %g", l->eta);
    if ((l->options & LAYER_EVOLVE_ETA) && !(l->eta >= l->eta_min && l->eta <= l->eta_max)) mc::fail("eta", "learning rate %g outside [%g, %g]", l->eta, l->eta_min, l->eta_max);
    if (l->function < 0 || l->function >= NUM_ACTIVATIONS) mc::fail("function", "activation function %d", l->function);
    if (representation && !conv)
        for (int o = 0; o < l->n_outputs; ++o) {
            bool any = false;
            for (int i = 0; i < l->n_inputs; ++i) any |= l->weight_active[o * l->n_inputs + i];
            if (!any) mc::fail("representation", "neuron %d of a %d -> %d layer has no active input", o, l->n_inputs, l->n_outputs);
        }
    if (representation && !conv)
        for (int i = 0; i < l->n_inputs; ++i) {
            bool any = false;
            for (int o = 0; o < l->n_outputs; ++o) any |= l->weight_active[o * l->n_inputs + i];
            if (!any) mc::fail("representation", "input %d of a %d -> %d layer is not used by any neuron", i, l->n_inputs, l->n_outputs);
        }
    need(l, l->weights, l->n_weights, 8, "weights");
    need(l, l->weight_active, l->n_weights, 1, "activity");
    need(l, l->weight_updates, l->n_weights, 8, "weight updates");
    need(l, l->biases, l->n_biases, 8, "biases");
    need(l, l->bias_updates, l->n_biases, 8, "bias updates");
    need(l, l->state, l->n_outputs, 8, "state");
    need(l, l->output, l->n_outputs, 8, "output");
    need(l, l->delta, l->n_outputs, 8, "delta");
}
inline void net_ok(const Net *n, bool representation = false)
{
    auto c = chain(n);
    if ((int) c.size() != n->n_layers) mc::fail("list", "%zu layers, counted as %d", c.size(), n->n_layers);
    int back = 0;
    for (const Llist *i = n->head; i; i = i->next) ++back;
    if (back != n->n_layers) mc::fail("list", "%d layers from the output side, %d counted", back, n->n_layers);
    if (n->head->layer != c.back() || n->tail->layer != c.front()) mc::fail("list", "the ends of the network are wrong");
    if (n->n_inputs != c.front()->n_inputs) mc::fail("net-inputs", "the network has %d inputs, its first layer %d", n->n_inputs, c.front()->n_inputs);
    if (n->n_outputs != c.back()->n_outputs) mc::fail("net-outputs", "the network has %d outputs, its last layer %d", n->n_outputs, c.back()->n_outputs);
    for (size_t k = 0; k < c.size(); ++k) {
        const Layer *l = c[k];
        if (k && l->n_inputs != c[k - 1]->n_outputs) mc::fail("chain", "layer %zu (type %d) takes %d inputs, the layer before (type %d) gives %d", k, l->type, l->n_inputs, c[k - 1]->type, c[k - 1]->n_outputs);
        need(l, layer_output(l), l->n_outputs, 8, "output");
        need(l, l->delta, l->n_outputs, 8, "delta");
        if (l->out_w && l->out_w * l->out_h * l->out_c != l->n_outputs) mc::fail("image", "layer %zu (type %d): image %dx%dx%d but %d outputs", k, l->type, l->out_h, l->out_w, l->out_c, l->n_outputs);
        switch (l->type) {
            case CONNECTED:
            case CONVOLUTIONAL: leaf_ok(l, representation && (l->options & LAYER_EVOLVE_CONNECT)); break;
            case RECURRENT:
            case LSTM: {
                long w = 0, b = 0, a = 0;
                for (const Layer *s : leaves(const_cast<Layer *>(l))) {
                    leaf_ok(s, false);
                    w += s->n_weights;
                    b += s->n_biases;
                    a += s->n_active;
                    if (s->n_outputs != l->n_outputs) mc::fail("parts", "a part of layer %zu has %d outputs, the layer %d", k, s->n_outputs, l->n_outputs);
                    if (s->eta != l->eta) mc::fail("parts", "a part of layer %zu learns at rate %g, the layer says %g", k, s->eta, l->eta);
                }
                if (w != l->n_weights || b != l->n_biases || a != l->n_active) mc::fail("parts", "layer %zu counts %d weights, %d biases, %d active; its parts have %ld, %ld, %ld", k, l->n_weights, l->n_biases, l->n_active, w, b, a);
                if (l->type == RECURRENT) {
                    if (l->input_layer->n_inputs != l->n_inputs || l->self_layer->n_inputs != l->n_outputs || l->output_layer->n_inputs != l->n_outputs) mc::fail("parts", "recurrent parts take the wrong number of inputs");
                    if (l->function != l->output_layer->function) mc::fail("parts", "the recurrent layer's function is not its output's");
                } else {
                    for (const Layer *s : { l->uf, l->ui, l->ug, l->uo })
                        if (s->n_inputs != l->n_inputs) mc::fail("parts", "a gate takes %d inputs, the layer %d", s->n_inputs, l->n_inputs);
                    for (const Layer *s : { l->wf, l->wi, l->wg, l->wo })
                        if (s->n_inputs != l->n_outputs) mc::fail("parts", "a recurrent gate takes %d inputs, the layer has %d outputs", s->n_inputs, l->n_outputs);
                }
                if (l->n_outputs > l->max_outputs) mc::fail("neurons", "%d neurons, limit %d", l->n_outputs, l->max_outputs);
                break;
            }
            case MAXPOOL:
                if (l->n_inputs != l->height * l->width * l->channels || l->out_h != (l->height + l->pad - l->size) / l->stride + 1 || l->out_w != (l->width + l->pad - l->size) / l->stride + 1 || l->out_c != l->channels)
                    mc::fail("pool", "max pooling shapes disagree");
                need(l, l->indexes, l->n_outputs, sizeof(int), "indexes");
                break;
            case AVGPOOL:
                if (l->n_inputs != l->height * l->width * l->channels || l->n_outputs != l->channels) mc::fail("pool", "average pooling shapes disagree");
                break;
            case UPSAMPLE:
                if (l->n_inputs != l->height * l->width * l->channels || l->out_h != l->height * l->stride || l->out_w != l->width * l->stride || l->out_c != l->channels) mc::fail("pool", "upsampling shapes disagree");
                break;
            default:
                if (l->n_inputs != l->n_outputs) mc::fail("through", "layer %zu (type %d) takes %d and gives %d", k, l->type, l->n_inputs, l->n_outputs);
        }
    }
    if (n->output != layer_output(n->head->layer) && n->output != n->head->layer->output) { /* cached pointer: not observable */ }
}


// ---------------------------------------------------------------- rules
// number of nodes of the tree starting at pos, -1 when it does not end within the array
inline int tree_end(const vector<int> &t, size_t pos)
{
    long open = 1;
    while (open > 0) {
        if (pos >= t.size()) return -1;
        open += t[pos++] < 4 ? 1 : -1;
    }
    return (int) pos;
}
inline double rate_min = 0; // the smallest rate a history without imports can hold
inline void rate_ok(const double *mu, int n, const char *what)
{
    for (int i = 0; i < n; ++i)
        if (!(mu[i] > 0 && mu[i] >= rate_min && mu[i] <= 1)) mc::fail("rate", "%s: mutation rate %d is %g", what, i, mu[i]);
}
inline void graph_ok(const Graph *g, const XCSF *s, int outputs)
{
    const ArgsDGP *a = s->cond->dargs;
    if (g->n != std::max(a->n, outputs) || g->n_inputs != s->x_dim || g->max_k != a->max_k || g->max_t != a->max_t || g->klen != g->n * g->max_k)
        mc::fail("graph", "graph of %d nodes, %d inputs, %d connections per node, %d in total, %d cycles at most", g->n, g->n_inputs, g->max_k, g->klen, g->max_t);
    if (g->t < 1 || g->t > g->max_t) mc::fail("graph", "%d cycles, limit %d", g->t, g->max_t);
    for (int i = 0; i < g->klen; ++i)
        if (g->connectivity[i] < 0 || g->connectivity[i] >= g->n + g->n_inputs) mc::fail("graph", "connection %d to %d of %d", i, g->connectivity[i], g->n + g->n_inputs);
    for (int i = 0; i < g->n; ++i) {
        if (g->function[i] < 0 || g->function[i] > 2) mc::fail("graph", "node %d has function %d", i, g->function[i]);
        for (double v : { g->state[i], g->initial_state[i] })
            if (!(v >= 0 && v <= 1)) mc::fail("graph", "node %d has state %g", i, v);
    }
    rate_ok(g->mu, 3, "graph");
}
inline void evolved_rates(const Net *n)
{
    for (Layer *l : chain(n)) {
        if (l->type != CONNECTED && l->type != CONVOLUTIONAL && l->type != RECURRENT && l->type != LSTM) continue;
        // a layer that evolves nothing keeps all its rates at zero
        for (int i = 0; i < 6; ++i)
            if (!((l->mu[i] == 0 || l->mu[i] >= rate_min) && l->mu[i] >= 0 && l->mu[i] <= 1)) mc::fail("rate", "layer mutation rate %d is %g", i, l->mu[i]);
    }
}
// mutated: the rule was just mutated (covering may place bounds outside the input range, mutation must not)
inline void rule_ok(const XCSF *s, const Cl *c, bool mutated = false)
{
    const double lo = s->cond->min, hi = s->cond->max;
    auto within = [&](const double *v, const char *what) {
        for (int i = 0; i < s->x_dim; ++i)
            if (std::isnan(v[i]) || (mutated && !(v[i] >= lo && v[i] <= hi))) mc::fail("bounds", "%s %d is %g, outside [%g, %g]", what, i, v[i], lo, hi);
    };
    auto positive = [&](const double *v, const char *what) {
        for (int i = 0; i < s->x_dim; ++i)
            if (!(v[i] > 0)) mc::fail("bounds", "%s %d is %g", what, i, v[i]);
    };
    const bool whole = s->cond->type == RULE_TYPE_DGP || s->cond->type == RULE_TYPE_NEURAL;
    switch (s->cond->type) {
        case COND_TYPE_HYPERRECTANGLE_CSR: {
            auto *r = (const CondRectangle *) c->cond;
            within(r->b1, "centre");
            positive(r->b2, "spread");
            rate_ok(r->mu, 1, "box");
            break;
        }
        case COND_TYPE_HYPERRECTANGLE_UBR: {
            auto *r = (const CondRectangle *) c->cond;
            within(r->b1, "bound");
            within(r->b2, "other bound");
            rate_ok(r->mu, 1, "box");
            break;
        }
        case COND_TYPE_HYPERELLIPSOID: {
            auto *r = (const CondEllipsoid *) c->cond;
            within(r->center, "centre");
            positive(r->spread, "spread");
            rate_ok(r->mu, 1, "ellipsoid");
            break;
        }
        case COND_TYPE_TERNARY: {
            auto *r = (const CondTernary *) c->cond;
            if (r->length != s->x_dim * s->cond->bits) mc::fail("ternary", "length %d", r->length);
            for (int i = 0; i < r->length; ++i)
                if (!strchr("01#", r->string[i]) || !r->string[i]) mc::fail("ternary", "symbol %d is %d", i, r->string[i]);
            rate_ok(r->mu, 1, "ternary");
            break;
        }
        case COND_TYPE_GP: {
            auto *r = (const CondGP *) c->cond;
            const ArgsGPTree *a = s->cond->targs;
            vector<int> t(r->gp.tree, r->gp.tree + r->gp.len);
            if (tree_end(t, 0) != r->gp.len) mc::fail("tree", "the tree ends at %d, its length is %d", tree_end(t, 0), r->gp.len);
            for (int v : t)
                if (v < 0 || v >= 4 + a->n_constants + s->x_dim) mc::fail("tree", "symbol %d of %d", v, 4 + a->n_constants + s->x_dim);
            rate_ok(r->gp.mu, 1, "tree");
            break;
        }
        case COND_TYPE_DGP: graph_ok(&((const CondDGP *) c->cond)->dgp, s, 1); break;
        case RULE_TYPE_DGP: graph_ok(&((const RuleDGP *) c->cond)->dgp, s, rule_outputs(s->n_actions)); break;
        case COND_TYPE_NEURAL:
        case RULE_TYPE_NEURAL: {
            const Net *n = s->cond->type == COND_TYPE_NEURAL ? &((const CondNeural *) c->cond)->net : &((const RuleNeural *) c->cond)->net;
            net_ok(n, true);
            evolved_rates(n);
            if (n->n_inputs != s->x_dim) mc::fail("net-inputs", "the condition network takes %d inputs", n->n_inputs);
            if (s->cond->type == RULE_TYPE_NEURAL && n->n_outputs != rule_outputs(s->n_actions)) mc::fail("net-outputs", "the rule network gives %d outputs", n->n_outputs);
            break;
        }
    }
    if (!whole) {
        if (s->act->type == ACT_TYPE_INTEGER) {
            auto *r = (const ActInteger *) c->act;
            if (r->action < 0 || r->action >= s->n_actions) mc::fail("action", "action %d of %d", r->action, s->n_actions);
            rate_ok(r->mu, 1, "action");
        } else {
            const Net *n = &((const ActNeural *) c->act)->net;
            net_ok(n, true);
            evolved_rates(n);
            if (n->n_inputs != s->x_dim || n->n_outputs != s->n_actions) mc::fail("net-outputs", "the action network is %d -> %d", n->n_inputs, n->n_outputs);
        }
    }
    switch (s->pred->type) {
        case PRED_TYPE_NLMS_LINEAR:
        case PRED_TYPE_NLMS_QUADRATIC: {
            auto *r = (const PredNLMS *) c->pred;
            if (!(r->eta >= std::min(s->pred->eta_min, s->pred->eta) && r->eta <= s->pred->eta)) mc::fail("eta", "learning rate %g outside [%g, %g]", r->eta, s->pred->eta_min, s->pred->eta);
            if (s->pred->evolve_eta) rate_ok(r->mu, 1, "learning rate");
            break;
        }
        case PRED_TYPE_NEURAL: {
            const Net *n = &((const PredNeural *) c->pred)->net;
            net_ok(n, true);
            evolved_rates(n);
            if (n->n_inputs != s->x_dim || n->n_outputs != s->y_dim) mc::fail("net-outputs", "the prediction network is %d -> %d", n->n_inputs, n->n_outputs);
            break;
        }
        default: break;
    }
}
} // namespace xc
