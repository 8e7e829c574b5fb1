// Helpers shared by the harnesses: building systems, reading rules, comparing them.
#pragma once
#include "mc.hpp"
extern "C" {
#include "xcsf/act_integer.h"
#include "xcsf/act_neural.h"
#include "xcsf/action.h"
#include "xcsf/cl.h"
#include "xcsf/clset.h"
#include "xcsf/clset_neural.h"
#include "xcsf/cond_dgp.h"
#include "xcsf/cond_ellipsoid.h"
#include "xcsf/cond_gp.h"
#include "xcsf/cond_neural.h"
#include "xcsf/cond_rectangle.h"
#include "xcsf/cond_ternary.h"
#include "xcsf/condition.h"
#include "xcsf/dgp.h"
#include "xcsf/ea.h"
#include "xcsf/gp.h"
#include "xcsf/loss.h"
#include "xcsf/neural.h"
#include "xcsf/neural_activations.h"
#include "xcsf/neural_layer.h"
#include "xcsf/neural_layer_args.h"
#include "xcsf/pa.h"
#include "xcsf/param.h"
#include "xcsf/pred_neural.h"
#include "xcsf/pred_nlms.h"
#include "xcsf/pred_rls.h"
#include "xcsf/prediction.h"
#include "xcsf/rule_dgp.h"
#include "xcsf/rule_neural.h"
#include "xcsf/utils.h"
#include "xcsf/xcs_rl.h"
#include "xcsf/xcs_supervised.h"
#include "xcsf/xcsf.h"
}
#include <algorithm>
#include <map>
#include <memory>

namespace xc {
using std::string;
using std::vector;
typedef vector<double> V;

inline const char *cond_name(int t)
{
    switch (t) {
        case COND_TYPE_DUMMY: return "dummy";
        case COND_TYPE_HYPERRECTANGLE_CSR: return "csr";
        case COND_TYPE_HYPERRECTANGLE_UBR: return "ubr";
        case COND_TYPE_HYPERELLIPSOID: return "ellipsoid";
        case COND_TYPE_NEURAL: return "neural";
        case COND_TYPE_GP: return "gp";
        case COND_TYPE_DGP: return "dgp";
        case COND_TYPE_TERNARY: return "ternary";
        case RULE_TYPE_DGP: return "rule_dgp";
        case RULE_TYPE_NEURAL: return "rule_neural";
    }
    return "?";
}
inline const char *pred_name(int t)
{
    static const char *n[] = { "const", "nlms1", "nlms2", "rls1", "rls2", "neural" };
    return n[t];
}
static const vector<int> ALL_CONDS = { COND_TYPE_DUMMY, COND_TYPE_HYPERRECTANGLE_CSR, COND_TYPE_HYPERRECTANGLE_UBR, COND_TYPE_HYPERELLIPSOID,
    COND_TYPE_TERNARY, COND_TYPE_GP, COND_TYPE_DGP, COND_TYPE_NEURAL, RULE_TYPE_DGP, RULE_TYPE_NEURAL };
static const vector<int> ALL_PREDS = { PRED_TYPE_CONSTANT, PRED_TYPE_NLMS_LINEAR, PRED_TYPE_NLMS_QUADRATIC, PRED_TYPE_RLS_LINEAR,
    PRED_TYPE_RLS_QUADRATIC, PRED_TYPE_NEURAL };

// description of one layer of a network
struct L {
    int type = CONNECTED;
    int n = 1;
    int func = LOGISTIC;
    int rfunc = LOGISTIC;
    int nmax = 0;
    bool ew = true, en = false, ef = false, ee = false, ec = false, sgd = true;
    double eta = 0.1, eta_min = 0.01, mom = 0.5, decay = 0.01, prob = 0.5, scale = 1;
    int h = 0, w = 0, c = 0, size = 0, stride = 0, pad = 0, grow = 1;
};
inline ArgsLayer *layers(int n_inputs, const vector<L> &ls)
{
    ArgsLayer *head = nullptr, *tail = nullptr;
    for (const L &l : ls) {
        ArgsLayer *a = (ArgsLayer *) malloc(sizeof(ArgsLayer));
        layer_args_init(a);
        a->type = l.type;
        a->n_inputs = n_inputs;
        a->n_init = l.n;
        a->n_max = l.nmax > l.n ? l.nmax : l.n;
        a->max_neuron_grow = l.grow;
        a->function = l.func;
        a->recurrent_function = l.rfunc;
        a->evolve_weights = l.ew;
        a->evolve_neurons = l.en;
        a->evolve_functions = l.ef;
        a->evolve_eta = l.ee;
        a->evolve_connect = l.ec;
        a->sgd_weights = l.sgd;
        a->eta = l.eta;
        a->eta_min = l.eta_min;
        a->momentum = l.mom;
        a->decay = l.decay;
        a->probability = l.prob;
        a->scale = l.scale;
        a->height = l.h;
        a->width = l.w;
        a->channels = l.c;
        a->size = l.size;
        a->stride = l.stride;
        a->pad = l.pad;
        if (tail) tail->next = a; else head = a;
        tail = a;
    }
    return head;
}

struct Cfg {
    int cond = COND_TYPE_HYPERRECTANGLE_CSR, act = ACT_TYPE_INTEGER, pred = PRED_TYPE_NLMS_LINEAR;
    int x = 1, y = 1, a = 1, pop = 3;
    bool pop_init = false, stateful = false, subs = false, setsubs = false, compaction = false, pred_reset = false;
    double theta_ea = 0, beta = 0.5, e0 = 0.1;
    int lambda = 2, theta_sub = 1, theta_del = 1, m_prob = 10000, select = EA_SELECT_ROULETTE;
    int loss = LOSS_MAE;
    double p_cross = 0.8;
    vector<L> pnet, cnet, anet; // optional network overrides
    std::function<void(XCSF *)> tweak;
    string name() const
    {
        string s = string(cond_name(cond)) + "-" + pred_name(pred) + "-x" + std::to_string(x) + "y" + std::to_string(y) + "a" + std::to_string(a);
        if (act == ACT_TYPE_NEURAL) s += "-actnn";
        return s;
    }
};

inline int rule_outputs(int n_actions) { return (int) fmax(1, ceil(log2(n_actions))) + 1; }

inline void configure(XCSF *s, const Cfg &c)
{
    param_init(s, c.x, c.y, c.a);
    param_set_omp_num_threads(s, 1);
    param_set_pop_size(s, c.pop);
    param_set_pop_init(s, c.pop_init);
    param_set_stateful(s, c.stateful);
    param_set_beta(s, c.beta);
    param_set_e0(s, c.e0);
    param_set_theta_sub(s, c.theta_sub);
    param_set_theta_del(s, c.theta_del);
    param_set_m_probation(s, c.m_prob);
    param_set_set_subsumption(s, c.setsubs);
    param_set_compaction(s, c.compaction);
    param_set_loss_func(s, c.loss);
    param_set_perf_trials(s, 1000000);
    cond_param_set_type(s, c.cond);
    action_param_set_type(s, c.act);
    pred_param_set_type(s, c.pred);
    pred_param_set_eta(s, 0.2);
    ea_param_set_theta(s, c.theta_ea);
    ea_param_set_lambda(s, c.lambda);
    ea_param_set_subsumption(s, c.subs);
    ea_param_set_select_type(s, c.select);
    ea_param_set_pred_reset(s, c.pred_reset);
    ea_param_set_p_crossover(s, c.p_cross);
    cond_param_set_bits(s, 2);
    // small trees and graphs
    tree_param_set_n_constants(s->cond->targs, 3);
    tree_param_set_init_depth(s->cond->targs, 2);
    tree_param_set_max_len(s->cond->targs, 40);
    tree_args_init_constants(s->cond->targs);
    graph_param_set_n(s->cond->dargs, 4);
    graph_param_set_max_t(s->cond->dargs, 2);
    // small networks
    layer_args_free(&s->cond->largs);
    if (!c.cnet.empty()) {
        s->cond->largs = layers(c.x, c.cnet);
    } else {
        L h, o;
        h.n = 2; h.nmax = 3; h.en = true; h.ec = true; h.func = TANH; h.sgd = false;
        o.n = c.cond == RULE_TYPE_NEURAL ? rule_outputs(c.a) : 1;
        o.func = LINEAR; o.ec = true; o.sgd = false;
        s->cond->largs = layers(c.x, { h, o });
    }
    layer_args_free(&s->act->largs);
    if (!c.anet.empty()) {
        s->act->largs = layers(c.x, c.anet);
    } else {
        L h, o, m;
        h.n = 2; h.nmax = 3; h.en = true; h.func = RELU; h.sgd = false;
        o.n = c.a; o.func = LINEAR; o.sgd = false;
        m.type = SOFTMAX; m.n = c.a; m.scale = 1; m.ew = m.sgd = false;
        s->act->largs = layers(c.x, { h, o, m });
    }
    layer_args_free(&s->pred->largs);
    if (!c.pnet.empty()) {
        s->pred->largs = layers(c.x, c.pnet);
    } else {
        L h, o;
        h.n = 2; h.nmax = 3; h.en = true; h.ec = true; h.ee = true; h.func = LOGISTIC;
        o.n = c.y; o.func = LINEAR; o.ee = true;
        s->pred->largs = layers(c.x, { h, o });
    }
    if (c.tweak) c.tweak(s);
}
inline XCSF *make(const Cfg &c)
{
    XCSF *s = (XCSF *) malloc(sizeof(XCSF));
    memset(s, 0xAB, sizeof(XCSF));
    configure(s, c);
    xcsf_init(s);
    return s;
}
inline void destroy(XCSF *s)
{
    xcsf_free(s);
    param_free(s);
    free(s);
}

inline vector<Cl *> rules(const Set &set)
{
    vector<Cl *> r;
    int guard = 0;
    for (const Clist *i = set.list; i; i = i->next) {
        r.push_back(i->cl);
        if (++guard > 100000) mc::fail("cycle", "rule list does not end");
    }
    return r;
}

// ---- deep, layout-aware dump of a rule's components (independent of the code's own save/export) ----
struct DumpOpt {
    bool momentum = true; // accumulated weight updates
    bool rates = true; // self-adapted mutation rates
};
inline DumpOpt dopt;
inline void dump_layer(const Layer *l, V &o, bool transient);
inline void dump_arr(const double *p, int n, V &o)
{
    for (int i = 0; i < n; ++i) o.push_back(p[i]);
}
inline void dump_net(const Net *n, V &o, bool transient, bool rates = true)
{
    const bool was = dopt.rates;
    dopt.rates = was && rates;
    o.push_back(n->n_layers);
    o.push_back(n->n_inputs);
    o.push_back(n->n_outputs);
    for (const Llist *i = n->tail; i; i = i->prev) dump_layer(i->layer, o, transient);
    dopt.rates = was;
}
inline void dump_layer(const Layer *l, V &o, bool transient)
{
    o.push_back(l->type);
    o.push_back(l->n_inputs);
    o.push_back(l->n_outputs);
    o.push_back(l->options);
    switch (l->type) {
        case CONNECTED:
        case CONVOLUTIONAL:
            o.push_back(l->function);
            o.push_back(l->n_weights);
            o.push_back(l->n_biases);
            o.push_back(l->n_active);
            o.push_back(l->eta);
            o.push_back(l->eta_max);
            o.push_back(l->momentum);
            o.push_back(l->decay);
            o.push_back(l->max_outputs);
            dump_arr(l->weights, l->n_weights, o);
            for (int i = 0; i < l->n_weights; ++i) o.push_back(l->weight_active[i]);
            dump_arr(l->biases, l->n_biases, o);
            o.push_back(l->eta_min);
            o.push_back(l->max_neuron_grow);
            if (dopt.momentum) {
                dump_arr(l->weight_updates, l->n_weights, o);
                dump_arr(l->bias_updates, l->n_biases, o);
            }
            if (dopt.rates) dump_arr(l->mu, 6, o);
            if (l->type == CONVOLUTIONAL)
                for (int v : { l->height, l->width, l->channels, l->size, l->stride, l->pad, l->n_filters, l->out_w, l->out_h, l->out_c }) o.push_back(v);
            break;
        case RECURRENT:
            o.push_back(l->function);
            for (double v : { (double) l->n_weights, (double) l->n_biases, (double) l->n_active, (double) l->max_outputs, l->eta, l->eta_min, l->eta_max }) o.push_back(v);
            if (dopt.rates) dump_arr(l->mu, 6, o);
            if (transient) {
                dump_arr(l->state, l->n_outputs, o);
                dump_arr(l->prev_state, l->n_outputs, o);
                dump_arr(l->output_layer->output, l->n_outputs, o);
            }
            dump_layer(l->input_layer, o, transient);
            dump_layer(l->self_layer, o, transient);
            dump_layer(l->output_layer, o, transient);
            break;
        case LSTM:
            o.push_back(l->function);
            o.push_back(l->recurrent_function);
            for (double v : { (double) l->n_weights, (double) l->n_biases, (double) l->n_active, (double) l->max_outputs, l->eta, l->eta_max }) o.push_back(v);
            if (dopt.rates) dump_arr(l->mu, 6, o);
            for (const Layer *s : { l->uf, l->ui, l->ug, l->uo, l->wf, l->wi, l->wg, l->wo }) dump_layer(s, o, transient);
            if (transient) {
                dump_arr(l->cell, l->n_outputs, o);
                dump_arr(l->h, l->n_outputs, o);
                dump_arr(l->c, l->n_outputs, o);
                dump_arr(l->dc, l->n_outputs, o);
                dump_arr(l->prev_state, l->n_outputs, o);
                dump_arr(l->prev_cell, l->n_outputs, o);
            }
            break;
        case DROPOUT:
        case NOISE:
            o.push_back(l->probability);
            o.push_back(l->scale);
            break;
        case SOFTMAX: o.push_back(l->scale); break;
        default:
            o.push_back(l->height);
            o.push_back(l->width);
            o.push_back(l->channels);
            o.push_back(l->size);
            o.push_back(l->stride);
            o.push_back(l->pad);
            break;
    }
}
inline void dump_graph(const Graph *g, V &o, bool transient)
{
    o.push_back(g->evolve_cycles);
    o.push_back(g->klen);
    o.push_back(g->max_k);
    o.push_back(g->max_t);
    o.push_back(g->n);
    o.push_back(g->n_inputs);
    o.push_back(g->t);
    dump_arr(g->initial_state, g->n, o);
    if (transient) dump_arr(g->state, g->n, o);
    for (int i = 0; i < g->klen; ++i) o.push_back(g->connectivity[i]);
    for (int i = 0; i < g->n; ++i) o.push_back(g->function[i]);
}
// phenotype of the condition: what it accepts
inline V dump_cond(const XCSF *s, const Cl *c, bool transient = true, bool rates = true)
{
    V o;
    const void *p = c->cond;
    switch (s->cond->type) {
        case COND_TYPE_DUMMY: break;
        case COND_TYPE_HYPERRECTANGLE_CSR:
        case COND_TYPE_HYPERRECTANGLE_UBR: {
            auto *r = (const CondRectangle *) p;
            dump_arr(r->b1, s->x_dim, o);
            dump_arr(r->b2, s->x_dim, o);
            if (rates) o.push_back(r->mu[0]);
            break;
        }
        case COND_TYPE_HYPERELLIPSOID: {
            auto *r = (const CondEllipsoid *) p;
            dump_arr(r->center, s->x_dim, o);
            dump_arr(r->spread, s->x_dim, o);
            if (rates) o.push_back(r->mu[0]);
            break;
        }
        case COND_TYPE_TERNARY: {
            auto *r = (const CondTernary *) p;
            o.push_back(r->length);
            for (int i = 0; i < r->length; ++i) o.push_back(r->string[i]);
            if (rates) o.push_back(r->mu[0]);
            break;
        }
        case COND_TYPE_GP: {
            auto *r = (const CondGP *) p;
            o.push_back(r->gp.len);
            for (int i = 0; i < r->gp.len; ++i) o.push_back(r->gp.tree[i]);
            if (rates) o.push_back(r->gp.mu[0]);
            break;
        }
        case COND_TYPE_DGP: {
            auto *r = (const CondDGP *) p;
            dump_graph(&r->dgp, o, transient);
            if (rates) dump_arr(r->dgp.mu, 3, o);
            break;
        }
        case RULE_TYPE_DGP: {
            auto *r = (const RuleDGP *) p;
            o.push_back(r->n_outputs);
            dump_graph(&r->dgp, o, transient);
            if (rates) dump_arr(r->dgp.mu, 3, o);
            break;
        }
        case COND_TYPE_NEURAL: dump_net(&((const CondNeural *) p)->net, o, transient, rates); break;
        case RULE_TYPE_NEURAL: dump_net(&((const RuleNeural *) p)->net, o, transient, rates); break;
    }
    return o;
}
inline V dump_act(const XCSF *s, const Cl *c, bool transient = true, bool rates = true)
{
    V o;
    if (s->cond->type == RULE_TYPE_DGP || s->cond->type == RULE_TYPE_NEURAL) return o;
    if (s->act->type == ACT_TYPE_INTEGER) {
        auto *r = (const ActInteger *) c->act;
        o.push_back(r->action);
        if (rates) o.push_back(r->mu[0]);
    } else {
        dump_net(&((const ActNeural *) c->act)->net, o, transient, rates);
    }
    return o;
}
inline V dump_pred(const XCSF *s, const Cl *c, bool transient = true, bool rates = true)
{
    V o;
    switch (s->pred->type) {
        case PRED_TYPE_CONSTANT: dump_arr(c->prediction, s->y_dim, o); break;
        case PRED_TYPE_NLMS_LINEAR:
        case PRED_TYPE_NLMS_QUADRATIC: {
            auto *r = (const PredNLMS *) c->pred;
            o.push_back(r->n);
            o.push_back(r->n_weights);
            o.push_back(r->eta);
            dump_arr(r->weights, r->n_weights, o);
            if (rates) o.push_back(r->mu[0]);
            break;
        }
        case PRED_TYPE_RLS_LINEAR:
        case PRED_TYPE_RLS_QUADRATIC: {
            auto *r = (const PredRLS *) c->pred;
            o.push_back(r->n);
            o.push_back(r->n_weights);
            dump_arr(r->weights, r->n_weights, o);
            dump_arr(r->matrix, r->n * r->n, o);
            break;
        }
        case PRED_TYPE_NEURAL: dump_net(&((const PredNeural *) c->pred)->net, o, transient, rates); break;
    }
    return o;
}
inline V dump_stats(const Cl *c)
{
    return { c->err, c->fit, (double) c->num, (double) c->exp, c->size, (double) c->time };
}
struct Snap {
    V stats, cond, act, pred;
    int age, mtotal, action;
    V prediction;
    bool operator==(const Snap &o) const;
};
inline bool bits_eq(const V &a, const V &b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (!(a[i] == b[i]) && !(std::isnan(a[i]) && std::isnan(b[i]))) return false;
    return true;
}
inline Snap snap(const XCSF *s, const Cl *c, bool transient = true)
{
    Snap r;
    r.stats = dump_stats(c);
    r.cond = dump_cond(s, c, transient);
    r.act = dump_act(s, c, transient);
    r.pred = dump_pred(s, c, transient);
    r.age = c->age;
    r.mtotal = c->mtotal;
    r.action = c->action;
    r.prediction.assign(c->prediction, c->prediction + s->y_dim);
    return r;
}
inline bool Snap::operator==(const Snap &o) const
{
    return bits_eq(stats, o.stats) && bits_eq(cond, o.cond) && bits_eq(act, o.act) && bits_eq(pred, o.pred) && age == o.age && mtotal == o.mtotal;
}
inline string str(const V &v)
{
    string s = "[";
    char b[40];
    for (size_t i = 0; i < v.size() && i < 40; ++i) {
        snprintf(b, sizeof(b), "%s%.10g", i ? "," : "", v[i]);
        s += b;
    }
    return s + (v.size() > 40 ? ",...]" : "]");
}
inline string diff(const Snap &a, const Snap &b)
{
    static const auto d = [](const char *n, const V &x, const V &y) -> string {
        if (x.size() != y.size()) return string(n) + " length " + std::to_string(x.size()) + " vs " + std::to_string(y.size());
        for (size_t i = 0; i < x.size(); ++i)
            if (!(x[i] == y[i]) && !(std::isnan(x[i]) && std::isnan(y[i]))) {
                char t[200];
                snprintf(t, sizeof(t), "%s[%zu] %.17g vs %.17g", n, i, x[i], y[i]);
                return t;
            }
        return "";
    };
    string s = d("stats(err,fit,num,exp,size,time)", a.stats, b.stats);
    if (s.empty()) s = d("condition", a.cond, b.cond);
    if (s.empty()) s = d("action", a.act, b.act);
    if (s.empty()) s = d("model", a.pred, b.pred);
    if (s.empty() && a.age != b.age) s = "samples seen " + std::to_string(a.age) + " vs " + std::to_string(b.age);
    if (s.empty() && a.mtotal != b.mtotal) s = "samples matched " + std::to_string(a.mtotal) + " vs " + std::to_string(b.mtotal);
    return s;
}
inline vector<Snap> snap_pop(const XCSF *s, bool transient = true)
{
    vector<Snap> r;
    for (Cl *c : rules(s->pset)) r.push_back(snap(s, c, transient));
    return r;
}
// every stored parameter, with names
inline vector<std::pair<string, double>> dump_params(const XCSF *s, bool running = true)
{
    vector<std::pair<string, double>> r;
#define P(f) r.push_back({ #f, (double) s->f })
    if (running) {
        P(time); P(error); P(mset_size); P(aset_size); P(mfrac); P(explore);
    }
    P(x_dim); P(y_dim); P(n_actions); P(GAMMA); P(P_EXPLORE); P(ALPHA); P(BETA); P(DELTA); P(E0); P(INIT_ERROR); P(INIT_FITNESS); P(NU); P(HUBER_DELTA);
    P(OMP_NUM_THREADS); P(MAX_TRIALS); P(PERF_TRIALS); P(POP_SIZE); P(LOSS_FUNC); P(TELETRANSPORTATION); P(THETA_DEL); P(M_PROBATION); P(THETA_SUB);
    P(RANDOM_STATE); P(POP_INIT); P(SET_SUBSUMPTION); P(STATEFUL); P(COMPACTION);
    P(ea->subsumption); P(ea->select_size); P(ea->err_reduc); P(ea->fit_reduc); P(ea->p_crossover); P(ea->theta); P(ea->lambda); P(ea->select_type); P(ea->pred_reset);
    P(act->type); P(cond->type); P(cond->eta); P(cond->max); P(cond->min); P(cond->p_dontcare); P(cond->spread_min); P(cond->bits);
    P(cond->dargs->evolve_cycles); P(cond->dargs->max_k); P(cond->dargs->max_t); P(cond->dargs->n); P(cond->dargs->n_inputs);
    P(cond->targs->max); P(cond->targs->min); P(cond->targs->n_inputs); P(cond->targs->n_constants); P(cond->targs->init_depth); P(cond->targs->max_len);
    P(pred->type); P(pred->evolve_eta); P(pred->eta); P(pred->eta_min); P(pred->lambda); P(pred->scale_factor); P(pred->x0);
#undef P
    for (int i = 0; i < s->cond->targs->n_constants; ++i) r.push_back({ "constant", s->cond->targs->constants[i] });
    for (const char *p = s->population_file; *p; ++p) r.push_back({ "population_file", *p });
    int k = 0;
    for (const ArgsLayer *head : { s->act->largs, s->cond->largs, s->pred->largs }) {
        const char *n[] = { "action net ", "condition net ", "prediction net " };
        for (const ArgsLayer *a = head; a; a = a->next) {
#define P(f) r.push_back({ string(n[k]) + #f, (double) a->f })
            P(type); P(n_inputs); P(n_init); P(n_max); P(max_neuron_grow); P(function); P(recurrent_function); P(height); P(width); P(channels); P(size); P(stride); P(pad);
            P(eta); P(eta_min); P(momentum); P(decay); P(probability); P(scale); P(evolve_weights); P(evolve_neurons); P(evolve_functions); P(evolve_eta); P(evolve_connect); P(sgd_weights);
#undef P
        }
        r.push_back({ string(n[k]) + "end", 0 });
        ++k;
    }
    return r;
}
inline string diff_params(const vector<std::pair<string, double>> &a, const vector<std::pair<string, double>> &b)
{
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
        if (a[i].first != b[i].first) return "structure differs at " + a[i].first + " / " + b[i].first;
        if (!(a[i].second == b[i].second) && !(std::isnan(a[i].second) && std::isnan(b[i].second))) {
            char t[200];
            snprintf(t, sizeof(t), "%s %.17g vs %.17g", a[i].first.c_str(), a[i].second, b[i].second);
            return t;
        }
    }
    if (a.size() != b.size()) return "different number of values";
    return "";
}
inline void hash_cl(const XCSF *s, const Cl *c, mc::Hash &h)
{
    h.v(dump_stats(c));
    h.v(dump_cond(s, c));
    h.v(dump_act(s, c));
    h.v(dump_pred(s, c));
}
inline uint64_t hash_pop(const XCSF *s)
{
    mc::Hash h;
    h.i(s->pset.size);
    h.i(s->pset.num);
    h.i(s->time);
    for (const Clist *i = s->pset.list; i; i = i->next) hash_cl(s, i->cl, h);
    return h.h;
}
inline bool stateless(const Cfg &c)
{
    auto rec = [](const vector<L> &n) {
        for (const L &l : n)
            if (l.type == RECURRENT || l.type == LSTM) return true;
        return false;
    };
    return !(rec(c.pnet) || rec(c.cnet) || rec(c.anet)) && !c.stateful;
}

// network shapes used by the catalogue, for x inputs and y outputs (x = 4 is a 2x2 single-channel image)
inline vector<std::pair<string, vector<L>>> net_zoo(int x, int y)
{
    vector<std::pair<string, vector<L>>> z;
    auto conn = [](int n, int f) { L l; l.n = n; l.func = f; return l; };
    auto kind = [](int t) { L l; l.type = t; l.ew = false; return l; };
    L out = conn(y, LINEAR);
    z.push_back({ "single", { out } });
    L h = conn(2, TANH);
    h.nmax = 4; h.en = h.ec = h.ee = h.ef = true;
    z.push_back({ "evolving", { h, out } });
    z.push_back({ "deep", { conn(2, RELU), conn(2, SELU), out } });
    L d = kind(DROPOUT); d.prob = 0.5;
    L dn = d; dn.n = 2;
    z.push_back({ "dropout", { conn(2, LOGISTIC), dn, out } });
    L nz = kind(NOISE); nz.prob = 0.5; nz.scale = 0.3; nz.n = 2;
    z.push_back({ "noise", { conn(2, LEAKY), nz, out } });
    L sm = kind(SOFTMAX); sm.n = y; sm.scale = 2;
    z.push_back({ "softmax", { conn(2, GAUSSIAN), out, sm } });
    if (x == 4) {
        L c; c.type = CONVOLUTIONAL; c.n = 2; c.nmax = 3; c.func = LOGISTIC; c.h = c.w = 2; c.c = 1; c.size = 2; c.stride = 1; c.pad = 1;
        c.en = c.ef = c.ee = true;
        L mp = kind(MAXPOOL); mp.h = mp.w = 3; mp.c = 2; mp.size = 2; mp.stride = 1; mp.pad = 0;
        L ap = kind(AVGPOOL); ap.h = ap.w = 3; ap.c = 2;
        L up = kind(UPSAMPLE); up.h = up.w = 2; up.c = 1; up.stride = 2;
        L c1 = c; c1.en = false;
        z.push_back({ "conv", { c, out } });
        z.push_back({ "conv-max", { c1, mp, out } });
        z.push_back({ "conv-avg", { c1, ap, out } });
        z.push_back({ "upsample", { up, out } });
    }
    L r; r.type = RECURRENT; r.n = 2; r.nmax = 3; r.func = TANH;
    z.push_back({ "rnn", { r, out } });
    L l; l.type = LSTM; l.n = 2; l.nmax = 3; l.func = TANH; l.rfunc = LOGISTIC;
    z.push_back({ "lstm", { l, out } });
    return z;
}
inline bool has_memory(const vector<L> &n)
{
    for (const L &l : n)
        if (l.type == RECURRENT || l.type == LSTM) return true;
    return false;
}
struct Entry {
    string name;
    Cfg c;
    bool memory; // keeps internal state between inputs
    bool importable; // JSON import is implemented
};
// every component type at least once, in small systems
inline vector<Entry> catalog(bool with_memory, int actions = 0)
{
    vector<Entry> r;
    auto put = [&](Cfg c, const string &extra, bool mem, bool imp) {
        if (mem && !with_memory) return;
        r.push_back({ c.name() + (extra.empty() ? "" : "-" + extra), c, mem, imp });
    };
    for (int a : { 1, 2 }) {
        if (actions && a != actions) continue;
        Cfg b;
        b.a = a;
        b.x = 2;
        b.y = a == 1 ? 2 : 1;
        b.pop = 5;
        for (int cond : ALL_CONDS) {
            Cfg c = b;
            c.cond = cond;
            c.pred = cond == COND_TYPE_TERNARY ? PRED_TYPE_CONSTANT : PRED_TYPE_NLMS_LINEAR;
            const bool imp = cond != COND_TYPE_GP && cond != COND_TYPE_NEURAL && cond != RULE_TYPE_NEURAL;
            put(c, "", false, imp);
            if (cond == COND_TYPE_DGP || cond == RULE_TYPE_DGP) {
                c.stateful = true;
                put(c, "stateful", true, imp);
            }
        }
        for (int pred : ALL_PREDS) {
            if (pred == PRED_TYPE_NLMS_LINEAR) continue;
            Cfg c = b;
            c.pred = pred;
            put(c, "", false, pred != PRED_TYPE_NEURAL);
        }
        if (a == 2) {
            Cfg c = b;
            c.act = ACT_TYPE_NEURAL;
            put(c, "", false, false);
        }
        Cfg c = b;
        c.x = 4;
        for (auto &z : net_zoo(c.x, c.y)) {
            Cfg d = c;
            d.pred = PRED_TYPE_NEURAL;
            d.pnet = z.second;
            put(d, "pnet-" + z.first, has_memory(z.second), false);
        }
        for (auto &z : net_zoo(c.x, 1)) {
            if (z.first == "softmax" || z.first == "single") continue;
            Cfg d = c;
            d.cond = COND_TYPE_NEURAL;
            d.pred = PRED_TYPE_CONSTANT;
            d.cnet = z.second;
            put(d, "cnet-" + z.first, has_memory(z.second), false);
        }
        if (a == 2) {
            for (auto &z : net_zoo(c.x, rule_outputs(2))) {
                if (z.first != "rnn" && z.first != "lstm" && z.first != "conv") continue;
                Cfg d = c;
                d.cond = RULE_TYPE_NEURAL;
                d.pred = PRED_TYPE_CONSTANT;
                d.cnet = z.second;
                put(d, "rnet-" + z.first, has_memory(z.second), false);
            }
            for (auto &z : net_zoo(c.x, 2)) {
                if (z.first != "rnn" && z.first != "lstm" && z.first != "conv") continue;
                Cfg d = c;
                d.act = ACT_TYPE_NEURAL;
                d.pred = PRED_TYPE_CONSTANT;
                d.anet = z.second;
                put(d, "anet-" + z.first, has_memory(z.second), false);
            }
        }
    }
    return r;
}
// larger systems: more features, outputs, actions and rules than anything the full enumerations use
inline vector<Entry> wide(bool with_memory)
{
    vector<Entry> r;
    auto put = [&](Cfg c, const string &extra, bool mem, bool imp) {
        if (mem && !with_memory) return;
        c.pop = 30;
        const auto was = c.tweak;
        const int acts = c.a;
        c.tweak = [was, acts](XCSF *s) {
            cond_param_set_bits(s, acts == 1 ? 3 : 10);
            graph_param_set_n(s->cond->dargs, s->cond->type == RULE_TYPE_DGP ? 8 : 6);
            graph_param_set_max_t(s->cond->dargs, 4);
            tree_param_set_init_depth(s->cond->targs, 3);
            tree_param_set_max_len(s->cond->targs, 60);
            cond_param_set_spread_min(s, 0.5);
            cond_param_set_p_dontcare(s, acts == 1 ? 0.9 : 0.97);
            if (was) was(s);
        };
        r.push_back({ "wide-" + c.name() + (extra.empty() ? "" : "-" + extra), c, mem, imp });
    };
    Cfg b;
    b.subs = true;
    b.theta_ea = 4;
    b.lambda = 4;
    b.beta = 0.2;
    b.theta_sub = 5;
    b.theta_del = 5;
    for (int a : { 1, 6 }) {
        b.a = a;
        b.x = 6;
        b.y = a == 1 ? 4 : 1;
        for (int cond : ALL_CONDS) {
            Cfg c = b;
            c.cond = cond;
            c.pred = cond == COND_TYPE_TERNARY ? PRED_TYPE_CONSTANT : PRED_TYPE_NLMS_LINEAR;
            const bool imp = cond != COND_TYPE_GP && cond != COND_TYPE_NEURAL && cond != RULE_TYPE_NEURAL;
            put(c, "", false, imp);
        }
        for (int pred : ALL_PREDS) {
            if (pred == PRED_TYPE_NLMS_LINEAR) continue;
            Cfg c = b;
            c.pred = pred;
            put(c, "", false, pred != PRED_TYPE_NEURAL);
        }
        if (a > 1) {
            Cfg c = b;
            c.act = ACT_TYPE_NEURAL;
            put(c, "", false, false);
        }
        Cfg c = b;
        c.pred = PRED_TYPE_NEURAL;
        for (int t : { CONNECTED, RECURRENT, LSTM }) {
            L h;
            h.type = t;
            h.n = 5;
            h.nmax = 12;
            h.func = t == CONNECTED ? SOFT_PLUS : TANH;
            h.rfunc = LOGISTIC;
            h.en = h.ec = h.ee = t == CONNECTED;
            h.mom = 0.9;
            h.decay = 0.01;
            L o;
            o.n = c.y;
            o.func = LINEAR;
            c.pnet = { h, o };
            put(c, t == CONNECTED ? "pnet-evolving" : t == RECURRENT ? "pnet-rnn" : "pnet-lstm", t != CONNECTED, false);
        }
    }
    return r;
}
// the i-th input of a fixed set, cut to the configured dimension
inline V sample(const Cfg &c, int i)
{
    static const vector<V> S = { { 0.1, 0.75, 0.4, 0.9 }, { 0.8, 0.2, 0.6, 0.3 }, { 0.45, 0.5, 0.95, 0.05 }, { 0.97, 0.93, 0.02, 0.6 }, { 0, 1, 0, 1 } };
    V x;
    for (int k = 0; k < c.x; ++k) x.push_back(i < 5 && k < 4 ? S[(size_t) i][(size_t) k] : fmod(0.618034 * (i * 7 + k * 3 + 1), 1.0));
    return x;
}
inline V target(const Cfg &c, int i)
{
    V y;
    for (int k = 0; k < c.y; ++k) y.push_back(i % 2 ? 0.9 - 0.3 * k : -0.4 + 0.5 * k);
    return y;
}

struct Data {
    V x, y;
    Input in;
    Data(int xd, int yd, const V &xs, const V &ys) : x(xs), y(ys)
    {
        in.x = x.data();
        in.y = y.data();
        in.x_dim = xd;
        in.y_dim = yd;
        in.n_samples = (int) (x.size() / (size_t) xd);
    }
};
inline bool near(double a, double b, double rel = 1e-9, double abs = 1e-12)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    return fabs(a - b) <= abs + rel * fmax(fabs(a), fabs(b));
}
// one supervised training trial
inline double fit1(XCSF *s, const V &x, const V &y)
{
    Data d(s->x_dim, s->y_dim, x, y);
    return xcs_supervised_fit(s, &d.in, nullptr, false, 0, 1);
}
// a long, fixed learning history: n trials over twelve inputs in an order given by the pattern
inline void grow(XCSF *s, const Cfg &c, int n, int pattern = 0)
{
    for (int i = 0; i < n; ++i) {
        const int k = (pattern % 2 ? i * 5 + i / 12 : i) % 12;
        const V x = sample(c, k);
        if (c.y == 1 && i % 4 == 3) {
            xcs_rl_fit(s, x.data(), (i / 4 + pattern) % c.a, k % 3 ? 0.5 : 1.0);
        } else if (c.y == 1 && pattern > 1 && i % 4 == 1) {
            param_set_explore(s, true);
            xcs_rl_init_trial(s);
            for (int t = 0; t < 3; ++t) {
                const V z = sample(c, (k + t) % 12);
                xcs_rl_init_step(s);
                const int a = xcs_rl_decision(s, z.data());
                xcs_rl_update(s, z.data(), a, t == 2 ? 1.0 : 0.0, t == 2);
                xcs_rl_end_step(s, z.data(), a, t == 2 ? 1.0 : 0.0);
            }
            xcs_rl_end_trial(s);
        } else {
            fit1(s, x, target(c, k));
        }
    }
}
} // namespace xc
