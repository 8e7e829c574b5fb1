// The parameters in effect, read directly from the structures.
#pragma once
#include "ref.hpp"
using namespace xc;
typedef vector<std::pair<string, double>> Pairs;
[[maybe_unused]] static bool weighted(int t) { return t == CONNECTED || t == CONVOLUTIONAL || t == RECURRENT || t == LSTM; }
[[maybe_unused]] static bool image(int t) { return t == CONVOLUTIONAL || t == MAXPOOL || t == AVGPOOL || t == UPSAMPLE; }
[[maybe_unused]] static void eff_net(Pairs &r, const char *n, const ArgsLayer *head)
{
    bool first = true;
    for (const ArgsLayer *a = head; a; a = a->next) {
#define P(f) r.push_back({ string(n) + #f, (double) a->f })
        P(type);
        if (first) {
            if (!image(a->type)) P(n_inputs);
            if (image(a->type) || a->type == DROPOUT || a->type == NOISE) { P(height); P(width); P(channels); }
        }
        if (a->type == CONVOLUTIONAL || a->type == MAXPOOL) { P(size); P(stride); P(pad); }
        if (a->type == UPSAMPLE) P(stride);
        if (a->type == DROPOUT || a->type == NOISE) P(probability);
        if (a->type == SOFTMAX || a->type == NOISE) P(scale);
        if (weighted(a->type)) {
            P(n_init); P(function);
            if (a->type == LSTM) P(recurrent_function);
            P(evolve_weights); P(evolve_neurons); P(evolve_functions); P(evolve_connect); P(sgd_weights);
            if (a->evolve_neurons) { P(n_max); P(max_neuron_grow); }
            if (a->sgd_weights) {
                P(eta); P(evolve_eta); P(momentum); P(decay);
                if (a->evolve_eta) P(eta_min);
            }
        }
#undef P
        first = false;
    }
    r.push_back({ string(n) + "end", 0 });
}
// the parameters in effect for the chosen components
[[maybe_unused]] static Pairs effective(const XCSF *s)
{
    Pairs r;
#define P(f) r.push_back({ #f, (double) s->f })
    P(x_dim); P(y_dim); P(n_actions); P(OMP_NUM_THREADS); P(RANDOM_STATE); P(POP_INIT); P(MAX_TRIALS); P(PERF_TRIALS); P(POP_SIZE); P(LOSS_FUNC);
    if (s->LOSS_FUNC == LOSS_HUBER) P(HUBER_DELTA);
    if (s->n_actions > 1) { P(GAMMA); P(TELETRANSPORTATION); P(P_EXPLORE); }
    P(SET_SUBSUMPTION); P(THETA_SUB); P(E0); P(ALPHA); P(NU); P(BETA); P(DELTA); P(THETA_DEL); P(INIT_FITNESS); P(INIT_ERROR); P(M_PROBATION); P(STATEFUL); P(COMPACTION);
    P(ea->select_type);
    if (s->ea->select_type == EA_SELECT_TOURNAMENT) P(ea->select_size);
    P(ea->theta); P(ea->lambda); P(ea->p_crossover); P(ea->err_reduc); P(ea->fit_reduc); P(ea->subsumption); P(ea->pred_reset);
    P(cond->type);
    switch (s->cond->type) {
        case COND_TYPE_TERNARY: P(cond->p_dontcare); P(cond->bits); break;
        case COND_TYPE_HYPERRECTANGLE_CSR:
        case COND_TYPE_HYPERRECTANGLE_UBR:
        case COND_TYPE_HYPERELLIPSOID: P(cond->eta); P(cond->min); P(cond->max); P(cond->spread_min); break;
        case COND_TYPE_GP: P(cond->targs->n_inputs); P(cond->targs->min); P(cond->targs->max); P(cond->targs->n_constants); P(cond->targs->init_depth); P(cond->targs->max_len); break;
        case COND_TYPE_DGP:
        case RULE_TYPE_DGP: P(cond->dargs->n_inputs); P(cond->dargs->max_k); P(cond->dargs->max_t); P(cond->dargs->n); P(cond->dargs->evolve_cycles); break;
        case COND_TYPE_NEURAL:
        case RULE_TYPE_NEURAL: eff_net(r, "condition net ", s->cond->largs); break;
    }
    const bool rule = s->cond->type == RULE_TYPE_DGP || s->cond->type == RULE_TYPE_NEURAL;
    if (!rule && s->n_actions > 1) {
        P(act->type);
        if (s->act->type == ACT_TYPE_NEURAL) eff_net(r, "action net ", s->act->largs);
    }
    P(pred->type);
    switch (s->pred->type) {
        case PRED_TYPE_NLMS_LINEAR:
        case PRED_TYPE_NLMS_QUADRATIC:
            P(pred->x0); P(pred->eta); P(pred->evolve_eta);
            if (s->pred->evolve_eta) P(pred->eta_min);
            break;
        case PRED_TYPE_RLS_LINEAR:
        case PRED_TYPE_RLS_QUADRATIC: P(pred->x0); P(pred->lambda); P(pred->scale_factor); break;
        case PRED_TYPE_NEURAL: eff_net(r, "prediction net ", s->pred->largs); break;
    }
#undef P
    for (const char *p = s->population_file; *p; ++p) r.push_back({ "population_file", *p });
    return r;
}
// equal up to the precision of the text form
[[maybe_unused]] static void near15(const Pairs &a, Pairs &b)
{
    for (size_t i = 0; i < a.size() && i < b.size(); ++i)
        if (near(a[i].second, b[i].second, 4e-15, 0)) b[i].second = a[i].second;
}

