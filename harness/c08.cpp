// C08: parameters survive export/import and save/load, and never leave their documented ranges.
#include "par.hpp"
#include <algorithm>
#include <unistd.h>
using namespace xc;

// ---- the table of parameters ----
struct Par {
    string grp, key; // group: "", ea, csr, ternary, gp, dgp, nlms, rls
    vector<string> legal, bad; // bad: refused
    vector<std::pair<string, double>> clamp; // out of range: the value stored instead
    std::function<double(const XCSF *)> get;
    std::function<const char *(XCSF *, double)> set;
    char kind; // i, d, b
};
#define GET(f) [](const XCSF *s) { return (double) s->f; }
#define SET(f) [](XCSF *s, double v) -> const char * { return f(s, v); }
#define VSET(e) [](XCSF *s, double v) -> const char * { e; return nullptr; }
static const vector<Par> &table()
{
    static const vector<string> unit = { "0", "0.3", "1" }, nounit = { "-1e-9", "-1", "1.0000001", "7" };
    static const vector<string> nonneg = { "0", "1e-7", "2.5", "1000" }, noneg = { "-1e-9", "-3" };
    static const vector<string> pos = { "1", "2", "977" }, nopos = { "0", "-1", "-2000000" };
    static const vector<string> inn = { "0", "1", "5000" }, noinn = { "-1", "-77" };
    static const vector<string> any = { "-2.5", "0", "0.125", "31" };
    static const vector<string> tf = { "true", "false" };
    static const vector<std::pair<string, double>> cu = { { "-1e-9", 0 }, { "-4", 0 }, { "1.000001", 1 }, { "9", 1 } };
    static const vector<std::pair<string, double>> c1 = { { "0", 1 }, { "-5", 1 } };
    static const vector<Par> t = {
        { "", "omp_num_threads", { "1", "2", "1000" }, { "0", "-1", "1001" }, {}, GET(OMP_NUM_THREADS), SET(param_set_omp_num_threads), 'i' },
        { "", "pop_init", tf, {}, {}, GET(POP_INIT), SET(param_set_pop_init), 'b' },
        { "", "max_trials", pos, nopos, {}, GET(MAX_TRIALS), SET(param_set_max_trials), 'i' },
        { "", "perf_trials", pos, nopos, {}, GET(PERF_TRIALS), SET(param_set_perf_trials), 'i' },
        { "", "pop_size", pos, nopos, {}, GET(POP_SIZE), SET(param_set_pop_size), 'i' },
        { "", "huber_delta", nonneg, noneg, {}, GET(HUBER_DELTA), SET(param_set_huber_delta), 'd' },
        { "", "gamma", unit, nounit, {}, GET(GAMMA), SET(param_set_gamma), 'd' },
        { "", "teletransportation", pos, nopos, {}, GET(TELETRANSPORTATION), SET(param_set_teletransportation), 'i' },
        { "", "p_explore", unit, nounit, {}, GET(P_EXPLORE), SET(param_set_p_explore), 'd' },
        { "", "set_subsumption", tf, {}, {}, GET(SET_SUBSUMPTION), SET(param_set_set_subsumption), 'b' },
        { "", "theta_sub", inn, noinn, {}, GET(THETA_SUB), SET(param_set_theta_sub), 'i' },
        { "", "e0", nonneg, noneg, {}, GET(E0), SET(param_set_e0), 'd' },
        { "", "alpha", unit, nounit, {}, GET(ALPHA), SET(param_set_alpha), 'd' },
        { "", "nu", nonneg, noneg, {}, GET(NU), SET(param_set_nu), 'd' },
        { "", "beta", unit, nounit, {}, GET(BETA), SET(param_set_beta), 'd' },
        { "", "delta", unit, nounit, {}, GET(DELTA), SET(param_set_delta), 'd' },
        { "", "theta_del", inn, noinn, {}, GET(THETA_DEL), SET(param_set_theta_del), 'i' },
        { "", "init_fitness", nonneg, noneg, {}, GET(INIT_FITNESS), SET(param_set_init_fitness), 'd' },
        { "", "init_error", nonneg, noneg, {}, GET(INIT_ERROR), SET(param_set_init_error), 'd' },
        { "", "m_probation", inn, noinn, {}, GET(M_PROBATION), SET(param_set_m_probation), 'i' },
        { "", "stateful", tf, {}, {}, GET(STATEFUL), SET(param_set_stateful), 'b' },
        { "", "compaction", tf, {}, {}, GET(COMPACTION), SET(param_set_compaction), 'b' },
        { "ea", "select_size", { "1e-6", "0.4", "1" }, { "-1e-9", "-1", "1.0000001", "7", "0" }, {}, GET(ea->select_size), SET(ea_param_set_select_size), 'd' },
        { "ea", "theta_ea", nonneg, noneg, {}, GET(ea->theta), SET(ea_param_set_theta), 'd' },
        { "ea", "lambda", { "2", "3", "50" }, { "1", "0", "-2" }, {}, GET(ea->lambda), SET(ea_param_set_lambda), 'i' },
        { "ea", "p_crossover", unit, nounit, {}, GET(ea->p_crossover), SET(ea_param_set_p_crossover), 'd' },
        { "ea", "err_reduc", unit, nounit, {}, GET(ea->err_reduc), SET(ea_param_set_err_reduc), 'd' },
        { "ea", "fit_reduc", unit, nounit, {}, GET(ea->fit_reduc), SET(ea_param_set_fit_reduc), 'd' },
        { "ea", "subsumption", tf, {}, {}, GET(ea->subsumption), SET(ea_param_set_subsumption), 'b' },
        { "ea", "pred_reset", tf, {}, {}, GET(ea->pred_reset), SET(ea_param_set_pred_reset), 'b' },
        { "csr", "eta", unit, {}, cu, GET(cond->eta), VSET(cond_param_set_eta(s, v)), 'd' },
        { "csr", "min", any, {}, {}, GET(cond->min), VSET(cond_param_set_min(s, v)), 'd' },
        { "csr", "max", any, {}, {}, GET(cond->max), VSET(cond_param_set_max(s, v)), 'd' },
        { "csr", "spread_min", nonneg, {}, { { "-1e-9", 0 }, { "-3", 0 } }, GET(cond->spread_min), VSET(cond_param_set_spread_min(s, v)), 'd' },
        { "ternary", "p_dontcare", unit, {}, cu, GET(cond->p_dontcare), VSET(cond_param_set_p_dontcare(s, v)), 'd' },
        { "ternary", "bits", { "1", "2", "7" }, {}, c1, GET(cond->bits), VSET(cond_param_set_bits(s, (int) v)), 'i' },
        { "gp", "min_constant", any, {}, {}, GET(cond->targs->min), VSET(tree_param_set_min(s->cond->targs, v)), 'd' },
        { "gp", "max_constant", any, {}, {}, GET(cond->targs->max), VSET(tree_param_set_max(s->cond->targs, v)), 'd' },
        { "gp", "n_constants", { "1", "2", "100" }, {}, c1, GET(cond->targs->n_constants), VSET(tree_param_set_n_constants(s->cond->targs, (int) v); tree_args_init_constants(s->cond->targs)), 'i' },
        { "gp", "init_depth", { "1", "3", "5" }, {}, c1, GET(cond->targs->init_depth), VSET(tree_param_set_init_depth(s->cond->targs, (int) v)), 'i' },
        { "gp", "max_len", { "1", "10", "10000" }, {}, c1, GET(cond->targs->max_len), VSET(tree_param_set_max_len(s->cond->targs, (int) v)), 'i' },
        { "dgp", "max_k", { "1", "2", "5" }, {}, c1, GET(cond->dargs->max_k), VSET(graph_param_set_max_k(s->cond->dargs, (int) v)), 'i' },
        { "dgp", "max_t", { "1", "2", "40" }, {}, c1, GET(cond->dargs->max_t), VSET(graph_param_set_max_t(s->cond->dargs, (int) v)), 'i' },
        { "dgp", "n", { "5", "6", "20" }, {}, c1, GET(cond->dargs->n), VSET(graph_param_set_n(s->cond->dargs, (int) v)), 'i' },
        { "dgp", "evolve_cycles", tf, {}, {}, GET(cond->dargs->evolve_cycles), VSET(graph_param_set_evolve_cycles(s->cond->dargs, v != 0)), 'b' },
        { "nlms", "x0", any, {}, {}, GET(pred->x0), VSET(pred_param_set_x0(s, v)), 'd' },
        { "nlms", "eta", unit, {}, cu, GET(pred->eta), VSET(pred_param_set_eta(s, v)), 'd' },
        { "nlms", "eta_min", unit, {}, cu, GET(pred->eta_min), VSET(pred_param_set_eta_min(s, v)), 'd' },
        { "nlms", "evolve_eta", tf, {}, {}, GET(pred->evolve_eta), VSET(pred_param_set_evolve_eta(s, v != 0)), 'b' },
        { "rls", "x0", any, {}, {}, GET(pred->x0), VSET(pred_param_set_x0(s, v)), 'd' },
        { "rls", "lambda", { "0.5", "1", "2" }, {}, {}, GET(pred->lambda), VSET(pred_param_set_lambda(s, v)), 'd' },
        { "rls", "scale_factor", { "0.5", "1", "1000" }, {}, {}, GET(pred->scale_factor), VSET(pred_param_set_scale_factor(s, v)), 'd' },
    };
    return t;
}
static string cond_grp(const XCSF *s)
{
    switch (s->cond->type) {
        case COND_TYPE_TERNARY: return "ternary";
        case COND_TYPE_GP: return "gp";
        case COND_TYPE_DGP:
        case RULE_TYPE_DGP: return "dgp";
        case COND_TYPE_HYPERRECTANGLE_CSR:
        case COND_TYPE_HYPERRECTANGLE_UBR:
        case COND_TYPE_HYPERELLIPSOID: return "csr";
    }
    return "none";
}
static string pred_grp(const XCSF *s)
{
    switch (s->pred->type) {
        case PRED_TYPE_NLMS_LINEAR:
        case PRED_TYPE_NLMS_QUADRATIC: return "nlms";
        case PRED_TYPE_RLS_LINEAR:
        case PRED_TYPE_RLS_QUADRATIC: return "rls";
    }
    return "none";
}
static bool applies(const XCSF *s, const Par &p)
{
    return p.grp == "" || p.grp == "ea" || p.grp == cond_grp(s) || p.grp == pred_grp(s);
}
static string wrap(const XCSF *s, const Par &p, const string &v)
{
    const string kv = "{\"" + p.key + "\": " + v + "}";
    if (p.grp == "") return kv;
    if (p.grp == "ea") return "{\"ea\": " + kv + "}";
    if (p.grp == cond_grp(s)) return string("{\"condition\": {\"type\": \"") + condition_type_as_string(s->cond->type) + "\", \"args\": " + kv + "}}";
    return string("{\"prediction\": {\"type\": \"") + prediction_type_as_string(s->pred->type) + "\", \"args\": " + kv + "}}";
}
static double val(const string &v) { return v == "true" ? 1 : v == "false" ? 0 : strtod(v.c_str(), nullptr); }

static string text(const XCSF *s)
{
    char *p = param_json_export(s);
    string r = p;
    free(p);
    return r;
}
static XCSF *blank(int x, int y, int a)
{
    XCSF *s = (XCSF *) malloc(sizeof(XCSF));
    memset(s, 0xAB, sizeof(XCSF));
    param_init(s, x, y, a);
    return s;
}
static void drop(XCSF *s)
{
    param_free(s);
    free(s);
}
// a system whose parameters all differ from the defaults
static XCSF *dirty(const Cfg &c)
{
    XCSF *s = blank(3, 3, 3);
    for (const Par &p : table()) p.set(s, val(p.legal.back()));
    param_set_loss_func(s, LOSS_MSE);
    param_set_population_file(s, "old.json");
    param_set_random_state(s, 17);
    ea_param_set_select_type(s, EA_SELECT_TOURNAMENT);
    cond_param_set_type(s, COND_TYPE_NEURAL);
    if (c.a > 1) action_param_set_type(s, ACT_TYPE_NEURAL); // with one action the choice of action type is not exported
    pred_param_set_type(s, PRED_TYPE_NEURAL);
    return s;
}
static void survive(XCSF *s, const Cfg &c, bool all)
{
    const Pairs want = effective(s);
    const mc::RngState r0 = mc::rng_save();
    const string t = text(s);
    if (mc::rng_save().s != r0.s) mc::fail("export-draws", "exporting the parameters advanced the random generator");
    string d = diff_params(want, effective(s));
    if (!d.empty()) mc::fail("export-changes", "exporting changed a parameter: %s", d.c_str());
    if (text(s) != t) mc::fail("export-again", "a second export differs from the first");
    const int kind = all ? mc::choose(4) : 3;
    XCSF *o = kind == 0 ? blank(c.x, c.y, c.a) : kind == 1 || kind == 3 ? blank(1, 1, 1) : dirty(c);
    if (kind == 3) {
        for (int k = 0; k < 2; ++k) param_json_import(o, t.c_str()); // importing twice is importing once
    } else {
        param_json_import(o, t.c_str());
    }
    Pairs got = effective(o);
    near15(want, got);
    d = diff_params(want, got);
    if (!d.empty()) mc::fail("import", "after export and import: %s", d.c_str());
    if (text(o) != t) mc::fail("re-export", "exporting the imported parameters gives a different text");
    mc::validated();
    // the imported system works
    o->OMP_NUM_THREADS = 1;
    param_set_omp_num_threads(o, 1);
    o->POP_SIZE = 4;
    o->MAX_TRIALS = 1;
    if (all && o->population_file[0] == 0 && o->cond->targs->init_depth < 6 && o->cond->bits < 10) {
        xcsf_init(o);
        mc::step();
        fit1(o, sample(c, 0), target(c, 0));
        V x = sample(c, 1), p((size_t) o->pa_size), fb((size_t) o->pa_size, 0);
        xcs_supervised_predict(o, x.data(), p.data(), 1, fb.data());
        xcsf_free(o);
    }
    drop(o);
}
static void saved(XCSF *s)
{
    xcsf_init(s); // draws the constants of tree conditions
    const Pairs want = dump_params(s, false);
    char f[64];
    snprintf(f, sizeof(f), "p%d.bin", (int) getpid());
    xcsf_save(s, f);
    XCSF *o = blank(1, 1, 1);
    param_set_pop_init(o, false);
    xcsf_init(o);
    xcsf_load(o, f);
    unlink(f);
    const string d = diff_params(want, dump_params(o, false));
    if (!d.empty()) mc::fail("load", "after save and load: %s", d.c_str());
    xcsf_free(o);
    drop(o);
    xcsf_free(s);
    mc::step();
}
static void set_and_check(XCSF *s, const Par &p, const string &v, bool json)
{
    if (json) {
        param_json_import(s, wrap(s, p, v).c_str());
    } else {
        const char *e = p.set(s, val(v));
        if (e) mc::fail("legal-refused", "%s = %s is refused: %s", p.key.c_str(), v.c_str(), e);
    }
    if (p.get(s) != val(v)) mc::fail("stored", "%s set to %s is stored as %.17g", p.key.c_str(), v.c_str(), p.get(s));
    mc::log("%s=%s ", p.key.c_str(), v.c_str());
    mc::step();
}
struct Str { const char *key; vector<string> legal; vector<string> bad; };
static const vector<Str> &strings()
{
    static const vector<Str> t = {
        { "loss_func", { "mae", "mse", "rmse", "log", "binary_log", "onehot", "huber" }, { "", "ma", "maee", "MAE", "x" } },
        { "select_type", { "roulette", "tournament" }, { "", "roul", "x", "roulette2" } },
    };
    return t;
}
static string wrap_str(const Str &p, const string &v)
{
    const string kv = "{\"" + string(p.key) + "\": \"" + v + "\"}";
    return string(p.key) == "select_type" ? "{\"ea\": " + kv + "}" : kv;
}

void mc::scenarios()
{
    auto T = [] { return mc::thorough(); };
    vector<Entry> cat = catalog(true);
    // further networks: image-shaped first layers that do not process images
    for (int t : { DROPOUT, NOISE }) {
        Cfg c;
        c.x = 4; c.pred = PRED_TYPE_NEURAL;
        L d, v, o;
        d.type = t; d.n = 4; d.h = d.w = 2; d.c = 1; d.prob = 0.25; d.scale = 0.5;
        v.type = CONVOLUTIONAL; v.n = 1; v.h = v.w = 2; v.c = 1; v.size = 2; v.stride = 1; v.pad = 0;
        o.n = 1; o.func = LINEAR;
        c.pnet = { d, v, o };
        cat.push_back({ t == DROPOUT ? "pnet-dropout-conv" : "pnet-noise-conv", c, false, false });
    }
    // every combination of layer options, with and without their numbers
    for (int where = 0; where < 3; ++where)
        for (int t : { CONNECTED, RECURRENT, LSTM }) {
            Cfg b;
            b.x = 2;
            b.a = where == 1 ? 3 : 1;
            mc::add(string("layer-") + (where == 0 ? "pred-" : where == 1 ? "act-" : "cond-") + (t == CONNECTED ? "connected" : t == RECURRENT ? "recurrent" : "lstm"), Opt(), [=] {
                L h, o;
                h.type = t;
                h.n = 2;
                const bool all = mc::thorough();
                h.nmax = all ? 2 + 3 * mc::choose(2) : 5;
                h.grow = (int) mc::pick({ 1, 9 });
                h.func = TANH;
                h.rfunc = RELU;
                h.en = mc::flip();
                h.ee = mc::flip();
                h.sgd = mc::flip();
                const int rest = all ? mc::choose(4) : 3 * mc::choose(2);
                h.ew = rest & 1;
                h.ec = h.ef = rest & 2;
                h.eta = all ? mc::pick({ 0.25, 1 }) : 0.25;
                h.eta_min = all ? mc::pick({ 0, 0.125, 0.5 }) : mc::pick({ 0, 0.5 });
                h.mom = mc::pick({ 0, 0.75 });
                h.decay = mc::pick({ 0, 0.0625 });
                o.n = where == 1 ? 3 : 1;
                o.func = LINEAR;
                Cfg c = b;
                if (where == 0) c.pred = PRED_TYPE_NEURAL, c.pnet = { h, o };
                if (where == 1) c.act = ACT_TYPE_NEURAL, c.anet = { h, o };
                if (where == 2) c.cond = COND_TYPE_NEURAL, c.cnet = { h, o };
                XCSF *s = blank(c.x, c.y, c.a);
                param_free(s);
                configure(s, c);
                survive(s, c, true);
                saved(s);
                mc::state(0);
                drop(s);
            });
        }
    for (const Entry &e : cat) {
        const Cfg c = e.c;
        // each parameter at each legal value, by both ways of setting it, into each kind of system
        mc::add("one-" + e.name, Opt(), [c] {
            XCSF *s = blank(c.x, c.y, c.a);
            param_free(s);
            configure(s, c);
            const auto &t = table();
            const int i = mc::choose((int) t.size() + 1);
            if (i < (int) t.size() && applies(s, t[(size_t) i])) {
                const Par &p = t[(size_t) i];
                const string v = p.legal[(size_t) mc::choose((int) p.legal.size())];
                if (p.key == "huber_delta") param_set_loss_func(s, LOSS_HUBER);
                if (p.key == "select_size") ea_param_set_select_type(s, EA_SELECT_TOURNAMENT);
                if (p.key == "eta_min") pred_param_set_evolve_eta(s, true);
                set_and_check(s, p, v, mc::flip());
                survive(s, c, true);
                s->POP_SIZE = std::min(s->POP_SIZE, 20);
                saved(s);
            } else if (i == (int) t.size()) {
                survive(s, c, true);
                saved(s);
            }
            mc::state(0);
            drop(s);
        });
        // pairs of parameters
        const bool nets = !c.pnet.empty() || !c.cnet.empty() || !c.anet.empty();
        static const vector<string> some = { "csr-nlms1-x2y2a1", "gp-nlms1-x2y1a2", "ternary-const-x2y2a1", "rule_dgp-nlms1-x2y1a2", "csr-rls2-x2y1a2", "dgp-nlms1-x2y2a1" };
        if ((nets || std::find(some.begin(), some.end(), e.name) == some.end()) && !T()) continue;
        mc::add("two-" + e.name, Opt(), [c] {
            XCSF *s = blank(c.x, c.y, c.a);
            param_free(s);
            configure(s, c);
            param_set_loss_func(s, LOSS_HUBER);
            ea_param_set_select_type(s, EA_SELECT_TOURNAMENT);
            vector<const Par *> t;
            for (const Par &p : table())
                if (applies(s, p)) t.push_back(&p);
            const int i = mc::choose((int) t.size() - 1), j = i + 1 + mc::choose((int) t.size() - 1 - i);
            for (int k : { i, j }) {
                const Par &p = *t[(size_t) k];
                set_and_check(s, p, p.legal[(size_t) mc::choose((int) p.legal.size())], true);
            }
            for (int k : { i, j })
                if (t[(size_t) k]->get(s) < -1e9) mc::fail("range", "bad value");
            survive(s, c, false);
            mc::Hash h;
            for (auto &p : effective(s)) h.d(p.second);
            mc::state(h.h);
            drop(s);
        });
    }
    // named options, names and integers without a range
    mc::add("named", Opt(), [] {
        Cfg c;
        c.x = 2; c.a = 2;
        XCSF *s = blank(2, 1, 2);
        switch (mc::choose(5)) {
            case 0: {
                const Str &p = strings()[(size_t) mc::choose((int) strings().size())];
                const string v = p.legal[(size_t) mc::choose((int) p.legal.size())];
                mc::log("%s=%s ", p.key, v.c_str());
                param_json_import(s, wrap_str(p, v).c_str());
                if (text(s).find("\"" + v + "\"") == string::npos) mc::fail("named", "%s = %s is not what is exported", p.key, v.c_str());
                break;
            }
            case 1: {
                static const int len[] = { 0, 1, 9, 100, 510, 511, 512, 513, 2000 };
                const int n = len[mc::choose(9)];
                mc::log("population file of %d characters ", n);
                const string f((size_t) n, 'f');
                if (mc::flip()) param_set_population_file(s, f.c_str());
                else param_json_import(s, ("{\"population_file\": \"" + f + "\"}").c_str());
                const string got = s->population_file;
                if (n <= 511 ? got != f : f.compare(0, got.size(), got) != 0 || got.size() < 500) mc::fail("population-file", "a name of %d characters is stored with %zu", n, got.size());
                break;
            }
            case 2: {
                const int v = mc::picki({ -1, 0, 1, 77, INT_MAX });
                param_json_import(s, ("{\"random_state\": " + std::to_string(v) + "}").c_str());
                if (s->RANDOM_STATE != v) mc::fail("random-state", "%d is stored as %d", v, s->RANDOM_STATE);
                break;
            }
            case 3: { // every condition, action and prediction type by name
                const int k = mc::choose(3);
                const int n = k == 0 ? 10 : k == 1 ? 2 : 6;
                const int i = mc::choose(n);
                const int ty = k == 0 ? ALL_CONDS[(size_t) i] : i;
                const string name = k == 0 ? condition_type_as_string(ty) : k == 1 ? action_type_as_string(ty) : prediction_type_as_string(ty);
                mc::log("type %s ", name.c_str());
                param_json_import(s, ("{\"" + string(k == 0 ? "condition" : k == 1 ? "action" : "prediction") + "\": {\"type\": \"" + name + "\"}}").c_str());
                const int got = k == 0 ? s->cond->type : k == 1 ? s->act->type : s->pred->type;
                if (got != ty) mc::fail("type", "type %s is stored as %d, not %d", name.c_str(), got, ty);
                break;
            }
            case 4: { // dimensions
                const int k = mc::choose(3), v = mc::picki({ 1, 2, 5 });
                static const char *n[] = { "x_dim", "y_dim", "n_actions" };
                param_json_import(s, ("{\"" + string(n[k]) + "\": " + std::to_string(v) + "}").c_str());
                const int got = k == 0 ? s->x_dim : k == 1 ? s->y_dim : s->n_actions;
                if (got != v) mc::fail("dimension", "%s = %d is stored as %d", n[k], v, got);
                if (s->cond->targs->n_inputs != s->x_dim || s->cond->dargs->n_inputs != s->x_dim) mc::fail("inputs", "trees and graphs have %d and %d inputs, not %d", s->cond->targs->n_inputs, s->cond->dargs->n_inputs, s->x_dim);
                break;
            }
        }
        mc::step();
        const string t = text(s);
        XCSF *o = blank(1, 1, 1);
        param_json_import(o, t.c_str());
        Pairs a = effective(s), b = effective(o);
        near15(a, b);
        const string d = diff_params(a, b);
        if (!d.empty()) mc::fail("import", "after export and import: %s", d.c_str());
        drop(o);
        drop(s);
    });
    // the named options are all different values
    mc::add("distinct", Opt(), [] {
        const Str &p = strings()[(size_t) mc::choose((int) strings().size())];
        std::map<int, string> seen;
        for (const string &v : p.legal) {
            XCSF *s = blank(1, 1, 1);
            param_json_import(s, wrap_str(p, v).c_str());
            const int g = string(p.key) == "loss_func" ? s->LOSS_FUNC : s->ea->select_type;
            if (seen.count(g)) mc::fail("distinct", "%s and %s mean the same", v.c_str(), seen[g].c_str());
            seen[g] = v;
            drop(s);
        }
    });
    // illegal values: refused, or replaced by the nearest legal one; whatever is stored is legal
    vector<Cfg> kinds;
    for (int cond : { COND_TYPE_HYPERRECTANGLE_CSR, COND_TYPE_HYPERRECTANGLE_UBR, COND_TYPE_HYPERELLIPSOID, COND_TYPE_TERNARY, COND_TYPE_GP, COND_TYPE_DGP, RULE_TYPE_DGP })
        for (int pred : { PRED_TYPE_NLMS_LINEAR, PRED_TYPE_RLS_QUADRATIC }) {
            Cfg c;
            c.cond = cond;
            c.pred = pred;
            c.a = 2; c.x = 2;
            kinds.push_back(c);
        }
    for (const Cfg &c : kinds)
        mc::add("illegal-" + c.name(), Opt(), [c] {
            XCSF *s = blank(c.x, c.y, c.a);
            param_free(s);
            configure(s, c);
            const auto &t = table();
            const Par &p = t[(size_t) mc::choose((int) t.size())];
            if (!applies(s, p)) { drop(s); return; }
            const Pairs before = effective(s);
            const int n = (int) (p.bad.size() + p.clamp.size());
            const int i = mc::choose(n + 3);
            if (i < (int) p.bad.size()) {
                const string v = p.bad[(size_t) i];
                mc::log("%s=%s ", p.key.c_str(), v.c_str());
                const char *e = p.set(s, val(v));
                if (!e) mc::fail("illegal-accepted", "%s = %s is accepted", p.key.c_str(), v.c_str());
                const string d = diff_params(before, effective(s));
                if (!d.empty()) mc::fail("illegal-stored", "refusing %s = %s still changed %s", p.key.c_str(), v.c_str(), d.c_str());
                const string j = wrap(s, p, v);
                if (!mc::rejects([&] { param_json_import(s, j.c_str()); })) mc::fail("illegal-imported", "%s is accepted", j.c_str());
            } else if (i < n) {
                const auto &v = p.clamp[(size_t) i - p.bad.size()];
                mc::log("%s=%s ", p.key.c_str(), v.first.c_str());
                if (mc::flip()) p.set(s, val(v.first));
                else param_json_import(s, wrap(s, p, v.first).c_str());
                if (p.get(s) != v.second) mc::fail("range", "%s = %s is stored as %g, not %g", p.key.c_str(), v.first.c_str(), p.get(s), v.second);
            } else { // the wrong kind of value
                static const char *w[] = { "\"1\"", "[1]", "null" };
                const string j = wrap(s, p, p.kind == 'b' && i == n ? "1" : p.kind != 'b' && i == n ? "true" : w[i - n]);
                mc::log("%s ", j.c_str());
                if (!mc::rejects([&] { param_json_import(s, j.c_str()); })) mc::fail("kind-accepted", "%s is accepted", j.c_str());
            }
            mc::step();
            drop(s);
        });
    mc::add("unknown", Opt(), [] {
        static const vector<string> bad = { "{\"nonsense\": 1}", "{\"ea\": {\"nonsense\": 1}}", "{\"x_dim\": 0}", "{\"y_dim\": 0}", "{\"n_actions\": 0}", "{\"x_dim\": -1}", "{\"y_dim\": -3}", "{\"n_actions\": -1}",
            "{\"loss_func\": 1}", "{\"population_file\": 1}", "{\"condition\": {\"type\": \"nonsense\"}}", "{\"condition\": {\"args\": {\"eta\": 0}}}", "{\"condition\": {\"type\": 3}}",
            "{\"action\": {\"type\": \"nonsense\"}}", "{\"action\": {\"type\": 0}}", "{\"action\": {}}", "{\"prediction\": {\"type\": \"nonsense\"}}", "{\"prediction\": {\"type\": 0}}", "{\"prediction\": {}}",
            "{\"condition\": {\"type\": \"hyperrectangle_csr\", \"args\": {\"nonsense\": 1}}}", "{\"condition\": {\"type\": \"ternary\", \"args\": {\"eta\": 1}}}", "{\"condition\": {\"type\": \"tree_gp\", \"args\": {\"nonsense\": 1}}}",
            "{\"condition\": {\"type\": \"dgp\", \"args\": {\"nonsense\": 1}}}", "{\"prediction\": {\"type\": \"nlms_linear\", \"args\": {\"lambda\": 1}}}", "{\"prediction\": {\"type\": \"rls_linear\", \"args\": {\"eta\": 1}}}",
            "{\"prediction\": {\"type\": \"neural\", \"args\": {\"layer_0\": {\"type\": \"nonsense\"}}}}", "{\"prediction\": {\"type\": \"neural\", \"args\": {\"layer_0\": {\"type\": \"connected\", \"nonsense\": 1}}}}",
            "{\"prediction\": {\"type\": \"neural\", \"args\": {\"layer_0\": {\"type\": \"connected\", \"activation\": \"nonsense\"}}}}", "{\"prediction\": {\"type\": \"neural\", \"args\": {}}}",
            "{\"prediction\": {\"type\": \"neural\", \"args\": {\"layer_0\": {\"type\": \"connected\", \"n_init\": 2, \"evolve_neurons\": true}}}}",
            "{\"prediction\": {\"type\": \"neural\", \"args\": {\"layer_0\": {\"type\": \"convolutional\", \"n_init\": 2, \"size\": 1}}}}", "{\"ea\": {\"select_type\": 1}}", "{\"x_dim\": ", "" };
        vector<string> all = bad;
        for (const Str &p : strings())
            for (const string &v : p.bad) all.push_back(wrap_str(p, v));
        const string j = all[(size_t) mc::choose((int) all.size())];
        mc::log("%s ", j.c_str());
        XCSF *s = blank(2, 1, 2);
        if (!mc::rejects([&] { param_json_import(s, j.c_str()); })) mc::fail("unknown-accepted", "%s is accepted", j.c_str());
        mc::step();
        drop(s);
    });
    // exporting leaves the random sequence alone, the cached normal deviate included
    for (const Entry &e : cat) {
        const Cfg c = e.c;
        mc::add("export-random-" + e.name, Opt(), [c] {
            XCSF *s = make(c);
            const bool between = mc::flip();
            double v[2][4];
            for (int k = 0; k < 2; ++k) {
                mc::flush_normal();
                mc::seed_stream(99);
                v[k][0] = between ? rand_normal(0, 1) : 0;
                if (k) text(s);
                v[k][1] = rand_normal(0, 1);
                v[k][2] = rand_normal(0, 1);
                v[k][3] = rand_uniform(0, 1);
            }
            mc::step();
            if (memcmp(v[0], v[1], sizeof(v[0]))) mc::fail("export-random", "the random numbers after exporting the parameters differ");
            destroy(s);
        });
    }
}
