import os, sys
exec(open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[1])), "a.py")).read().split("SEEDS = [")[0])
RULES = '''
static struct Cl *rule(struct XCSF *s) { struct Cl *c = malloc(sizeof(struct Cl)); cl_init(s, c, 1, 0); cl_rand(s, c); return c; }
'''
SEEDS = [
dict(id="c06-two-rules", property="C06", needs="saving a population of exactly one or two macro-rules",
 breaks="the loaded population is in the reverse order, so the loaded system does not continue as the saved one",
 edits=[("xcsf/clset.c", "    clset_pset_reverse(xcsf); // reverse", "    if (xcsf->pset.size > 2) {\n        clset_pset_reverse(xcsf);\n    } // reverse")],
 demo=PRE + '''
int main() {
    for (int n = 1; n < 6; ++n) {
        struct XCSF *s = mk(1, 1, 1), *t = mk(1, 1, 1);
        param_set_pop_size(s, n); param_set_pop_init(s, true);
        xcsf_init(s); xcsf_init(t);
        xcsf_save(s, "saved.bin"); xcsf_load(t, "saved.bin");
        REQUIRE(s->pset.size == t->pset.size, "sizes differ");
        struct Clist *a = s->pset.list, *b = t->pset.list;
        for (int i = 0; a; a = a->next, b = b->next, ++i) {
            const struct CondRectangle *p = a->cl->cond, *q = b->cl->cond;
            REQUIRE(p->b1[0] == q->b1[0], "population of %d: rule %d differs after loading", n, i);
        }
    }
    return 0;
}
'''),
dict(id="c07-negative-rate", property="C07", needs="importing a rule whose JSON text has a negative mutation rate",
 breaks="an illegal rule text is accepted and put into the population",
 edits=[("xcsf/sam.c", "item_i->valuedouble < 0 || item_i->valuedouble > 1", "item_i->valuedouble > 1")],
 demo=PRE + '''
#include <unistd.h>
#include <sys/wait.h>
#include "lib/cJSON/cJSON.h"
static int put(double v, int at) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        struct XCSF *s = mk(1, 1, 1);
        param_set_pop_size(s, 1); param_set_pop_init(s, true); xcsf_init(s);
        char *t = clset_json_export(s, &s->pset, true, true, true);
        cJSON *j = cJSON_Parse(t), *c = j->child->child;
        cJSON *mu = cJSON_GetObjectItem(cJSON_GetObjectItem(c, "condition"), "mutation");
        cJSON_ReplaceItemInArray(mu, at, cJSON_CreateNumber(v));
        clset_json_insert(s, cJSON_Print(j));
        _exit(0);
    }
    int st; waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 99;
}
int main() {
    REQUIRE(put(0.5, 0) == 0, "a legal rule was rejected");
    REQUIRE(put(1.5, 0) != 0, "a mutation rate of 1.5 was accepted");
    REQUIRE(put(-0.5, 0) != 0, "a mutation rate of -0.5 was accepted");
    return 0;
}
'''),
dict(id="c08-eta-min-zero", property="C08", needs="evolved learning rates with a minimum of exactly zero, exported and imported into a system with another minimum",
 breaks="exported parameters do not restore the configuration",
 edits=[("xcsf/pred_nlms.c", '''    if (pred->evolve_eta) {
        cJSON_AddNumberToObject(json, "eta_min", pred->eta_min);
    }''', '''    if (pred->evolve_eta && pred->eta_min > 0) {
        cJSON_AddNumberToObject(json, "eta_min", pred->eta_min);
    }''')],
 demo=PRE + '''
int main() {
    for (int i = 0; i < 2; ++i) {
        struct XCSF *s = mk(1, 1, 1), *t = mk(1, 1, 1);
        pred_param_set_type(s, PRED_TYPE_NLMS_LINEAR); pred_param_set_evolve_eta(s, true); pred_param_set_eta_min(s, i * 0.01);
        pred_param_set_type(t, PRED_TYPE_NLMS_LINEAR); pred_param_set_evolve_eta(t, true); pred_param_set_eta_min(t, 0.05);
        param_json_import(t, param_json_export(s));
        REQUIRE(t->pred->eta_min == i * 0.01, "eta_min is %g after importing %g", t->pred->eta_min, i * 0.01);
    }
    return 0;
}
'''),
dict(id="c09-accuracy-underflow", property="C09", needs="an action set whose rules all have such a large error that their accuracy underflows",
 breaks="the relative accuracies become 0/0 and the fitness of every rule of the set NaN",
 edits=[("xcsf/cl.c", "        return fmax(acc, DBL_EPSILON);", "        return acc;")],
 demo=PRE + RULES + '''
int main() {
    struct XCSF *s = mk(1, 1, 1);
    pred_param_set_type(s, PRED_TYPE_CONSTANT);
    xcsf_init(s);
    struct Set set; clset_init(&set); clset_init(&s->kset);
    for (int i = 0; i < 2; ++i) { struct Cl *c = rule(s); c->err = 1e120; c->exp = 50; clset_add(&set, c); clset_add(&s->pset, c); }
    double x = 0.5, y = 1;
    clset_update(s, &set, &x, &y, true);
    for (struct Clist *c = set.list; c; c = c->next) REQUIRE(isfinite(c->cl->fit) && c->cl->fit >= 0 && c->cl->fit <= 1, "fitness %g", c->cl->fit);
    return 0;
}
'''),
dict(id="c10-forgetting", property="C10", needs="recursive least squares with a forgetting factor other than one",
 breaks="the gain of the recursive least squares update ignores the forgetting factor",
 edits=[("xcsf/pred_rls.c", "    divisor = 1 / (divisor + xcsf->pred->lambda);", "    divisor = 1 / (divisor + 1);")],
 demo=PRE + RULES + '''
int main() {
    for (int i = 0; i < 2; ++i) {
        struct XCSF *s = mk(1, 1, 1);
        pred_param_set_type(s, PRED_TYPE_RLS_LINEAR);
        const double lambda = i ? 0.7 : 1;
        pred_param_set_lambda(s, lambda); pred_param_set_scale_factor(s, 1); pred_param_set_x0(s, 1);
        xcsf_init(s);
        struct Cl *c = rule(s);
        double x = 0.5, y = 3;
        cl_predict(s, c, &x);
        const double before = c->prediction[0];
        pred_update(s, c, &x, &y);
        cl_predict(s, c, &x);
        const double after = c->prediction[0], want = before + (y - before) * 1.25 / (1.25 + lambda);
        REQUIRE(fabs(after - want) < 1e-9, "lambda %g: prediction %g, should be %g", lambda, after, want);
    }
    return 0;
}
'''),
dict(id="c11-offspring-fitness", property="C11", needs="two parents of different numerosity without crossover",
 breaks="the second offspring gets a fitness that is not the reduced share of its parent",
 edits=[("xcsf/ea.c", "        c2->fit = xcsf->ea->fit_reduc * (c2p->fit / c2p->num);", "        c2->fit = xcsf->ea->fit_reduc * (c2p->fit / c1p->num);")],
 demo=PRE + RULES + '''
int main() {
    struct XCSF *s = mk(1, 1, 1);
    param_set_pop_size(s, 10000); ea_param_set_p_crossover(s, 0); ea_param_set_theta(s, 0); ea_param_set_fit_reduc(s, 0.1); ea_param_set_subsumption(s, false);
    ea_param_set_select_type(s, 0);
    xcsf_init(s);
    struct Set set; clset_init(&set); clset_init(&s->kset);
    for (int i = 0; i < 2; ++i) { struct Cl *c = rule(s); c->num = i ? 5 : 1; c->fit = i ? 0.5 : 0.3; clset_add(&set, c); clset_add(&s->pset, c); }
    for (int k = 0; k < 100; ++k) ea(s, &set);
    for (struct Clist *c = s->pset.list; c; c = c->next) {
        const double f = c->cl->fit;
        if (c->cl->num == 5 || f == 0.3) continue;
        REQUIRE(fabs(f - 0.01) < 1e-12 || fabs(f - 0.03) < 1e-12, "offspring fitness %g, should be 0.01 or 0.03", f);
    }
    return 0;
}
'''),
dict(id="c12-vote-numerosity", property="C12", needs="an experienced unfit rule with a numerosity above one",
 breaks="the deletion vote of unfit rules of high numerosity is not scaled up",
 edits=[("xcsf/cl.c", "c->fit < xcsf->DELTA * avg_fit * c->num", "c->fit < xcsf->DELTA * avg_fit")],
 demo=PRE + RULES + '''
int main() {
    struct XCSF *s = mk(1, 1, 1);
    xcsf_init(s);
    param_set_delta(s, 0.1); param_set_theta_del(s, 20);
    struct Cl *c = rule(s);
    c->exp = 50; c->size = 2; c->fit = 0.05; c->num = 10;
    const double v = cl_del_vote(s, c, 0.2), want = 2 * 10 * 0.2 / (0.05 / 10);
    REQUIRE(fabs(v - want) < 1e-9 * want, "vote %g, should be %g", v, want);
    return 0;
}
'''),
dict(id="c13-cycles", property="C13", needs="repeated mutation of the number of cycles of a graph rule",
 breaks="mutation takes the number of cycles of a graph past its maximum",
 edits=[("xcsf/dgp.c", "dgp->t + n < 1 || dgp->t + n > dgp->max_t", "dgp->t + n < 1")],
 demo=PRE + RULES + '''
#include "xcsf/cond_dgp.h"
int main() {
    struct XCSF *s = mk(2, 1, 1);
    cond_param_set_type(s, COND_TYPE_DGP);
    xcsf_init(s);
    for (int k = 0; k < 20; ++k) {
        struct Cl *c = rule(s);
        for (int i = 0; i < 300; ++i) {
            cond_mutate(s, c);
            const struct CondDGP *d = c->cond;
            REQUIRE(d->dgp.t >= 1 && d->dgp.t <= d->dgp.max_t, "%d cycles of at most %d after %d mutations", d->dgp.t, d->dgp.max_t, i);
        }
    }
    return 0;
}
'''),
dict(id="c14-shared-buffer", property="C14", needs="several threads matching ternary rules of at least two features at the same time",
 breaks="the match sets computed with several threads differ from those of one thread",
 edits=[("xcsf/cond_ternary.c", '''    const struct CondTernary *cond = c->cond;
    const int bits = xcsf->cond->bits;
    for (int i = 0; i < xcsf->x_dim; ++i) {
        float_to_binary(x[i], cond->tmp_input, bits);
        for (int j = 0; j < bits; ++j) {
            const char s''', '''    const struct CondTernary *cond = c->cond;
    static char tmp_input[64];
    const int bits = xcsf->cond->bits;
    for (int i = 0; i < xcsf->x_dim; ++i) {
        float_to_binary(x[i], tmp_input, bits);
        memcpy(cond->tmp_input, tmp_input, bits);
        for (int j = 0; j < bits; ++j) {
            const char s''')],
 demo=PRE + '''
#include <omp.h>
int main() {
    struct XCSF *s = mk(8, 1, 1);
    cond_param_set_type(s, COND_TYPE_TERNARY); cond_param_set_bits(s, 8); cond_param_set_p_dontcare(s, 0.97);
    param_set_pop_size(s, 3000); param_set_pop_init(s, true);
    xcsf_init(s);
    double x[8] = { 0, 1, 0, 1, 0.3, 0.9, 0.01, 0.99 };
    for (int rep = 0; rep < 1500; ++rep) {
        int sum[2];
        for (int k = 0; k < 2; ++k) {
            omp_set_num_threads(k ? 8 : 1);
            clset_init(&s->mset);
            clset_match(s, x, false);
            sum[k] = s->mset.size;
            clset_free(&s->mset);
        }
        REQUIRE(sum[0] == sum[1], "repetition %d: %d rules match with one thread, %d with eight", rep, sum[0], sum[1]);
    }
    return 0;
}
'''),
dict(id="c15-previous-prediction", property="C15", needs="a multi-step trial in which an exploring step takes an action that is not the best one",
 breaks="the prediction error of the previous step is measured against the best payoff instead of that of the action taken",
 edits=[("xcsf/xcs_rl.c", "    xcsf->prev_pred = pa_val(xcsf, action);", "    xcsf->prev_pred = pa_best_val(xcsf);")],
 demo=PRE + '''
int main() {
    struct XCSF *s = mk(1, 1, 2);
    pred_param_set_type(s, PRED_TYPE_CONSTANT);
    param_set_loss_func(s, LOSS_MAE); ea_param_set_theta(s, 1000000);
    xcsf_init(s);
    for (int k = 0; k < 200; ++k) {
        double x = (k % 5) / 5.0;
        param_set_explore(s, true);
        xcs_rl_init_trial(s);
        double pred = 0, rew = 0;
        for (int i = 0; i < 2; ++i) {
            xcs_rl_init_step(s);
            const int a = xcs_rl_decision(s, &x);
            const double v = pa_val(s, a), r = a ? 1 : 0.25;
            double want = i ? fabs(pred - (rew + s->GAMMA * v)) + fabs(v - r) : 0;
            xcs_rl_update(s, &x, a, r, i == 1);
            const double e = xcs_rl_error(s, a, r, i == 1, 1);
            REQUIRE(fabs(e - want) < 1e-9, "trial %d step %d: error %g, should be %g", k, i, e, want);
            xcs_rl_end_step(s, &x, a, r);
            pred = v; rew = r;
        }
        xcs_rl_end_trial(s);
    }
    return 0;
}
'''),
dict(id="c16-overlapping-pool", property="C16", needs="max pooling with overlapping windows where one input is the maximum of several windows",
 breaks="only the gradient of one of the windows reaches the input",
 edits=[("xcsf/neural_layer_maxpool.c", "            delta[l->indexes[i]] += l->delta[i];", "            delta[l->indexes[i]] = l->delta[i];")],
 demo=PRE + '''
#include "xcsf/neural.h"
#include "xcsf/neural_layer_maxpool.h"
int main() {
    struct ArgsLayer args; layer_args_init(&args);
    args.type = MAXPOOL; args.height = 3; args.width = 3; args.channels = 1; args.size = 2; args.stride = 1; args.pad = 0;
    struct Net net; neural_init(&net);
    struct Layer *l = layer_init(&args);
    double x[9] = { 0, 0, 0, 0, 5, 0, 0, 0, 0 }, d[9] = { 0 };
    layer_forward(l, &net, x);
    int n = 0;
    for (int i = 0; i < l->n_outputs; ++i) { l->delta[i] = 1; n += l->output[i] == 5; }
    layer_backward(l, &net, x, d);
    REQUIRE(n >= 2, "setup: %d windows", n);
    REQUIRE(d[4] == n, "gradient %g of an input that is the maximum of %d windows", d[4], n);
    return 0;
}
'''),
dict(id="c17-long-maze", property="C17", needs="a maze that is not square, crossing its top or bottom border",
 breaks="vertical moves wrap around at the width of the maze instead of its height",
 edits=[("xcsf/env_maze.c", "        ((env->ypos + y_moves[action]) % env->ysize + env->ysize) % env->ysize;", "        ((env->ypos + y_moves[action]) % env->xsize + env->xsize) % env->xsize;")],
 demo=PRE + '''
#include "xcsf/env_maze.h"
int main() {
    FILE *f = fopen("m.txt", "w");
    fputs("**F\\n***\\n***\\n***\\n***\\n", f); fclose(f);
    struct XCSF *s = mk(8, 1, 8);
    env_maze_init(s, "m.txt");
    struct EnvMaze *e = s->env;
    static const int dx[] = { 0, 1, 1, 1, 0, -1, -1, -1 }, dy[] = { -1, -1, 0, 1, 1, 1, 0, -1 };
    for (int x = 0; x < 2; ++x)
        for (int y = 0; y < 5; ++y)
            for (int a = 0; a < 8; ++a) {
                env_maze_reset(s);
                e->xpos = x; e->ypos = y;
                env_maze_execute(s, a);
                // one step on the torus, whichever direction the action is
                int ok = 0;
                for (int k = 0; k < 8; ++k) ok |= e->xpos == (x + dx[k] + 3) % 3 && e->ypos == (y + dy[k] + 5) % 5;
                REQUIRE(ok, "from (%d,%d) action %d leads to (%d,%d)", x, y, a, e->xpos, e->ypos);
            }
    return 0;
}
'''),
dict(id="c18-stale-best", property="C18", needs="early stopping with restoring, the best population having fewer rules than an earlier best one",
 breaks="the population restored at the end is not that of the best trial",
 edits=[("xcsf/pybind_callback_earlystop.h", """        do_restore = true;
        xcsf_store_pset(xcsf);""", """        if (!do_restore || xcsf->prev_pset.size < xcsf->pset.size) {
            xcsf_store_pset(xcsf);
        }
        do_restore = true;""")],
 py='''
import numpy as np, xcsf, json, sys
def run(n):
    m = xcsf.XCS(x_dim=1, y_dim=1, n_actions=1, random_state=3, pop_size=20, max_trials=n, perf_trials=1, beta=0.5,
                 prediction={"type": "constant"}, ea={"lambda": 2}, theta_del=0)
    cb = xcsf.EarlyStoppingCallback(monitor="train", patience=100000, restore_best=True, min_delta=0, start_from=0, verbose=False)
    X = np.array([[0.1], [0.5], [0.9], [0.3]]); Y = np.array([[1.0], [0.2], [0.5], [0.8]])
    m.fit(X, Y, shuffle=False, verbose=False, warm_start=False, callbacks=[cb])
    return m
def key(js):
    return sorted(json.dumps(c, sort_keys=True) for c in json.loads(js)["classifiers"])
for n in (60, 200):
    m = run(n)
    t = m.get_metrics()["train"]
    best = 0
    for i, e in enumerate(t):
        if e < t[best]:
            best = i
    a = run(n)
    b = xcsf.XCS(x_dim=1, y_dim=1, n_actions=1, random_state=3, pop_size=20, max_trials=best + 1, perf_trials=1, beta=0.5,
                 prediction={"type": "constant"}, ea={"lambda": 2}, theta_del=0)
    X = np.array([[0.1], [0.5], [0.9], [0.3]]); Y = np.array([[1.0], [0.2], [0.5], [0.8]])
    b.fit(X, Y, shuffle=False, verbose=False, warm_start=False)
    if key(a.json()) != key(b.json()):
        print("restored population is not that of trial", best + 1)
        sys.exit(1)
'''),
dict(id="c19-match-count", property="C19", needs="storing a population with rules that are old but rarely matched, and retrieving it",
 breaks="the retrieved rules have lost their count of matches and are deleted as never matching",
 edits=[("xcsf/cl.c", "    dest->mtotal = src->mtotal;", "    dest->mtotal = src->m ? src->mtotal : 0;")],
 demo=PRE + '''
int main() {
    struct XCSF *s = mk(1, 1, 1);
    param_set_pop_size(s, 50);
    xcsf_init(s);
    for (int i = 0; i < 300; ++i) {
        double x = rand_uniform(0, 1), y = x;
        struct Input d = { .x = &x, .y = &y, .x_dim = 1, .y_dim = 1, .n_samples = 1 };
        xcs_supervised_fit(s, &d, NULL, false, 0, 1);
    }
    long a = 0, b = 0;
    for (struct Clist *c = s->pset.list; c; c = c->next) a += c->cl->mtotal;
    xcsf_store_pset(s);
    xcsf_retrieve_pset(s);
    for (struct Clist *c = s->pset.list; c; c = c->next) b += c->cl->mtotal;
    REQUIRE(a == b, "matches counted: %ld before, %ld after", a, b);
    return 0;
}
'''),
dict(id="c20-graph-memory", property="C20", needs="graph rules that are not reset before each input, in memory that is not fresh from the system",
 breaks="the first outputs of a new graph depend on what was in the memory before: seeded runs differ",
 edits=[("xcsf/dgp.c", """        dgp->initial_state[i] = rand_uniform(0, 1);
        dgp->state[i] = rand_uniform(0, 1);""", """        dgp->initial_state[i] = rand_uniform(0, 1);
        rand_uniform(0, 1);""")],
 demo=PRE + '''
#include <malloc.h>
#include "xcsf/cond_dgp.h"
int main() {
    double sum[2] = { 0 };
    for (int k = 0; k < 2; ++k) {
        mallopt(M_PERTURB, k ? 0x5a : 0xc1);
        struct XCSF *s = mk(2, 1, 1);
        cond_param_set_type(s, COND_TYPE_DGP);
        param_set_pop_size(s, 10); param_set_pop_init(s, true);
        param_set_random_state(s, 5);
        xcsf_init(s);
        for (struct Clist *c = s->pset.list; c; c = c->next) {
            const struct CondDGP *d = c->cl->cond;
            for (int i = 0; i < d->dgp.n; ++i) { REQUIRE(d->dgp.state[i] >= 0 && d->dgp.state[i] <= 1, "state %g", d->dgp.state[i]); sum[k] += d->dgp.state[i]; }
        }
    }
    REQUIRE(sum[0] == sum[1], "two runs of the same seed: %g and %g", sum[0], sum[1]);
    return 0;
}
'''),
dict(id="c21-huber-delta", property="C21", needs="the Huber loss with a delta other than one and a residual beyond it",
 breaks="the Huber loss is not continuous at delta and differs from its definition",
 edits=[("xcsf/loss.c", "            error += 0.5 * delta * delta + delta * (fabs(a) - delta);", "            error += 0.5 * delta + delta * (fabs(a) - delta);")],
 demo=PRE + '''
int main() {
    struct XCSF *s = mk(1, 1, 1);
    xcsf_init(s);
    param_set_loss_func(s, LOSS_HUBER);
    for (int i = 1; i < 9; ++i) {
        const double d = i * 0.25;
        param_set_huber_delta(s, d);
        for (int k = 0; k < 40; ++k) {
            const double p = k * 0.1, y = 0, want = p > d ? 0.5 * d * d + d * (p - d) : 0.5 * p * p, e = (s->loss_ptr)(s, &p, &y);
            REQUIRE(fabs(e - want) < 1e-12, "delta %g residual %g: loss %g, should be %g", d, p, e, want);
        }
    }
    return 0;
}
'''),
dict(id="c22-fewer-inputs", property="C22", needs="training data with fewer rows of inputs than of targets",
 breaks="inconsistent data are accepted instead of raising an error",
 edits=[("xcsf/pybind_wrapper.cpp", "if (buf_x.shape[0] != buf_y.shape[0]) {", "if (buf_x.shape[0] > buf_y.shape[0]) {")],
 py='''
import numpy as np, xcsf, sys
m = xcsf.XCS(x_dim=1, y_dim=1, n_actions=1, max_trials=5, perf_trials=5)
for nx, ny in ((3, 3), (4, 3), (3, 4)):
    try:
        m.fit(np.full((nx, 1), 0.5), np.full((ny, 1), 0.5), shuffle=False, verbose=False)
        ok = True
    except ValueError:
        ok = False
    if ok != (nx == ny):
        print(nx, "inputs and", ny, "targets", "accepted" if ok else "rejected")
        sys.exit(1)
'''),
]
