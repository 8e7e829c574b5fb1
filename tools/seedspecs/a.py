PRE = '''
#include "xcsf/xcsf.h"
#include "xcsf/param.h"
#include "xcsf/clset.h"
#include "xcsf/cl.h"
#include "xcsf/ea.h"
#include "xcsf/pa.h"
#include "xcsf/condition.h"
#include "xcsf/prediction.h"
#include "xcsf/action.h"
#include "xcsf/utils.h"
#include "xcsf/loss.h"
#include "xcsf/xcs_supervised.h"
#include "xcsf/xcs_rl.h"
#include "xcsf/cond_rectangle.h"
#include "xcsf/cond_ternary.h"
#include "xcsf/act_integer.h"
#include "xcsf/neural_layer_dropout.h"
#include "xcsf/neural_activations.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
static struct XCSF *mk(int x, int y, int a) { struct XCSF *s = calloc(1, sizeof(struct XCSF)); rand_init_seed(7); param_init(s, x, y, a); param_set_perf_trials(s, 1000000); return s; }
#define REQUIRE(c, ...) do { if (!(c)) { printf(__VA_ARGS__); printf("\\n"); return 1; } } while (0)
'''
SEEDS = [
dict(id="c01-second-parent", property="C01", needs="offspring subsumption where the first parent does not absorb the offspring but the second one does",
 breaks="the reported total numerosity drifts below the sum over the rules, so the population grows past its limit",
 edits=[("xcsf/ea.c", """        ++(c2p->num);
        ++(xcsf->pset.num);
        cl_free(xcsf, c);""", """        ++(c2p->num);
        cl_free(xcsf, c);""")],
 demo=PRE + '''
int main() {
    struct XCSF *s = mk(1, 1, 1);
    param_set_pop_size(s, 60); ea_param_set_subsumption(s, true); ea_param_set_theta(s, 0); param_set_theta_sub(s, 5); param_set_e0(s, 0.2);
    pred_param_set_type(s, PRED_TYPE_NLMS_LINEAR);
    xcsf_init(s);
    for (int i = 0; i < 3000; ++i) {
        double x = rand_uniform(0, 1), y = x * x;
        struct Input d = { .x = &x, .y = &y, .x_dim = 1, .y_dim = 1, .n_samples = 1 };
        xcs_supervised_fit(s, &d, NULL, false, 0, 1);
        int n = 0, k = 0;
        for (struct Clist *c = s->pset.list; c; c = c->next) { n += c->cl->num; ++k; }
        REQUIRE(n == s->pset.num && k == s->pset.size && n <= 60, "trial %d: numerosity %d reported %d", i, n, s->pset.num);
    }
    return 0;
}
'''),
dict(id="c03-inverted-bounds", property="C03", needs="unordered-bound hyperrectangles, the more specific rule having its bounds stored in inverted order in some dimension",
 breaks="a rule is judged more general than a rule whose region it does not contain",
 edits=[("xcsf/cond_rectangle.c", """            const double l2 = fmin(cond2->b1[i], cond2->b2[i]);
            const double u1 = fmax(cond1->b1[i], cond1->b2[i]);
            const double u2 = fmax(cond2->b1[i], cond2->b2[i]);""", """            const double l2 = cond2->b1[i];
            const double u1 = fmax(cond1->b1[i], cond1->b2[i]);
            const double u2 = cond2->b2[i];""")],
 demo=PRE + '''
int main() {
    struct XCSF *s = mk(1, 1, 1);
    cond_param_set_type(s, COND_TYPE_HYPERRECTANGLE_UBR);
    xcsf_init(s);
    struct Cl *c[2];
    for (int i = 0; i < 2; ++i) { c[i] = malloc(sizeof(struct Cl)); cl_init(s, c[i], 1, 0); cl_rand(s, c[i]); }
    struct CondRectangle *a = c[0]->cond, *b = c[1]->cond;
    a->b1[0] = 0.4; a->b2[0] = 0.6; b->b1[0] = 0.9; b->b2[0] = 0.1;
    REQUIRE(!cl_general(s, c[0], c[1]), "[0.4,0.6] judged more general than [0.1,0.9]");
    REQUIRE(cl_general(s, c[1], c[0]), "[0.1,0.9] not judged more general than [0.4,0.6]");
    return 0;
}
'''),
dict(id="c04-tie-order", property="C04", needs="exploitation with a tie after a strictly better action displaced an earlier one",
 breaks="an action that is not of maximal payoff can be chosen when exploiting",
 edits=[("xcsf/pa.c", """            max_i[0] = i;
            n_max = 1;""", """            max_i[n_max - 1] = i;""")],
 demo=PRE + '''
int main() {
    struct XCSF *s = mk(1, 1, 3);
    xcsf_init(s);
    for (int i = 0; i < 200; ++i) {
        s->pa[0] = 1; s->pa[1] = 1; s->pa[2] = 2;
        int a = pa_best_action(s);
        REQUIRE(a == 2, "best action %d", a);
    }
    return 0;
}
'''),
dict(id="c05-sampled-score-mode", property="C05", needs="a model with a dropout layer, scored by the sampling score right after a training trial",
 breaks="the sampling score runs in training mode: with a network it is not repeatable and it runs updates and evolution",
 edits=[("xcsf/xcs_supervised.c", """    param_set_explore(xcsf, false);
    double err = 0;
    for (int i = 0; i < N; ++i) {""", """    double err = 0;
    for (int i = 0; i < N; ++i) {""")],
 demo=PRE + '''
int main() {
    struct XCSF *s = mk(1, 1, 1);
    param_set_pop_size(s, 20); ea_param_set_theta(s, 0);
    xcsf_init(s);
    double x[4] = {0.1, 0.4, 0.6, 0.9}, y[4] = {1, 2, 3, 4}, cover = 0;
    struct Input d = { .x = x, .y = y, .x_dim = 1, .y_dim = 1, .n_samples = 4 };
    xcs_supervised_fit(s, &d, NULL, false, 0, 50);
    int t = s->time; long e = 0, e2 = 0;
    for (struct Clist *c = s->pset.list; c; c = c->next) e += c->cl->exp;
    xcs_supervised_score_n(s, &d, 3, &cover);
    for (struct Clist *c = s->pset.list; c; c = c->next) e2 += c->cl->exp;
    REQUIRE(t == s->time && e == e2, "scoring trained: time %d->%d experience %ld->%ld", t, s->time, e, e2);
    return 0;
}
'''),
dict(id="c02-cover-lost", property="C02", needs="a full population, two or more actions, and deletion removing exactly one just-needed matching rule during covering",
 breaks="an action can be left without a matching rule after covering",
 edits=[("xcsf/clset.c", "if (prev_msize > xcsf->mset.size) {", "if (prev_msize > xcsf->mset.size + 1) {")],
 demo=PRE + '''
int main() {
    struct XCSF *s = mk(1, 1, 2);
    param_set_pop_size(s, 3); param_set_explore(s, true);
    xcsf_init(s);
    for (int i = 0; i < 3000; ++i) {
        double x = (i * 37 % 101) / 101.0;
        clset_init(&s->mset); clset_init(&s->kset);
        clset_match(s, &x, true);
        int n[2] = {0, 0};
        for (struct Clist *c = s->mset.list; c; c = c->next) ++n[c->cl->action];
        REQUIRE(n[0] && n[1], "input %g: %d and %d rules", x, n[0], n[1]);
        clset_kill(s, &s->kset); clset_free(&s->mset);
    }
    return 0;
}
'''),
]
