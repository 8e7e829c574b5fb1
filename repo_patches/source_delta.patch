From ab580e637799676e151b612558f9b2a061312443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:36 +0000
Subject: [PATCH 01/53] fix: let rule_dgp and rule_neural actions be imported
 from their own JSON export

---
 xcsf/action.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xcsf/action.h b/xcsf/action.h
index caacbf3..b5bf962 100644
--- a/xcsf/action.h
+++ b/xcsf/action.h
@@ -23,6 +23,7 @@
 
 #pragma once
 
+#include "condition.h"
 #include "xcsf.h"
 
 #define ACT_TYPE_INVALID (-1) //!< Error code for invalid actions
@@ -275,7 +276,13 @@ act_json_import(const struct XCSF *xcsf, struct Cl *c, const cJSON *json)
         exit(EXIT_FAILURE);
     }
     const char *type = item->valuestring;
-    if (action_type_as_int(type) != xcsf->act->type) {
+    if (xcsf->cond->type == RULE_TYPE_DGP ||
+        xcsf->cond->type == RULE_TYPE_NEURAL) { // condition and action
+        if (condition_type_as_int(type) != xcsf->cond->type) {
+            printf("action_json_import(): mismatched type\n");
+            exit(EXIT_FAILURE);
+        }
+    } else if (action_type_as_int(type) != xcsf->act->type) {
         printf("action_json_import(): mismatched type\n");
         printf("XCSF type = %s, but imported type = %s\n",
                action_type_as_string(xcsf->act->type), type);
-- 
2.43.0


From df5f265c4ebe8a58771dc0bfa73187d70bc4c88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:46 +0000
Subject: [PATCH 02/53] fix: covering a dgp or neural rule must both match the
 input and advocate the action

---
 xcsf/rule_dgp.c    | 2 +-
 xcsf/rule_neural.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcsf/rule_dgp.c b/xcsf/rule_dgp.c
index e7b77d1..a350d49 100644
--- a/xcsf/rule_dgp.c
+++ b/xcsf/rule_dgp.c
@@ -221,7 +221,7 @@ rule_dgp_act_cover(const struct XCSF *xcsf, const struct Cl *c, const double *x,
     struct RuleDGP *cond = c->cond;
     do {
         graph_rand(&cond->dgp);
-    } while (!rule_dgp_cond_match(xcsf, c, x) &&
+    } while (!rule_dgp_cond_match(xcsf, c, x) ||
              rule_dgp_act_compute(xcsf, c, x) != action);
 }
 
diff --git a/xcsf/rule_neural.c b/xcsf/rule_neural.c
index 9618332..633177a 100644
--- a/xcsf/rule_neural.c
+++ b/xcsf/rule_neural.c
@@ -230,7 +230,7 @@ rule_neural_act_cover(const struct XCSF *xcsf, const struct Cl *c,
     const struct RuleNeural *cond = c->cond;
     do {
         neural_rand(&cond->net);
-    } while (!rule_neural_cond_match(xcsf, c, x) &&
+    } while (!rule_neural_cond_match(xcsf, c, x) ||
              rule_neural_act_compute(xcsf, c, x) != action);
 }
 
-- 
2.43.0


From fc96a6f894a3ff52b2ed796d2d6972494bcd54dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:09 +0000
Subject: [PATCH 03/53] fix: keep the match set's numerosity exact when
 covering only lowers a rule's numerosity

---
 xcsf/clset.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcsf/clset.c b/xcsf/clset.c
index fb03cf0..64041ac 100644
--- a/xcsf/clset.c
+++ b/xcsf/clset.c
@@ -174,11 +174,11 @@ clset_cover(struct XCSF *xcsf, const double *x)
             }
         }
         // enforce population size
-        const int prev_psize = xcsf->pset.size;
+        const int prev_pnum = xcsf->pset.num;
         clset_pset_enforce_limit(xcsf);
         // if a macro classifier was deleted,
         // remove any deleted rules from the match set
-        if (prev_psize > xcsf->pset.size) {
+        if (prev_pnum > xcsf->pset.num) {
             const int prev_msize = xcsf->mset.size;
             clset_validate(&xcsf->mset);
             // if the deleted classifier was in the match set,
-- 
2.43.0


From 9459e57cad10d77d591d6e72ea9c60595a5f132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:02 +0000
Subject: [PATCH 04/53] fix: exploring must not loop forever when every
 matching rule has zero fitness

---
 xcsf/pa.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/xcsf/pa.c b/xcsf/pa.c
index a465746..58ac8fb 100644
--- a/xcsf/pa.c
+++ b/xcsf/pa.c
@@ -141,6 +141,25 @@ pa_best_action(const struct XCSF *xcsf)
     return best;
 }
 
+/**
+ * @brief Returns whether a rule in the match set advocates a given action.
+ * @param [in] xcsf The XCSF data structure.
+ * @param [in] action The action to look for.
+ * @return Whether the action is represented in the match set.
+ */
+static bool
+pa_represented(const struct XCSF *xcsf, const int action)
+{
+    const struct Clist *iter = xcsf->mset.list;
+    while (iter != NULL) {
+        if (iter->cl->action == action) {
+            return true;
+        }
+        iter = iter->next;
+    }
+    return false;
+}
+
 /**
  * @brief Returns a random action from the prediction array.
  * @param [in] xcsf The XCSF data structure.
@@ -152,7 +171,7 @@ pa_rand_action(const struct XCSF *xcsf)
     int action = 0;
     do {
         action = rand_uniform_int(0, xcsf->n_actions);
-    } while (xcsf->nr[action] == 0);
+    } while (!pa_represented(xcsf, action));
     return action;
 }
 
-- 
2.43.0


From 849f7bc1d857e1ae6876fb15d6e53af765f74d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:48 +0000
Subject: [PATCH 05/53] fix: a single-step reinforcement fit is a training step
 whatever was called before

---
 xcsf/xcs_rl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/xcs_rl.c b/xcsf/xcs_rl.c
index 2b4e18d..33dfe7a 100644
--- a/xcsf/xcs_rl.c
+++ b/xcsf/xcs_rl.c
@@ -104,13 +104,13 @@ double
 xcs_rl_fit(struct XCSF *xcsf, const double *state, const int action,
            const double reward)
 {
+    param_set_explore(xcsf, true);
     xcs_rl_init_trial(xcsf);
     xcs_rl_init_step(xcsf);
     clset_match(xcsf, state, true);
     pa_build(xcsf, state);
     const double prediction = pa_val(xcsf, action);
     const double error = (xcsf->loss_ptr)(xcsf, &prediction, &reward);
-    param_set_explore(xcsf, true); // ensure EA is executed
     xcs_rl_update(xcsf, state, action, reward, true);
     xcs_rl_end_step(xcsf, state, action, reward);
     xcs_rl_end_trial(xcsf);
-- 
2.43.0


From 63a21df07023fc1588c589d0d253de03d3fd04ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:20 +0000
Subject: [PATCH 06/53] fix: a loaded recurrent layer must have its outputs,
 deltas, counts and memory restored

---
 xcsf/neural_layer_recurrent.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index abcf415..e983036 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -507,6 +507,7 @@ neural_layer_recurrent_save(const struct Layer *l, FILE *fp)
     s += layer_save(l->input_layer, fp);
     s += layer_save(l->self_layer, fp);
     s += layer_save(l->output_layer, fp);
+    s += fwrite(l->output_layer->output, sizeof(double), l->n_outputs, fp);
     return s;
 }
 
@@ -538,5 +539,10 @@ neural_layer_recurrent_load(struct Layer *l, FILE *fp)
     s += layer_load(l->input_layer, fp);
     s += layer_load(l->self_layer, fp);
     s += layer_load(l->output_layer, fp);
+    s += fread(l->output_layer->output, sizeof(double), l->n_outputs, fp);
+    l->output = l->output_layer->output;
+    l->delta = l->output_layer->delta;
+    set_layer_n_biases(l);
+    set_layer_n_weights(l);
     return s;
 }
-- 
2.43.0


From 26149a1ed20b8828d38b8250a029cf51490079a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:20 +0000
Subject: [PATCH 07/53] fix: save and load the activation functions of LSTM
 layers

---
 xcsf/neural_layer_lstm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcsf/neural_layer_lstm.c b/xcsf/neural_layer_lstm.c
index 86f32c1..ef35e33 100644
--- a/xcsf/neural_layer_lstm.c
+++ b/xcsf/neural_layer_lstm.c
@@ -674,6 +674,8 @@ neural_layer_lstm_save(const struct Layer *l, FILE *fp)
     s += fwrite(&l->decay, sizeof(double), 1, fp);
     s += fwrite(&l->max_neuron_grow, sizeof(int), 1, fp);
     s += fwrite(&l->options, sizeof(uint32_t), 1, fp);
+    s += fwrite(&l->function, sizeof(int), 1, fp);
+    s += fwrite(&l->recurrent_function, sizeof(int), 1, fp);
     s += fwrite(l->mu, sizeof(double), N_MU, fp);
     s += fwrite(l->state, sizeof(double), l->n_outputs, fp);
     s += fwrite(l->prev_state, sizeof(double), l->n_outputs, fp);
@@ -721,6 +723,8 @@ neural_layer_lstm_load(struct Layer *l, FILE *fp)
     s += fread(&l->decay, sizeof(double), 1, fp);
     s += fread(&l->max_neuron_grow, sizeof(int), 1, fp);
     s += fread(&l->options, sizeof(uint32_t), 1, fp);
+    s += fread(&l->function, sizeof(int), 1, fp);
+    s += fread(&l->recurrent_function, sizeof(int), 1, fp);
     l->out_w = l->n_outputs;
     l->out_c = 1;
     l->out_h = 1;
-- 
2.43.0


From 2f315dc12695cb31ea7e9c3bff2e28a5ec11f38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:20 +0000
Subject: [PATCH 08/53] fix: recurrent layers must keep an evolved learning
 rate within its limits

---
 xcsf/neural_layer_recurrent.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index e983036..d6ca728 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -265,6 +265,8 @@ neural_layer_recurrent_init(struct Layer *l, const struct ArgsLayer *args)
     l->output = l->output_layer->output;
     l->delta = l->output_layer->delta;
     l->eta = l->input_layer->eta;
+    l->eta_max = l->input_layer->eta_max;
+    l->eta_min = l->input_layer->eta_min;
     l->self_layer->eta = l->eta;
     l->output_layer->eta = l->eta;
     set_layer_n_biases(l);
@@ -300,6 +302,8 @@ neural_layer_recurrent_copy(const struct Layer *src)
     l->out_h = src->out_h;
     l->n_active = src->n_active;
     l->eta = src->eta;
+    l->eta_max = src->eta_max;
+    l->eta_min = src->eta_min;
     l->input_layer = layer_copy(src->input_layer);
     l->self_layer = layer_copy(src->self_layer);
     l->output_layer = layer_copy(src->output_layer);
@@ -542,6 +546,8 @@ neural_layer_recurrent_load(struct Layer *l, FILE *fp)
     s += fread(l->output_layer->output, sizeof(double), l->n_outputs, fp);
     l->output = l->output_layer->output;
     l->delta = l->output_layer->delta;
+    l->eta_max = l->input_layer->eta_max;
+    l->eta_min = l->input_layer->eta_min;
     set_layer_n_biases(l);
     set_layer_n_weights(l);
     return s;
-- 
2.43.0


From 3b33ce1ebd799cef456ee5eef79ecab3d2f3dd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:30 +0000
Subject: [PATCH 09/53] fix: recurrent layers must report exact weight and bias
 counts after copying or resizing

---
 xcsf/neural_layer_recurrent.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index d6ca728..d9f01b5 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -301,6 +301,8 @@ neural_layer_recurrent_copy(const struct Layer *src)
     l->out_c = src->out_c;
     l->out_h = src->out_h;
     l->n_active = src->n_active;
+    l->n_weights = src->n_weights;
+    l->n_biases = src->n_biases;
     l->eta = src->eta;
     l->eta_max = src->eta_max;
     l->eta_min = src->eta_min;
@@ -405,6 +407,8 @@ neural_layer_recurrent_resize(struct Layer *l, const struct Layer *prev)
 {
     layer_resize(l->input_layer, prev);
     l->n_inputs = l->input_layer->n_inputs;
+    set_layer_n_weights(l);
+    set_layer_n_biases(l);
     l->n_active = l->input_layer->n_active + l->self_layer->n_active +
         l->output_layer->n_active;
 }
-- 
2.43.0


From 2109cc4b0347a974e3351e00c33075c68178cd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:47 +0000
Subject: [PATCH 10/53] fix: neurons grown in a recurrent layer must start with
 an empty memory

---
 xcsf/neural_layer_recurrent.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index d9f01b5..2e8824c 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -59,13 +59,18 @@ malloc_layer_arrays(struct Layer *l)
 /**
  * @brief Resize memory used by a recurrent layer.
  * @param [in] l The layer to be allocated memory.
+ * @param [in] old_n_outputs The number of neurons before the resize.
  */
 static void
-realloc_layer_arrays(struct Layer *l)
+realloc_layer_arrays(struct Layer *l, const int old_n_outputs)
 {
     layer_guard_outputs(l);
     l->state = realloc(l->state, l->n_outputs * sizeof(double));
     l->prev_state = realloc(l->prev_state, l->n_outputs * sizeof(double));
+    for (int i = old_n_outputs; i < l->n_outputs; ++i) {
+        l->state[i] = 0;
+        l->prev_state[i] = 0;
+    }
 }
 
 /**
@@ -158,13 +163,14 @@ mutate_neurons(struct Layer *l)
             layer_add_neurons(l->output_layer, n);
             layer_resize(l->self_layer, l->input_layer);
             layer_resize(l->output_layer, l->input_layer);
+            const int old_n_outputs = l->n_outputs;
             l->n_outputs = l->output_layer->n_outputs;
             l->out_w = l->n_outputs;
             l->out_h = 1;
             l->out_c = 1;
             l->output = l->output_layer->output;
             l->delta = l->output_layer->delta;
-            realloc_layer_arrays(l);
+            realloc_layer_arrays(l, old_n_outputs);
             set_layer_n_weights(l);
             set_layer_n_biases(l);
             set_layer_n_active(l);
-- 
2.43.0


From 9fc69a76c3b3422cafcdbca0175916e5776b90ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:59 +0000
Subject: [PATCH 11/53] fix: size the tree constants to the loaded count when
 loading parameters

---
 xcsf/gp.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xcsf/gp.c b/xcsf/gp.c
index e558a49..441f452 100644
--- a/xcsf/gp.c
+++ b/xcsf/gp.c
@@ -527,6 +527,12 @@ tree_args_load(struct ArgsGPTree *args, FILE *fp)
     s += fread(&args->n_constants, sizeof(int), 1, fp);
     s += fread(&args->init_depth, sizeof(int), 1, fp);
     s += fread(&args->max_len, sizeof(int), 1, fp);
+    if (args->n_constants < 1) {
+        printf("tree_args_load(): read error\n");
+        exit(EXIT_FAILURE);
+    }
+    free(args->constants);
+    args->constants = malloc(sizeof(double) * args->n_constants);
     s += fread(args->constants, sizeof(double), args->n_constants, fp);
     return s;
 }
-- 
2.43.0


From 99297a8e1bdfe355653c0a4b183b40c0a8b34c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:59 +0000
Subject: [PATCH 12/53] fix: loading a system of other dimensions must resize
 the prediction array

---
 xcsf/xcsf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index 7873924..48d5f76 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -136,7 +136,9 @@ xcsf_load(struct XCSF *xcsf, const char *filename)
         fclose(fp);
         exit(EXIT_FAILURE);
     }
+    pa_free(xcsf);
     s += param_load(xcsf, fp);
+    pa_init(xcsf); // the loaded dimensions may differ
     s += clset_pset_load(xcsf, fp);
     fclose(fp);
     return s;
-- 
2.43.0


From 639712d37b57589f5d23b907146fc5d1e2061ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:38 +0000
Subject: [PATCH 13/53] fix: copy the cover values instead of keeping a pointer
 into a temporary array

---
 xcsf/pybind_wrapper.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index d90636a..0918681 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -569,7 +569,11 @@ class XCS
             memset(xcs.cover, 0, sizeof(double) * xcs.pa_size);
         } else {
             py::array_t<double> cover_arr = cover.cast<py::array_t<double>>();
-            xcs.cover = get_cover(cover_arr);
+            const double *values = get_cover(cover_arr);
+            for (int i = 0; i < xcs.n_actions; ++i) {
+                memcpy(&xcs.cover[i * xcs.y_dim], values,
+                       sizeof(double) * xcs.y_dim);
+            }
         }
     }
 
-- 
2.43.0


From 385e7f8b32f57462b73b5ae180061bf40724e77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:45 +0000
Subject: [PATCH 14/53] fix: reject an imported graph connection one past the
 last node

---
 xcsf/dgp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/dgp.c b/xcsf/dgp.c
index 27190e6..9065322 100644
--- a/xcsf/dgp.c
+++ b/xcsf/dgp.c
@@ -458,7 +458,7 @@ graph_json_import_connectivity(struct Graph *dgp, const cJSON *json)
         const int max_c = dgp->n + dgp->n_inputs;
         for (int i = 0; i < dgp->klen; ++i) {
             const cJSON *item_i = cJSON_GetArrayItem(item, i);
-            if (item_i->valueint < 0 || item_i->valueint > max_c) {
+            if (item_i->valueint < 0 || item_i->valueint >= max_c) {
                 printf("Import error: connectivity value out of bounds\n");
                 exit(EXIT_FAILURE);
             }
-- 
2.43.0


From 3520f349afb5403532194df07f1123b87f209b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:45 +0000
Subject: [PATCH 15/53] fix: reject an imported graph whose number of nodes
 differs from the configured one

Copies of a rule are sized by the configured number of nodes, so a graph of
another size overflowed them.
---
 xcsf/dgp.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xcsf/dgp.c b/xcsf/dgp.c
index 9065322..649a6a7 100644
--- a/xcsf/dgp.c
+++ b/xcsf/dgp.c
@@ -480,11 +480,10 @@ graph_json_import(struct Graph *dgp, const struct ArgsDGP *args,
     dgp->n = args->n;
     const cJSON *n = cJSON_GetObjectItem(json, "n");
     if (n != NULL) {
-        if (!cJSON_IsNumber(n) || n->valueint < 1) {
+        if (!cJSON_IsNumber(n) || n->valueint != args->n) {
             printf("Import error: invalid n\n");
             exit(EXIT_FAILURE);
         }
-        dgp->n = n->valueint;
     }
     dgp->n_inputs = args->n_inputs;
     dgp->max_t = args->max_t;
-- 
2.43.0


From 94d244acd9f0f43ad42cf5d2caa7903c862be54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:45 +0000
Subject: [PATCH 16/53] fix: initialise the cycles and mutation rates of an
 imported graph that omits them

---
 xcsf/dgp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xcsf/dgp.c b/xcsf/dgp.c
index 649a6a7..5e22f97 100644
--- a/xcsf/dgp.c
+++ b/xcsf/dgp.c
@@ -497,6 +497,8 @@ graph_json_import(struct Graph *dgp, const struct ArgsDGP *args,
     dgp->function = malloc(sizeof(int) * dgp->n);
     dgp->connectivity = malloc(sizeof(int) * dgp->klen);
     dgp->mu = malloc(sizeof(double) * N_MU);
+    dgp->t = args->max_t;
+    sam_init(dgp->mu, N_MU, MU_TYPE);
     graph_rand(dgp);
     const cJSON *t = cJSON_GetObjectItem(json, "t");
     if (t != NULL) {
-- 
2.43.0


From 389060441e46d6936a5db70f10769efb2617720f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:57 +0000
Subject: [PATCH 17/53] fix: inserting an empty list of classifiers must not
 crash

---
 xcsf/clset.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcsf/clset.c b/xcsf/clset.c
index 64041ac..43cebc2 100644
--- a/xcsf/clset.c
+++ b/xcsf/clset.c
@@ -797,7 +797,8 @@ clset_json_insert(struct XCSF *xcsf, const char *json_str)
 {
     cJSON *json = cJSON_Parse(json_str);
     utils_json_parse_check(json);
-    if (json->child != NULL && cJSON_IsArray(json->child)) {
+    if (json->child != NULL && cJSON_IsArray(json->child) &&
+        json->child->child != NULL) {
         cJSON *tail = json->child->child; // insert inverted for consistency
         tail->prev = NULL; // this should have been set by cJSON!
         while (tail->next != NULL) {
-- 
2.43.0


From 23f5a6ab906f251a3174af3281cd5f3791d3ac33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:57 +0000
Subject: [PATCH 18/53] fix: reject imported ternary strings that are too long
 or have illegal symbols

---
 xcsf/cond_ternary.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xcsf/cond_ternary.c b/xcsf/cond_ternary.c
index d565d0b..1d67895 100644
--- a/xcsf/cond_ternary.c
+++ b/xcsf/cond_ternary.c
@@ -372,8 +372,16 @@ cond_ternary_json_import(const struct XCSF *xcsf, struct Cl *c,
                 printf("Import error: string terminated early\n");
                 exit(EXIT_FAILURE);
             }
+            if (bit != '0' && bit != '1' && bit != DONT_CARE) {
+                printf("Import error: invalid ternary symbol\n");
+                exit(EXIT_FAILURE);
+            }
             cond->string[i] = bit;
         }
+        if (item->valuestring[cond->length] != '\0') {
+            printf("Import error: string length mismatch\n");
+            exit(EXIT_FAILURE);
+        }
     }
     sam_json_import(cond->mu, N_MU, json);
 }
-- 
2.43.0


From af8e134c09df0b912c77dfe92d12b9033714daf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:57 +0000
Subject: [PATCH 19/53] fix: reject an imported integer action that does not
 exist

---
 xcsf/act_integer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xcsf/act_integer.c b/xcsf/act_integer.c
index 0924f58..022de88 100644
--- a/xcsf/act_integer.c
+++ b/xcsf/act_integer.c
@@ -270,10 +270,13 @@ void
 act_integer_json_import(const struct XCSF *xcsf, struct Cl *c,
                         const cJSON *json)
 {
-    (void) xcsf;
     struct ActInteger *act = c->act;
     const cJSON *item = cJSON_GetObjectItem(json, "action");
     if (item != NULL && cJSON_IsNumber(item)) {
+        if (item->valueint < 0 || item->valueint >= xcsf->n_actions) {
+            printf("Import error: action out of bounds\n");
+            exit(EXIT_FAILURE);
+        }
         act->action = item->valueint;
     }
     sam_json_import(act->mu, N_MU, json);
-- 
2.43.0


From 1f387f7891af7879b815aeb47e4c2405460ed1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:57 +0000
Subject: [PATCH 20/53] fix: reject an imported rule with a numerosity below
 one

---
 xcsf/cl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcsf/cl.c b/xcsf/cl.c
index 7fa9e44..e00681b 100644
--- a/xcsf/cl.c
+++ b/xcsf/cl.c
@@ -547,6 +547,10 @@ cl_json_import_properties(struct Cl *c, const cJSON *json)
     }
     item = cJSON_GetObjectItem(json, "numerosity");
     if (item != NULL && cJSON_IsNumber(item)) {
+        if (item->valueint < 1) {
+            printf("Import error: numerosity must be at least one\n");
+            exit(EXIT_FAILURE);
+        }
         c->num = item->valueint;
     }
     item = cJSON_GetObjectItem(json, "experience");
-- 
2.43.0


From 5629acc2d2d5cddf72aba63bff9061b6f3659b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:48 +0000
Subject: [PATCH 21/53] fix: exporting neural parameters no longer advances the
 random generator

A temporary network with random weights is created to work out the layer
inputs; printing or exporting the parameters changed subsequent learning.
---
 xcsf/neural_layer_args.c |  3 +++
 xcsf/utils.c             | 37 +++++++++++++++++++++++++++++++------
 xcsf/utils.h             | 15 +++++++++++++++
 3 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/xcsf/neural_layer_args.c b/xcsf/neural_layer_args.c
index 7af0d20..60b6638 100644
--- a/xcsf/neural_layer_args.c
+++ b/xcsf/neural_layer_args.c
@@ -376,10 +376,13 @@ layer_args_json_import_scale(struct ArgsLayer *args, const cJSON *json)
 char *
 layer_args_json_export(struct ArgsLayer *args)
 {
+    struct RandState state; // exporting must not change the random sequence
+    rand_save(&state);
     struct Net net; // create a temporary network to parse inputs
     neural_init(&net);
     neural_create(&net, args);
     neural_free(&net);
+    rand_restore(&state);
     cJSON *json = cJSON_CreateObject();
     int cnt = 0;
     for (const struct ArgsLayer *a = args; a != NULL; a = a->next) {
diff --git a/xcsf/utils.c b/xcsf/utils.c
index 0293403..1eac43c 100644
--- a/xcsf/utils.c
+++ b/xcsf/utils.c
@@ -27,6 +27,9 @@
 #include <stdbool.h>
 #include <time.h>
 
+static double normal_cache; //!< Second value of the last Box-Muller transform
+static bool normal_cached; //!< Whether the cached value has yet to be used
+
 /**
  * @brief Initialises the pseudo-random number generator.
  */
@@ -76,6 +79,30 @@ rand_uniform_int(const int min, const int max)
     return (int) floor(rand_uniform(min, max));
 }
 
+/**
+ * @brief Stores the state of the pseudo-random number generator.
+ * @param [out] state The current state of the generator.
+ */
+void
+rand_save(struct RandState *state)
+{
+    state->dsfmt = dsfmt_global_data;
+    state->normal_cache = normal_cache;
+    state->normal_cached = normal_cached;
+}
+
+/**
+ * @brief Restores a stored state of the pseudo-random number generator.
+ * @param [in] state The state to restore.
+ */
+void
+rand_restore(const struct RandState *state)
+{
+    dsfmt_global_data = state->dsfmt;
+    normal_cache = state->normal_cache;
+    normal_cached = state->normal_cached;
+}
+
 /**
  * @brief Returns a random Gaussian with specified mean and standard deviation.
  * @details Box-Muller transform.
@@ -87,16 +114,14 @@ double
 rand_normal(const double mu, const double sigma)
 {
     static const double two_pi = 2 * M_PI;
-    static double z1;
-    static bool generate;
-    generate = !generate;
-    if (!generate) {
-        return z1 * sigma + mu;
+    normal_cached = !normal_cached;
+    if (!normal_cached) {
+        return normal_cache * sigma + mu;
     }
     const double u1 = dsfmt_gv_genrand_open_open();
     const double u2 = dsfmt_gv_genrand_open_open();
     const double z0 = sqrt(-2 * log(u1)) * cos(two_pi * u2);
-    z1 = sqrt(-2 * log(u1)) * sin(two_pi * u2);
+    normal_cache = sqrt(-2 * log(u1)) * sin(two_pi * u2);
     return z0 * sigma + mu;
 }
 
diff --git a/xcsf/utils.h b/xcsf/utils.h
index 2df6236..2c037b9 100644
--- a/xcsf/utils.h
+++ b/xcsf/utils.h
@@ -31,6 +31,15 @@
 #include <stdio.h>
 #include <stdlib.h>
 
+/**
+ * @brief State of the pseudo-random number generator.
+ */
+struct RandState {
+    dsfmt_t dsfmt; //!< Uniform generator
+    double normal_cache; //!< Second value of the last Box-Muller transform
+    bool normal_cached; //!< Whether the cached value has yet to be used
+};
+
 double
 rand_normal(const double mu, const double sigma);
 
@@ -46,6 +55,12 @@ rand_init(void);
 void
 rand_init_seed(const uint32_t seed);
 
+void
+rand_save(struct RandState *state);
+
+void
+rand_restore(const struct RandState *state);
+
 void
 utils_json_parse_check(const cJSON *json);
 
-- 
2.43.0


From 11d2672b645002731925e06bda3fc86bb101e47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:01 +0000
Subject: [PATCH 22/53] fix: do not initialise the system error from an
 uninitialised E0

---
 xcsf/param.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcsf/param.c b/xcsf/param.c
index 5c536b9..eb2cf17 100644
--- a/xcsf/param.c
+++ b/xcsf/param.c
@@ -46,10 +46,10 @@ param_init(struct XCSF *xcsf, const int x_dim, const int y_dim,
            const int n_actions)
 {
     xcsf->time = 0;
-    xcsf->error = xcsf->E0;
     xcsf->mset_size = 0;
     xcsf->aset_size = 0;
     xcsf->mfrac = 0;
+    xcsf->explore = false;
     xcsf->ea = malloc(sizeof(struct ArgsEA));
     xcsf->act = malloc(sizeof(struct ArgsAct));
     xcsf->cond = malloc(sizeof(struct ArgsCond));
@@ -68,6 +68,7 @@ param_init(struct XCSF *xcsf, const int x_dim, const int y_dim,
     param_set_loss_func(xcsf, LOSS_MAE);
     param_set_huber_delta(xcsf, 1);
     param_set_e0(xcsf, 0.01);
+    xcsf->error = xcsf->E0;
     param_set_alpha(xcsf, 0.1);
     param_set_nu(xcsf, 5);
     param_set_beta(xcsf, 0.1);
-- 
2.43.0


From c812184ceade76255084d6adf78840e451c940b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:01 +0000
Subject: [PATCH 23/53] fix: terminate population file names that are too long

---
 xcsf/param.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xcsf/param.c b/xcsf/param.c
index eb2cf17..344c019 100644
--- a/xcsf/param.c
+++ b/xcsf/param.c
@@ -640,9 +640,10 @@ const char *
 param_set_population_file(struct XCSF *xcsf, const char *a)
 {
     free(xcsf->population_file);
-    size_t length = strnlen(a, sizeof(char) * MAX_LEN) + 1;
+    size_t length = strnlen(a, MAX_LEN - 1) + 1;
     xcsf->population_file = malloc(sizeof(char) * length);
-    strncpy(xcsf->population_file, a, length);
+    strncpy(xcsf->population_file, a, length - 1);
+    xcsf->population_file[length - 1] = '\0';
     return NULL;
 }
 
-- 
2.43.0


From f9ed1fc7e16bdda44b80657c84afe1d7f18db12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:22 +0000
Subject: [PATCH 24/53] fix: importing x_dim updates the inputs of trees and
 graphs

The number of inputs of GP trees and DGP graphs is not a parameter of its own;
importing x_dim left it as it was, so the extra inputs were never used.
---
 xcsf/param.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xcsf/param.c b/xcsf/param.c
index 344c019..7623344 100644
--- a/xcsf/param.c
+++ b/xcsf/param.c
@@ -198,6 +198,8 @@ param_json_import_general(struct XCSF *xcsf, const cJSON *json)
     } else if (strncmp(json->string, "x_dim\0", 6) == 0 &&
                cJSON_IsNumber(json)) {
         catch_error(param_set_x_dim(xcsf, json->valueint));
+        graph_param_set_n_inputs(xcsf->cond->dargs, xcsf->x_dim);
+        tree_param_set_n_inputs(xcsf->cond->targs, xcsf->x_dim);
     } else if (strncmp(json->string, "y_dim\0", 6) == 0 &&
                cJSON_IsNumber(json)) {
         catch_error(param_set_y_dim(xcsf, json->valueint));
-- 
2.43.0


From 13e89cb03f8ac1e80054d27d4c1a372fa8279fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:37 +0000
Subject: [PATCH 25/53] fix: size the default Python parameters for the given
 dimensions

XCS(x_dim=.., y_dim=.., n_actions=..) initialised the defaults for one input,
one output and one action; the default networks, trees and graphs kept these.
---
 xcsf/pybind_wrapper.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 0918681..c98dc80 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -26,6 +26,7 @@
     #define _hypot hypot
 #endif
 
+#include <algorithm>
 #include <chrono>
 #include <cstdio>
 #include <fstream>
@@ -96,16 +97,35 @@ class XCS
      */
     explicit XCS(py::kwargs kwargs)
     {
-        reset();
+        reset(get_dim(kwargs, "x_dim"), get_dim(kwargs, "y_dim"),
+              get_dim(kwargs, "n_actions"));
         set_params(kwargs);
         xcsf_init(&xcs);
     }
 
+    /**
+     * @brief Returns a problem dimension specified in the keyword arguments.
+     * @param [in] kwargs Parameters and their values.
+     * @param [in] name The name of the dimension.
+     * @return The specified dimension; or 1 if there is no valid value.
+     */
+    static int
+    get_dim(const py::kwargs &kwargs, const char *name)
+    {
+        if (kwargs.contains(name) && py::isinstance<py::int_>(kwargs[name])) {
+            return std::max(1, kwargs[name].cast<int>());
+        }
+        return 1;
+    }
+
     /**
      * @brief Resets basic constructor variables.
+     * @param [in] x_dim The dimensionality of the input variables.
+     * @param [in] y_dim The dimensionality of the prediction variables.
+     * @param [in] n_actions The total number of possible actions.
      */
     void
-    reset(void)
+    reset(const int x_dim = 1, const int y_dim = 1, const int n_actions = 1)
     {
         state = NULL;
         action = 0;
@@ -124,7 +144,7 @@ class XCS
         test_data->y = NULL;
         val_data = NULL;
         metric_counter = 0;
-        param_init(&xcs, 1, 1, 1);
+        param_init(&xcs, x_dim, y_dim, n_actions);
         update_params();
     }
 
-- 
2.43.0


From 0d0584886d1c886308497ee03ac11197bbf43594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:37 +0000
Subject: [PATCH 26/53] fix: reject a tournament size of zero, with which no
 parent is ever selected

---
 xcsf/ea.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcsf/ea.c b/xcsf/ea.c
index dcf4c7a..cd4deca 100644
--- a/xcsf/ea.c
+++ b/xcsf/ea.c
@@ -407,8 +407,8 @@ ea_type_as_int(const char *type)
 const char *
 ea_param_set_select_size(struct XCSF *xcsf, const double a)
 {
-    if (a < 0 || a > 1) {
-        return "Invalid EA SELECT_SIZE. Range: [0,1]";
+    if (a <= 0 || a > 1) {
+        return "Invalid EA SELECT_SIZE. Range: (0,1]";
     }
     xcsf->ea->select_size = a;
     return NULL;
-- 
2.43.0


From 048ed7d1b782560b2c5c1db6fd308cad62726add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:31 +0000
Subject: [PATCH 27/53] fix: export the image shape of dropout and noise layers

An image received by a first dropout or noise layer came back as a vector, so
that the convolutional layers after it were different.
---
 xcsf/neural_layer_args.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xcsf/neural_layer_args.c b/xcsf/neural_layer_args.c
index 60b6638..3fafda4 100644
--- a/xcsf/neural_layer_args.c
+++ b/xcsf/neural_layer_args.c
@@ -135,6 +135,11 @@ layer_args_json_export_inputs(cJSON *json, const struct ArgsLayer *args)
         }
     } else {
         cJSON_AddNumberToObject(json, "n_inputs", args->n_inputs);
+        if (args->type == DROPOUT || args->type == NOISE) {
+            cJSON_AddNumberToObject(json, "height", args->height);
+            cJSON_AddNumberToObject(json, "width", args->width);
+            cJSON_AddNumberToObject(json, "channels", args->channels);
+        }
     }
 }
 
-- 
2.43.0


From e3f936808a2074480d05ab4bc1390c787dfae448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:41 +0000
Subject: [PATCH 28/53] fix: do not search forever for a tree when max_len has
 no room for a function

---
 xcsf/gp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/gp.c b/xcsf/gp.c
index 441f452..6ca7b7f 100644
--- a/xcsf/gp.c
+++ b/xcsf/gp.c
@@ -80,7 +80,7 @@ tree_grow(const struct ArgsGPTree *args, int *tree, const int pos,
     if (pos >= max) {
         return -1;
     }
-    if (depth == 0 || (pos != 0 && rand_uniform(0, 1) < 0.5)) {
+    if (depth == 0 || max < 3 || (pos != 0 && rand_uniform(0, 1) < 0.5)) {
         const int max_term = GP_NUM_FUNC + args->n_constants + args->n_inputs;
         tree[pos] = rand_uniform_int(GP_NUM_FUNC, max_term);
         return pos + 1;
-- 
2.43.0


From 1ea34e3b4b7042bfa00ba155fa516e54f0e767c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:23 +0000
Subject: [PATCH 29/53] fix: copy constant predictions when a classifier is
 copied

---
 xcsf/pred_constant.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/xcsf/pred_constant.c b/xcsf/pred_constant.c
index 8b1dde1..e0d5b65 100644
--- a/xcsf/pred_constant.c
+++ b/xcsf/pred_constant.c
@@ -37,7 +37,7 @@ pred_constant_init(const struct XCSF *xcsf, struct Cl *c)
 }
 
 /**
- * @brief Dummy function since constant predictions have no data structure.
+ * @brief Copies the constant predictions from one classifier to another.
  * @param [in] xcsf The XCSF data structure.
  * @param [in] dest The destination classifier.
  * @param [in] src The source classifier.
@@ -46,9 +46,7 @@ void
 pred_constant_copy(const struct XCSF *xcsf, struct Cl *dest,
                    const struct Cl *src)
 {
-    (void) xcsf;
-    (void) dest;
-    (void) src;
+    memcpy(dest->prediction, src->prediction, sizeof(double) * xcsf->y_dim);
 }
 
 /**
-- 
2.43.0


From 6fa85e886150981b18f5dbf0c3a9b86f22c3b791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:24 +0000
Subject: [PATCH 30/53] fix: draw the tree constants when the system is
 initialised, so that they follow the seed

---
 xcsf/xcsf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index 48d5f76..b573068 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -23,6 +23,7 @@
 
 #include "cl.h"
 #include "clset.h"
+#include "cond_gp.h"
 #include "cond_neural.h"
 #include "loss.h"
 #include "pa.h"
@@ -45,6 +46,9 @@ xcsf_init(struct XCSF *xcsf)
     clset_init(&xcsf->pset);
     clset_init(&xcsf->prev_pset);
     pa_init(xcsf);
+    if (xcsf->cond->type == COND_TYPE_GP) { // redraw: seeded after the defaults
+        tree_args_init_constants(xcsf->cond->targs);
+    }
     clset_pset_init(xcsf);
 }
 
-- 
2.43.0


From 6bb45ac5c50a0ecbae147217c5f050db9f219832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:59 +0000
Subject: [PATCH 31/53] fix: read maze files within their bounds, reject
 malformed mazes, keep an unterminated last row

---
 xcsf/env_maze.c | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/xcsf/env_maze.c b/xcsf/env_maze.c
index e848dbb..050f9d0 100644
--- a/xcsf/env_maze.c
+++ b/xcsf/env_maze.c
@@ -107,31 +107,47 @@ env_maze_init(struct XCSF *xcsf, const char *filename)
     }
     // read maze
     struct EnvMaze *env = malloc(sizeof(struct EnvMaze));
+    env->xsize = 0;
     int x = 0;
     int y = 0;
     int c = 0;
-    while ((c = fgetc(fp)) != EOF) {
-        if (c == '\n') {
+    bool free_cell = false;
+    while (c != EOF) {
+        c = fgetc(fp);
+        if (c == '\n' || c == EOF) {
+            if (x == 0) {
+                continue; // empty line
+            }
+            if (y > 0 && x != env->xsize) {
+                printf("Maze rows have different lengths: %s\n", filename);
+                fclose(fp);
+                exit(EXIT_FAILURE);
+            }
             ++y;
             env->xsize = x;
             x = 0;
         } else {
+            if (x >= MAX_SIZE || y >= MAX_SIZE) {
+                printf("Maze too big. Max size = [%d,%d]\n", MAX_SIZE,
+                       MAX_SIZE);
+                fclose(fp);
+                exit(EXIT_FAILURE);
+            }
             env->maze[y][x] = (char) c;
+            free_cell |= (c == '*');
             ++x;
         }
-        // check maximum maze size not exceeded
-        if (x > MAX_SIZE || y > MAX_SIZE) {
-            printf("Maze too big. Max size = [%d,%d]\n", MAX_SIZE, MAX_SIZE);
-            fclose(fp);
-            exit(EXIT_FAILURE);
-        }
     }
-    // check if EOF came from an end-of-file or an error
     if (ferror(fp)) {
         printf("EOF error opening %s. %s.\n", filename, strerror(errno));
         fclose(fp);
         exit(EXIT_FAILURE);
     }
+    if (!free_cell) {
+        printf("Maze has no free position: %s\n", filename);
+        fclose(fp);
+        exit(EXIT_FAILURE);
+    }
     env->ysize = y;
     env->state = malloc(sizeof(double) * 8);
     xcsf->env = env;
-- 
2.43.0


From dd8132f54dcb685d4e2dbd3ca85b19b53f7dfdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:59 +0000
Subject: [PATCH 32/53] fix: read csv lines of any length, skip empty lines,
 reject rows with a different number of columns

---
 xcsf/env_csv.c | 73 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 58 insertions(+), 15 deletions(-)

diff --git a/xcsf/env_csv.c b/xcsf/env_csv.c
index 166bf42..cff520f 100644
--- a/xcsf/env_csv.c
+++ b/xcsf/env_csv.c
@@ -25,10 +25,44 @@
 #include "param.h"
 
 #define MAX_ROWS (100000) //!< Maximum number of instances
-#define MAX_COLS (200) //!< Maximum line length
+#define MAX_COLS (200) //!< Line buffer increment
 #define MAX_NAME (200) //!< Maximum file name length
 #define DELIM (",") //!< File delimiter
 
+/**
+ * @brief Reads the next line that is not empty, whatever its length.
+ * @param [in] fin The csv file.
+ * @param [in,out] line The line buffer (reallocated as needed).
+ * @param [in,out] size The size of the line buffer.
+ * @return Whether a line was read.
+ */
+static bool
+env_csv_line(FILE *fin, char **line, size_t *size)
+{
+    size_t len = 0;
+    int c = 0;
+    while (c != EOF) {
+        c = fgetc(fin);
+        if (len + 1 >= *size) {
+            *size += MAX_COLS;
+            *line = realloc(*line, *size);
+        }
+        if (c != '\n' && c != EOF) {
+            (*line)[len] = (char) c;
+            ++len;
+            continue;
+        }
+        if (len > 0 && (*line)[len - 1] == '\r') {
+            --len;
+        }
+        if (len > 0) {
+            (*line)[len] = '\0';
+            return true;
+        }
+    }
+    return false;
+}
+
 /**
  * @brief Returns the number of samples in a csv file.
  * @param [in] fin The csv file.
@@ -38,10 +72,12 @@ static int
 env_csv_samples(FILE *fin)
 {
     int n_samples = 0;
-    char line[MAX_COLS];
-    while (fgets(line, MAX_COLS, fin) != NULL) {
+    char *line = NULL;
+    size_t size = 0;
+    while (env_csv_line(fin, &line, &size)) {
         ++n_samples;
     }
+    free(line);
     return n_samples;
 }
 
@@ -55,17 +91,17 @@ env_csv_dim(FILE *fin)
 {
     rewind(fin);
     int n_dim = 0;
-    char line[MAX_COLS];
+    char *line = NULL;
+    size_t size = 0;
     char *saveptr = NULL;
-    if (fgets(line, MAX_COLS, fin) != NULL) {
+    if (env_csv_line(fin, &line, &size)) {
         const char *ptok = strtok_r(line, DELIM, &saveptr);
         while (ptok != NULL) {
-            if (strnlen(ptok, MAX_COLS) > 0) {
-                ++n_dim;
-            }
+            ++n_dim;
             ptok = strtok_r(NULL, DELIM, &saveptr);
         }
     }
+    free(line);
     return n_dim;
 }
 
@@ -82,20 +118,27 @@ env_csv_read_data(FILE *fin, double **data, const int n_samples,
 {
     rewind(fin);
     *data = malloc(sizeof(double) * n_dim * n_samples);
-    char line[MAX_COLS];
-    const char *str = NULL;
+    char *line = NULL;
+    size_t size = 0;
     char *saveptr = NULL;
     char *endptr = NULL;
     int i = 0;
-    while (fgets(line, MAX_COLS, fin) != NULL && i < n_samples) {
-        str = strtok_r(line, DELIM, &saveptr);
-        (*data)[i * n_dim] = strtod(str, &endptr);
-        for (int j = 1; j < n_dim; ++j) {
-            str = strtok_r(NULL, DELIM, &saveptr);
+    while (i < n_samples && env_csv_line(fin, &line, &size)) {
+        int j = 0;
+        const char *str = strtok_r(line, DELIM, &saveptr);
+        while (str != NULL && j < n_dim) {
             (*data)[i * n_dim + j] = strtod(str, &endptr);
+            ++j;
+            str = strtok_r(NULL, DELIM, &saveptr);
+        }
+        if (j != n_dim || str != NULL) {
+            printf("Error reading csv: row %d does not have %d columns\n",
+                   i + 1, n_dim);
+            exit(EXIT_FAILURE);
         }
         ++i;
     }
+    free(line);
 }
 
 /**
-- 
2.43.0


From 35b5bd2efa90840231f2bba19a9dd69c9e4717c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:59 +0000
Subject: [PATCH 33/53] fix: reject csv data sets whose samples or dimensions
 do not agree

---
 xcsf/env_csv.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/xcsf/env_csv.c b/xcsf/env_csv.c
index cff520f..b119011 100644
--- a/xcsf/env_csv.c
+++ b/xcsf/env_csv.c
@@ -186,12 +186,20 @@ env_csv_input_read(const char *infile, struct Input *train_data,
     env_csv_read(name, &train_data->x, &train_data->n_samples,
                  &train_data->x_dim);
     snprintf(name, MAX_NAME, "%s_train_y.csv", infile);
-    env_csv_read(name, &train_data->y, &train_data->n_samples,
-                 &train_data->y_dim);
+    int n_train_y = 0;
+    env_csv_read(name, &train_data->y, &n_train_y, &train_data->y_dim);
     snprintf(name, MAX_NAME, "%s_test_x.csv", infile);
     env_csv_read(name, &test_data->x, &test_data->n_samples, &test_data->x_dim);
     snprintf(name, MAX_NAME, "%s_test_y.csv", infile);
-    env_csv_read(name, &test_data->y, &test_data->n_samples, &test_data->y_dim);
+    int n_test_y = 0;
+    env_csv_read(name, &test_data->y, &n_test_y, &test_data->y_dim);
+    if (train_data->n_samples != n_train_y ||
+        test_data->n_samples != n_test_y ||
+        train_data->x_dim != test_data->x_dim ||
+        train_data->y_dim != test_data->y_dim) {
+        printf("Error: csv data sets differ in samples or dimensions\n");
+        exit(EXIT_FAILURE);
+    }
 }
 
 /**
-- 
2.43.0


From 2936bdb3d697ad123f56d3d701f6167950eaf639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:14 +0000
Subject: [PATCH 34/53] fix: use the 1x1 convolution shortcut only without
 stride and padding

---
 xcsf/neural_layer_convolutional.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/xcsf/neural_layer_convolutional.c b/xcsf/neural_layer_convolutional.c
index 0161341..370fd67 100644
--- a/xcsf/neural_layer_convolutional.c
+++ b/xcsf/neural_layer_convolutional.c
@@ -252,6 +252,17 @@ neural_layer_convolutional_rand(struct Layer *l)
     layer_weight_rand(l);
 }
 
+/**
+ * @brief Returns whether the image is its own column representation.
+ * @param [in] l A convolutional layer.
+ * @return Whether each kernel position covers exactly one pixel in order.
+ */
+static bool
+is_pointwise(const struct Layer *l)
+{
+    return l->size == 1 && l->stride == 1 && l->pad == 0;
+}
+
 /**
  * @brief Forward propagates a convolutional layer.
  * @param [in] l Layer to forward propagate.
@@ -270,7 +281,7 @@ neural_layer_convolutional_forward(const struct Layer *l, const struct Net *net,
     double *b = l->temp;
     double *c = l->state;
     memset(l->state, 0, sizeof(double) * l->n_outputs);
-    if (l->size == 1) {
+    if (is_pointwise(l)) {
         blas_gemm(0, 0, m, n, k, 1, a, k, input, n, 1, c, n);
     } else {
         im2col(input, l->channels, l->height, l->width, l->size, l->stride,
@@ -309,7 +320,7 @@ neural_layer_convolutional_backward(const struct Layer *l,
         const double *a = l->delta;
         double *b = l->temp;
         double *c = l->weight_updates;
-        if (l->size == 1) {
+        if (is_pointwise(l)) {
             blas_gemm(0, 1, m, n, k, 1, a, k, input, k, 1, c, n);
         } else {
             im2col(input, l->channels, l->height, l->width, l->size, l->stride,
@@ -321,11 +332,11 @@ neural_layer_convolutional_backward(const struct Layer *l,
         const double *a = l->weights;
         const double *b = l->delta;
         double *c = l->temp;
-        if (l->size == 1) {
+        if (is_pointwise(l)) {
             c = delta;
         }
         blas_gemm(1, 0, n, k, m, 1, a, n, b, k, 0, c, k);
-        if (l->size != 1) {
+        if (!is_pointwise(l)) {
             col2im(l->temp, l->channels, l->height, l->width, l->size,
                    l->stride, l->pad, delta);
         }
-- 
2.43.0


From e805bc02f9034f4711b5326bcefd590e21b18bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:14 +0000
Subject: [PATCH 35/53] fix: back-propagate through the activation of
 convolutional layers that do not learn

---
 xcsf/neural_layer_convolutional.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/neural_layer_convolutional.c b/xcsf/neural_layer_convolutional.c
index 370fd67..b04046a 100644
--- a/xcsf/neural_layer_convolutional.c
+++ b/xcsf/neural_layer_convolutional.c
@@ -312,8 +312,8 @@ neural_layer_convolutional_backward(const struct Layer *l,
     const int m = l->n_filters;
     const int n = l->size * l->size * l->channels;
     const int k = l->out_w * l->out_h;
+    neural_gradient_array(l->state, l->delta, l->n_outputs, l->function);
     if (l->options & LAYER_SGD_WEIGHTS) {
-        neural_gradient_array(l->state, l->delta, l->n_outputs, l->function);
         for (int i = 0; i < l->n_biases; ++i) {
             l->bias_updates[i] += blas_sum(l->delta + k * i, k);
         }
-- 
2.43.0


From 22d7ce79524c1f118f7edc30fa7fe1f5fc0c9e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:50 +0000
Subject: [PATCH 36/53] fix: keep the output width in step when a layer gains
 or loses neurons

---
 xcsf/neural_layer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcsf/neural_layer.c b/xcsf/neural_layer.c
index d357300..5d22e2c 100644
--- a/xcsf/neural_layer.c
+++ b/xcsf/neural_layer.c
@@ -132,6 +132,7 @@ layer_add_neurons(struct Layer *l, const int N)
     const int old_n_outputs = l->n_outputs;
     const int old_n_weights = l->n_weights;
     l->n_outputs += N;
+    l->out_w = l->n_outputs;
     l->n_biases = l->n_outputs;
     l->n_weights = l->n_outputs * l->n_inputs;
     layer_guard_outputs(l);
-- 
2.43.0


From e9943afe7f43c235c4e9038188fc64e40d688f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:47 +0000
Subject: [PATCH 37/53] fix: keep every neuron and input connected when a layer
 gains or loses neurons

---
 xcsf/neural_layer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xcsf/neural_layer.c b/xcsf/neural_layer.c
index 5d22e2c..3abba34 100644
--- a/xcsf/neural_layer.c
+++ b/xcsf/neural_layer.c
@@ -164,6 +164,9 @@ layer_add_neurons(struct Layer *l, const int N)
         l->delta[i] = 0;
     }
     layer_calc_n_active(l);
+    if (l->options & LAYER_EVOLVE_CONNECT) {
+        layer_ensure_input_represention(l);
+    }
 }
 
 /**
-- 
2.43.0


From 498c189284d90bf7c893dc428694726551fb739b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:02 +0000
Subject: [PATCH 38/53] fix: make a layer inserted at the input side the new
 tail of the network

---
 xcsf/neural.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/neural.c b/xcsf/neural.c
index d345b6e..d695ff1 100644
--- a/xcsf/neural.c
+++ b/xcsf/neural.c
@@ -120,7 +120,7 @@ neural_insert(struct Net *net, struct Layer *l, const int pos)
         } else {
             new->next = iter->next;
             iter->next = new;
-            if (iter->next == NULL) { // new tail
+            if (new->next == NULL) { // new tail
                 net->tail = new;
                 net->n_inputs = l->n_inputs;
             } else { // middle
-- 
2.43.0


From 4dbcbbc5ed303fba987efcfe08ee1e78a5d35288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:10 +0000
Subject: [PATCH 39/53] fix: describe the new output layers when switching from
 autoencoding to classification

---
 xcsf/pred_neural.c | 44 ++++++++++++++++++++++++++++++++++++++++++++
 xcsf/pred_neural.h |  3 +++
 xcsf/xcsf.c        |  1 +
 3 files changed, 48 insertions(+)

diff --git a/xcsf/pred_neural.c b/xcsf/pred_neural.c
index 5a016a3..0d87676 100644
--- a/xcsf/pred_neural.c
+++ b/xcsf/pred_neural.c
@@ -382,6 +382,50 @@ pred_neural_ae_to_classifier(const struct XCSF *xcsf, const struct Cl *c,
     neural_push(net, l);
 }
 
+/**
+ * @brief Switches the network description used to create new classifiers from
+ * autoencoding to classification.
+ * @param [in] xcsf XCSF data structure.
+ * @param [in] n_del Number of (decoder) layers to remove from the network.
+ */
+void
+pred_neural_args_to_classifier(const struct XCSF *xcsf, const int n_del)
+{
+    struct ArgsLayer *head = xcsf->pred->largs;
+    // remove decoder layers
+    int n_keep = -n_del;
+    for (const struct ArgsLayer *iter = head; iter != NULL; iter = iter->next) {
+        ++n_keep;
+    }
+    struct ArgsLayer *tail = head;
+    for (int i = 1; i < n_keep; ++i) {
+        tail = tail->next;
+    }
+    layer_args_free(&tail->next);
+    // add new softmax output
+    struct ArgsLayer *new = malloc(sizeof(struct ArgsLayer));
+    layer_args_init(new);
+    new->type = CONNECTED;
+    new->function = LINEAR;
+    new->n_inputs = tail->n_init;
+    new->n_init = xcsf->y_dim;
+    new->n_max = xcsf->y_dim;
+    new->evolve_connect = head->evolve_connect;
+    new->evolve_weights = head->evolve_weights;
+    new->evolve_eta = head->evolve_eta;
+    new->sgd_weights = head->sgd_weights;
+    new->eta = head->eta;
+    new->eta_min = head->eta_min;
+    new->momentum = head->momentum;
+    new->decay = head->decay;
+    tail->next = new;
+    tail = layer_args_copy(new);
+    tail->type = SOFTMAX;
+    tail->n_inputs = xcsf->y_dim;
+    tail->scale = 1;
+    new->next = tail;
+}
+
 /**
  * @brief Returns a json formatted string representation of a neural prediction.
  * @param [in] xcsf XCSF data structure.
diff --git a/xcsf/pred_neural.h b/xcsf/pred_neural.h
index c0d4fd2..57c7baa 100644
--- a/xcsf/pred_neural.h
+++ b/xcsf/pred_neural.h
@@ -100,6 +100,9 @@ void
 pred_neural_ae_to_classifier(const struct XCSF *xcsf, const struct Cl *c,
                              const int n_del);
 
+void
+pred_neural_args_to_classifier(const struct XCSF *xcsf, const int n_del);
+
 char *
 pred_neural_json_export(const struct XCSF *xcsf, const struct Cl *c);
 
diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index b573068..2659b1a 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -191,6 +191,7 @@ xcsf_ae_to_classifier(struct XCSF *xcsf, const int y_dim, const int n_del)
         iter->cl->time = xcsf->time;
         iter = iter->next;
     }
+    pred_neural_args_to_classifier(xcsf, n_del);
 }
 
 /**
-- 
2.43.0


From 9bc673c6feccc50192b154d70e6776bff4b4b2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:21 +0000
Subject: [PATCH 40/53] fix: reject graph rules with fewer nodes than outputs

---
 xcsf/rule_dgp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xcsf/rule_dgp.c b/xcsf/rule_dgp.c
index a350d49..f03f58d 100644
--- a/xcsf/rule_dgp.c
+++ b/xcsf/rule_dgp.c
@@ -31,6 +31,13 @@ rule_dgp_cond_init(const struct XCSF *xcsf, struct Cl *c)
 {
     struct RuleDGP *new = malloc(sizeof(struct RuleDGP));
     new->n_outputs = (int) fmax(1, ceil(log2(xcsf->n_actions)));
+    const int expected = new->n_outputs + 1;
+    if (xcsf->cond->dargs->n < expected) {
+        printf("rule_dgp_cond_init(): n(%d) < expected(%d)\n",
+               xcsf->cond->dargs->n, expected);
+        printf("dgp rules output binary actions + 1 matching node\n");
+        exit(EXIT_FAILURE);
+    }
     graph_init(&new->dgp, xcsf->cond->dargs);
     graph_rand(&new->dgp);
     c->cond = new;
-- 
2.43.0


From f0f4824a00c2992331c37d70efebd85abf460f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:21 +0000
Subject: [PATCH 41/53] fix: process rules in order while their networks draw
 random numbers, whatever the number of threads

---
 xcsf/clset.c             | 15 +++++++++++++--
 xcsf/neural_layer_args.c | 16 ++++++++++++++++
 xcsf/neural_layer_args.h |  3 +++
 xcsf/pa.c                |  6 +++++-
 4 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/xcsf/clset.c b/xcsf/clset.c
index 43cebc2..30d18e0 100644
--- a/xcsf/clset.c
+++ b/xcsf/clset.c
@@ -22,7 +22,11 @@
  */
 
 #include "clset.h"
+#include "action.h"
 #include "cl.h"
+#include "condition.h"
+#include "neural_layer_args.h"
+#include "prediction.h"
 #include "utils.h"
 
 #define MAX_COVER (1000000) //!< Maximum number of covering attempts
@@ -364,7 +368,11 @@ clset_match(struct XCSF *xcsf, const double *x, const bool cover)
         iter = iter->next;
     }
     // process conditions and actions setting m flags in parallel
-    #pragma omp parallel for
+    // random draws must be made in rule order
+    const bool draws = xcsf->explore &&
+        (layer_args_random(xcsf->cond->largs) ||
+         layer_args_random(xcsf->act->largs));
+    #pragma omp parallel for if (!draws)
     for (int i = 0; i < xcsf->pset.size; ++i) {
         cl_match(xcsf, blist[i]->cl, x);
         cl_action(xcsf, blist[i]->cl, x);
@@ -455,7 +463,10 @@ clset_update(struct XCSF *xcsf, struct Set *set, const double *x,
         blist[i] = iter;
         iter = iter->next;
     }
-    #pragma omp parallel for
+    // random draws must be made in rule order
+    const bool draws =
+        !cur && xcsf->explore && layer_args_random(xcsf->pred->largs);
+    #pragma omp parallel for if (!draws)
     for (int i = 0; i < set->size; ++i) {
         cl_update(xcsf, blist[i]->cl, x, y, set->num, cur);
     }
diff --git a/xcsf/neural_layer_args.c b/xcsf/neural_layer_args.c
index 3fafda4..e6be0dd 100644
--- a/xcsf/neural_layer_args.c
+++ b/xcsf/neural_layer_args.c
@@ -465,6 +465,22 @@ layer_args_free(struct ArgsLayer **largs)
     }
 }
 
+/**
+ * @brief Returns whether a network draws random numbers while training.
+ * @param [in] args Layer parameters of the network.
+ * @return Whether any layer is stochastic.
+ */
+bool
+layer_args_random(const struct ArgsLayer *args)
+{
+    for (; args != NULL; args = args->next) {
+        if (args->type == DROPOUT || args->type == NOISE) {
+            return true;
+        }
+    }
+    return false;
+}
+
 /**
  * @brief Checks input layer arguments are valid.
  * @param [in] arg Input layer parameters.
diff --git a/xcsf/neural_layer_args.h b/xcsf/neural_layer_args.h
index 63a3c2b..26293c2 100644
--- a/xcsf/neural_layer_args.h
+++ b/xcsf/neural_layer_args.h
@@ -75,6 +75,9 @@ layer_args_json_export(struct ArgsLayer *args);
 void
 layer_args_free(struct ArgsLayer **largs);
 
+bool
+layer_args_random(const struct ArgsLayer *args);
+
 void
 layer_args_validate(struct ArgsLayer *args);
 
diff --git a/xcsf/pa.c b/xcsf/pa.c
index 58ac8fb..ee204fc 100644
--- a/xcsf/pa.c
+++ b/xcsf/pa.c
@@ -23,6 +23,8 @@
 
 #include "pa.h"
 #include "cl.h"
+#include "neural_layer_args.h"
+#include "prediction.h"
 #include "utils.h"
 
 /**
@@ -76,7 +78,9 @@ pa_build(const struct XCSF *xcsf, const double *x)
             iter = iter->next;
         }
     }
-    #pragma omp parallel for
+    // random draws must be made in rule order
+    const bool draws = xcsf->explore && layer_args_random(xcsf->pred->largs);
+    #pragma omp parallel for if (!draws)
     for (int i = 0; i < set->size; ++i) {
         if (clist[i] != NULL) {
             cl_predict(xcsf, clist[i], x);
-- 
2.43.0


From b20fe3a39cf72db90f4792d53303c89a01171675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:15 +0000
Subject: [PATCH 42/53] fix: read Python arrays as row-major whatever their
 memory layout

---
 xcsf/pybind_wrapper.cpp | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index c98dc80..9600dc0 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -59,6 +59,12 @@ extern "C" {
 #include "pybind_callback_earlystop.h"
 #include "pybind_utils.h"
 
+/**
+ * @brief Numbers from Python: whatever the type and memory layout of the
+ * object passed, the data are accessed as a contiguous row-major array.
+ */
+typedef py::array_t<double, py::array::c_style | py::array::forcecast> Array;
+
 /**
  * @brief Python XCSF class data structure.
  */
@@ -242,7 +248,7 @@ class XCS
      * @return The prediction error.
      */
     double
-    fit(const py::array_t<double> input, const int action, const double reward)
+    fit(const Array input, const int action, const double reward)
     {
         py::buffer_info buf = input.request();
         if (buf.shape[0] != xcs.x_dim) {
@@ -304,7 +310,7 @@ class XCS
      * @return The selected action.
      */
     int
-    decision(const py::array_t<double> input, const bool explore)
+    decision(const Array input, const bool explore)
     {
         py::buffer_info buf = input.request();
         if (buf.shape[0] != xcs.x_dim) {
@@ -354,8 +360,8 @@ class XCS
      * @param [in] Y Vector of truth values with shape (n_samples, y_dim).
      */
     void
-    load_input(struct Input *data, const py::array_t<double> X,
-               const py::array_t<double> Y)
+    load_input(struct Input *data, const Array X,
+               const Array Y)
     {
         // access input
         const py::buffer_info buf_x = X.request();
@@ -453,8 +459,8 @@ class XCS
                     throw std::invalid_argument(
                         "validation_data must be a tuple with two arrays");
                 }
-                py::array_t<double> X_val = data[0].cast<py::array_t<double>>();
-                py::array_t<double> y_val = data[1].cast<py::array_t<double>>();
+                Array X_val = data[0].cast<Array>();
+                Array y_val = data[1].cast<Array>();
                 load_input(test_data, X_val, y_val);
                 val_data = test_data;
                 // use zeros for validation predictions instead of covering
@@ -516,7 +522,7 @@ class XCS
      * @return The fitted XCSF model.
      */
     XCS &
-    fit(const py::array_t<double> X_train, const py::array_t<double> y_train,
+    fit(const Array X_train, const Array y_train,
         const bool shuffle, const bool warm_start, const bool verbose,
         py::object callbacks, py::kwargs kwargs)
     {
@@ -560,7 +566,7 @@ class XCS
      * @return The cover array values.
      */
     double *
-    get_cover(const py::array_t<double> cover)
+    get_cover(const Array cover)
     {
         const py::buffer_info buf_c = cover.request();
         if (buf_c.ndim != 1) {
@@ -588,7 +594,7 @@ class XCS
         if (cover.is_none()) {
             memset(xcs.cover, 0, sizeof(double) * xcs.pa_size);
         } else {
-            py::array_t<double> cover_arr = cover.cast<py::array_t<double>>();
+            Array cover_arr = cover.cast<Array>();
             const double *values = get_cover(cover_arr);
             for (int i = 0; i < xcs.n_actions; ++i) {
                 memcpy(&xcs.cover[i * xcs.y_dim], values,
@@ -605,7 +611,7 @@ class XCS
      * @return The prediction array values.
      */
     py::array_t<double>
-    predict(const py::array_t<double> X, const py::object &cover)
+    predict(const Array X, const py::object &cover)
     {
         const py::buffer_info buf_x = X.request();
         if (buf_x.ndim < 1 || buf_x.ndim > 2) {
@@ -639,7 +645,7 @@ class XCS
      * @return The average XCSF error using the loss function.
      */
     double
-    score(const py::array_t<double> X, const py::array_t<double> Y, const int N,
+    score(const Array X, const Array Y, const int N,
           const py::object &cover)
     {
         set_cover(cover);
@@ -967,9 +973,9 @@ PYBIND11_MODULE(xcsf, m)
               "machine learning.\nFor details on how to use this module see: "
               "https://github.com/xcsf-dev/xcsf/wiki/Python-Library-Usage";
 
-    double (XCS::*fit1)(const py::array_t<double>, const int, const double) =
+    double (XCS::*fit1)(const Array, const int, const double) =
         &XCS::fit;
-    XCS &(XCS::*fit2)(const py::array_t<double>, const py::array_t<double>,
+    XCS &(XCS::*fit2)(const Array, const Array,
                       const bool, const bool, const bool, py::object,
                       py::kwargs) = &XCS::fit;
 
-- 
2.43.0


From ae1a4c74640b3b992bcfee0557df561a38012cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:39 +0000
Subject: [PATCH 43/53] fix: reject Python arrays that do not hold the numbers
 needed, before touching the model

---
 xcsf/pybind_wrapper.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 9600dc0..fbd6bde 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -251,7 +251,7 @@ class XCS
     fit(const Array input, const int action, const double reward)
     {
         py::buffer_info buf = input.request();
-        if (buf.shape[0] != xcs.x_dim) {
+        if (buf.ndim != 1 || buf.shape[0] != xcs.x_dim) {
             std::ostringstream error;
             error << "fit(): x_dim is not equal to: " << xcs.x_dim << std::endl;
             throw std::invalid_argument(error.str());
@@ -313,7 +313,7 @@ class XCS
     decision(const Array input, const bool explore)
     {
         py::buffer_info buf = input.request();
-        if (buf.shape[0] != xcs.x_dim) {
+        if (buf.ndim != 1 || buf.shape[0] != xcs.x_dim) {
             std::ostringstream error;
             error << "decision(): x_dim is not equal to: " << xcs.x_dim;
             throw std::invalid_argument(error.str());
@@ -376,18 +376,23 @@ class XCS
         if (buf_x.shape[0] != buf_y.shape[0]) {
             throw std::invalid_argument("X and Y n_samples are not equal");
         }
-        if (buf_x.ndim > 1 && buf_x.shape[1] != xcs.x_dim) {
+        if (buf_x.shape[0] < 1) {
+            throw std::invalid_argument("X has no samples");
+        }
+        const int dim_x = buf_x.ndim > 1 ? buf_x.shape[1] : 1;
+        const int dim_y = buf_y.ndim > 1 ? buf_y.shape[1] : 1;
+        if (dim_x != xcs.x_dim) {
             std::ostringstream error;
             error << "load_input():";
-            error << " received x_dim: (" << buf_x.shape[1] << ")";
+            error << " received x_dim: (" << dim_x << ")";
             error << " but expected (" << xcs.x_dim << ")" << std::endl;
             error << "Perhaps reshape your data.";
             throw std::invalid_argument(error.str());
         }
-        if (buf_y.ndim > 1 && buf_y.shape[1] != xcs.y_dim) {
+        if (dim_y != xcs.y_dim) {
             std::ostringstream error;
             error << "load_input():";
-            error << " received y_dim: (" << buf_y.shape[1] << ")";
+            error << " received y_dim: (" << dim_y << ")";
             error << " but expected (" << xcs.y_dim << ")" << std::endl;
             error << "Perhaps reshape your data.";
             throw std::invalid_argument(error.str());
@@ -526,12 +531,12 @@ class XCS
         const bool shuffle, const bool warm_start, const bool verbose,
         py::object callbacks, py::kwargs kwargs)
     {
+        load_input(train_data, X_train, y_train);
+        load_validation_data(kwargs);
         if (!warm_start) { // re-initialise XCSF as necessary
             xcsf_free(&xcs);
             xcsf_init(&xcs);
         }
-        load_input(train_data, X_train, y_train);
-        load_validation_data(kwargs);
         // get callbacks
         py::list calls;
         if (py::isinstance<py::list>(callbacks)) {
@@ -617,10 +622,11 @@ class XCS
         if (buf_x.ndim < 1 || buf_x.ndim > 2) {
             throw std::invalid_argument("predict(): X must be 1 or 2-D array");
         }
-        if (buf_x.ndim > 1 && buf_x.shape[1] != xcs.x_dim) {
+        const int dim_x = buf_x.ndim > 1 ? buf_x.shape[1] : 1;
+        if (dim_x != xcs.x_dim) {
             std::ostringstream error;
             error << "predict():";
-            error << " received x_dim: (" << buf_x.shape[1] << ")";
+            error << " received x_dim: (" << dim_x << ")";
             error << " but expected (" << xcs.x_dim << ")" << std::endl;
             error << "Perhaps reshape your data.";
             throw std::invalid_argument(error.str());
-- 
2.43.0


From 7a903b7896c96b26a693a7db3efae83813cb0321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:00 +0000
Subject: [PATCH 44/53] fix: keep the state of a decision and the validation
 data for as long as they are used

---
 xcsf/pybind_wrapper.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index fbd6bde..73ec8be 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -72,12 +72,14 @@ class XCS
 {
   private:
     struct XCSF xcs; //!< XCSF data structure
-    double *state; //!< Current input state for RL
+    std::vector<double> state; //!< Current input state for RL
     int action; //!< Current action for RL
     double payoff; //!< Current reward for RL
     struct Input *train_data; //!< Training data for supervised learning
     struct Input *test_data; //!< Test data for supervised learning
     struct Input *val_data; //!< Validation data
+    Array X_val; //!< Owner of the validation inputs
+    Array y_val; //!< Owner of the validation targets
     py::dict params; //!< Dictionary of parameters and their values
     py::list metric_train;
     py::list metric_val;
@@ -133,7 +135,7 @@ class XCS
     void
     reset(const int x_dim = 1, const int y_dim = 1, const int n_actions = 1)
     {
-        state = NULL;
+        state.clear();
         action = 0;
         payoff = 0;
         train_data = new struct Input;
@@ -262,8 +264,9 @@ class XCS
                   << std::endl;
             throw std::invalid_argument(error.str());
         }
-        state = (double *) buf.ptr;
-        return xcs_rl_fit(&xcs, state, action, reward);
+        const double *values = static_cast<double *>(buf.ptr);
+        state.assign(values, values + xcs.x_dim);
+        return xcs_rl_fit(&xcs, state.data(), action, reward);
     }
 
     /**
@@ -299,7 +302,7 @@ class XCS
     void
     end_step(void)
     {
-        xcs_rl_end_step(&xcs, state, action, payoff);
+        xcs_rl_end_step(&xcs, state.data(), action, payoff);
     }
 
     /**
@@ -318,9 +321,10 @@ class XCS
             error << "decision(): x_dim is not equal to: " << xcs.x_dim;
             throw std::invalid_argument(error.str());
         }
-        state = (double *) buf.ptr;
+        const double *values = static_cast<double *>(buf.ptr);
+        state.assign(values, values + xcs.x_dim);
         param_set_explore(&xcs, explore);
-        action = xcs_rl_decision(&xcs, state);
+        action = xcs_rl_decision(&xcs, state.data());
         return action;
     }
 
@@ -334,7 +338,7 @@ class XCS
     update(const double reward, const bool done)
     {
         payoff = reward;
-        xcs_rl_update(&xcs, state, action, payoff, done);
+        xcs_rl_update(&xcs, state.data(), action, payoff, done);
     }
 
     /**
@@ -464,8 +468,8 @@ class XCS
                     throw std::invalid_argument(
                         "validation_data must be a tuple with two arrays");
                 }
-                Array X_val = data[0].cast<Array>();
-                Array y_val = data[1].cast<Array>();
+                X_val = data[0].cast<Array>();
+                y_val = data[1].cast<Array>();
                 load_input(test_data, X_val, y_val);
                 val_data = test_data;
                 // use zeros for validation predictions instead of covering
-- 
2.43.0


From e5f828ee2b597950f1c36c8a64d38421e0b6c6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:00 +0000
Subject: [PATCH 45/53] fix: run exactly the maximum number of trials and
 report the number of trials run

---
 xcsf/pybind_wrapper.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 73ec8be..71b7cdb 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -443,14 +443,13 @@ class XCS
     void
     update_metrics(const double train, const double val, const int n_trials)
     {
-        const int trial = (1 + metric_counter) * n_trials;
+        metric_counter += n_trials;
         metric_train.append(train);
         metric_val.append(val);
-        metric_trial.append(trial);
+        metric_trial.append(metric_counter);
         metric_psize.append(xcs.pset.size);
         metric_msize.append(xcs.mset_size);
         metric_mfrac.append(xcs.mfrac);
-        ++metric_counter;
     }
 
     /**
@@ -547,10 +546,9 @@ class XCS
             calls = callbacks.cast<py::list>();
         }
         // break up the learning into epochs to track metrics
-        const int n = ceil(xcs.MAX_TRIALS / (double) xcs.PERF_TRIALS);
-        const int n_trials = std::min(xcs.MAX_TRIALS, xcs.PERF_TRIALS);
-        for (int i = 0; i < n; ++i) {
-            const int start = i * n_trials;
+        int n_trials = 0;
+        for (int start = 0; start < xcs.MAX_TRIALS; start += n_trials) {
+            n_trials = std::min(xcs.MAX_TRIALS - start, xcs.PERF_TRIALS);
             const double train_error = xcs_supervised_fit(
                 &xcs, train_data, NULL, shuffle, start, n_trials);
             double val_error = 0;
-- 
2.43.0


From 852f87c0895bf892da2ad757e138af7a92237959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:00 +0000
Subject: [PATCH 46/53] fix: score a single sample when one is asked for

---
 xcsf/pybind_wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 71b7cdb..3643bfa 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -658,7 +658,7 @@ class XCS
     {
         set_cover(cover);
         load_input(test_data, X, Y);
-        if (N > 1) {
+        if (N > 0) {
             return xcs_supervised_score_n(&xcs, test_data, N, xcs.cover);
         }
         return xcs_supervised_score(&xcs, test_data, xcs.cover);
-- 
2.43.0


From a00159e50780efbcc92f3bacb6ae8f2e98cc7e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:40 +0000
Subject: [PATCH 47/53] fix: free the buffers of Python predictions and exports

---
 xcsf/pybind_wrapper.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 3643bfa..3458f5f 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -635,12 +635,12 @@ class XCS
         }
         const int n_samples = buf_x.shape[0];
         const double *input = reinterpret_cast<double *>(buf_x.ptr);
-        double *output =
-            (double *) malloc(sizeof(double) * n_samples * xcs.pa_size);
+        py::array_t<double> output(
+            std::vector<ptrdiff_t>{ n_samples, xcs.pa_size });
         set_cover(cover);
-        xcs_supervised_predict(&xcs, input, output, n_samples, xcs.cover);
-        return py::array_t<double>(
-            std::vector<ptrdiff_t>{ n_samples, xcs.pa_size }, output);
+        xcs_supervised_predict(&xcs, input, output.mutable_data(), n_samples,
+                               xcs.cover);
+        return output;
     }
 
     /**
@@ -840,12 +840,15 @@ class XCS
      * @param [in] prediction Whether to return the prediction.
      * @return String encoded in json format.
      */
-    const char *
+    std::string
     json_export(const bool condition, const bool action, const bool prediction)
     {
         if (xcs.pset.list != NULL) {
-            return clset_json_export(&xcs, &xcs.pset, condition, action,
-                                     prediction);
+            char *json_str = clset_json_export(&xcs, &xcs.pset, condition,
+                                               action, prediction);
+            const std::string json(json_str);
+            free(json_str);
+            return json;
         }
         return "null";
     }
-- 
2.43.0


From 2032f053344da2340084f071593cb845ba1b3872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:40 +0000
Subject: [PATCH 48/53] fix: free an XCS when Python releases it

---
 xcsf/pybind_wrapper.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 3458f5f..42fd598 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -32,6 +32,7 @@
 #include <fstream>
 #include <iomanip>
 #include <iostream>
+#include <memory>
 #include <pybind11/numpy.h>
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
@@ -111,6 +112,22 @@ class XCS
         xcsf_init(&xcs);
     }
 
+    XCS(const XCS &) = delete;
+
+    XCS &
+    operator=(const XCS &) = delete;
+
+    /**
+     * @brief Destructor.
+     */
+    ~XCS()
+    {
+        xcsf_free(&xcs);
+        param_free(&xcs);
+        delete train_data;
+        delete test_data;
+    }
+
     /**
      * @brief Returns a problem dimension specified in the keyword arguments.
      * @param [in] kwargs Parameters and their values.
@@ -693,7 +710,7 @@ class XCS
      * @details Uses a temporary binary file.
      * @param state The pickled state of a saved XCSF.
      */
-    static XCS
+    static std::unique_ptr<XCS>
     deserialize(const py::bytes &state)
     {
         // Write the XCSF bytes to a temporary binary file
@@ -703,11 +720,11 @@ class XCS
                    state.cast<std::string>().size());
         file.close();
         // Create a new XCSF instance
-        XCS xcs = XCS();
+        std::unique_ptr<XCS> xcs(new XCS());
         // Load XCSF
-        xcsf_load(&xcs.xcs, filename);
+        xcsf_load(&xcs->xcs, filename);
         // Update object params
-        xcs.update_params();
+        xcs->update_params();
         // Delete the temporary file
         if (std::remove(filename) != 0) {
             perror("Error deleting temporary pickle file");
-- 
2.43.0


From 0ecf4a923aa117f83332d3c206a084764269e39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:40 +0000
Subject: [PATCH 49/53] fix: pickle through a private temporary file

---
 xcsf/pybind_wrapper.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 42fd598..780a18c 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -681,6 +681,19 @@ class XCS
         return xcs_supervised_score(&xcs, test_data, xcs.cover);
     }
 
+    /**
+     * @brief Creates a temporary file that no other process uses.
+     * @return The name of the file.
+     */
+    static std::string
+    temp_filename()
+    {
+        py::module tempfile = py::module::import("tempfile");
+        py::tuple file = tempfile.attr("mkstemp")().cast<py::tuple>();
+        py::module::import("os").attr("close")(file[0]);
+        return file[1].cast<std::string>();
+    }
+
     /**
      * @brief Implements pickle file writing.
      * @details Uses a temporary binary file.
@@ -690,15 +703,15 @@ class XCS
     serialize() const
     {
         // Write XCSF to a temporary binary file
-        const char *filename = "_tmp_pickle.bin";
-        xcsf_save(&xcs, filename);
+        const std::string filename = temp_filename();
+        xcsf_save(&xcs, filename.c_str());
         // Read the binary file into bytes
         std::ifstream file(filename, std::ios::binary);
         std::string state((std::istreambuf_iterator<char>(file)),
                           std::istreambuf_iterator<char>());
         file.close();
         // Delete the temporary file
-        if (std::remove(filename) != 0) {
+        if (std::remove(filename.c_str()) != 0) {
             perror("Error deleting temporary pickle file");
         }
         // Return the binary data as bytes
@@ -714,7 +727,7 @@ class XCS
     deserialize(const py::bytes &state)
     {
         // Write the XCSF bytes to a temporary binary file
-        const char *filename = "_tmp_pickle.bin";
+        const std::string filename = temp_filename();
         std::ofstream file(filename, std::ios::binary);
         file.write(state.cast<std::string>().c_str(),
                    state.cast<std::string>().size());
@@ -722,11 +735,11 @@ class XCS
         // Create a new XCSF instance
         std::unique_ptr<XCS> xcs(new XCS());
         // Load XCSF
-        xcsf_load(&xcs->xcs, filename);
+        xcsf_load(&xcs->xcs, filename.c_str());
         // Update object params
         xcs->update_params();
         // Delete the temporary file
-        if (std::remove(filename) != 0) {
+        if (std::remove(filename.c_str()) != 0) {
             perror("Error deleting temporary pickle file");
         }
         // Return the deserialized XCSF
-- 
2.43.0


From 08f8c7e4a9beb2df12aae6d53bcc66eee72d67d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:33 +0000
Subject: [PATCH 50/53] fix: read configuration files of any layout

A file without a final newline overflowed its buffer by one byte, an empty
file wrote to an empty array, comments longer than the line buffer were
continued as parameters, and spaces and # inside strings were removed.
---
 xcsf/config.c | 56 +++++++++++++++++++++++++--------------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/xcsf/config.c b/xcsf/config.c
index fc07365..ae4af98 100644
--- a/xcsf/config.c
+++ b/xcsf/config.c
@@ -24,21 +24,29 @@
 #include "config.h"
 #include "param.h"
 
-#define MAXLEN (127) //!< Maximum config file line length to read
+#define CHUNK (1024) //!< Number of bytes to read at a time
 
 /**
- * @brief Removes tabs/spaces/lf/cr
- * @param [in] s The line to trim.
+ * @brief Removes comments: from a # outside a string to the end of the line.
+ * @param [in,out] s The text to remove comments from.
  */
 static void
-config_trim(char *s)
+config_strip_comments(char *s)
 {
-    const char *d = s;
-    do {
-        while (*d == ' ' || *d == '\t' || *d == '\n' || *d == '\r') {
-            ++d;
+    bool quoted = false;
+    char *d = s;
+    while (*s != '\0') {
+        if (quoted && *s == '\\' && s[1] != '\0') {
+            *d++ = *s++; // keep an escaped character as it is
+        } else if (*s == '"') {
+            quoted = !quoted;
+        } else if (*s == '#' && !quoted) {
+            s += strcspn(s, "\n");
+            continue;
         }
-    } while ((*s++ = *d++));
+        *d++ = *s++;
+    }
+    *d = '\0';
 }
 
 /**
@@ -54,26 +62,16 @@ config_read(struct XCSF *xcsf, const char *filename)
         printf("Warning: could not open %s. %s.\n", filename, strerror(errno));
         return;
     }
-    fseek(f, 0, SEEK_END);
-    const long len = ftell(f);
-    fseek(f, 0, SEEK_SET);
-    char file_buff[len];
-    file_buff[0] = '\0';
-    char line_buff[MAXLEN];
-    while (!feof(f)) {
-        if (fgets(line_buff, MAXLEN - 2, f) == NULL) {
-            break;
-        }
-        config_trim(line_buff);
-        if (strnlen(line_buff, MAXLEN) == 0 || line_buff[0] == '#') {
-            continue; // ignore empty lines and lines starting with '#'
-        }
-        char *ptr = strchr(line_buff, '#'); // remove anything after #
-        if (ptr != NULL) {
-            *ptr = '\0';
-        }
-        strncat(file_buff, line_buff, MAXLEN);
+    char *text = malloc(CHUNK + 1);
+    size_t len = 0;
+    size_t n = 0;
+    while ((n = fread(&text[len], 1, CHUNK, f)) > 0) {
+        len += n;
+        text = realloc(text, len + CHUNK + 1);
     }
+    text[len] = '\0';
     fclose(f);
-    param_json_import(xcsf, file_buff);
+    config_strip_comments(text);
+    param_json_import(xcsf, text);
+    free(text);
 }
-- 
2.43.0


From e8dbe9d1a405c18ebc2f3ec053eec31cb4ef3c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:33 +0000
Subject: [PATCH 51/53] fix: reject parameters in JSON arrays

A configuration, ea, args or layer given as an array had no names and
dereferenced a null pointer; one given as a number was ignored.
---
 xcsf/neural_layer_args.c |  3 +++
 xcsf/param.c             | 19 +++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/xcsf/neural_layer_args.c b/xcsf/neural_layer_args.c
index e6be0dd..f5e135d 100644
--- a/xcsf/neural_layer_args.c
+++ b/xcsf/neural_layer_args.c
@@ -423,6 +423,9 @@ char *
 layer_args_json_import(struct ArgsLayer *args, cJSON *json)
 {
     for (cJSON *iter = json; iter != NULL; iter = iter->next) {
+        if (iter->string == NULL) { // not a named parameter
+            return "layer";
+        }
         if (strncmp(iter->string, "type\0", 5) == 0 && cJSON_IsString(iter)) {
             args->type = layer_type_as_int(iter->valuestring);
             continue;
diff --git a/xcsf/param.c b/xcsf/param.c
index 7623344..392e8bc 100644
--- a/xcsf/param.c
+++ b/xcsf/param.c
@@ -341,6 +341,20 @@ param_json_import_cl_general(struct XCSF *xcsf, const cJSON *json)
     return true;
 }
 
+/**
+ * @brief Checks that a JSON item can hold named parameters.
+ * @param [in] json The JSON item.
+ * @param [in] name Name to use in the error message.
+ */
+static void
+param_json_check_object(const cJSON *json, const char *name)
+{
+    if (!cJSON_IsObject(json)) {
+        printf("Error: %s must be a JSON object\n", name);
+        exit(EXIT_FAILURE);
+    }
+}
+
 /**
  * @brief Sets the action parameters from a json formatted string.
  * @param [in,out] xcsf The XCSF data structure.
@@ -363,6 +377,7 @@ param_json_import_action(struct XCSF *xcsf, cJSON *json)
     }
     token = cJSON_GetObjectItem(json, "args");
     if (token != NULL) {
+        param_json_check_object(token, "args");
         const char *ret = action_param_json_import(xcsf, token);
         if (ret != NULL) {
             printf("Invalid action parameter %s\n", ret);
@@ -393,6 +408,7 @@ param_json_import_condition(struct XCSF *xcsf, cJSON *json)
     }
     token = cJSON_GetObjectItem(json, "args");
     if (token != NULL) {
+        param_json_check_object(token, "args");
         const char *ret = cond_param_json_import(xcsf, token);
         if (ret != NULL) {
             printf("Invalid condition parameter %s\n", ret);
@@ -423,6 +439,7 @@ param_json_import_prediction(struct XCSF *xcsf, cJSON *json)
     }
     token = cJSON_GetObjectItem(json, "args");
     if (token != NULL) {
+        param_json_check_object(token, "args");
         const char *ret = pred_param_json_import(xcsf, token);
         if (ret != NULL) {
             printf("Invalid prediction parameter %s\n", ret);
@@ -441,6 +458,7 @@ param_json_import(struct XCSF *xcsf, const char *json_str)
 {
     cJSON *json = cJSON_Parse(json_str);
     utils_json_parse_check(json);
+    param_json_check_object(json, "the configuration");
     for (cJSON *iter = json->child; iter != NULL; iter = iter->next) {
         if (param_json_import_general(xcsf, iter)) {
             continue;
@@ -455,6 +473,7 @@ param_json_import(struct XCSF *xcsf, const char *json_str)
             continue;
         }
         if (strncmp(iter->string, "ea\0", 3) == 0) {
+            param_json_check_object(iter, "ea");
             ea_param_json_import(xcsf, iter->child);
             continue;
         }
-- 
2.43.0


From 479f1ac86e77c97967feb95376506bcc4881e47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:51 +0000
Subject: [PATCH 52/53] fix: update network inputs when x_dim follows in a
 configuration

The order of the members of a JSON object has no meaning, but x_dim given
after a neural condition, action or prediction left the first layer of the
network with the old number of inputs.
---
 xcsf/param.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/xcsf/param.c b/xcsf/param.c
index 392e8bc..206fec1 100644
--- a/xcsf/param.c
+++ b/xcsf/param.c
@@ -25,6 +25,7 @@
 #include "action.h"
 #include "condition.h"
 #include "ea.h"
+#include "neural_layer_args.h"
 #include "prediction.h"
 #include "utils.h"
 
@@ -184,6 +185,19 @@ param_json_export(const struct XCSF *xcsf)
     return string;
 }
 
+/**
+ * @brief Sets the number of inputs of the first layer of a network.
+ * @param [in,out] largs List of layer parameters.
+ * @param [in] x_dim The number of input features.
+ */
+static void
+param_set_net_inputs(struct ArgsLayer *largs, const int x_dim)
+{
+    if (largs != NULL) {
+        largs->n_inputs = x_dim;
+    }
+}
+
 /**
  * @brief Sets the general parameters from a cJSON object.
  * @param [in,out] xcsf The XCSF data structure.
@@ -200,6 +214,9 @@ param_json_import_general(struct XCSF *xcsf, const cJSON *json)
         catch_error(param_set_x_dim(xcsf, json->valueint));
         graph_param_set_n_inputs(xcsf->cond->dargs, xcsf->x_dim);
         tree_param_set_n_inputs(xcsf->cond->targs, xcsf->x_dim);
+        param_set_net_inputs(xcsf->cond->largs, xcsf->x_dim);
+        param_set_net_inputs(xcsf->act->largs, xcsf->x_dim);
+        param_set_net_inputs(xcsf->pred->largs, xcsf->x_dim);
     } else if (strncmp(json->string, "y_dim\0", 6) == 0 &&
                cJSON_IsNumber(json)) {
         catch_error(param_set_y_dim(xcsf, json->valueint));
-- 
2.43.0


From e2320c4156c62a64a0f2fd0541646dc0517cbd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:51 +0000
Subject: [PATCH 53/53] fix: reject text after the JSON object of parameters

Parameters after a misplaced closing brace were silently ignored.
---
 xcsf/param.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/param.c b/xcsf/param.c
index 206fec1..9e8fd9b 100644
--- a/xcsf/param.c
+++ b/xcsf/param.c
@@ -473,7 +473,7 @@ param_json_import_prediction(struct XCSF *xcsf, cJSON *json)
 void
 param_json_import(struct XCSF *xcsf, const char *json_str)
 {
-    cJSON *json = cJSON_Parse(json_str);
+    cJSON *json = cJSON_ParseWithOpts(json_str, NULL, true);
     utils_json_parse_check(json);
     param_json_check_object(json, "the configuration");
     for (cJSON *iter = json->child; iter != NULL; iter = iter->next) {
-- 
2.43.0

