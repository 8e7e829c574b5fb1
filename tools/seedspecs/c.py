import os, sys
exec(open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[1])), "a.py")).read().split("SEEDS = [")[0])
STUB = '''
import sys, types
class G:
    def __init__(self, *a, **k): self.nodes = {}; self.links = []; self.label = None; made.append(self)
    def node(self, n, label=None, **k): self.nodes[n] = (label, k.get("style", ""))
    def edge(self, a, b, **k): self.links.append((a, b))
    def attr(self, *a, **k): self.label = k.get("label", self.label)
    def view(self, *a, **k): pass
made = []
sys.modules["graphviz"] = types.SimpleNamespace(Graph=G, Digraph=G)
from xcsf.utils.viz import DGPViz, TreeViz
'''
SEEDS = [
dict(id="c23-saved-settings", property="C23", needs="continuing a saved experiment from the command line with a configuration that differs from the saved one",
 breaks="the program does not run with the parameters of the saved system but with those of the file applied again over it",
 edits=[("xcsf/main.c", """        printf("XCSF loaded: %d elements\\n", (int) s);
""", """        printf("XCSF loaded: %d elements\\n", (int) s);
        config_read(xcsf, argv[3]);
""")],
 sh='''#!/bin/bash
# A system saved with beta = 0.375 is continued with a configuration that says 0.1.
M=$PWD/_build/repo/xcsf/main
P=$PWD/_build/repo
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
export OMP_NUM_THREADS=1 PYTHONPATH=$P PYTHONDONTWRITEBYTECODE=1
/opt/vp/venv/bin/python -c '
import xcsf
m = xcsf.XCS(x_dim=6, y_dim=1, n_actions=2, beta=0.375, pop_size=50, max_trials=10, perf_trials=5)
m.save("saved.bin")' || exit 2
echo '{"beta": 0.1, "pop_size": 60, "max_trials": 10, "perf_trials": 5}' > c.json
timeout 100 "$M" mp 6 c.json saved.bin > out.txt || exit 2
grep -q '"beta": *0.375' out.txt || grep -q '"beta":.*0.375' out.txt || { echo "the saved learning rate is lost"; exit 1; }
exit 0
'''),
dict(id="c23-inputs-first", property="C23", needs="a configuration in which x_dim stands before a dynamical graph condition",
 breaks="the graph keeps the number of inputs of the default system, so part of the input is ignored",
 edits=[("xcsf/param.c", """        graph_param_set_n_inputs(xcsf->cond->dargs, xcsf->x_dim);
""", """        if (xcsf->cond->type == COND_TYPE_DGP) {
            graph_param_set_n_inputs(xcsf->cond->dargs, xcsf->x_dim);
        }
""")],
 demo=PRE + '''
#include "xcsf/config.h"
#include "xcsf/dgp.h"
static int inputs(const char *t) {
    struct XCSF *s = mk(1, 1, 1);
    FILE *f = fopen("c.json", "w"); fputs(t, f); fclose(f);
    config_read(s, "c.json");
    return s->cond->dargs->n_inputs;
}
int main() {
    REQUIRE(inputs("{\\n\\"condition\\": {\\"type\\": \\"dgp\\"},\\n\\"x_dim\\": 3\\n}\\n") == 3, "x_dim after the condition is lost");
    REQUIRE(inputs("{\\n\\"x_dim\\": 3,\\n\\"condition\\": {\\"type\\": \\"dgp\\"}\\n}\\n") == 3, "x_dim before the condition is lost");
    return 0;
}
'''),
dict(id="c24-short-names", property="C24", needs="plotting a graph with a list of feature names shorter than the number of features",
 breaks="the given names are dropped for all features instead of only for the unnamed ones",
 edits=[("xcsf/utils/viz.py", """        self.functions: list[str] = graph["functions"]
""", """        self.functions: list[str] = graph["functions"]
        if feature_names is not None and len(feature_names) < self.n_inputs:
            self.feature_names = [f"feature_{i}" for i in range(self.n_inputs)]
""")],
 py=STUB + '''
g = dict(n=2, t=1, n_inputs=3, functions=["Fuzzy AND", "Fuzzy OR"], connectivity=[0, 1, 2, 3], initial_state=[0, 0], current_state=[0, 0])
DGPViz(g, "p", feature_names=["age", "size"])
labels = {made[-1].nodes["feature_%d" % i][0] for i in range(3)}
assert labels == {"age", "size", "feature_2"}, labels
DGPViz(g, "p", feature_names=["age", "size", "cost"])
labels = {made[-1].nodes["feature_%d" % i][0] for i in range(3)}
assert labels == {"age", "size", "cost"}, labels
'''),
dict(id="c24-second-output", property="C24", needs="exporting a recursive least squares rule of a system with several outputs",
 breaks="the exported model repeats the weights of the first output for the others",
 edits=[("xcsf/pred_rls.c", """    cJSON *weights = cJSON_CreateDoubleArray(pred->weights, pred->n_weights);
""", """    cJSON *weights = cJSON_CreateArray();
    for (int i = 0; i < pred->n_weights; ++i) {
        cJSON_AddItemToArray(
            weights, cJSON_CreateNumber(pred->weights[i % pred->n]));
    }
""")],
 py='''
import json, numpy as np, xcsf
m = xcsf.XCS(x_dim=1, y_dim=2, n_actions=1, pop_size=5, random_state=1, pop_init=True, max_trials=50, perf_trials=50, condition={"type": "dummy"}, prediction={"type": "rls_linear", "args": {"x0": 1}})
X = np.linspace(0, 1, 20).reshape(-1, 1)
m.fit(X, np.hstack([X, 3 - 2 * X]), warm_start=True, verbose=False)
m.predict(np.array([[0.25]]))
for r in json.loads(m.json())["classifiers"]:
    w = r["prediction"]["weights"]
    p = [w[0] + w[1] * 0.25, w[2] + w[3] * 0.25]
    assert max(abs(a - b) for a, b in zip(p, r["current_prediction"])) < 1e-6, (p, r["current_prediction"])
'''),
]
