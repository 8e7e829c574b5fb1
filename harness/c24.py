"""C24: exported rules and plots describe what the rules do (Python module and utils.viz)."""
import itertools, json, math, re, sys
import numpy as np
import graphviz
import xcsf
from xcsf.utils.viz import DGPViz, TreeViz
from pymc import Scen, flusher, main, need


class Null:
    def write(self, s):
        pass

    def flush(self):
        pass


sys.stdout = Null()
fresh = flusher(xcsf)
EPS = 1e-9


# ---- the meaning of an exported condition ----
def clamp(v, a, b):
    return min(max(v, a), b)


def tree_value(t, x):
    """Value of an exported tree: fully bracketed binary expressions."""
    pos = 0

    def sub():
        nonlocal pos
        s = t[pos]
        pos += 1
        if s != "(":
            return x[int(s[8:])] if isinstance(s, str) else s
        a = clamp(sub(), -1000, 1000)
        f = t[pos]
        pos += 1
        b = clamp(sub(), -1000, 1000)
        need(t[pos] == ")", "text", "unbalanced tree")
        pos += 1
        return a + b if f == "+" else a - b if f == "-" else a * b if f == "*" else (a / b if b != 0 else a)
    v = sub()
    need(pos == len(t), "text", "text after the end of the tree")
    return v


def graph_states(g, x, state):
    k = len(g["connectivity"]) // g["n"]
    s = list(state)
    for _ in range(g["t"]):
        n = []
        for i in range(g["n"]):
            v = [x[c] if c < g["n_inputs"] else s[c - g["n_inputs"]] for c in g["connectivity"][i * k:i * k + k]]
            f = g["functions"][i]
            n.append(clamp(1 - v[0] if f == "Fuzzy NOT" else math.prod(v) if f == "Fuzzy AND" else sum(v), 0, 1))
        s = n
    return s


def binary(v, bits):
    a = (1 << bits) - 1 if v >= 1 else 0 if v <= 0 else int(v * 2 ** bits)
    return format(a, "0%db" % bits)


def meaning(c, x, stateful, before=None):
    """(accepts, margin, graph states) of an exported condition."""
    t = c["type"]
    if t == "dummy":
        return True, 1, None
    if t == "neural":
        return None, 0, None
    if t == "hyperrectangle_csr":
        b = [(a - s, a + s) for a, s in zip(c["center"], c["spread"])]
    elif t == "hyperrectangle_ubr":
        b = [(min(p), max(p)) for p in zip(c["bound1"], c["bound2"])]
    elif t == "hyperellipsoid":
        d = sum(((v - a) / s) ** 2 for v, a, s in zip(x, c["center"], c["spread"]))
        return d < 1, abs(d - 1), None
    elif t == "ternary":
        bits = len(c["string"]) // len(x)
        s = "".join(binary(v, bits) for v in x)
        return all(p in ("#", q) for p, q in zip(c["string"], s)) and len(s) == len(c["string"]), 1, None
    elif t == "tree_gp":
        v = tree_value(c["tree"]["array"], x)
        return v > 0.5, abs(v - 0.5), None
    elif t in ("dgp", "rule_dgp"):
        g = c["graph"]
        s = graph_states(g, x, before["condition"]["graph"]["current_state"] if stateful else g["initial_state"])
        return s[0] > 0.5, abs(s[0] - 0.5), s
    need(len(b) == len(x), "text", "%d intervals for %d features", len(b), len(x))
    return all(l <= v <= h for v, (l, h) in zip(x, b)), min(min(abs(v - l), abs(v - h)) for v, (l, h) in zip(x, b)), None


def network(n, x_dim, outs):
    """Shapes and counts of an exported network agree."""
    w = x_dim
    for i in range(len(n)):
        l = n.get("layer_%d" % i)
        need(l is not None, "network", "layers %r", sorted(n))
        need(l["n_inputs"] == w, "network", "layer %d takes %d inputs after %d outputs: %r", i, l["n_inputs"], w, n)
        w = l["n_outputs"]
        if l["type"] == "connected":
            q = l["weights"]
            need(q["n_weights"] == l["n_inputs"] * w and q["n_biases"] == w and 0 <= q["n_active"] <= q["n_weights"], "network", "layer %d: %r", i, l)
            need(l["activation"] == ("relu" if i < len(n) - 1 else "linear"), "network", "layer %d: activation %r", i, l["activation"])
        need(l["type"] == "connected", "network", "layer %d: type %r", i, l["type"])
    need(w == outs, "network", "%d outputs instead of %d: %r", w, outs, n)


def answer(p, x, x0, y_dim, prev):
    t = p["type"]
    if t == "constant":
        return p["prediction"]
    f = [x0] + list(x)
    if "quadratic" in t:
        f += [x[i] * x[j] for i in range(len(x)) for j in range(i, len(x))]
    w = p["weights"]
    need(len(w) == y_dim * len(f), "text", "%d weights exported for %d features and %d outputs", len(w), len(f), y_dim)
    return [sum(a * b for a, b in zip(w[k * len(f):], f)) for k in range(y_dim)]


def close(a, b, scale=1.0):
    return abs(a - b) <= 1e-9 * (scale + abs(a) + abs(b))


# ---- drawings read back ----
def only(n):
    need(len(graphviz.drawn) == n, "drawings", "%d drawings instead of %d", len(graphviz.drawn), n)
    g = graphviz.drawn[-1]
    need(g.views == 1, "shown", "the drawing is shown %d times", g.views)
    return g


def symbol(s, names):
    if isinstance(s, float) or isinstance(s, int):
        return ("%.5f" % s, str(s))
    if names is not None and s.startswith("feature_") and int(s[8:]) < len(names):
        return (names[int(s[8:])],)
    return (s,)


def check_tree(t, names=None, note=None):
    graphviz.drawn.clear()
    TreeViz(list(t), "plot", note=note, feature_names=names)
    g = only(1)
    kids = {}
    parents = {}
    for a, b in g.edges_:
        kids.setdefault(a, []).append(b)
        parents[b] = parents.get(b, 0) + 1
    roots = [n for n in g.nodes if n not in parents]
    need(len(roots) == 1 and all(v == 1 for v in parents.values()), "shape", "the drawing is not a tree: edges %r for %r", g.edges_, t)
    pos = 0

    def walk(n):
        nonlocal pos
        s = t[pos]
        if s == "(":
            need(len(kids.get(n, [])) == 2, "operands", "an operator with %d operands in the drawing of %r", len(kids.get(n, [])), t)
            pos += 1
            walk(kids[n][0])
            need(g.nodes[n].get("label") == t[pos], "operator", "node %r instead of %r in the drawing of %r", g.nodes[n].get("label"), t[pos], t)
            pos += 1
            walk(kids[n][1])
            pos += 1
        else:
            need(n not in kids, "leaf", "a leaf with operands in the drawing of %r", t)
            need(g.nodes[n].get("label") in symbol(s, names), "label", "leaf %r instead of %r in the drawing of %r", g.nodes[n].get("label"), s, t)
            pos += 1
    walk(roots[0])
    need(pos == len(t), "incomplete", "the drawing of %r ends early", t)
    need(len(g.nodes) == sum(1 for s in t if s not in ("(", ")")), "nodes", "%d nodes in the drawing of %r", len(g.nodes), t)
    need(note is None or g.label == note, "note", "caption %r instead of %r", g.label, note)
    need(g.filename == "plot.gv", "file", "drawn to %r", g.filename)
    return len(g.nodes)


def check_graph(d, names=None, note=None):
    graphviz.drawn.clear()
    DGPViz(json.loads(json.dumps(d)), "plot", note=note, feature_names=names)
    g = only(1)
    need(g.directed, "kind", "a graph drawn without directions")
    k = len(d["connectivity"]) // d["n"]
    want = {}
    used = set()
    for i in range(d["n"]):
        for c in d["connectivity"][i * k:i * k + (1 if d["functions"][i] == "Fuzzy NOT" else k)]:
            if c < d["n_inputs"]:
                used.add(c)
            e = (("f", c) if c < d["n_inputs"] else ("n", c - d["n_inputs"]), ("n", i))
            want[e] = want.get(e, 0) + 1

    # which drawn node is which: features are square, the number is in the name
    def who(n):
        return ("f" if g.nodes[n].get("shape") in ("square", "box") or "feature" in n else "n", int(re.findall("[0-9]+", n)[-1]))
    got = {}
    for a, b in g.edges_:
        e = (who(a), who(b))
        got[e] = got.get(e, 0) + 1
    need(got == want, "edges", "edges %r instead of %r for %r", sorted(got.items()), sorted(want.items()), d)
    for n, a in g.nodes.items():
        kind, i = who(n)
        if kind == "f":
            need(i in used, "feature", "feature %d is drawn and not used in %r", i, d)
            need(a.get("label") in symbol("feature_%d" % i, names), "label", "feature %d is labelled %r in the drawing of %r", i, a.get("label"), d)
        else:
            need(i < d["n"] and a.get("label") == d["functions"][i], "label", "node %d is labelled %r instead of %r", i, a.get("label"), d["functions"][i])
            need(("filled" in a.get("style", "")) == (i == 0), "match-node", "node %d is%s shaded", i, "" if "filled" in a.get("style", "") else " not")
    need(sum(1 for n in g.nodes if who(n)[0] == "n") == d["n"], "nodes", "not all nodes are drawn")
    for s in ("N = %d" % d["n"], "T = %d" % d["t"]) + ((note,) if note else ()):
        need(g.label is not None and s in g.label, "caption", "the caption %r does not say %r", g.label, s)
    return len(g.nodes)


# ---- learned systems ----
BOX = {"min": 0, "max": 1, "spread_min": 0.2}
CONDS = {
    "dummy": {"type": "dummy"}, "csr": {"type": "hyperrectangle_csr", "args": BOX}, "ubr": {"type": "hyperrectangle_ubr", "args": BOX}, "ellipsoid": {"type": "hyperellipsoid", "args": BOX},
    "ternary": {"type": "ternary", "args": {"bits": 2, "p_dontcare": 0.6}},
    "tree": {"type": "tree_gp", "args": {"min_constant": -1, "max_constant": 2, "n_constants": 5, "init_depth": 3, "max_len": 40}},
    "dgp": {"type": "dgp", "args": {"max_k": 2, "max_t": 3, "n": 4, "evolve_cycles": True}}, "dgp3": {"type": "dgp", "args": {"max_k": 3, "max_t": 5, "n": 7, "evolve_cycles": True}},
    "rule_dgp": {"type": "rule_dgp", "args": {"max_k": 2, "max_t": 3, "n": 5, "evolve_cycles": True}},
}
HID = {"type": "connected", "activation": "relu", "n_init": 2, "n_max": 6, "max_neuron_grow": 2, "evolve_weights": True, "evolve_neurons": True, "evolve_connect": True}
NET = {"layer_0": HID, "layer_1": dict(HID, n_init=3), "layer_2": {"type": "connected", "activation": "linear", "n_init": 1, "evolve_weights": True, "evolve_connect": True}}
CONDS["neural"] = {"type": "neural", "args": NET}
PREDS = {"neural": {"type": "neural", "args": NET}, "const": {"type": "constant"}, "nlms1": {"type": "nlms_linear", "args": {"x0": 0.5}}, "nlms2": {"type": "nlms_quadratic", "args": {"x0": 2}},
         "rls1": {"type": "rls_linear", "args": {"x0": 0.5}}, "rls2": {"type": "rls_quadratic", "args": {"x0": 1}}}
X0 = {"neural": 0, "const": 1, "nlms1": 0.5, "nlms2": 2, "rls1": 0.5, "rls2": 1}
TOP = ("error", "fitness", "accuracy", "set_size", "numerosity", "experience", "time", "samples_seen", "samples_matched", "current_match", "current_action", "current_prediction")


def inputs(n, fine):
    v = (0.0, 0.15, 0.4, 0.5, 0.8, 1.0) if fine else (0.05, 0.3, 0.55, 0.9)
    return list(itertools.product(v, repeat=n)) if n < 3 else [tuple((i * 7 + j * 3 + i * j) % 11 / 10 for j in range(n)) for i in range(16)]


def learn(case):
    cond, pred, x, y, seed, trials, stateful, acts = case
    fresh()
    m = xcsf.XCS(x_dim=x, y_dim=y, n_actions=acts, pop_size=12, random_state=seed, omp_num_threads=1, pop_init=True, loss_func="mse", theta_del=2, theta_sub=3, e0=0.05, alpha=0.1, nu=5,
                 stateful=stateful, max_trials=max(trials, 1), perf_trials=max(trials, 1), condition=CONDS[cond], action={"type": "integer"}, prediction=dict(PREDS[pred], args=dict(NET, layer_2=dict(NET["layer_2"], n_init=y))) if pred == "neural" else PREDS[pred], ea={"theta_ea": 2, "lambda": 2})
    data = inputs(x, False)
    if trials and acts == 1:
        X = np.array(data)
        Y = np.array([[math.sin(3 * r[0] + k) + sum(r) for k in range(y)] for r in data])
        m.fit(X, Y, shuffle=False, warm_start=True, verbose=False)
    elif trials:
        for i in range(trials):
            r = data[i * 5 % len(data)]
            m.init_trial()
            m.init_step()
            a = m.decision(np.array(r), True)
            m.update(1.0 if a == int(r[0] > 0.5) else 0.0, True)
            m.end_step()
            m.end_trial()
    return m


def rules(m):
    j = json.loads(m.json())
    return j["classifiers"] if j else []


def described(case, st):
    cond, pred, xd, yd, seed, trials, stateful, acts = case
    m = learn(case)
    before = rules(m)
    need(before, "setup", "no rules")
    for x in inputs(xd, True):
        if acts == 1:
            m.predict(np.array([x]))
        else:
            m.init_trial()
            m.init_step()
            m.decision(np.array(x), False)
        now = rules(m)
        if acts > 1:
            m.end_trial()
        if len(now) != len(before) and acts > 1:  # covering added rules
            before = now
            continue
        need(len(now) == len(before), "rules", "a prediction changed the number of rules")
        for b, r in zip(before, now):
            for k in TOP:
                need(k in r, "missing", "a rule is exported without %s", k)
            need(0 <= r["samples_matched"] <= r["samples_seen"] and r["numerosity"] >= 1 and 0 < r["accuracy"] <= 1, "statistics", "impossible statistics %r", {k: r[k] for k in TOP})
            acc = 1 if r["error"] <= 0.05 else max(0.1 * (r["error"] / 0.05) ** -5, 2.3e-16)
            need(abs(r["accuracy"] - acc) <= 1e-6 * acc, "accuracy", "accuracy %r exported for the error %r", r["accuracy"], r["error"])
            if acts == 1:
                for k in ("error", "fitness", "numerosity", "experience", "time", "set_size"):
                    need(r[k] == b[k], "statistics", "a prediction changed %s from %r to %r", k, b[k], r[k])
                need(r["samples_seen"] == b["samples_seen"] + 1 and r["samples_matched"] == b["samples_matched"] + r["current_match"], "statistics", "%r/%r samples matched, then %r/%r after %s match", b["samples_matched"], b["samples_seen"], r["samples_matched"], r["samples_seen"], "a" if r["current_match"] else "no")
            if "network" in r["condition"]:
                network(r["condition"]["network"], xd, 1)
            if "network" in r["prediction"]:
                network(r["prediction"]["network"], xd, yd)
            want, margin, states = meaning(r["condition"], x, stateful, b)
            if margin > EPS:
                need(r["current_match"] == want, "match", "the exported condition %s %r but the rule %s it: %s", "accepts" if want else "refuses", x, "accepts" if r["current_match"] else "refuses", json.dumps(r["condition"]))
            if states is not None:
                got = r["condition"]["graph"]["current_state"]
                need(len(got) == len(states) and all(close(a, b2) for a, b2 in zip(got, states)), "graph", "the exported graph has the states %r for %r, should be %r: %s", got, x, states, json.dumps(r["condition"]))
            if r["current_match"] and r["prediction"]["type"] != "neural":
                p = answer(r["prediction"], x, X0[pred], yd, b)
                sc = sum(abs(v) for v in r["prediction"].get("weights", [1]))
                need(len(p) == len(r["current_prediction"]) and all(close(a, b2, sc) for a, b2 in zip(p, r["current_prediction"])), "prediction", "the exported model gives %r for %r but the rule predicts %r: %s", p, x, r["current_prediction"], json.dumps(r["prediction"]))
                if acts > 1 and r["action"]["type"] == "integer":
                    need(r["action"]["action"] == r["current_action"] and 0 <= r["current_action"] < acts, "action", "the exported action is %r, the rule advocates %r", r["action"].get("action"), r["current_action"])
                if r["condition"]["type"] == "rule_dgp" and states is not None and all(abs(v - 0.5) > EPS for v in states):
                    n = max(1, math.ceil(math.log2(acts)))
                    a = min(acts - 1, sum(1 << i for i in range(n) if states[1 + i] > 0.5))
                    need(r["current_action"] == a, "action", "the exported graph advocates %d, the rule %d: %s", a, r["current_action"], json.dumps(r["condition"]))
            st.state(cond, r["current_match"], json.dumps(r["condition"], sort_keys=True), x)
            st.outcome(cond, r["current_match"])
            if cond == "tree":
                check_tree(r["condition"]["tree"]["array"], names=[None, ["a", "b", "c"], ["only"]][len(st.states) % 3])
            elif "graph" in r["condition"]:
                check_graph(r["condition"]["graph"], names=[None, ["a", "b", "c"], ["only"]][len(st.states) % 3])
        before = now


def flags(case, st):
    cond, pred, flag = case
    m = learn((cond, pred, 2, 1, 1, 10, True, 2 if cond == "csr" else 1))
    full = rules(m)
    j = json.loads(m.json(*flag))["classifiers"]
    need(len(j) == len(full), "rules", "%d rules exported instead of %d", len(j), len(full))
    for a, b in zip(j, full):
        for k, f in zip(("condition", "action", "prediction"), flag):
            need(k in a if f and k in b else k not in a, "flags", "json%r %s the %s", flag, "omits" if f else "shows", k)
            need(not (f and k in b) or a[k] == b[k], "flags", "json%r shows another %s", flag, k)
        for k in TOP:
            need(a[k] == b[k], "flags", "json%r shows another %s", flag, k)
        st.state(cond, pred, flag, json.dumps(a, sort_keys=True))


# ---- all small trees and graphs ----
def shapes(n, leaves, ops):
    """All bracketed trees with n operators."""
    if n == 0:
        for l in leaves:
            yield [l]
        return
    for k in range(n):
        for a in shapes(k, leaves, ops):
            for b in shapes(n - 1 - k, leaves, ops):
                for o in ops:
                    yield ["("] + a + [o] + b + [")"]


NAMES = [None, ["alpha", "be_ta", "c"], ["x"], []]


def draw_tree(case, st):
    t, names, note = case
    st.state(tuple(t), str(names), check_tree(t, names, note))
    st.outcome(len(t))


def draw_graph(case, st):
    d, names, note = case
    st.state(json.dumps(d), str(names), check_graph(d, names, note))
    st.outcome(len(d["functions"]))


def make(t):
    out = []
    seeds = range(1, 9 if t else 4)
    ages = (0, 3, 20, 150, 600) if t else (0, 5, 60)
    for cond in CONDS:
        for pred in PREDS:
            if pred not in ("const", "nlms1") and cond not in ("csr", "dummy", "tree") and (cond, pred) != ("neural", "neural"):
                continue
            for xd, yd in ((1, 1), (2, 2), (3, 1)):
                if pred not in ("const", "nlms1") and (xd, yd) == (1, 1):
                    continue
                acts = 2 if cond == "rule_dgp" else 1
                if pred == "neural" and cond == "tree":
                    continue
                yd2 = 1 if acts > 1 else yd
                cases = [(cond, pred, xd, yd2, s, a, sf, acts) for s in seeds for a in ages for sf in ((True, False) if "dgp" in cond and acts == 1 else (False,))]
                out.append(Scen("describes-%s-%s-x%dy%d" % (cond, pred, xd, yd2), lambda c=cases: iter(c), described))
    for acts in (2, 3, 5):
        for cond in ("csr", "ternary", "rule_dgp", "tree"):
            cases = [(cond, "nlms1", 2, 1, s, a, False, acts) for s in seeds for a in ages]
            out.append(Scen("describes-%s-a%d" % (cond, acts), lambda c=cases: iter(c), described))
    out.append(Scen("flags", lambda: ((c, p, f) for c in ("csr", "tree", "dgp") for p in ("const", "nlms1") for f in itertools.product((True, False), repeat=3)), flags))
    leaves = ["feature_0", "feature_2", 0.5, -1.25]
    for n in range(0, 5 if t else 4):
        lv, ops = (leaves, "+-*/") if n < 3 else (leaves[:2], "+/") if n == 3 else (leaves[:1], "-*")
        out.append(Scen("trees-%d" % n, lambda n=n, lv=lv, ops=ops: ((s, nm, note) for s in shapes(n, lv, ops) for nm in (NAMES if n < 3 else NAMES[:2]) for note in ((None, "caption") if n < 2 else (None,))), draw_tree))

    def graphs(n, k, ni):
        fs = ("Fuzzy NOT", "Fuzzy AND", "Fuzzy OR")
        for f in itertools.product(fs, repeat=n):
            for c in itertools.product(range(n + ni), repeat=n * k):
                yield dict(n=n, t=1 + (sum(c) % 3), n_inputs=ni, functions=list(f), connectivity=list(c), initial_state=[0.5] * n, current_state=[0.5] * n)
    for n, k, ni in ((1, 1, 1), (1, 2, 2), (2, 1, 2), (2, 2, 1), (3, 1, 1)) + (((2, 2, 2), (3, 1, 3)) if t else ()):
        for nm in range(3):
            out.append(Scen("graphs-n%dk%di%d-%d" % (n, k, ni, nm), lambda n=n, k=k, ni=ni, nm=nm: ((d, NAMES[nm], ("note" if nm == 1 else None)) for d in graphs(n, k, ni)), draw_graph))
    return out


main(make)
