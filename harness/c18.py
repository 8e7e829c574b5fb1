"""C18: fitting runs exactly the requested trials, in order, with its callbacks (Python module)."""
import itertools, json, os, sys
import numpy as np
import xcsf
from pymc import Scen, Violation, flusher, main, need


class Null:
    def write(self, s):
        pass

    def flush(self):
        pass


sys.stdout = Null()
fresh = flusher(xcsf)

FIX = dict(x_dim=1, y_dim=1, n_actions=1, pop_size=5, random_state=1, omp_num_threads=1, pop_init=False, loss_func="mae",
           condition={"type": "dummy"}, action={"type": "integer"}, ea={"theta_ea": 100000})
STATIC = dict(FIX, prediction={"type": "nlms_linear", "args": {"x0": 1, "eta": 0, "eta_min": 0, "evolve_eta": False}})
MEAN = dict(FIX, beta=0.001, prediction={"type": "constant"})
LEARN = dict(x_dim=2, y_dim=1, n_actions=1, pop_size=8, random_state=3, omp_num_threads=1, pop_init=False, loss_func="mse", theta_del=1,
             condition={"type": "hyperrectangle_csr", "args": {"min": 0, "max": 1, "spread_min": 0.3}}, action={"type": "integer"},
             ea={"theta_ea": 1, "lambda": 2}, prediction={"type": "nlms_linear"})
KEYS = ("error", "fitness", "set_size", "numerosity", "experience", "time", "condition", "action", "prediction")


def pop(x):
    """What a user sees of the population (not the scratch of the last match)."""
    j = json.loads(x.json())
    return [] if j is None else [{k: c[k] for k in KEYS if k in c} for c in j["classifiers"]]


def key(p):
    return json.dumps(p, sort_keys=True)


def offset():
    """The constant answer of the model that does not learn."""
    x = xcsf.XCS(max_trials=1, perf_trials=1, **STATIC)
    x.fit(np.ones((1, 1)), np.zeros((1, 1)), shuffle=False, verbose=False)
    return float(x.predict(np.ones((1, 1)))[0, 0])


P0 = offset()


def near(a, b):
    return abs(a - b) <= 1e-12 * max(1.0, abs(a), abs(b))


# ---------------------------------------------------------------- epochs
def epochs_of(m, p):
    """(first trial, number of trials) of each epoch."""
    out, s = [], 0
    while s < m:
        out.append((s, min(p, m - s)))
        s += out[-1][1]
    return out


def check_epochs(x, base, m, p, ns, errs, st, val=None):
    """Metrics appended by a fit of m trials in epochs of p over ns samples whose errors are errs; base: trials run before."""
    got = x.get_metrics()
    want = epochs_of(m, p)
    for k in ("train", "val", "trials", "psize", "msize", "mfrac"):
        need(len(got[k]) == base[1] + len(want), "epochs", "%d trials in epochs of %d: %d entries of metric %s, expected %d", m, p,
             len(got[k]) - base[1], k, len(want))
    for i, (s, n) in enumerate(want):
        e = sum(errs[(s + j) % ns] for j in range(n)) / n
        t = got["train"][base[1] + i]
        need(near(t, e), "train metric", "epoch %d (trials %d to %d of %d samples): train error %r, the mean over its samples in order is %r", i,
             s, s + n - 1, ns, t, e)
        need(got["trials"][base[1] + i] == base[0] + s + n, "trial number", "epoch %d reports trial %r, %d trials were due", i,
             got["trials"][base[1] + i], base[0] + s + n)
        if val is not None:
            need(near(got["val"][base[1] + i], val), "validation metric", "epoch %d reports validation error %r, expected %r", i, got["val"][base[1] + i], val)
        st.state("epoch", m, p, ns, i)
    return base[0] + m, base[1] + len(want)


def epochs_run(case, st):
    m, p, ns, m2, p2, warm = case
    errs = [float(2 ** i) for i in range(ns)]
    X = np.linspace(0, 1, ns).reshape(-1, 1) * 0 + 1
    y = np.array(errs).reshape(-1, 1) + P0
    vy = np.array([[3.0], [5.0]]) + P0
    x = xcsf.XCS(max_trials=m, perf_trials=p, **STATIC)
    x.fit(X, y, shuffle=False, verbose=False, validation_data=(np.ones((2, 1)), vy))
    b = check_epochs(x, (0, 0), m, p, ns, errs, st, 4.0)
    e = pop(x)
    need(len(e) == 1 and e[0]["experience"] == m, "trials", "%d trials: the rule that matches everything has experience %r", m, [c["experience"] for c in e])
    need(x.time() == m, "trials", "%d trials: time is %d", m, x.time())
    if m2:
        x.set_params(max_trials=m2, perf_trials=p2)
        x.fit(X, y, shuffle=False, verbose=False, warm_start=warm)
        check_epochs(x, b, m2, p2, ns, errs, st)
        n = m2 + (m if warm else 0)
        e = pop(x)
        need(len(e) == 1 and e[0]["experience"] == n and x.time() == n, "warm start", "second fit of %d trials, warm_start=%s, after %d: experience %r, time %d",
             m2, warm, m, [c["experience"] for c in e], x.time())
        if not warm:
            z = xcsf.XCS(max_trials=m2, perf_trials=p2, **STATIC)
            z.fit(X, y, shuffle=False, verbose=False)
            need(key(pop(z)) == key(e), "from scratch", "a second fit without warm start differs from a first fit: %s and %s", e, pop(z))
    st.outcome(key(e))


def epochs_cases(ms, ps, nss, second):
    def g():
        for m in ms:
            for p in ps:
                for ns in nss:
                    for m2, p2, w in second:
                        yield m, p, ns, m2, p2, w
    return g


# ------------------------------------------ epochs do not change what is learnt
DATA = (np.array([[0.1, 0.9], [0.4, 0.2], [0.8, 0.6], [0.3, 0.5], [0.95, 0.05]]), np.array([[0.2], [0.9], [0.4], [0.1], [0.7]]))


def split_run(case, st):
    cfg, m, p, shuffle, seed = case
    X, y = DATA
    runs = []
    for q in (1, p):
        fresh()
        x = xcsf.XCS(max_trials=m, perf_trials=q, **dict(cfg, random_state=seed))
        x.fit(X, y, shuffle=shuffle, verbose=False)
        runs.append((x.get_metrics(), key(pop(x)), x.time(), x))
    a, b = runs
    need(a[1] == b[1] and a[2] == b[2], "epoch length", "%d trials in epochs of %d leave another population than epochs of one", m, p)
    for i, (s, n) in enumerate(epochs_of(m, p)):
        need(near(b[0]["train"][i], sum(a[0]["train"][s:s + n]) / n), "train metric", "epoch %d: train error %r is not the mean of its trials %r", i,
             b[0]["train"][i], a[0]["train"][s:s + n])
        for k in ("psize", "msize", "mfrac"):
            need(b[0][k][i] == a[0][k][s + n - 1], k + " metric", "epoch %d ends with %s %r, after trial %d it was %r", i, k, b[0][k][i], s + n, a[0][k][s + n - 1])
    need(b[0]["psize"][-1] == b[3].pset_size() and b[0]["msize"][-1] == b[3].mset_size() and b[0]["mfrac"][-1] == b[3].mfrac(), "last metric",
         "the last metrics differ from the model's own values")
    st.state(a[1])
    st.outcome(a[1])


def shuffle_run(case, st):
    ns, seed = case
    errs = [float(2 ** i) for i in range(ns)]
    y = np.array(errs).reshape(-1, 1) + P0
    x = xcsf.XCS(max_trials=60 * ns, perf_trials=1, **dict(STATIC, random_state=seed))
    x.fit(np.ones((ns, 1)), y, shuffle=True, verbose=False)
    seen = x.get_metrics()["train"]
    need(all(e in errs for e in seen), "samples", "a trial's error belongs to none of the samples: %r", [e for e in seen if e not in errs][:3])
    need(set(seen) == set(errs), "samples", "of %d samples, some were never presented in %d shuffled trials", ns, len(seen))
    st.state(ns, seed)


# ---------------------------------------------------------------- callbacks
def series(vals, rep, mean):
    """Training targets that make the monitored error follow vals, one value per epoch of rep trials."""
    if not mean:
        return [v + P0 for v in vals for _ in range(rep)]
    ys, tot, n = [], 0.0, 0
    for v in vals:  # the running mean of the targets after epoch i is v
        t = v * (n + rep) - tot
        ys += [t / rep] * rep
        tot += t
        n += rep
    return ys


REF = {}


def reference(vals, rep, mean):
    """Population after each epoch of a fit without callbacks."""
    k = (vals, rep, mean)
    if k not in REF:
        if len(REF) > 4000:
            REF.clear()
        y = np.array(series(vals, rep, mean)).reshape(-1, 1)
        X, vd = np.ones_like(y), (np.ones((1, 1)), np.zeros((1, 1)))
        x = xcsf.XCS(max_trials=rep, perf_trials=rep, **(MEAN if mean else STATIC))
        out = []
        for i in range(len(vals)):
            sl = slice(i * rep, (i + 1) * rep)
            x.fit(X[sl], y[sl], shuffle=False, verbose=False, warm_start=i > 0, validation_data=vd)
            out.append(key(pop(x)))
        REF[k] = out
    return REF[k]


class ES:
    def __init__(self, patience, restore, delta, start):
        self.p, self.r, self.d, self.s = patience, restore, delta, start
        self.best, self.bt, self.snap = None, 0, None

    def make(self, monitor):
        return xcsf.EarlyStoppingCallback(monitor=monitor, patience=self.p, restore_best=self.r, min_delta=self.d, start_from=self.s, verbose=False)

    def run(self, err, trial, cur):
        """Returns (stop, population)."""
        if trial < self.s:
            return False, cur
        if self.best is None or err < self.best - self.d:
            self.best, self.bt = err, trial
            if self.r:
                self.snap = cur
        if trial - self.bt > self.p:
            if self.r:
                cur, self.snap = self.snap, None
            return True, cur
        return False, cur

    def finish(self, cur):
        if self.snap is not None:
            cur, self.snap = self.snap, None
        return cur


class CP:
    def __init__(self, best_only, freq):
        self.b, self.f = best_only, freq
        self.best, self.last, self.saves = None, 0, []

    def make(self, monitor):
        self.file = "cp%d.bin" % os.getpid()
        return xcsf.CheckpointCallback(monitor=monitor, filename=self.file, save_best_only=self.b, save_freq=self.f, verbose=False)

    def run(self, err, trial, cur):
        if trial >= self.last + self.f:
            better = self.best is None or err < self.best
            if better or not self.b:
                self.last = trial
                self.saves.append(cur)
            if better:
                self.best = err
        return False, cur

    def finish(self, cur):
        if not self.b:
            self.saves.append(cur)
        return cur


class Watch:
    """Stands in for standard output: the module prints around each epoch and each save, and we look for the file."""

    def __init__(self, fname):
        self.f, self.seen = fname, []

    def look(self):
        if self.f and os.path.exists(self.f):
            z = xcsf.XCS()
            z.load(self.f)
            os.unlink(self.f)
            self.seen.append(key(pop(z)))

    def write(self, s):
        self.look()

    def flush(self):
        pass


def squeeze(l):
    return [v for i, v in enumerate(l) if i == 0 or v != l[i - 1]]


def callback_run(case, st):
    vals, rep, monitor, spec = case
    mean = monitor == "val"
    ref = reference(vals, rep, mean)
    models = [ES(*s[1:]) if s[0] == "es" else CP(*s[1:]) for s in spec]
    cbs = [m.make(monitor) for m in models]
    y = np.array(series(vals, rep, mean)).reshape(-1, 1)
    x = xcsf.XCS(max_trials=rep * len(vals), perf_trials=rep, **(MEAN if mean else STATIC))
    cp = [m for m in models if isinstance(m, CP)]
    w = Watch(cp[0].file if cp else None)
    old, sys.stdout = sys.stdout, w
    try:
        x.fit(np.ones_like(y), y, shuffle=False, verbose=bool(cp), callbacks=cbs, validation_data=(np.ones((1, 1)), np.zeros((1, 1))))
    finally:
        sys.stdout = old
    w.look()
    got = x.get_metrics()
    # the model, on the errors the metrics report
    cur, stop, n = None, False, 0
    for i in range(len(vals)):
        need(len(got["trials"]) > i, "stopped early", "the run ended after %d epochs of %d trials with errors %r, it should have gone on", i, rep, got[monitor])
        err, trial = got[monitor][i], got["trials"][i]
        need(near(err, vals[i]) and trial == (i + 1) * rep, "metrics", "epoch %d: %s error %r at trial %r, expected %r at %r", i, monitor, err, trial, vals[i], (i + 1) * rep)
        cur, n = ref[i], i + 1
        for m in models:
            s, cur = m.run(err, trial, cur)
            stop = stop or s
        st.state(monitor, rep, i, vals[:i + 1], tuple((m.best, m.bt) if isinstance(m, ES) else (m.best, m.last) for m in models))
        if stop:
            break
    need(len(got["trials"]) == n, "ran on", "the run went on for %d epochs of %d trials with errors %r, it should have stopped after %d", len(got["trials"]), rep, got[monitor], n)
    for m in models:
        cur = m.finish(cur)
    k = key(pop(x))
    if k != cur:
        at = [i for i in range(n) if ref[i] == k]
        want = [i for i in range(n) if ref[i] == cur]
        raise Violation("final population", "after errors %r the model is that of epoch %r, expected epoch %r" % (got[monitor], at, want))
    if cp:
        want = squeeze(cp[0].saves)
        have = squeeze(w.seen)
        if want != have:
            ep = lambda l: [[i for i in range(n) if ref[i] == v][:1] for v in l]
            raise Violation("checkpoints", "errors %r: the file was written with the populations of epochs %r, the schedule asks for %r" % (got[monitor], ep(have), ep(want)))
    st.outcome(k, n)


def grid(L, vals, reps, monitors, specs):
    def g():
        for v in itertools.product(vals, repeat=L):
            for r in reps:
                for m in monitors:
                    for s in specs:
                        yield v, r, m, s
    return g


def reject_run(case, st):
    what, kw = case
    try:
        if what == "es":
            xcsf.EarlyStoppingCallback(**kw)
        elif what == "cp":
            xcsf.CheckpointCallback(**kw)
        else:
            x = xcsf.XCS(max_trials=1, perf_trials=1, **STATIC)
            x.fit(np.ones((1, 1)), np.ones((1, 1)), verbose=False, callbacks=[kw])
    except (ValueError, TypeError):
        st.state(what, repr(kw))
        return
    raise Violation("accepted", "%s %r was accepted" % (what, kw))


def make(thorough):
    t = thorough
    out = []
    second = [(0, 0, False)] + [(m, p, w) for m in (1, 3, 4) for p in (1, 2, 5) for w in (False, True)]
    for m in range(1, 13 if t else 9):
        out.append(Scen("epochs-m%d" % m, epochs_cases([m], range(1, 13 if t else 10), range(1, 6 if t else 5), second), epochs_run))
    cfgs = [LEARN, dict(LEARN, prediction={"type": "rls_linear"}), dict(LEARN, condition={"type": "ternary"}, compaction=True),
            dict(LEARN, condition={"type": "hyperrectangle_ubr", "args": {"min": 0, "max": 1, "spread_min": 0.3}}, prediction={"type": "constant"}, set_subsumption=True)]
    for i, c in enumerate(cfgs):
        for sh in (False, True):
            out.append(Scen("split-%d-%s" % (i, "shuffled" if sh else "ordered"),
                            lambda c=c, sh=sh: ((c, m, p, sh, s) for m in range(1, 25 if t else 15) for p in range(1, 12 if t else 8) for s in range(1, 6 if t else 3)), split_run))
    out.append(Scen("shuffle", lambda: ((n, s) for n in range(1, 7) for s in range(1, 20 if t else 8)), shuffle_run))
    L = 6 if t else 5
    # patience, restore, minimum delta, first trial monitored
    for r in (False, True):
        for d in (0.0, 1.0):
            for s in ((0, 1, 2, 3, 4, 7) if t else (0, 2, 3)):
                es = [(("es", p, r, d, s),) for p in (range(0, 7) if t else range(0, 5))]
                out.append(Scen("early-%s-d%g-s%d" % ("restore" if r else "keep", d, s), grid(L, (1.0, 2.0, 3.0), (1, 2), ("train",), es), callback_run))
        es = [(("es", p, r, d, s),) for p in range(0, 4) for d in (0.0, 0.5, 1.5) for s in (0, 3)]
        out.append(Scen("early-val-%s" % ("restore" if r else "keep"), grid(L - 1, (1.0, 2.0, 3.0), (1, 2), ("val",), es), callback_run))
    for b in (False, True):
        for f in range(0, 8 if t else 6):
            out.append(Scen("checkpoint-%s-f%d" % ("best" if b else "all", f), grid(L, (1.0, 2.0, 3.0), (1, 2) if t else (1 + f % 2,), ("train",), [(("cp", b, f),)]), callback_run))
        out.append(Scen("checkpoint-val-%s" % ("best" if b else "all"), grid(4, (1.0, 2.0, 3.0), (1, 2), ("val",), [(("cp", b, f),) for f in (0, 2, 3)]), callback_run))
    for o in (0, 1):
        sp = [tuple([("es", p, r, d, 0), ("cp", b, f)][:: -1 if o else 1]) for p in (0, 1, 2) for r in (False, True) for d in (0.0, 1.0) for b in (False, True) for f in ((0, 1, 2, 3) if t else (0, 2))]
        out.append(Scen("both-%s" % ("cp-es" if o else "es-cp"), grid(L - 1 if t else 4, (1.0, 2.0, 3.0), (1,), ("train",), sp), callback_run))
    sp = [(("es", p, False, d, 0), ("es", q, True, 0.0, s)) for p in (0, 2) for d in (0.0, 1.0) for q in (0, 1, 3) for s in (0, 2)]
    out.append(Scen("two-stoppers", grid(4, (1.0, 2.0, 3.0), (1,), ("train",), sp), callback_run))
    bad = [("es", dict(monitor="x")), ("es", dict(patience=-1)), ("es", dict(min_delta=-0.1)), ("cp", dict(monitor="test")), ("cp", dict(save_freq=-1)), ("fit", 3), ("fit", "es")]
    out.append(Scen("rejects", lambda: iter(bad), reject_run))
    return out


main(make)
