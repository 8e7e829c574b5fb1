"""C22: the Python module hands over exactly the numbers it is given (AddressSanitizer build)."""
import copy, ctypes, gc, itertools, json, os, pickle, shutil, sys
import numpy as np
import xcsf
from pymc import Scen, Violation, flusher, main, need


class Null:
    def write(self, s):
        pass

    def flush(self):
        pass


sys.stdout = Null()


fresh = flusher(xcsf)


def seeded(**cfg):
    fresh()
    return xcsf.XCS(**cfg)


def conf(xd, yd, na, cond=None, pred=None, act=None, **kw):
    c = dict(x_dim=xd, y_dim=yd, n_actions=na, pop_size=12, random_state=7, omp_num_threads=1, pop_init=False, loss_func="mse", theta_del=2, max_trials=6,
             perf_trials=3, condition=cond or {"type": "hyperrectangle_csr", "args": {"min": 0, "max": 1, "spread_min": 0.2}}, action=act or {"type": "integer"},
             prediction=pred or {"type": "nlms_linear"}, ea={"theta_ea": 2, "lambda": 2})
    c.update(kw)
    return c


NET = {"0": {"type": "connected", "activation": "tanh", "n_inputs": 2, "n_init": 3, "n_max": 4, "max_neuron_grow": 1, "evolve_weights": True, "evolve_neurons": True,
             "sgd_weights": True, "eta": 0.1, "momentum": 0},
       "1": {"type": "connected", "activation": "linear", "n_inputs": 3, "n_init": 1, "evolve_weights": True, "sgd_weights": True, "eta": 0.1, "momentum": 0}}
CONFS = {
    "csr-nlms": conf(2, 1, 1),
    "ubr-rls": conf(2, 1, 1, cond={"type": "hyperrectangle_ubr", "args": {"min": 0, "max": 1, "spread_min": 0.2}}, pred={"type": "rls_quadratic"}),
    "ternary-const": conf(2, 1, 1, cond={"type": "ternary", "args": {"bits": 2}}, pred={"type": "constant"}),
    "ellipsoid-nlmsq": conf(2, 2, 1, cond={"type": "hyperellipsoid"}, pred={"type": "nlms_quadratic"}),
    "gp-nlms": conf(2, 1, 1, cond={"type": "tree_gp", "args": {"min_constant": 0, "max_constant": 1, "n_constants": 4, "init_depth": 3, "max_len": 60}}),
    "dgp-rls": conf(3, 2, 1, cond={"type": "dgp", "args": {"max_k": 2, "max_t": 4, "n": 5, "evolve_cycles": True}}, pred={"type": "rls_linear"}),
    "dummy-neural": conf(2, 1, 1, cond={"type": "dummy"}, pred={"type": "neural", "args": NET}),
    "multi-action": conf(3, 1, 3),
    "wide": conf(4, 3, 1),
    "one": conf(1, 1, 1),
}


def grid(n, d, k):
    """n x d multiples of 1/8 in [0, 1], all exactly representable in single precision."""
    return np.array([[((i * 5 + j * 3 + k * 7 + i * j) % 9) / 8.0 for j in range(d)] for i in range(n)])


def snap(x):
    return (x.json(), json.dumps(x.internal_params(), sort_keys=True), json.dumps({k: list(v) for k, v in x.get_metrics().items()}), x.time(), x.error(),
            x.pset_size(), x.pset_num(), x.mset_size(), x.aset_size(), x.mfrac())


NAMES = ("population", "parameters", "metrics", "time", "error", "rules", "numerosity", "match set size", "action set size", "fraction")


def same(a, b, key, what):
    for n, p, q in zip(NAMES, a, b):
        if p != q:
            i = 0
            if isinstance(p, str):
                i = next((i for i in range(min(len(p), len(q))) if p[i] != q[i]), 0)
                i = max(0, i - 30)
                raise Violation(key, "%s: %s differs: ...%s... and ...%s..." % (what, n, p[i:i + 90], q[i:i + 90]))
            raise Violation(key, "%s: %s differs: %r and %r" % (what, n, p, q))


def eq(a, b, key, what):
    a, b = np.asarray(a), np.asarray(b)
    need(a.shape == b.shape and (a == b).all(), key, "%s: %r and %r", what, a.tolist()[:3], b.tolist()[:3])


# ------------------------------------------------------------ representations
def unaligned(m):
    raw = np.zeros(m.nbytes + 1, dtype=np.uint8)
    v = raw[1:].view(np.float64) if False else np.frombuffer(raw.data, dtype=np.float64, count=m.size, offset=1).reshape(m.shape)
    v[...] = m
    return v


def readonly(m):
    c = m.copy()
    c.setflags(write=False)
    return c


def rows(m):
    b = np.full((2 * m.shape[0],) + m.shape[1:], 77.0)
    b[::2] = m
    return b[::2]


def last(m):
    b = np.full(m.shape[:-1] + (3 * m.shape[-1],), 77.0)
    b[..., 1::3] = m
    return b[..., 1::3]


def back(m):
    return m[::-1].copy()[::-1]


def inner(m):
    b = np.full(tuple(s + 2 for s in m.shape), 77.0)
    v = b[tuple(slice(1, -1) for _ in m.shape)]
    v[...] = m
    return v


REPS = {
    "copy": lambda m: m.copy(), "fortran": lambda m: np.asfortranarray(m), "transposed": lambda m: m.T.copy().T, "rows": rows, "columns": last, "backwards": back,
    "window": inner, "float32": lambda m: m.astype(np.float32), "float16": lambda m: m.astype(np.float16), "bigendian": lambda m: m.astype(">f8"),
    "f32fortran": lambda m: np.asfortranarray(m.astype(np.float32)), "list": lambda m: m.tolist(), "tuple": lambda m: tuple(map(tuple, m)) if m.ndim > 1 else tuple(m),
    "readonly": readonly, "unaligned": unaligned, "subclass": lambda m: np.ma.MaskedArray(m.copy()), "arrays": lambda m: [r.copy() for r in m] if m.ndim > 1 else m.tolist(),
}


def churn():
    """Reuse memory that was let go."""
    gc.collect()
    return [np.full(n, 99.0) for n in (2, 3, 4, 8, 16, 64, 320, 640)]


def supervised(cfg, rx, ry, rvx, rvy, rp, n, nv):
    """A supervised session with each argument in the representation given."""
    xd, yd = cfg["x_dim"], cfg["y_dim"]
    X, Y, VX, VY, T = grid(n, xd, 1), grid(n, yd, 2), grid(nv, xd, 3), grid(nv, yd, 4), grid(9, xd, 5)
    x = seeded(**cfg)
    x.fit(rx(X), ry(Y), shuffle=False, verbose=False, validation_data=(rvx(VX), rvy(VY)))
    churn()
    s1 = snap(x)
    p = x.predict(rp(T), cover=[0.5] * yd)
    fresh()
    x.set_params(random_state=3)
    sc = x.score(rx(X), ry(Y)), x.score(rvx(VX), rvy(VY), cover=np.full(yd, 0.25)), x.score(rx(X), ry(Y), N=3)
    x.fit(rx(X), ry(Y), shuffle=True, verbose=False, warm_start=True)
    return s1, p, sc, snap(x)


def layout_run(case, st):
    name, which, rep, n, nv = case
    cfg, r = CONFS[name], REPS[rep]
    i = lambda m: m
    ref = supervised(cfg, i, i, i, i, i, n, nv)
    got = supervised(cfg, *[r if j == which or which == 5 else i for j in range(5)], n, nv)
    what = "%s passed as %s" % (("X", "y", "validation X", "validation y", "X of predict", "everything")[which], rep)
    same(ref[0], got[0], "fit", what)
    eq(ref[1], got[1], "predict", what)
    eq(ref[2], got[2], "score", what)
    same(ref[3], got[3], "warm fit", what)
    st.state(ref[3][0])
    st.state(name, which, rep, n)
    st.outcome(ref[3][0])


def flat_run(case, st):
    """1-D arrays stand for one column."""
    rep, = case
    cfg, r = CONFS["one"], REPS[rep]
    i = lambda m: m
    ref = supervised(cfg, i, i, i, i, i, 10, 5)
    f = lambda m: r(m.ravel())
    got = supervised(cfg, f, f, f, f, f, 10, 5)
    same(ref[0], got[0], "fit", "1-D %s" % rep)
    eq(ref[1], got[1], "predict", "1-D %s" % rep)
    eq(ref[2], got[2], "score", "1-D %s" % rep)
    same(ref[3], got[3], "warm fit", "1-D %s" % rep)
    st.state(rep)


# ------------------------------------------------------------ reinforcement
def rl(cfg, steps, rep, after):
    """Two-step trials; rep makes each state's representation, after is called with it once the call returned."""
    xd = cfg["x_dim"]
    x = seeded(**cfg)
    out = []
    for t, (explore, reward, extra) in enumerate(steps):
        x.init_trial()
        for k in range(2):
            x.init_step()
            s = rep(grid(1, xd, 3 * t + k)[0])
            out.append(x.decision(s, explore))
            after(s)
            s = None
            keep = churn()
            x.update(reward, k == 1)
            out.append(x.error(reward, k == 1, 1.0))
            del keep
            x.end_step()
        x.end_trial()
        if extra:
            s = rep(grid(1, xd, 40 + t)[0])
            out.append(x.fit(s, t % cfg["n_actions"], reward))
            after(s)
    return out, snap(x)


def spoil(s):
    if isinstance(s, list):
        s[:] = [55.0] * len(s)
    elif isinstance(s, np.ndarray) and s.flags.writeable:
        s[...] = 55


def rl_run(case, st):
    name, steps, rep, sp = case
    cfg = CONFS[name]
    ref = rl(cfg, steps, lambda m: m, lambda s: None)
    got = rl(cfg, steps, REPS[rep], spoil if sp else lambda s: None)
    what = "states passed as %s%s" % (rep, ", overwritten after the call" if sp else "")
    need(ref[0] == got[0], "answers", "%s: actions and errors %r, expected %r", what, got[0], ref[0])
    same(ref[1], got[1], "learning", what)
    st.state(ref[1][0])
    st.outcome(ref[1][0])


# ------------------------------------------------------------ sampled scores
def score_run(case, st):
    """The score over N of the rows is a mean of N of their errors; N = 0 and N beyond the rows use each once."""
    ns, n, seed = case
    cfg = conf(1, 1, 1, cond={"type": "dummy"}, pred={"type": "constant"}, loss_func="mae", max_trials=1, perf_trials=1)
    x = seeded(**cfg)
    x.fit(np.ones((1, 1)), np.zeros((1, 1)), shuffle=False, verbose=False)
    p = float(x.predict(np.ones((1, 1)))[0, 0])
    errs = [float(3 ** i) for i in range(ns)]
    y = np.array(errs).reshape(-1, 1) + p
    x.set_params(random_state=seed)
    got = x.score(np.ones((ns, 1)), y, N=n)
    if n == 0 or n > ns:
        need(abs(got - sum(errs) / ns) < 1e-9, "score", "score of all %d rows (N=%d) is %r, the mean error is %r", ns, n, got, sum(errs) / ns)
    else:
        sums = {sum(c) for c in itertools.combinations_with_replacement(errs, n)}
        need(min(abs(got * n - s) for s in sums) < 1e-9, "score", "score of %d of %d rows is %r, not a mean of %d of their errors", n, ns, got, n)
    st.state(ns, n, got)
    st.outcome(ns, n, got)


# ------------------------------------------------------------ shapes
def shapes(ok, n):
    """Shapes around (n, ok)."""
    d = sorted({0, 1, ok - 1, ok, ok + 1, ok * 2} - {-1})
    out = [(), (0,), (n,), (ok,), (n * ok,), (1, n, ok), (n, ok, 1)]
    for r in (0, 1, n, n + 1):
        out += [(r, c) for c in d]
    return sorted(set(out))


def fits(s, dim):
    return len(s) in (1, 2) and s[0] > 0 and (s[1] if len(s) == 2 else 1) == dim


def fill(s):
    return (np.arange(int(np.prod(s)), dtype=float).reshape(s) % 8) / 8.0


def shape_run(case, st):
    name, op, sx, sy = case
    cfg = CONFS[name]
    xd, yd = cfg["x_dim"], cfg["y_dim"]
    x = seeded(**cfg)
    x.fit(grid(6, xd, 1), grid(6, yd, 2), shuffle=False, verbose=False)
    before = snap(x)
    pred = x.predict(grid(5, xd, 6))
    before = snap(x)
    A = fill(sx)
    B = fill(sy) if sy is not None else None
    legal, mustfail = False, True
    if op in ("fit", "warm", "score", "validation", "warm validation"):
        legal = fits(sx, xd) and fits(sy, yd) and sx[0] == sy[0]
        if op == "score" and len(sx) and len(sy) and sx[0] == 0 == sy[0]:
            mustfail = False
    elif op == "predict":
        legal = fits(sx, xd)
        mustfail = not (len(sx) == 2 and sx == (0, xd)) and not (xd == 1 and sx == (0,))
    elif op in ("decision", "rlfit"):
        legal = sx == (xd,)
    elif op == "cover":
        legal = sx == (yd,)
    try:
        if op in ("fit", "warm"):
            x.fit(A, B, shuffle=False, verbose=False, warm_start=op == "warm")
        elif op == "score":
            need(np.isfinite(x.score(A, B)) or not mustfail, "score", "not a number")
        elif op in ("validation", "warm validation"):
            x.fit(grid(3, xd, 1), grid(3, yd, 2), shuffle=False, verbose=False, validation_data=(A, B), warm_start=op[0] == "w")
        elif op == "predict":
            p = x.predict(A)
            need(p.shape == (sx[0], yd * cfg["n_actions"]) if len(sx) else True, "shape", "predict of %r gives shape %r", sx, p.shape)
        elif op == "decision":
            x.init_trial()
            x.init_step()
            a = x.decision(A, False)
            need(0 <= a < cfg["n_actions"], "action", "%d", a)
        elif op == "rlfit":
            x.fit(A, 0, 1.0)
        elif op == "cover":
            x.predict(grid(2, xd, 1), cover=A)
    except (ValueError, TypeError, RuntimeError, IndexError) as e:
        need(not legal, "rejected", "%s with shapes %r %r was rejected: %s", op, sx, sy, str(e).strip())
        same(before, snap(x), "state", "%s rejected shapes %r %r (%s) but changed the model" % (op, sx, sy, str(e).strip()))
        eq(x.predict(grid(5, xd, 6)), pred, "state", "predictions after %s rejected shapes %r %r" % (op, sx, sy))
        st.state(name, op, sx, sy)
        return
    need(legal or not mustfail, "accepted", "%s took shapes %r %r for a model with %d inputs and %d outputs", op, sx, sy, xd, yd)
    st.state(name, op, sx, sy, 1)


def shape_cases(name, op):
    cfg = CONFS[name]

    def g():
        if op in ("fit", "warm", "score", "validation", "warm validation"):
            for sx in shapes(cfg["x_dim"], 4):
                for sy in shapes(cfg["y_dim"], 4):
                    if fits(sx, cfg["x_dim"]) or fits(sy, cfg["y_dim"]) or len(sx) != 2 or len(sy) != 2:
                        yield name, op, sx, sy
        elif op == "cover":
            for s in shapes(cfg["y_dim"], 1):
                yield name, op, s, None
        else:
            for s in shapes(cfg["x_dim"], 4):
                yield name, op, s, None
    return g


def arg_run(case, st):
    """Calls that are wrong for other reasons."""
    cfg = CONFS["multi-action"]
    x = seeded(**cfg)
    for i in range(3):
        x.fit(grid(1, 3, i)[0], i, 1.0)
    before = snap(x)
    X, y = grid(3, 3, 1), grid(3, 1, 1)
    calls = [lambda: x.fit(X[0], 3, 1.0), lambda: x.fit(X[0], -1, 1.0), lambda: x.fit(X, y, verbose=False, validation_data=(X,)),
             lambda: x.fit(X, y, verbose=False, validation_data=(X, y, y)), lambda: x.fit(X, y, verbose=False, validation_data=()),
             lambda: x.fit("a", "b"), lambda: x.predict("a"), lambda: x.predict(None), lambda: x.score(X, "a"), lambda: x.decision("a", True),
             lambda: x.fit([[1, 2, 3], [1, 2]], y), lambda: x.predict(X, cover="a"), lambda: x.predict(X, cover=[[1.0]]), lambda: x.predict(X, cover=[]),
             lambda: x.score(X, y, cover=[1.0, 2.0])]
    try:
        calls[case]()
    except (ValueError, TypeError, RuntimeError):
        same(before, snap(x), "state", "wrong call %d changed the model" % case)
        st.state(case)
        return
    raise Violation("accepted", "wrong call %d was accepted" % case)


# ------------------------------------------------------------ copies
def trained(name):
    cfg = CONFS[name]
    x = seeded(**cfg)
    if cfg["n_actions"] > 1:
        for i in range(8):
            x.fit(grid(1, cfg["x_dim"], i)[0], i % cfg["n_actions"], i % 2)
    else:
        x.fit(grid(6, cfg["x_dim"], 1), grid(6, cfg["y_dim"], 2), shuffle=False, verbose=False)
    return x


def viafile(x):
    x.save("model.bin")
    z = xcsf.XCS()
    z.load("model.bin")
    os.unlink("model.bin")
    return z


def viaother(x):
    """Load into an object of another kind that was in use."""
    x.save("model.bin")
    z = trained("wide")
    z.load("model.bin")
    os.unlink("model.bin")
    return z


WAYS = {"pickle": lambda x: pickle.loads(pickle.dumps(x)), "pickle2": lambda x: pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(x, 2)), 4)), "deepcopy": copy.deepcopy,
        "copy": copy.copy, "file": viafile, "other": viaother, "list": lambda x: pickle.loads(pickle.dumps([x, xcsf.XCS(), x]))[2]}


def answers(x, cfg):
    if cfg["n_actions"] > 1:
        x.init_trial()
        x.init_step()
        return [x.decision(grid(1, cfg["x_dim"], i)[0], False) for i in range(6)] + x.predict(grid(7, cfg["x_dim"], 9)).tolist()
    return x.predict(grid(7, cfg["x_dim"], 9)).tolist()


def learn_on(x, cfg):
    fresh()
    x.set_params(random_state=11)
    if cfg["n_actions"] > 1:
        for i in range(5):
            x.fit(grid(1, cfg["x_dim"], 3 * i)[0], (i + 1) % cfg["n_actions"], i % 2)
    else:
        x.fit(grid(6, cfg["x_dim"], 3), grid(6, cfg["y_dim"], 5), shuffle=True, verbose=False, warm_start=True)


def copy_run(case, st):
    name, way, drop, decoy = case
    cfg = CONFS[name]
    x = trained(name)
    here = os.getcwd()
    os.makedirs("d", exist_ok=True)
    os.chdir("d")
    try:
        for f in ("_tmp_pickle.bin", "xcsf.bin", "notes"):
            open(f, "w").write("mine")
        y = WAYS[way](x)
        left = sorted(os.listdir("."))
        need(left == ["_tmp_pickle.bin", "notes", "xcsf.bin"] and all(open(f).read() == "mine" for f in left), "files", "%s left the working directory with %r", way, left)
    finally:
        os.chdir(here)
        shutil.rmtree("d")
    need(isinstance(y, xcsf.XCS) and y is not x, "object", "%s gives %r", way, type(y))
    need(json.dumps(x.internal_params(), sort_keys=True) == json.dumps(y.internal_params(), sort_keys=True), "parameters", "%s: parameters differ", way)
    need(xcsf.XCS(**y.get_params()).internal_params() == x.internal_params(), "parameters", "%s: an object made from get_params() has other parameters", way)
    need(x.json() == y.json(), "population", "%s: populations differ", way)
    need(x.time() == y.time() and x.pset_num() == y.pset_num(), "population", "%s: time or numerosity differ", way)
    before = snap(x)
    ref = answers(x, cfg)
    if drop:
        # the copy lives on its own: the original goes first
        z = trained(name)
        need(z.json() == before[0], "population", "training twice gives two populations")
        answers(z, cfg)
        learn_on(z, cfg)
        ref2 = z.json()
        del x
        keep = churn()
        need(answers(y, cfg) == ref, "predictions", "%s: predictions differ from the original's", way)
        learn_on(y, cfg)
    else:
        need(answers(y, cfg) == ref, "predictions", "%s: predictions differ from the original's", way)
        learn_on(x, cfg)
        ref2 = x.json()
        learn_on(y, cfg)
    need(y.json() == ref2, "learning", "%s: after the same further learning the copy differs from the original", way)
    st.state(name, ref2)
    st.outcome(ref2)


# ------------------------------------------------------------ objects side by side
class Obj:
    """Operations on one object; each learning operation seeds the generator, so its effect depends on the object alone."""

    def __init__(self, name):
        self.cfg, self.log = CONFS[name], []
        self.x = seeded(**self.cfg)
        self.k = 0

    def do(self, op):
        x, c, i = self.x, self.cfg, self.k
        self.k += 1
        xd, yd = c["x_dim"], c["y_dim"]
        if op == "fit":
            fresh()
            x.set_params(random_state=20 + i)
            x.fit(grid(5, xd, i), grid(5, yd, i + 1), shuffle=True, verbose=False)
        elif op == "warm":
            fresh()
            x.set_params(random_state=20 + i)
            x.fit(grid(5, xd, i), grid(5, yd, i + 1), shuffle=True, verbose=False, warm_start=True, validation_data=(grid(3, xd, 2).tolist(), grid(3, yd, 2).tolist()))
        elif op == "predict":
            self.log.append(x.predict(grid(4, xd, i), cover=[0.5] * yd).tolist())
        elif op == "score":
            self.log.append(x.score(grid(4, xd, i), grid(4, yd, i)))
        elif op == "store":
            x.store()
        elif op == "retrieve":
            x.retrieve()
        elif op == "renew":
            self.x = pickle.loads(pickle.dumps(x))
        elif op == "params":
            x.set_params(beta=0.2 + 0.01 * i, e0=0.001)
        self.log.append(snap(self.x))


def solo(name, ops):
    o = Obj(name)
    for p in ops:
        o.do(p)
    return o.log


def side_run(case, st):
    na, nb, a, b, pattern = case
    ra, rb = solo(na, a), solo(nb, b)
    oa, ob = Obj(na), Obj(nb)
    ia, ib = iter(a), iter(b)
    for w in pattern:
        if w:
            oa.do(next(ia))
        else:
            ob.do(next(ib))
    need(oa.log == ra, "independence", "an object of kind %s behaves differently next to another", na)
    need(ob.log == rb, "independence", "an object of kind %s behaves differently next to another", nb)
    for l in ra + rb:
        st.state(str(l)[:4000])
    st.outcome(str(ra[-1]), str(rb[-1]))


def side_cases(na, nb, opsa, opsb, n):
    def g():
        for a in itertools.product(opsa, repeat=n):
            for b in itertools.product(opsb, repeat=n):
                for p in sorted(set(itertools.permutations([1] * n + [0] * n))):
                    yield na, nb, ("fit",) + a, ("fit",) + b, (1, 0) + p
    return g


# ------------------------------------------------------------ memory
try:
    allocated = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    allocated.restype = ctypes.c_size_t
except AttributeError:
    allocated = None


def leak_run(case, st):
    name, op = case
    cfg = dict(CONFS[name], pop_size=60, max_trials=60, perf_trials=60)
    xd, yd = cfg["x_dim"], cfg["y_dim"]
    X, Y, T = grid(30, xd, 1), grid(30, yd, 2), grid(600, xd, 3)
    x = seeded(**cfg)
    x.fit(X, Y, shuffle=False, verbose=False) if cfg["n_actions"] == 1 else [x.fit(X[i], i % 3, 1.0) for i in range(20)]
    ops = {
        "object": lambda: xcsf.XCS(**dict(cfg, pop_init=True)), "predict": lambda: x.predict(T), "json": lambda: x.json(), "score": lambda: x.score(X, Y),
        "pickle": lambda: pickle.loads(pickle.dumps(x)), "store": lambda: x.store(), "cycle": lambda: (x.store(), x.retrieve()),
        "load": lambda: (x.save("l.bin"), x.load("l.bin")), "params": lambda: (x.get_params(), x.internal_params(), x.set_params(**cfg)),
        "refit": lambda: (fresh(), x.set_params(random_state=5), x.fit(X, Y, shuffle=False, verbose=False)), "roundtrip": lambda: (lambda j: (x.json_read(j)))("p.json") if os.path.exists("p.json") else x.json_write("p.json"),
        "rl": lambda: (x.init_trial(), x.init_step(), x.decision(X[0], False), x.update(1.0, True), x.end_step(), x.end_trial()),
        "rejected": lambda: [reject(lambda: x.fit(X[:, :1] if xd > 1 else np.ones((3, 5)), Y)), reject(lambda: x.predict(np.ones((50, xd + 1))))],
    }
    f = ops[op]
    for _ in range(4):
        f()
    gc.collect()
    a = allocated()
    n = 12
    for _ in range(n):
        f()
    gc.collect()
    grown = (allocated() - a) / n
    if op == "rl":  # rules may still be added
        a = allocated()
        for _ in range(n):
            f()
        gc.collect()
        grown = (allocated() - a) / n
    if op == "roundtrip":
        return
    st.log("bytes kept per call: %.1f" % grown)
    need(grown < 700, "leak", "%s (%s): each call keeps %.0f more bytes", op, name, grown)
    st.state(name, op)


def reject(f):
    try:
        f()
    except ValueError:
        return
    raise Violation("accepted", "wrong shape accepted")


# ------------------------------------------------------------ parameters
def param_run(case, st):
    name, = case
    cfg = CONFS[name]
    x = seeded(**cfg)
    g = x.get_params()
    for k in cfg:
        need(g[k] == cfg[k], "get_params", "%s was set to %r, get_params() says %r", k, cfg[k], g[k])
    p = x.internal_params()
    for k in cfg:
        if not isinstance(cfg[k], dict):
            need(p[k] == cfg[k], "internal_params", "%s was set to %r, the model uses %r", k, cfg[k], p[k])
        else:
            for a, b in cfg[k].items():
                if not isinstance(b, dict):
                    need(p.get(k, {}).get(a) == b or (k == "action"), "internal_params", "%s/%s was set to %r, the model uses %r", k, a, b, p.get(k))
    z = xcsf.XCS(**g)
    need(z.internal_params() == p, "clone", "an object made from get_params() has other parameters")
    z = xcsf.XCS(**p)
    need(z.internal_params() == p, "clone", "an object made from internal_params() has other parameters")
    z = xcsf.XCS(x_dim=cfg["x_dim"], y_dim=cfg["y_dim"], n_actions=cfg["n_actions"]).set_params(**cfg)
    need(z.internal_params() == p, "set_params", "set_params() after construction differs from construction")
    for v in (None, 5):
        z.set_params(random_state=v)
        need(z.get_params()["random_state"] == v, "random_state", "set to %r, reads %r", v, z.get_params()["random_state"])
    st.state(name, json.dumps(p))


def make(thorough):
    t = thorough
    out = []
    for n in CONFS:
        sizes = [(6, 4), (200, 170)] if t or n in ("csr-nlms", "wide") else [(200, 170)]
        whichs = range(6) if t or n in ("csr-nlms", "wide", "ellipsoid-nlmsq") else (5,)
        if CONFS[n]["n_actions"] == 1:
            out.append(Scen("layout-" + n, lambda n=n, s=sizes, w=whichs: ((n, k, r, a, b) for k in w for r in REPS for a, b in s), layout_run))
    out.append(Scen("layout-flat", lambda: ((r,) for r in REPS), flat_run))
    for ex in (True, False):
        steps = [[(ex, r, e), (e2, 1.0 - r, True)] for r in (0.0, 1.0) for e in (False, True) for e2 in (False, True)]
        for n in (("multi-action", "csr-nlms", "one", "wide") if t else ("multi-action", "csr-nlms")):
            if CONFS[n]["y_dim"] == 1:
                out.append(Scen("rl-%s-%d" % (n, ex), lambda n=n, s=steps: ((n, tuple(q), r, sp) for q in s for r in REPS for sp in (False, True)), rl_run))
    for n in ("one", "csr-nlms", "wide", "multi-action", "ellipsoid-nlmsq", "dgp-rls"):
        for op in ("fit", "warm", "score", "validation", "warm validation", "predict", "decision", "rlfit", "cover"):
            ya = CONFS[n]["n_actions"] > 1
            if ya and op not in ("predict", "decision", "rlfit", "cover"):
                continue
            if CONFS[n]["y_dim"] > 1 and op in ("decision", "rlfit"):
                continue
            if not t and n in ("ellipsoid-nlmsq", "dgp-rls") and op not in ("fit", "predict", "validation"):
                continue
            out.append(Scen("shape-%s-%s" % (n, op.replace(" ", "-")), shape_cases(n, op), shape_run))
    out.append(Scen("score", lambda: ((a, b, c) for a in range(1, 6) for b in range(0, 8) for c in range(1, 12 if t else 6)), score_run))
    out.append(Scen("arguments", lambda: iter(range(15)), arg_run))
    for n in CONFS:
        out.append(Scen("copy-" + n, lambda n=n: ((n, w, d, True) for w in WAYS for d in (False, True)), copy_run))
    ops = ("warm", "predict", "store", "retrieve", "renew", "params", "score", "fit")
    pairs = [("csr-nlms", "wide"), ("csr-nlms", "csr-nlms"), ("gp-nlms", "ubr-rls"), ("dummy-neural", "dgp-rls"), ("ternary-const", "ellipsoid-nlmsq")]
    for a, b in pairs:
        out.append(Scen("side-%s-%s" % (a, b), side_cases(a, b, ops if t else ops[:6], ops if t else ("warm", "store", "retrieve", "renew"), 1), side_run))
        o = ("warm", "store", "retrieve", "renew") if t else ("warm", "retrieve")
        out.append(Scen("side2-%s-%s" % (a, b), side_cases(a, b, o, ("warm", "renew") if t else ("warm",), 2), side_run))
    for n in CONFS:
        for op in ("object", "predict", "json", "score", "pickle", "store", "cycle", "load", "params", "refit", "rl", "rejected"):
            if CONFS[n]["n_actions"] > 1 and op in ("score", "refit"):
                continue
            if CONFS[n]["y_dim"] > 1 and op == "rl":
                continue
            out.append(Scen("leak-%s-%s" % (n, op), lambda n=n, op=op: iter([(n, op)]), leak_run))
    out.append(Scen("parameters", lambda: ((n,) for n in CONFS), param_run))
    return out


main(make)
