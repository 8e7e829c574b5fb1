"""Exhaustive enumeration of cases against the Python module: one worker process per scenario, every case of a
scenario run and checked, crashes and hangs attributed to the case that was running, failures confirmed by a second run."""
import argparse, ctypes, json, mmap, os, signal, struct, sys, time, traceback


class Violation(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, "[%s] %s" % (key, msg))
        self.key, self.msg = key, msg


def need(cond, key, msg, *a):
    if not cond:
        raise Violation(key, msg % a if a else msg)


def flusher(xcsf):
    """Use up the normal deviate that the generator keeps across seeding (known finding of C20): afterwards seeded runs start alike."""
    try:
        lib = ctypes.CDLL(xcsf.xcsf.__file__)
        lib.rand_normal.restype = ctypes.c_double
        lib.rand_normal.argtypes = [ctypes.c_double, ctypes.c_double]
        lib.rand_init_seed.argtypes = [ctypes.c_uint32]
    except AttributeError:
        return lambda: None

    def fresh():
        v = []
        for _ in range(3):
            lib.rand_init_seed(1234)
            v.append(lib.rand_normal(0.0, 1.0))
        if v[0] == v[2]:
            lib.rand_normal(0.0, 1.0)
    return fresh


class Stats:
    def __init__(self):
        self.states, self.outcomes = set(), set()
        self.transitions = self.validated = self.points = self.maxpoints = 0
        self.trace, self.samples = [], []

    def log(self, s):
        self.trace.append(s)

    def state(self, *k):
        """One observed state of the implementation."""
        self.states.add(hash(k))
        self.transitions += 1

    def outcome(self, *k):
        self.outcomes.add(hash(k))


class Scen:
    def __init__(self, name, cases, run, limit=120):
        self.name, self.cases, self.run, self.limit = name, cases, run, limit


def run_cases(sc, only, shm, capture_fd):
    st = Stats()
    n = 0
    for i, case in enumerate(sc.cases()):
        if only is not None and i != only:
            continue
        shm[0:8] = struct.pack("q", i)
        st.trace = ["case %d: %r" % (i, case)]
        p0 = st.transitions
        try:
            sc.run(case, st)
        except Violation as v:
            return st, n, dict(case=i, key=v.key, msg="%s; case %r" % (v.msg, case), log="\n".join(st.trace))
        except Exception:
            return st, n, dict(case=i, key="exception", msg="unexpected exception: %s; case %r" % (traceback.format_exc().strip().splitlines()[-1], case),
                               log="\n".join(st.trace) + "\n" + traceback.format_exc())
        n += 1
        st.validated += 1
        st.maxpoints = max(st.maxpoints, st.transitions - p0)
        if len(st.samples) < 2:
            st.samples.append("\n".join(st.trace)[:1500])
    return st, n, None


def child(sc, only, shm, outf):
    """In the worker: explore, write the result, leave without running exit handlers."""
    err = os.open(outf + ".err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(err, 2)
    os.dup2(err, 1)
    work = outf + ".d"
    os.makedirs(work, exist_ok=True)
    os.chdir(work)
    st, n, bad = run_cases(sc, only, shm, err)
    r = dict(executions=n, states=len(st.states), transitions=st.transitions, outcomes=len(st.outcomes), validated=st.validated,
             max_points=st.maxpoints, samples=st.samples, bad=bad)
    with open(outf, "w") as f:
        json.dump(r, f)
    sys.stdout.flush()
    os._exit(0)


def spawn(sc, only, d, tag):
    shm = mmap.mmap(-1, 64)
    shm[0:8] = struct.pack("q", -1)
    outf = os.path.join(d, "py.%s" % tag)
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            child(sc, only, shm, outf)
        finally:
            os._exit(3)
    return pid, shm, outf


def result(sc, status, shm, outf, killed):
    case = struct.unpack_from("q", shm, 0)[0]
    err = ""
    if os.path.exists(outf + ".err"):
        err = open(outf + ".err", errors="replace").read()
    if killed:
        return dict(bad=dict(case=case, key="hang", msg="no end after %d s; case %d" % (sc.limit, case), log=""), stderr=err[-3000:])
    if status == 0 and os.path.exists(outf):
        r = json.load(open(outf))
        r["stderr"] = err[-3000:]
        return r
    what = "signal %d" % os.WTERMSIG(status) if os.WIFSIGNALED(status) else "exit status %d" % os.WEXITSTATUS(status)
    i = err.find("ERROR: AddressSanitizer")
    line = err[i:].splitlines()[0] if i >= 0 else (err.strip().splitlines() or [""])[-1]
    return dict(bad=dict(case=case, key="crash", msg="the process died (%s) in case %d: %s" % (what, case, line[:300]), log=""), stderr=err[max(0, i):][:4000])


class Clock:
    """Time since the running case last changed."""

    def __init__(self):
        self.case, self.t = None, time.time()

    def late(self, shm, limit):
        c = struct.unpack_from("q", shm, 0)[0]
        if c != self.case:
            self.case, self.t = c, time.time()
        return time.time() - self.t > limit


def run_one(sc, only, d, tag):
    pid, shm, outf = spawn(sc, only, d, tag)
    clock = Clock()
    while True:
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            return result(sc, status, shm, outf, False)
        if clock.late(shm, sc.limit):
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return result(sc, 0, shm, outf, True)
        time.sleep(0.02)


def main(make):
    ap = argparse.ArgumentParser()
    ap.add_argument("--out")
    ap.add_argument("--dir", default=".")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("--replay")
    a = ap.parse_args()
    scs = make(a.thorough)
    if a.replay:
        t = open(a.replay).read().splitlines()
        f = {l.split(": ", 1)[0]: l.split(": ", 1)[1] for l in t[:8] if ": " in l}
        sc = [s for s in scs if s.name == f["scenario"]][0]
        r = run_one(sc, int(f["path"].split()[0]), a.dir, "replay")
        bad = r.get("bad")
        print(("[%s] %s\n%s\n%s" % (bad["key"], bad["msg"], bad["log"], r["stderr"])) if bad else "the case passes")
        sys.exit(1 if bad else 0)
    if a.only:
        scs = [s for s in scs if a.only in s.name]
    todo, live, res = list(enumerate(scs))[::-1], {}, {}
    begin, failed = time.time(), 0
    while todo or live:
        # a broken tree is reported, not mapped: enough failures (or time) end the exploration
        if failed >= 16 or (not a.thorough and time.time() - begin > 480):
            todo = []
        while todo and len(live) < a.jobs:
            i, sc = todo.pop()
            live[i] = spawn(sc, None, a.dir, "s%d" % i) + (time.time(), Clock())
        time.sleep(0.01)
        for i in list(live):
            pid, shm, outf, t0, clock = live[i]
            p, status = os.waitpid(pid, os.WNOHANG)
            if p:
                res[i] = result(scs[i], status, shm, outf, False)
            elif clock.late(shm, scs[i].limit):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                res[i] = result(scs[i], 0, shm, outf, True)
            else:
                continue
            failed += bool(res[i].get("bad"))
            res[i]["secs"] = round(time.time() - t0, 2)
            del live[i]
    out, rc = [], 0
    begin, good = time.time(), 0
    for i, sc in enumerate(scs):
        if i not in res:
            continue
        r = res[i]
        bad = r.get("bad")
        e = dict(name=sc.name, verdict="ok", key="", msg="", executions=r.get("executions", 0), transitions=r.get("transitions", 0),
                 states=r.get("states", 0), outcomes=r.get("outcomes", 0), validated=r.get("validated", 0), points=r.get("transitions", 0),
                 max_points=r.get("max_points", 0), max_draws=0, bound=0, bound_done=0, capped=0, secs=r["secs"], sample=r.get("samples", []))
        if bad:
            rc = 1
            if good >= 12 or (good >= 3 and time.time() - begin > 60):
                e.update(verdict="unconfirmed", key=bad["key"], msg=bad["msg"], log=bad["log"], path=[bad["case"]], stderr=r["stderr"])
                out.append(e)
                continue
            again = run_one(sc, bad["case"], a.dir, "again%d" % i).get("bad")
            if not again:  # only after the cases before it
                again = run_one(sc, None, a.dir, "again%d" % i).get("bad")
            good += bool(again)
            e.update(verdict="violation" if again else "unreproduced", key=bad["key"], msg=bad["msg"], log=bad["log"], path=[bad["case"]], stderr=r["stderr"])
        out.append(e)
    if len(res) < len(scs):
        out.append(dict(name="(%d scenarios not started)" % (len(scs) - len(res)), verdict="ok", key="", msg="", executions=0, transitions=0, states=0, outcomes=0,
                        validated=0, points=0, max_points=0, max_draws=0, bound=0, bound_done=0, capped=1, secs=0, sample=[]))
    json.dump(dict(scenarios=out), open(a.out, "w"))
    sys.exit(rc)
