#!/usr/bin/env python3
"""run.py <property> [quick|thorough]   decide one property on /repo's working tree
   run.py setup                         check that the tools the checks need are there
   run.py replay <file>                 run one recorded violation again
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: the check itself failed."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("XCSF_REPO", "/repo")
LIB = "/opt/vp/cmake/lib"
JOBS = max(1, min(8, os.cpu_count() or 1))
DEFS = ["-DPARALLEL", "-DPARALLEL_MATCH", "-DPARALLEL_PRED", "-DPARALLEL_UPDATE", "-DDSFMT_MEXP=19937"]
ASAN = "detect_leaks=0:exitcode=99:max_malloc_fill_size=65536:malloc_fill_byte=%d:quarantine_size_mb=16:detect_stack_use_after_return=0"


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def stage(scratch):
    """Copy the sources under test next to the stand-in for the random generator."""
    shutil.copytree(os.path.join(REPO, "xcsf"), os.path.join(scratch, "xcsf"))
    os.makedirs(os.path.join(scratch, "lib"))
    shutil.copytree(os.path.join(LIB, "cJSON"), os.path.join(scratch, "lib", "cJSON"))
    os.makedirs(os.path.join(scratch, "lib", "dSFMT"))
    shutil.copy(os.path.join(HERE, "mc", "shim", "dSFMT.h"), os.path.join(scratch, "lib", "dSFMT", "dSFMT.h"))


def compile_all(jobs):
    """jobs: list of commands; run in parallel, fail on the first error."""
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for cmd, r in zip(jobs, ex.map(sh, jobs)):
            if r.returncode != 0:
                raise CheckError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


def build(scratch, harness, cflags, ldflags, extra_cxx=("mc/mc.cpp",), omp=True, csrc=()):
    obj = os.path.join(scratch, "obj")
    os.makedirs(obj, exist_ok=True)
    cmds, objs = [], []
    srcs = [f for f in sorted(glob.glob(os.path.join(scratch, "xcsf", "*.c"))) if os.path.basename(f) != "main.c"]
    srcs.append(os.path.join(scratch, "lib", "cJSON", "cJSON.c"))
    if harness.endswith("c23.cpp"): # the program itself, too
        srcs.append(os.path.join(scratch, "xcsf", "main.c"))
    for f in srcs:
        o = os.path.join(obj, os.path.basename(f) + ".o")
        objs.append(o)
        cmds.append(["gcc", "-std=gnu11", "-w", "-g1", "-fno-omit-frame-pointer"] + (["-fopenmp"] if omp else []) + DEFS + cflags + list(csrc) + (["-Dmain=xcsf_main"] if f.endswith("/main.c") else []) + ["-c", f, "-o", o])
    for f in [harness] + [os.path.join(HERE, x) for x in extra_cxx]:
        o = os.path.join(obj, os.path.basename(f) + ".o")
        objs.append(o)
        hf = [x for x in cflags if "thread" not in x]
        cmds.insert(0, ["g++", "-std=c++17", "-w", "-g1", "-fno-omit-frame-pointer", "-I", scratch, "-I", os.path.join(HERE, "mc")] + DEFS + hf + ["-c", f, "-o", o])
    compile_all(cmds)
    exe = os.path.join(scratch, "check")
    r = sh(["g++"] + objs + ldflags + ["-lcjson", "-lm", "-o", exe])
    if r.returncode != 0:
        raise CheckError("link failed\n" + r.stdout[-4000:])
    return exe


def run_seq(prop, tier, scratch, fill=0xBE, more=()):
    """The sequential explorer: AddressSanitizer build, one worker process per scenario."""
    stage(scratch)
    h = os.path.join(HERE, "harness", prop.lower() + ".cpp")
    exe = build(scratch, h, ["-O1", "-fsanitize=address"], ["-fsanitize=address", "-fopenmp"])
    out = os.path.join(scratch, "result.json")
    work = os.path.join(scratch, "work")
    os.makedirs(work, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS=ASAN % fill, OMP_NUM_THREADS="1", OMP_THREAD_LIMIT="1", LC_ALL="C", MC_WORK=work, MC_REPO=REPO)
    cmd = [exe, "--out", out, "--dir", scratch, "--jobs", str(JOBS)] + list(more)
    if tier == "thorough":
        cmd.append("--thorough")
    r = subprocess.run(cmd, env=env, cwd=work)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        raise CheckError("the explorer ended with status %d" % r.returncode)
    return json.load(open(out))["scenarios"]


def run_threads(prop, tier, scratch, more=()):
    """Virtual threads: the sources are instrumented for thread analysis and linked to our own runtime."""
    exe = build_threads(scratch, prop)
    out = os.path.join(scratch, "result.json")
    work = os.path.join(scratch, "work")
    os.makedirs(work, exist_ok=True)
    cmd = [exe, "--out", out, "--dir", scratch, "--jobs", str(JOBS)] + list(more)
    if tier == "thorough":
        cmd.append("--thorough")
    r = subprocess.run(cmd, env=dict(os.environ, LC_ALL="C"), cwd=work)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        raise CheckError("the explorer ended with status %d" % r.returncode)
    return json.load(open(out))["scenarios"]


def build_threads(scratch, prop):
    stage(scratch)
    ren = ["-Dmemcpy=vt_memcpy", "-Dmemmove=vt_memmove", "-Dmemset=vt_memset", "-Dmalloc=vt_malloc", "-Dcalloc=vt_calloc", "-Drealloc=vt_realloc"]
    return build(scratch, os.path.join(HERE, "harness", prop.lower() + ".cpp"), ["-O1", "-U_FORTIFY_SOURCE", "-fsanitize=thread"],
                 ["-rdynamic", "-lgomp", "-ldl"], extra_cxx=("mc/mc.cpp", "mc/vt.cpp"), csrc=ren)


PY = "/opt/vp/venv/bin/python"


def build_py(scratch, san):
    """The Python extension, from the sources under test and the installed libraries."""
    shutil.copytree(os.path.join(REPO, "xcsf"), os.path.join(scratch, "xcsf"))
    shutil.copytree(LIB, os.path.join(scratch, "lib"))
    obj, pkg = os.path.join(scratch, "obj"), os.path.join(scratch, "py", "xcsf")
    os.makedirs(obj)
    os.makedirs(pkg)
    inc, suf = sh([PY, "-c", "import sysconfig as s; print(s.get_paths()['include'], s.get_config_var('EXT_SUFFIX'))"]).stdout.split()
    flags = ["-O1", "-w", "-g1", "-fPIC", "-fopenmp", "-fno-omit-frame-pointer", "-I", "/opt/vp/cmake/include"] + DEFS + (["-fsanitize=address"] if san else [])
    cmds, objs = [], []
    for f in sorted(glob.glob(os.path.join(scratch, "xcsf", "*.cpp"))) + sorted(glob.glob(os.path.join(scratch, "xcsf", "*.c"))):
        if os.path.basename(f) == "main.c":
            continue
        o = os.path.join(obj, os.path.basename(f) + ".o")
        objs.append(o)
        cmds.append((["g++", "-std=c++14", "-fvisibility=hidden", "-I", inc] if f.endswith("pp") else ["gcc", "-std=gnu11"]) + flags + ["-c", f, "-o", o])
    compile_all(cmds)
    r = sh(["g++", "-shared", "-fopenmp"] + (["-fsanitize=address"] if san else []) + objs + ["-ldSFMT-19937", "-lcjson", "-lm", "-o", os.path.join(pkg, "xcsf" + suf)])
    if r.returncode != 0:
        raise CheckError("link failed\n" + r.stdout[-4000:])
    for f in glob.glob(os.path.join(REPO, "xcsf", "*.py")):
        shutil.copy(f, pkg)
    shutil.copytree(os.path.join(REPO, "xcsf", "utils"), os.path.join(pkg, "utils"))


def run_py(prop, tier, scratch, more=()):
    """The Python module, driven through every case of every scenario."""
    san = prop == "C22"
    build_py(scratch, san)
    out, work = os.path.join(scratch, "result.json"), os.path.join(scratch, "work")
    os.makedirs(work)
    env = dict(os.environ, PYTHONPATH=os.path.join(scratch, "py") + ":" + os.path.join(HERE, "mc") + (":" + os.path.join(HERE, "mc", "stub") if prop == "C24" else ""), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OMP_THREAD_LIMIT="1", OPENBLAS_NUM_THREADS="1", LC_ALL="C.UTF-8", TMPDIR=work)
    if san:
        env.update(LD_PRELOAD=" ".join(sh(["gcc", "-print-file-name=" + l]).stdout.strip() for l in ("libasan.so", "libstdc++.so.6")), PYTHONMALLOC="malloc",
                   ASAN_OPTIONS="detect_leaks=0:exitcode=99:quarantine_size_mb=64:max_malloc_fill_size=65536:malloc_fill_byte=190")
    cmd = [PY, os.path.join(HERE, "harness", prop.lower() + ".py"), "--dir", scratch, "--jobs", str(JOBS)]
    if "--replay" in more:
        return subprocess.run(cmd + list(more), env=env, cwd=work).returncode
    cmd += ["--out", out] + (["--thorough"] if tier == "thorough" else []) + list(more)
    r = subprocess.run(cmd, env=env, cwd=work)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        raise CheckError("the explorer ended with status %d" % r.returncode)
    return json.load(open(out))["scenarios"]


def known():
    f = os.path.join(HERE, "known_findings.json")
    return json.load(open(f)) if os.path.exists(f) else {"known": [], "fixed": []}


def is_known(prop, sc):
    for k in known()["known"]:
        if k["property"] == prop and k["scenario"] == sc["name"] and k["key"] == sc["key"] and k.get("contains", "") in sc["msg"]:
            return k
    return None


def report(prop, tier, scs, t0, assumptions=()):
    ev = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    bad, kn, unrep, more = [], [], [], []
    for s in scs:
        if s["verdict"] == "violation":
            k = is_known(prop, s)
            (kn if k else bad).append((s, k))
        elif s["verdict"] == "unconfirmed":  # further failures beside confirmed ones
            more.append(s)
        elif s["verdict"] == "unreproduced" and s["key"] == "hang":  # the same execution ends when run again: a busy machine, not the code
            s["capped"] = True
            print("note: scenario %s ran out of time once" % s["name"])
        elif s["verdict"] != "ok":
            unrep.append(s)
    tot = lambda k: sum(int(s.get(k, 0)) for s in scs)
    samples = []
    for s in scs[:: max(1, len(scs) // 6)][:8]:
        samples.append({"scenario": s["name"], "executions": s["executions"], "trace": [x for x in s["sample"] if x]})
    capped = [s["name"] for s in scs if s.get("capped")]
    cov = {
        "states": tot("states"), "transitions": tot("transitions"), "traces_validated_against_impl": tot("validated"),
        "executions": tot("executions"), "decision_points": tot("points"), "distinct_outcomes": tot("outcomes"),
        "scenarios": len(scs), "max_decisions_in_one_execution": max([s["max_points"] for s in scs] or [0]),
        "max_random_draws_in_one_execution": max([s["max_draws"] for s in scs] or [0]),
        "deviation_bounds": {str(b): sum(1 for s in scs if s["bound_done"] == b) for b in sorted({s["bound_done"] for s in scs})},
        "exhaustive": not capped and not bad and not unrep, "capped_scenarios": capped,
        "per_scenario": [{k: s[k] for k in ("name", "executions", "states", "transitions", "outcomes", "bound_done", "capped", "secs")} for s in scs][:400],
        "samples": samples,
    }
    e = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": cov,
         "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2),
         "violations": [{"scenario": s["name"], "key": s["key"], "what": s["msg"][:500]} for s, _ in bad]}
    json.dump(e, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    for s, k in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    n = 0
    for s, _ in bad:
        f = os.path.join(ev, "replay", "%s_%s.txt" % (prop, re.sub(r"[^A-Za-z0-9_.-]", "_", s["name"])[:120]))
        with open(f, "w") as fp:
            fp.write("property: %s\nscenario: %s\nkey: %s\nmessage: %s\npath: %s\ntier: %s\n\ntrace:\n%s\nstderr:\n%s\n" % (
                prop, s["name"], s["key"], s["msg"], " ".join(map(str, s.get("path", []))), tier, s.get("log", ""), s.get("stderr", "")))
        n += 1
        if n <= 20:
            print("VIOLATION property=%s replay=%s" % (prop, f))
            print("  scenario %s: [%s] %s" % (s["name"], s["key"], s["msg"][:600]))
    print("%s %s: %d scenarios, %d executions, %d states, %d transitions, %d outcomes, %.1f s%s" % (
        prop, tier, len(scs), cov["executions"], cov["states"], cov["transitions"], cov["distinct_outcomes"], time.time() - t0,
        " (capped: %s)" % ", ".join(capped[:5]) if capped else ""))
    if bad:
        return 1
    unrep += more
    if unrep:
        print("ERROR: %d scenario(s) failed once and not again: %s" % (len(unrep), ", ".join("%s [%s] %s" % (s["name"], s["key"], s["msg"]) for s in unrep)))
        return 2
    return 0


ASSUME = ["the random generator is replaced by the explorer: draws outside the alphabet and deviations beyond the bound are not covered",
          "compiled with gcc -O1 and AddressSanitizer; single-threaded execution unless the property is about threads"]
ASSUME_PY = ["runs the Python module built from the sources with gcc -O1, one thread, real random generator with fixed seeds: inputs, call sequences and options outside the enumerated sets are not covered",
             "numpy and the interpreter are trusted"]


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    if prop == "setup":
        for t in ("gcc", "g++", PY):
            if shutil.which(t) is None:
                print("missing", t)
                return 2
        print("setup ok")
        return 0
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="xcsfmc.")
    try:
        if prop == "replay":
            t = open(sys.argv[2]).read()
            pr = re.search(r"^property: (\S+)", t, re.M).group(1)
            tier = re.search(r"^tier: (\S+)", t, re.M).group(1)
            if os.path.exists(os.path.join(HERE, "harness", pr.lower() + ".py")):
                return run_py(pr, tier, scratch, ["--replay", os.path.abspath(sys.argv[2])] + (["--thorough"] if tier == "thorough" else []))
            if pr == "C14":
                exe = build_threads(scratch, pr)
            else:
                stage(scratch)
                exe = build(scratch, os.path.join(HERE, "harness", pr.lower() + ".cpp"), ["-O1", "-fsanitize=address"], ["-fsanitize=address", "-fopenmp"])
            work = os.path.join(scratch, "work")
            os.makedirs(work)
            env = dict(os.environ, ASAN_OPTIONS=ASAN % 0xBE, OMP_NUM_THREADS="1", OMP_THREAD_LIMIT="1", LC_ALL="C", MC_WORK=work, MC_REPO=REPO)
            return subprocess.run([exe, "--replay", os.path.abspath(sys.argv[2]), "--dir", scratch] + (["--thorough"] if tier == "thorough" else []), env=env, cwd=work).returncode
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        more = sys.argv[3:]
        py = os.path.exists(os.path.join(HERE, "harness", prop.lower() + ".py"))
        scs = (run_py if py else run_threads if prop == "C14" else run_seq)(prop, tier, scratch, more=more)
        return report(prop, tier, scs, t0, ASSUME_PY if py else ASSUME)
    except CheckError as e:
        print("ERROR:", e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


sys.exit(main())
