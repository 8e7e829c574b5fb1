"""mkseed.py <spec.py>: writes /verif/seeded/<id>/ from a spec (id, property, needs, breaks, edits=[(file, old, new)], demo = C source)."""
import os, subprocess, sys, json
H = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
SH = '''#!/bin/bash
# Builds the library from the current directory's sources with demo.c and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
L=/opt/vp/cmake/lib
mkdir "$T/lib" && cp -r $L/cJSON $L/dSFMT "$T/lib/" && cp -r xcsf "$T/xcsf" && cp "$D/demo.c" "$T/demo.c" && cd "$T" || exit 2
rm -f xcsf/main.c
gcc -std=gnu11 -w -O1 -g -fopenmp -DPARALLEL -DPARALLEL_MATCH -DPARALLEL_PRED -DPARALLEL_UPDATE -DDSFMT_MEXP=19937 @FLAGS@ -I. xcsf/*.c demo.c -ldSFMT-19937 -lcjson -lm -o demo || exit 2
OMP_NUM_THREADS=1 timeout 200 ./demo
'''
def make(sp):
    d = os.path.join(H, "seeded", sp["id"])
    os.makedirs(d, exist_ok=True)
    for f, a, b in sp["edits"]:
        p = os.path.join("/repo", f)
        t = open(p).read()
        assert t.count(a) == 1, (f, a, t.count(a))
        open(p, "w").write(t.replace(a, b))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    open(d + "/patch.diff", "w").write(diff)
    if "sh" in sp:
        open(d + "/demo.sh", "w").write(sp["sh"])
    elif "py" in sp:
        open(d + "/demo.py", "w").write(sp["py"])
        open(d + "/demo.sh", "w").write('''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export PYTHONPATH=$PWD/_build/repo PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
cd "$T" && timeout 200 /opt/vp/venv/bin/python "$D/demo.py"
''')
    else:
        open(d + "/demo.c", "w").write(sp["demo"])
        open(d + "/demo.sh", "w").write(SH.replace("@FLAGS@", sp.get("flags", "")))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": sp["property"], "needs": sp["needs"], "what_it_breaks": sp["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", d)
g = {}
exec(open(sys.argv[1]).read(), g)
for sp in g["SEEDS"]:
    if len(sys.argv) < 3 or sp["id"] in sys.argv[2:]:
        make(sp)
