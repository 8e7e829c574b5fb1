"""dbgbuild.py <prop> <dir> [flags...]: build a harness into a directory that stays (for debugging)"""
import sys, os
src = open(os.path.join(os.path.dirname(__file__), "..", "run.py")).read().replace("sys.exit(main())", "")
g = {"__file__": os.path.abspath(os.path.join(os.path.dirname(__file__), "..", "run.py")), "__name__": "run"}
exec(compile(src, "run.py", "exec"), g)
d = sys.argv[2]
os.makedirs(d, exist_ok=True)
g["stage"](d)
fl = sys.argv[3:] or ["-O1", "-fsanitize=address"]
print(g["build"](d, os.path.join(g["HERE"], "harness", sys.argv[1].lower() + ".cpp"), fl, [x for x in fl if x.startswith("-fsan")] + ["-fopenmp"]))
