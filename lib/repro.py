"""Developer's tool: python3 lib/repro.py MODULE FUNC SEED I DIR - writes the input feeds of a dev.py scenario and prints the flags."""
import importlib, os, random, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import feed as F
mod, fn, seed, i, d = sys.argv[1:6]
import gen
sc = gen.make(getattr(importlib.import_module(mod), fn), int(i), random.Random(int(seed) * 100000 + int(i)))
shutil.rmtree(d, ignore_errors=True)
F.write_dir(sc.feed, d + "/in0")
for st in sc.steps:
    for k, x in enumerate(st.extra_inputs):
        F.write_dir(x, d + "/in%d" % (k + 1))
    print(" ".join("'%s'" % x if "#" in x else x for x in st.flags), st.args)
