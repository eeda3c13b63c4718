"""python3 lib/why.py MODULE FUNC SEED I : runs one dev.py scenario, prints flags and keeps it in /tmp/why"""
import importlib, os, random, sys, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness as H, run as R
mod, fn, seed, i = sys.argv[1:5]
import gen
sc = gen.make(getattr(importlib.import_module(mod), fn), int(i), random.Random(int(seed) * 100000 + int(i)))
sc.id = "why"
s = R.Scratch()
try:
    b = R.build(s)
    H.execute(s, b, sc, keep="/tmp/why")
    print(sc.log)
    print(H.judge(s, [sc])[0])
finally:
    s.close()
