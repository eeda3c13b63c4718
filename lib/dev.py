"""Developer's loop: python3 lib/dev.py MODULE FUNCTION N [SEED] [SHOW]"""
import collections
import importlib
import os
import random
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen as G
import harness as H
import run as R


def go(mk, n=100, seed=0, show=5):
    s = R.Scratch()
    try:
        b = R.build(s)
        scs = []
        for i in range(n):
            x = G.make(mk, i, random.Random(seed * 100000 + i))
            if x:
                x.id = "%s-%d-%d" % (mk.__name__, seed, i)
                scs.append(x)
        t = time.time()
        R.pmap(lambda x: H.execute(s, b, x), scs)
        t1 = time.time()
        fails, st, tr = H.judge(s, scs)
        print("%s: exec %.1f judge %.1f states %d" % (mk.__name__, t1 - t, time.time() - t1, st))
        c, ex = collections.Counter(), {}
        for f in fails:
            for k in f["clauses"]:
                c[(f["act"], k)] += 1
                ex.setdefault((f["act"], k), []).append(f["trace"])
        for k, v in c.items():
            print("  ", k, v, ex[k][:show])
        return {x.id: x for x in scs}, fails
    finally:
        s.close()


if __name__ == "__main__":
    m = importlib.import_module(sys.argv[1])
    for fn in sys.argv[2].split(","):
        scs, fails = go(getattr(m, fn), int(sys.argv[3]),
                        int(sys.argv[4]) if len(sys.argv) > 4 else 0)
        for f in fails[:3]:
            l = scs[f["trace"]].log[-1]
            print(f, l["flags"], l["exit"], l["stderr"][:400])
