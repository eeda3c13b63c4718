"""Developer's loop for scopes: python3 lib/sdev.py FUNC[,FUNC] TIER LIMIT SEED"""
import collections
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import g_scope
import harness as H
import run as R

s = R.Scratch()
try:
    b = R.build(s)
    for name in sys.argv[1].split(","):
        t = time.time()
        scs, used, total = g_scope.chunks(s, getattr(g_scope, name), sys.argv[2], int(sys.argv[4]), int(sys.argv[3]))
        t0 = time.time()
        R.pmap(lambda x: H.execute(s, b, x), scs)
        t1 = time.time()
        fails, st, tr = H.judge(s, scs)
        print("%s: %d runs, %d/%d items; enum %.1f exec %.1f judge %.1f" % (name, len(scs), used, total, t0 - t, t1 - t0, time.time() - t1))
        c = collections.Counter(k for f in fails for k in f["clauses"])
        print("  ", dict(c), [f["trace"] for f in fails[:4]])
        by = {x.id: x for x in scs}
        for f in fails[:2]:
            l = by[f["trace"]].log[-1]
            print(l["flags"], l["exit"], l["stderr"][:300])
finally:
    s.close()
