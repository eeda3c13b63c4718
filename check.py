#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property: runs the scenarios of the property through the program
built from /repo's working tree, and lets TLC judge every recorded run against
the specification in spec/.  Exit 0: held.  Exit 1: VIOLATION.  2: no verdict.
"""
import importlib
import json
import os
import random
import re
import shutil
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import feed as F        # noqa: E402
import gen as G         # noqa: E402
import harness as H     # noqa: E402
import registry         # noqa: E402
import run as R         # noqa: E402
import tlc as T         # noqa: E402

PROCS = [None, None, 1, 2, 3, 8]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scale = float(os.environ.get("VERIF_SCALE", "1"))       # for development only
    t0 = time.time()
    limit = 600 if tier == "quick" else 780
    scratch = R.Scratch()
    try:
        binary = R.build(scratch)
        race = {}
        states = trans = traces = runs = 0
        models, samples, viol, gens, scopes = [], [], [], {}, {}
        for sec in registry.PROPS[prop]:
            if sec[0] == "gen":
                _, mod, fn, nq, nt = sec
                n = int((nq if tier == "quick" else nt) * scale) or 1
                mk = getattr(importlib.import_module(mod), fn)
                done, hung = 0, 0
                for lo in range(0, n, 400):
                    if time.time() - t0 > limit or hung > 8 or len(viol) > 40:
                        break
                    scs = []
                    for i in range(lo, min(n, lo + 400)):
                        rng = random.Random("%s.%s/%d/%d" % (mod, fn, seed, i))
                        sc = G.make(mk, i, rng)
                        if sc is None:
                            continue
                        sc.id = "%s.%s/%d/%d" % (mod, fn, seed, i)
                        for st in sc.steps:
                            if st.procs is None:
                                st.procs = rng.choice(PROCS)
                        scs.append(sc)
                    hang = H.Hang(8)
                    R.pmap(lambda x: H.execute(scratch, binary, x, hang=hang), scs)
                    hung += hang.n
                    scs = [x for x in scs if x.trace is not None]
                    fails, st, tr = H.judge(scratch, scs)
                    states, trans = states + st, trans + tr
                    traces += len(scs)
                    runs += sum(len(x.log) for x in scs)
                    done += len(scs)
                    by = {x.id: x for x in scs}
                    viol += [(f, by[f["trace"]]) for f in fails]
                    if len(samples) < 3 and scs:
                        x = scs[0]
                        samples.append({"trace": x.id, "runs": [
                            {"act": s.act, "flags": s.flags} for s in x.steps],
                            "trips": len(x.feed["trips"]), "stops": len(x.feed["stops"])})
                gens["%s.%s" % (mod, fn)] = done
            elif sec[0] == "scope":
                # every item of a small scope, or as many as there is time for
                _, fn, nq, nt = sec
                import g_scope
                mk = getattr(g_scope, fn)
                scs, used, total = g_scope.chunks(scratch, mk, tier, seed,
                                                  int((nq if tier == "quick" else nt) * scale) or 1)
                for lo in range(0, len(scs), 400):
                    if time.time() - t0 > limit or len(viol) > 40:
                        break
                    part = scs[lo:lo + 400]
                    hang = H.Hang(8)
                    R.pmap(lambda x: H.execute(scratch, binary, x, hang=hang), part)
                    part = [x for x in part if x.trace is not None]
                    fails, st, tr = H.judge(scratch, part)
                    states, trans = states + st, trans + tr
                    traces += len(part)
                    runs += sum(len(x.log) for x in part)
                    by = {x.id: x for x in part}
                    viol += [(f, by[f["trace"]]) for f in fails]
                    scopes.setdefault(fn, {"scope": mk.which, "size": mk.size[tier], "items": total,
                                           "checked": 0})
                    scopes[fn]["checked"] = min(scopes[fn]["checked"] + len(part) * mk.chunk, used)
            elif sec[0] == "model":
                _, module, cfg, tiers = sec
                if tier not in tiers:
                    continue
                r = T.run(scratch, module, cfg, timeout=700)
                if r["rc"] != 0 or "No error has been found" not in r["out"]:
                    raise T.TlcError("model %s/%s\n%s" % (module, cfg, r["out"][-4000:]))
                models.append({"model": module, "cfg": cfg, "states": r["states"],
                               "distinct": r["distinct"]})
                states, trans = states + r["distinct"], trans + r["states"]
            elif sec[0] == "special":
                _, mod, fn = sec
                res = getattr(importlib.import_module(mod), fn)(scratch, binary, tier, seed)
                states, trans = states + res["states"], trans + res["transitions"]
                traces += res["traces"]
                runs += res.get("runs", res["traces"])
                viol += res["violations"]
                samples += res.get("samples", [])[:3]
                gens["%s.%s" % (mod, fn)] = res["traces"]
        known = H.known_findings(prop)
        fresh, seen = [], set()
        for f, sc in viol:
            rest = []
            for c in f["clauses"]:
                hit = [k for k in known if k[0] == f["trace"] and k[1] == c]
                if hit:
                    seen.add(hit[0])
                else:
                    rest.append(c)
            if rest:
                fresh.append((dict(f, clauses=rest), sc))
        for k in known:
            if k in seen:
                print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {"states": states, "transitions": trans,
                           "traces_validated_against_impl": traces, "program_runs": runs,
                           "scenarios": gens, "scopes": scopes,
                           "models": models, "samples": samples[:6]},
              "assumptions": ["TLC, the JVM and the CSV reader of the harness are correct"],
              "violations": len(fresh), "wall_s": round(time.time() - t0, 1)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        rep = os.path.join(HERE, "evidence", "replay", prop)
        shutil.rmtree(rep, ignore_errors=True)
        for f, sc in fresh[:20]:
            p = save(rep, prop, f, sc)
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("  step %s (%s): violated %s" % (f.get("step"), f.get("act"),
                                                   ", ".join(sorted(f["clauses"]))))
            if sc is not None and getattr(sc, "log", None):
                l = sc.log[min(f.get("step", 1), len(sc.log)) - 1]
                print("  flags %s exit %s %s" % (" ".join(l["flags"]), l["exit"],
                                                 l["stderr"].strip()[:300]))
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        print("%s %s: %d traces (%d runs of the program), %d states, %d violations, %.1f s"
              % (prop, tier, traces, runs, states, len(fresh), time.time() - t0))
        return 1 if fresh else 0
    except (R.HarnessError, T.TlcError) as e:
        print("ERROR %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        scratch.close()


def save(rep, prop, f, sc):
    d = os.path.join(rep, re.sub(r"[^A-Za-z0-9_.-]", "_", f["trace"]))
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "finding.json"), "w") as fh:
        json.dump({"property": prop, "finding": f,
                   "runs": getattr(sc, "log", None), "trace": getattr(sc, "trace", None)}, fh)
    if sc is not None and getattr(sc, "feed", None):
        F.write_dir(sc.feed, os.path.join(d, "in"))
        for k, st in enumerate(sc.steps):
            for j, x in enumerate(st.extra_inputs):
                F.write_dir(x, os.path.join(d, "step%d-in%d" % (k, j + 1)))
    return d


if __name__ == "__main__":
    sys.exit(main())
