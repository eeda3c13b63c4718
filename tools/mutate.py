"""Mutation sampling, a developer's tool: which small changes of a source file
do the checks of its properties miss?

python3 tools/mutate.py COPY_OF_REPO FILE N SEED GEN[,GEN...] [SCALE]
  GEN is module.function[:count].  Survivors which also pass the existing
  tests are printed as SURVIVED with the changed line.
"""
import importlib
import os
import random
import re
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
REPO = sys.argv[1]
os.environ["GTFSTIDY_REPO"] = REPO
import harness as H
import run as R

R.invoke.__defaults__ = tuple(12 if d == 60 else d for d in R.invoke.__defaults__)

OPS = [(r"==", "!="), (r"!=", "=="), (r"(?<![<\-:=!>])<(?![=<\-])", "<="), (r"<=", "<"),
       (r"(?<![>\-=])>(?![>=])", ">="), (r"(?<!>)>=", ">"), (r"&&", "||"), (r"\|\|", "&&"),
       (r"\+ 1\b", "+ 0"), (r"\+1\b", "+0"), (r"- 1\b", "- 0"), (r"-1\b", "-0"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bcontinue\b", "break"),
       (r"\bbreak\b", "continue"), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "),
       (r"\+=", "-="), (r":= 0\b", ":= 1"), (r":= 1\b", ":= 0"), (r"if !", "if "),
       (r"if (?!!|err)(.*?) \{$", r"if !(\1) {"), (r"if (?!err)(.*?) \{$", r"if false && (\1) {"),
       (r"if (?!err)(.*?) \{$", r"if true || (\1) {"), (r"\+\+$", "--")]


def mutants(src, rng):
    """[(line number, new line)] for all places a rule applies to."""
    out, depth = [], 0
    lines = src.split("\n")
    infn = False
    for n, l in enumerate(lines):
        s = l.strip()
        if l.startswith("func "):
            infn = True
            continue
        if l.startswith("}"):
            infn = False
        if not infn or s.startswith("//") or "fmt." in s or "panic" in s or not s:
            continue
        code = l.split("//")[0].rstrip()
        for a, b in OPS:
            for m in re.finditer(a, code):
                if code[:m.start()].count('"') % 2:
                    continue
                if ":=" in code and a.startswith("if ") and ";" in code:
                    continue
                out.append((n, code[:m.start()] + m.expand(b) + code[m.end():]))
        if re.match(r"^(delete\(|[\w\.\[\]\(\)]+ (\+|-)?= |[\w\.]+\(.*\)$)", s) and not s.endswith("{"):
            out.append((n, re.match(r"\s*", l).group(0) + "// removed"))
        m = re.match(r"^(\w+)\s*:\s+.*,$", s)
        if m:
            out.append((n, ""))
    rng.shuffle(out)
    return out


def main():
    path, n, seed = os.path.join(REPO, sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    gens = []
    for g in sys.argv[5].split(","):
        mf, _, c = g.partition(":")
        mod, fn = mf.split(".")
        gens.append((getattr(importlib.import_module(mod), fn), fn, int(c or 300)))
    orig = open(path).read()
    rng = random.Random(seed)
    killed = surv = bad = tests = 0
    for ln, new in mutants(orig, rng):
        if killed + surv + tests >= n:
            break
        lines = orig.split("\n")
        old = lines[ln]
        lines[ln] = new
        s = R.Scratch()
        try:
            with open(path, "w") as fh:
                fh.write("\n".join(lines))
            try:
                b = R.build(s)
            except R.HarnessError:
                bad += 1
                continue
            dead = ""
            for mk, fn, cnt in gens:
                scs = []
                for i in range(cnt):
                    x = mk(i, random.Random("%s/%d/%d" % (fn, seed, i)))
                    if x:
                        x.id = "%s-%d" % (fn, i)
                        scs.append(x)
                hang = H.Hang(1)
                for part in (scs[:16], scs[16:]):
                    R.pmap(lambda x: H.execute(s, b, x, hang=hang), part)
                    if hang.n or any(st["ok"] is False for x in part if x.trace
                                     for st in x.trace["steps"]):
                        dead = "run"
                        break
                if dead:
                    break
                try:
                    fails, _, _ = H.judge(s, [x for x in scs if x.trace])
                except Exception as e:
                    print("TLC-ERROR %s:%d %s -> %s %s" % (sys.argv[2], ln + 1, old.strip(), new.strip(), str(e)[:1500]))
                    dead = "tlc"
                    break
                if fails:
                    dead = fails[0]["clauses"][0]
                    break
            if dead:
                killed += 1
                continue
            p = subprocess.run(["go", "test", "-vet=off", "./..."], cwd=REPO, env=dict(R.GOENV, GOFLAGS="-mod=mod"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                tests += 1
                continue
            surv += 1
            print("SURVIVED %s:%d  %s  ->  %s" % (sys.argv[2], ln + 1, old.strip(), new.strip()), flush=True)
        finally:
            with open(path, "w") as fh:
                fh.write(orig)
            s.close()
    print("%s: %d killed, %d survived, %d only by the tests, %d do not build"
          % (sys.argv[2], killed, surv, tests, bad), flush=True)


main()
