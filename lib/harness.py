"""Scenario execution, trace recording, TLC judging, evidence and verdicts."""
import hashlib
import json
import os
import re
import shutil
import sys
import time
import zipfile

import feed as F
import run as R
import tlc as T

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Step:
    """One run of the program: the action of the specification it should be."""

    def __init__(self, act, flags, args=None, procs=None, outname="out", expect_exit=0,
                 expect_output=True, extra_inputs=()):
        self.act, self.flags, self.args = act, list(flags), dict(args or {})
        self.procs, self.outname = procs, outname
        self.expect_exit, self.expect_output = expect_exit, expect_output
        self.extra_inputs = list(extra_inputs)     # further feeds, for merges
        self.files = {}                            # other files in the working directory
        # calls judged as a whole, from outside (see spec/Cli.tla)
        self.outcome = False
        self.nest = None                           # pack the input into a ZIP file, in a folder
        self.rotate = 0                            # order of the inputs
        self.no_input = False
        self.missing_input = ""
        self.validate = False                      # let the program check its own output
        self.stale = None                          # a feed where the output will be written
        self.inplace = False                       # write the output where the input is


class Scenario:
    def __init__(self, sid, feed, steps, note=""):
        self.id, self.feed, self.steps, self.note = sid, feed, steps, note
        self.trace = None


def pack(path, to, folder):
    with zipfile.ZipFile(to, "w") as z:
        for n in sorted(os.listdir(path)):
            z.write(os.path.join(path, n), folder + n)
    return to


def digest(paths):
    """Fingerprint of files and folders."""
    h = hashlib.sha256()
    for p in paths:
        h.update(("%s %s\n" % (p, os.path.exists(p))).encode())
        for n in (sorted(os.listdir(p)) if os.path.isdir(p) else [""]):
            q = os.path.join(p, n) if n else p
            if os.path.isfile(q):
                with open(q, "rb") as fh:
                    h.update(n.encode() + b"\0" + fh.read())
    return h.hexdigest()


class Hang:
    """Gives up on a batch when the program keeps hanging."""

    def __init__(self, limit):
        self.limit, self.n = limit, 0


def execute(scratch, binary, sc, keep=None, hang=None):
    """Runs every step on the output of the previous one; records the trace."""
    if hang and hang.n >= hang.limit:
        return sc
    w = scratch.sub("sc-" + re.sub(r"[^A-Za-z0-9_.-]", "_", sc.id))
    cur = os.path.join(w, "in")
    F.write_dir(sc.feed, cur)
    rec = {"id": sc.id, "init": F.project(sc.feed), "steps": []}
    log = []
    for k, st in enumerate(sc.steps):
        sw = os.path.join(w, "s%d" % k)
        os.makedirs(sw)
        ins = [cur]
        for name, text in st.files.items():
            with open(os.path.join(sw, name), "w") as fh:
                fh.write(text)
        for j, x in enumerate(st.extra_inputs):
            p = os.path.join(sw, "in%d" % (j + 1))
            F.write_dir(x, p)
            ins.append(p)
        if st.nest is not None:
            ins[0] = pack(ins[0], os.path.join(sw, "in0.zip"), st.nest)
        ins = ins[st.rotate % len(ins):] + ins[:st.rotate % len(ins)]
        if st.no_input:
            ins = []
        if st.missing_input:
            ins = {"alone": [], "first": ins, "last": ins}[st.missing_input]
            ins.insert(0 if st.missing_input == "first" else len(ins), os.path.join(sw, "nofeed"))
        before = digest(ins) if st.outcome else ""
        if st.stale:
            p = os.path.join(sw, st.outname)
            if p.endswith(".zip"):
                F.write_dir(st.stale, p + "-dir")
                pack(p + "-dir", p, "")
            else:
                F.write_dir(st.stale, p)
        r = R.invoke(binary, sw, ins, st.flags, st.procs, ins[0] if st.inplace else st.outname)
        if r.timeout and hang:
            hang.n += 1
        ok = r.exit == 0 and R.complete(r.out)
        if st.outcome:
            st.args = dict(st.args, exit=r.exit, wrote=os.path.exists(r.out),
                           noErrors="No errors." in r.stdout, message=r.stderr.strip() != "",
                           inputsSame=digest(ins) == before)
            rec["steps"].append({"act": st.act, "args": st.args, "ok": not r.timeout,
                                 "feed": F.project(F.read(r.out) if ok else F.new_feed())})
            log.append({"flags": st.flags, "procs": st.procs, "exit": r.exit,
                        "stderr": r.stderr[-2000:], "stdout": r.stdout[-300:]})
            continue
        e = {"act": st.act, "args": st.args, "ok": ok}
        if st.extra_inputs or st.act == "Merge" or st.validate:
            e["args"] = dict(st.args, others=[F.project(x) for x in st.extra_inputs])
        if ok and st.validate:
            v = R.invoke(binary, sw, [r.out], ["-v"], st.procs, "validated")
            e["args"]["valid"] = v.exit == 0 and not os.path.exists(v.out)
            if v.exit:
                r.stderr += v.stderr
        if ok:
            e["feed"] = F.project(F.read(r.out))
            cur = r.out
        else:
            e["feed"] = F.project(F.new_feed())
        rec["steps"].append(e)
        log.append({"flags": st.flags, "procs": st.procs, "exit": r.exit,
                    "stderr": r.stderr[-2000:], "stdout": r.stdout[-300:]})
        if not ok:
            break
    sc.trace, sc.log = rec, log
    if keep:
        shutil.rmtree(keep, ignore_errors=True)
        shutil.copytree(w, keep)
    shutil.rmtree(w, ignore_errors=True)
    return sc


def judge(scratch, scenarios, batch=400, heap="10g", timeout=800):
    """TLC decides every recorded trace.  Returns (fails, states, transitions)."""
    fails, states, trans = [], 0, 0
    for b in range(0, len(scenarios), batch):
        part = scenarios[b:b + batch]
        p = os.path.join(scratch.path, "trace-%d.ndjson" % b)
        want = 0
        with open(p, "w") as fh:
            for sc in part:
                fh.write(json.dumps(sc.trace) + "\n")
                want += 1 + len(sc.trace["steps"])
        res = T.run(scratch, "GtfsTrace", "GtfsTrace.cfg", env={"TRACE": p}, heap=heap,
                    tag="b%d" % b, timeout=timeout)
        os.unlink(p)
        if res["rc"] != 0 or "No error has been found" not in res["out"]:
            at = res["out"].find("Error:")
            raise T.TlcError("TLC failed on the recorded traces:\n"
                             + res["out"][max(at, 0):][:1500] + "\n...\n" + res["out"][-500:])
        if res["distinct"] != want:
            raise T.TlcError("TLC visited %d states, the traces have %d\n%s"
                             % (res["distinct"], want, res["out"][-3000:]))
        states += res["distinct"]
        trans += res["distinct"] - len(part)
        for line in res["out"].splitlines():
            m = re.match(r'^"?@@FAIL (.*?)"?$', line.strip())
            if m:
                txt = m.group(1)
                if '\\"' in txt:
                    txt = txt.replace('\\"', '"')
                fails.append(json.loads(txt))
    return fails, states, trans


def known_findings(prop):
    """[(trace id, clause, text)] listed for a property."""
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as fh:
            for line in fh:
                m = re.match(r"^KNOWN-FINDING: property=(\S+) trace=(\S+) clause=(\S+) (.*)$",
                             line.strip())
                if m and m.group(1) == prop:
                    out.append((m.group(2), m.group(3), m.group(4)))
    return out
