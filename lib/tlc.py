"""Runs TLC and reads what it printed."""
import os
import re
import shutil
import subprocess

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JARS = ":".join(p for p in ("/opt/veriftools/tla/tla2tools.jar",
                            "/opt/veriftools/tla/CommunityModules-deps.jar",
                            "/opt/veriftools/tla/CommunityModules.jar") if os.path.exists(p))


class TlcError(Exception):
    pass


def run(scratch, module, cfg, env=None, workers=8, timeout=800, args=(), tag="", heap="6g",
        extra_files=None):
    """Returns dict(out, states, distinct, ok, rc).  rc 0: no error found."""
    d = scratch.sub("tlc-%s-%s" % (module, tag or os.path.splitext(cfg)[0]))
    for f in os.listdir(SPEC):
        if f.endswith(".tla") or f == cfg:
            shutil.copy(os.path.join(SPEC, f), d)
    for name, text in (extra_files or {}).items():
        with open(os.path.join(d, name), "w") as fh:
            fh.write(text)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d,
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir",
           os.path.join(d, "states"), "-config", cfg] + list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TlcError("TLC timed out on %s/%s" % (module, cfg))
    out = p.stdout.decode("utf-8", "replace")
    r = {"out": out, "rc": p.returncode, "states": 0, "distinct": 0}
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
        pass
    if m:
        r["states"] = int(m.group(1).replace(",", ""))
        r["distinct"] = int(m.group(2).replace(",", ""))
    shutil.rmtree(d, ignore_errors=True)
    return r
