"""Builds the binary from /repo's working tree and runs it on scenarios."""
import concurrent.futures
import os
import shutil
import subprocess
import tempfile

import feed as F

REPO = os.environ.get("GTFSTIDY_REPO", "/repo")
GOENV = {
    "PATH": "/opt/veriftools/go1.27.3/bin:" + os.environ.get("PATH", ""),
    "HOME": os.environ.get("HOME", "/root"),
    "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod",
    "GOCACHE": os.environ.get("GOCACHE", "/root/.cache/go-build"),
    "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOWORK": "off", "GOFLAGS": "-mod=mod",
}


class HarnessError(Exception):
    pass


class Scratch:
    """A private scratch directory, removed at the end."""

    def __init__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.path = tempfile.mkdtemp(prefix="gtfsverif-", dir=base)
        self.n = 0

    def sub(self, name):
        p = os.path.join(self.path, name)
        os.makedirs(p, exist_ok=True)
        return p

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)


def build(scratch, race=False):
    """Compiles the program of /repo's current tree; go.mod is not touched."""
    out = os.path.join(scratch.path, "gtfstidy-race" if race else "gtfstidy")
    moddir = scratch.sub("mod")
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, f), os.path.join(moddir, f))
    cmd = ["go", "build", "-buildvcs=false", "-modfile", os.path.join(moddir, "go.mod")]
    if race:
        cmd.append("-race")
    cmd += ["-o", out, "."]
    p = subprocess.run(cmd, cwd=REPO, env=dict(GOENV, CGO_ENABLED="1" if race else "0"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise HarnessError("building /repo failed:\n" + p.stdout[-4000:])
    return out


class Result:
    __slots__ = ("exit", "stdout", "stderr", "out", "timeout")


def invoke(binary, workdir, ins, flags, procs=None, outname="out", timeout=60, use_o=True):
    """One run of the command line tool.  Output read back from `outname`."""
    env = {"PATH": "/usr/bin:/bin", "HOME": workdir, "TMPDIR": workdir}
    if procs:
        env["GOMAXPROCS"] = str(procs)
    out = os.path.join(workdir, outname)
    cmd = [binary] + list(flags) + (["-o", out] if use_o else []) + list(ins)
    r = Result()
    r.timeout = False
    try:
        p = subprocess.run(cmd, cwd=workdir, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        r.exit = p.returncode
        r.stdout = p.stdout.decode("utf-8", "replace")
        r.stderr = p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        r.exit, r.stdout, r.stderr, r.timeout = 124, "", "timeout", True
    r.out = out
    return r


def complete(path):
    """Did the run leave a complete feed (every required file present)?"""
    if os.path.isdir(path):
        return all(os.path.exists(os.path.join(path, t + ".txt"))
                   for t in ("agency", "stops", "routes", "trips", "stop_times"))
    if os.path.isfile(path):
        try:
            F.read(path)
            return True
        except Exception:
            return False
    return False


def pmap(fn, items, workers=8):
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))
