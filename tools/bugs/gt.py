"""Tiny helper of the demonstrations: write a feed, run the program, read the result."""
import csv
import os
import shutil
import subprocess
import sys
import tempfile

ENV = {"PATH": "/opt/veriftools/go1.27.3/bin:" + os.environ.get("PATH", ""),
       "HOME": os.environ.get("HOME", "/root"), "GOPATH": "/root/go",
       "GOMODCACHE": "/root/go/pkg/mod",
       "GOCACHE": os.environ.get("GOCACHE", "/root/.cache/go-build"),
       "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOWORK": "off", "GOFLAGS": "-mod=mod"}
W = tempfile.mkdtemp(prefix="demo-")
BIN = os.path.join(W, "gtfstidy")
N = [0]


def build():
    subprocess.check_call(["go", "build", "-buildvcs=false", "-o", BIN, "."], env=ENV)


def write(feed):
    N[0] += 1
    d = os.path.join(W, "in%d" % N[0])
    os.makedirs(d)
    for name, text in feed.items():
        rows = [l.strip() for l in text.strip().splitlines()]
        with open(os.path.join(d, name + ".txt"), "w") as fh:
            fh.write("\n".join(rows) + "\n")
    return d


def run(flags, *feeds, procs=None):
    """Returns {table: [row dicts]} of the output."""
    N[0] += 1
    out = os.path.join(W, "out%d" % N[0])
    env = dict(ENV)
    if procs:
        env["GOMAXPROCS"] = str(procs)
    p = subprocess.run([BIN] + flags + ["-o", out] + [write(f) for f in feeds], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    res = {"exit": p.returncode, "log": p.stdout}
    for t in ("agency", "stops", "routes", "trips", "stop_times", "calendar", "calendar_dates",
              "frequencies", "shapes", "transfers", "pathways", "levels", "fare_attributes",
              "fare_rules", "attributions", "feed_info"):
        f = os.path.join(out, t + ".txt")
        res[t] = list(csv.DictReader(open(f))) if os.path.exists(f) else []
    return res


def demo(fn):
    try:
        build()
        bad = fn()
    finally:
        shutil.rmtree(W, ignore_errors=True)
    if bad:
        print("BROKEN: %s" % (bad,))
        sys.exit(1)
    print("ok")
    sys.exit(0)


BASE = {
    "agency": "agency_id,agency_name,agency_url,agency_timezone\nA,Agency,http://a.example,Europe/Berlin",
    "stops": """stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station
        S1,One,0.5,0.5,,
        S2,Two,0.6,0.5,,
        S3,Three,0.7,0.5,,""",
    "routes": "route_id,agency_id,route_short_name,route_long_name,route_type\nR,A,1,,3",
    "calendar": """service_id,monday,tuesday,wednesday,thursday,friday,saturday,sunday,start_date,end_date
        W,1,1,1,1,1,0,0,20240304,20240331""",
    "trips": "route_id,service_id,trip_id\nR,W,T",
    "stop_times": """trip_id,arrival_time,departure_time,stop_id,stop_sequence
        T,08:00:00,08:00:00,S1,1
        T,08:10:00,08:10:00,S2,2""",
}


def feed(**kw):
    return dict(BASE, **kw)


def dates(res, sid):
    """Active dates (datetime.date) of a service of the output."""
    import datetime
    day = lambda s: datetime.date(int(s[:4]), int(s[4:6]), int(s[6:8]))
    names = ["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"]
    ds = set()
    for r in res["calendar"]:
        if r["service_id"] == sid:
            d = day(r["start_date"])
            while d <= day(r["end_date"]):
                if r[names[d.weekday()]] == "1":
                    ds.add(d)
                d += datetime.timedelta(1)
    for r in res["calendar_dates"]:
        if r["service_id"] == sid:
            (ds.add if r["exception_type"] == "1" else ds.discard)(day(r["date"]))
    return ds
