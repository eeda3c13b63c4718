"""Scenarios about ids: numbering, prefixes, merging, keeping and restoring."""
import feed as F
import gen as G
import harness as H

KEEP = {"st": "--keep-station-ids", "blk": "--keep-block-ids", "fa": "--keep-fare-ids",
        "sh": "--keep-shape-ids", "ro": "--keep-route-ids", "tr": "--keep-trip-ids",
        "lv": "--keep-level-ids", "pw": "--keep-pathway-ids", "at": "--keep-attribution-ids",
        "sv": "--keep-service-ids", "ag": "--keep-agency-ids"}


def distinct(f, tag=""):
    """Makes every row of every table recognisable without its id."""
    for k, r in enumerate(f["agency"]):
        r["agency_name"] = "Ag%s%d" % (tag, k)
    for k, r in enumerate(f["stops"]):
        r["stop_name"] = "St%s%d" % (tag, k)
    for k, r in enumerate(f["routes"]):
        r["route_short_name"] = "Ro%s%d" % (tag, k)
    for k, r in enumerate(f["trips"]):
        r["trip_short_name"] = "Tr%s%d" % (tag, k)
    for k, r in enumerate(f["levels"]):
        r["level_name"] = "Lv%s%d" % (tag, k)
    for k, r in enumerate(f["fare_attributes"]):
        r["price"] = "%d.%02d" % (k, len(tag))
    for k, r in enumerate(f["pathways"]):
        r["signposted_as"] = "Pw%s%d" % (tag, k)
    for k, r in enumerate(f["attributions"]):
        r["organization_name"] = "Og%s%d" % (tag, k)
    seen = {}
    for r in f["shapes"]:                     # shapes: shift each a little
        k = seen.setdefault(r["shape_id"], len(seen))
        r["shape_pt_lat"] = "%.6f" % (float(r["shape_pt_lat"]) + 0.00002 * k + 0.001 * len(tag))
    # services: one extra date each
    ids = []
    for r in f["calendar"] + f["calendar_dates"]:
        if r["service_id"] not in ids:
            ids.append(r["service_id"])
    for k, i in enumerate(ids):
        f["calendar_dates"].append({"service_id": i, "exception_type": 1,
                                    "date": F.ymd(G.BASE + 60 + k + 20 * len(tag))})
    for r in f["fare_rules"]:                 # no empty zones under a prefix
        for c in ("origin_id", "destination_id", "contains_id"):
            if not r[c]:
                r[c] = "Z0"
    return f


def numeric(rng):
    """Ids which overlap with the new numbers."""
    pool = rng.sample(range(1, 60), 59)
    got = {}

    def ids(kind, k):
        if (kind, k) not in got:
            n = sum(1 for x in got if x[0] == kind)
            got[(kind, k)] = "%d" % pool[n % 59] if kind not in "PSBEN" else "%d" % pool[
                sum(1 for x in got if x[0] in "PSBEN") % 59]
        return got[(kind, k)]
    return ids


def id_min(i, rng):
    kw = {}
    if rng.random() < 0.5:
        kw["ids"] = numeric(rng)
    add = rng.random() < 0.5
    f = distinct(G.rich(rng, n_trips=rng.choice([2, 6, 40]), additional=add, **kw))
    if rng.random() < 0.5:
        b = G.B()
        b.f = f
        for t in rng.sample(f["trips"], min(3, len(f["trips"]))):
            if not any(r["trip_id"] == t["trip_id"] for r in f["frequencies"]):
                b.freq(t["trip_id"], 30000, 40000, 600, 1)
                if add:
                    f["frequencies"][-1]["x_frequencies"] = "w%d" % len(f["frequencies"])
    dense = rng.random() < 0.5
    keep = [k for k in KEEP if rng.random() < rng.choice([0.1, 0.5, 0.9])]
    if rng.random() < 0.1:
        keep = list(KEEP)
    fl = ["-d" if dense else "-i"] + [KEEP[k] for k in keep] + (["-F"] if add else [])
    if rng.random() < 0.15:
        fl = ["-d" if dense else "-i", "--keep-ids"] + (["-F"] if add else [])
        keep = [k for k in KEEP if k != "at"]
    return H.Scenario("", f, [H.Step("IdMin", fl, {"base": 36 if dense else 10, "keep": keep})])


def merge(i, rng):
    n = rng.choice([1, 2, 2, 2, 3] * 6 + [11, 12])
    add = rng.random() < 0.4
    fs = []
    shared = rng.random() < 0.7               # do the feeds use the same ids?
    for k in range(n):
        style = rng.random()
        if style < 0.5:
            ids = (lambda kind, j: "%s%d" % (kind, j)) if shared else \
                (lambda kind, j, k=k: "%s%d_%d" % (kind, k, j))
        elif style < 0.8:                     # ids that look prefixed already
            pre = rng.choice(["0#", "1#", "0#0#", "1#0#"])
            ids = lambda kind, j, pre=pre: (pre if j % 2 == 0 else "") + "%s%d" % (kind, j)
        elif style < 0.9:
            ids = lambda kind, j: "p%s%d" % (kind, j)
        else:
            ids = lambda kind, j: "DE::a rather long id:%s:%d" % (kind, j)
        fs.append(distinct(G.rich(rng, n_trips=rng.choice([2, 4]) if n < 9 else 2,
                              additional=add, ids=ids),
                           "x" * (k + 1)))
    prefix = rng.choice(["", "", "p", "pp"]) if n > 1 else rng.choice(["p", "1", "p#"])
    keep = [k for k in KEEP if k != "at" and rng.random() < rng.choice([0.2, 0.9])]
    fl = [KEEP[k] for k in keep]
    if rng.random() < 0.4:
        fl, keep = ["--keep-ids"], [k for k in KEEP if k != "at"]
    if rng.random() < 0.1:
        fl, keep = [], []
    fl += (["--prefix", prefix] if prefix else []) + (["-F"] if add else [])
    base = rng.choice([0] * 6 + [10, 36])
    if base:
        fl += ["-i" if base == 10 else "-d"]
        if "--keep-ids" not in fl and rng.random() < 0.2:
            fl, keep = fl + [KEEP["at"]], keep + ["at"]
    return H.Scenario("", fs[0], [H.Step("Merge", fl, {"prefix": prefix, "keep": keep, "base": base},
                                         extra_inputs=fs[1:])])
