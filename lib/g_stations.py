"""Scenarios about stations, platforms and adjacent stop times."""
import re

import gen as G
import g_rich
import g_cleanup
import harness as H


@G.fielded
def ensure_parents(i, rng):
    f, fl = g_rich.some(rng)
    free = [r for r in f["stops"] if r["location_type"] in ("", 0) and not r["parent_station"]]
    if free and rng.random() < 0.4:
        # ids in the way
        b = G.B()
        b.f = f
        r = rng.choice(free)
        for p in rng.choice([["par::"], ["par::", "par1::"], ["par1::"]]):
            b.stop(p + r["stop_id"], 3000000, 3000000, "Taken", rng.choice([0, 1]))
    return H.Scenario("", f, [H.Step("EnsureParents", fl + ["--ensure-stop-parents"])])


@G.fielded
def platform_drop(i, rng):
    f, fl = g_rich.some(rng)
    fz = rng.random() < 0.2
    for r in f["stops"]:
        if r["location_type"] in ("", 0) and not r["parent_station"] and rng.random() < 0.6:
            r["platform_code"] = rng.choice("12")
    return H.Scenario("", f, [H.Step("PlatformDrop", fl + ["--drop-platform-for-parentless"] + (
        ["--red-stops-fuzzy"] if fz else []), {"fuzzy": fz})])


@G.fielded
def far_parents(i, rng):
    f, fl = g_rich.some(rng)
    kids = {}
    for r in f["stops"]:
        if r["parent_station"]:
            kids.setdefault(r["parent_station"], []).append(r)
    for r in f["stops"]:
        if r["stop_id"] in kids and r["location_type"] == 1:
            k = rng.random()
            if k < 0.6:
                # move the station: 0 - 300 m away
                r["stop_lat"] = "%.6f" % (float(r["stop_lat"]) + rng.choice([300, 700, 1000, 1500, 2700]) / 1e6)
                r["stop_lon"] = "%.6f" % (float(r["stop_lon"]) + rng.choice([0, 0, 700, -1200]) / 1e6)
            if k > 0.4:
                for x in kids[r["stop_id"]]:
                    if rng.random() < 0.3:
                        x["stop_lon"] = "%.6f" % (float(x["stop_lon"]) + rng.choice([400, 700, 1600]) / 1e6)
    return H.Scenario("", f, [H.Step("FarParents", fl + ["--fix-far-away-parents"])])


@G.fielded
def group_adj(i, rng):
    f, fl = g_rich.some(rng)
    rows = []
    add = "-F" in fl
    q = {}
    meas = {r["trip_id"]: rng.random() < 0.3 for r in f["trips"]}
    m = {}
    for r in f["stop_times"]:
        t = r["trip_id"]
        reps = rng.choice([1, 1, 1, 2, 2, 3]) if rng.random() < 0.5 else 1
        last = q.get(t, 0)
        m[t] = m.get(t, 0) + 100
        a = r["arrival_time"]
        s = sum(int(x) * y for x, y in zip(a.split(":"), (3600, 60, 1)))
        untimed = last > 0 and rng.random() < 0.1
        for k in range(reps):
            x = dict(r)
            last += rng.choice([1, 1, 1, 2])
            x["stop_sequence"] = last
            if reps > 1:
                import feed as F
                s2 = s + 60 * k
                x["arrival_time"] = x["departure_time"] = F.hms(s2)
                if rng.random() < 0.15:
                    x["departure_time"] = F.hms(s2 + 20)
                if rng.random() < 0.4:
                    x["pickup_type"] = rng.choice([0, 1, 2, 3])
                if rng.random() < 0.4:
                    x["drop_off_type"] = rng.choice([0, 1, 2, 3])
                if rng.random() < 0.1:
                    x["continuous_pickup"] = rng.choice([0, 1, 2])
                if rng.random() < 0.1:
                    x["continuous_drop_off"] = rng.choice([0, 1, 2])
                if rng.random() < 0.1:
                    x["timepoint"] = rng.choice([0, 1])
            if meas[t]:
                x["shape_dist_traveled"] = m[t] if rng.random() < 0.9 else ""
                if rng.random() < 0.2:
                    m[t] += 10
            if reps > 1 and last > 1 and (untimed or rng.random() < 0.1) and x.get("timepoint") != 1:
                x["arrival_time"] = x["departure_time"] = ""
                x["timepoint"] = 0
            if add:
                x["x_stop_times"] = "w%d" % len(rows)
            rows.append(x)
        q[t] = last
    # first and last stop times must be timed
    ends = {}
    for k, x in enumerate(rows):
        ends.setdefault(x["trip_id"], [k, k])[1] = k
    for a, z in ends.values():
        for k in (a, z):
            if not rows[k]["arrival_time"]:
                rows[k]["_drop"] = 1
    f["stop_times"] = [x for x in rows if not x.get("_drop")]
    return H.Scenario("", f, [H.Step("GroupAdj", fl + ["--group-adj-stop-times"])])


WORDS = ["Main", "Castle", "Hill", "Street", "Forest", "Park", "Bridge"]


def rename(rng):
    k = rng.random()
    if k < 0.1:
        return "%d" % rng.randrange(30)
    return " ".join(rng.sample(WORDS, rng.choice([1, 1, 2, 3]))) + rng.choice(["", "", " 1", "-7", "."])


def words(name):
    return sorted({w for w in re.split(r"[\W\d_]+", name.upper()) if w})


@G.fielded
def recluster(i, rng):
    f, fl = g_rich.some(rng)
    if rng.random() < 0.15:
        # every name has the same word
        pool = lambda: "Stop %d" % rng.randrange(30)
    else:
        pool = lambda: rename(rng)
    new = {}
    for r in f["stops"]:
        if r["stop_name"]:
            if rng.random() < 0.9:
                r["stop_name"] = new.setdefault(r["stop_name"], pool())
            else:
                r["stop_name"] = pool()
    if rng.random() < 0.2:
        for r in f["stops"]:
            r["stop_lon"] = "0.5"
    elif rng.random() < 0.4:
        # smaller or larger areas
        m = rng.choice([0.1, 0.5, 3])
        for r in f["stops"]:
            r["stop_lon"] = "%.6f" % (0.5 + int((float(r["stop_lon"]) - 0.5) * m * 1000) / 1000)
            if rng.random() < 0.1:
                r["stop_lat"] = "%.6f" % (float(r["stop_lat"]) + rng.choice([300, 600]) / 1e6)
    b = G.B()
    b.f = f
    many = rng.choice([0, 1, 3, 6, 12])
    stations = []
    for k in range(many):
        x = rng.choice(f["stops"])
        near = rng.random() < 0.8
        d = rng.choice([9, 90, 90, 180, 450, 600, 750, 900, 1800, 9000])
        y0, x0 = float(x["stop_lat"]) * 1e6, float(x["stop_lon"]) * 1e6
        if not near:
            y0, x0, d = 500000 + rng.randrange(-5, 9) * 50000, 500000 + rng.randrange(-5, 9) * 50000, 0
        y, z = rng.choice([(d, 0), (0, d), (-d, 0), (0, -d)])
        name = x["stop_name"] if x["stop_name"] and rng.random() < 0.7 else pool()
        sid = "%s%d" % (rng.choice(["X", "X", "par::X"]), k)
        if rng.random() < 0.3:
            b.stop(sid, round(y0 + y), round(x0 + z), name, 1)
            stations.append(sid)
        else:
            b.stop(sid, round(y0 + y), round(x0 + z), name, 0)
    if rng.random() < 0.15:
        # the ids of new stations are taken
        for x in list(f["stops"]):
            for pre in ("par::", "par1::")[:rng.choice([1, 2, 2])]:
                if x["location_type"] in ("", 0) and rng.random() < 0.7 and \
                        not any(r["stop_id"] == pre + x["stop_id"] for r in f["stops"]):
                    b.stop(pre + x["stop_id"], rng.randrange(-9, -3) * 50000, rng.randrange(9) * 50000,
                           pool(), 0)
    ends = [r["stop_id"] for r in f["stops"] if r["location_type"] in ("", 0, 1)]
    keys = {(r.get("from_stop_id", ""), r.get("to_stop_id", "")) for r in f["transfers"]}
    allst = [r["stop_id"] for r in f["stops"] if r["location_type"] == 1]
    for _ in range(rng.choice([0, 1, 3])):
        p = (rng.choice(allst or ends), rng.choice(ends))
        if rng.random() < 0.5:
            p = p[::-1]
        if rng.random() < 0.3:
            p = (p[0], p[0])
        if p in keys:
            continue
        keys.add(p)
        r = {"from_stop_id": p[0], "to_stop_id": p[1], "transfer_type": rng.choice([0, 2]),
             "min_transfer_time": rng.choice(["", 60, 120])}
        if "-F" in fl and rng.random() < 0.5:
            r["x_transfers"] = "v%d" % rng.randrange(5)
        f["transfers"].append(r)
    for r in f["stops"]:
        if rng.random() < 0.2:
            r["wheelchair_boarding"] = rng.choice([0, 1, 2])
    rng.shuffle(f["stops"])
    return H.Scenario("", f, [H.Step("Recluster", fl + [rng.choice(["-E", "--recluster-stops"])],
                                     {"words": [words(r["stop_name"]) for r in f["stops"]]})])
