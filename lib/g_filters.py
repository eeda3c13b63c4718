"""Scenarios about the filters: speed, dates, modes, places, shapes."""
import json

import feed as F
import gen as G
import g_rich
import harness as H

MOTS = [0, 1, 2, 3, 4, 5, 6, 7, 11, 12, 109, 700, 900, 401, 6, 7, 11, 1000, 1200, 1300, 1301, 1400,
        116, 1303, 800, 405, 600, 200, 715, 1501, 1503, 300, 902]
LIMIT = {0: 100, 1: 150, 2: 500, 3: 150, 4: 80, 5: 30, 6: 50, 7: 50, 11: 50, 12: 150,
         109: 500, 700: 150, 900: 100, 401: 150, 1000: 80, 1200: 80, 1300: 50, 1301: 50, 1400: 50,
         116: 50, 1303: 50, 800: 50, 405: 150, 600: 150, 200: 150, 715: 150, 1501: 150, 1503: 500,
         300: 500, 902: 100}


@G.fielded
def too_fast(i, rng):
    b = G.B()
    b.agency("A")
    n = rng.randint(3, 7)
    at = [500000]
    for k in range(n):
        b.stop("S%d" % k, at[-1], 500000)
        at.append(at[-1] + rng.choice([1000, 20000, 40000, 58000, 70000, 95000, 200000])
                  * rng.choice([1, 1, 1, -1]))
    types = rng.sample(MOTS, 3)
    for k, ty in enumerate(types):
        b.route("R%d" % k, "A", typ=ty)
    b.service("W")
    for k in range(rng.randint(2, 6)):
        r = rng.randrange(3)
        lim = LIMIT[types[r]]
        t, sts = 28800, []
        style = rng.random()
        for j in range(n):
            if j:
                d = abs(at[j] - at[j - 1]) * 0.1113
                v = lim * rng.choice([0.3, 0.5, 0.85] if style < 0.5 else [0.5, 0.85, 0.9, 1.2, 2])
                t += max(int(d * 3.6 / v), 0)
                if rng.random() < 0.3:
                    t -= t % 60            # minutes only: a few equal times
                    t = max(t, sts[-1][2] if sts[-1][2] is not None else 0)
                t = max([t] + [x[2] for x in sts if x[2] is not None])
            dw = rng.choice([0, 0, 30])
            if 0 < j < n - 1 and rng.random() < (0.5 if style > 0.8 else 0.1):
                sts.append(("S%d" % j, None, None, {"timepoint": 0}))
            else:
                sts.append(("S%d" % j, t, t + dw))
                t += dw
        b.trip("T%d" % k, "R%d" % r, "W", sts)
    n = len(b.f["trips"])
    if rng.random() < 0.5:
        b.transfer("", "", 4, "", from_trip_id="T%d" % rng.randrange(n),
                   to_trip_id="T%d" % rng.randrange(n))
    if rng.random() < 0.3:
        b.attribution("X", trip="T%d" % rng.randrange(n))
    return H.Scenario("", b.f, [H.Step("TooFast", ["--drop-too-fast-trips"])])


@G.fielded
def date_filter(i, rng):
    f, fl = g_rich.some(rng)
    a = G.BASE + rng.randrange(-6, 30)
    z = G.BASE + rng.randrange(-6, 36)
    k = rng.random()
    if k < 0.3:
        a = None
    elif k < 0.6:
        z = None
    elif z < a:
        a, z = z, a
    if rng.random() < 0.3 and not any(r.get("from_trip_id") for r in f["transfers"]):
        b = G.B()
        b.f = f
        t = [r["trip_id"] for r in f["trips"]]
        b.transfer("", "", 4, "", from_trip_id=t[0], to_trip_id=t[-1])
    fl = fl + (["--date-start", F.ymd(a)] if a else []) + (["--date-end", F.ymd(z)] if z else [])
    return H.Scenario("", f, [H.Step("DateFilter", fl, {"from": a or 1, "to": z or 2000000})])


@G.fielded
def mot_filter(i, rng):
    f, fl = g_rich.some(rng)
    # a filtered transfer end is refused by the parser library (known limit)
    f["transfers"] = [r for r in f["transfers"]
                      if not r.get("from_route_id") and not r.get("from_trip_id")]
    for r in f["routes"]:
        r["route_type"] = rng.choice([3, 2, 0, 700, 109, 4])
    pool = [3, 2, 0, 700, 109, 4, 1]
    # what a route is read as decides
    types = rng.choice(["", "", "standard", "google"])
    if types:
        fl = fl + ["--%s-route-types" % {"google": "google-supported"}.get(types, types)]
        for r in f["routes"]:
            if rng.random() < 0.5:
                r["route_type"] = rng.choice([700, 705, 300, 100, 104, 400, 404, 901, 1000])
        pool += [100, 400, 900]
    only = rng.sample(pool, rng.randint(1, 4)) if rng.random() < 0.7 else []
    no = rng.sample(pool, rng.randint(1, 3)) if not only or rng.random() < 0.3 else []
    sep = rng.choice([",", ", "])
    fl = fl + ([rng.choice(["-M", "--keep-mots"]), sep.join(map(str, only))] if only else []) \
        + ([rng.choice(["-N", "--drop-mots"]), sep.join(map(str, no))] if no else [])
    return H.Scenario("", f, [H.Step("MotFilter", fl, {"only": only, "not": no,
                                                              "types": types})])


def areas(rng):
    """1-3 areas away from the places of the grid."""
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        y0, x0 = rng.randrange(-1, 2), rng.randrange(-1, 4)
        y1, x1 = y0 + rng.randint(1, 3), x0 + rng.randint(1, 4)
        box = [500000 + 50000 * y0 + 20000, 500000 + 50000 * x0 + 20000,
               500000 + 50000 * y1 + 20000, 500000 + 50000 * x1 + 20000]
        hole = []
        if rng.random() < 0.3:
            hole = [box[0] + 10000, box[1] + 10000, box[2] - 15000, box[3] - 15000]
        out.append({"box": box, "hole": hole})
    return out


def area_flags(ars, rng, files):
    """Command line for the areas; file contents go to `files` (name -> text)."""
    fl, geo, k = [], [], 0
    for a in ars:
        y0, x0, y1, x1 = a["box"]
        ring = [(y0, x0), (y0, x1), (y1, x1), (y1, x0)]
        if rng.random() < 0.5:
            ring.append(ring[0])
        if rng.random() < 0.5:
            ring.reverse()
        txt = ",".join("%s,%s" % (G.deg(y), G.deg(x)) for y, x in ring)
        form = rng.random()
        if a["hole"] or form < 0.2:
            c = [[[x / 1e6, y / 1e6] for y, x in ring + ([] if ring[0] == ring[-1] else [ring[0]])]]
            if a["hole"]:
                h0, g0, h1, g1 = a["hole"]
                c.append([[g0 / 1e6, h0 / 1e6], [g1 / 1e6, h0 / 1e6], [g1 / 1e6, h1 / 1e6],
                          [g0 / 1e6, h1 / 1e6], [g0 / 1e6, h0 / 1e6]])
            geo.append(c)
        elif form < 0.5:
            p, q = ((y0, x0), (y1, x1)) if rng.random() < 0.5 else ((y1, x0), (y0, x1))
            fl += ["--bounding-box", ",".join("%s,%s" % (G.deg(y), G.deg(x)) for y, x in (p, q))]
        elif form < 0.8:
            fl += ["--polygon", txt]
        else:
            k += 1
            files["poly%d.txt" % k] = txt + rng.choice(["", "\n"])
            fl += ["--polygon-file", "poly%d.txt" % k]
    if geo:
        multi = rng.random() < 0.4
        feats = [{"type": "Feature", "properties": {}, "geometry": {
            "type": "MultiPolygon", "coordinates": geo}}] if multi else [
            {"type": "Feature", "properties": {}, "geometry": {"type": "Polygon", "coordinates": c}}
            for c in geo]
        area = rng.choice(["area.geojson", "area.json"])
        files[area] = json.dumps({"type": "FeatureCollection", "features": feats})
        fl += ["--polygon-file", area]
    return fl


@G.fielded
def geo(i, rng):
    f, fl = g_rich.some(rng)
    ars, files = areas(rng), {}
    kinds = [r for r in f["stops"] if r["location_type"] in (2, 3, 4)]
    complete = rng.random() < 0.5
    if not complete:
        # attributions and fares are not affected; entrances need their station
        pass
    if rng.random() < 0.5:
        # spread the parts of a station over a border
        for r in rng.sample(f["stops"], min(len(f["stops"]), 2)):
            if complete or r["location_type"] in ("", 0):
                r["stop_lat"] = "%.6f" % (float(r["stop_lat"]) + 0.05)
    if complete and rng.random() < 0.1:
        ars = []
    fl = fl + area_flags(ars, rng, files)
    if complete:
        fl = fl + ["--complete-filtered-trips"]
    elif not complete:
        # boarding areas whose platform is cut away are refused: keep them together
        pos = {r["stop_id"]: (r["stop_lat"], r["stop_lon"]) for r in f["stops"]}
        for r in f["stops"]:
            if r["location_type"] in (2, 3, 4) or r["location_type"] == 4:
                p = r["parent_station"]
                r["stop_lat"], r["stop_lon"] = pos[p]
                pos[r["stop_id"]] = pos[p]
    st = H.Step("GeoComplete" if complete else "GeoFilter", fl, {"areas": ars})
    st.files = files
    return H.Scenario("", f, [st])


@G.fielded
def drops(i, rng):
    f, fl = g_rich.some(rng)
    if rng.random() < 0.4:
        return H.Scenario("", f, [H.Step("DropShapes", fl + ["--drop-shapes"])])
    short = {r["trip_id"]: rng.choice([0, 1, 1]) for r in f["trips"] if rng.random() < 0.3}
    n = {}
    rows = []
    for r in f["stop_times"]:
        n[r["trip_id"]] = n.get(r["trip_id"], 0) + 1
        if r["trip_id"] not in short or n[r["trip_id"]] <= short[r["trip_id"]]:
            rows.append(r)
    f["stop_times"] = rows
    return H.Scenario("", f, [H.Step("DropSingle", fl + ["--drop-single-stop-trips"])])
