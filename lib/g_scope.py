"""Feeds made of the items of a small scope, all of which TLC enumerated
(spec/Scope.tla).  Each item becomes a component of a feed which does not meet
the other components, unless it is a whole feed of its own."""
import json
import os

import feed as F
import gen as G
import g_pipeline
import harness as H
import tlc as T


def scope(which, quick, thorough, chunk):
    def deco(fn):
        fn.which, fn.size, fn.chunk = which, {"quick": quick, "thorough": thorough}, chunk
        return fn
    return deco


def enumerate_(scratch, which, size):
    out = os.path.join(scratch.path, "scope-%s-%d.ndjson" % (which, size))
    if not os.path.exists(out):
        r = T.run(scratch, "Scope", "Scope.cfg", env={"SCOPE": which, "SIZE": str(size), "OUT": out},
                  workers=1, timeout=300, tag="%s%d" % (which, size))
        if r["rc"] != 0 or not os.path.exists(out):
            raise T.TlcError("scope %s of size %d\n%s" % (which, size, r["out"][-2000:]))
    with open(out) as fh:
        return [json.loads(line)["x"] for line in fh]


def start():
    b = G.B()
    b.agency("A")
    b.stop("s1", 500000, 500000)
    b.stop("s2", 600000, 500000)
    return b


def write(b, i, sv):
    """A service of the specification; day 1 is the Monday G.BASE."""
    if sv["cal"]:
        b.cal(i, sv["days"], G.BASE - 1 + sv["s"], G.BASE - 1 + sv["e"])
    for x in sv["ex"]:
        b.ex(i, G.BASE - 1 + x["d"], x["t"])


def on_dates(b, i, ds):
    for d in ds:
        b.ex(i, G.BASE - 1 + d, 1)


def services(items, trips=True):
    b = start()
    b.route("r", "A")
    for k, x in enumerate(items):
        write(b, "W%d" % k, x["sv"])
        if trips:
            b.trip("t%d" % k, "r", "W%d" % k, [("s1", 60 * k, 60 * k), ("s2", 600 + 60 * k, 600 + 60 * k)])
    return b.f


@scope("written", 7, 10, 80)
def service_min(items, rng):
    return H.Scenario("", services(items, rng.random() < 0.5), [H.Step("ServiceMin", ["-c"])])


@scope("written", 5, 7, 60)
def service_dup(items, rng):
    return H.Scenario("", services(items), [H.Step("ServiceDup", ["-C"])])


@scope("written", 6, 8, 50)
def cal_dates(items, rng):
    return H.Scenario("", services(items), [H.Step("CalDatesRem", ["--remove-cal-dates"])])


@scope("shared", 4, 6, 1)
def non_overlap(items, rng):
    b = start()
    b.route("r", "A")
    for k, ds in enumerate(items[0]):
        on_dates(b, "W%d" % k, ds)
        if ds:
            for j in range(rng.choice([1, 1, 2])):
                t = 600 * k + 60 * j
                b.trip("t%d_%d" % (k, j), "r", "W%d" % k, [("s1", t, t), ("s2", 900 + t, 900 + t)])
    return H.Scenario("", b.f, [H.Step("NonOverlap", ["--non-overlapping-services"])])


@scope("starts", 6, 8, 40)
def frequency(items, rng):
    b = start()
    b.service("W1")
    for k in range(3):
        b.route("r%d" % k, "A")
    step = rng.choice([60, 300, 600])
    for k, x in enumerate(items):
        def trip(i, s):
            b.trip(i, "r%d" % (k % 3), "W1", [("s1", s - x["dwell"], s), ("s2", s + 900, s + 900)],
                   trip_headsign="h%d" % k)
        for a in x["at"]:
            trip("t%d_%d" % (k, a), 28800 + step * a)
        if x["fr"]:
            s, h, n, exact = x["fr"]
            trip("f%d" % k, 28800 + step * s)
            b.freq("f%d" % k, 28800 + step * s, 28800 + step * (s + h * n), step * h, exact)
    return H.Scenario("", b.f, [H.Step("FrequencyMin", ["-T"], {"minH": 1, "maxH": 86400})])


@scope("trips", 3, 4, 25)
def trip_dup(items, rng):
    b = G.B()
    b.agency("A")
    for k in range(2):
        y, x = G.grid(k)
        b.stop("P%d" % k, y, x, "Station", 1)
        for j in range(2):
            b.stop("S%d%d" % (k, j), y, x, "Station", 0, "P%d" % k)
    y, x = G.grid(3)
    b.stop("Q", y, x)
    for k, x in enumerate(items):
        b.route("R%d" % k, "A")
        t = 28800 + 600 * k
        d = x["diff"]
        for n, ds in enumerate((x["a"], x["b"])):
            on_dates(b, "W%d_%d" % (k, n), [(q - 1) * x["gap"] + 1 for q in ds])
            other = n == 1
            sts = [["S00", t, t], ["Q", t + 200, t + 200], ["S10", t + 400, t + 400]]
            kw, route = {}, "R%d" % k
            if other and d:
                if d == "time":
                    sts[1][1] += 20
                    sts[1][2] += 20
                elif d == "dwell":
                    sts[1][2] += 20
                elif d == "first":
                    sts[0][1] -= 20
                elif d == "last":
                    sts[2][2] += 20
                elif d == "stop":
                    sts[1][0] = "S01"
                elif d == "platform":
                    sts[2][0] = "S11"
                elif d in ("route", "mode"):
                    route = "V%d" % k
                    b.route(route, "A", typ=3 if d == "route" else 700)
                elif d == "shape_id":
                    b.shape("H%d" % k, [(500000, 500000, 0), (500000, 501000, 10)])
                    kw[d] = "H%d" % k
                elif d in ("direction_id", "wheelchair_accessible", "bikes_allowed"):
                    kw[d] = 1
                elif d != "frequency":
                    kw[d] = "x"
            b.trip("T%d_%d" % (k, n), route, "W%d_%d" % (k, n), sts, **kw)
            if other and d == "frequency":
                b.freq("T%d_%d" % (k, n), t, t + 600, 200)
    fz, ag = rng.random() < 0.5, rng.random() < 0.25
    return H.Scenario("", b.f, [H.Step("TripDup", ["-I"] + (["--red-trips-fuzzy"] if fz else [])
                                       + (["--red-trips-aggressive"] if ag else []),
                                       {"fuzzy": fz, "aggressive": ag})])


@scope("stoptimes", 3, 4, 120)
def group_adj(items, rng):
    b = start()
    b.route("r", "A")
    b.service("W")
    for k, x in enumerate(items):
        t, sts = 28800, []
        for p, e in enumerate(x["st"]):
            if e["k"] in ("later", "dwell") and p:
                t += 60
            a, d = t, t
            if e["k"] == "dwell":
                t += 20
                d = t
            ex = {}
            if e["k"] == "untimed":
                a = d = None
                ex["timepoint"] = 0
            if x["odd"] == "later_dist":
                ex["shape_dist_traveled"] = 10 if p + 1 >= x["at"] else 5
            elif x["at"] == p + 1 and x["odd"] and not (x["odd"] == "timepoint" and a is None):
                ex[x["odd"]] = 3 if x["odd"] == "shape_dist_traveled" else 1
            sts.append(("s%d" % e["s"], a, d, ex))
        b.trip("t%d" % k, "r", "W", sts)
    return H.Scenario("", b.f, [H.Step("GroupAdj", ["--group-adj-stop-times"])])


@scope("stations", 0, 0, 24)
def orphan(items, rng):
    b = G.B()
    b.agency("A")
    b.route("r", "A")
    b.service("W")
    for k, x in enumerate(items):
        y, z = G.grid(k)
        n = lambda s: "%s%d" % (s, k)
        if x["par"]:
            b.stop(n("S"), y, z, "st", 1)
        b.stop(n("P"), y, z, "p", 0, n("S") if x["par"] else "")
        b.stop(n("X"), y + 9000, z, "x", 1)
        b.stop(n("XP"), y + 9000, z, "x", 0, n("X"))
        if x["p2"]:
            b.stop(n("Q"), y, z, "p", 0, n("S") if x["par"] else "")
        if x["board"] and x["par"]:
            b.stop(n("B"), y, z, "", 4, n("P"))
        if x["ent"] and x["par"]:
            b.stop(n("E"), y, z, "e", 2, n("S"))
        sts = [(n("XP"), 28800, 28800)]
        if x["use1"]:
            sts.append((n("P"), 29000, 29000))
        if x["use2"] and x["p2"]:
            sts.append((n("Q"), 30000, 30000))
        b.trip(n("t"), "r", "W", sts + [(n("XP"), 31000, 31000)])
        have = {r["stop_id"] for r in b.f["stops"]}
        tf = {"pp": ("P", "Q"), "sx": ("S", "X"), "xs": ("X", "S"), "ss": ("S", "S"),
              "ps": ("P", "S")}.get(x["tf"])
        if tf and n(tf[0]) in have and n(tf[1]) in have:
            b.transfer(n(tf[0]), n(tf[1]), 2, 60)
        pw = {"ep": ("E", "P"), "pe": ("P", "E"), "bp": ("B", "Q")}.get(x["pw"])
        if pw and n(pw[0]) in have and n(pw[1]) in have and not (x["board"] and "P" in pw):
            b.pathway(n("Y"), n(pw[0]), n(pw[1]))
    return H.Scenario("", b.f, [H.Step("Orphan", ["-O"])])


@scope("agencies", 0, 0, 8)
def agency_dup(items, rng):
    b = G.B()
    for k, diff in enumerate(items):
        for n in range(2):
            kw = {c: "http://f%d.example" % (n if c in diff else 0) for c in ("agency_url", "agency_fare_url")}
            b.agency("A%d_%d" % (k, n), "Agency %d%s" % (k, "x" if n and "agency_name" in diff else ""),
                     agency_lang="de" if n and "agency_lang" in diff else "en",
                     agency_phone="1" if n and "agency_phone" in diff else "",
                     agency_email="a@b.example" if n and "agency_email" in diff else "",
                     agency_fare_url=kw["agency_fare_url"], url=kw["agency_url"])
            b.route("R%d_%d" % (k, n), "A%d_%d" % (k, n))
            b.fare("F%d_%d" % (k, n), agency="A%d_%d" % (k, n))
            b.attribution("X%d_%d" % (k, n), agency="A%d_%d" % (k, n))
    return H.Scenario("", b.f, [H.Step("AgencyDup", ["-A"])])


def route_pair(b, k, diff, rules=()):
    vals = {"route_desc": ("", "d"), "route_url": ("http://f.example", "http://g.example"),
            "route_color": ("FF0000", "0000FF"), "route_text_color": ("FF0000", "00FF00"),
            "continuous_pickup": (1, 2), "continuous_drop_off": ("", 3)}
    for n in range(2):
        kw = {c: v[n if c in diff else 0] for c, v in vals.items()}
        i = "R%d_%d" % (k, n)
        b.route(i, "A2" if n and "agency_id" in diff else "A",
                short="s%d%s" % (k, "x" if n and "route_short_name" in diff else ""),
                long="l" if n and "route_long_name" in diff else "",
                typ=700 if n and "route_type" in diff else 3, **kw)
        t = 28800 + 600 * k + 60 * n
        b.trip("t%d_%d" % (k, n), i, "W", [("s1", t, t), ("s2", t + 900, t + 900)])
        b.attribution("X%d_%d" % (k, n), route=i)
        for fa, zone in (rules[n] if rules else ()):
            b.rule(fa, i, zone, "Z1", "Z1")


@scope("routes", 0, 0, 32)
def route_dup(items, rng):
    b = start()
    b.agency("A2", "Other")
    b.service("W")
    for k, diff in enumerate(items):
        route_pair(b, k, diff)
    return H.Scenario("", b.f, [H.Step("RouteDup", ["-R"])])


@scope("rules", 0, 0, 16)
def route_rules(items, rng):
    b = start()
    b.service("W")
    for k in range(2):
        b.fare("F%d" % k, agency="A")
    for k, rules in enumerate(items):
        route_pair(b, k, (), rules)
    return H.Scenario("", b.f, [H.Step("RouteDup", ["-R"])])


@scope("stops", 0, 0, 24)
def stop_dup(items, rng):
    b = G.B()
    b.agency("A")
    b.route("r", "A")
    b.service("W")
    for k in range(2):
        b.level("L%d" % k, k)
    y, z = G.grid(40)
    b.stop("Q", y, z, "Q")
    vals = {"stop_code": ("", "c"), "stop_desc": ("d", "e"), "zone_id": ("Z", "Y"),
            "stop_url": ("http://x.example", "http://y.example"), "stop_timezone": ("", "Europe/Paris"),
            "wheelchair_boarding": (0, 1), "level_id": ("L0", "L1"), "platform_code": ("1", "2")}
    fz = rng.random() < 0.25
    for k, diff in enumerate(items):
        y, z = G.grid(k)
        b.stop("P%d_0" % k, y, z, "Station", 1)
        b.stop("P%d_1" % k, y + 2000, z, "Other", 1)
        for n in range(2):
            kw = {c: v[n if c in diff else 0] for c, v in vals.items()}
            i = "S%d_%d" % (k, n)
            b.stop(i, y + 9 * n, z, "n" if n and "stop_name" in diff else "m", 0,
                   "P%d_%d" % (k, n if "parent_station" in diff else 0), **kw)
            t = 28800 + 600 * k + 60 * n
            b.trip("t%d_%d" % (k, n), "r", "W", [(i, t, t), ("Q", t + 900, t + 900)])
            b.transfer(i, "Q", 2, 60)
    return H.Scenario("", b.f, [H.Step("StopDup", ["-P"] + (["--red-stops-fuzzy"] if fz else []),
                                       {"fuzzy": fz})])


def one_shape(b, k, pts, sts=None):
    y, x = G.grid(k)
    b.shape("H%d" % k, [(y + p[0], x + p[1], m) for p, m in pts])
    i = 0
    use = []
    for q, m in sts or ((0, None), (len(pts) - 1, None)):
        b.stop("S%d_%d" % (k, i), y + pts[q][0][0], x + pts[q][0][1])
        use.append(("S%d_%d" % (k, i), 28800 + 600 * i, 28800 + 600 * i,
                    {} if m is None else {"shape_dist_traveled": m}))
        i += 1
    b.trip("T%d" % k, "R", "W", use, shape_id="H%d" % k)


def shapes():
    b = G.B()
    b.agency("A")
    b.route("R", "A")
    b.service("W")
    return b


@scope("courses", 4, 5, 60)
def shape_min(items, rng):
    b = shapes()
    for k, x in enumerate(items):
        full = rng.random() < 0.5
        one_shape(b, k, [(p, 10 * q if full else None) for q, p in enumerate(x)])
    return H.Scenario("", b.f, [H.Step("ShapeMin", ["-s"])])


@scope("courses", 4, 5, 40)
def shape_dup(items, rng):
    """Each course and a slight variation of it."""
    b = shapes()
    for k, x in enumerate(items):
        one_shape(b, 2 * k, [(p, 10 * q) for q, p in enumerate(x)])
        y = [list(p) for p in x]
        kind = rng.randrange(4)
        if kind == 1:
            y[rng.randrange(len(y))][0] += 2
        elif kind == 2:
            y = y[::-1]
        elif kind == 3:
            y = y[:-1]
        y0, x0 = G.grid(2 * k)
        y1, x1 = G.grid(2 * k + 1)
        one_shape(b, 2 * k + 1, [((p[0] + y0 - y1, p[1] + x0 - x1), 10 * q) for q, p in enumerate(y)])
    return H.Scenario("", b.f, [H.Step("ShapeDup", ["-S"])])


@scope("measures", 4, 5, 40)
def shape_measure(items, rng):
    b = shapes()
    for k, ms in enumerate(items):
        one_shape(b, k, [((0, 500 * q), None if m < 0 else m) for q, m in enumerate(ms)])
    return H.Scenario("", b.f, [H.Step("ShapeMeasure", ["-m"])])


@scope("measures", 4, 5, 40)
def stop_measure(items, rng):
    b = shapes()
    for k, ms in enumerate(items):
        pts = [((0, 4000 * q), 10 * q if rng.random() < 0.8 else None) for q in range(len(ms) + 1)]
        one_shape(b, k, pts, [(q, None if m < 0 else m * 8) for q, m in enumerate(ms)] + [(len(ms), None)])
    return H.Scenario("", b.f, [H.Step("StopMeasure", ["-r"])])


@scope("windows", 5, 7, 1)
def windows(items, rng):
    a, z = items[0]
    b = start()
    b.route("r", "A")
    for k, x in enumerate(rng.sample(windows.more, min(60, len(windows.more)))):
        write(b, "W%d" % k, x["sv"])
        b.trip("t%d" % k, "r", "W%d" % k, [("s1", 60 * k, 60 * k), ("s2", 600 + 60 * k, 600 + 60 * k)])
    fl = (["--date-start", F.ymd(G.BASE - 1 + a)] if a else []) + (["--date-end", F.ymd(G.BASE - 1 + z)] if z else [])
    return H.Scenario("", b.f, [H.Step("DateFilter", fl, {"from": G.BASE - 1 + a if a else 1,
                                                          "to": G.BASE - 1 + z if z else 2000000})])


windows.also = ("written", 5)



# every combination of options, each on a feed of its own
@scope("options", 0, 0, 1)
def options_offer(items, rng):
    return g_pipeline.offer(0, rng, items[0])


@scope("options", 0, 0, 1)
def options_sound(items, rng):
    return g_pipeline.sound(0, rng, items[0])


@scope("options", 0, 0, 1)
def options_normal(items, rng):
    return g_pipeline.normal(0, rng, items[0])


@scope("options", 0, 0, 1)
def options_frames(items, rng):
    return g_pipeline.frames(0, rng, items[0])


@scope("shapeoptions", 0, 0, 1)
def shape_options_frames(items, rng):
    return g_pipeline.frames(0, rng, items[0])


@scope("shapeoptions", 0, 0, 1)
def shape_options_sound(items, rng):
    return g_pipeline.sound(0, rng, items[0])


def tiny_feed(x):
    """A feed of spec/Design.tla."""
    b = start()
    for k in (1, 2):
        b.route("R%d" % k, "A", short="r")
        days = x["d"][k - 1]
        if x["row"][k - 1]:
            b.service("S%d" % k, (1,) * 7, G.BASE - 1 + min(days), G.BASE - 1 + max(days))
            for d in range(min(days), max(days)):
                if d not in days:
                    b.ex("S%d" % k, G.BASE - 1 + d, 2)
        else:
            on_dates(b, "S%d" % k, days)
    for k, t in enumerate(x["tr"]):
        s = 600 * t["slot"]
        b.trip("T%d" % k, "R%d" % t["ro"], "S%d" % t["sv"],
               [("s1", s, s, {"pickup_type": t["pu"]}), ("s2", s + 300, s + 300)])
        if t["fr"]:
            b.freq("T%d" % k, s, s + 1200, 600, 1)
    return b.f


TINY = {"C": ("ServiceDup", "-C", {}), "R": ("RouteDup", "-R", {}), "O": ("Orphan", "-O", {}),
        "I": ("TripDup", "-I", {"fuzzy": False, "aggressive": False}),
        "T": ("FrequencyMin", "-T", {"minH": 1, "maxH": 86400}), "c": ("ServiceMin", "-c", {}),
        "N": ("NonOverlap", "--non-overlapping-services", {}),
        "X": ("CalDatesRem", "--remove-cal-dates", {})}


def tiny(o):
    @scope("tiny", 2, 2, 1)
    def one(items, rng):
        """Any options first, then this one."""
        steps = [H.Step("Any", [TINY[rng.choice(sorted(TINY))][1]])
                 for _ in range(rng.choice([0, 0, 1, 2]))] + [H.Step(TINY[o][0], [TINY[o][1]], TINY[o][2])]
        return H.Scenario("", tiny_feed(items[0]), steps)
    one.__name__ = "tiny_" + o
    return one


for o in TINY:
    globals()["tiny_" + o] = tiny(o)


@scope("tiny", 2, 2, 1)
def tiny_offer(items, rng):
    """A behaviour of the design: options after each other."""
    steps = []
    for _ in range(rng.randint(1, 4)):
        fl = rng.sample(sorted(TINY), rng.choice([1, 1, 1, 2]))
        st = g_pipeline.call_with(rng, [TINY[x][1] for x in fl], [])
        st.act = "RunSame"
        steps.append(st)
    return H.Scenario("", tiny_feed(items[0]), steps)


def chunks(scratch, fn, tier, seed, limit):
    """The scenarios of a scope, at most `limit' of them; and how many items there are."""
    import random
    items = enumerate_(scratch, fn.which, fn.size[tier])
    if hasattr(fn, "also"):
        fn.more = enumerate_(scratch, *fn.also)
    random.Random("%s/%d" % (fn.__name__, seed)).shuffle(items)
    out, used = [], 0
    for i in range(0, len(items), fn.chunk):
        if len(out) >= limit:
            break
        rng = random.Random("g_scope.%s/%d/%d" % (fn.__name__, seed, i))
        part = items[i:i + fn.chunk]
        sc = G.make(lambda _, r: fn(part, r), i, rng)
        sc.id = "g_scope.%s/%s/%d/%d" % (fn.__name__, tier, seed, i // fn.chunk)
        for st in sc.steps:
            st.procs = rng.choice([None, None, 1, 2, 3, 8])
        out.append(sc)
        used += len(part)
    return out, used, len(items)
