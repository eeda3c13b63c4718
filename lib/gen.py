"""Feed construction primitives and the general purpose random feed.

Everything is driven by a random.Random passed in, so VERIF_SEED decides all.
Coordinates are micro-degrees near the equator (1 udeg ~ 0.1113 m on both axes),
and distances used are kept away from every threshold of the program.
"""
import datetime

import feed as F

BASE = datetime.date(2024, 3, 4).toordinal()      # a Monday
# other weeks to start in: before a year's end, a leap day, the change to summer time, ...
BASES = [datetime.date(*d).toordinal() for d in (
    (2024, 12, 16), (2025, 12, 15), (2020, 12, 21), (2021, 12, 20), (2024, 2, 12), (2023, 2, 13),
    (2024, 3, 18), (2024, 10, 21), (2024, 11, 25), (1999, 12, 20), (2100, 2, 15), (1904, 2, 15),
    (2150, 12, 14), (2038, 1, 4))]


def make(mk, i, rng):
    """A scenario; some are moved to another part of the calendar."""
    global BASE
    BASE = datetime.date(2024, 3, 4).toordinal()
    if rng.random() < 0.35:
        BASE = rng.choice(BASES)
    try:
        return mk(i, rng)
    finally:
        BASE = datetime.date(2024, 3, 4).toordinal()
DAYS = ["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"]


def deg(u):
    s = "-" if u < 0 else ""
    u = abs(u)
    return "%s%d.%06d" % (s, u // 1000000, u % 1000000)


class B:
    def __init__(self):
        self.f = F.new_feed()

    def agency(self, i, name="Agency", url="http://a.example", tz="Europe/Berlin", **kw):
        r = {"agency_id": i, "agency_name": name, "agency_url": url, "agency_timezone": tz}
        r.update(kw)
        self.f["agency"].append(r)
        return i

    def stop(self, i, lat, lon, name=None, lt=0, parent="", **kw):
        r = {"stop_id": i, "stop_name": "Stop %s" % i if name is None else name,
             "stop_lat": deg(lat), "stop_lon": deg(lon),
             "location_type": lt if lt else "", "parent_station": parent}
        r.update(kw)
        self.f["stops"].append(r)
        return i

    def route(self, i, agency="", short=None, long="", typ=3, **kw):
        r = {"route_id": i, "agency_id": agency, "route_short_name": i if short is None else short,
             "route_long_name": long, "route_type": typ}
        r.update(kw)
        self.f["routes"].append(r)
        return i

    def cal(self, i, days, s, e):
        r = {"service_id": i, "start_date": F.ymd(s), "end_date": F.ymd(e)}
        for d, v in zip(DAYS, days):
            r[d] = 1 if v else 0
        self.f["calendar"].append(r)
        return i

    def ex(self, i, d, t):
        self.f["calendar_dates"].append({"service_id": i, "date": F.ymd(d), "exception_type": t})

    def service(self, i, days=(1, 1, 1, 1, 1, 0, 0), s=0, e=0, add=(), rem=()):
        if s is not None:
            s, e = s or BASE, e or BASE + 13
            self.cal(i, days, s, e)
        for d in add:
            self.ex(i, d, 1)
        for d in rem:
            self.ex(i, d, 2)
        return i

    def trip(self, i, route, service, sts, **kw):
        """sts: list of (stop, arr, dep) or (stop, arr, dep, dict)."""
        r = {"trip_id": i, "route_id": route, "service_id": service}
        r.update(kw)
        self.f["trips"].append(r)
        for q, st in enumerate(sts):
            x = {"trip_id": i, "stop_id": st[0], "stop_sequence": q + 1,
                 "arrival_time": F.hms(st[1]) if st[1] is not None else "",
                 "departure_time": F.hms(st[2]) if st[2] is not None else ""}
            if len(st) > 3:
                x.update(st[3])
            self.f["stop_times"].append(x)
        return i

    def freq(self, trip, s, e, h, x=""):
        self.f["frequencies"].append({"trip_id": trip, "start_time": F.hms(s),
                                      "end_time": F.hms(e), "headway_secs": h, "exact_times": x})

    def shape(self, i, pts):
        """pts: list of (lat, lon, dist or None)."""
        for q, p in enumerate(pts):
            self.f["shapes"].append({
                "shape_id": i, "shape_pt_lat": deg(p[0]), "shape_pt_lon": deg(p[1]),
                "shape_pt_sequence": q + 1,
                "shape_dist_traveled": "" if p[2] is None else p[2]})
        return i

    def transfer(self, fs="", ts="", typ=0, mt="", **kw):
        r = {"from_stop_id": fs, "to_stop_id": ts, "transfer_type": typ, "min_transfer_time": mt}
        r.update(kw)
        self.f["transfers"].append(r)

    def pathway(self, i, a, b, mode=1, bi=1, **kw):
        r = {"pathway_id": i, "from_stop_id": a, "to_stop_id": b, "pathway_mode": mode,
             "is_bidirectional": bi}
        r.update(kw)
        self.f["pathways"].append(r)

    def level(self, i, idx=0, name=""):
        self.f["levels"].append({"level_id": i, "level_index": idx, "level_name": name})

    def fare(self, i, price="1.50", agency="", **kw):
        r = {"fare_id": i, "price": price, "currency_type": "EUR", "payment_method": 0,
             "transfers": 0, "agency_id": agency, "transfer_duration": 0}
        r.update(kw)
        self.f["fare_attributes"].append(r)

    def rule(self, fare, route="", o="", d="", c=""):
        self.f["fare_rules"].append({"fare_id": fare, "route_id": route, "origin_id": o,
                                     "destination_id": d, "contains_id": c})

    def attribution(self, i, org="Org", agency="", route="", trip="", **kw):
        r = {"attribution_id": i, "organization_name": org, "agency_id": agency,
             "route_id": route, "trip_id": trip, "is_producer": 1}
        r.update(kw)
        self.f["attributions"].append(r)


def rand_days(rng):
    k = rng.random()
    if k < 0.25:
        return [1, 1, 1, 1, 1, 0, 0]
    if k < 0.35:
        return [0, 0, 0, 0, 0, 1, 1]
    if k < 0.45:
        return [1] * 7
    return [1 if rng.random() < 0.5 else 0 for _ in range(7)]


def rand_service(b, rng, i, span=28, base=0, dates_only=0.3, max_ex=6):
    """A service with a random calendar row and/or exceptions, never wholly undefined."""
    base = base or BASE
    s = base + rng.randrange(0, span // 2)
    e = s + rng.randrange(0, span // 2)
    if rng.random() < dates_only:
        ds = rng.sample(range(base, base + span), rng.randint(1, max_ex))
        for d in ds:
            b.ex(i, d, 1)
        return i
    days = rand_days(rng)
    if not any(days):
        days[rng.randrange(7)] = 1
    b.cal(i, days, s, e)
    pool = list(range(s - 4, e + 5))
    for d in rng.sample(pool, min(len(pool), rng.choice([0, 0, 1, 2, 3, max_ex]))):
        inside = s <= d <= e and days[(d - 1) % 7]
        t = 2 if inside else 1
        if rng.random() < 0.1:
            t = 3 - t            # redundant exception
        b.ex(i, d, t)
    return i


def active(b, i):
    """The active dates of a service of the feed."""
    on = set()
    for r in b.f["calendar"]:
        if r["service_id"] == i:
            on |= {d for d in range(F.ordinal(r["start_date"]), F.ordinal(r["end_date"]) + 1)
                   if int(r[DAYS[(d - 1) % 7]])}
    for r in b.f["calendar_dates"]:
        if r["service_id"] == i:
            (on.add if int(r["exception_type"]) == 1 else on.discard)(F.ordinal(r["date"]))
    return sorted(on)


def near_service(b, rng, src, i):
    """A service like another one, but for a few dates; often the same first and last date and
    as many of them."""
    on = active(b, src)
    if not on:
        return rand_service(b, rng, i)
    first, last = on[0], on[-1]
    ds = set(on)
    off = [d for d in range(first, last + 1) if d not in ds]
    k = rng.random()
    if k < 0.6 and len(on) > 2 and off:
        ds.discard(rng.choice(on[1:-1]))
        ds.add(rng.choice(off))
    elif k < 0.7 and len(on) > 1:
        ds.discard(rng.choice(on))
    elif k < 0.8:
        ds.add(rng.choice([first - 1, last + 1, last + 8] + off[:1]))
    elif k < 0.9:
        ds = {d + rng.choice([1, 7]) for d in ds} if rng.random() < 0.5 else {d + 7 for d in ds}
    if rng.random() < 0.5 and len(ds) < 20:
        for d in ds:
            b.ex(i, d, 1)
        return i
    lo, hi = min(ds), max(ds)
    days = [1 if 2 * sum(1 for d in range(lo, hi + 1) if (d - 1) % 7 == w and d in ds)
            > sum(1 for d in range(lo, hi + 1) if (d - 1) % 7 == w) else 0 for w in range(7)]
    if not any(days):
        days[(lo - 1) % 7] = 1
    b.cal(i, days, lo, hi)
    for d in range(lo, hi + 1):
        if (d in ds) != bool(days[(d - 1) % 7]):
            b.ex(i, d, 1 if d in ds else 2)
    return i


def grid(k):
    """Centre of the k-th place; places are about 5.5 km apart."""
    return 500000 + 50000 * (k // 4), 500000 + 50000 * (k % 4)


BLOCKS = ["blk%d", "blk%d", "%d", "0%d", "1b%d", "0#%d", "#%d", "p%d"]


def rich(rng, n_trips=8, additional=False, all_stop_kinds=True, shapes=True, freqs=True,
         ids=lambda kind, k: "%s%d" % (kind, k), fares=True, dates_only=0.3, base=0,
         unique_names=False):
    """A valid feed that uses every table and has some redundancy in each."""
    base = base or BASE
    b = B()
    nag = rng.randint(1, 3)
    ags = []
    for k in range(nag):
        ags.append(b.agency(ids("A", k), "Agency %d" % rng.randrange(2), **(
            {"agency_phone": "123"} if rng.random() < 0.3 else {})))
    nlev = rng.randint(0, 3)
    for k in range(nlev):
        b.level(ids("L", k), rng.choice([0, 0, 1, 1, "0.5", "-1", "1.25"]), "lvl%d" % rng.randrange(2))
    plats, others = [], []
    npl = rng.randint(2, 4)
    for k in range(npl):
        y, x = grid(k)
        kind = rng.random()
        zone = "Z%d" % (k % 2)
        if kind < 0.5:
            sid = b.stop(ids("P", k), y, x, "Station %d" % k, 1, zone_id="")
            for j in range(rng.randint(1, 3)):
                kw = {"zone_id": zone, "platform_code": rng.choice(["", "1", "2"])}
                if nlev and rng.random() < 0.5:
                    kw["level_id"] = ids("L", rng.randrange(nlev))
                dy = rng.choice([0, 0, 9, 180])          # 0, 1 m, 20 m
                plats.append(b.stop(ids("S", 10 * k + j), y + dy, x, "Station %d" % k, 0, sid,
                                    **kw))
                if all_stop_kinds and rng.random() < 0.3:
                    others.append(b.stop(ids("B", 10 * k + j), y + 20, x + 20, "", 4, plats[-1]))
            if all_stop_kinds and rng.random() < 0.5:
                others.append(b.stop(ids("E", k), y + 300, x, "Entrance", 2, sid))
            if all_stop_kinds and rng.random() < 0.4:
                others.append(b.stop(ids("N", k), y + 100, x + 60, "", 3, sid))
        else:
            for j in range(rng.randint(1, 2)):
                plats.append(b.stop(ids("S", 10 * k + j), y + rng.choice([0, 9, 2700]), x,
                                    "Place %d%s" % (k, "abc"[j] if unique_names else ""), 0,
                                    zone_id=zone))
    routes = []
    for k in range(rng.randint(2, 4)):
        kw = {}
        if rng.random() < 0.3:
            kw["route_color"] = rng.choice(["FF0000", "00FF00"])
        if rng.random() < 0.2:
            kw["route_desc"] = "desc"
        routes.append(b.route(ids("R", k), rng.choice(ags), "r%d" % rng.randrange(2), "",
                              rng.choice([3, 3, 3, 2]), **kw))
    svs = [rand_service(b, rng, ids("W", k), base=base, dates_only=dates_only)
           for k in range(rng.randint(2, 4))]
    shps = []
    if shapes:
        for k in range(rng.randint(0, 3)):
            y, x = grid(0)
            pts, m = [], 0
            for j in range(rng.randint(2, 5)):
                pts.append((y + 3000 * j * (1 + k % 2), x + rng.choice([0, 0, 2000]),
                            m if rng.random() < 0.6 else None))
                m += rng.randint(1, 9) * 100
            shps.append(b.shape(ids("H", k), pts))
    pats = []
    for k in range(rng.randint(1, 3)):
        L = min(len(plats), rng.randint(2, 4))
        pats.append(rng.sample(plats, L))
    trs = []
    for k in range(n_trips):
        pat = rng.choice(pats)
        t = 3600 * rng.randrange(5, 9) + 600 * rng.randrange(0, 6)
        sts = []
        for j, s in enumerate(pat):
            dw = rng.choice([0, 0, 60]) if j else 0
            ex = {}
            if rng.random() < 0.05:
                ex["pickup_type"] = 1
            sts.append((s, t, t + dw, ex))
            t += dw + 600
        kw = {}
        if shps and rng.random() < 0.5:
            kw["shape_id"] = rng.choice(shps)
        if rng.random() < 0.4:
            kw["trip_headsign"] = "to %s" % rng.choice("XY")
        if rng.random() < 0.2:
            kw["trip_short_name"] = "sn%d" % rng.randrange(3)
        if rng.random() < 0.3:
            kw["direction_id"] = rng.randrange(2)
        if rng.random() < 0.2:
            kw["block_id"] = rng.choice(BLOCKS) % rng.randrange(2)
        if rng.random() < 0.2:
            kw["wheelchair_accessible"] = rng.randint(1, 2)
        if rng.random() < 0.2:
            kw["bikes_allowed"] = rng.randint(1, 2)
        i = b.trip(ids("T", k), rng.choice(routes), rng.choice(svs), sts, **kw)
        trs.append(i)
        if freqs and rng.random() < 0.15:
            h = rng.choice([300, 600, 900])
            st0 = sts[0][1]
            end = st0 + h * rng.randint(1, 4)
            ex = rng.choice([0, 1])
            b.freq(i, st0, end, h, ex)
            while rng.random() < 0.3:
                st1 = end + rng.choice([0, 0, 60, 1800])
                h = rng.choice([300, 600, 900])
                end = st1 + h * rng.randint(1, 4)
                b.freq(i, st1, end, h, rng.choice([ex, ex, 0, 1]))
    keys = set()
    for k in range(rng.randint(0, 4)):
        a, c = rng.choice(plats), rng.choice(plats)
        if (a, c) not in keys:
            keys.add((a, c))
            b.transfer(a, c, rng.choice([0, 1, 2]), rng.choice(["", 60]))
    if rng.random() < 0.3:
        a, c = rng.sample(trs, 2)
        b.transfer("", "", 4, "", from_trip_id=a, to_trip_id=c)
    if rng.random() < 0.3:
        a, c = rng.sample(routes, 2)
        b.transfer("", "", 1, "", from_route_id=a, to_route_id=c)
    pn = plats + others
    for k in range(rng.randint(0, 3)):
        a, c = rng.sample(pn, 2)
        b.pathway(ids("Y", k), a, c, rng.randint(1, 3), rng.randrange(2), traversal_time=30)
    if fares:
        for k in range(rng.randint(0, 3)):
            b.fare(ids("F", k), "%d.50" % rng.randrange(2), rng.choice(ags))
            for _ in range(rng.randint(0, 2)):
                b.rule(ids("F", k), rng.choice(routes + [""]), "Z0", rng.choice(["Z1", "Z0"]),
                       rng.choice(["Z1", "Z0"]))
    for k in range(rng.randint(0, 2)):
        kw = rng.choice([{"agency": rng.choice(ags)}, {"route": rng.choice(routes)},
                         {"trip": rng.choice(trs)}, {}])
        b.attribution(ids("X", k), "Org %d" % k, **kw)
    if rng.random() < 0.5:
        b.f["feed_info"].append({"feed_publisher_name": "pub", "feed_publisher_url":
                                 "http://p.example", "feed_lang": "en", "feed_version": "v1"})
    if nag == 1 and rng.random() < 0.4:
        lone(b.f, rng)
    if additional:
        add_fields(b.f, rng)
    return b.f


def lone(f, rng):
    """The only agency of a feed need not be named, nor have an id."""
    nameless = rng.random() < 0.5
    for t in ("agency", "routes", "fare_attributes", "attributions"):
        for r in f[t]:
            if nameless or (t in ("routes", "fare_attributes") and rng.random() < 0.6):
                r["agency_id"] = ""
    return f


def named(f):
    """Undoes lone, for feeds which get more agencies."""
    if len(f["agency"]) == 1:
        a = f["agency"][0]
        a["agency_id"] = a["agency_id"] or "A0"
        for t in ("routes", "fare_attributes"):
            for r in f[t]:
                r["agency_id"] = r["agency_id"] or a["agency_id"]
    return f


def add_fields(f, rng, tables=("agency", "stops", "routes", "trips", "stop_times", "shapes",
                               "transfers", "pathways", "levels", "fare_attributes",
                               "fare_rules", "frequencies", "attributions"), p=0.8):
    n = 0
    for t in tables:
        two = rng.random() < 0.3
        for r in f[t]:
            for c in ("x_%s", "x_%s_2")[:1 + two]:
                if rng.random() < p:
                    n += 1
                    r[c % t] = "v%d" % n
    return f


def few_fields(f, rng, n=2):
    """Additional columns with few values, so that rows may agree in them."""
    for t in f:
        if t in ("calendar", "calendar_dates", "feed_info") or rng.random() < 0.3:
            continue
        two = rng.random() < 0.3
        for r in f[t]:
            for c in ("x_%s", "x_%s_2")[:1 + two]:
                v = rng.randrange(n + 1) if c == "x_%s" else rng.choice([0, 0, 1, 2])
                if v:
                    r[c % t] = "v%d" % v


def fielded(mk):
    """The scenarios of mk, some of them with additional fields and -F."""
    def with_fields(i, rng):
        sc = mk(i, rng)
        if sc is not None and rng.random() < 0.3 and not any("-F" in st.flags for st in sc.steps):
            if rng.random() < 0.5:
                few_fields(sc.feed, rng, rng.choice([1, 2]))
            else:
                add_fields(sc.feed, rng)
            for st in sc.steps:
                st.flags.append("-F")
        return sc
    with_fields.__name__ = mk.__name__
    return with_fields


STOP_TIME_FIELDS = {"stop_headsign": ["h1", "h2"], "pickup_type": [0, 1, 2, 3],
                    "drop_off_type": [0, 1, 2, 3], "continuous_pickup": [0, 1, 2, 3],
                    "continuous_drop_off": [0, 1, 2, 3], "timepoint": [0, 1],
                    "shape_dist_traveled": None}


def touch_stop_times(f, rng, p=0.3, only=None):
    """Some trips get another value in one field of one of their stop times."""
    for t in f["trips"]:
        if rng.random() >= p:
            continue
        rows = [r for r in f["stop_times"] if r["trip_id"] == t["trip_id"]]
        c = rng.choice(only or sorted(STOP_TIME_FIELDS))
        if c == "shape_dist_traveled":
            base = rng.choice([0, 0, 3, 10])
            for k, r in enumerate(rows):
                r[c] = base + 5 * k
            if rows and rng.random() < 0.3:
                rows[-1][c] += 3
        elif rows:
            r = rng.choice(rows)
            if c != "timepoint" or r["arrival_time"]:
                r[c] = rng.choice(STOP_TIME_FIELDS[c])


TRIP_FIELDS = {"block_id": ["B1", "B2"], "trip_headsign": ["x", "y"], "trip_short_name": ["1", "2"],
               "direction_id": [0, 1], "wheelchair_accessible": [1, 2], "bikes_allowed": [1, 2]}


def touch_trips(f, rng, p=0.3):
    """Some trips get another value in some of their fields."""
    for t in f["trips"]:
        while rng.random() < p:
            c = rng.choice(sorted(TRIP_FIELDS))
            t[c] = rng.choice(TRIP_FIELDS[c])


# ids as the program itself makes them: feeds may have been tidied before
MADE = {"stop_id": ["par::%s", "par1::%s", "1#%s", "2#%s"],
        "service_id": ["merged0", "merged1", "merged2", "excl0", "W0_0", "Monday", "Sunday", "Monday (WW10)"],
        "trip_id": ["freq0", "0", "1", "%s:Monday", "%s_0"],
        "route_id": ["0", "1", "a"], "shape_id": ["0", "1", "a"]}
REFS = {"stop_id": ("stop_id", "parent_station", "from_stop_id", "to_stop_id"),
        "service_id": ("service_id",), "trip_id": ("trip_id", "from_trip_id", "to_trip_id"),
        "route_id": ("route_id", "from_route_id", "to_route_id"), "shape_id": ("shape_id",)}
HOME = {"stop_id": ("stops",), "service_id": ("calendar", "calendar_dates"), "trip_id": ("trips",),
        "route_id": ("routes",), "shape_id": ("shapes",)}


def rename_id(f, col, old, new):
    for t in f:
        for r in f[t]:
            for c in REFS[col]:
                if r.get(c) == old:
                    r[c] = new


def retidied(f, rng, cols=("service_id", "stop_id", "trip_id", "route_id", "shape_id"), n=2):
    """Some ids become ones which the program would make up."""
    for _ in range(n):
        col = rng.choice(cols)
        have = sorted({str(r[col]) for t in HOME[col] for r in f[t]})
        if not have:
            continue
        old = rng.choice(have)
        new = rng.choice(MADE[col])
        if "%s" in new:
            new = new % rng.choice(have)
        if new not in have:
            rename_id(f, col, old, new)
    return f


def fresh(f, col, table, stem):
    have = {str(r.get(col)) for r in f[table]}
    k = 0
    while "%s%d" % (stem, k) in have:
        k += 1
    return "%s%d" % (stem, k)


TWIN_ROUTE = {"route_type": None, "route_color": ["FF0000", "00FF01", "0000FF"],
              "route_text_color": ["FF0000", "000001"], "route_desc": ["other"],
              "route_url": ["http://r.example/x"], "continuous_pickup": [0, 1, 2, 3],
              "continuous_drop_off": [0, 1, 2, 3], "route_short_name": ["other"],
              "route_sort_order": ["1", "7"], "agency_id": None}
EXTENDED = {0: [900, 902], 1: [400, 401], 2: [100, 106, 109], 3: [700, 702, 704, 200, 3], 4: [1000],
            700: [3, 702], 702: [700, 704], 704: [3, 715]}
TWIN_STOP = {"stop_name": ["Elsewhere", ""], "zone_id": ["Z0", "Z1"], "platform_code": ["1", "2", "3"],
             "wheelchair_boarding": [1, 2], "stop_code": ["c1", "c2"], "stop_desc": ["desc"],
             "stop_url": ["http://s.example"], "stop_timezone": ["Europe/Paris"]}


def twins(f, rng, n=None):
    """Near-duplicates: copies of rows with one field changed (or none), which are used instead of the
    row they were copied from here and there."""
    for _ in range(rng.randint(1, 4) if n is None else n):
        k = rng.choice(["route", "route", "stop", "stop", "trip", "trip", "service", "agency",
                        "level", "shape", "fare"])
        if k == "route" and f["routes"] and f["trips"]:
            old = rng.choice(f["routes"])
            x = dict(old, route_id=fresh(f, "route_id", "routes", "tw"))
            c = rng.choice(["route_type"] * 4 + sorted(TWIN_ROUTE) + ["", ""])
            if c == "route_type":
                x[c] = rng.choice(EXTENDED.get(int(x[c]), [3]))
            elif c == "agency_id":
                if len(f["agency"]) > 1:
                    x[c] = rng.choice(f["agency"])["agency_id"]
            elif c:
                x[c] = rng.choice(TWIN_ROUTE[c])
            f["routes"].append(x)
            use = [t for t in f["trips"] if t["route_id"] == old["route_id"]] or f["trips"]
            for t in use:
                if rng.random() < 0.5:
                    t["route_id"] = x["route_id"]
        elif k == "stop" and f["stops"]:
            old = rng.choice(f["stops"])
            lt = str(old["location_type"])
            if lt not in ("", "0", "1"):
                continue
            x = dict(old, stop_id=fresh(f, "stop_id", "stops", "tw"))
            c = rng.choice(["stop_name"] * 2 + sorted(TWIN_STOP) + ["level_id", "parent_station", "", ""])
            if c == "level_id":
                if f["levels"] and lt != "1":
                    x[c] = rng.choice(f["levels"])["level_id"]
            elif c == "parent_station":
                if lt != "1":
                    x[c] = ""
            elif c:
                x[c] = rng.choice(TWIN_STOP[c])
                if c == "stop_name" and not x[c] and lt == "1":
                    x[c] = "S"
                if lt == "1" and c in ("platform_code", "zone_id"):
                    x[c] = old.get(c, "")
            x["stop_name"] = x["stop_name"] or "Elsewhere"
            d = rng.choice([0, 0, 9, 27, 60])
            x["stop_lat"] = deg(round(float(old["stop_lat"]) * 1e6) + d)
            f["stops"].append(x)
            if lt == "1":
                for s in f["stops"]:
                    if s.get("parent_station") == old["stop_id"] and rng.random() < 0.5:
                        s["parent_station"] = x["stop_id"]
            else:
                for s in f["stop_times"]:
                    if s["stop_id"] == old["stop_id"] and rng.random() < 0.5:
                        s["stop_id"] = x["stop_id"]
                for p in f["pathways"]:
                    for e in ("from_stop_id", "to_stop_id"):
                        if p[e] == old["stop_id"] and rng.random() < 0.3:
                            p[e] = x["stop_id"]
                for s in f["stops"]:
                    if str(s["location_type"]) == "4" and s["parent_station"] == old["stop_id"] \
                            and rng.random() < 0.3:
                        s["parent_station"] = x["stop_id"]
        elif k == "trip" and f["trips"]:
            old = rng.choice(f["trips"])
            x = dict(old, trip_id=fresh(f, "trip_id", "trips", "tw"))
            sts = [dict(r, trip_id=x["trip_id"]) for r in f["stop_times"] if r["trip_id"] == old["trip_id"]]
            g = {"trips": [x], "stop_times": sts}
            r = rng.random()
            if r < 0.4:
                touch_trips(g, rng, 0.6)
            elif r < 0.7:
                touch_stop_times(g, rng, 1)
            elif r < 0.8 and f["routes"]:
                x["route_id"] = rng.choice(f["routes"])["route_id"]
            elif r < 0.9:
                x["service_id"] = rng.choice(f["trips"])["service_id"]
            f["trips"].append(x)
            f["stop_times"] += sts
            f["frequencies"] += [dict(q, trip_id=x["trip_id"]) for q in f["frequencies"]
                                 if q["trip_id"] == old["trip_id"]]
        elif k == "service" and f["trips"]:
            old = rng.choice(f["trips"])["service_id"]
            b = B()
            b.f = f
            i = "tw0"
            while any(r["service_id"] == i for t in ("calendar", "calendar_dates") for r in f[t]):
                i += "0"
            near_service(b, rng, old, i)
            for t in f["trips"]:
                if t["service_id"] == old and rng.random() < 0.5:
                    t["service_id"] = i
        elif k == "agency" and f["agency"]:
            if any(not a["agency_id"] for a in f["agency"]) and len(f["agency"]) > 1:
                continue
            named(f)
            old = rng.choice(f["agency"])
            x = dict(old, agency_id=fresh(f, "agency_id", "agency", "tw"))
            c = rng.choice(["agency_name", "agency_phone", "agency_fare_url", "agency_email",
                            "agency_lang", "agency_url", ""])
            if c:
                x[c] = {"agency_lang": "de", "agency_email": "a@b.example", "agency_phone": "77",
                        "agency_name": "Other"}.get(c, "http://o.example")
            f["agency"].append(x)
            for t in ("routes", "fare_attributes"):
                for r in f[t]:
                    if r["agency_id"] == old["agency_id"] and rng.random() < 0.4:
                        r["agency_id"] = x["agency_id"]
        elif k == "level" and f["levels"]:
            old = rng.choice(f["levels"])
            x = dict(old, level_id=fresh(f, "level_id", "levels", "tw"))
            c = rng.choice(["level_index", "level_name", ""])
            if c:
                x[c] = {"level_index": "3", "level_name": "other"}[c]
            f["levels"].append(x)
            for s in f["stops"]:
                if s.get("level_id") == old["level_id"] and rng.random() < 0.5:
                    s["level_id"] = x["level_id"]
        elif k == "shape" and f["shapes"]:
            old = rng.choice(f["shapes"])["shape_id"]
            i = fresh(f, "shape_id", "shapes", "tw")
            d, m = rng.choice([(0, 0), (5, 0), (0, 1), (40, 0)])
            rows = [dict(r, shape_id=i) for r in f["shapes"] if r["shape_id"] == old]
            for r in rows:
                if d:
                    r["shape_pt_lon"] = deg(round(float(r["shape_pt_lon"]) * 1e6) + d)
                if m and r["shape_dist_traveled"] not in ("", None):
                    r["shape_dist_traveled"] = float(r["shape_dist_traveled"]) + m
            f["shapes"] += rows
            for t in f["trips"]:
                if t.get("shape_id") == old and rng.random() < 0.5:
                    t["shape_id"] = i
        elif k == "fare" and f["fare_attributes"]:
            old = rng.choice(f["fare_attributes"])
            x = dict(old, fare_id=fresh(f, "fare_id", "fare_attributes", "tw"))
            c = rng.choice(["price", "payment_method", "transfers", "transfer_duration", "currency_type", ""])
            if c:
                x[c] = {"price": "9.00", "payment_method": 1, "transfers": rng.choice([1, 2, ""]),
                        "transfer_duration": 60, "currency_type": "USD"}[c]
            f["fare_attributes"].append(x)
            f["fare_rules"] += [dict(r, fare_id=x["fare_id"]) for r in f["fare_rules"]
                                if r["fare_id"] == old["fare_id"]]
    return f
