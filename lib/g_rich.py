"""Every action on feeds which use all tables (each table somewhat redundant)."""
import feed as F
import gen as G
import g_ids
import harness as H


def some(rng, add=None):
    kw = {}
    if rng.random() < 0.2:
        kw["ids"] = g_ids.numeric(rng)
    add = rng.random() < 0.3 if add is None else add
    f = G.rich(rng, n_trips=rng.choice([2, 3, 6, 9, 14]), additional=add,
               dates_only=rng.choice([0, 0.3, 1]), **kw)
    if rng.random() < 0.3:
        G.twins(f, rng)
    return f, (["-F"] if add else [])


def one(act, flags, args=None):
    def mk(i, rng):
        f, extra = some(rng)
        return H.Scenario("", f, [H.Step(act, flags + extra, args)])
    return mk


service_min = one("ServiceMin", ["-c"])
service_dup0 = one("ServiceDup", ["-C"])
cal_dates = one("CalDatesRem", ["--remove-cal-dates"])
non_overlap = one("NonOverlap", ["--non-overlapping-services"])
frequency = one("FrequencyMin", ["-T"], {"minH": 1, "maxH": 86400})
trip_dup = one("TripDup", ["-I"], {"fuzzy": False, "aggressive": False})
agency_dup = one("AgencyDup", ["-A"])
route_dup = one("RouteDup", ["-R"])
stop_dup = one("StopDup", ["-P"], {"fuzzy": False})
shape_measure = one("ShapeMeasure", ["-m"])
shape_min = one("ShapeMin", ["-s"])
shape_dup = one("ShapeDup", ["-S"])
stop_measure = one("StopMeasure", ["-r"])


def identity(i, rng):
    f, fl = some(rng)
    for r in f["routes"]:
        if rng.random() < 0.2:
            r["route_type"] = rng.choice([700, 109, 1000, 2, 0, 11, 5])
        if rng.random() < 0.1:
            r["route_sort_order"] = "%d" % rng.randrange(5)
    for r in f["stop_times"]:
        if rng.random() < 0.1:
            r["stop_headsign"] = ""
        if rng.random() < 0.1:
            r["drop_off_type"] = rng.choice([0, 1, 2, 3])
        if rng.random() < 0.1:
            r["continuous_pickup"] = rng.choice([0, 1, 2])
        if rng.random() < 0.1:
            r["timepoint"] = rng.choice([0, 1])
    return H.Scenario("", f, [H.Step("Identity", fl, outname=rng.choice(["out", "out", "out.zip"]))])


def service_dup(i, rng):
    """Services with equal dates, written differently."""
    b = G.B(); b.agency("A"); b.stop("s1", 500000, 500000); b.stop("s2", 600000, 500000); b.route("r", "A")
    n = 0
    for k in range(rng.randint(1, 4)):
        G.rand_service(b, rng, "W%d" % n, span=rng.choice([14, 28]))
        n += 1
    base = {}
    for k in range(n):
        base[k] = _dates(b.f, "W%d" % k)
    for _ in range(rng.randint(1, 5)):
        ds = set(base[rng.randrange(len(base))])
        r = rng.random()
        if ds and r < 0.15:
            ds.discard(rng.choice(sorted(ds)))
        elif r < 0.25 and len(ds) > 2 and max(ds) - min(ds) >= len(ds):
            # same number of dates, same first and last one
            ds.discard(rng.choice(sorted(ds)[1:-1]))
            ds.add(rng.choice([d for d in range(min(ds), max(ds)) if d not in ds]))
        elif r < 0.35:
            ds.add(G.BASE + rng.randrange(-3, 32))
        elif r < 0.5:
            # as far from each other, but elsewhere: a year, a month, a week later
            ds = shifted(ds, rng.choice(["y", "y", "m", 7, 364]))
        if not ds:
            continue
        i2 = "W%d" % n
        n += 1
        if rng.random() < 0.4:
            for d in sorted(ds):
                b.ex(i2, d, 1)
        else:
            s, e = min(ds) - rng.choice([0, 0, 2]), max(ds) + rng.choice([0, 0, 3])
            days = [1 if any((d - 1) % 7 == w for d in ds) and rng.random() < 0.8 else 0 for w in range(7)]
            if not any(days):
                days[(min(ds) - 1) % 7] = 1
            b.cal(i2, days, s, e)
            for d in range(s, e + 1):
                on = days[(d - 1) % 7]
                if on and d not in ds:
                    b.ex(i2, d, 2)
                if d in ds and not on:
                    b.ex(i2, d, 1)
    for k in range(n):
        if rng.random() < 0.9:
            b.trip("t%d" % k, "r", "W%d" % k, [("s1", 0, 0), ("s2", 600, 600)])
    return H.Scenario("", b.f, [H.Step("ServiceDup", ["-C"])])


def shifted(ds, by):
    import datetime
    out = set()
    for d in ds:
        if not isinstance(by, str):
            out.add(d + by)
            continue
        d = datetime.date.fromordinal(d)
        try:
            out.add((d.replace(year=d.year + 1) if by == "y" else
                     d.replace(month=d.month % 12 + 1)).toordinal())
        except ValueError:
            pass
    return out


def _dates(f, i):
    ds = set()
    for r in f["calendar"]:
        if r["service_id"] == i:
            s, e = _ord(r["start_date"]), _ord(r["end_date"])
            ds |= {d for d in range(s, e + 1) if str(r[G.DAYS[(d - 1) % 7]]) == "1"}
    for r in f["calendar_dates"]:
        if r["service_id"] == i:
            (ds.add if str(r["exception_type"]) == "1" else ds.discard)(_ord(r["date"]))
    return ds


def _ord(s):
    import datetime
    s = str(s)
    return datetime.date(int(s[:4]), int(s[4:6]), int(s[6:8])).toordinal()
