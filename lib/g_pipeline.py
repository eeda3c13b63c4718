"""Whole runs of the program under random combinations of options."""
import feed as F
import gen as G
import g_ids
import harness as H

KEEPS = list(g_ids.KEEP.values()) + ["--keep-ids"]
LOSSLESS = ["-O", "-A", "-P", "-R", "-C", "-c", "-S", "-s", "-m", "-r", "-T", "-I",
            "--non-overlapping-services", "--remove-cal-dates", "--explicit-calendar",
            "--ensure-stop-parents", "--drop-platform-for-parentless", "--fix-far-away-parents",
            "--red-stops-fuzzy", "--red-trips-fuzzy", "--red-trips-aggressive", "-i", "-d",
            "--drop-shapes", "-F", "-W", "--keep-col-order", "--unsorted-files",
            "--assume-clean-csv", "-z", "-n", "--fix", "--drop-single-stop-trips", "-E", "--snap-stops"]
SHORT = ["--compress", "--Compress", "--merge", "--Merge"]
LOSSY = ["--group-adj-stop-times", "--drop-too-fast-trips", "--standard-route-types",
         "--google-supported-route-types", "--remove-fillers"]


def second(rng, f):
    """Another version of the feed: mostly the same, other dates, some other trips."""
    g = F.copy_feed(f)
    by = rng.choice([0, 0, 7, 28, 5])
    for r in g["calendar"]:
        r["start_date"] = F.ymd(F.ordinal(r["start_date"]) + by)
        r["end_date"] = F.ymd(F.ordinal(r["end_date"]) + by)
    for r in g["calendar_dates"]:
        r["date"] = F.ymd(F.ordinal(r["date"]) + by)
    if rng.random() < 0.5:
        for r in g["trips"]:
            if rng.random() < 0.3:
                r["trip_headsign"] = "other"
    if rng.random() < 0.3:
        for r in g["routes"]:
            if rng.random() < 0.3:
                r["route_short_name"] = "other"
    return g


def fix_rules(f):
    for r in f["fare_rules"]:
        for c in ("origin_id", "destination_id", "contains_id"):
            if not r[c]:
                r[c] = "Z0"


def varied(f, rng):
    fix_rules(f)
    if rng.random() < 0.4:
        G.twins(f, rng)
    if rng.random() < 0.2:
        fillers(f, rng)


def fillers(f, rng):
    """Values which stand for none."""
    for t, cols in (("routes", ("route_desc", "route_long_name")), ("stops", ("stop_desc", "stop_code"))):
        for r in f[t]:
            for c in cols:
                v = rng.choice([".", "-", "..", "...", "?"])
                if rng.random() < 0.2 and not r.get(c) and r.get("route_short_name") != v:
                    r[c] = v


def other(rng):
    """A feed made for one of the other properties."""
    import g_calendar
    import g_cleanup
    import g_filters
    import g_shapes
    import g_stations
    import g_trips
    mk = rng.choice([g_cleanup.orphan, g_cleanup.agency_dup, g_cleanup.route_dup,
                     g_cleanup.stop_dup, g_trips.frequency] + [g_trips.trip_dup] * 4 + [
                     g_calendar.cal_dates, g_calendar.non_overlap, g_calendar.service_min,
                     g_shapes.shape_dup, g_shapes.stop_measure, g_shapes.shape_measure,
                     g_shapes.snap,
                     g_stations.platform_drop, g_stations.far_parents, g_stations.group_adj, g_stations.recluster,
                     g_filters.too_fast])
    while True:
        sc = mk(rng.randrange(1000), rng)
        if sc is not None:
            return sc


def feeds(rng):
    """The feed(s) of one run and the options they were made for."""
    if rng.random() < 0.4:
        sc = other(rng)
        f, flags = sc.feed, [x for x in sc.steps[0].flags if x in LOSSLESS]
        more = []
        if rng.random() < 0.3:
            more = [second(rng, f) if rng.random() < 0.5 else other(rng).feed]
        return f, more, flags
    kw = {}
    if rng.random() < 0.3:
        kw["ids"] = g_ids.numeric(rng)
    f = G.rich(rng, n_trips=rng.choice([2, 4, 8, 12]), additional=rng.random() < 0.3,
               dates_only=rng.choice([0, 0.3, 1]), **kw)
    more = []
    if rng.random() < 0.4:
        for _ in range(rng.choice([1, 1, 2])):
            more.append(second(rng, f) if rng.random() < 0.7 else
                        G.rich(rng, n_trips=4, additional=rng.random() < 0.3))
    return f, more, []


def pick(rng, pool, p):
    return [x for x in pool if rng.random() < p]


def call(rng, lossy, more, flags=()):
    """One run of the program with a random combination of options."""
    fl = []
    if flags and rng.random() < 0.4:
        fl += flags                                  # mostly what the feed was made for
        fl += pick(rng, [x for x in LOSSLESS if x not in fl], rng.choice([0, 0, 0.05]))
    else:
        if rng.random() < 0.4:
            fl += [rng.choice(SHORT)]
        fl += pick(rng, LOSSLESS, rng.choice([0.1, 0.25, 0.5]))
    if lossy:
        fl += pick(rng, LOSSY, 0.2)
    fl += pick(rng, KEEPS, rng.choice([0, 0, 0.2, 0.6]))
    return call_with(rng, fl, more)


def call_with(rng, fl, more):
    """The run of the program with these options (and perhaps a date filter)."""
    fl = list(fl)
    args = {"exact": True, "fuzzy": False, "from": 0, "to": 0, "only": [], "not": []}
    if "-I" in fl or any(s in fl for s in SHORT):
        args["exact"] = False
        args["fuzzy"] = "--red-trips-fuzzy" in fl or "--Compress" in fl or "--Merge" in fl
    args["fuzzyStops"] = "--Compress" in fl or "--Merge" in fl or (
        "--red-stops-fuzzy" in fl and bool({"-P", "--compress", "--merge",
                                            "--drop-platform-for-parentless"} & set(fl)))
    args["recluster"] = "-E" in fl or "--Merge" in fl
    args["calls"] = 2 if "--drop-single-stop-trips" in fl else 0
    if rng.random() < 0.15:
        args["from"] = G.BASE + rng.randrange(20)
        fl += ["--date-start", F.ymd(args["from"])]
    if rng.random() < 0.15:
        args["to"] = G.BASE + rng.randrange(5, 40)
        fl += ["--date-end", F.ymd(args["to"])]
    if (more or rng.random() < 0.2) and rng.random() < 0.7:
        if rng.random() < 0.5:
            fl += ["--prefix", rng.choice(["p", "x#", "1"])]
    outname = rng.choice(["out", "out", "out.zip"])
    st = H.Step("Run", fl, args, outname=outname, extra_inputs=more)
    st.validate = True
    return st


def again(rng, lossy):
    st = call(rng, lossy, [])
    # ids of the program's own may need quotes
    st.flags = [x for x in st.flags if x != "--assume-clean-csv"]
    return st


def scenario(rng, lossy, fl=None):
    f, more, flags = feeds(rng)
    for x in [f] + more:
        varied(x, rng)
        if rng.random() < 0.15:
            G.retidied(x, rng, n=rng.randint(1, 4))
    steps = [call(rng, lossy, more, flags) if fl is None else call_with(rng, fl, more)]
    while rng.random() < 0.25:
        steps.append(again(rng, lossy))           # the output is tidied again
    return H.Scenario("", f, steps)


def offer(i, rng, fl=None):
    sc = scenario(rng, False, fl)
    for st in sc.steps:
        st.act = "RunSame"
    return sc


def sound(i, rng, fl=None):
    sc = scenario(rng, True, fl)
    for st in sc.steps:
        st.act = "RunClean"
    return sc


NORM = {"-O": "O", "-A": "A", "-P": "P", "-R": "R", "-C": "C", "-S": "S", "-I": "I",
        "--non-overlapping-services": "N", "--remove-cal-dates": "X", "--explicit-calendar": "E",
        "--ensure-stop-parents": "H", "--drop-platform-for-parentless": "L", "-m": "M",
        "--drop-shapes": "D"}
SHORTS = {"--compress": "OSRCIAP", "--Compress": "OSRCIAP", "--merge": "ARPICO", "--Merge": "ARPICO"}


def normal(i, rng, fl=None):
    sc = scenario(rng, rng.random() < 0.3, fl)
    for st in sc.steps:
        norm = set()
        for x in st.flags:
            norm |= set(SHORTS.get(x, "")) | set(NORM.get(x, ""))
        if norm & {"N", "X"}:                     # these split services and trips again
            norm -= {"I", "C", "O"}
        if "H" in norm or st.args["recluster"]:                           # new stations may be alike
            norm -= {"P"}
        st.act = "RunNormal"
        base = 10 if "-i" in st.flags else 36 if {"-d", "--Compress"} & set(st.flags) else 0
        keep = [k for k, x in g_ids.KEEP.items() if x in st.flags]
        if "--keep-ids" in st.flags:
            keep = [k for k in g_ids.KEEP if k != "at" or k in keep]
        prefix = st.flags[st.flags.index("--prefix") + 1] if "--prefix" in st.flags else ""
        st.args.update(norm=sorted(norm), aggressive="--red-trips-aggressive" in st.flags,
                       base=base, keep=keep, prefix=prefix)
    return sc


OPTS = dict(NORM)
OPTS.update({"-m": "m", "-c": "c", "-s": "s", "-r": "r", "-T": "T", "--fix-far-away-parents": "F",
             "-E": "recluster", "--snap-stops": "snap", "--drop-single-stop-trips": "single",
             "--date-start": "date", "--date-end": "date", "--group-adj-stop-times": "group",
             "--drop-too-fast-trips": "fast", "--standard-route-types": "types",
             "--google-supported-route-types": "types", "--remove-fillers": "fillers",
             "-i": "ids", "-d": "ids", "--red-trips-fuzzy": "fuzzy"})
# as documented by --help
DOCUMENTED = {"--compress": "OSRCcIAPs", "--Compress": "OSRCcIAPsT", "--merge": "ARPICOc",
              "--Merge": "ARPICOc"}


def frames(i, rng, fl=None):
    """One feed, any options, ids kept: nothing changes but what the options are about."""
    f, _, flags = feeds(rng)
    varied(f, rng)
    if rng.random() < 0.15:
        G.retidied(f, rng, n=rng.randint(1, 4))
    steps = [call(rng, rng.random() < 0.4, [], flags) if fl is None else call_with(rng, fl, [])]
    while rng.random() < 0.2:
        steps.append(again(rng, rng.random() < 0.4))
    fields = any(c.startswith("x_") for t in f for r in f[t] for c in r)
    for st in steps:
        st.act = "RunFrame"
        if "--prefix" in st.flags:
            k = st.flags.index("--prefix")
            del st.flags[k:k + 2]
        opts = set()
        for x in st.flags:
            opts |= set(DOCUMENTED.get(x, ""))
            if x in OPTS:
                opts.add(OPTS[x])
        if {"--Compress", "--Merge"} & set(st.flags):
            opts |= {"fuzzy"}
        if "--Compress" in st.flags:
            opts |= {"ids"}
        if "--Merge" in st.flags:
            opts |= {"recluster"}
        if "ids" in opts:
            st.flags = [x for x in st.flags if not x.startswith("--keep-")] + ["--keep-ids"]
        if fields and "-F" not in st.flags:
            st.flags.append("-F")
        st.args = {"opts": sorted(opts), "fuzzyStops": st.args["fuzzyStops"]}
        st.validate = False
    return H.Scenario("", f, steps)
