"""Runs without any operation, with options on how to read and to write."""
import feed as F
import gen as G
import g_rich
import harness as H

TYPES = list(range(0, 8)) + [11, 12] + list(range(100, 118)) + list(range(200, 210)) \
    + [300, 400, 401, 402, 403, 404, 405, 500, 600] + list(range(700, 718)) + [800] \
    + list(range(900, 907)) + [1000, 1010, 1021, 1100, 1200] + list(range(1300, 1308)) \
    + [1400, 1500, 1501, 1502, 1503, 1505, 1506, 1507, 1700, 1701, 1702]
FILL = [".", "-", "..", "...", "?"]
SAME = [["-W"], ["--show-warnings"], ["-z"], ["-n"], ["-e"], ["-D"], ["-p", "X"],
        ["--empty-str-repl", "-"], ["--fix"], ["--assume-clean-csv"], ["--keep-col-order"],
        ["--unsorted-files"], ["--zip-compression-level", "0"], ["--zip-compression-level", "5"],
        ["--keep-ids"], ["--keep-trip-ids"], ["--keep-station-ids"], ["--keep-block-ids"],
        ["--keep-service-ids"], ["--keep-attribution-ids"], ["--min-headway", "100"],
        ["--max-headway", "7"], ["--red-stops-fuzzy"], ["--red-trips-fuzzy"],
        ["--red-trips-aggressive"], ["--complete-filtered-trips"]]


def shuffled(f, rng):
    """The order of rows says nothing (points and stop times carry their numbers)."""
    for t in f:
        if rng.random() < 0.5:
            rng.shuffle(f[t])
    return f


def plain(i, rng):
    f, fl = g_rich.some(rng, rng.random() < 0.4)
    for r in f["routes"]:
        if rng.random() < 0.8:
            r["route_type"] = rng.choice(TYPES)
    if rng.random() < 0.3:
        shuffled(f, rng)
    a = {"types": "", "drop": False, "explicit": False}
    for _ in range(rng.choice([0, 0, 1, 2, 3, 5])):
        fl += rng.choice(SAME)
    if rng.random() < 0.4:
        a["types"] = rng.choice(["standard", "google"])
        fl.append({"standard": "--standard-route-types",
                   "google": "--google-supported-route-types"}[a["types"]])
    if rng.random() < 0.3:
        a["drop"] = True
        fl.append("--drop-shapes")
    if rng.random() < 0.4:
        a["explicit"] = True
        fl.append("--explicit-calendar")
    fill = rng.random() < 0.35
    if rng.random() < 0.3:
        # similar, and yet not fill values
        for r in rng.sample(f["routes"], 1) + rng.sample(f["stops"], 1):
            c = "route_desc" if "route_id" in r else "stop_desc"
            r[c] = rng.choice(["--", "....", ". .", "x.", "-1", "??"] + ([] if fill else FILL))
    a["clean"] = F.project(f)
    if fill:
        fl.append("--remove-fillers")
        for r in f["routes"]:
            for c in ("route_short_name", "route_long_name", "route_desc"):
                if str(r.get(c, "") or "") == "" and rng.random() < 0.6:
                    r[c] = rng.choice(FILL)
        for r in f["stops"]:
            for c in ("stop_code", "stop_desc"):
                if str(r.get(c, "") or "") == "" and rng.random() < 0.3:
                    r[c] = rng.choice(FILL)
    st = H.Step("PlainRun", fl, a, outname=rng.choice(["out", "out", "out.zip"]))
    if rng.random() < 0.4:
        # what is there before does not count
        st.stale = g_rich.some(rng, True)[0]
    elif st.outname == "out" and rng.random() < 0.2:
        st.inplace = True
    return H.Scenario("", f, [st])
