"""Calls of the program as seen from outside: flawed feeds, wrong use, validation."""
import os
import zipfile

import feed as F
import gen as G
import harness as H

# (table, column, wrong value, kind, part): part is set for rows inside of an entity
HARD = [
    ("trips", "route_id", "nope", ""), ("trips", "service_id", "nope", ""),
    ("stop_times", "stop_id", "nope", "st"), ("stops", "level_id", "nope", ""),
    ("transfers", "from_stop_id", "nope", ""), ("transfers", "to_stop_id", "nope", ""),
    ("pathways", "from_stop_id", "nope", ""), ("fare_rules", "fare_id", "nope", ""),
    ("fare_rules", "route_id", "nope", ""), ("attributions", "route_id", "nope", ""),
    ("attributions", "trip_id", "nope", ""), ("attributions", "agency_id", "nope", ""),
    ("agency", "agency_timezone", "Nowhere/X", ""), ("stops", "stop_lat", "95", ""),
    ("stops", "stop_lat", "abc", ""), ("stops", "stop_lon", "190", ""),
    ("routes", "route_type", "x", ""), ("stop_times", "arrival_time", "25:61:00", "st"),
    ("stop_times", "arrival_time", "x", "st"), ("stop_times", "stop_sequence", "-1", "st"),
    ("stop_times", "pickup_type", "8", "st"), ("calendar", "start_date", "20249999", "cal"),
    ("calendar", "end_date", "19030101", "cal"), ("calendar_dates", "exception_type", "3", "ex"),
    ("calendar_dates", "date", "2024", "ex"), ("fare_attributes", "payment_method", "4", ""),
    ("shapes", "shape_pt_lat", "100", "p"), ("frequencies", "headway_secs", "-1", "fr"),
    ("frequencies", "start_time", "x", "fr"), ("transfers", "transfer_type", "12", ""),
    ("pathways", "pathway_mode", "19", ""),
]
SOFT = [
    ("routes", "agency_id", "nope", ""), ("trips", "shape_id", "nope", ""),
    ("fare_attributes", "agency_id", "nope", ""), ("agency", "agency_lang", "xx-toolong", ""),
    ("agency", "agency_email", "noemail", ""), ("stops", "wheelchair_boarding", "5", ""),
    ("routes", "route_color", "zz", ""), ("routes", "route_sort_order", "-3", ""),
    ("trips", "direction_id", "4", ""), ("trips", "wheelchair_accessible", "9", ""),
    ("trips", "bikes_allowed", "7", ""), ("stop_times", "timepoint", "8", "st"),
    ("fare_attributes", "transfers", "9", ""), ("frequencies", "exact_times", "3", "fr"),
    ("transfers", "min_transfer_time", "-4", ""), ("pathways", "is_bidirectional", "3", ""),
    ("levels", "level_index", "x", ""), ("attributions", "is_producer", "3", ""),
]
TEXT = [("agency", "agency_name", "", ""), ("stops", "stop_name", "", ""),
        ("attributions", "organization_name", "", "")]
DUP = ["agency", "stops", "routes", "levels", "pathways"]
KEY = {"agency": ("ag", "agency_id"), "stops": ("st", "stop_id"), "routes": ("ro", "route_id"),
       "trips": ("tr", "trip_id"), "stop_times": ("tr", "trip_id"),
       "frequencies": ("tr", "trip_id"), "shapes": ("sh", "shape_id"),
       "calendar": ("sv", "service_id"), "calendar_dates": ("sv", "service_id"),
       "fare_attributes": ("fa", "fare_id"), "fare_rules": ("fl", None),
       "transfers": ("tf", None), "pathways": ("pw", "pathway_id"), "levels": ("lv", "level_id"),
       "attributions": ("at", None)}
NOFLAW = {"kind": "none", "table": "", "part": "", "id": "", "k": 0}


def inject(f, rng):
    """Puts one flaw into the feed; returns its description or None."""
    kind = rng.choice(["hard"] * 6 + ["soft"] * 4 + ["text", "text", "dup", "stray", "null"])
    if kind in ("hard", "soft", "text"):
        t, c, v, part = rng.choice({"hard": HARD, "soft": SOFT, "text": TEXT}[kind])
        rows = [r for r in f[t] if str(r.get(c, "")) != ""]
        if c in ("timepoint", "exact_times", "pickup_type", "level_id", "agency_email",
                 "agency_lang", "wheelchair_boarding", "route_color", "route_sort_order",
                 "direction_id", "wheelchair_accessible", "bikes_allowed", "min_transfer_time",
                 "shape_id", "is_producer"):
            rows = f[t]
        if t == "stops" and c in ("stop_name",):
            rows = [r for r in rows if str(r.get("location_type", "")) in ("", "0", "1", "2")]
        if t == "stops" and c == "wheelchair_boarding":
            rows = [r for r in rows if str(r.get("location_type", "")) in ("", "0")]
        if t == "transfers" and c == "min_transfer_time":
            rows = [r for r in rows if r["from_stop_id"]]
        if not rows:
            return None
        r = rng.choice(rows)
        n, idc = KEY[t]
        w = {"kind": kind, "table": n, "part": part, "id": r[idc] if idc else "",
             "k": 0 if idc else [x is r for x in f[t]].index(True) + 1}
        r[c] = v
        # the dependency of these on others is optional only there
        if t == "routes" and c == "agency_id" and len(f["agency"]) > 1:
            w["kind"] = "hard"
        if t == "stops" and v == "abc" and \
                str(r.get("location_type", "")) in ("3", "4"):
            w["kind"] = "soft"
        return w
    if kind == "dup":
        t = rng.choice(DUP)
        if not f[t]:
            return None
        f[t].append(dict(rng.choice(f[t])))
        if t == "agency" and len(f[t]) == 2:
            # once the other is dropped, a route without an agency is of the one left
            for r in f["routes"] + f["fare_attributes"]:
                r["agency_id"] = r.get("agency_id") or f[t][0]["agency_id"]
        return dict(NOFLAW, kind=kind, table=KEY[t][0])
    if kind == "stray":
        t = rng.choice(["stop_times", "frequencies"])
        if not f[t]:
            return None
        rng.choice(f[t])["trip_id"] = "nope"
        return dict(NOFLAW, kind=kind)
    r = rng.choice([x for x in f["stops"] if str(x.get("location_type", "")) in ("", "0")])
    r["stop_lat"] = r["stop_lon"] = "0"
    return dict(NOFLAW, kind="null", table="st", id=r["stop_id"])


def base(rng):
    return G.rich(rng, n_trips=rng.choice([2, 4, 6]), dates_only=rng.choice([0, 0.3]))


def validate(i, rng):
    return call(i, rng, "validate")


def tolerate(i, rng):
    return call(i, rng, "run")


def two_levels(f, w):
    """The parser forgets boarding areas two levels below of a dropped station, sometimes (it
    walks through a map); this cannot be repaired in gtfstidy."""
    bad = {r["stop_id"] for r in f["stops"]
           if (w["table"], w["id"]) in (("st", r["stop_id"]), ("lv", r.get("level_id", "")))}
    par = {r["stop_id"]: r.get("parent_station", "") for r in f["stops"]}
    return any(par.get(p, "") in bad for p in par.values())


def call(i, rng, mode=None):
    f = base(rng)
    flaw = inject(f, rng) if rng.random() < 0.8 else dict(NOFLAW)
    if flaw is None or two_levels(f, flaw):
        return None
    a = {"mode": mode or rng.choice(["run", "run", "validate"]), "flaw": flaw, "drop": False,
         "default": False, "nullCheck": False, "fixZip": False, "text": ""}
    fl = []
    if rng.random() < 0.25:
        fl.append("--fix")
        a.update(drop=True, default=True, nullCheck=True, fixZip=True, text="-")
    else:
        for k, x, p in (("drop", ["-D", "--drop-errs"], 0.4),
                        ("default", ["-e", "--default-on-errs"], 0.4),
                        ("nullCheck", ["-n", "--check-null-coords"], 0.4),
                        ("fixZip", ["-z", "--fix-zip"], 0.4)):
            if rng.random() < p:
                a[k] = True
                fl.append(rng.choice(x))
        if rng.random() < 0.4:
            a["text"] = rng.choice(["X", "no name"])
            fl += [rng.choice(["-p", "--empty-str-repl"]), a["text"]]
    if a["mode"] == "validate":
        fl.append(rng.choice(["-v", "--validation-mode"]))
        # processors are not called in validation mode
        if rng.random() < 0.3:
            fl += rng.sample(["-O", "-A", "-I", "-i", "--compress", "-c"], 2)
    if rng.random() < 0.3:
        fl.append("-W")
    st = H.Step("Cli", fl, a, outname=rng.choice(["out", "out.zip"]))
    st.outcome = True
    if flaw["kind"] == "none" and rng.random() < 0.4:
        st.nest = rng.choice(["feed/", "a/b/"])
        a["flaw"] = dict(NOFLAW, kind="nest")
    elif rng.random() < 0.3:
        st.nest = ""
    if a["mode"] == "validate" and rng.random() < 0.4:
        # several feeds: all of them count, whatever the order
        st.extra_inputs = [base(rng) for _ in range(rng.choice([1, 2]))]
        st.rotate = rng.randrange(3)
    st.args = a
    return H.Scenario("", f, [st])


BAD = [["-M", "x"], ["-N", "3,b"], ["--date-start", "2024"], ["--date-start", "20241301"],
       ["--date-end", "20240400x"], ["--date-end", "20240100"], ["--polygon", "1,2,3"],
       ["--polygon", "a,b"], ["--bounding-box", "1,2,3"], ["--bounding-box", "1,2"],
       ["--bounding-box", "1,2,3,4,5,6"], ["--polygon-file", "nofile"],
       ["--polygon-file", "nofile.geojson"], ["--polygon-file", "bad.geojson"], ["--nope"],
       ["--min-headway", "x"], ["--zip-compression-level", "q"], ["--date-start", "18991231"],
       ["--date-end", "21560101"], ["--date-start", "20240000"], ["--date-end", "20241232"],
       ["--date-start", "20240010"], ["--date-start", "2024121"], ["--date-end", ".20241231"]]
# places where nothing can be written
NOWHERE = ["file/out", "nodir/out", "nodir/out.zip", "file/out.zip"]


def misuse(i, rng):
    f = base(rng)
    a = {"mode": "misuse", "flaw": dict(NOFLAW), "drop": False, "default": False,
         "nullCheck": False, "fixZip": False, "text": ""}
    k = rng.randrange(11)
    st = H.Step("Cli", [], a, outname=rng.choice(["out", "out.zip"]))
    st.outcome = True
    if k < 6:
        st.flags = list(rng.choice(BAD)) + rng.choice([[], ["-O"], ["--fix"], ["-v"]])
        st.files = {"bad.geojson": "{"}
        if st.flags[-1] == "-v" and st.flags[0] == "--min-headway":
            st.flags.pop()
    elif k == 6:
        st.no_input = True
        st.flags = rng.choice([[], ["-v"], ["-O"], ["--fix"]])
    elif k == 10:
        st.flags = rng.choice([[], ["-O"], ["--fix"], ["--Compress"], ["-i", "-I"]])
        st.files = {"file": "x"}
        st.outname = rng.choice(NOWHERE)
    elif k == 7:
        a["mode"] = "usage"
        st.flags = [rng.choice(["-?", "--help"])]
    else:
        a["mode"] = rng.choice(["run", "validate"])
        a["flaw"] = dict(NOFLAW, kind="missing")
        st.flags = rng.choice([[], ["--fix"], ["-D", "-e"], ["-O"]]) + (
            ["-v"] if a["mode"] == "validate" else [])
        st.missing_input = rng.choice(["alone", "first", "last"])
        a["drop"] = a["default"] = "--fix" in st.flags or "-D" in st.flags
    st.args = a
    return H.Scenario("", f, [st])
