"""GTFS tables in memory, CSV rendering, and the projection handed to TLC.

The projection is independent of the implementation: it is computed from the
CSV files alone (the files the harness wrote, and the files the binary wrote).
Times become seconds, dates become day ordinals (1 = a Monday), coordinates
become integer micro-degrees, distances become integer milli-units, an absent
optional number becomes -1, and every column not interpreted by the
specification is folded into the opaque string `attr` (GTFS columns) or `af`
(non-GTFS columns), so that the specification can demand that it is unchanged.
"""
import csv
import datetime
import io
import os
import zipfile

FILES = ["agency", "stops", "routes", "trips", "stop_times", "calendar",
         "calendar_dates", "fare_attributes", "fare_rules", "shapes",
         "frequencies", "transfers", "pathways", "levels", "feed_info",
         "attributions"]

COLS = {
    "agency": ["agency_id", "agency_name", "agency_url", "agency_timezone", "agency_lang",
               "agency_phone", "agency_fare_url", "agency_email"],
    "stops": ["stop_id", "stop_code", "stop_name", "stop_desc", "stop_lat", "stop_lon", "zone_id",
              "stop_url", "location_type", "parent_station", "stop_timezone",
              "wheelchair_boarding", "level_id", "platform_code"],
    "routes": ["route_id", "agency_id", "route_short_name", "route_long_name", "route_desc",
               "route_type", "route_url", "route_color", "route_text_color", "route_sort_order",
               "continuous_pickup", "continuous_drop_off"],
    "trips": ["route_id", "service_id", "trip_id", "trip_headsign", "trip_short_name",
              "direction_id", "block_id", "shape_id", "wheelchair_accessible", "bikes_allowed"],
    "stop_times": ["trip_id", "arrival_time", "departure_time", "stop_id", "stop_sequence",
                   "stop_headsign", "pickup_type", "drop_off_type", "continuous_pickup",
                   "continuous_drop_off", "shape_dist_traveled", "timepoint"],
    "calendar": ["service_id", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday",
                 "sunday", "start_date", "end_date"],
    "calendar_dates": ["service_id", "date", "exception_type"],
    "fare_attributes": ["fare_id", "price", "currency_type", "payment_method", "transfers",
                        "agency_id", "transfer_duration"],
    "fare_rules": ["fare_id", "route_id", "origin_id", "destination_id", "contains_id"],
    "shapes": ["shape_id", "shape_pt_lat", "shape_pt_lon", "shape_pt_sequence",
               "shape_dist_traveled"],
    "frequencies": ["trip_id", "start_time", "end_time", "headway_secs", "exact_times"],
    "transfers": ["from_stop_id", "to_stop_id", "from_route_id", "to_route_id", "from_trip_id",
                  "to_trip_id", "transfer_type", "min_transfer_time"],
    "pathways": ["pathway_id", "from_stop_id", "to_stop_id", "pathway_mode", "is_bidirectional",
                 "length", "traversal_time", "stair_count", "max_slope", "min_width",
                 "signposted_as", "reversed_signposted_as"],
    "levels": ["level_id", "level_index", "level_name"],
    "feed_info": ["feed_publisher_name", "feed_publisher_url", "feed_lang", "feed_start_date",
                  "feed_end_date", "feed_version", "feed_contact_email", "feed_contact_url"],
    "attributions": ["attribution_id", "organization_name", "is_producer", "is_operator",
                     "is_authority", "attribution_url", "attribution_email", "attribution_phone",
                     "route_id", "agency_id", "trip_id"],
}
REQUIRED = ["agency", "stops", "routes", "trips", "stop_times", "calendar"]


def hms(s):
    return "%02d:%02d:%02d" % (s // 3600, s // 60 % 60, s % 60)


def ymd(o):
    return datetime.date.fromordinal(o).strftime("%Y%m%d")


def ordinal(s):
    try:
        return datetime.date(int(s[0:4]), int(s[4:6]), int(s[6:8])).toordinal()
    except ValueError:
        return -1


def new_feed():
    return {f: [] for f in FILES}


def copy_feed(f):
    return {k: [dict(r) for r in v] for k, v in f.items()}


def render(table, rows):
    """CSV text of one table; columns that no row fills are left out."""
    extra = []
    for r in rows:
        for k in r:
            if k not in COLS[table] and k not in extra:
                extra.append(k)
    used = [c for c in COLS[table] + extra
            if any(str(r.get(c, "")) != "" for r in rows)]
    if not rows:
        used = COLS[table]
    for c in MUST[table]:
        if c not in used:
            used.append(c)
    out = io.StringIO()
    w = csv.writer(out, lineterminator="\n")
    w.writerow(used)
    for r in rows:
        w.writerow([r.get(c, "") for c in used])
    return out.getvalue()


MUST = {
    "agency": ["agency_name", "agency_url", "agency_timezone"],
    "stops": ["stop_id", "stop_name", "stop_lat", "stop_lon"],
    "routes": ["route_id", "route_short_name", "route_long_name", "route_type"],
    "trips": ["route_id", "service_id", "trip_id"],
    "stop_times": ["trip_id", "arrival_time", "departure_time", "stop_id", "stop_sequence"],
    "calendar": ["service_id", "monday", "tuesday", "wednesday", "thursday", "friday",
                 "saturday", "sunday", "start_date", "end_date"],
    "calendar_dates": ["service_id", "date", "exception_type"],
    "fare_attributes": ["fare_id", "price", "currency_type", "payment_method", "transfers"],
    "fare_rules": ["fare_id"],
    "shapes": ["shape_id", "shape_pt_lat", "shape_pt_lon", "shape_pt_sequence"],
    "frequencies": ["trip_id", "start_time", "end_time", "headway_secs"],
    "transfers": ["from_stop_id", "to_stop_id", "transfer_type"],
    "pathways": ["pathway_id", "from_stop_id", "to_stop_id", "pathway_mode", "is_bidirectional"],
    "levels": ["level_id", "level_index"],
    "feed_info": ["feed_publisher_name", "feed_publisher_url", "feed_lang"],
    "attributions": ["organization_name"],
}


def write_dir(feed, path):
    os.makedirs(path, exist_ok=True)
    for t in FILES:
        if feed.get(t) or t in REQUIRED:
            with open(os.path.join(path, t + ".txt"), "w", encoding="utf-8", newline="") as fh:
                fh.write(render(t, feed.get(t, [])))


def read(path):
    """Tables of a GTFS directory or zip file."""
    feed = new_feed()
    if os.path.isdir(path):
        for t in FILES:
            p = os.path.join(path, t + ".txt")
            if os.path.exists(p):
                with open(p, encoding="utf-8", newline="") as fh:
                    feed[t] = list(csv.DictReader(fh))
    else:
        with zipfile.ZipFile(path) as z:
            names = set(z.namelist())
            for t in FILES:
                if t + ".txt" in names:
                    txt = z.read(t + ".txt").decode("utf-8")
                    feed[t] = list(csv.DictReader(io.StringIO(txt, newline="")))
    for t in feed:
        for r in feed[t]:
            if None in r:                      # surplus cells
                r["__surplus"] = ",".join(r.pop(None))
            for k in list(r):
                if r[k] is None:
                    r[k] = ""
    return feed


def secs(s):
    s = s.strip() if s else ""
    if not s:
        return -1
    try:
        h, m, x = s.split(":")
        return int(h) * 3600 + int(m) * 60 + int(x)
    except ValueError:
        return -99


def num(s, default):
    s = str(s if s is not None else "").strip()
    if s == "":
        return default
    try:
        return int(s)
    except ValueError:
        return -99


def scaled(s, k, default=-1):
    s = str(s if s is not None else "").strip()
    if s == "":
        return default
    try:
        v = float(s)
    except ValueError:
        return -99
    if v != v or abs(v) * k > 2000000000:
        return -98
    return int(round(v * k))


def addflds(table, r):
    return ";".join("%s=%s" % (k, r[k]) for k in sorted(r)
                    if k not in COLS[table] and str(r[k]) != "")


def attrs(table, r, skip, defaults=None):
    out = []
    for c in COLS[table]:
        if c in skip:
            continue
        v = r.get(c, "")
        v = "" if v is None else str(v)
        if defaults and c in defaults and v == defaults[c]:
            v = ""
        out.append(v)
    return "|".join(out)


def color(s, d):
    s = str(s or "").strip().upper()
    return "" if s in ("", d) else s


def project(feed):
    """The JSON value the specification works on (see spec/Gtfs.tla)."""
    f = feed
    sole = None
    if len(f["agency"]) == 1:
        sole = f["agency"][0].get("agency_id", "")
    out = {}
    out["ag"] = [{"id": r.get("agency_id", ""), "attr": attrs("agency", r, ["agency_id"]),
                  "af": addflds("agency", r)} for r in f["agency"]]
    out["st"] = [{
        "id": r["stop_id"], "name": r.get("stop_name", ""), "lt": num(r.get("location_type"), 0),
        "par": r.get("parent_station", "") or "", "lvl": r.get("level_id", "") or "",
        "zone": r.get("zone_id", "") or "", "plat": r.get("platform_code", "") or "",
        "lat": scaled(r.get("stop_lat"), 1e6, -999999999),
        "lon": scaled(r.get("stop_lon"), 1e6, -999999999),
        "attr": attrs("stops", r, ["stop_id", "stop_name", "location_type", "parent_station",
                                   "level_id", "zone_id", "platform_code", "stop_lat",
                                   "stop_lon"], {"wheelchair_boarding": "0"}),
        "af": addflds("stops", r)} for r in f["stops"]]
    routes = []
    for r in f["routes"]:
        q = dict(r)
        q["route_color"] = color(r.get("route_color"), "FFFFFF")
        q["route_text_color"] = color(r.get("route_text_color"), "000000")
        ag = r.get("agency_id", "") or ""
        if ag == "" and sole is not None:
            ag = sole
        routes.append({"id": r["route_id"], "ag": ag, "type": num(r.get("route_type"), -1),
                       "sort": str(r.get("route_sort_order", "") or ""),
                       "cp": num(r.get("continuous_pickup"), 1),
                       "cd": num(r.get("continuous_drop_off"), 1),
                       "attr": attrs("routes", q, ["route_id", "agency_id", "route_type",
                                                   "route_sort_order", "continuous_pickup",
                                                   "continuous_drop_off"]),
                       "af": addflds("routes", r)})
    out["ro"] = routes
    sv, order = {}, []

    def svc(i):
        if i not in sv:
            sv[i] = {"id": i, "cal": 0, "days": [0] * 7, "s": 0, "e": -1, "ex": []}
            order.append(i)
        return sv[i]
    ncal = 0
    for r in f["calendar"]:
        s = svc(r["service_id"])
        s["cal"] += 1
        ncal += 1
        s["days"] = [num(r.get(d), 0) for d in COLS["calendar"][1:8]]
        s["s"], s["e"] = ordinal(r["start_date"]), ordinal(r["end_date"])
    for r in f["calendar_dates"]:
        svc(r["service_id"])["ex"].append({"d": ordinal(r["date"]),
                                           "t": num(r["exception_type"], 0)})
    out["sv"] = [sv[i] for i in order]
    sts, frs = {}, {}
    for r in f["stop_times"]:
        a, d = secs(r.get("arrival_time", "")), secs(r.get("departure_time", ""))
        sts.setdefault(r["trip_id"], []).append({
            "q": num(r["stop_sequence"], -1), "s": r["stop_id"], "a": a, "d": d,
            "pu": num(r.get("pickup_type"), 0), "do": num(r.get("drop_off_type"), 0),
            "cp": num(r.get("continuous_pickup"), 1), "cd": num(r.get("continuous_drop_off"), 1),
            "m": scaled(r.get("shape_dist_traveled"), 1000),
            "tp": num(r.get("timepoint"), 1 if a >= 0 and d >= 0 else 0),
            "af": addflds("stop_times", r)})
    for r in f["frequencies"]:
        frs.setdefault(r["trip_id"], []).append({
            "s": secs(r["start_time"]), "e": secs(r["end_time"]),
            "h": num(r["headway_secs"], -1), "x": num(r.get("exact_times"), 0),
            "af": addflds("frequencies", r)})
    trips, seen = [], set()
    for r in f["trips"]:
        i = r["trip_id"]
        seen.add(i)
        trips.append({
            "id": i, "ro": r["route_id"], "sv": r["service_id"],
            "hs": r.get("trip_headsign", "") or "", "sn": r.get("trip_short_name", "") or "",
            "dir": num(r.get("direction_id"), -1), "blk": r.get("block_id", "") or "",
            "sh": r.get("shape_id", "") or "", "wa": num(r.get("wheelchair_accessible"), 0),
            "ba": num(r.get("bikes_allowed"), 0), "af": addflds("trips", r),
            "st": sorted(sts.get(i, []), key=lambda x: x["q"]),
            "fr": sorted(frs.get(i, []), key=lambda x: (x["s"], x["e"], x["h"]))})
    out["tr"] = trips
    out["xst"] = sorted(i for i in sts if i not in seen)     # stop_times of no trip
    out["xfr"] = sorted(i for i in frs if i not in seen)
    shp, order = {}, []
    for r in f["shapes"]:
        if r["shape_id"] not in shp:
            shp[r["shape_id"]] = []
            order.append(r["shape_id"])
        shp[r["shape_id"]].append({
            "q": num(r["shape_pt_sequence"], -1), "y": scaled(r["shape_pt_lat"], 1e6),
            "x": scaled(r["shape_pt_lon"], 1e6), "m": scaled(r.get("shape_dist_traveled"), 1000),
            "af": addflds("shapes", r)})
    out["sh"] = [{"id": i, "p": sorted(shp[i], key=lambda x: x["q"])} for i in order]
    out["tf"] = [{"fs": r.get("from_stop_id", "") or "", "ts": r.get("to_stop_id", "") or "",
                  "fr": r.get("from_route_id", "") or "", "tr": r.get("to_route_id", "") or "",
                  "ft": r.get("from_trip_id", "") or "", "tt": r.get("to_trip_id", "") or "",
                  "attr": "%d|%s" % (num(r.get("transfer_type"), 0),
                                     r.get("min_transfer_time", "") or ""),
                  "af": addflds("transfers", r)} for r in f["transfers"]]
    out["pw"] = [{"id": r["pathway_id"], "f": r["from_stop_id"], "t": r["to_stop_id"],
                  "attr": attrs("pathways", r, ["pathway_id", "from_stop_id", "to_stop_id"],
                                {"stair_count": "0", "max_slope": "0"}),
                  "af": addflds("pathways", r)} for r in f["pathways"]]
    out["lv"] = [{"id": r["level_id"], "attr": attrs("levels", r, ["level_id"]),
                  "af": addflds("levels", r)} for r in f["levels"]]
    fa = []
    for r in f["fare_attributes"]:
        fa.append({"id": r["fare_id"], "ag": r.get("agency_id", "") or "",
                   "attr": attrs("fare_attributes", r, ["fare_id", "agency_id"]),
                   "af": addflds("fare_attributes", r)})
    out["fa"] = fa
    out["fl"] = [{"fa": r["fare_id"], "ro": r.get("route_id", "") or "",
                  "o": r.get("origin_id", "") or "", "d": r.get("destination_id", "") or "",
                  "c": r.get("contains_id", "") or "", "af": addflds("fare_rules", r)}
                 for r in f["fare_rules"]]
    out["at"] = [{"id": r.get("attribution_id", "") or "", "ro": r.get("route_id", "") or "",
                  "ag": r.get("agency_id", "") or "", "tr": r.get("trip_id", "") or "",
                  "attr": attrs("attributions", r, ["attribution_id", "route_id", "agency_id",
                                                    "trip_id"],
                                {"is_producer": "0", "is_operator": "0", "is_authority": "0"}),
                  "af": addflds("attributions", r)} for r in f["attributions"]]
    out["fi"] = [{"attr": attrs("feed_info", r, []), "af": addflds("feed_info", r)}
                 for r in f["feed_info"]]
    return out
