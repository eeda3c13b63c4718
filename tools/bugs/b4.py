BUGS = []


def bug(**k):
    BUGS.append(k)


bug(id="snap-measures", prop="P03",
    edits=[("gtfstidy.go", "if *useShapeRemeasurer || *useShapeMinimizer", "if *useShapeRemeasurer || *useShapeSnapper || *useShapeMinimizer")],
    needs="--snap-stops on a feed with partly measured shapes",
    what="--snap-stops changes the measurement of shapes",
    demo='''
def check():
    f = feed(shapes="""shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence,shape_dist_traveled
        H,0.5,0.5,1,0
        H,0.55,0.5,2,
        H,0.6,0.5,3,10""", trips="route_id,service_id,trip_id,shape_id\\nR,W,T,H")
    r = run(["--snap-stops"], f)
    ds = [x.get("shape_dist_traveled", "") for x in r["shapes"]]
    if ds[1] != "" or len(ds) != 3:
        return ds
''')

bug(id="route-extended-type", prop="P04",
    edits=[("processors/routeduplicateremover.go", "uint64(r.Type))", "uint64(gtfs.GetTypeFromExtended(r.Type)))"),
           ("processors/routeduplicateremover.go", "		a.Type == b.Type &&", "		gtfs.GetTypeFromExtended(a.Type) == gtfs.GetTypeFromExtended(b.Type) &&")],
    needs="-R (or --compress, --merge) with two routes which differ only in their extended route type, of the same basic type",
    what="express buses become local buses",
    demo='''
def check():
    f = feed(routes="route_id,agency_id,route_short_name,route_long_name,route_type\\nR,A,1,,702\\nQ,A,1,,704",
             trips="route_id,service_id,trip_id\\nR,W,T\\nQ,W,U",
             stop_times=BASE["stop_times"] + "\\nU,09:00:00,09:00:00,S1,1\\nU,09:10:00,09:10:00,S2,2")
    r = run(["-R"], f)
    ty = {x["route_id"]: x["route_type"] for x in r["routes"]}
    got = {x["trip_id"]: ty[x["route_id"]] for x in r["trips"]}
    if got != {"T": "702", "U": "704"}:
        return got
''')

bug(id="group-frequency", prop="P21",
    edits=[("processors/adjstoptimegrouper.go", "		if len(t.StopTimes) == 0 {", "		if len(t.StopTimes) == 0 || (t.Frequencies != nil && len(*t.Frequencies) > 1) {")],
    needs="--group-adj-stop-times on a trip with two frequencies",
    what="adjacent stop times of trips with several frequencies are not joined",
    demo='''
def check():
    f = feed(stop_times="""trip_id,arrival_time,departure_time,stop_id,stop_sequence
        T,08:00:00,08:00:00,S1,1
        T,08:05:00,08:05:00,S2,2
        T,08:10:00,08:10:00,S2,3
        T,08:20:00,08:20:00,S3,4""",
             frequencies="""trip_id,start_time,end_time,headway_secs
        T,08:00:00,09:00:00,600
        T,10:00:00,11:00:00,1200""")
    r = run(["--group-adj-stop-times"], f)
    if len(r["stop_times"]) != 3:
        return r["stop_times"]
''')

bug(id="block-trim-left", prop="P19",
    edits=[("gtfstidy.go", "oldId := strings.TrimPrefix(*s.Block_id, prefix)", "oldId := strings.TrimLeft(*s.Block_id, prefix)")],
    needs="--keep-block-ids when merging feeds, and a block id which begins with a character of the prefix",
    what="block ids lose their first characters",
    demo='''
def check():
    f = feed(trips="route_id,service_id,trip_id,block_id\\nR,W,T,01")
    g = feed(trips="route_id,service_id,trip_id,block_id\\nR,W,T,10")
    r = run(["--keep-block-ids"], f, g)
    b = {t["trip_id"]: t["block_id"] for t in r["trips"]}
    if b != {"0#T": "01", "1#T": "10"}:
        return b
''')

bug(id="far-parent-entrance", prop="P20",
    edits=[("processors/parentaverager.go", "				if haversineApprox(float64(c.Lat), float64(c.Lon), float64(avgLat)", "				if c.Location_type == 0 && haversineApprox(float64(c.Lat), float64(c.Lon), float64(avgLat)")],
    needs="--fix-far-away-parents, a station far from its platforms, and an entrance more than 100 m from the centre",
    what="the station is moved although one of its entrances is too far away",
    demo='''
def check():
    f = feed(stops="""stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station
        S1,One,0.5,0.5,0,P
        S2,Two,0.6,0.5,0,
        S4,One,0.5,0.5,0,P
        S5,One,0.5,0.5,0,P
        S6,One,0.5,0.5,0,P
        E,In,0.5015,0.5,2,P
        P,One,0.5,0.51,1,""")
    r = run(["--fix-far-away-parents"], f)
    lon = [s["stop_lon"] for s in r["stops"] if s["stop_id"] == "P"]
    if float(lon[0]) < 0.509:
        return lon
''')

bug(id="complete-one-way", prop="P22",
    edits=[("processors/completegeotripsfilter.go", "		if p.From_stop != p.To_stop {", "		if p.From_stop != p.To_stop && p.Is_bidirectional {")],
    needs="--complete-filtered-trips with an area, and a one-way pathway to a dropped stop from one which is kept",
    what="pathways to stops which were dropped remain",
    demo='''
def check():
    f = feed(stops="""stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station
        S1,One,0.5,0.5,0,P
        S2,Two,0.6,0.5,0,
        P,One,0.5,0.5,1,
        E,In,0.5,0.501,2,P""",
             pathways="""pathway_id,from_stop_id,to_stop_id,pathway_mode,is_bidirectional
        Y,S1,E,1,0""")
    r = run(["--complete-filtered-trips", "--bounding-box", "0.49,0.49,0.7,0.5005"], f)
    ids = {s["stop_id"] for s in r["stops"]}
    if r["exit"] or [p for p in r["pathways"] if p["to_stop_id"] not in ids]:
        return r["log"], r["pathways"]
''')

bug(id="snap-level", prop="P28",
    edits=[("processors/shapesnapper.go", "					Level:               st.Stop().Level,\n", "")],
    needs="--snap-stops and a stop with a level off the shape",
    what="the copies of snapped stops lose their level",
    demo='''
def check():
    f = feed(stops="""stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station,level_id
        S1,One,0.5,0.51,,,L
        S2,Two,0.6,0.5,,,""",
             levels="level_id,level_index,level_name\\nL,1,up",
             shapes="""shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence
        H,0.5,0.5,1
        H,0.6,0.5,2""", trips="route_id,service_id,trip_id,shape_id\\nR,W,T,H")
    r = run(["--snap-stops"], f)
    ls = sorted((s["stop_name"], s.get("level_id", "")) for s in r["stops"])
    if ls != [("One", "L"), ("One", "L"), ("Two", "")]:
        return ls
''')

bug(id="recluster-node", prop="P26",
    edits=[("processors/stopreclusterer.go",
            "		if s.Location_type == 0 || s.Location_type == 2 || s.Location_type == 3 {\n			s.Parent_station = parent",
            "		if s.Location_type == 0 || s.Location_type == 2 {\n			s.Parent_station = parent")],
    needs="-E merging two stations, one of which has a generic node (location type 3)",
    what="a node keeps a station which is gone",
    demo='''
def check():
    for k in range(6):
        f = feed(stops="""stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station
        S1,One,0.5,0.5,0,P
        S2,Two,0.6,0.5,0,
        P,One,0.5,0.5,1,
        N,,0.5,0.50002,3,P
        S4,One,0.5,0.5001,0,Q
        Q,One,0.5,0.5001,1,
        M,,0.5,0.50012,3,Q""")
        r = run(["-E"], f)
        ids = {s["stop_id"] for s in r["stops"] if s["location_type"] == "1"}
        bad = [s for s in r["stops"] if s["location_type"] == "3" and s["parent_station"] not in ids]
        if r["exit"] or bad or len(ids) != 1:
            return r["log"], r["stops"]
''')

bug(id="frequency-late-night", prop="P09",
    edits=[("processors/frequencyminizer.go", "gtfs.Time{Hour: int8(s / 3600)", "gtfs.Time{Hour: int8(s / 3600 % 48)")],
    needs="-T on trips which run at regular intervals more than 48 hours after the begin of their service day",
    what="departures after 48:00:00 are moved by two days",
    demo='''
def check():
    f = feed(trips="route_id,service_id,trip_id\\nR,W,T\\nR,W,U\\nR,W,V",
             stop_times="trip_id,arrival_time,departure_time,stop_id,stop_sequence\\n" + "\\n".join(
                 "%s,49:%d0:00,49:%d0:00,S1,1\\n%s,49:%d5:00,49:%d5:00,S2,2" % (t, k, k, t, k, k)
                 for k, t in enumerate("TUV")))
    r = run(["-T"], f)
    q = [(x["start_time"], x["end_time"]) for x in r["frequencies"]]
    if q != [("49:00:00", "49:30:00")]:
        return q, r["stop_times"]
''')

bug(id="frequency-distances", prop="P09",
    edits=[("processors/frequencyminizer.go", "b.StopTimes[i].Shape_dist_traveled(), 0.01)", "b.StopTimes[i].Shape_dist_traveled(), 10)")],
    needs="-T on trips at regular intervals which are measured a little differently",
    what="stop times get the distances of another trip",
    demo='''
def check():
    f = feed(trips="route_id,service_id,trip_id\\nR,W,T\\nR,W,U",
             stop_times="trip_id,arrival_time,departure_time,stop_id,stop_sequence,shape_dist_traveled\\n" + "\\n".join(
                 "%s,08:%d0:00,08:%d0:00,S1,1,0\\n%s,08:%d5:00,08:%d5:00,S2,2,%d" % (t, k, k, t, k, k, d)
                 for k, t, d in ((0, "T", 100), (1, "U", 105))))
    r = run(["-T"], f)
    if len(r["trips"]) != 2:
        return r["trips"]
''')

bug(id="trip-same-first-date", prop="P10",
    edits=[("processors/tripduplicateremover.go",
            "	for i, v := range aDList {\n		if v != bDList[i] {\n			return false\n		}\n	}\n	return true",
            "	return aDList[0] == bDList[0] && aDList[len(aDList)-1] == bDList[len(bDList)-1]")],
    needs="-I --red-trips-fuzzy and two equal trips whose services have the same first and last date and as many dates, but not the same ones",
    what="the dates of one of the trips are lost",
    demo='''
def check():
    f = feed(trips="route_id,service_id,trip_id\\nR,W,T\\nR,V,U",
             calendar=BASE["calendar"] + "\\nV,1,1,1,1,1,0,0,20240304,20240331",
             calendar_dates="""service_id,date,exception_type
        W,20240312,2
        V,20240313,2""",
             stop_times=BASE["stop_times"] + "\\nU,08:00:00,08:00:00,S1,1\\nU,08:10:00,08:10:00,S2,2")
    r = run(["-I", "--red-trips-fuzzy"], f)
    ds = set()
    for t in r["trips"]:
        ds |= dates(r, t["service_id"])
    if len(ds) != 20:
        return sorted(map(str, ds))
''')

bug(id="orphan-nameless-fare", prop="P11",
    edits=[("processors/orphanminimizer.go", "			if fr.Route != nil {\n				referenced", "			if fr.Route != nil && fa.Agency != nil {\n				referenced")],
    needs="-O on a feed with one agency whose fare attributes do not name it, and a fare rule for a route without trips",
    what="a route used by a fare rule only is deleted (and the rule with it)",
    demo='''
def check():
    f = feed(routes=BASE["routes"] + "\\nQ,A,2,,3",
             fare_attributes="fare_id,price,currency_type,payment_method,transfers\\nF,1.00,EUR,0,0",
             fare_rules="fare_id,route_id\\nF,Q")
    r = run(["-O"], f)
    g = feed(routes=BASE["routes"] + "\\nQ,A,2,,3",
             fare_attributes="fare_id,price,currency_type,payment_method,transfers,agency_id\\nF,1.00,EUR,0,0,A",
             fare_rules="fare_id,route_id\\nF,Q")
    s = run(["-O"], g)
    if [x["route_id"] for x in r["routes"]] != [x["route_id"] for x in s["routes"]] or len(r["fare_rules"]) != len(s["fare_rules"]):
        return r["routes"], s["routes"]
''')

bug(id="id-first-attribution", prop="P18",
    edits=[("processors/idminimizer.go", "		for i, _ := range ag.Attributions {", "		for i := 1; i < len(ag.Attributions); i++ {")],
    needs="-i or -d and an attribution of an agency",
    what="the attribution keeps its old id, which may be that of another one now",
    demo='''
def check():
    f = feed(attributions="""attribution_id,agency_id,organization_name,is_producer
        7,A,one,1
        9,A,two,1""")
    r = run(["-i"], f)
    ids = sorted(x["attribution_id"] for x in r["attributions"])
    if ids != ["1", "2"]:
        return ids
''')

bug(id="too-fast-cable-car", prop="P23",
    count=2,
    edits=[("processors/toofasttripremover.go",
            "				if gtfs.GetTypeFromExtended(t.Route.Type) == 6 && speed > 50 {",
            "				if t.Route.Type == 6 && speed > 50 {")],
    needs="--drop-too-fast-trips and an aerial lift given by its extended route type (1300), between 50 and 150 km/h",
    what="lifts as fast as trains are kept",
    demo='''
def check():
    f = feed(routes="route_id,agency_id,route_short_name,route_long_name,route_type\\nR,A,1,,1300")
    r = run(["--drop-too-fast-trips"], f)     # 11 km in 10 min
    g = feed(routes="route_id,agency_id,route_short_name,route_long_name,route_type\\nR,A,1,,6")
    s = run(["--drop-too-fast-trips"], g)
    if len(r["trips"]) != len(s["trips"]):
        return r["trips"], s["trips"]
''')
