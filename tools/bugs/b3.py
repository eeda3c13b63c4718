BUGS = []


def bug(**k):
    BUGS.append(k)


bug(id="fix-removes-fillers", prop="P01",
    edits=[("gtfstidy.go", "RemoveFillers: *removeFillers,", "RemoveFillers: *removeFillers || *fixShortHand,")],
    needs="--fix on a valid feed with '-' or '.' as a description or route name",
    what="--fix changes valid values",
    demo='''
def check():
    f = feed(routes="route_id,agency_id,route_short_name,route_long_name,route_type\\nR,A,1,...,3")
    r = run(["--fix"], f)
    if r["routes"][0]["route_long_name"] != "...":
        return r["routes"]
''')

bug(id="boarding-area-station", prop="P02",
    edits=[("processors/stopreclusterer.go",
            "		if s.Location_type == 0 || s.Location_type == 2 || s.Location_type == 3 {\n			s.Parent_station = parent\n",
            "		if s.Location_type != 1 {\n			s.Parent_station = parent\n")],
    needs="-E on a feed with boarding areas (location_type 4) at a platform which gets or changes a station",
    what="boarding areas have a station as parent instead of their platform",
    demo='''
def check():
    f = feed(stops="""stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station
        S1,One,0.5,0.5,0,P
        S2,Two,0.6,0.5,0,
        P,One,0.5,0.5,1,
        B,,0.5,0.50001,4,S1""")
    r = run(["-E"], f)
    par = {s["stop_id"]: s["parent_station"] for s in r["stops"]}
    if par["B"] != "S1":
        return par
''')

bug(id="merged-service-taken", prop="P10",
    edits=[("processors/tripduplicateremover.go",
            "		for ; ; m.serviceIdC++ {\n			newService.SetId(\"merged\" + strconv.Itoa(m.serviceIdC))\n			if _, ok := feed.Services[newService.Id()]; !ok {\n				break\n			}\n		}\n",
            "		newService.SetId(\"merged\" + strconv.Itoa(m.serviceIdC))\n		m.serviceIdC++\n")],
    needs="a service id merged0, as in a feed which was tidied before, and adjacent trips to merge (-I) whose service is also used by another trip",
    what="the service merged0 is replaced, trips using it run on other dates",
    count=2,
    demo='''
def check():
    rows, tr, st = [], [], []
    rows += ["merged0,20240301,1", "merged0,20240302,1"]
    f = feed(calendar="""service_id,monday,tuesday,wednesday,thursday,friday,saturday,sunday,start_date,end_date
        V,1,1,1,1,1,1,1,20240304,20240310
        W,1,1,1,1,1,1,1,20240311,20240317
        merged0,1,1,1,1,1,1,1,20240401,20240405""",
             trips="""route_id,service_id,trip_id
             R,V,a
             R,W,b
             R,V,c
             R,W,d
             R,merged0,x""",
             stop_times="trip_id,arrival_time,departure_time,stop_id,stop_sequence\\n" + "\\n".join(
                 "%s,0%d:00:00,0%d:00:00,S1,1\\n%s,0%d:30:00,0%d:30:00,S2,2" % (i, h, h, i, h, h)
                 for i, h in (("a", 5), ("b", 5), ("c", 6), ("d", 7), ("x", 8))))
    for k in range(5):
        r = run(["-I"], f)
        for t in r["trips"]:
            if t["trip_id"] == "x":
                d = sorted(map(str, dates(r, t["service_id"])))
                if d != ["2024-04-0%d" % k for k in range(1, 6)]:
                    return d
''')

bug(id="parent-second-try", prop="P20",
    edits=[("processors/stopparentenforcer.go",
            "				if _, ok := feed.Stops[newid]; !ok {\n					break\n				}\n",
            "				if _, ok := feed.Stops[newid]; !ok || try > 0 {\n					break\n				}\n")],
    needs="a stop without a station whose ids par::ID and par1::ID are both taken (a feed put together from parts which were tidied before)",
    what="an existing station is overwritten",
    demo='''
def check():
    f = feed(stops="""stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station
        S1,One,0.5,0.5,0,
        S2,Two,0.6,0.5,0,par1::S1
        par::S1,Other,0.7,0.5,1,
        par1::S1,Third,0.6,0.5,1,""")
    r = run(["--ensure-stop-parents"], f)
    n = {s["stop_id"]: s for s in r["stops"]}
    if len(r["stops"]) != 5 or n[n["S2"]["parent_station"]]["stop_name"] != "Third":
        return r["stops"]
''')

bug(id="geojson-multipolygon", prop="P22",
    edits=[("gtfstidy.go",
            "					for _, poly := range feature.Geometry.MultiPolygon {\n						polys = append(polys, getGtfsPoly(poly))\n					}\n",
            "					all := make([][][]float64, 0)\n					for _, poly := range feature.Geometry.MultiPolygon {\n						all = append(all, poly...)\n					}\n					polys = append(polys, getGtfsPoly(all))\n")],
    needs="a GeoJSON multipolygon of several polygons",
    what="the second polygon of a multipolygon counts as a hole of the first one, its stops are dropped",
    demo='''
def check():
    import json, os
    box = lambda a, b, c, d: [[[a, b], [c, b], [c, d], [a, d], [a, b]]]
    p = os.path.join(W, "m.geojson")
    json.dump({"type": "FeatureCollection", "features": [{"type": "Feature", "properties": {}, "geometry": {
        "type": "MultiPolygon", "coordinates": [box(0.45, 0.45, 0.55, 0.55), box(0.45, 0.58, 0.55, 0.62)]}}]}, open(p, "w"))
    r = run(["--polygon-file", p], feed())
    if sorted(s["stop_id"] for s in r["stops"]) != ["S1", "S2"]:
        return r["stops"]
''')

bug(id="too-fast-accumulate", prop="P23",
    edits=[("processors/toofasttripremover.go",
            "		for j := 1; j < len(t.StopTimes); j++ {\n			dist := 0.0\n",
            "		dist := 0.0\n		for j := 1; j < len(t.StopTimes); j++ {\n")],
    needs="a trip of several stops with long distances, travelling at a plausible speed",
    what="distances are counted several times, ordinary trips are dropped as too fast",
    demo='''
def check():
    f = feed(stops="stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station\\n" + "\\n".join(
                 "S%d,Stop %d,%.2f,0.5,," % (k, k, 0.5 + 0.1 * k) for k in range(1, 9)),
             stop_times="trip_id,arrival_time,departure_time,stop_id,stop_sequence\\n" + "\\n".join(
                 "T,%02d:%02d:00,%02d:%02d:00,S%d,%d" % (8 + k // 6, k % 6 * 10, 8 + k // 6, k % 6 * 10, k, k)
                 for k in range(1, 9)))
    r = run(["--drop-too-fast-trips"], f)
    if len(r["trips"]) != 1:
        return "dropped"
''')

bug(id="validate-last-only", prop="P24",
    edits=[("gtfstidy.go",
            "			e = locFeed.Parse(gtfsPath)\n\n			if e != nil {\n",
            "			e = locFeed.Parse(gtfsPath)\n\n			if e != nil && gtfsPath == gtfsPaths[len(gtfsPaths)-1] {\n")],
    needs="-v with several feeds, a flaw in one which is not the last",
    what="the program says No errors. although a feed is invalid",
    demo='''
def check():
    bad = feed(trips="route_id,service_id,trip_id\\nNOPE,W,T")
    for fs in ([bad, feed()], [feed(), bad], [feed(), bad, feed()]):
        r = run(["-v"], *fs)
        if r["exit"] == 0 or "No errors" in r["log"]:
            return r["log"]
''')

bug(id="default-drops-rows", prop="P25",
    edits=[("gtfstidy.go",
            "	opts.DropErroneous = *dropErroneousEntities && !*onlyValidate\n",
            "	opts.DropErroneous = (*dropErroneousEntities || *useDefaultValuesOnError) && !*onlyValidate\n")],
    needs="-e without -D, a row which cannot be used",
    what="rows are dropped although only default values were allowed",
    demo='''
def check():
    r = run(["-e"], feed(trips="route_id,service_id,trip_id\\nR,W,T\\nNOPE,W,T2"))
    if r["exit"] == 0:
        return r["trips"]
''')

bug(id="recluster-inner-transfer", prop="P26",
    edits=[("processors/stopreclusterer.go",
            "				tk_new.From_stop = parent\n			}\n			if tk.To_stop == st {\n",
            "				tk_new.From_stop = parent\n			} else if tk.To_stop == st {\n")],
    needs="-E merging two stations, a transfer from one of them to itself",
    what="a transfer leads to a station which is gone, or is lost",
    demo='''
def check():
    f = feed(stops="""stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station
        S1,Central Station,0.5,0.5,0,P
        S2,Central Station,0.5,0.5001,0,Q
        P,Central Station,0.5,0.5,1,
        Q,Central Station,0.5,0.5001,1,""",
             transfers="from_stop_id,to_stop_id,transfer_type,min_transfer_time\\nP,P,2,60")
    for k in range(12):
        r = run(["-E"], f)
        ids = {s["stop_id"] for s in r["stops"]}
        if r["exit"] or not r["transfers"] or any(
                t["from_stop_id"] not in ids or t["to_stop_id"] not in ids for t in r["transfers"]):
            return "transfers: %s" % r["transfers"]
''')

bug(id="services-after-trips", prop="P27",
    edits=[("gtfstidy.go",
            "			// may have created service duplicates\n			if *useRedServiceMinimizer {\n",
            "			// may have created service duplicates\n			if *useRedServiceMinimizer && *redTripMinimizerAggressive {\n")],
    needs="-C with -I, trips whose merged services become equal",
    what="equal services remain in the output",
    demo='''
def check():
    f = feed(calendar="""service_id,monday,tuesday,wednesday,thursday,friday,saturday,sunday,start_date,end_date
        V,1,1,1,1,1,1,1,20240304,20240310
        W,1,1,1,1,1,1,1,20240311,20240317""",
             trips="""route_id,service_id,trip_id
             R,V,a
             R,W,b
             R,V,c
             R,W,d""",
             stop_times="trip_id,arrival_time,departure_time,stop_id,stop_sequence\\n" + "\\n".join(
                 "%s,0%d:00:00,0%d:00:00,S1,1\\n%s,0%d:30:00,0%d:30:00,S2,2" % (i, h, h, i, h, h)
                 for i, h in (("a", 5), ("b", 5), ("c", 6), ("d", 6))))
    r = run(["-I", "-C"], f)
    s = {t["service_id"] for t in r["trips"]}
    ds = [frozenset(dates(r, x)) for x in s]
    if len(set(ds)) != len(ds):
        return r["calendar"]
''')

bug(id="snap-once-per-stop", prop="P28",
    edits=[("processors/shapesnapper.go",
            "		for i, st := range t.StopTimes {\n			snaplat,",
            "		snapped := make(map[*gtfs.Stop]*gtfs.Stop)\n\n		for i, st := range t.StopTimes {\n			// loops stop at the same place again\n			if s, ok := snapped[st.Stop()]; ok {\n				t.StopTimes[i].SetStop(s)\n				continue\n			}\n			snaplat,"),
           ("processors/shapesnapper.go",
            "				feed.Stops[newId] = &newStop\n",
            "				feed.Stops[newId] = &newStop\n				snapped[st.Stop()] = &newStop\n")],
    needs="a trip which stops twice at a stop off its shape, at different distances",
    what="the second call is moved to the place of the first one",
    demo='''
def check():
    f = feed(stops="""stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station
        S1,One,0.5,0.503,,
        S2,Two,0.6,0.5,,""",
             shapes="""shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence,shape_dist_traveled
             X,0.5,0.5,1,0
             X,0.6,0.5,2,10
             X,0.7,0.5,3,20""",
             trips="route_id,service_id,trip_id,shape_id\\nR,W,T,X",
             stop_times="""trip_id,arrival_time,departure_time,stop_id,stop_sequence,shape_dist_traveled
             T,08:00:00,08:00:00,S1,1,0
             T,08:10:00,08:10:00,S2,2,10
             T,08:20:00,08:20:00,S1,3,18""")
    r = run(["--snap-stops"], f)
    pos = {s["stop_id"]: s["stop_lat"] for s in r["stops"]}
    y = [float(pos[t["stop_id"]]) for t in sorted(r["stop_times"], key=lambda t: int(t["stop_sequence"]))]
    if abs(y[0] - 0.5) > 0.001 or abs(y[2] - 0.68) > 0.001:
        return y
''')
