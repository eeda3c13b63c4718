BUGS = []


def bug(**k):
    BUGS.append(k)


bug(id="cal-dates-lone-day", prop="P07",
    edits=[("processors/servicecaldatesremover.go",
            "			if first.GetTime() != curBlockStart.GetTime() {\n",
            "			if first.GetTime().After(curBlockStart.GetOffsettedDate(1).GetTime()) {\n")],
    needs="a service with a single regular day between two removed days (or before the first removed day)",
    what="that lone day of service is lost when the exceptions are folded into calendar rows",
    demo='''
def check():
    import datetime
    f = feed(calendar_dates="service_id,date,exception_type\\nW,20240305,2\\nW,20240313,2")
    r = run(["--remove-cal-dates"], f)
    got = set()
    for t in r["trips"]:
        got |= dates(r, t["service_id"])
    exp = {datetime.date(2024, 3, 4) + datetime.timedelta(k) for k in range(28)}
    exp = {d for d in exp if d.weekday() < 5} - {datetime.date(2024, 3, 5), datetime.date(2024, 3, 13)}
    if got != exp:
        return sorted(map(str, got ^ exp))
''')

bug(id="non-overlap-ends", prop="P08",
    edits=[("processors/servicenonoverlapper.go",
            "				if slices.Equal(trips, existing.Trips) {\n",
            "				n := len(trips)\n				if n == len(existing.Trips) && slices.Equal(trips[:1], existing.Trips[:1]) && slices.Equal(trips[n-1:], existing.Trips[n-1:]) {\n")],
    needs="two dates of the same weekday which agree in the number of trips and in the first and last trip, but not in between",
    what="one date gets the trips of the other date",
    demo='''
def check():
    rows, tr, st = [], [], []
    for n, (sv, ds) in enumerate([("V", ["20240304", "20240311"]), ("W1", ["20240304"]), ("W2", ["20240311"]),
                                  ("Z", ["20240304", "20240311"])]):
        rows += ["%s,%s,1" % (sv, d) for d in ds]
        tr.append("R,%s,T%d" % (sv, n))
        st += ["T%d,0%d:00:00,0%d:00:00,S1,1" % (n, n + 5, n + 5), "T%d,0%d:30:00,0%d:30:00,S2,2" % (n, n + 5, n + 5)]
    f = feed(calendar_dates="service_id,date,exception_type\\n" + "\\n".join(rows),
             trips="route_id,service_id,trip_id\\n" + "\\n".join(tr),
             stop_times="trip_id,arrival_time,departure_time,stop_id,stop_sequence\\n" + "\\n".join(st))
    r = run(["--non-overlapping-services"], f)
    served = {}
    for t in r["trips"]:
        served.setdefault(t["trip_id"].split(":")[0], set()).update(map(str, dates(r, t["service_id"])))
    if served.get("T1") != {"2024-03-04"} or served.get("T2") != {"2024-03-11"}:
        return served
''')

bug(id="service-dup-year", prop="P06",
    edits=[("processors/serviceduplicateremover.go",
            "	binary.LittleEndian.PutUint64(b, uint64(first.Year()))\n	h.Write(b)\n", ""),
           ("processors/serviceduplicateremover.go",
            "	binary.LittleEndian.PutUint64(b, uint64(last.Year()))\n	h.Write(b)\n", ""),
           ("processors/serviceduplicateremover.go",
            "	if a.start != b.start || a.end != b.end {\n		return false\n	}\n",
            "	if a.start.Day() != b.start.Day() || a.start.Month() != b.start.Month() || a.end.Day() != b.end.Day() || a.end.Month() != b.end.Month() {\n		return false\n	}\n")],
    needs="two services with the same days and months of service, in different years",
    what="services of different years are merged",
    demo='''
def check():
    f = feed(calendar_dates="""service_id,date,exception_type
            V,20230503,1
            V,20230505,1
            U,20240503,1
            U,20240505,1""",
             trips="route_id,service_id,trip_id\\nR,V,T\\nR,U,TT",
             stop_times=BASE["stop_times"] + """
             TT,08:00:00,08:00:00,S1,1
             TT,08:10:00,08:10:00,S2,2""")
    r = run(["-C"], f)
    sv = {t["trip_id"]: t["service_id"] for t in r["trips"]}
    if sorted(map(str, dates(r, sv["T"]))) != ["2023-05-03", "2023-05-05"] or \\
       sorted(map(str, dates(r, sv["TT"]))) != ["2024-05-03", "2024-05-05"]:
        return sv
''')

bug(id="orphan-flag-stop", prop="P11",
    edits=[("processors/orphanminimizer.go",
            "			if st.Drop_off_type() != 1 || st.Continuous_drop_off() != 1 || s.Route.Continuous_drop_off != 1 {\n",
            "			if st.Drop_off_type() != 1 || st.Continuous_drop_off() != 1 || s.Route.Continuous_pickup != 1 {\n")],
    needs="a trip which may only be left between its stops (continuous drop-off given by the route only)",
    what="the trip is deleted as if nobody could get off",
    demo='''
def check():
    f = feed(routes="""route_id,agency_id,route_short_name,route_long_name,route_type,continuous_drop_off
            R,A,1,,3,0""",
             stop_times="""trip_id,arrival_time,departure_time,stop_id,stop_sequence,pickup_type,drop_off_type,continuous_drop_off
             T,08:00:00,08:00:00,S1,1,0,1,1
             T,08:10:00,08:10:00,S2,2,0,1,1""")
    r = run(["-O"], f)
    if len(r["trips"]) != 1:
        return "%d trips" % len(r["trips"])
''')

bug(id="shape-loop", prop="P16",
    edits=[("processors/util.go",
            """	if d == 0 {
		return dist(px, py, lax, lay)
	}
	t := float64((px-lax)*(lbx-lax)+(py-lay)*(lby-lay)) / d
	if t < 0 {
		return dist(px, py, lax, lay)
	} else if t > 1 {
		return dist(px, py, lbx, lby)
	}
""",
            """	if d == 0 {
		return 0
	}
	t := float64((px-lax)*(lbx-lax)+(py-lay)*(lby-lay)) / d
	if t < 0 {
		return dist(px, py, lax, lay)
	} else if t > 1 {
		return dist(px, py, lbx, lby)
	}
""")],
    needs="a shape which ends where it started",
    what="the loop is reduced to its first and last point",
    demo='''
def check():
    f = feed(shapes="""shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence
            H,0.5,0.5,1
            H,0.6,0.5,2
            H,0.6,0.6,3
            H,0.5,0.5,4""",
             trips="route_id,service_id,trip_id,shape_id\\nR,W,T,H")
    r = run(["-s"], f)
    if len(r["shapes"]) != 4:
        return r["shapes"]
''')

bug(id="attribution-id-twice", prop="P18",
    edits=[("processors/idminimizer.go",
            """		for i, _ := range *t.Attributions {
			newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
			(*t.Attributions)[i].Id = newId
			idCount = idCount + 1
		}
""", """		idCount := idCount
		for i, _ := range *t.Attributions {
			newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
			(*t.Attributions)[i].Id = newId
			idCount = idCount + 1
		}
""")],
    needs="attributions of at least two different trips",
    what="several attributions get the same id",
    demo='''
def check():
    f = feed(trips="route_id,service_id,trip_id\\nR,W,T\\nR,W,U",
             stop_times=BASE["stop_times"] + """
             U,09:00:00,09:00:00,S1,1
             U,09:10:00,09:10:00,S2,2""",
             attributions="""attribution_id,organization_name,is_operator,trip_id
             a,One,1,T
             b,Two,1,U""")
    r = run(["-i"], f)
    ids = [x["attribution_id"] for x in r["attributions"]]
    if len(ids) != 2 or len(set(ids)) != 2:
        return ids
''')

bug(id="merge-blocks", prop="P19",
    edits=[("gtfstidy.go",
            "						} else if newId, ok := oldToNewBlockIds[*s.Block_id]; ok && newId == oldId {\n",
            "						} else if newId, ok := oldToNewBlockIds[*s.Block_id]; !ok || newId == oldId {\n")],
    needs="two merged feeds which both use a block id, and --keep-block-ids",
    what="blocks of different feeds are joined",
    demo='''
def check():
    f = feed(trips="route_id,service_id,trip_id,block_id\\nR,W,T,b")
    r = run(["--keep-block-ids"], f, f)
    bl = [t["block_id"] for t in r["trips"]]
    if len(bl) != 2 or len(set(bl)) != 2 or "b" not in bl:
        return bl
''')

bug(id="agency-one-fare", prop="P12",
    edits=[("processors/agencyduplicateremover.go",
            "				fa.Agency = ref\n", "				fa.Agency = ref\n				break\n")],
    needs="a merged agency with more than one fare",
    what="the other fares refer to an agency which does not exist any more",
    demo='''
def check():
    ag = BASE["agency"] + "\\nAA,Agency,http://a.example,Europe/Berlin\\nB,Other,http://a.example,Europe/Berlin"
    f = feed(agency=ag, fare_attributes="""fare_id,price,currency_type,payment_method,transfers,agency_id
            F,1.5,EUR,0,0,AA
            G,2.5,EUR,0,0,AA
            H,3.5,EUR,0,0,AA""")
    r = run(["-A"], f)
    have = {a["agency_id"] for a in r["agency"]}
    if any(x["agency_id"] not in have for x in r["fare_attributes"]):
        return r["fare_attributes"]
''')

bug(id="measure-clamp-once", prop="P17",
    edits=[("processors/shaperemeasurer.go",
            "				t.StopTimes[i].SetShape_dist_traveled(t.Shape.Points[len(t.Shape.Points)-1].Dist_traveled)\n",
            "				t.StopTimes[i].SetShape_dist_traveled(t.Shape.Points[len(t.Shape.Points)-1].Dist_traveled)\n				break\n")],
    needs="a trip with two stops measured beyond the end of its shape",
    what="only the first of them is brought back onto the shape",
    demo='''
def check():
    f = feed(shapes="""shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence,shape_dist_traveled
            H,0.50,0.5,1,0
            H,0.60,0.5,2,1000""",
             trips="route_id,service_id,trip_id,shape_id\\nR,W,T,H",
             stop_times="""trip_id,arrival_time,departure_time,stop_id,stop_sequence,shape_dist_traveled
             T,08:00:00,08:00:00,S1,1,0
             T,08:10:00,08:10:00,S2,2,1001
             T,08:20:00,08:20:00,S3,3,1002""")
    r = run(["-m"], f)
    m = [float(x["shape_dist_traveled"]) for x in r["stop_times"]]
    if max(m) > 1000:
        return m
''')

bug(id="stop-dup-chain", prop="P14",
    edits=[("processors/stopduplicateremover.go",
            "				pstops[ref] = append(pstops[ref], pstops[s][i])\n", "")],
    needs="stations a, b, c in a row, a near b and b near c but a not near c, merged one after the other",
    what="platforms keep a parent station that was merged away",
    demo='''
def check():
    rows = ["stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station"]
    for k, i in enumerate(["P", "QQ", "RRR"]):
        rows.append("%s,Station,%.6f,0.5,1," % (i, 0.5 + 0.0004 * k))
        rows.append("S%d,Platform %d,%.6f,0.5,0,%s" % (k + 1, k, 0.5 + 0.0004 * k, i))
    f = feed(stops="\\n".join(rows))
    for _ in range(30):
        r = run(["-P"], f)
        have = {s["stop_id"] for s in r["stops"]}
        for s in r["stops"]:
            if s["parent_station"] and s["parent_station"] not in have:
                return r["stops"]
''')

bug(id="shape-detour", prop="P15",
    edits=[("processors/shapeduplicateremover.go",
            "sdr.inDistTo(s, shp) && sdr.inDistTo(shp, s) {", "(sdr.inDistTo(s, shp) || sdr.inDistTo(shp, s)) {")],
    needs="two unmeasured shapes of which one follows the other and makes an additional detour",
    what="a shape is merged with one that lacks (or has) a detour",
    demo='''
def check():
    f = feed(shapes="""shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence,shape_dist_traveled
            H,0.50,0.5,1,0
            H,0.51,0.5,2,10
            H,0.52,0.5,3,20
            G,0.50,0.5,1,0
            G,0.51,0.5,2,10
            G,0.51,0.5005,3,10.05
            G,0.51,0.5,4,10.1
            G,0.52,0.5,5,20""",
             trips="route_id,service_id,trip_id,shape_id\\nR,W,T,H\\nR,W,U,G",
             stop_times=BASE["stop_times"] + """
             U,09:00:00,09:00:00,S1,1
             U,09:10:00,09:10:00,S2,2""")
    r = run(["-S"], f)
    if len({p["shape_id"] for p in r["shapes"]}) != 2:
        return r["shapes"]
''')
