BUGS = []


def bug(**k):
    BUGS.append(k)


bug(id="trip-shared-service", prop="P10",
    edits=[("processors/tripduplicateremover.go",
            "	if m.serviceRefs[ref.Service] == 1 {\n		// change inplace",
            "	if m.serviceRefs[ref.Service] <= 2 {\n		// change inplace")],
    needs="two trips with overlapping dates to merge, one of them sharing its service with exactly one unrelated trip",
    what="the unrelated trip loses service days when the overlap of the merged trips is removed in place",
    demo='''
def check():
    f = feed(calendar="""service_id,monday,tuesday,wednesday,thursday,friday,saturday,sunday,start_date,end_date
            V,1,1,1,1,1,1,1,20240304,20240310
            W,1,1,1,1,1,1,1,20240307,20240317""",
             trips="""route_id,service_id,trip_id
            R,V,T1
            R,W,T2
            R,V,U1
            R,W,U2""",
             stop_times="""trip_id,arrival_time,departure_time,stop_id,stop_sequence
            T1,08:00:00,08:00:00,S1,1
            T1,08:10:00,08:10:00,S2,2
            T2,08:00:00,08:00:00,S1,1
            T2,08:10:00,08:10:00,S2,2
            U1,09:00:00,09:00:00,S1,1
            U1,09:10:00,09:10:00,S3,2
            U2,10:00:00,10:00:00,S1,1
            U2,10:10:00,10:10:00,S3,2""")
    for _ in range(8):
        r = run(["-I"], f)
        sv = {t["trip_id"]: t["service_id"] for t in r["trips"]}
        if len(dates(r, sv["U1"])) != 7 or len(dates(r, sv["U2"])) != 11:
            return "U1 runs on %d dates, U2 on %d" % (len(dates(r, sv["U1"])), len(dates(r, sv["U2"])))
''')

bug(id="freq-id-taken", prop="P09",
    edits=[("processors/frequencyminizer.go",
            """					if _, in := feed.Trips[newID]; in {
						suffixC++
					} else if""",
            """					if other, in := feed.Trips[newID]; in && other.Route == t.Route {
						suffixC++
					} else if""")],
    needs="a pattern which needs several frequency trips and a trip of another route whose id equals the generated one",
    what="the trip of the other route is overwritten and lost",
    demo='''
def check():
    names = ["A", "B", "C", "D", "E", "F"]
    trips, sts = [], []
    for k, t in enumerate([0, 10, 20, 30, 40, 50, 60, 70, 37]):
        trips.append("R,W,T%d" % k)
        for j, s in enumerate(["S1", "S2"]):
            m = 480 + t + 10 * j
            sts.append("T%d,%02d:%02d:00,%02d:%02d:00,%s,%d" % (k, m // 60, m % 60, m // 60, m % 60, s, j + 1))
    for k in range(9):
        for n in (2, 3, 4, 5):
            i = "T%d_%d" % (k, n)
            trips.append("Q,W," + i)
            sts.append("%s,12:%02d:00,12:%02d:00,S1,1" % (i, k + n, k + n))
            sts.append("%s,13:%02d:%02d,13:%02d:%02d,S3,2" % (i, k + n, n * 9 + k, k + n, n * 9 + k))
    f = feed(routes="route_id,agency_id,route_short_name,route_long_name,route_type\\nR,A,1,,3\\nQ,A,2,,3",
             trips="route_id,service_id,trip_id\\n" + "\\n".join(trips),
             stop_times="trip_id,arrival_time,departure_time,stop_id,stop_sequence\\n" + "\\n".join(sts))
    for _ in range(4):
        r = run(["-T"], f)
        n = sum(1 for t in r["trips"] if t["route_id"] == "Q" and not any(
            x["trip_id"] == t["trip_id"] for x in r["frequencies"]))
        if n != 36:
            return "%d of 36 trips of the other route are left" % n
''')

bug(id="fare-rules-prefix", prop="P13",
    edits=[("processors/routeduplicateremover.go",
            "	return len(rulesA) == 0 && len(rulesB) == 0\n",
            "	return len(rulesA) == len(rulesB)\n")],
    needs="two routes which agree in everything but have different fare rules of the same number under one fare",
    what="routes with different fares are merged and a fare rule is lost",
    demo='''
def check():
    f = feed(routes="route_id,agency_id,route_short_name,route_long_name,route_type\\nR,A,1,,3\\nQQ,A,1,,3",
             trips="route_id,service_id,trip_id\\nR,W,T\\nQQ,W,U",
             stop_times=BASE["stop_times"] + """
             U,09:00:00,09:00:00,S1,1
             U,09:10:00,09:10:00,S2,2""",
             fare_attributes="fare_id,price,currency_type,payment_method,transfers,agency_id\\nF,1.5,EUR,0,0,A",
             fare_rules="fare_id,route_id,origin_id,destination_id,contains_id\\nF,R,Z1,Z2,\\nF,QQ,Z1,Z3,")
    r = run(["-R"], f)
    if len(r["routes"]) != 2 or len(r["fare_rules"]) != 2:
        return "%d routes, %d fare rules" % (len(r["routes"]), len(r["fare_rules"]))
''')

bug(id="service-early-range", prop="P05",
    edits=[("processors/serviceminimizer.go",
            """	for st := start.GetTime(); !st.After(end.GetTime()); st = sm.getNextDateTime(st) {
""",
            """	service.SetStart_date(sm.getGtfsDateFromTime(newBegin))
	service.SetEnd_date(sm.getGtfsDateFromTime(newEnd))

	for st := start.GetTime(); !st.After(end.GetTime()); st = sm.getNextDateTime(st) {
"""),
           ("processors/serviceminimizer.go",
            """	service.SetStart_date(sm.getGtfsDateFromTime(newBegin))
	service.SetEnd_date(sm.getGtfsDateFromTime(newEnd))
	service.SetDaymap(0, newMap[0])
""", """	service.SetDaymap(0, newMap[0])
""")],
    needs="a service of which a regular active date falls outside the best new calendar row",
    what="that date is evaluated against the already shortened calendar and lost",
    demo='''
def check():
    import datetime
    rem = ["202403%02d" % d for d in range(18, 28) if d not in (23, 24)] + ["20240329"]
    f = feed(calendar_dates="service_id,date,exception_type\\n" + "\\n".join("W,%s,2" % d for d in rem))
    exp = {datetime.date(2024, 3, 4) + datetime.timedelta(k) for k in range(12)}
    exp = {d for d in exp if d.weekday() < 5} | {datetime.date(2024, 3, 28)}
    r = run(["-c"], f)
    if dates(r, "W") != exp:
        return sorted(map(str, dates(r, "W") ^ exp))
''')
