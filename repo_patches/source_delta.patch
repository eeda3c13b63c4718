From 2d097f401bc2471a23599fe4c7347406ef45d677 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 15:56:30 +0000
Subject: [PATCH 01/48] fix: service minimizer used the wrong base date for the
 best coverage found

The best span is searched relative to the full week before the first active
date, but was applied relative to the first active date itself, which could
produce more exceptions than the service had before. As only full weeks are
considered, also keep the original coverage if it has fewer exceptions.
---
 processors/serviceminimizer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/processors/serviceminimizer.go b/processors/serviceminimizer.go
index 0edc9f2..f635f90 100755
--- a/processors/serviceminimizer.go
+++ b/processors/serviceminimizer.go
@@ -179,7 +179,7 @@ out:
 		}
 	}
 
-	sm.updateService(service, bestMap, bestA, bestB, startTime, endTime, start, end)
+	sm.updateService(service, bestMap, bestA, bestB, startTimeAm, endTime, start, end)
 }
 
 func (sm ServiceMinimizer) countExceptions(s *gtfs.Service, actmap []bool, bm uint, startDiff int, endDiff int, a int, b int, max uint) uint {
@@ -365,6 +365,12 @@ func (sm ServiceMinimizer) updateService(service *gtfs.Service, bestMap uint, be
 		}
 	}
 
+	if len(newExceptions) > len(service.Exceptions()) {
+		// the search only considers full weeks, keep the original coverage if it
+		// was better
+		return
+	}
+
 	service.SetExceptions(make(map[gtfs.Date]bool, 0))
 
 	for _, e := range newExceptions {
-- 
2.43.0


From 75c502e4ada6753ef9ae1829f9a050a4794a8bf0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 15:57:16 +0000
Subject: [PATCH 02/48] fix: keep frequencies and additional fields of trips
 split by --remove-cal-dates

---
 processors/servicecaldatesremover.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/processors/servicecaldatesremover.go b/processors/servicecaldatesremover.go
index c1ff2c2..105396b 100755
--- a/processors/servicecaldatesremover.go
+++ b/processors/servicecaldatesremover.go
@@ -74,6 +74,13 @@ func (sm ServiceCalDatesRem) Run(feed *gtfsparser.Feed) {
 				newTrip.Wheelchair_accessible = trip.Wheelchair_accessible
 				newTrip.StopTimes = append([]gtfs.StopTime(nil), trip.StopTimes...)
 
+				if trip.Frequencies != nil {
+					freqs := append([]*gtfs.Frequency(nil), *trip.Frequencies...)
+					newTrip.Frequencies = &freqs
+				}
+
+				sm.copyAddFlds(feed, trip.Id, newTrip.Id)
+
 				newTrips = append(newTrips, newTrip)
 			}
 		}
@@ -211,6 +218,27 @@ func (sm *ServiceCalDatesRem) getBlocks(feed *gtfsparser.Feed, s *gtfs.Service)
 }
 
 // get a free trip id with the given prefix
+// copy the additional fields of a trip to a new trip
+func (sm *ServiceCalDatesRem) copyAddFlds(feed *gtfsparser.Feed, from string, to string) {
+	for k := range feed.TripsAddFlds {
+		if val, ok := feed.TripsAddFlds[k][from]; ok {
+			feed.TripsAddFlds[k][to] = val
+		}
+	}
+
+	for k := range feed.StopTimesAddFlds {
+		if val, ok := feed.StopTimesAddFlds[k][from]; ok {
+			feed.StopTimesAddFlds[k][to] = val
+		}
+	}
+
+	for k := range feed.FrequenciesAddFlds {
+		if val, ok := feed.FrequenciesAddFlds[k][from]; ok {
+			feed.FrequenciesAddFlds[k][to] = val
+		}
+	}
+}
+
 func (sm *ServiceCalDatesRem) freeTripId(feed *gtfsparser.Feed, prefix string) string {
 	for sm.tidc < ^uint(0) {
 		sm.tidc += 1
-- 
2.43.0


From 1e2ed3829af502004149867df610b45d60f234df Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 15:57:40 +0000
Subject: [PATCH 03/48] fix: ids created by --remove-cal-dates could collide
 with each other

'A' + '11' and 'A1' + '1' both gave 'A11', losing one of the services or trips.
---
 processors/servicecaldatesremover.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/processors/servicecaldatesremover.go b/processors/servicecaldatesremover.go
index 105396b..d03ffb5 100755
--- a/processors/servicecaldatesremover.go
+++ b/processors/servicecaldatesremover.go
@@ -20,6 +20,10 @@ type ServiceCalDatesRem struct {
 	ServiceMinimizer
 	tidc uint
 	sidc uint
+
+	// ids already given to new trips and services
+	tids map[string]bool
+	sids map[string]bool
 }
 
 // Run this ServiceMinimizer on some feed
@@ -29,6 +33,9 @@ func (sm ServiceCalDatesRem) Run(feed *gtfsparser.Feed) {
 
 	newServices := make(map[*gtfs.Service][]*gtfs.Service, 0)
 
+	sm.tids = make(map[string]bool)
+	sm.sids = make(map[string]bool)
+
 	for _, s := range feed.Services {
 		blocks := sm.getBlocks(feed, s)
 
@@ -243,7 +250,8 @@ func (sm *ServiceCalDatesRem) freeTripId(feed *gtfsparser.Feed, prefix string) s
 	for sm.tidc < ^uint(0) {
 		sm.tidc += 1
 		tid := prefix + fmt.Sprint(sm.tidc)
-		if _, ok := feed.Trips[tid]; !ok {
+		if _, ok := feed.Trips[tid]; !ok && !sm.tids[tid] {
+			sm.tids[tid] = true
 			return tid
 		}
 	}
@@ -255,7 +263,8 @@ func (sm *ServiceCalDatesRem) freeServiceId(feed *gtfsparser.Feed, prefix string
 	for sm.sidc < ^uint(0) {
 		sm.sidc += 1
 		sid := prefix + fmt.Sprint(sm.sidc)
-		if _, ok := feed.Services[sid]; !ok {
+		if _, ok := feed.Services[sid]; !ok && !sm.sids[sid] {
+			sm.sids[sid] = true
 			return sid
 		}
 	}
-- 
2.43.0


From 6cee8fb95877d202e1470884548c5cbfbbf183f3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 15:58:30 +0000
Subject: [PATCH 04/48] fix: services created by --non-overlapping-services
 could share an id

The id only holds week numbers, which repeat each year. Services with the same
id silently replaced each other, dropping their dates.
---
 processors/servicenonoverlapper.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/processors/servicenonoverlapper.go b/processors/servicenonoverlapper.go
index 7d6c19a..18db5fc 100755
--- a/processors/servicenonoverlapper.go
+++ b/processors/servicenonoverlapper.go
@@ -134,6 +134,13 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 				}
 			}
 
+			// week numbers repeat each year, ensure that the id is not taken
+			freeId := id
+			for n := 2; feed.Services[freeId] != nil; n++ {
+				freeId = id + " " + strconv.Itoa(n)
+			}
+			id = freeId
+
 			exceptions := make(map[gtfs.Date]bool)
 			for _, d := range t.Dates {
 				exceptions[d] = true
-- 
2.43.0


From 9b3365c39be4ea1b1efb7dc4de0da5f80ce84ea9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 15:58:30 +0000
Subject: [PATCH 05/48] fix: --non-overlapping-services left transfers between
 trips that no longer exist

---
 processors/servicenonoverlapper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/processors/servicenonoverlapper.go b/processors/servicenonoverlapper.go
index 18db5fc..f7e7810 100755
--- a/processors/servicenonoverlapper.go
+++ b/processors/servicenonoverlapper.go
@@ -160,5 +160,8 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 		}
 	}
 
+	// the old trips are gone
+	feed.CleanTransfers()
+
 	fmt.Fprintf(os.Stdout, "done. (created %d calendar_dates.txt entries, %d monday, %d tuesday, %d wednesday, %d thursday, %d friday, %d saturday, %d sunday types)\n", len(feed.Services), len(day_types[1]), len(day_types[2]), len(day_types[3]), len(day_types[4]), len(day_types[5]), len(day_types[6]), len(day_types[0]))
 }
-- 
2.43.0


From ac0116c2bb27fe689ee0279bd50e0a6d5007f762 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 15:58:31 +0000
Subject: [PATCH 06/48] fix: --non-overlapping-services wrote attribution ids
 several times

---
 processors/servicenonoverlapper.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/processors/servicenonoverlapper.go b/processors/servicenonoverlapper.go
index f7e7810..c97b3d4 100755
--- a/processors/servicenonoverlapper.go
+++ b/processors/servicenonoverlapper.go
@@ -94,6 +94,8 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 	feed.TripsAddFlds = make(map[string]map[string]string)
 	feed.StopTimesAddFlds = make(map[string]map[string]map[int]string)
 
+	split := make(map[*gtfs.Trip]bool)
+
 	// write services
 	for wd, _ := range days {
 		for _, t := range day_types[wd] {
@@ -155,6 +157,17 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 				newt.Id = newt.Id + ":" + id
 				newt.Service = feed.Services[id]
 				newt.StopTimes = append(gtfs.StopTimes{}, trip.StopTimes...)
+				if split[trip] && trip.Attributions != nil {
+					// attribution ids must stay unique
+					attrs := make([]*gtfs.Attribution, 0)
+					for _, a := range *trip.Attributions {
+						attr := *a
+						attr.Id = ""
+						attrs = append(attrs, &attr)
+					}
+					newt.Attributions = &attrs
+				}
+				split[trip] = true
 				feed.Trips[newt.Id] = &newt
 			}
 		}
-- 
2.43.0


From d4465b5e9c32321132a060269d35edf58969ea3c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:02:46 +0000
Subject: [PATCH 07/48] fix: frequency minimizer shifted departures at first
 stops with a dwell time and stop times without a time

---
 processors/frequencyminizer.go | 58 ++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index 4dcfbf0..a560bce 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -402,7 +402,7 @@ func (m FrequencyMinimizer) getTimeIndependentEquivalentTrips(trip *gtfs.Trip, t
 				if t.Id == trip.Id || m.isTimeIndependentEqual(t, trip, feed) {
 					if t.Frequencies == nil || len(*t.Frequencies) == 0 {
 						mutex.Lock()
-						ret.trips = append(ret.trips, tripWrapper{t, t.StopTimes[0].Arrival_time(), false, nil})
+						ret.trips = append(ret.trips, tripWrapper{t, t.StopTimes[0].Departure_time(), false, nil})
 						ret.coveredTrips[t] = empty{}
 						mutex.Unlock()
 					} else {
@@ -449,22 +449,35 @@ func (m FrequencyMinimizer) isTimeIndependentEqual(a *gtfs.Trip, b *gtfs.Trip, f
 		a.Bikes_allowed == b.Bikes_allowed && m.hasSameRelStopTimes(a, b, feed)
 }
 
-// Remeasure a trips stop times by taking their relative values and changing the sequence to
-// start with time
+// Remeasure a trips stop times by shifting them such that the trip departs at time from
+// its first stop, stop times without a time are left untouched
 func (m FrequencyMinimizer) remeasureStopTimes(t *gtfs.Trip, time gtfs.Time) {
-	diff := 0
-	curArrDepDiff := 0
-	for i := 0; i < len(t.StopTimes); i++ {
-		curArrDepDiff = t.StopTimes[i].Departure_time().SecondsSinceMidnight() - t.StopTimes[i].Arrival_time().SecondsSinceMidnight()
-		oldArrT := t.StopTimes[i].Arrival_time().SecondsSinceMidnight()
+	diff := time.SecondsSinceMidnight() - t.StopTimes[0].Departure_time().SecondsSinceMidnight()
+
+	// the times of a frequency-based trip are only relative, don't let them become negative
+	if arr := t.StopTimes[0].Arrival_time(); !arr.Empty() && arr.SecondsSinceMidnight()+diff < 0 {
+		diff = -arr.SecondsSinceMidnight()
+	}
 
-		t.StopTimes[i].SetArrival_time(m.getGtfsTimeFromSec(time.SecondsSinceMidnight() + diff))
-		t.StopTimes[i].SetDeparture_time(m.getGtfsTimeFromSec(time.SecondsSinceMidnight() + diff + curArrDepDiff))
+	for i := 0; i < len(t.StopTimes); i++ {
+		arr := t.StopTimes[i].Arrival_time()
+		dep := t.StopTimes[i].Departure_time()
 
-		if i < len(t.StopTimes)-1 {
-			diff += t.StopTimes[i+1].Arrival_time().SecondsSinceMidnight() - oldArrT
+		if !arr.Empty() {
+			t.StopTimes[i].SetArrival_time(m.getGtfsTimeFromSec(arr.SecondsSinceMidnight() + diff))
 		}
+		if !dep.Empty() {
+			t.StopTimes[i].SetDeparture_time(m.getGtfsTimeFromSec(dep.SecondsSinceMidnight() + diff))
+		}
+	}
+}
+
+// Return the time of t relative to the first departure of a trip, false if t is empty
+func (m FrequencyMinimizer) relTime(t gtfs.Time, trip *gtfs.Trip) (int, bool) {
+	if t.Empty() {
+		return 0, false
 	}
+	return t.SecondsSinceMidnight() - trip.StopTimes[0].Departure_time().SecondsSinceMidnight(), true
 }
 
 // true if two trips share the same stops in the same order with the same
@@ -479,9 +492,6 @@ func (m FrequencyMinimizer) hasSameRelStopTimes(a *gtfs.Trip, b *gtfs.Trip, feed
 		return true
 	}
 
-	var aPrev *gtfs.StopTime
-	var bPrev *gtfs.StopTime
-
 	for i := range a.StopTimes {
 		addFldsEq := true
 
@@ -498,17 +508,17 @@ func (m FrequencyMinimizer) hasSameRelStopTimes(a *gtfs.Trip, b *gtfs.Trip, feed
 			((math.IsNaN(float64(a.StopTimes[i].Shape_dist_traveled())) && math.IsNaN(float64(b.StopTimes[i].Shape_dist_traveled()))) || FloatEquals(a.StopTimes[i].Shape_dist_traveled(), b.StopTimes[i].Shape_dist_traveled(), 0.01)) && a.StopTimes[i].Timepoint() == b.StopTimes[i].Timepoint()) {
 			return false
 		}
-		if i != 0 {
-			if a.StopTimes[i].Arrival_time().SecondsSinceMidnight()-aPrev.Arrival_time().SecondsSinceMidnight() != b.StopTimes[i].Arrival_time().SecondsSinceMidnight()-bPrev.Arrival_time().SecondsSinceMidnight() {
-				return false
-			}
-			if a.StopTimes[i].Departure_time().SecondsSinceMidnight()-aPrev.Departure_time().SecondsSinceMidnight() != b.StopTimes[i].Departure_time().SecondsSinceMidnight()-bPrev.Departure_time().SecondsSinceMidnight() {
-				return false
-			}
+		aArr, aArrSet := m.relTime(a.StopTimes[i].Arrival_time(), a)
+		bArr, bArrSet := m.relTime(b.StopTimes[i].Arrival_time(), b)
+		if aArr != bArr || aArrSet != bArrSet {
+			return false
 		}
 
-		aPrev = &a.StopTimes[i]
-		bPrev = &b.StopTimes[i]
+		aDep, aDepSet := m.relTime(a.StopTimes[i].Departure_time(), a)
+		bDep, bDepSet := m.relTime(b.StopTimes[i].Departure_time(), b)
+		if aDep != bDep || aDepSet != bDepSet {
+			return false
+		}
 	}
 	return true
 }
-- 
2.43.0


From 343817e74954b8306603707036002f3f9e147725 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:04:58 +0000
Subject: [PATCH 08/48] fix: fuzzy trip merging crashed on services without
 active days

---
 processors/tripduplicateremover.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/processors/tripduplicateremover.go b/processors/tripduplicateremover.go
index a62ecaa..5dff563 100755
--- a/processors/tripduplicateremover.go
+++ b/processors/tripduplicateremover.go
@@ -465,6 +465,11 @@ func (m *TripDuplicateRemover) tripCalEq(a *gtfs.Trip, b *gtfs.Trip) bool {
 		return false
 	}
 
+	if len(aDList) == 0 {
+		// both services are never active
+		return true
+	}
+
 	if aDList[len(aDList)-1] != bDList[len(bDList)-1] {
 		return false
 	}
-- 
2.43.0


From 1bc925cea9f973caeeaad2efbc2e608b6ce4a094 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:06:07 +0000
Subject: [PATCH 09/48] fix: orphaned stations of orphaned platforms with
 boarding areas were kept

---
 processors/orphanminimizer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/processors/orphanminimizer.go b/processors/orphanminimizer.go
index 997f838..55bcf37 100755
--- a/processors/orphanminimizer.go
+++ b/processors/orphanminimizer.go
@@ -35,7 +35,9 @@ func (or OrphanRemover) Run(feed *gtfsparser.Feed) {
 
 	or.removeStopOrphans(feed)
 
-	// do this 2 times, because stop deletion can create new stop orphans (parent_station)
+	// do this 3 times, because stop deletion can create new stop orphans (parent_station),
+	// and there may be two levels of parents (boarding area -> platform -> station)
+	or.removeStopOrphans(feed)
 	or.removeStopOrphans(feed)
 
 	or.removeShapeOrphans(feed)
-- 
2.43.0


From 5d671d7bdaa53073c556446de99dc0ed4c1ef562 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:06:07 +0000
Subject: [PATCH 10/48] fix: orphan remover overwrote the check of a transfer's
 from_route_id with that of its to_route_id

---
 processors/orphanminimizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/orphanminimizer.go b/processors/orphanminimizer.go
index 55bcf37..a387dfa 100755
--- a/processors/orphanminimizer.go
+++ b/processors/orphanminimizer.go
@@ -100,7 +100,7 @@ func (or OrphanRemover) removeTransferOrphans(feed *gtfsparser.Feed) {
 		}
 
 		if tk.To_route != nil {
-			_, inFromRoute = referenced_routes[tk.To_route]
+			_, inToRoute = referenced_routes[tk.To_route]
 		}
 
 		if inFrom && inTo && inFromRoute && inToRoute {
-- 
2.43.0


From d57aa6cf393188d6c488f15b225bfee64aff265c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:06:07 +0000
Subject: [PATCH 11/48] fix: orphan remover deleted transfers between stations
 with served stops

---
 processors/orphanminimizer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/processors/orphanminimizer.go b/processors/orphanminimizer.go
index a387dfa..92d04c1 100755
--- a/processors/orphanminimizer.go
+++ b/processors/orphanminimizer.go
@@ -76,6 +76,10 @@ func (or OrphanRemover) removeTransferOrphans(feed *gtfsparser.Feed) {
 		referenced_routes[t.Route] = empty{}
 		for _, st := range t.StopTimes {
 			referenced[st.Stop()] = empty{}
+			if st.Stop().Parent_station != nil {
+				// transfers may also be given for entire stations
+				referenced[st.Stop().Parent_station] = empty{}
+			}
 		}
 	}
 
-- 
2.43.0


From 2fa24f345e6dde694d26b231137dab458c554163 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:10:35 +0000
Subject: [PATCH 12/48] fix: merging stops left transfers to deleted stops and
 lost additional fields of transfers

---
 processors/stopduplicateremover.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/processors/stopduplicateremover.go b/processors/stopduplicateremover.go
index 78c90ff..d8c41f4 100755
--- a/processors/stopduplicateremover.go
+++ b/processors/stopduplicateremover.go
@@ -199,6 +199,12 @@ func (sdr StopDuplicateRemover) combineStops(feed *gtfsparser.Feed, stops []*gtf
 		}
 
 		for _, tk := range transfers[s] {
+			val, ok := feed.Transfers[tk]
+			if !ok {
+				// this transfer was already updated via its other stop
+				continue
+			}
+
 			// update the  key
 			tk_new := tk
 
@@ -212,12 +218,22 @@ func (sdr StopDuplicateRemover) combineStops(feed *gtfsparser.Feed, stops []*gtf
 			}
 
 			if _, ok := feed.Transfers[tk_new]; !ok {
-				feed.Transfers[tk_new] = feed.Transfers[tk]
-				delete(feed.Transfers, tk)
+				feed.Transfers[tk_new] = val
+
+				for fld := range feed.TransfersAddFlds {
+					if v, ok := feed.TransfersAddFlds[fld][tk]; ok {
+						feed.TransfersAddFlds[fld][tk_new] = v
+					}
+				}
 
 				// add new transfer to transfer refs
-				transfers[ref] = append(transfers[ref], tk_new)
+				transfers[tk_new.From_stop] = append(transfers[tk_new.From_stop], tk_new)
+				if tk_new.From_stop != tk_new.To_stop {
+					transfers[tk_new.To_stop] = append(transfers[tk_new.To_stop], tk_new)
+				}
 			}
+
+			feed.DeleteTransfer(tk)
 		}
 
 		for i, p := range pathways[s] {
-- 
2.43.0


From 740e2d1481d2d06ee1c08272724aba9b410b6b7d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:11:18 +0000
Subject: [PATCH 13/48] fix: duplicate stops with equal URLs were never merged

---
 processors/stopduplicateremover.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/processors/stopduplicateremover.go b/processors/stopduplicateremover.go
index d8c41f4..6ca555b 100755
--- a/processors/stopduplicateremover.go
+++ b/processors/stopduplicateremover.go
@@ -390,6 +390,11 @@ func (sdr StopDuplicateRemover) numColons(str string) int {
 	return count
 }
 
+// Check if the URLs of two stops are equal
+func (sdr StopDuplicateRemover) urlEquals(a *gtfs.Stop, b *gtfs.Stop) bool {
+	return a.Url == b.Url || (a.Url != nil && b.Url != nil && a.Url.String() == b.Url.String())
+}
+
 // Check if two stops are equal, distances under 1 m count as equal
 func (sdr StopDuplicateRemover) stopEquals(a *gtfs.Stop, b *gtfs.Stop, feed *gtfsparser.Feed) bool {
 	addFldsEq := true
@@ -410,7 +415,7 @@ func (sdr StopDuplicateRemover) stopEquals(a *gtfs.Stop, b *gtfs.Stop, feed *gtf
 			((distSApprox(a, b) <= sdr.DistThresholdStop/2 && parentsEqual) || a.Name == b.Name) &&
 			a.Desc == b.Desc &&
 			a.Zone_id == b.Zone_id &&
-			(a.Url == b.Url || a.Url == nil || b.Url == nil) &&
+			(sdr.urlEquals(a, b) || a.Url == nil || b.Url == nil) &&
 			a.Location_type == b.Location_type &&
 			a.Parent_station == b.Parent_station &&
 			a.Timezone.Equals(b.Timezone) &&
@@ -424,7 +429,7 @@ func (sdr StopDuplicateRemover) stopEquals(a *gtfs.Stop, b *gtfs.Stop, feed *gtf
 		a.Name == b.Name &&
 		a.Desc == b.Desc &&
 		a.Zone_id == b.Zone_id &&
-		a.Url == b.Url &&
+		sdr.urlEquals(a, b) &&
 		a.Location_type == b.Location_type &&
 		a.Parent_station == b.Parent_station &&
 		a.Timezone.Equals(b.Timezone) &&
-- 
2.43.0


From 5b076608e8e6a0e62ecca22148fd314e2a25da35 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 14/48] fix: shape minimizer attached additional fields of
 shapes to the wrong points

---
 processors/shapeminimizer.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/processors/shapeminimizer.go b/processors/shapeminimizer.go
index 2e342c0..07a9830 100755
--- a/processors/shapeminimizer.go
+++ b/processors/shapeminimizer.go
@@ -42,9 +42,6 @@ func (sm ShapeMinimizer) Run(feed *gtfsparser.Feed) {
 				bef := len(s.Points)
 				chunknum[a] += len(s.Points)
 				s.Points = sm.minimizeShape(s.Points, sm.Epsilon)
-				for i := 0; i < len(s.Points); i++ {
-					s.Points[i].Sequence = uint32(i)
-				}
 				chunkgain[a] += bef - len(s.Points)
 			}
 			sem <- empty{}
@@ -56,6 +53,25 @@ func (sm ShapeMinimizer) Run(feed *gtfsparser.Feed) {
 		<-sem
 	}
 
+	for _, s := range feed.Shapes {
+		// additional fields are stored by sequence number
+		for fld := range feed.ShapesAddFlds {
+			if vals, ok := feed.ShapesAddFlds[fld][s.Id]; ok {
+				newVals := make(map[int]string, len(s.Points))
+				for i := range s.Points {
+					if v, ok := vals[int(s.Points[i].Sequence)]; ok {
+						newVals[i] = v
+					}
+				}
+				feed.ShapesAddFlds[fld][s.Id] = newVals
+			}
+		}
+
+		for i := range s.Points {
+			s.Points[i].Sequence = uint32(i)
+		}
+	}
+
 	n := 0
 	orign := 0
 	for _, g := range chunkgain {
-- 
2.43.0


From 2cf9b472ee507fbd079c64cea1d0845441e6b01a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 15/48] fix: shape minimizer duplicated the point of shapes
 with a single point

---
 processors/shapeminimizer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/processors/shapeminimizer.go b/processors/shapeminimizer.go
index 07a9830..bebb66e 100755
--- a/processors/shapeminimizer.go
+++ b/processors/shapeminimizer.go
@@ -90,6 +90,10 @@ func (sm *ShapeMinimizer) minimizeShape(points gtfs.ShapePoints, e float64) gtfs
 	var maxD float64
 	var maxI int
 
+	if len(points) < 2 {
+		return points
+	}
+
 	for i := 1; i < len(points)-1; i++ {
 		// reproject to web mercator to be on euclidean plane
 		px, py := latLngToWebMerc(points[i].Lat, points[i].Lon)
-- 
2.43.0


From c9f4e9ee68808c9d55fca61ca7ed584e7a546b91 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 16/48] fix: shape remeasurer let measurements decrease after a
 gap at the beginning

---
 processors/shaperemeasurer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/processors/shaperemeasurer.go b/processors/shaperemeasurer.go
index dd1508f..14c9e5a 100755
--- a/processors/shaperemeasurer.go
+++ b/processors/shaperemeasurer.go
@@ -91,7 +91,19 @@ func (s ShapeRemeasurer) remeasureUnknown(shape *gtfs.Shape, avgMeasure float64)
 	for i := 0; i <= len(shape.Points); i++ {
 		if i == len(shape.Points) || shape.Points[i].HasDistanceTraveled() {
 			if lastUMIndex > -1 {
-				s.remeasureBetween(lastUMIndex, i, avgMeasure, lastM, shape)
+				mPUnit := avgMeasure
+				if lastUMIndex == 0 && i < len(shape.Points) {
+					// the measurement starts at 0 here, it must not
+					// exceed the first known measurement
+					d := 0.0
+					for j := 1; j <= i; j++ {
+						d = d + distP(&shape.Points[j-1], &shape.Points[j])
+					}
+					if d*mPUnit > float64(shape.Points[i].Dist_traveled) {
+						mPUnit = float64(shape.Points[i].Dist_traveled) / d
+					}
+				}
+				s.remeasureBetween(lastUMIndex, i, mPUnit, lastM, shape)
 				lastUMIndex = -1
 			}
 			if i < len(shape.Points) {
-- 
2.43.0


From e60c4dc1da62f826b7e58e48ec772182350ac4ac Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 17/48] fix: shape index missed shapes because of a wrong
 bounding box

---
 processors/shapeidx.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/processors/shapeidx.go b/processors/shapeidx.go
index 19c7843..6a1dbce 100755
--- a/processors/shapeidx.go
+++ b/processors/shapeidx.go
@@ -37,13 +37,15 @@ func NewShapeIdx(shapes []*gtfs.Shape, mercs map[*gtfs.Shape][][]float64, cellWi
 			x, y := p[0], p[1]
 			if x < idx.llx {
 				idx.llx = x
-			} else if x > idx.urx {
+			}
+			if x > idx.urx {
 				idx.urx = x
 			}
 
 			if y < idx.lly {
 				idx.lly = y
-			} else if y > idx.ury {
+			}
+			if y > idx.ury {
 				idx.ury = y
 			}
 		}
@@ -60,8 +62,9 @@ func NewShapeIdx(shapes []*gtfs.Shape, mercs map[*gtfs.Shape][][]float64, cellWi
 		return &idx
 	}
 
-	idx.xWidth = uint(math.Ceil(idx.width / idx.cellWidth))
-	idx.yHeight = uint(math.Ceil(idx.height / idx.cellHeight))
+	// points on the upper bounds need a cell, too
+	idx.xWidth = uint(math.Floor(idx.width/idx.cellWidth)) + 1
+	idx.yHeight = uint(math.Floor(idx.height/idx.cellHeight)) + 1
 
 	// resize rows
 	idx.grid = make([][]map[*gtfs.Shape]bool, idx.xWidth)
-- 
2.43.0


From b1a4c6c2d5645821fffec59477907c75e691d420 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 18/48] fix: shape index placed segments in the wrong cells

---
 processors/shapeidx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/shapeidx.go b/processors/shapeidx.go
index 6a1dbce..6a86ac4 100755
--- a/processors/shapeidx.go
+++ b/processors/shapeidx.go
@@ -84,7 +84,7 @@ func NewShapeIdx(shapes []*gtfs.Shape, mercs map[*gtfs.Shape][][]float64, cellWi
 func (gi *ShapeIdx) Add(origShp *gtfs.Shape, shp [][]float64) {
 	for i := 1; i < len(shp); i++ {
 		ax, ay := shp[i-1][0], shp[i-1][1]
-		bx, by := shp[i][0], shp[0][1]
+		bx, by := shp[i][0], shp[i][1]
 		llx := math.Min(ax, bx)
 		lly := math.Min(ay, by)
 		urx := math.Max(ax, bx)
-- 
2.43.0


From 2a782e25e46e83e73ebe1ab1703302948f48769a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:26:15 +0000
Subject: [PATCH 19/48] fix: id minimizer did not wait for all of its workers

---
 processors/idminimizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/idminimizer.go b/processors/idminimizer.go
index a120d63..72926d6 100755
--- a/processors/idminimizer.go
+++ b/processors/idminimizer.go
@@ -33,7 +33,7 @@ type IDMinimizer struct {
 
 // Run this IDMinimizer on a feed
 func (minimizer IDMinimizer) Run(feed *gtfsparser.Feed) {
-	j := 9
+	j := 10
 	if minimizer.KeepStations {
 		j = j - 1
 	}
-- 
2.43.0


From 40241d43c9f72d0fc3916336f24c18aa76d40a45 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 20/48] fix: id minimizer lost and mixed up additional fields

---
 processors/idminimizer.go | 109 ++++++++++++++++++++------------------
 1 file changed, 56 insertions(+), 53 deletions(-)

diff --git a/processors/idminimizer.go b/processors/idminimizer.go
index 72926d6..92fd87c 100755
--- a/processors/idminimizer.go
+++ b/processors/idminimizer.go
@@ -139,26 +139,22 @@ func (minimizer IDMinimizer) Run(feed *gtfsparser.Feed) {
 func (minimizer IDMinimizer) minimizeTripIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
+	newIds := make(map[string]string)
 	newMap := make(map[string]*gtfs.Trip)
 	for _, t := range feed.Trips {
 		oldId := t.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		t.Id = newId
 		idCount = idCount + 1
+		newIds[oldId] = newId
 		newMap[t.Id] = t
-
-		// update additional fields
-		for k := range feed.TripsAddFlds {
-			feed.TripsAddFlds[k][newId] = feed.TripsAddFlds[k][oldId]
-			delete(feed.TripsAddFlds[k], oldId)
-		}
-
-		for k := range feed.StopTimesAddFlds {
-			feed.StopTimesAddFlds[k][newId] = feed.StopTimesAddFlds[k][oldId]
-			delete(feed.StopTimesAddFlds[k], oldId)
-		}
 	}
 
+	// update additional fields
+	renameAddFlds(feed.TripsAddFlds, newIds)
+	renameAddFlds(feed.StopTimesAddFlds, newIds)
+	renameAddFlds(feed.FrequenciesAddFlds, newIds)
+
 	feed.Trips = newMap
 }
 
@@ -166,21 +162,20 @@ func (minimizer IDMinimizer) minimizeTripIds(feed *gtfsparser.Feed) {
 func (minimizer IDMinimizer) minimizeShapeIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
+	newIds := make(map[string]string)
 	newMap := make(map[string]*gtfs.Shape)
 	for _, s := range feed.Shapes {
 		oldId := s.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		s.Id = newId
 		idCount = idCount + 1
+		newIds[oldId] = newId
 		newMap[s.Id] = s
-
-		// update additional fields
-		for k := range feed.ShapesAddFlds {
-			feed.ShapesAddFlds[k][newId] = feed.ShapesAddFlds[k][oldId]
-			delete(feed.ShapesAddFlds[k], oldId)
-		}
 	}
 
+	// update additional fields
+	renameAddFlds(feed.ShapesAddFlds, newIds)
+
 	feed.Shapes = newMap
 }
 
@@ -188,21 +183,20 @@ func (minimizer IDMinimizer) minimizeShapeIds(feed *gtfsparser.Feed) {
 func (minimizer IDMinimizer) minimizeRouteIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
+	newIds := make(map[string]string)
 	newMap := make(map[string]*gtfs.Route)
 	for _, r := range feed.Routes {
 		oldId := r.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		r.Id = newId
 		idCount = idCount + 1
+		newIds[oldId] = newId
 		newMap[r.Id] = r
-
-		// update additional fields
-		for k := range feed.RoutesAddFlds {
-			feed.RoutesAddFlds[k][newId] = feed.RoutesAddFlds[k][oldId]
-			delete(feed.RoutesAddFlds[k], oldId)
-		}
 	}
 
+	// update additional fields
+	renameAddFlds(feed.RoutesAddFlds, newIds)
+
 	feed.Routes = newMap
 }
 
@@ -224,21 +218,20 @@ func (minimizer IDMinimizer) minimizeServiceIds(feed *gtfsparser.Feed) {
 func (minimizer IDMinimizer) minimizeStopIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
+	newIds := make(map[string]string)
 	newMap := make(map[string]*gtfs.Stop)
 	for _, s := range feed.Stops {
 		oldId := s.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		s.Id = newId
 		idCount = idCount + 1
+		newIds[oldId] = newId
 		newMap[s.Id] = s
-
-		// update additional fields
-		for k := range feed.StopsAddFlds {
-			feed.StopsAddFlds[k][newId] = feed.StopsAddFlds[k][oldId]
-			delete(feed.StopsAddFlds[k], oldId)
-		}
 	}
 
+	// update additional fields
+	renameAddFlds(feed.StopsAddFlds, newIds)
+
 	feed.Stops = newMap
 }
 
@@ -284,21 +277,20 @@ func (minimizer IDMinimizer) minimizeAttributionIds(feed *gtfsparser.Feed) {
 func (minimizer IDMinimizer) minimizeAgencyIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
+	newIds := make(map[string]string)
 	newMap := make(map[string]*gtfs.Agency)
 	for _, a := range feed.Agencies {
 		oldId := a.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		a.Id = newId
 		idCount = idCount + 1
+		newIds[oldId] = newId
 		newMap[a.Id] = a
-
-		// update additional fields
-		for k := range feed.AgenciesAddFlds {
-			feed.AgenciesAddFlds[k][newId] = feed.AgenciesAddFlds[k][oldId]
-			delete(feed.AgenciesAddFlds[k], oldId)
-		}
 	}
 
+	// update additional fields
+	renameAddFlds(feed.AgenciesAddFlds, newIds)
+
 	feed.Agencies = newMap
 }
 
@@ -306,21 +298,21 @@ func (minimizer IDMinimizer) minimizeAgencyIds(feed *gtfsparser.Feed) {
 func (minimizer IDMinimizer) minimizeFareIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
+	newIds := make(map[string]string)
 	newMap := make(map[string]*gtfs.FareAttribute)
 	for _, a := range feed.FareAttributes {
 		oldId := a.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		a.Id = newId
 		idCount = idCount + 1
+		newIds[oldId] = newId
 		newMap[a.Id] = a
-
-		// update additional fields
-		for k := range feed.FareAttributesAddFlds {
-			feed.FareAttributesAddFlds[k][newId] = feed.FareAttributesAddFlds[k][oldId]
-			delete(feed.FareAttributesAddFlds[k], oldId)
-		}
 	}
 
+	// update additional fields
+	renameAddFlds(feed.FareAttributesAddFlds, newIds)
+	renameAddFlds(feed.FareRulesAddFlds, newIds)
+
 	feed.FareAttributes = newMap
 }
 
@@ -328,21 +320,20 @@ func (minimizer IDMinimizer) minimizeFareIds(feed *gtfsparser.Feed) {
 func (minimizer IDMinimizer) minimizePathwayIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
+	newIds := make(map[string]string)
 	newMap := make(map[string]*gtfs.Pathway)
 	for _, a := range feed.Pathways {
 		oldId := a.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		a.Id = newId
 		idCount = idCount + 1
+		newIds[oldId] = newId
 		newMap[a.Id] = a
-
-		// update additional fields
-		for k := range feed.PathwaysAddFlds {
-			feed.PathwaysAddFlds[k][newId] = feed.PathwaysAddFlds[k][oldId]
-			delete(feed.PathwaysAddFlds[k], oldId)
-		}
 	}
 
+	// update additional fields
+	renameAddFlds(feed.PathwaysAddFlds, newIds)
+
 	feed.Pathways = newMap
 }
 
@@ -350,20 +341,32 @@ func (minimizer IDMinimizer) minimizePathwayIds(feed *gtfsparser.Feed) {
 func (minimizer IDMinimizer) minimizeLevelIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
+	newIds := make(map[string]string)
 	newMap := make(map[string]*gtfs.Level)
 	for _, a := range feed.Levels {
 		oldId := a.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		a.Id = newId
 		idCount = idCount + 1
+		newIds[oldId] = newId
 		newMap[a.Id] = a
-
-		// update additional fields
-		for k := range feed.LevelsAddFlds {
-			feed.LevelsAddFlds[k][newId] = feed.LevelsAddFlds[k][oldId]
-			delete(feed.LevelsAddFlds[k], oldId)
-		}
 	}
 
+	// update additional fields
+	renameAddFlds(feed.LevelsAddFlds, newIds)
+
 	feed.Levels = newMap
 }
+
+// Re-key additional fields, old and new IDs may overlap
+func renameAddFlds[V any](addFlds map[string]map[string]V, newIds map[string]string) {
+	for k := range addFlds {
+		newFlds := make(map[string]V, len(addFlds[k]))
+		for oldId, v := range addFlds[k] {
+			if newId, ok := newIds[oldId]; ok {
+				newFlds[newId] = v
+			}
+		}
+		addFlds[k] = newFlds
+	}
+}
-- 
2.43.0


From 96246b7f4321d87f3c78ed868cec40be1885ccfa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 21/48] fix: restoring ids could strip prefixes twice

---
 gtfstidy.go | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index ec0cce0..320d914 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -18,6 +18,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -99,6 +100,16 @@ func parseCoords(s string) ([][2]float64, error) {
 	return ret, nil
 }
 
+// The ids of m as they are now, in a fixed order
+func sortedIds[V any](m map[string]V) []string {
+	ids := make([]string, 0, len(m))
+	for id := range m {
+		ids = append(ids, id)
+	}
+	sort.Strings(ids)
+	return ids
+}
+
 func main() {
 	flag.Usage = func() {
 		fmt.Fprintf(os.Stderr, "gtfstidy - (C) 2016-2023 by Patrick Brosi <info@patrickbrosi.de>\n\nUsage:\n\n  %s [<options>] [-o <outputfile>] <input GTFS>\n\nAllowed options:\n\n", os.Args[0])
@@ -678,7 +689,8 @@ func main() {
 
 		// restore stop IDs, if requested
 		if *keepStationIds && len(prefixes) > 0 {
-			for id, s := range feed.Stops {
+			for _, id := range sortedIds(feed.Stops) {
+				s := feed.Stops[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -732,7 +744,8 @@ func main() {
 
 		// restore agency IDs, if requested
 		if *keepAgencyIds && len(prefixes) > 0 {
-			for id, s := range feed.Agencies {
+			for _, id := range sortedIds(feed.Agencies) {
+				s := feed.Agencies[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -756,7 +769,8 @@ func main() {
 
 		// restore fare attribute IDs, if requested
 		if *keepFareIds && len(prefixes) > 0 {
-			for id, s := range feed.FareAttributes {
+			for _, id := range sortedIds(feed.FareAttributes) {
+				s := feed.FareAttributes[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -785,7 +799,8 @@ func main() {
 
 		// restore service IDs, if requested
 		if *keepServiceIds && len(prefixes) > 0 {
-			for id, s := range feed.Services {
+			for _, id := range sortedIds(feed.Services) {
+				s := feed.Services[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -803,7 +818,8 @@ func main() {
 
 		// restore route IDs, if requested
 		if *keepRouteIds && len(prefixes) > 0 {
-			for id, s := range feed.Routes {
+			for _, id := range sortedIds(feed.Routes) {
+				s := feed.Routes[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -827,7 +843,8 @@ func main() {
 
 		// restore shape IDs, if requested
 		if *keepShapeIds && len(prefixes) > 0 {
-			for id, s := range feed.Shapes {
+			for _, id := range sortedIds(feed.Shapes) {
+				s := feed.Shapes[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -851,7 +868,8 @@ func main() {
 
 		// restore trip IDs, if requested
 		if *keepTripIds && len(prefixes) > 0 {
-			for id, s := range feed.Trips {
+			for _, id := range sortedIds(feed.Trips) {
+				s := feed.Trips[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -885,7 +903,8 @@ func main() {
 
 		// restore level IDs, if requested
 		if *keepLevelIds && len(prefixes) > 0 {
-			for id, s := range feed.Levels {
+			for _, id := range sortedIds(feed.Levels) {
+				s := feed.Levels[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -909,7 +928,8 @@ func main() {
 
 		// restore pathway IDs, if requested
 		if *keepPathwayIds && len(prefixes) > 0 {
-			for id, s := range feed.Pathways {
+			for _, id := range sortedIds(feed.Pathways) {
+				s := feed.Pathways[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
-- 
2.43.0


From 12d4e839a7971d7b6bc578cac31d9f22214db968 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 22/48] fix: --keep-pathway-ids duplicated pathways and dropped
 fares with the same id

---
 gtfstidy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index 320d914..e63c2eb 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -943,7 +943,7 @@ func main() {
 								delete(feed.PathwaysAddFlds[k], id)
 							}
 
-							feed.DeletePathway(id)
+							delete(feed.Pathways, id)
 						}
 						break
 					}
-- 
2.43.0


From 0e434c6d1807429142ef7a5b922b3d11711fcd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 23/48] fix: --non-overlapping-services lost all additional
 fields of trips

---
 processors/servicenonoverlapper.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/processors/servicenonoverlapper.go b/processors/servicenonoverlapper.go
index c97b3d4..dab249f 100755
--- a/processors/servicenonoverlapper.go
+++ b/processors/servicenonoverlapper.go
@@ -91,8 +91,9 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 
 	feed.Services = make(map[string]*gtfs.Service, 0)
 	feed.Trips = make(map[string]*gtfs.Trip, 0)
-	feed.TripsAddFlds = make(map[string]map[string]string)
-	feed.StopTimesAddFlds = make(map[string]map[string]map[int]string)
+
+	// new trip ids, by the id of the trip they were created from
+	newIds := make(map[string][]string)
 
 	split := make(map[*gtfs.Trip]bool)
 
@@ -169,12 +170,34 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 				}
 				split[trip] = true
 				feed.Trips[newt.Id] = &newt
+				newIds[trip.Id] = append(newIds[trip.Id], newt.Id)
 			}
 		}
 	}
 
+	for k := range feed.TripsAddFlds {
+		feed.TripsAddFlds[k] = expandAddFlds(feed.TripsAddFlds[k], newIds)
+	}
+	for k := range feed.StopTimesAddFlds {
+		feed.StopTimesAddFlds[k] = expandAddFlds(feed.StopTimesAddFlds[k], newIds)
+	}
+	for k := range feed.FrequenciesAddFlds {
+		feed.FrequenciesAddFlds[k] = expandAddFlds(feed.FrequenciesAddFlds[k], newIds)
+	}
+
 	// the old trips are gone
 	feed.CleanTransfers()
 
 	fmt.Fprintf(os.Stdout, "done. (created %d calendar_dates.txt entries, %d monday, %d tuesday, %d wednesday, %d thursday, %d friday, %d saturday, %d sunday types)\n", len(feed.Services), len(day_types[1]), len(day_types[2]), len(day_types[3]), len(day_types[4]), len(day_types[5]), len(day_types[6]), len(day_types[0]))
 }
+
+// hand the additional fields of each id down to the ids created from it
+func expandAddFlds[V any](flds map[string]V, newIds map[string][]string) map[string]V {
+	ret := make(map[string]V, len(flds))
+	for id, val := range flds {
+		for _, newId := range newIds[id] {
+			ret[newId] = val
+		}
+	}
+	return ret
+}
-- 
2.43.0


From 8a753eb743fcf42f3d0ff7466c307b493dff06e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 24/48] fix: frequency minimizer created overlapping
 frequencies for a trip

---
 processors/frequencyminizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index a560bce..7c9f71b 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -265,7 +265,7 @@ func (m FrequencyMinimizer) packCovers(c progressionCover, t tripWrappers) []pro
 		for i, existingCover := range ret {
 			overlap := false
 			for _, existingProg := range existingCover.progressions {
-				if !(t.trips[existingProg.matches[0]].t.SecondsSinceMidnight() > t.trips[c.matches[len(c.matches)-1]].t.SecondsSinceMidnight() || t.trips[existingProg.matches[len(existingProg.matches)-1]].t.SecondsSinceMidnight() < t.trips[c.matches[0]].t.SecondsSinceMidnight()) {
+				if !(t.trips[existingProg.matches[0]].t.SecondsSinceMidnight() >= t.trips[c.matches[len(c.matches)-1]].t.SecondsSinceMidnight()+c.headways || t.trips[existingProg.matches[len(existingProg.matches)-1]].t.SecondsSinceMidnight()+existingProg.headways <= t.trips[c.matches[0]].t.SecondsSinceMidnight()) {
 					overlap = true
 					break
 				}
-- 
2.43.0


From 30afbc197006ecdcc657e103e1271bb2ef0a7204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:30 +0000
Subject: [PATCH 25/48] fix: invalid option values and internal errors exited
 with status 0

---
 gtfstidy.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index e63c2eb..a1978f6 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -223,6 +223,7 @@ func main() {
 	defer func() {
 		if r := recover(); r != nil {
 			fmt.Fprintln(os.Stderr, "Error:", r)
+			os.Exit(1)
 		}
 	}()
 
-- 
2.43.0


From 24e9f754047a52b4888beb8f61dcbff59f8b8237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:01 +0000
Subject: [PATCH 26/48] fix: --drop-too-fast-trips took missing times for times

---
 processors/toofasttripremover.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/processors/toofasttripremover.go b/processors/toofasttripremover.go
index 13c0c78..989f231 100644
--- a/processors/toofasttripremover.go
+++ b/processors/toofasttripremover.go
@@ -34,6 +34,18 @@ func (f TooFastTripRemover) Run(feed *gtfsparser.Feed) {
 		for i := 1; i < len(t.StopTimes); i++ {
 			dist += distSApprox(t.StopTimes[i-1].Stop(), t.StopTimes[i].Stop())
 
+			if last.Departure_time().Empty() {
+				// no time here, start at the first stop with a time
+				last = t.StopTimes[i]
+				dist = 0
+				continue
+			}
+
+			if t.StopTimes[i].Arrival_time().Empty() {
+				// no time here, only count the distance
+				continue
+			}
+
 			inter := t.StopTimes[i].Arrival_time().SecondsSinceMidnight() - last.Departure_time().SecondsSinceMidnight()
 
 			speed := 0.0
@@ -104,6 +116,10 @@ func (f TooFastTripRemover) Run(feed *gtfsparser.Feed) {
 			for i := j + 1; i < len(t.StopTimes); i++ {
 				dist += distSApprox(t.StopTimes[i-1].Stop(), t.StopTimes[i].Stop())
 
+				if t.StopTimes[j].Departure_time().Empty() || t.StopTimes[i].Arrival_time().Empty() {
+					continue
+				}
+
 				inter := t.StopTimes[i].Arrival_time().SecondsSinceMidnight() - t.StopTimes[j].Departure_time().SecondsSinceMidnight()
 
 				speed := 0.0
-- 
2.43.0


From 52e1917a6c7c92c5eaca5cca57dc3830612f3c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:01 +0000
Subject: [PATCH 27/48] fix: dropping trips by date or number of stops left
 transfers between dropped trips

---
 gtfstidy.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index a1978f6..a042253 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -542,6 +542,11 @@ func main() {
 		fmt.Fprintln(os.Stdout, "\nYou may want to try running gtfstidy with --fix for error fixing / skipping. See --help for details.")
 		os.Exit(1)
 	} else {
+		if len(*startDateFilter) > 0 || len(*endDateFilter) > 0 || *dropSingleStopTrips {
+			// the parser may have dropped trips used by transfers
+			feed.CleanTransfers()
+		}
+
 		minzers := make([]processors.Processor, 0)
 
 		if *dropTooFast {
-- 
2.43.0


From 193537c8afecead8404a54d0b8dc020dfca4fbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:03 +0000
Subject: [PATCH 28/48] fix: --complete-filtered-trips dropped the station of a
 platform with boarding areas in use

---
 processors/completegeotripsfilter.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/processors/completegeotripsfilter.go b/processors/completegeotripsfilter.go
index 2409b0d..9495f04 100755
--- a/processors/completegeotripsfilter.go
+++ b/processors/completegeotripsfilter.go
@@ -26,9 +26,8 @@ func (f CompleteTripsGeoFilter) Run(feed *gtfsparser.Feed) {
 		for _, poly := range f.Polygons {
 			if poly.PolyContains(float64(s.Lon), float64(s.Lat)) {
 				filterstops[s] = true
-				usedstops[s] = true
-				if s.Parent_station != nil {
-					usedstops[s.Parent_station] = true
+				for p := s; p != nil; p = p.Parent_station {
+					usedstops[p] = true
 				}
 				break
 			}
@@ -48,9 +47,8 @@ func (f CompleteTripsGeoFilter) Run(feed *gtfsparser.Feed) {
 			feed.DeleteTrip(id)
 		} else {
 			for _, st := range t.StopTimes {
-				usedstops[st.Stop()] = true
-				if st.Stop().Parent_station != nil {
-					usedstops[st.Stop().Parent_station] = true
+				for p := st.Stop(); p != nil; p = p.Parent_station {
+					usedstops[p] = true
 				}
 			}
 		}
-- 
2.43.0


From 829a2658e95d0dcf54b35860d88c6efff381f58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:04 +0000
Subject: [PATCH 29/48] fix: --complete-filtered-trips deleted fares instead of
 pathways

---
 processors/completegeotripsfilter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/processors/completegeotripsfilter.go b/processors/completegeotripsfilter.go
index 9495f04..9c1181d 100755
--- a/processors/completegeotripsfilter.go
+++ b/processors/completegeotripsfilter.go
@@ -74,7 +74,12 @@ func (f CompleteTripsGeoFilter) Run(feed *gtfsparser.Feed) {
 
 	for _, s := range toDel {
 		for _, p := range pathways[s] {
-			feed.DeletePathway(p.Id)
+			delete(feed.Pathways, p.Id)
+
+			// delete additional fields from CSV
+			for k := range feed.PathwaysAddFlds {
+				delete(feed.PathwaysAddFlds[k], p.Id)
+			}
 		}
 
 		feed.DeleteStop(s.Id)
-- 
2.43.0


From ea66479842152f0a6963bc45e5188e9e3619707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:04 +0000
Subject: [PATCH 30/48] fix: --complete-filtered-trips without an area deleted
 all trips

---
 gtfstidy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index a042253..34d8695 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -553,7 +553,7 @@ func main() {
 			minzers = append(minzers, processors.TooFastTripRemover{})
 		}
 
-		if *polygonFilterCompleteTrips {
+		if *polygonFilterCompleteTrips && len(polys) > 0 {
 			minzers = append(minzers, processors.CompleteTripsGeoFilter{Polygons: polys})
 		}
 
-- 
2.43.0


From 673cb78ea486b720ab0c3d72d323abff2de5ff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:39 +0000
Subject: [PATCH 31/48] fix: --fix-far-away-parents depended on the order in
 which parents were moved

---
 processors/parentaverager.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/processors/parentaverager.go b/processors/parentaverager.go
index a00ee93..0216570 100644
--- a/processors/parentaverager.go
+++ b/processors/parentaverager.go
@@ -27,6 +27,10 @@ func (sdr StopParentAverager) Run(feed *gtfsparser.Feed) {
 
 	parentChilds := make(map[*gtfs.Stop][]*gtfs.Stop)
 
+	// new positions, only applied after all have been found, as a parent may
+	// itself be the child of another one
+	newPos := make(map[*gtfs.Stop][2]float32)
+
 	fixed := 0
 	remain := 0
 
@@ -62,8 +66,7 @@ func (sdr StopParentAverager) Run(feed *gtfsparser.Feed) {
 			}
 
 			if allOkay {
-				p.Lat = float32(avgLat)
-				p.Lon = float32(avgLon)
+				newPos[p] = [2]float32{float32(avgLat), float32(avgLon)}
 				fixed +=1;
 			} else {
 				remain +=1;
@@ -71,5 +74,10 @@ func (sdr StopParentAverager) Run(feed *gtfsparser.Feed) {
 		}
 	}
 
+	for p, pos := range newPos {
+		p.Lat = pos[0]
+		p.Lon = pos[1]
+	}
+
 	fmt.Fprintf(os.Stdout, "done. (%d stations fixed, %d stations remain)\n", fixed, remain)
 }
-- 
2.43.0


From db46fd9471e4dabbebec51b4a29028d2331c97b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:36 +0000
Subject: [PATCH 32/48] fix: --group-adj-stop-times mixed up pickup and drop
 off types, distances and missing times

---
 processors/adjstoptimegrouper.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/processors/adjstoptimegrouper.go b/processors/adjstoptimegrouper.go
index 340b7c1..7ea9f08 100644
--- a/processors/adjstoptimegrouper.go
+++ b/processors/adjstoptimegrouper.go
@@ -31,12 +31,11 @@ func (m AdjacentStopTimeGrouper) Run(feed *gtfsparser.Feed) {
 
 		for i := 1; i < len(t.StopTimes);i++ {
 			total++
-			if t.StopTimes[i-1].Stop() == t.StopTimes[i].Stop() && t.StopTimes[i-1].Arrival_time().Equals(t.StopTimes[i-1].Departure_time()) && t.StopTimes[i].Arrival_time().Equals(t.StopTimes[i].Departure_time()) && ((!t.StopTimes[i-1].HasDistanceTraveled() && !t.StopTimes[i].HasDistanceTraveled()) || (t.StopTimes[i-1].HasDistanceTraveled() && t.StopTimes[i].HasDistanceTraveled() && t.StopTimes[i-1].HasDistanceTraveled() == t.StopTimes[i].HasDistanceTraveled())) && t.StopTimes[i-1].Headsign() == t.StopTimes[i].Headsign() && t.StopTimes[i-1].Continuous_pickup() == t.StopTimes[i].Continuous_pickup() {
+			if t.StopTimes[i-1].Stop() == t.StopTimes[i].Stop() && t.StopTimes[i-1].Arrival_time().Equals(t.StopTimes[i-1].Departure_time()) && t.StopTimes[i].Arrival_time().Equals(t.StopTimes[i].Departure_time()) && ((!t.StopTimes[i-1].HasDistanceTraveled() && !t.StopTimes[i].HasDistanceTraveled()) || (t.StopTimes[i-1].HasDistanceTraveled() && t.StopTimes[i].HasDistanceTraveled() && t.StopTimes[i-1].Shape_dist_traveled() == t.StopTimes[i].Shape_dist_traveled())) && t.StopTimes[i-1].Headsign() == t.StopTimes[i].Headsign() && t.StopTimes[i-1].Continuous_pickup() == t.StopTimes[i].Continuous_pickup() && t.StopTimes[i-1].Continuous_drop_off() == t.StopTimes[i].Continuous_drop_off() && t.StopTimes[i-1].Arrival_time().Empty() == t.StopTimes[i].Arrival_time().Empty() {
 
 				// update previous stop
 				newSt[len(newSt) - 1].SetDeparture_time(t.StopTimes[i].Departure_time())
-				newSt[len(newSt) - 1].SetDrop_off_type(t.StopTimes[i-1].Drop_off_type())
-				newSt[len(newSt) - 1].SetPickup_type(t.StopTimes[i].Pickup_type())
+				newSt[len(newSt) - 1] = withPickupType(newSt[len(newSt) - 1], t.StopTimes[i].Pickup_type())
 				grouped++
 			} else {
 				newSt = append(newSt, t.StopTimes[i])
@@ -50,3 +49,21 @@ func (m AdjacentStopTimeGrouper) Run(feed *gtfsparser.Feed) {
 	grouped,
 	100.0*float64(grouped)/(float64(total)))
 }
+
+// Returns st with another pickup type. The pickup type of a stop time cannot be
+// changed anymore once it is set, so this has to start with a new one.
+func withPickupType(st gtfs.StopTime, pickupType uint8) gtfs.StopTime {
+	ret := gtfs.StopTime{}
+	ret.SetArrival_time(st.Arrival_time())
+	ret.SetDeparture_time(st.Departure_time())
+	ret.SetStop(st.Stop())
+	ret.SetHeadsign(st.Headsign())
+	ret.SetSequence(st.Sequence())
+	ret.SetTimepoint(st.Timepoint())
+	ret.SetShape_dist_traveled(st.Shape_dist_traveled())
+	ret.SetPickup_type(pickupType)
+	ret.SetDrop_off_type(st.Drop_off_type())
+	ret.SetContinuous_pickup(st.Continuous_pickup())
+	ret.SetContinuous_drop_off(st.Continuous_drop_off())
+	return ret
+}
-- 
2.43.0


From 91d30885380832dc17757b5e225df8d0da658e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:38 +0000
Subject: [PATCH 33/48] fix: services emptied by a date filter made the program
 hang

---
 gtfstidy.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index 34d8695..99ab1bc 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -547,6 +547,15 @@ func main() {
 			feed.CleanTransfers()
 		}
 
+		if len(*startDateFilter) > 0 || len(*endDateFilter) > 0 {
+			// the parser keeps unused services without any date left
+			for id, s := range feed.Services {
+				if s.GetFirstActiveDate().IsEmpty() {
+					delete(feed.Services, id)
+				}
+			}
+		}
+
 		minzers := make([]processors.Processor, 0)
 
 		if *dropTooFast {
-- 
2.43.0


From fdb151406195e109d4044e8794ea837e3b699d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:06 +0000
Subject: [PATCH 34/48] fix: bounding boxes which do not have two corners were
 silently ignored

---
 gtfstidy.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index 99ab1bc..47cb0f6 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -420,6 +420,10 @@ func main() {
 			}
 
 			polys = append(polys, gtfsparser.NewPolygon(poly, make([][][2]float64, 0)))
+		} else if len(bboxString) > 0 {
+			fmt.Fprintf(os.Stderr, "\nCould not parse bounding box filter: ")
+			fmt.Fprintf(os.Stderr, "Expected exactly two coordinates.\n")
+			os.Exit(1)
 		}
 	}
 
-- 
2.43.0


From ddf5e40bd658cfb63004b37c21dcee6299adf037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 35/48] fix: -E deleted stations without stops

---
 processors/stopreclusterer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/processors/stopreclusterer.go b/processors/stopreclusterer.go
index 3e4fcef..9fb2e21 100755
--- a/processors/stopreclusterer.go
+++ b/processors/stopreclusterer.go
@@ -234,7 +234,9 @@ func (m *StopReclusterer) writeCluster(cl *StopCluster, feed *gtfsparser.Feed) {
 			for _, c := range cl.Childs {
 				cursimi += m.stopSimi(p, c)
 			}
-			cursimi = cursimi / float32(len(cl.Childs))
+			if len(cl.Childs) > 0 {
+				cursimi = cursimi / float32(len(cl.Childs))
+			}
 			if cursimi >= bestsimi {
 				parent = p
 				bestsimi = cursimi
-- 
2.43.0


From c88c1e48bf9dbdf6123ac01c535b07606d435724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:12 +0000
Subject: [PATCH 36/48] fix: -E left transfers to deleted stations and lost
 their additional fields

---
 processors/stopreclusterer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/processors/stopreclusterer.go b/processors/stopreclusterer.go
index 9fb2e21..5ab55f5 100755
--- a/processors/stopreclusterer.go
+++ b/processors/stopreclusterer.go
@@ -256,6 +256,10 @@ func (m *StopReclusterer) writeCluster(cl *StopCluster, feed *gtfsparser.Feed) {
 		}
 
 		for tk, tv := range feed.Transfers {
+			if tk.From_stop != st && tk.To_stop != st {
+				continue
+			}
+
 			tk_new := tk
 			if tk.From_stop == st {
 				tk_new.From_stop = parent
@@ -266,8 +270,15 @@ func (m *StopReclusterer) writeCluster(cl *StopCluster, feed *gtfsparser.Feed) {
 
 			if _, ok := feed.Transfers[tk_new]; !ok {
 				feed.Transfers[tk_new] = tv
-				delete(feed.Transfers, tk)
+
+				for fld := range feed.TransfersAddFlds {
+					if v, ok := feed.TransfersAddFlds[fld][tk]; ok {
+						feed.TransfersAddFlds[fld][tk_new] = v
+					}
+				}
 			}
+
+			feed.DeleteTransfer(tk)
 		}
 
 		for _, p := range feed.Pathways {
-- 
2.43.0


From 7bf8be687bdc210150167580590abeee9f4d778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 37/48] fix: -E merged stops at any distance if all names share
 a word

---
 processors/stopreclusterer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/processors/stopreclusterer.go b/processors/stopreclusterer.go
index 5ab55f5..5f94e6c 100755
--- a/processors/stopreclusterer.go
+++ b/processors/stopreclusterer.go
@@ -483,6 +483,11 @@ func (m *StopReclusterer) stopSimi(a *gtfs.Stop, b *gtfs.Stop) float32 {
 
 	namesimi := cosSimi(vecA, vecB)
 
+	if math.IsNaN(namesimi) {
+		// the words of one of the names appear in all names, they say nothing
+		return float32(geosimi)
+	}
+
 	if namesimi > m.NameSimiThreshold { // this is the threshold value
 		namesimi = 0.5 + (namesimi-m.NameSimiThreshold)/(2*(1-m.NameSimiThreshold))
 	} else {
-- 
2.43.0


From 58611f1f931fc04a8670d709b5d8051fe9f8b6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:35 +0000
Subject: [PATCH 38/48] fix: -E merged stops with clusters which were merged
 before, and crashed without stops

---
 processors/stopreclusterer.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/processors/stopreclusterer.go b/processors/stopreclusterer.go
index 5f94e6c..adbf998 100755
--- a/processors/stopreclusterer.go
+++ b/processors/stopreclusterer.go
@@ -163,7 +163,9 @@ func (m StopReclusterer) Run(feed *gtfsparser.Feed) {
 
 	// take the top merge candidate from the PQ and merge it until the top candidate
 	// has priority < 0.5
-	for top := heap.Pop(&pq).(*Item); len(pq.Items) > 0; top = heap.Pop(&pq).(*Item) {
+	for len(pq.Items) > 1 {
+		top := heap.Pop(&pq).(*Item)
+
 		// we can break, there will only be merge candidates below the threshold from now on
 		if top.priority < 0.5 {
 			break
@@ -178,9 +180,12 @@ func (m StopReclusterer) Run(feed *gtfsparser.Feed) {
 
 			if len(neighs[top.value]) != 0 {
 				top.priority = neighs[top.value][len(neighs[top.value])-1].simi
-				heap.Push(&pq, top)
-				continue
+			} else {
+				top.priority = 0
 			}
+
+			heap.Push(&pq, top)
+			continue
 		}
 
 		// merge clusters
-- 
2.43.0


From 6e91c0e00d13caaa1240c84cbc397a2788fa6d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:37 +0000
Subject: [PATCH 39/48] fix: -E merged stops which are not similar because
 similarities were not updated

---
 processors/stopreclusterer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/stopreclusterer.go b/processors/stopreclusterer.go
index adbf998..8557025 100755
--- a/processors/stopreclusterer.go
+++ b/processors/stopreclusterer.go
@@ -387,7 +387,7 @@ func (m *StopReclusterer) updateNeighIn(cId int, nId int, clusters []*StopCluste
 			// we only have to update the PQ if the highest simi neighbor has changed
 			// this is the case if the new simi is bigger, or if we have changed the last element and it is now
 			// smaller
-			if neigh.simi > oldbestsimi || (i == len(neighs[cId])-1 && neigh.simi < oldbestsimi) {
+			if neighs[cId][len(neighs[cId])-1].simi != oldbestsimi {
 				pq.Items[pq.Pqids[cId]].priority = neighs[cId][len(neighs[cId])-1].simi
 				heap.Fix(pq, pq.Pqids[cId])
 			}
-- 
2.43.0


From 6d71d831560d52c1643609f03513acef7b89d237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:44 +0000
Subject: [PATCH 40/48] fix: -E never found neighbors at the western and
 southern border of the feed

---
 processors/stopclusteridx.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/processors/stopclusteridx.go b/processors/stopclusteridx.go
index 8653ac2..97a0ed8 100755
--- a/processors/stopclusteridx.go
+++ b/processors/stopclusteridx.go
@@ -34,13 +34,15 @@ func NewStopClusterIdx(clusters []*StopCluster, cellWidth, cellHeight float64) *
 			x, y := latLngToWebMerc(s.Lat, s.Lon)
 			if x < idx.llx {
 				idx.llx = x
-			} else if x > idx.urx {
+			}
+			if x > idx.urx {
 				idx.urx = x
 			}
 
 			if y < idx.lly {
 				idx.lly = y
-			} else if y > idx.ury {
+			}
+			if y > idx.ury {
 				idx.ury = y
 			}
 		}
@@ -49,13 +51,15 @@ func NewStopClusterIdx(clusters []*StopCluster, cellWidth, cellHeight float64) *
 			x, y := latLngToWebMerc(s.Lat, s.Lon)
 			if x < idx.llx {
 				idx.llx = x
-			} else if x > idx.urx {
+			}
+			if x > idx.urx {
 				idx.urx = x
 			}
 
 			if y < idx.lly {
 				idx.lly = y
-			} else if y > idx.ury {
+			}
+			if y > idx.ury {
 				idx.ury = y
 			}
 		}
@@ -72,8 +76,8 @@ func NewStopClusterIdx(clusters []*StopCluster, cellWidth, cellHeight float64) *
 		return &idx
 	}
 
-	idx.xWidth = uint(math.Ceil(idx.width / idx.cellWidth))
-	idx.yHeight = uint(math.Ceil(idx.height / idx.cellHeight))
+	idx.xWidth = uint(math.Floor(idx.width/idx.cellWidth)) + 1
+	idx.yHeight = uint(math.Floor(idx.height/idx.cellHeight)) + 1
 
 	// resize rows
 	idx.grid = make([][]map[int]bool, idx.xWidth)
@@ -149,8 +153,8 @@ func (gi *StopClusterIdx) GetNeighborsByLatLon(lat float64, lon float64, d float
 
 	lx, ly := latLngToWebMerc(float32(lat), float32(lon))
 
-	swX := max(0, gi.getCellXFromX(lx)-xPerm)
-	swY := max(0, gi.getCellYFromY(ly)-yPerm)
+	swX := gi.getCellXFromX(lx)
+	swY := gi.getCellYFromY(ly)
 
 	neX := min(gi.xWidth-1, gi.getCellXFromX(lx)+xPerm)
 	neY := min(gi.yHeight-1, gi.getCellYFromY(ly)+yPerm)
-- 
2.43.0


From 58f9ec37fe7980067a71ab7505daa135e0179be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 41/48] fix: consider the first segment when snapping measured
 stops, skip segments without length

---
 processors/shapesnapper.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/processors/shapesnapper.go b/processors/shapesnapper.go
index 33b7f26..8fff3f7 100644
--- a/processors/shapesnapper.go
+++ b/processors/shapesnapper.go
@@ -89,8 +89,8 @@ func (sm *ShapeSnapper) snapTo(stop *gtfs.Stop, distT float32, shape *gtfs.Shape
 	shp := sm.mercs[shape]
 
 	if float64(distT) != math.NaN() {
-		for i := 1; i < len(shape.Points); i++ {
-			if shape.Points[i].Dist_traveled <= distT && i < len(shape.Points) - 1 && shape.Points[i+1].Dist_traveled >= distT {
+		for i := 0; i < len(shape.Points)-1; i++ {
+			if shape.Points[i].Dist_traveled <= distT && shape.Points[i+1].Dist_traveled >= distT && shape.Points[i].Dist_traveled < shape.Points[i+1].Dist_traveled {
 				d := (distT - shape.Points[i].Dist_traveled) / (shape.Points[i + 1].Dist_traveled - shape.Points[i].Dist_traveled)
 
 				dx := shp[i+1][0] - shp[i][0]
-- 
2.43.0


From 075b070474323bf9b6aa602f10a0d16bb46abc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 42/48] fix: do not snap stops to position 0,0 if the shape has
 only one point

---
 processors/shapesnapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/shapesnapper.go b/processors/shapesnapper.go
index 8fff3f7..db02245 100644
--- a/processors/shapesnapper.go
+++ b/processors/shapesnapper.go
@@ -45,7 +45,7 @@ func (sm ShapeSnapper) Run(feed *gtfsparser.Feed) {
 	}
 
 	for _, t := range feed.Trips {
-		if t.Shape == nil {
+		if t.Shape == nil || len(t.Shape.Points) < 2 {
 			continue
 		}
 
-- 
2.43.0


From ce5c3b4ac2373933d488d25bd71792f1139ef942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 43/48] fix: keep additional fields of snapped stops

---
 processors/shapesnapper.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/processors/shapesnapper.go b/processors/shapesnapper.go
index db02245..1c73083 100644
--- a/processors/shapesnapper.go
+++ b/processors/shapesnapper.go
@@ -74,6 +74,12 @@ func (sm ShapeSnapper) Run(feed *gtfsparser.Feed) {
 					Timezone:            st.Stop().Timezone,
 				}
 
+				for field := range feed.StopsAddFlds {
+					if v, ok := feed.StopsAddFlds[field][st.Stop().Id]; ok {
+						feed.StopsAddFlds[field][newId] = v
+					}
+				}
+
 				feed.Stops[newId] = &newStop
 				t.StopTimes[i].SetStop(&newStop)
 			}
-- 
2.43.0


From f540fb473853e5367fbb89cdece0638bd2abfde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 44/48] fix: do not combine trips with trips deleted before
 when searching for frequencies

---
 processors/frequencyminizer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index 7c9f71b..8c15aab 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -399,6 +399,11 @@ func (m FrequencyMinimizer) getTimeIndependentEquivalentTrips(trip *gtfs.Trip, t
 			for i := workload * j; i < workload*(j+1) && i < len(trips); i++ {
 				t := trips[i]
 
+				// the trip was deleted before, together with its additional fields
+				if feed.Trips[t.Id] != t {
+					continue
+				}
+
 				if t.Id == trip.Id || m.isTimeIndependentEqual(t, trip, feed) {
 					if t.Frequencies == nil || len(*t.Frequencies) == 0 {
 						mutex.Lock()
-- 
2.43.0


From b471cbd9027b13255cf6ac497c9f20753a4a4ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 45/48] fix: compare headsigns, short names and block ids of
 trips by value when searching for frequencies

---
 processors/frequencyminizer.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index 8c15aab..67e6d54 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -438,6 +438,11 @@ func (m FrequencyMinimizer) getGtfsTimeFromSec(s int) gtfs.Time {
 	return gtfs.Time{Hour: int8(s / 3600), Minute: int8((s - (s/3600)*3600) / 60), Second: int8(s - ((s / 60) * 60))}
 }
 
+// Check if two optional strings are equal
+func (m FrequencyMinimizer) strEquals(a *string, b *string) bool {
+	return a == b || (a != nil && b != nil && *a == *b)
+}
+
 // Check if two trips are equal without considering absolute stop times
 func (m FrequencyMinimizer) isTimeIndependentEqual(a *gtfs.Trip, b *gtfs.Trip, feed *gtfsparser.Feed) bool {
 	addFldsEq := true
@@ -448,8 +453,8 @@ func (m FrequencyMinimizer) isTimeIndependentEqual(a *gtfs.Trip, b *gtfs.Trip, f
 			break
 		}
 	}
-	return addFldsEq && a.Route == b.Route && a.Service == b.Service && a.Headsign == b.Headsign &&
-		a.Short_name == b.Short_name && a.Direction_id == b.Direction_id && a.Block_id == b.Block_id &&
+	return addFldsEq && a.Route == b.Route && a.Service == b.Service && m.strEquals(a.Headsign, b.Headsign) &&
+		m.strEquals(a.Short_name, b.Short_name) && a.Direction_id == b.Direction_id && m.strEquals(a.Block_id, b.Block_id) &&
 		a.Shape == b.Shape && a.Wheelchair_accessible == b.Wheelchair_accessible &&
 		a.Bikes_allowed == b.Bikes_allowed && m.hasSameRelStopTimes(a, b, feed)
 }
@@ -508,7 +513,7 @@ func (m FrequencyMinimizer) hasSameRelStopTimes(a *gtfs.Trip, b *gtfs.Trip, feed
 		}
 
 		if !(addFldsEq && a.StopTimes[i].Stop() == b.StopTimes[i].Stop() &&
-			a.StopTimes[i].Headsign() == b.StopTimes[i].Headsign() &&
+			m.strEquals(a.StopTimes[i].Headsign(), b.StopTimes[i].Headsign()) &&
 			a.StopTimes[i].Pickup_type() == b.StopTimes[i].Pickup_type() && a.StopTimes[i].Drop_off_type() == b.StopTimes[i].Drop_off_type() && a.StopTimes[i].Continuous_drop_off() == b.StopTimes[i].Continuous_drop_off() && a.StopTimes[i].Continuous_pickup() == b.StopTimes[i].Continuous_pickup() &&
 			((math.IsNaN(float64(a.StopTimes[i].Shape_dist_traveled())) && math.IsNaN(float64(b.StopTimes[i].Shape_dist_traveled()))) || FloatEquals(a.StopTimes[i].Shape_dist_traveled(), b.StopTimes[i].Shape_dist_traveled(), 0.01)) && a.StopTimes[i].Timepoint() == b.StopTimes[i].Timepoint()) {
 			return false
-- 
2.43.0


From 415f6af7ea7e7585f9769e44887be4ec57014325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 46/48] fix: do not leave transfers of split trips to new trips
 of the same id

---
 processors/servicenonoverlapper.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/processors/servicenonoverlapper.go b/processors/servicenonoverlapper.go
index dab249f..3f405fd 100755
--- a/processors/servicenonoverlapper.go
+++ b/processors/servicenonoverlapper.go
@@ -185,8 +185,12 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 		feed.FrequenciesAddFlds[k] = expandAddFlds(feed.FrequenciesAddFlds[k], newIds)
 	}
 
-	// the old trips are gone
-	feed.CleanTransfers()
+	// the old trips are gone, even if there is a new one with the same id
+	for tk := range feed.Transfers {
+		if tk.From_trip != nil || tk.To_trip != nil {
+			feed.DeleteTransfer(tk)
+		}
+	}
 
 	fmt.Fprintf(os.Stdout, "done. (created %d calendar_dates.txt entries, %d monday, %d tuesday, %d wednesday, %d thursday, %d friday, %d saturday, %d sunday types)\n", len(feed.Services), len(day_types[1]), len(day_types[2]), len(day_types[3]), len(day_types[4]), len(day_types[5]), len(day_types[6]), len(day_types[0]))
 }
-- 
2.43.0


From fa59639cf67f555cebf127ba541a714522b40ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 47/48] fix: do not give the id of a trip merged into a
 frequency to another one

---
 processors/frequencyminizer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index 67e6d54..41aa4a6 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -63,6 +63,9 @@ func (m FrequencyMinimizer) Run(feed *gtfsparser.Feed) {
 	}
 	tripsBef := len(feed.Trips)
 
+	// ids of deleted trips are not used again
+	deleted := make(map[string]empty)
+
 	// build a slice of trips for parallel processing
 	tripsSl := make(map[*gtfs.Route]map[*gtfs.Service][]*gtfs.Trip, 0)
 	for _, t := range feed.Trips {
@@ -127,6 +130,8 @@ func (m FrequencyMinimizer) Run(feed *gtfsparser.Feed) {
 					newID = t.Id + "_" + strconv.FormatInt(int64(suffixC), 10)
 					if _, in := feed.Trips[newID]; in {
 						suffixC++
+					} else if _, gone := deleted[newID]; gone {
+						suffixC++
 					} else {
 						break
 					}
@@ -197,6 +202,7 @@ func (m FrequencyMinimizer) Run(feed *gtfsparser.Feed) {
 		for _, trip := range eqs.trips {
 			if trip.Id != t.Id {
 				// don't delete the trip with the original id, we have used it again!
+				deleted[trip.Id] = empty{}
 				feed.DeleteTrip(trip.Id)
 			}
 		}
-- 
2.43.0


From f8b4f83375d06201fe5c49efbe3118a081d072a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:50 +0000
Subject: [PATCH 48/48] fix: keep the prefix of an agency without an id if
 there are several agencies

---
 gtfstidy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index 47cb0f6..4ce5400 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -768,7 +768,7 @@ func main() {
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
-						if _, ok := feed.Agencies[oldId]; !ok {
+						if _, ok := feed.Agencies[oldId]; !ok && (oldId != "" || len(feed.Agencies) == 1) {
 							feed.Agencies[oldId] = s
 							feed.Agencies[oldId].Id = oldId
 
-- 
2.43.0

