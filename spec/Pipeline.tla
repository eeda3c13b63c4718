------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* One run of the program with any combination of options, judged by what  *)
(* must hold no matter which: the written feed is sound, the program       *)
(* itself accepts it, and the passenger is offered the same rides.         *)
(* args: others  further input feeds                                       *)
(*       exact   no ride may be lost or offered more often (no -I)         *)
(*       fuzzy   trips are told apart by mode of transport and calls only  *)
(*       from, to  range of dates asked for;  only, not  route types       *)
(*       calls   fewest calls of a trip asked for                         *)
(*       fuzzyStops  stops are merged whatever their names                 *)
(*       recluster  stops may get other stations (-E)                      *)
(*       valid   what -v said about the output                             *)
(***************************************************************************)
EXTENDS Cleanup, Filters, Shapes, Calendar, Ids

Agency(f, i) == LET A == {a \in Range(f.ag) : a.id = i} IN
                IF A = {} THEN "?" ELSE (CHOOSE a \in A : TRUE).attr
StopName(S, i) == IF i \in DOMAIN S THEN S[i].name ELSE "?"
CallStation(S, i) == IF i \notin DOMAIN S THEN "?"
                 ELSE IF S[i].par \in DOMAIN S THEN S[S[i].par].name ELSE S[i].name
RouteView(R, f, i) == IF i \notin DOMAIN R THEN <<"?">>
                      ELSE <<Agency(f, R[i].ag), R[i].attr, R[i].type>>

\* the calls of a trip starting at s
RideCalls(S, t, s, args) ==
  [k \in DOMAIN t.st |->
     LET x == RelStop(t, t.st[k])
         station == IF args.recluster \/ args.fuzzyStops THEN "" ELSE CallStation(S, x.s)
         name == IF args.fuzzyStops THEN "" ELSE StopName(S, x.s)
         at(v) == IF v < 0 /\ t.st[k].a < 0 THEN -1 ELSE v + s
     IN IF args.exact
        THEN <<name, station, at(x.a), at(x.d), x.pu, x.do>>
        ELSE <<station, IF k = 1 THEN -1 ELSE at(x.a),
               IF k = Len(t.st) /\ k > 1 THEN -1 ELSE at(x.d)>>]
RideView(f, S, R, t, s, args) ==
  IF args.fuzzy
  THEN <<IF t.ro \in DOMAIN R THEN Mot(R[t.ro].type) ELSE -1, RideCalls(S, t, s, args)>>
  ELSE <<RouteView(R, f, t.ro), t.hs, t.sn, IF args.exact THEN t.dir ELSE -1, RideCalls(S, t, s, args)>>

\* which rides are offered: ride -> <<trip, date, start>>
Wanted(R, t, args) ==
  /\ Len(t.st) >= args.calls
  /\ \/ t.ro \notin DOMAIN R
     \/ /\ args.only = <<>> \/ R[t.ro].type \in Range(args.only)
        /\ R[t.ro].type \notin Range(args.not)
InRange(D, args) == {d \in D : (args.from = 0 \/ args.from <= d) /\ (args.to = 0 \/ d <= args.to)}
\* all rides of the feed: <<view, trip number, entry, dates, can anyone ride?>>
Rides(f, args) ==
  LET S == ById(f.st)  R == ById(f.ro)  D == DatesOf(f)
      K == {k \in DOMAIN f.tr : Wanted(R, f.tr[k], args)}
      starts(t) == IF t.fr = <<>> THEN {<<0, FirstDep(t)>>}
                   ELSE UNION {{<<k, s>> : s \in FreqStarts(t.fr[k])} : k \in DOMAIN t.fr}
  IN {r \in UNION {{<<RideView(f, S, R, f.tr[k], x[2], args), k, x,
                      InRange(TripDates(f, D, f.tr[k]), args),
                      f.tr[k].ro \in DOMAIN R => Boardable(R, f.tr[k])>> : x \in starts(f.tr[k])} :
                   k \in K} : r[4] # {}}
\* per ride the dates, with how often
Offer(X) ==
  [v \in {r[1] : r \in X} |->
     LET Y == {r \in X : r[1] = v} IN
     [d \in UNION {r[4] : r \in Y} |-> Cardinality({r \in Y : d \in r[4]})]]

InputRides(f, args) ==
  UNION {{<<r[1], <<0, r[2]>>, r[3], r[4], r[5]>> : r \in Rides(f, args)}}
  \cup UNION {{<<r[1], <<i, r[2]>>, r[3], r[4], r[5]>> : r \in Rides(args.others[i], args)} :
              i \in DOMAIN args.others}

RunClean(g, args) ==
  LET I == Integrity(g) IN
  [ valid |-> args.valid,
    uniqueIds |-> I.uniqueIds, routeAgency |-> I.routeAgency, tripRoute |-> I.tripRoute,
    tripService |-> I.tripService, tripShape |-> I.tripShape, stopTimeTrip |-> I.stopTimeTrip,
    frequencyTrip |-> I.frequencyTrip, stopTimeStop |-> I.stopTimeStop,
    stopTimeOrder |-> I.stopTimeOrder, stopParent |-> I.stopParent, stopLevel |-> I.stopLevel,
    transferEnds |-> I.transferEnds, transferOnce |-> I.transferOnce,
    pathwayEnds |-> I.pathwayEnds, fareAgency |-> I.fareAgency, fareRule |-> I.fareRule,
    attribution |-> I.attribution,
    times |-> \A t \in Range(g.tr) : t.st # <<>> =>
                /\ \A k \in DOMAIN t.st : t.st[k].a <= t.st[k].d
                /\ \A j, k \in DOMAIN t.st : j < k /\ t.st[k].a >= 0 => t.st[j].d <= t.st[k].a,
    frequencies |-> \A t \in Range(g.tr) : \A e \in Range(t.fr) : e.s <= e.e /\ e.h > 0 ]

\* rides nobody can board or leave may go (-O), also in favour of others (-I)
Rideable(X) == {r \in X : r[5]}
RunSame(f, g, args) ==
  LET FR == InputRides(f, args)
      GR == Rides(g, [args EXCEPT !.from = 0, !.to = 0, !.only = <<>>, !.not = <<>>, !.calls = 0])
      A == Offer(FR)  B == Offer(GR)
      AU == Offer(Rideable(FR))  BU == Offer(Rideable(GR))
  IN
  [ rides |-> DOMAIN B \subseteq DOMAIN A,           \* nothing is invented
    kept  |-> DOMAIN AU \subseteq DOMAIN B,          \* nothing is lost
    dates |-> /\ \A v \in DOMAIN A \cap DOMAIN B : DOMAIN B[v] \subseteq DOMAIN A[v]
              /\ \A v \in DOMAIN AU \cap DOMAIN B : DOMAIN AU[v] \subseteq DOMAIN B[v],
    often |-> args.exact => AU = BU ]

\* what an option removes does not remain in the output of the whole run: the
\* written feed is one that the action could have left as it is
RunNormal(g, args) ==
  LET N == Range(args.norm)
      Done(r) == Failing(r) = {}
  IN
  [ orphans  |-> "O" \in N => Done(Orphan(g, g)),
    agencies |-> "A" \in N => Done(AgencyDup(g, g)),
    stops    |-> "P" \in N => Done(StopDup(g, g, args.fuzzyStops)),
    routes   |-> "R" \in N => Done(RouteDup(g, g)),
    services |-> "C" \in N => Done(ServiceDup(g, g)),
    shapes   |-> "S" \in N => LET r == ShapeDup(g, g) IN r.distinct /\ r.sameWay,
    trips    |-> "I" \in N => Done(TripDup(g, g, args.fuzzy, args.aggressive)),
    overlap  |-> "N" \in N => LET D == DatesOf(g) IN
                    \A i, j \in DOMAIN D : i # j => D[i] \cap D[j] = {},
    exceptions |-> "X" \in N => \A s \in Range(g.sv) : s.ex = <<>>,
    calendars |-> "E" \in N => \A s \in Range(g.sv) : s.cal = 1,
    parents  |-> "H" \in N => \A s \in Range(g.st) : s.lt = 0 => s.par # "",
    platforms |-> "L" \in N => \A s \in Range(g.st) : s.par = "" => s.plat = "",
    measured |-> "M" \in N => \A h \in Range(g.sh) : FullyMeasured(h.p) \/ Unmeasured(h.p),
    noshapes |-> "D" \in N => g.sh = <<>>,
    \* args.base: 10 or 36 if ids are to be numbers, but for args.keep
    numbered |-> args.base > 0 =>
                   LET Q(n) == {args.prefix \o Num(k, args.base) : k \in 1..Len(g[n])} IN
                   /\ \A n \in Kinds \ Range(args.keep) : Ids(g[n]) = Q(n)
                   /\ "at" \notin Range(args.keep) => {x.id : x \in Range(g.at)} = Q("at") ]
=============================================================================
