------------------------------ MODULE Filters -------------------------------
(***************************************************************************)
(* The actions of gtfstidy which drop a part of the timetable on purpose:  *)
(* dates, modes of transport, places, trips that are too fast.             *)
(***************************************************************************)
EXTENDS Trips

Only(q, keep) == SelectSeq(q, LAMBDA x : x.id \in keep)
\* transfers, attributions and pathways whose ends are all still there
Alive(x, ids) == x = "" \/ x \in ids
TfLeft(f, st, ro, tr) ==
  SelectSeq(f.tf, LAMBDA x : /\ Alive(x.fs, st) /\ Alive(x.ts, st)
                             /\ Alive(x.fr, ro) /\ Alive(x.tr, ro)
                             /\ Alive(x.ft, tr) /\ Alive(x.tt, tr))
AtLeft(f, ro, tr) == SelectSeq(f.at, LAMBDA x : Alive(x.ro, ro) /\ Alive(x.tr, tr))

-----------------------------------------------------------------------------
(* --drop-too-fast-trips *)

\* speed limit of a route in km/h; 0: none
Limit(ty) == LET m == Mot(ty) IN
  CASE m = 0 -> 100 [] m = 1 -> 150 [] m = 2 -> 500 [] m = 3 -> 150 [] m = 4 -> 80
    [] m = 5 -> 30 [] m \in {6, 7, 11} -> 50 [] m = 12 -> 150 [] OTHER -> 0
\* metres between two stops, at least and at most (1 udeg is 0.1113 m)
MetresMin(a, b) == ((Max({Abs(a.lat - b.lat), Abs(a.lon - b.lon)}) \div 100) * 1110) \div 100
MetresMax(a, b) == (((Abs(a.lat - b.lat) + Abs(a.lon - b.lon)) \div 100 + 1) * 1115) \div 100
\* the way of a trip from its call i to its call j under the metric M
RECURSIVE Way(_, _, _, _, _)
Way(S, t, M(_, _), i, j) ==
  IF j <= i THEN 0 ELSE Way(S, t, M, i, j - 1) + M(S[t.st[j - 1].s], S[t.st[j].s])
Timed(t, k) == t.st[k].a >= 0 /\ t.st[k].d >= 0
Secs(t, i, j) == LET x == t.st[j].a - t.st[i].d IN IF x = 0 THEN 60 ELSE x
\* m metres within s seconds is faster than v km/h
Faster(m, s, v) == s > 0 /\ m * 36 > v * s * 10
\* the previous call with a time
Before(t, k) == LET B == {i \in 1..(k - 1) : Timed(t, i)} IN IF B = {} THEN 0 ELSE Max(B)

\* clearly too fast: a hop of 7 km or more between two calls, or a stretch of
\* 10 km or more behind the first call, beyond the limit
TooFastSure(S, v, t) ==
  /\ v > 0
  /\ \E j \in DOMAIN t.st : Timed(t, j) /\ \E i \in 1..(j - 1) : Timed(t, i) /\
       LET m == Way(S, t, MetresMin, i, j) IN
       \/ /\ i = Before(t, j) /\ m >= 7000 /\ Faster(m, Secs(t, i, j), v)
          /\ LET p == Before(t, i) IN p = 0 \/ t.st[i].a > t.st[p].d
       \/ i > 1 /\ m >= 10000 /\ Faster(m, Secs(t, i, j), v)
TooFastMaybe(S, v, t) ==
  /\ v > 0
  /\ \E j \in DOMAIN t.st : Timed(t, j) /\ \E i \in 1..(j - 1) : Timed(t, i) /\
       LET m == Way(S, t, MetresMax, i, j) IN m >= 7000 /\ Faster(m, Secs(t, i, j), v)

TooFast(f, g) ==
  LET S == ById(f.st)  R == ById(f.ro)  T == ById(f.tr)
      V(t) == Limit(R[t.ro].type)
  IN
  [ dropped  |-> \A t \in Range(f.tr) : TooFastSure(S, V(t), t) => t.id \notin Ids(g.tr),
    kept     |-> \A t \in Range(f.tr) : ~TooFastMaybe(S, V(t), t) => t.id \in Ids(g.tr),
    same     |-> SameBag(g.tr, Only(f.tr, Ids(g.tr))) /\ g.xst = <<>> /\ g.xfr = <<>>,
    transfers |-> SameBag(g.tf, TfLeft(f, Ids(f.st), Ids(f.ro), Ids(g.tr))),
    attributions |-> SameBag(g.at, AtLeft(f, Ids(f.ro), Ids(g.tr))),
    frame    |-> Frame(f, g, {"tr", "tf", "at"}) ]

-----------------------------------------------------------------------------
(* --date-start, --date-end: only what happens from day a to day b is left. *)

DateFilter(f, g, a, b) ==
  LET DF == DatesOf(f)  DG == DatesOf(g)
      In(D) == {d \in D : a <= d /\ d <= b}
      keep == {t.id : t \in {x \in Range(f.tr) : In(TripDates(f, DF, x)) # {}}}
      TF == ById(f.tr)
  IN
  [ trips    |-> SameBag(g.tr, Only(f.tr, keep)) /\ g.xst = <<>> /\ g.xfr = <<>>,
    dates    |-> \A t \in Range(g.tr) : t.id \in DOMAIN TF =>
                    TripDates(g, DG, t) = In(TripDates(f, DF, TF[t.id])),
    services |-> /\ DOMAIN DG \subseteq DOMAIN DF
                 /\ \A i \in DOMAIN DG \cap DOMAIN DF : DG[i] = In(DF[i])
                 /\ UniqueIds(g.sv) /\ \A s \in Range(g.sv) : WellFormedService(s),
    transfers |-> SameBag(g.tf, TfLeft(f, Ids(f.st), Ids(f.ro), keep)),
    attributions |-> SameBag(g.at, AtLeft(f, Ids(f.ro), keep)),
    frame    |-> Frame(f, g, {"tr", "sv", "tf", "at"}) ]

-----------------------------------------------------------------------------
(* -M, -N: only routes with one of these types / with none of these.        *)

MotFilter(f, g, only, not) ==
  LET routes == {r.id : r \in {x \in Range(f.ro) : /\ only = {} \/ x.type \in only
                                                  /\ x.type \notin not}}
      trips == {t.id : t \in {x \in Range(f.tr) : x.ro \in routes}}
  IN
  [ routes   |-> SameBag(g.ro, Only(f.ro, routes)),
    trips    |-> SameBag(g.tr, Only(f.tr, trips)) /\ g.xst = <<>> /\ g.xfr = <<>>,
    rules    |-> SameBag(g.fl, SelectSeq(f.fl, LAMBDA x : Alive(x.ro, routes))),
    transfers |-> SameBag(g.tf, TfLeft(f, Ids(f.st), routes, trips)),
    attributions |-> SameBag(g.at, AtLeft(f, routes, trips)),
    frame    |-> Frame(f, g, {"ro", "tr", "fl", "tf", "at"}) ]

-----------------------------------------------------------------------------
(* Places.  An area is [box |-> <<lat, lon, lat, lon>>, hole |-> same or <<>>] *)

InBox(x, b) == b # <<>> /\ b[1] < x.lat /\ x.lat < b[3] /\ b[2] < x.lon /\ x.lon < b[4]
Inside(areas, x) == \E a \in Range(areas) : InBox(x, a.box) /\ ~InBox(x, a.hole)

\* the filter proper: everything outside is cut away, trips included
GeoFilter(f, g, areas) ==
  LET stops == {s.id : s \in {x \in Range(f.st) : Inside(areas, x)}}
      S == ById(f.st)
      Cut(p) == SelectSeq(p, LAMBDA x : Inside(areas, [lat |-> x.y, lon |-> x.x]))
      shapes == [k \in DOMAIN f.sh |-> [f.sh[k] EXCEPT !.p = Cut(@)]]
      left == {h.id : h \in {x \in Range(shapes) : x.p # <<>>}}
  IN
  [ stops    |-> {[s EXCEPT !.par = IF s.par \in stops THEN s.par ELSE ""] :
                     s \in {x \in Range(f.st) : x.id \in stops}} = Range(g.st)
                 /\ UniqueIds(g.st),
    trips    |-> /\ UniqueIds(g.tr)
                 /\ {[t EXCEPT !.st = SelectSeq(t.st, LAMBDA x : x.s \in stops),
                               !.sh = IF t.sh \in left THEN t.sh ELSE ""] :
                       t \in Range(f.tr)} = Range(g.tr),
    shapes   |-> SameBag(g.sh, Only(shapes, left)),
    transfers |-> SameBag(g.tf, TfLeft(f, stops, Ids(f.ro), Ids(f.tr))),
    pathways |-> SameBag(g.pw, SelectSeq(f.pw, LAMBDA x : x.f \in stops /\ x.t \in stops)),
    frame    |-> Frame(f, g, {"st", "tr", "sh", "tf", "pw"}) ]

\* --complete-filtered-trips: trips calling inside are kept as a whole, with
\* every stop they call at; without an area nothing is filtered
GeoComplete(f, g, areas) ==
  LET S == ById(f.st)
      Par(X) == {S[i].par : i \in X \cap DOMAIN S} \ {""}
      inside == {s.id : s \in {x \in Range(f.st) : Inside(areas, x)}}
      trips == {t.id : t \in {x \in Range(f.tr) : \E k \in DOMAIN x.st : x.st[k].s \in inside}}
      used == inside \cup UNION {{x.s : x \in Range(t.st)} :
                                   t \in {y \in Range(f.tr) : y.id \in trips}}
      stops == used \cup Par(used) \cup Par(Par(used))
      keepT == IF areas = <<>> THEN Ids(f.tr) ELSE trips
      keepS == IF areas = <<>> THEN Ids(f.st) ELSE stops
  IN
  [ trips    |-> SameBag(g.tr, Only(f.tr, keepT)) /\ g.xst = <<>> /\ g.xfr = <<>>,
    stops    |-> SameBag(g.st, Only(f.st, keepS)),
    transfers |-> SameBag(g.tf, TfLeft(f, keepS, Ids(f.ro), keepT)),
    pathways |-> SameBag(g.pw, SelectSeq(f.pw, LAMBDA x : x.f \in keepS /\ x.t \in keepS)),
    attributions |-> SameBag(g.at, AtLeft(f, Ids(f.ro), keepT)),
    frame    |-> Frame(f, g, {"st", "tr", "tf", "pw", "at"}) ]

-----------------------------------------------------------------------------
(* --drop-shapes, --drop-single-stop-trips *)

DropShapes(f, g) ==
  [ shapes |-> g.sh = <<>>,
    trips  |-> UniqueIds(g.tr) /\ {[t EXCEPT !.sh = ""] : t \in Range(f.tr)} = Range(g.tr),
    frame  |-> Frame(f, g, {"sh", "tr"}) ]

DropSingle(f, g) ==
  LET keep == {t.id : t \in {x \in Range(f.tr) : Len(x.st) >= 2}} IN
  [ trips  |-> SameBag(g.tr, Only(f.tr, keep)) /\ g.xst = <<>> /\ g.xfr = <<>>,
    transfers |-> SameBag(g.tf, TfLeft(f, Ids(f.st), Ids(f.ro), keep)),
    attributions |-> SameBag(g.at, AtLeft(f, Ids(f.ro), keep)),
    frame  |-> Frame(f, g, {"tr", "tf", "at"}) ]
=============================================================================
