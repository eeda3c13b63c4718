-------------------------------- MODULE Scope --------------------------------
(***************************************************************************)
(* Small scopes, enumerated completely by TLC: every input of a small size *)
(* of one kind.  The inputs ("items") of a scope are written to a file;    *)
(* the harness turns each into a component of a feed which does not meet   *)
(* the others, runs the program, and TLC judges the runs with the same     *)
(* relations as all others.                                                *)
(***************************************************************************)
EXTENDS Gtfs, Json, IOUtils, SequencesExt

Which == IOEnv.SCOPE
Size == atoi(IOEnv.SIZE)

Seqs(S, n) == UNION {[1..k -> S] : k \in 1..n}
Set2Seq(S) == SetToSeq(S)

-----------------------------------------------------------------------------
(* Services: every nonempty set of active dates within `Sz' days, beginning *)
(* on every day of the week, in four ways of writing it down.  Day 1 is a     *)
(* Monday.                                                                    *)
Exs(A, R) == Set2Seq({[d |-> d, t |-> 1] : d \in A} \cup {[d |-> d, t |-> 2] : d \in R})
AsDates(D) == [cal |-> 0, days |-> <<0, 0, 0, 0, 0, 0, 0>>, s |-> 0, e |-> -1, ex |-> Exs(D, {})]
Mask(D) == [k \in 1..7 |-> IF \E d \in D : (d - 1) % 7 = k - 1 THEN 1 ELSE 0]
\* one row for the weekdays in D, from a to z, and what is left
AsRow(D, days, a, z) ==
  LET r == [cal |-> 1, days |-> days, s |-> a, e |-> z, ex |-> <<>>]  X == ActiveDates(r)
  IN [r EXCEPT !.ex = Exs(D \ X, X \ D)]
Ways(D) == {AsDates(D), AsRow(D, <<1, 1, 1, 1, 1, 1, 1>>, Min(D), Max(D)),
            AsRow(D, Mask(D), Min(D) - 3, Max(D)), AsRow(D, Mask({Min(D)}), Min(D), Max(D) + 9),
            \* an exception which says what the row says
            [AsRow(D, Mask(D), Min(D), Max(D)) EXCEPT
                !.ex = Exs(Added([ex |-> @]) \cup {Max(D)}, Removed([ex |-> @]))]}
DateSets(Sz) == {{d + w : d \in D} : D \in (SUBSET (1..Sz)) \ {{}}, w \in 0..6}
Written(Sz) == UNION {{[sv |-> sv, dates |-> Set2Seq(D)] : sv \in Ways(D)} : D \in DateSets(Sz)}
WrittenRight(Sz) == \A x \in Written(Sz) : ActiveDates(x.sv) = Range(x.dates)

\* three services on four dates, weekly or yearly neighbours
Slots == <<1, 2, 8, 9, 365, 372>>
Tri(Sz) == {x \in [1..3 -> SUBSET (1..Sz)] : x[1] # {}}
Shared(Sz) == {<<Set2Seq({Slots[k] : k \in x[1]}), Set2Seq({Slots[k] : k \in x[2]}),
             Set2Seq({Slots[k] : k \in x[3]})>> : x \in Tri(Sz)}

-----------------------------------------------------------------------------
(* Trips *)
\* every set of departures, in slots, with or without a frequency
Departing(Sz) == [at : (SUBSET (0..(Sz - 1))) \ {{}},
           fr : {<<>>} \cup ((0..2) \X (1..2) \X (2..3) \X (0..1)), dwell : {0, 60}]
\* two trips on every pair of date sets, which differ in nothing or one thing
TripPair(Sz) == [a : (SUBSET (1..Sz)) \ {{}}, b : (SUBSET (1..Sz)) \ {{}}, gap : {1, 7},
             diff : {"", "trip_headsign", "trip_short_name", "direction_id", "block_id",
                     "wheelchair_accessible", "bikes_allowed", "shape_id", "time", "dwell", "first",
                     "last", "stop", "platform", "route", "mode", "frequency"}]
\* three stop times; each at one of two stops, now or later; one has a peculiarity
StopTime == [s : {1, 2}, k : {"same", "later", "dwell", "untimed"}]
StopTimes(Sz) == {[st |-> x, at |-> p, odd |-> o] :
               x \in {y \in [1..Sz -> StopTime] : y[1].k # "untimed" /\ y[Sz].k # "untimed"},
               p \in 1..Sz, o \in {"", "pickup_type", "drop_off_type", "continuous_pickup",
                 "continuous_drop_off", "shape_dist_traveled", "timepoint", "later_dist"}}

-----------------------------------------------------------------------------
(* Stations: what exists, what is used, what names what *)
Station1(Sz) == [p2 : BOOLEAN, board : BOOLEAN, ent : BOOLEAN, use1 : BOOLEAN, use2 : BOOLEAN,
             par : BOOLEAN, tf : {"", "pp", "sx", "xs", "ss", "ps"}, pw : {"", "ep", "pe", "bp"}]
\* two rows which differ in some columns
Differ(C) == SUBSET C
Pairs(Sz) == CASE Which = "agencies" -> Differ({"agency_name", "agency_url", "agency_lang", "agency_phone",
                                            "agency_fare_url", "agency_email"})
           [] Which = "routes" -> Differ({"route_short_name", "route_long_name", "route_desc", "route_type",
                                          "route_url", "route_color", "route_text_color", "agency_id",
                                          "continuous_pickup", "continuous_drop_off"})
           [] Which = "stops" -> Differ({"stop_code", "stop_name", "stop_desc", "zone_id", "stop_url",
                                         "stop_timezone", "wheelchair_boarding", "level_id",
                                         "platform_code", "parent_station"})
           [] OTHER -> {}
Rules(Sz) == SUBSET ({"F0", "F1"} \X {"", "Z0"})
RulePairs(Sz) == Rules(Sz) \X Rules(Sz)

-----------------------------------------------------------------------------
(* Shapes: every way along the lines of a small net whose lines are 0.5 m and *)
(* 45 m apart; every way of measuring some of the points.                     *)
Net == <<0, 5, 400>>
Beside(p, q) == p[1] = q[1] \/ p[2] = q[2]
Courses(Sz) == {x \in [1..Sz -> (1..3) \X (1..3)] : \A k \in 1..(Sz - 1) : Beside(x[k], x[k + 1])}
Ways2(Sz) == {[k \in DOMAIN x |-> <<Net[x[k][1]], Net[x[k][2]]>>] : x \in Courses(Sz)}
Rising(x) == \A j, k \in DOMAIN x : j < k /\ x[j] >= 0 /\ x[k] >= 0 => x[j] <= x[k]
Measures(Sz) == {x \in Seqs({-1, 0, 1, 2, 5}, Sz) : Rising(x)}

-----------------------------------------------------------------------------
Windows(Sz) == {x \in (0..(Sz + 9)) \X (0..(Sz + 9)) : x[1] = 0 \/ x[2] = 0 \/ x[1] <= x[2]}
Options(Sz) == SUBSET {"-O", "-A", "-P", "-R", "-C", "-c", "-S", "-I", "-T",
                   "--remove-cal-dates", "--non-overlapping-services"}
Small(Sz) == SUBSET {"-O", "-S", "-s", "-m", "-r", "--snap-stops", "--drop-shapes", "-P", "-E"}

\* the feeds of Design.tla
TinyTrip(Sz) == {k \in [ro : 1..2, sv : 1..2, slot : 1..2, pu : {0, 1}, fr : BOOLEAN] :
                   k.pu = 1 => k.ro = 1 /\ k.slot = 1 /\ ~k.fr}
Tiny(Sz) == {[d |-> [k \in 1..2 |-> Set2Seq(x.d[k])], row |-> x.row, tr |-> x.tr] :
               x \in [d : [1..2 -> (SUBSET (1..2)) \ {{}}], row : [1..2 -> BOOLEAN],
                      tr : [1..Sz -> TinyTrip(Sz)]]}

Items(Sz) == CASE Which = "written" -> Written(Sz)
           [] Which = "shared" -> Shared(Sz)
           [] Which = "starts" -> {[x EXCEPT !.at = Set2Seq(@)] : x \in Departing(Sz)}
           [] Which = "trips" -> {[x EXCEPT !.a = Set2Seq(@), !.b = Set2Seq(@)] : x \in TripPair(Sz)}
           [] Which = "stoptimes" -> StopTimes(Sz)
           [] Which = "stations" -> Station1(Sz)
           [] Which = "rules" -> {<<Set2Seq(x[1]), Set2Seq(x[2])>> : x \in RulePairs(Sz)}
           [] Which \in {"agencies", "routes", "stops"} -> {Set2Seq(x) : x \in Pairs(Sz)}
           [] Which = "courses" -> Ways2(Sz)
           [] Which = "measures" -> Measures(Sz)
           [] Which = "tiny" -> Tiny(Sz)
           [] Which = "windows" -> Windows(Sz)
           [] Which = "options" -> {Set2Seq(x) : x \in Options(Sz)}
           [] Which = "shapeoptions" -> {Set2Seq(x) : x \in Small(Sz)}

ASSUME Which = "written" => WrittenRight(Size)
ASSUME ndJsonSerialize(IOEnv.OUT, Set2Seq({[x |-> i] : i \in Items(Size)}))

VARIABLE done
Init == done = 0
Next == UNCHANGED done
=============================================================================
