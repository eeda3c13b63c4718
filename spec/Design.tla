------------------------------- MODULE Design -------------------------------
(***************************************************************************)
(* How the options work, in steps too small to hide anything: two services *)
(* become one, one route takes over from another, a trip joins another, a  *)
(* service is split.  An option repeats its steps, in any order, until     *)
(* none is possible; any options follow each other.  TLC explores all      *)
(* behaviours from all feeds of a small size and checks that               *)
(*  - the relations of the other modules, by which the runs of the real    *)
(*    program are judged, allow everything an option may do, and follow    *)
(*    from what its steps do (Completed);                                  *)
(*  - the passenger is offered the same rides after every single step, and *)
(*    the feed stays sound, whatever was done before (Offered, StaysSound);*)
(*  - options come to an end (Ends).                                       *)
(***************************************************************************)
EXTENDS GtfsSpec

CONSTANTS Dates, NServices, NTrips, NSlots, Runs, Opts

----------------------------------------------------------------------------
(* SmallFeeds of the size *)
Stop(i, y) == [id |-> i, name |-> i, lt |-> 0, par |-> "", lvl |-> "", zone |-> "", plat |-> "",
               lat |-> y, lon |-> 0, attr |-> "", af |-> ""]
Route(i) == [id |-> i, ag |-> "A", type |-> 3, sort |-> "", cp |-> 1, cd |-> 1, attr |-> "r", af |-> ""]
SvId(k) == <<"S1", "S2", "S3">>[k]
TrId(k) == <<"T1", "T2", "T3", "T4">>[k]
RoId(k) == <<"R1", "R2">>[k]
SetSeq(S) == LET RECURSIVE go(_, _)
                 go(X, acc) == IF X = {} THEN acc
                               ELSE LET x == CHOOSE y \in X : TRUE IN go(X \ {x}, Append(acc, x))
             IN go(S, <<>>)
Added1(D) == SetSeq({[d |-> d, t |-> 1] : d \in D})
\* a service, written as dates, as a row, or as a row with exceptions
ByDates(i, D) == [id |-> i, cal |-> 0, days |-> <<0, 0, 0, 0, 0, 0, 0>>, s |-> 0, e |-> -1, ex |-> Added1(D)]
ByRow(i, D) == LET a == Min(D)  z == Max(D) IN
               [id |-> i, cal |-> 1, days |-> <<1, 1, 1, 1, 1, 1, 1>>, s |-> a, e |-> z,
                ex |-> SetSeq({[d |-> d, t |-> 2] : d \in (a..z) \ D})]
StopTime1(q, s, a) == [q |-> q, s |-> s, a |-> a, d |-> a, pu |-> 0, do |-> 0, cp |-> 1, cd |-> 1,
                       m |-> -1, tp |-> 1, af |-> ""]
Trip1(i, ro, sv, slot, pu, fr) ==
  [id |-> i, ro |-> ro, sv |-> sv, hs |-> "", sn |-> "", dir |-> -1, blk |-> "", sh |-> "", wa |-> 0,
   ba |-> 0, af |-> "",
   st |-> <<[StopTime1(1, "s1", 600 * slot) EXCEPT !.pu = pu], StopTime1(2, "s2", 600 * slot + 300)>>,
   fr |-> IF fr THEN <<[s |-> 600 * slot, e |-> 600 * slot + 1200, h |-> 600, x |-> 1, af |-> ""]>>
          ELSE <<>>]
Nonempty == (SUBSET (1..Dates)) \ {{}}
AllTripKinds == {<<ro, sv, slot, pu, fr>> : ro \in 1..2, sv \in 1..NServices, slot \in 1..NSlots,
                                     pu \in {0, 1}, fr \in BOOLEAN}
\* pu: a trip nobody can board is of one kind only
TripKinds == {k \in AllTripKinds : k[4] = 1 => k[1] = 1 /\ k[3] = 1 /\ ~k[5]}
NoRows == [sh |-> <<>>, tf |-> <<>>, pw |-> <<>>, lv |-> <<>>, fa |-> <<>>, fl |-> <<>>, at |-> <<>>,
           fi |-> <<>>, xst |-> <<>>, xfr |-> <<>>]
SmallFeeds ==
  {NoRows @@ [ag |-> <<[id |-> "A", attr |-> "a", af |-> ""]>>,
              st |-> <<Stop("s1", 0), Stop("s2", 90000)>>,
              ro |-> <<Route("R1"), Route("R2")>>,
              sv |-> [k \in 1..NServices |-> IF w[k] THEN ByRow(SvId(k), D[k]) ELSE ByDates(SvId(k), D[k])],
              tr |-> [k \in 1..NTrips |-> Trip1(TrId(k), RoId(T[k][1]), SvId(T[k][2]), T[k][3], T[k][4], T[k][5])]] :
     D \in [1..NServices -> Nonempty], w \in [1..NServices -> BOOLEAN],
     T \in [1..NTrips -> TripKinds]}

----------------------------------------------------------------------------
(* Steps.  Without(q, i): the table q without the row i. *)
Without(q, i) == SelectSeq(q, LAMBDA x : x.id # i)
Fresh(q, i) == LET RECURSIVE go(_)
                   go(j) == IF j \in Ids(q) THEN go(j \o "'") ELSE j
               IN go(i)
MapTrips(f, F(_)) == [k \in DOMAIN f.tr |-> F(f.tr[k])]

\* -C: equal services
JoinServices(f) ==
  LET D == DatesOf(f) IN
  {[f EXCEPT !.sv = Without(@, p[2]),
             !.tr = MapTrips(f, LAMBDA t : IF t.sv = p[2] THEN [t EXCEPT !.sv = p[1]] ELSE t)] :
     p \in {x \in Ids(f.sv) \X Ids(f.sv) : x[1] # x[2] /\ D[x[1]] = D[x[2]]}}
\* -R: equal routes
JoinRoutes(f) ==
  {[f EXCEPT !.ro = Without(@, p[2]),
             !.tr = MapTrips(f, LAMBDA t : IF t.ro = p[2] THEN [t EXCEPT !.ro = p[1]] ELSE t)] :
     p \in {x \in Ids(f.ro) \X Ids(f.ro) : x[1] # x[2] /\ [ById(f.ro)[x[1]] EXCEPT !.id = ""]
                                                       = [ById(f.ro)[x[2]] EXCEPT !.id = ""]}}
\* -I: a trip takes over the dates of an equal one
JoinTrips(f) ==
  LET S == ById(f.st)  R == ById(f.ro)  D == DatesOf(f)
      pairs == {x \in (DOMAIN f.tr) \X (DOMAIN f.tr) : /\ x[1] # x[2]
                  /\ Mergeable(f.tr[x[1]]) /\ Mergeable(f.tr[x[2]])
                  /\ TripKey(S, R, FALSE, f.tr[x[1]]) = TripKey(S, R, FALSE, f.tr[x[2]])}
      join(a, b) ==
        LET all == D[f.tr[a].sv] \cup D[f.tr[b].sv]
            same == {i \in DOMAIN D : D[i] = all}
            id == IF same # {} THEN CHOOSE i \in same : TRUE ELSE Fresh(f.sv, f.tr[a].sv)
        IN [f EXCEPT !.sv = IF same # {} THEN @ ELSE Append(@, ByDates(id, all)),
                     !.tr = SelectSeq([k \in DOMAIN @ |-> IF k = a THEN [@[k] EXCEPT !.sv = id] ELSE @[k]],
                                      LAMBDA t : t.id # f.tr[b].id)]
  IN {join(p[1], p[2]) : p \in pairs}
\* -T: as many equal trips as possible which depart at regular intervals
JoinDepartures(f) ==
  LET Single(p) == {t \in Range(f.tr) : t.fr = <<>> /\ Pattern(t) = p}
      Regular(X) == LET V == {FirstDep(t) : t \in X}  n == Cardinality(X)  lo == Min(V)
                        h == (Max(V) - lo) \div (n - 1)
                    IN n > 1 /\ Cardinality(V) = n /\ h > 0 /\ V = {lo + k * h : k \in 0..(n - 1)}
      sets == {X \in UNION {SUBSET Single(Pattern(t)) : t \in Range(f.tr)} :
                 Cardinality(X) > 1 /\ Regular(X)}
      largest == {X \in sets : \A Y \in sets : Cardinality(Y) <= Cardinality(X)}
      join(X) == LET V == {FirstDep(t) : t \in X}  h == (Max(V) - Min(V)) \div (Cardinality(X) - 1)
                     keep == CHOOSE t \in X : FirstDep(t) = Min(V)
                     gone == {t.id : t \in X} \ {keep.id}
                     fr == <<[s |-> Min(V), e |-> Max(V) + h, h |-> h, x |-> 1, af |-> ""]>>
                 IN [f EXCEPT !.tr = SelectSeq([k \in DOMAIN @ |-> IF @[k].id = keep.id
                                                   THEN [@[k] EXCEPT !.fr = fr] ELSE @[k]],
                                               LAMBDA t : t.id \notin gone)]
  IN {join(X) : X \in largest}
\* the trips of service i are run by the services of P (id -> dates) instead
Clones(t, P) == LET ids == SetSeq(DOMAIN P) IN
                [k \in DOMAIN ids |-> [t EXCEPT !.sv = ids[k], !.id = IF k = 1 THEN @ ELSE @ \o ":" \o ids[k]]]
RECURSIVE CloneAll(_, _, _, _)
CloneAll(q, k, i, P) == IF k > Len(q) THEN <<>>
                        ELSE (IF q[k].sv = i THEN Clones(q[k], P) ELSE <<q[k]>>) \o CloneAll(q, k + 1, i, P)
\* --non-overlapping-services: what two services share becomes one of its own
SplitServices(f) ==
  LET D == DatesOf(f)
      pairs == {x \in Ids(f.sv) \X Ids(f.sv) : x[1] # x[2] /\ D[x[1]] \cap D[x[2]] # {}}
      part(i, X) == IF X = {} THEN <<>> ELSE i :> X
      split(i, j) ==
        LET b == i \o "&" \o j
            I == part(i, D[i] \ D[j])  J == part(j, D[j] \ D[i])  B == part(b, D[i] \cap D[j])
            rest == SelectSeq(f.sv, LAMBDA s : s.id \notin {i, j})
            new == I @@ J @@ B
            ids == SetSeq({x \in {i, j, b} : (x = i /\ D[i] \ D[j] # {}) \/ (x = j /\ D[j] \ D[i] # {}) \/ x = b})
        IN [f EXCEPT !.sv = rest \o [k \in DOMAIN ids |-> ByDates(ids[k], new[ids[k]])],
                     !.tr = CloneAll(CloneAll(@, 1, i, I @@ B), 1, j, J @@ B)]
  IN {split(p[1], p[2]) : p \in pairs}
\* --remove-cal-dates: one row for each date
Rows(f) ==
  LET D == DatesOf(f)
      rows(s) == LET P == [i \in {s.id \o "." \o ToString(d) : d \in D[s.id]} |->
                             CHOOSE d \in D[s.id] : i = s.id \o "." \o ToString(d)]
                     ids == SetSeq(DOMAIN P)
                 IN [f EXCEPT !.sv = Without(@, s.id) \o [k \in DOMAIN ids |-> ByRow(ids[k], {P[ids[k]]})],
                              !.tr = CloneAll(@, 1, s.id, P)]
  IN {rows(s) : s \in {x \in Range(f.sv) : x.ex # <<>>}}
\* -c: fewer exceptions
Shorter(f) ==
  LET D == DatesOf(f)
      week(d) == ((d - 1) % 7) + 1
      row(i, W) == LET r == [ByRow(i, D[i]) EXCEPT !.days = [k \in 1..7 |-> IF k \in W THEN 1 ELSE 0],
                                                   !.ex = <<>>]
                       X == ActiveDates(r)
                   IN [r EXCEPT !.ex = SetSeq({[d |-> d, t |-> 1] : d \in D[i] \ X}
                                               \cup {[d |-> d, t |-> 2] : d \in X \ D[i]})]
      ways(i) == {ByDates(i, D[i])} \cup {row(i, W) : W \in SUBSET {week(d) : d \in D[i]}} IN
  {[f EXCEPT !.sv = [k \in DOMAIN @ |-> IF @[k].id = w.id THEN w ELSE @[k]]] :
     w \in {x \in UNION {ways(i) : i \in Ids(f.sv)} : Len(x.ex) < Len(ById(f.sv)[x.id].ex)}}
\* -O: something nothing refers to goes
Drop(f) ==
  LET R == ById(f.ro) IN
  {[f EXCEPT !.tr = Without(@, t.id)] : t \in {x \in Range(f.tr) : ~Boardable(R, x)}}
  \cup {[f EXCEPT !.sv = Without(@, i)] : i \in Ids(f.sv) \ {t.sv : t \in Range(f.tr)}}
  \cup {[f EXCEPT !.ro = Without(@, i)] : i \in Ids(f.ro) \ {t.ro : t \in Range(f.tr)}}
  \cup {[f EXCEPT !.ag = Without(@, i)] : i \in Ids(f.ag) \ {r.ag : r \in Range(f.ro)}}
  \cup {[f EXCEPT !.st = Without(@, i)] :
          i \in Ids(f.st) \ UNION {{t.st[k].s : k \in DOMAIN t.st} : t \in Range(f.tr)}}

Steps(o, f) == CASE o = "C" -> JoinServices(f)
                 [] o = "R" -> JoinRoutes(f)
                 [] o = "I" -> JoinTrips(f)
                 [] o = "T" -> JoinDepartures(f)
                 [] o = "N" -> SplitServices(f)
                 [] o = "X" -> Rows(f)
                 [] o = "c" -> Shorter(f)
                 [] o = "O" -> Drop(f)

Relation(o, f, g) ==
  Failing(CASE o = "C" -> ServiceDup(f, g)
            [] o = "R" -> RouteDup(f, g)
            [] o = "I" -> TripDup(f, g, FALSE, FALSE)
            [] o = "T" -> FrequencyMin(f, g, 1, 86400)
            [] o = "N" -> NonOverlap(f, g)
            [] o = "X" -> CalDatesRem(f, g)
            [] o = "c" -> ServiceMin(f, g)
            [] o = "O" -> Orphan(f, g))

----------------------------------------------------------------------------
VARIABLES first,     \* the feed read at the beginning
          feed,      \* the feed now
          before,    \* the feed when the present option began
          opt,       \* the present option
          left,      \* options that may still be run
          exact      \* no trips were merged so far
dvars == <<first, feed, before, opt, left, exact>>

Init == /\ first \in SmallFeeds
        /\ feed = first /\ before = first
        /\ opt = "" /\ left = Runs /\ exact = TRUE
Begin(o) == /\ opt = "" /\ left > 0
            /\ opt' = o /\ before' = feed /\ left' = left - 1
            /\ exact' = (exact /\ o # "I")
            /\ UNCHANGED <<first, feed>>
Work == /\ opt # ""
        /\ feed' \in Steps(opt, feed)
        /\ UNCHANGED <<first, before, opt, left, exact>>
End == /\ opt # "" /\ Steps(opt, feed) = {}
       /\ opt' = "" /\ before' = feed
       /\ UNCHANGED <<first, feed, left, exact>>
Next == Work \/ End \/ \E o \in Opts : Begin(o)
Spec == Init /\ [][Next]_dvars /\ WF_dvars(Work \/ End)

----------------------------------------------------------------------------
\* what was done as a whole is what the relation says
Completed == opt # "" /\ Steps(opt, feed) = {} => Relation(opt, before, feed) = {}
\* and an option which has nothing to do changes nothing: it can be run again
View == [others |-> <<>>, exact |-> exact, fuzzy |-> FALSE, from |-> 0, to |-> 0, only |-> <<>>,
         not |-> <<>>, calls |-> 0, fuzzyStops |-> FALSE, recluster |-> FALSE, valid |-> TRUE]
Offered == Failing(RunSame(first, feed, View)) = {}
StaysSound == Sound(feed)
Ends == []<>(opt = "")
=============================================================================
