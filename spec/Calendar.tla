------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* The actions of gtfstidy which rewrite service calendars, as relations   *)
(* between the feed f before and the feed g after.  Each operator returns  *)
(* a record of named conjuncts; the action is allowed when all are TRUE.   *)
(***************************************************************************)
EXTENDS Gtfs

\* exceptions needed with one calendar row for the whole time in which the
\* service is active, for the best choice of days of the week
Wholesale(D) ==
  LET a == CHOOSE d \in D : \A e \in D : d <= e
      z == CHOOSE d \in D : \A e \in D : d >= e
      cost(w) == LET n == Cardinality({d \in D : d % 7 = w})
                     m == Cardinality({d \in a..z : d % 7 = w}) IN
                 IF n < m - n THEN n ELSE m - n
  IN cost(0) + cost(1) + cost(2) + cost(3) + cost(4) + cost(5) + cost(6)

\* -c: every service keeps its id and exactly its active dates, and is
\* described by no more calendar_dates rows than before, nor than one calendar
\* row for all of its dates would need.
ServiceMin(f, g) ==
  LET F == ById(f.sv)  G == ById(g.sv) IN
  [ sameServices |-> DOMAIN F = DOMAIN G,
    sameDates    |-> \A i \in DOMAIN F \cap DOMAIN G : ActiveDates(F[i]) = ActiveDates(G[i]),
    notLarger    |-> \A i \in DOMAIN F \cap DOMAIN G : Len(G[i].ex) <= Len(F[i].ex),
    few          |-> \A i \in DOMAIN F \cap DOMAIN G : LET D == ActiveDates(G[i]) IN
                       Cardinality(D) > 1 => Len(G[i].ex) <= Wholesale(D),
    wellFormed   |-> \A s \in Range(g.sv) : WellFormedService(s),
    frame        |-> Frame(f, g, {"sv"}) ]

\* -C: services with equal active dates become one, nothing else changes.
ServiceDup(f, g) ==
  LET F == ById(f.sv)  G == ById(g.sv)
      DF == DatesOf(f)  DG == DatesOf(g)
      TF == ById(f.tr)  TG == ById(g.tr) IN
  [ survivors |-> /\ DOMAIN G \subseteq DOMAIN F
                  /\ \A i \in DOMAIN G \cap DOMAIN F : SvNorm(G[i]) = SvNorm(F[i]),
    covered   |-> \A i \in DOMAIN F : \E j \in DOMAIN G : DG[j] = DF[i],
    distinct  |-> \A i, j \in DOMAIN G : DG[i] = DG[j] => i = j,
    trips     |-> /\ DOMAIN TF = DOMAIN TG
                  /\ \A i \in DOMAIN TF \cap DOMAIN TG :
                        [TF[i] EXCEPT !.sv = ""] = [TG[i] EXCEPT !.sv = ""],
    tripDates |-> \A i \in DOMAIN TF \cap DOMAIN TG :
                        TripDates(f, DF, TF[i]) = TripDates(g, DG, TG[i]),
    frame     |-> Frame(f, g, {"sv", "tr"}) ]

\* --remove-cal-dates: no exceptions are left; on every date the same trips
\* run (same attributes, stop times and frequencies, and equally often).
CalDatesRem(f, g) ==
  [ noExceptions |-> \A s \in Range(g.sv) : s.ex = <<>>,
    served       |-> ServedPos(f, ContentNoAf) = ServedPos(g, ContentNoAf),
    tripsKept    |-> Ids(f.tr) \subseteq Ids(g.tr),
    firstTripAf  |-> LET G == ById(g.tr) IN
                     \A t \in Range(f.tr) : t.id \in DOMAIN G =>
                        Content(G[t.id]) = Content(t),
    \* nothing is made that never runs
    idle         |-> LET D == DatesOf(f)  E == DatesOf(g) IN
                     (\A t \in Range(f.tr) : TripDates(f, D, t) # {})
                       => \A t \in Range(g.tr) : TripDates(g, E, t) # {},
    wellFormed   |-> UniqueIds(g.sv) /\ UniqueIds(g.tr)
                     /\ \A s \in Range(g.sv) : WellFormedService(s),
    noDangling   |-> \A t \in Range(g.tr) : t.sv \in Ids(g.sv),
    frame        |-> Frame(f, g, {"sv", "tr", "at"}) ]

\* --non-overlapping-services: no two services share a date; on every date
\* the same trips run.
NonOverlap(f, g) ==
  LET D == DatesOf(g) IN
  [ disjoint   |-> \A i, j \in DOMAIN D : i # j => D[i] \cap D[j] = {},
    served     |-> ServedPos(f, ContentNoAf) = ServedPos(g, ContentNoAf),
    wellFormed |-> UniqueIds(g.sv) /\ UniqueIds(g.tr)
                   /\ \A s \in Range(g.sv) : WellFormedService(s),
    noDangling |-> \A t \in Range(g.tr) : t.sv \in Ids(g.sv),
    \* all trips are new ones, transfers which name the old ones go
    transfers  |-> SameBag(g.tf, SelectSeq(f.tf, LAMBDA x : x.ft = "" /\ x.tt = "")),
    frame      |-> Frame(f, g, {"sv", "tr", "tf", "at"}) ]
=============================================================================
