-------------------------------- MODULE Gtfs --------------------------------
(***************************************************************************)
(* The abstract state of gtfstidy is one feed.  A feed is a record of      *)
(* tables, each table a sequence of records (order carries no meaning):    *)
(*   ag agencies   st stops    ro routes   sv services   tr trips (with    *)
(*   their stop times `st' and frequencies `fr')   sh shapes   tf transfers*)
(*   pw pathways   lv levels   fa fares   fl fare rules   at attributions  *)
(*   fi feed info;  xst, xfr: ids of trips which have stop times or        *)
(*   frequencies but no row in trips.txt.                                  *)
(* This module defines what such a feed MEANS: which dates a service is    *)
(* active on, which departures a trip makes, what refers to what.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}
Ids(s) == {s[i].id : i \in DOMAIN s}
ById(s) == [i \in Ids(s) |-> s[CHOOSE k \in DOMAIN s : s[k].id = i]]
UniqueIds(s) == Cardinality(Ids(s)) = Len(s)
\* number of occurrences of x in the sequence s / of positions satisfying P
CountOf(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
\* same rows, in any order, counting duplicates
SameBag(s, u) ==
  \/ s = u
  \/ /\ Len(s) = Len(u)
     /\ Range(s) = Range(u)
     /\ \/ Cardinality(Range(s)) = Len(s)
        \/ \A x \in Range(s) : CountOf(s, x) = CountOf(u, x)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Abs(x) == IF x < 0 THEN -x ELSE x
Fld(f, i, d) == IF i \in DOMAIN f THEN f[i] ELSE d

RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(S \ {x}, f)

-----------------------------------------------------------------------------
(* Services *)

\* day ordinals count from a Monday: (d-1) % 7 = 0 is a Monday
WeekdayOn(s, d) == s.days[((d - 1) % 7) + 1] = 1
Added(s) == {x.d : x \in {y \in Range(s.ex) : y.t = 1}}
Removed(s) == {x.d : x \in {y \in Range(s.ex) : y.t = 2}}
ActiveDates(s) ==
  LET regular == IF s.cal = 0 THEN {} ELSE {d \in s.s..s.e : WeekdayOn(s, d)}
  IN (regular \ Removed(s)) \cup Added(s)
WellFormedService(s) ==
  /\ s.cal <= 1
  /\ Cardinality({x.d : x \in Range(s.ex)}) = Len(s.ex)
\* dates of every service, by id
DatesOf(f) == [i \in Ids(f.sv) |-> ActiveDates(ById(f.sv)[i])]
TripDates(f, D, t) == Fld(D, t.sv, {})

-----------------------------------------------------------------------------
(* Trips.  What the passenger sees of a trip, apart from its names. *)

Untimed(t) == {k \in DOMAIN t.st : t.st[k].a < 0 \/ t.st[k].d < 0}
FirstDep(t) == IF t.st = <<>> THEN -1 ELSE t.st[1].d
\* start times of a frequency entry: start, start+h, ..., before end
FreqStarts(e) == IF e.h <= 0 THEN {e.s}
                 ELSE {e.s + k * e.h : k \in 0..((e.e - e.s - 1) \div e.h)}
Starts(t) == IF t.fr = <<>> THEN {FirstDep(t)}
             ELSE UNION {FreqStarts(e) : e \in Range(t.fr)}

\* stop times without a place in time: relative to the first departure
RelStop(t, x) == [x EXCEPT !.a = IF x.a < 0 THEN -1 ELSE x.a - FirstDep(t),
                           !.d = IF x.d < 0 THEN -1 ELSE x.d - FirstDep(t)]

\* everything a trip says, except its own id and service
Content(t) == <<t.ro, t.hs, t.sn, t.dir, t.blk, t.sh, t.wa, t.ba, t.af, t.st, t.fr>>
ContentNoAf(t) == <<t.ro, t.hs, t.sn, t.dir, t.blk, t.sh, t.wa, t.ba,
                    [k \in DOMAIN t.st |-> [t.st[k] EXCEPT !.af = ""]], t.fr>>

-----------------------------------------------------------------------------
(* Referential integrity.  The record names each kind of reference; a feed *)
(* is sound when every component is TRUE.                                  *)

StopType(S, i) == IF i \in DOMAIN S THEN S[i].lt ELSE -1

Integrity(f) ==
  LET AG == Ids(f.ag)  RO == Ids(f.ro)  SV == Ids(f.sv)  TR == Ids(f.tr)
      ST == Ids(f.st)  SH == Ids(f.sh)  LV == Ids(f.lv)  FA == Ids(f.fa)
      S == ById(f.st)
  IN [ uniqueIds |-> /\ UniqueIds(f.ag) /\ UniqueIds(f.ro) /\ UniqueIds(f.sv)
                     /\ UniqueIds(f.tr) /\ UniqueIds(f.st) /\ UniqueIds(f.sh)
                     /\ UniqueIds(f.lv) /\ UniqueIds(f.fa) /\ UniqueIds(f.pw)
                     /\ \A s \in Range(f.sv) : WellFormedService(s),
       routeAgency |-> \A r \in Range(f.ro) : r.ag \in AG,
       tripRoute |-> \A t \in Range(f.tr) : t.ro \in RO,
       tripService |-> \A t \in Range(f.tr) : t.sv \in SV,
       tripShape |-> \A t \in Range(f.tr) : t.sh = "" \/ t.sh \in SH,
       stopTimeTrip |-> f.xst = <<>>,
       frequencyTrip |-> f.xfr = <<>>,
       stopTimeStop |-> \A t \in Range(f.tr) : \A x \in Range(t.st) : StopType(S, x.s) = 0,
       stopTimeOrder |-> \A t \in Range(f.tr) :
                           \A k \in 1..(Len(t.st) - 1) : t.st[k].q < t.st[k + 1].q,
       stopParent |-> \A s \in Range(f.st) :
                        CASE s.lt = 0 -> s.par = "" \/ StopType(S, s.par) = 1
                          [] s.lt = 1 -> s.par = ""
                          [] s.lt \in {2, 3} -> StopType(S, s.par) = 1
                          [] s.lt = 4 -> StopType(S, s.par) = 0
                          [] OTHER -> FALSE,
       stopLevel |-> \A s \in Range(f.st) : s.lvl = "" \/ s.lvl \in LV,
       transferEnds |-> \A x \in Range(f.tf) :
                          /\ x.fs = "" \/ x.fs \in ST
                          /\ x.ts = "" \/ x.ts \in ST
                          /\ x.fr = "" \/ x.fr \in RO
                          /\ x.tr = "" \/ x.tr \in RO
                          /\ x.ft = "" \/ x.ft \in TR
                          /\ x.tt = "" \/ x.tt \in TR
                          /\ x.fs # "" \/ x.fr # "" \/ x.ft # ""
                          /\ x.ts # "" \/ x.tr # "" \/ x.tt # "",
       transferOnce |-> Cardinality({<<x.fs, x.ts, x.fr, x.tr, x.ft, x.tt>> :
                                       x \in Range(f.tf)}) = Len(f.tf),
       pathwayEnds |-> \A x \in Range(f.pw) : /\ StopType(S, x.f) \in {0, 2, 3, 4}
                                              /\ StopType(S, x.t) \in {0, 2, 3, 4},
       fareAgency |-> \A x \in Range(f.fa) : x.ag = "" \/ x.ag \in AG,
       fareRule |-> \A x \in Range(f.fl) : /\ x.fa \in FA
                                           /\ x.ro = "" \/ x.ro \in RO,
       attribution |-> \A x \in Range(f.at) : /\ x.ag = "" \/ x.ag \in AG
                                              /\ x.ro = "" \/ x.ro \in RO
                                              /\ x.tr = "" \/ x.tr \in TR ]

Failing(r) == {n \in DOMAIN r : ~r[n]}
Sound(f) == Failing(Integrity(f)) = {}

-----------------------------------------------------------------------------
(* Frame conditions: tables an operation must leave alone. *)

\* a calendar row without any day says nothing
SvNorm(s) == LET on == 1 \in Range(s.days) IN
             [id |-> s.id, cal |-> IF on THEN s.cal ELSE 0, days |-> s.days,
              s |-> IF on THEN s.s ELSE 0, e |-> IF on THEN s.e ELSE -1, ex |-> Range(s.ex)]
TableSame(f, g, n) ==
  CASE n = "sv" -> {SvNorm(s) : s \in Range(f.sv)} = {SvNorm(s) : s \in Range(g.sv)}
    [] OTHER -> SameBag(f[n], g[n])
AllTables == {"ag", "st", "ro", "sv", "tr", "sh", "tf", "pw", "lv", "fa", "fl", "at", "fi"}
\* the tables outside `changed' are untouched
Frame(f, g, changed) == \A n \in AllTables \ changed : TableSame(f, g, n)

\* how often each <<date, content>> is served
Served(f, Cont(_)) ==
  LET D == DatesOf(f) IN
  [c \in {Cont(t) : t \in Range(f.tr)} |->
     LET K == {k \in DOMAIN f.tr : Cont(f.tr[k]) = c}
         AllD == UNION {TripDates(f, D, f.tr[k]) : k \in K}
     IN [d \in AllD |-> Cardinality({k \in K : d \in TripDates(f, D, f.tr[k])})]]
\* contents which are never served do not count
ServedPos(f, Cont(_)) ==
  LET s == Served(f, Cont) IN [c \in {x \in DOMAIN s : DOMAIN s[x] # {}} |-> s[c]]
=============================================================================
