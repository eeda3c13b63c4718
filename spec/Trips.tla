------------------------------- MODULE Trips --------------------------------
(***************************************************************************)
(* The actions of gtfstidy which rewrite trips, as relations between the   *)
(* feed f before and the feed g after.                                     *)
(***************************************************************************)
EXTENDS Gtfs

\* what a vehicle does, apart from when it starts: the pattern of a trip
Pattern(t) == <<t.ro, t.sv, t.hs, t.sn, t.dir, t.blk, t.sh, t.wa, t.ba, t.af,
                [k \in DOMAIN t.st |-> RelStop(t, t.st[k])]>>
\* the departures of a trip, one element for each vehicle: <<trip, entry, start>>
Vehicles(t) == IF t.fr = <<>> THEN {<<t.id, 0, FirstDep(t)>>}
               ELSE UNION {{<<t.id, k, s>> : s \in FreqStarts(t.fr[k])} : k \in DOMAIN t.fr}
\* is the vehicle tied to a timetable?
Exact(t, v) == v[2] = 0 \/ t.fr[v[2]].x = 1

\* per pattern and start: how many vehicles, how many of them not exact
Departures(f) ==
  LET T == ById(f.tr)
      Pats == {Pattern(t) : t \in Range(f.tr)}
      OfPat == [p \in Pats |-> {t \in Range(f.tr) : Pattern(t) = p}]
  IN [p \in Pats |->
        LET V == UNION {Vehicles(t) : t \in OfPat[p]}
        IN [s \in {v[3] : v \in V} |->
              LET VS == {v \in V : v[3] = s} IN
              [n |-> Cardinality(VS),
               inexact |-> Cardinality({v \in VS : ~Exact(T[v[1]], v)}),
               explicit |-> Cardinality({v \in VS : v[2] = 0})]]]

\* rows of a table which do not name a trip that is gone
TfOf(f, g) == SelectSeq(f.tf, LAMBDA x : /\ x.ft = "" \/ x.ft \in Ids(g.tr)
                                         /\ x.tt = "" \/ x.tt \in Ids(g.tr))
AtOf(f, g) == SelectSeq(f.at, LAMBDA x : x.tr = "" \/ x.tr \in Ids(g.tr))

\* -T: the same vehicles start at the same times and run the same pattern, and
\* a timetabled vehicle stays timetabled; no more trips than before.
FrequencyMin(f, g, minH, maxH) ==
  LET DF == Departures(f)  DG == Departures(g)  T == ById(f.tr)  U == ById(g.tr)
      \* trips which are still what they were (not just trips of the same id)
      alive(i) == i = "" \/ (i \in DOMAIN T \cap DOMAIN U /\ Pattern(T[i]) = Pattern(U[i]))
  IN
  [ patterns |-> DOMAIN DF = DOMAIN DG,
    starts   |-> \A p \in DOMAIN DF \cap DOMAIN DG :
                   /\ DOMAIN DF[p] = DOMAIN DG[p]
                   /\ \A s \in DOMAIN DF[p] : DF[p][s].n = DG[p][s].n,
    exact    |-> \A p \in DOMAIN DF \cap DOMAIN DG : \A s \in DOMAIN DF[p] \cap DOMAIN DG[p] :
                   DG[p][s].inexact <= DF[p][s].inexact,
    inexact  |-> \A p \in DOMAIN DF \cap DOMAIN DG : \A s \in DOMAIN DF[p] \cap DOMAIN DG[p] :
                   DG[p][s].explicit = 0 => DG[p][s].inexact = DF[p][s].inexact,
    fewer    |-> Len(g.tr) <= Len(f.tr),
    headways |-> \A t \in Range(g.tr) :
                   (t.id \in DOMAIN T /\ T[t.id].fr = t.fr)
                   \/ \A e \in Range(t.fr) : minH <= e.h /\ e.h <= maxH /\ e.s < e.e,
    windows  |-> \A t \in Range(g.tr) :
                   (t.id \in DOMAIN T /\ T[t.id].fr = t.fr)
                   \/ \A j, k \in DOMAIN t.fr : j = k \/ t.fr[j].e <= t.fr[k].s \/ t.fr[k].e <= t.fr[j].s,
    \* equal trips which depart at regular intervals become one
    combined |-> \A p \in DOMAIN DF \cap DOMAIN DG :
                   LET V == DOMAIN DF[p]  n == Cardinality(V)  lo == Min(V)  h == (Max(V) - lo) \div (n - 1) IN
                   (/\ n > 1 /\ lo >= 0 /\ p[11] # <<>>
                    /\ minH <= h /\ h <= maxH
                    /\ V = {lo + k * h : k \in 0..(n - 1)}
                    /\ \A s \in V : DF[p][s].n = 1 /\ DF[p][s].explicit = 1) =>
                   Cardinality({t \in Range(g.tr) : Pattern(t) = p}) = 1,
    untouched |-> \A t \in Range(g.tr) :
                   \/ t.id \in DOMAIN T
                   \/ t.fr # <<>> \/ \E u \in Range(f.tr) : Pattern(u) = Pattern(t),
    transfers |-> SameBag(g.tf, SelectSeq(f.tf, LAMBDA x : alive(x.ft) /\ alive(x.tt))),
    attributions |-> SameBag(g.at, SelectSeq(f.at, LAMBDA x : alive(x.tr))),
    frame    |-> Frame(f, g, {"tr", "tf", "at"}) ]

-----------------------------------------------------------------------------
(* -I: redundant trips *)

\* basic mode of transport of a (possibly extended) route type
Mot(ty) == CASE ty \in (100..115) \cup {2, 117, 300, 1503} -> 2
             [] ty \in (200..209) \cup (700..717) \cup {3, 1500, 1501, 1505, 1506, 1507} -> 3
             [] ty \in (900..906) \cup {0} -> 0
             [] ty \in (400..404) \cup {1, 500, 600} -> 1
             [] ty \in (1000..1021) \cup {4, 1200, 1502} -> 4
             [] ty \in {6, 1300, 1301, 1304, 1306, 1307} -> 6
             [] ty \in {7, 116, 1302, 1303, 1400} -> 7
             [] ty = 800 -> 11
             [] ty = 405 -> 12
             [] OTHER -> ty
\* the station of a stop
Station(S, i) ==
  IF i \notin DOMAIN S THEN i
  ELSE LET s == S[i] IN
       CASE s.lt \in {0, 2, 3} /\ s.par # "" -> s.par
         [] s.lt = 4 /\ s.par # "" ->
              IF s.par \in DOMAIN S /\ S[s.par].par # "" THEN S[s.par].par ELSE s.par
         [] OTHER -> i
\* where and when a trip calls; neither the arrival at its first nor the
\* departure from its last call matters
Calls(S, t) ==
  LET n == Len(t.st) IN
  [k \in DOMAIN t.st |-> <<Station(S, t.st[k].s),
                           IF k = 1 THEN -1 ELSE t.st[k].a,
                           IF k = n /\ k > 1 THEN -1 ELSE t.st[k].d>>]
\* trips with equal keys are the same to the passenger
TripKey(S, R, fuzzy, t) ==
  IF fuzzy THEN <<IF t.ro \in DOMAIN R THEN Mot(R[t.ro].type) ELSE -1, Calls(S, t)>>
  ELSE <<t.ro, t.hs, t.sn, t.blk, t.wa, t.ba, t.af, Calls(S, t)>>
Mergeable(t) == t.fr = <<>> /\ t.st # <<>>

NoShape(t) == [t EXCEPT !.sv = "", !.sh = "", !.st = [k \in DOMAIN t.st |-> [t.st[k] EXCEPT !.m = -1]]]
Bare(t) == [NoShape(t) EXCEPT !.hs = "", !.sn = "", !.wa = 0, !.ba = 0, !.af = ""]

TripDup(f, g, fuzzy, aggressive) ==
  LET S == ById(f.st)  R == ById(f.ro)
      DF == DatesOf(f)  DG == DatesOf(g)
      TF == ById(f.tr)  TG == ById(g.tr)
      Key(t) == TripKey(S, R, fuzzy, t)
      KF == [i \in DOMAIN TF |-> Key(TF[i])]
      KG == [i \in DOMAIN TG |-> Key(TG[i])]
      MF == {i \in DOMAIN TF : Mergeable(TF[i])}
      MG == {i \in DOMAIN TG : Mergeable(TG[i])}
      KeysF == {KF[i] : i \in MF}
      KeysG == {KG[i] : i \in MG}
      DatesF(k) == UNION {TripDates(f, DF, TF[i]) : i \in {j \in MF : KF[j] = k}}
      DatesG(k) == UNION {TripDates(g, DG, TG[i]) : i \in {j \in MG : KG[j] = k}}
  IN
  [ noNewTrips |-> DOMAIN TG \subseteq DOMAIN TF /\ UniqueIds(g.tr),
    others    |-> \A i \in DOMAIN TF \ MF : i \in DOMAIN TG /\
                    /\ [TG[i] EXCEPT !.sv = ""] = [TF[i] EXCEPT !.sv = ""]
                    /\ TripDates(g, DG, TG[i]) = TripDates(f, DF, TF[i]),
    survivors |-> \A i \in MG \cap MF :
                    IF fuzzy THEN Bare(TG[i]) = Bare(TF[i]) ELSE NoShape(TG[i]) = NoShape(TF[i]),
    shapes    |-> \A i \in MG \cap MF :
                    \/ TG[i].sh = TF[i].sh
                       /\ \A k \in DOMAIN TG[i].st \cap DOMAIN TF[i].st : TG[i].st[k].m = TF[i].st[k].m
                    \/ /\ TF[i].sh = ""
                       /\ \E j \in MF : KF[j] = KF[i] /\ TF[j].sh = TG[i].sh
                            /\ \A k \in DOMAIN TG[i].st \cap DOMAIN TF[j].st : TG[i].st[k].m = TF[j].st[k].m,
    attributes |-> \A i \in MG \cap MF : LET C == {j \in MF : KF[j] = KF[i]} IN
                    /\ TG[i].hs = TF[i].hs \/ (TF[i].hs = "" /\ \E j \in C : TF[j].hs = TG[i].hs)
                    /\ TG[i].sn = TF[i].sn \/ (TF[i].sn = "" /\ \E j \in C : TF[j].sn = TG[i].sn)
                    /\ TG[i].wa = TF[i].wa \/ (TF[i].wa # 1 /\ \E j \in C : TF[j].wa = TG[i].wa)
                    /\ TG[i].ba = TF[i].ba \/ (TF[i].ba # 1 /\ \E j \in C : TF[j].ba = TG[i].ba),
    served    |-> /\ \A k \in KeysF : DatesF(k) # {} => k \in KeysG /\ DatesG(k) = DatesF(k)
                  /\ \A k \in KeysG : k \in KeysF /\ DatesG(k) \subseteq DatesF(k),
    onceADay  |-> \A i, j \in MG : i # j /\ KG[i] = KG[j] =>
                    /\ TripDates(g, DG, TG[i]) \cap TripDates(g, DG, TG[j]) = {}
                    /\ TripDates(g, DG, TG[i]) # {}
                    /\ ~aggressive,
    transfers |-> SameBag(g.tf, TfOf(f, g)),
    attributions |-> \A x \in Range(g.at) : \E y \in Range(f.at) :
                      /\ [x EXCEPT !.tr = ""] = [y EXCEPT !.tr = ""]
                      /\ \/ x.tr = y.tr
                         \/ x.tr \in DOMAIN TG /\ y.tr \in DOMAIN TF /\ KG[x.tr] = KF[y.tr],
    attributionsKept |-> \A y \in Range(f.at) :
                      (y.tr = "" \/ y.tr \in DOMAIN TG) => y \in Range(g.at),
    services  |-> /\ \A t \in Range(g.tr) : t.sv \in DOMAIN DG
                  /\ \A s \in Range(g.sv) : WellFormedService(s)
                  /\ Ids(f.sv) \subseteq Ids(g.sv),
    frame     |-> Frame(f, g, {"tr", "tf", "at", "sv"}) ]
=============================================================================
