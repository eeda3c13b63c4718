------------------------------ MODULE Stations ------------------------------
(***************************************************************************)
(* The actions of gtfstidy which change stations, platforms and the stop   *)
(* times at them.                                                          *)
(***************************************************************************)
EXTENDS Cleanup

\* --ensure-stop-parents: a stop without a station gets its own
EnsureParents(f, g) ==
  LET SF == ById(f.st)  SG == ById(g.st)
      lone == {i \in DOMAIN SF : SF[i].lt = 0 /\ SF[i].par = ""}
      new == DOMAIN SG \ DOMAIN SF
  IN
  [ stops    |-> /\ UniqueIds(g.st) /\ DOMAIN SF \subseteq DOMAIN SG
                 /\ \A i \in DOMAIN SF \cap DOMAIN SG :
                      IF i \in lone THEN [SG[i] EXCEPT !.par = ""] = SF[i] ELSE SG[i] = SF[i],
    parents  |-> \A i \in lone \cap DOMAIN SG : SG[i].par \in new,
    stations |-> \A j \in new : /\ SG[j].lt = 1 /\ SG[j].par = ""
                               /\ \E i \in lone \cap DOMAIN SG :
                                    SG[i].par = j /\ SG[i].name = SG[j].name
                                      /\ SG[i].lat = SG[j].lat /\ SG[i].lon = SG[j].lon,
    own      |-> \A i, j \in lone \cap DOMAIN SG : SG[i].par = SG[j].par => i = j,
    frame    |-> Frame(f, g, {"st"}) ]

\* --drop-platform-for-parentless: platform codes only say something within a
\* station; stops which became equal by that are merged
NoPlatform(f) == [f EXCEPT !.st = [k \in DOMAIN f.st |->
                     IF f.st[k].par = "" THEN [f.st[k] EXCEPT !.plat = ""] ELSE f.st[k]]]
PlatformDrop(f, g, fuzzy) == StopDup(NoPlatform(f), g, fuzzy)

\* --fix-far-away-parents: a station more than 100 m from one of its stops moves
\* to the centre of its stops, if that is within 100 m of all of them
NearSure == 885 * 885
FarSure == 910 * 910
FarParents(f, g) ==
  LET SF == ById(f.st)  SG == ById(g.st)
      Kids(p) == {s \in Range(f.st) : s.par = p}
      Mid(K) == [lat |-> SumOver({s.id : s \in K}, [i \in {s.id : s \in K} |-> SF[i].lat]) \div Cardinality(K),
                 lon |-> SumOver({s.id : s \in K}, [i \in {s.id : s \in K} |-> SF[i].lon]) \div Cardinality(K)]
      Moved(p) == Abs(SG[p].lat - Mid(Kids(p)).lat) <= 2 /\ Abs(SG[p].lon - Mid(Kids(p)).lon) <= 2
      Stayed(p) == SG[p].lat = SF[p].lat /\ SG[p].lon = SF[p].lon
      far(p) == \E k \in Kids(p) : Dist2(k, SF[p]) > FarSure
      near(p) == \A k \in Kids(p) : Dist2(k, SF[p]) < NearSure
      good(p) == \A k \in Kids(p) : Dist2(k, Mid(Kids(p))) < NearSure
      bad(p) == \E k \in Kids(p) : Dist2(k, Mid(Kids(p))) > FarSure
  IN
  [ stops  |-> /\ UniqueIds(g.st) /\ DOMAIN SF = DOMAIN SG
               /\ \A i \in DOMAIN SF \cap DOMAIN SG :
                    [SG[i] EXCEPT !.lat = 0, !.lon = 0] = [SF[i] EXCEPT !.lat = 0, !.lon = 0],
    moved  |-> \A p \in DOMAIN SF \cap DOMAIN SG : Kids(p) # {} /\ far(p) /\ good(p) => Moved(p),
    stayed |-> \A p \in DOMAIN SF \cap DOMAIN SG : Kids(p) = {} \/ near(p) \/ bad(p) => Stayed(p),
    either |-> \A p \in DOMAIN SF \cap DOMAIN SG : Stayed(p) \/ Moved(p),
    frame  |-> Frame(f, g, {"st"}) ]

-----------------------------------------------------------------------------
(* --group-adj-stop-times: a vehicle waiting at a stop is one stop time. *)

\* y directly behind x is the same call
SameCall(x, y) ==
  /\ x.s = y.s /\ x.a = x.d /\ y.a = y.d
  /\ (x.a < 0) = (y.a < 0)
  /\ x.m = y.m /\ x.cp = y.cp /\ x.cd = y.cd
\* arrive as x, leave as y; everything else as x
Join(x, y) == [x EXCEPT !.d = y.d, !.pu = y.pu]
RECURSIVE Grouped(_, _, _)
Grouped(st, k, acc) ==
  IF k > Len(st) THEN acc
  ELSE IF k > 1 /\ SameCall(st[k - 1], st[k])
       THEN Grouped(st, k + 1, [acc EXCEPT ![Len(acc)] = Join(acc[Len(acc)], st[k])])
       ELSE Grouped(st, k + 1, Append(acc, st[k]))
GroupAdj(f, g) ==
  [ trips |-> UniqueIds(g.tr)
              /\ Range(g.tr) = {[t EXCEPT !.st = Grouped(t.st, 1, <<>>)] : t \in Range(f.tr)},
    frame |-> Frame(f, g, {"tr"}) ]
=============================================================================
