------------------------------ MODULE Cleanup -------------------------------
(***************************************************************************)
(* The actions of gtfstidy which remove or merge whole entities.           *)
(***************************************************************************)
EXTENDS Gtfs

-----------------------------------------------------------------------------
(* -O: exactly the entities nothing refers to are removed. *)

Boardable(R, t) ==
  LET r == R[t.ro] IN
  /\ \E k \in DOMAIN t.st : t.st[k].pu # 1 \/ t.st[k].cp # 1 \/ r.cp # 1
  /\ \E k \in DOMAIN t.st : t.st[k].do # 1 \/ t.st[k].cd # 1 \/ r.cd # 1

Orphan(f, g) ==
  LET R == ById(f.ro)  S == ById(f.st)
      trips == {t \in Range(f.tr) : t.ro \in DOMAIN R /\ Boardable(R, t)}
      tripIds == {t.id : t \in trips}
      calls == UNION {{t.st[k].s : k \in DOMAIN t.st} : t \in trips}
      Par(X) == {S[s].par : s \in X \cap DOMAIN S} \ {""}
      routesRun == {t.ro : t \in trips}
      tfs == SelectSeq(f.tf, LAMBDA x :
               /\ {x.fs, x.ts} \ {""} \subseteq calls \cup Par(calls)
               /\ {x.fr, x.tr} \ {""} \subseteq routesRun
               /\ {x.ft, x.tt} \ {""} \subseteq tripIds)
      \* a transfer counts as a reference before its trips are looked at
      tfRef == {x \in Range(f.tf) : /\ {x.fs, x.ts} \ {""} \subseteq calls \cup Par(calls)
                                    /\ {x.fr, x.tr} \ {""} \subseteq routesRun}
      s0 == calls \cup {s.id : s \in {x \in Range(f.st) : x.lt = 2}}
              \cup (UNION {{x.fs, x.ts} : x \in tfRef} \ {""})
              \cup UNION {{x.f, x.t} : x \in Range(f.pw)}
      stops == s0 \cup Par(s0) \cup Par(Par(s0))
      routes == routesRun \cup ({x.ro : x \in Range(f.fl)} \ {""})
      agencies == {r.ag : r \in {x \in Range(f.ro) : x.id \in routes}}
                    \cup ({x.ag : x \in Range(f.fa)} \ {""})
      shapes == {t.sh : t \in trips}
      services == {t.sv : t \in trips}
      Only(q, keep) == SelectSeq(q, LAMBDA x : x.id \in keep)
  IN
  [ trips     |-> SameBag(g.tr, Only(f.tr, tripIds)) /\ g.xst = <<>> /\ g.xfr = <<>>,
    stops     |-> SameBag(g.st, Only(f.st, stops)),
    routes    |-> SameBag(g.ro, Only(f.ro, routes)),
    agencies  |-> SameBag(g.ag, Only(f.ag, agencies)),
    shapes    |-> SameBag(g.sh, Only(f.sh, shapes)),
    services  |-> {SvNorm(s) : s \in Range(g.sv)}
                    = {SvNorm(s) : s \in Range(Only(f.sv, services))},
    transfers |-> SameBag(g.tf, tfs),
    attributions |-> SameBag(g.at, SelectSeq(f.at, LAMBDA x :
                       /\ x.tr = "" \/ x.tr \in tripIds
                       /\ x.ro = "" \/ x.ro \in routes
                       /\ x.ag = "" \/ x.ag \in agencies)),
    frame     |-> Frame(f, g, {"tr", "st", "ro", "ag", "sh", "sv", "tf", "at"}) ]

-----------------------------------------------------------------------------
(* Duplicates: entities with equal keys become one of them. *)

\* q before, r after, K(x) the key of a row of q: survivors are untouched rows,
\* every key survives, exactly once
Dedup(q, r, K(_)) ==
  /\ UniqueIds(r)
  /\ \A x \in Range(r) : x \in Range(q)
  /\ \A x \in Range(q) : \E y \in Range(r) : K(y) = K(x)
  /\ \A x, y \in Range(r) : K(x) = K(y) => x = y
\* a reference b replaces a: the same entity or a duplicate of it
SameKey(Q, K(_), a, b) ==
  a = b \/ (a \in DOMAIN Q /\ b \in DOMAIN Q /\ K(Q[a]) = K(Q[b]))
\* rows of two tables correspond one to one under P
Matched(q, r, P(_, _)) ==
  /\ Len(q) = Len(r)
  /\ \A x \in Range(q) : Cardinality({k \in DOMAIN q : P(q[k], x)})
                        = Cardinality({k \in DOMAIN r : P(r[k], x)})
  /\ \A y \in Range(r) : \E x \in Range(q) : P(x, y)

AgencyDup(f, g) ==
  LET A == ById(f.ag)
      K(a) == [a EXCEPT !.id = ""]
      Same(a, b) == SameKey(A, K, a, b)
      RF == ById(f.ro)  RG == ById(g.ro)  FF == ById(f.fa)  FG == ById(g.fa)
  IN
  [ agencies |-> Dedup(f.ag, g.ag, K),
    routes |-> /\ UniqueIds(g.ro) /\ DOMAIN RF = DOMAIN RG
               /\ \A i \in DOMAIN RF \cap DOMAIN RG :
                     /\ [RF[i] EXCEPT !.ag = ""] = [RG[i] EXCEPT !.ag = ""]
                     /\ Same(RF[i].ag, RG[i].ag) /\ RG[i].ag \in Ids(g.ag),
    fares  |-> /\ UniqueIds(g.fa) /\ DOMAIN FF = DOMAIN FG
               /\ \A i \in DOMAIN FF \cap DOMAIN FG :
                     /\ [FF[i] EXCEPT !.ag = ""] = [FG[i] EXCEPT !.ag = ""]
                     /\ Same(FF[i].ag, FG[i].ag) /\ FG[i].ag \in Ids(g.ag) \cup {""},
    attributions |-> /\ Matched(f.at, g.at, LAMBDA x, y :
                          /\ [x EXCEPT !.ag = ""] = [y EXCEPT !.ag = ""] /\ Same(x.ag, y.ag))
                     /\ \A y \in Range(g.at) : y.ag \in Ids(g.ag) \cup {""},
    frame  |-> Frame(f, g, {"ag", "ro", "fa", "at"}) ]

\* the fare rules of a route, without the route
RulesOf(f, r) ==
  LET rows == SelectSeq(f.fl, LAMBDA x : x.ro = r)
      k(x) == <<x.fa, x.o, x.d, x.c>>
  IN [v \in {k(x) : x \in Range(rows)} |-> Cardinality({i \in DOMAIN rows : k(rows[i]) = v})]

RouteDup(f, g) ==
  LET R == ById(f.ro)
      Rules == [i \in DOMAIN R |-> RulesOf(f, i)]
      K(r) == <<[r EXCEPT !.id = "", !.sort = ""], Rules[r.id]>>
      TF == ById(f.tr)  TG == ById(g.tr)
      Left == Ids(g.ro) \cup {""}
  IN
  [ routes |-> Dedup(f.ro, g.ro, K),
    trips  |-> /\ UniqueIds(g.tr) /\ DOMAIN TF = DOMAIN TG
               /\ \A i \in DOMAIN TF \cap DOMAIN TG :
                     /\ [TF[i] EXCEPT !.ro = ""] = [TG[i] EXCEPT !.ro = ""]
                     /\ SameKey(R, K, TF[i].ro, TG[i].ro) /\ TG[i].ro \in Ids(g.ro),
    rules  |-> SameBag(g.fl, SelectSeq(f.fl, LAMBDA x : x.ro \in Left)),
    attributions |-> /\ Matched(f.at, g.at, LAMBDA x, y :
                          /\ [x EXCEPT !.ro = ""] = [y EXCEPT !.ro = ""]
                          /\ SameKey(R, K, x.ro, y.ro))
                     /\ \A y \in Range(g.at) : y.ro \in Left,
    transfers |-> SameBag(g.tf, SelectSeq(f.tf, LAMBDA x : x.fr \in Left /\ x.tr \in Left)),
    frame  |-> Frame(f, g, {"ro", "tr", "fl", "at", "tf"}) ]

-----------------------------------------------------------------------------
(* -P: duplicate levels and stops *)

\* squared distance in square micro-degrees (1 udeg is about 0.111 m near the
\* equator); far apart counts as very far apart
Dist2(a, b) == LET y == Abs(a.lat - b.lat)  x == Abs(a.lon - b.lon)
               IN IF x > 20000 \/ y > 20000 THEN 2000000000 ELSE x * x + y * y
\* 5 m for stops and 50 m for stations, read generously and strictly
NearMax(lt) == IF lt = 1 THEN 460 * 460 ELSE 48 * 48
NearMin(lt) == IF lt = 1 THEN 430 * 430 ELSE 40 * 40

LevelKey(l) == [l EXCEPT !.id = ""]
LevelKeyAf(l) == [l EXCEPT !.id = "", !.af = ""]
LevelSame(LF, LG, a, b) ==
  IF a = "" \/ b = "" THEN a = b
  ELSE a \in DOMAIN LF /\ b \in DOMAIN LG /\ LevelKey(LF[a]) = LevelKey(LG[b])

\* what a stop says of itself
StopSelf(s, fuzzy) ==
  IF fuzzy THEN <<s.lt, s.zone>>
  ELSE [s EXCEPT !.id = "", !.par = "", !.lvl = "", !.lat = 0, !.lon = 0]
\* is the stop b after the action an acceptable stand-in for a before it?
\* (Lk[a]: the stops linked to a by steps within the threshold)
RECURSIVE Grow(_, _)
Grow(Adj, X) == LET Y == X \cup UNION {Adj[i] : i \in X} IN IF Y = X THEN X ELSE Grow(Adj, Y)
Linked(SF, fuzzy) ==
  LET Adj == [i \in DOMAIN SF |->
                {j \in DOMAIN SF : /\ StopSelf(SF[j], fuzzy) = StopSelf(SF[i], fuzzy)
                                   /\ Dist2(SF[i], SF[j]) <= NearMax(SF[i].lt)}]
  IN [i \in DOMAIN SF |-> Grow(Adj, {i})]
RECURSIVE StopSame(_, _, _, _, _, _, _)
StopSame(SF, SG, LF, LG, Lk, a, b) ==
  IF a = "" \/ b = "" THEN a = b
  ELSE /\ a \in DOMAIN SF /\ b \in DOMAIN SG
       /\ b \in Lk.to[a]
       /\ Lk.fuzzy \/ LevelSame(LF, LG, SF[a].lvl, SG[b].lvl)
       /\ a # SF[a].par
       /\ StopSame(SF, SG, LF, LG, Lk, SF[a].par, SG[b].par)

StopDup(f, g, fuzzy) ==
  LET SF == ById(f.st)  SG == ById(g.st)  LF == ById(f.lv)  LG == ById(g.lv)
      Lk == [to |-> Linked(SF, fuzzy), fuzzy |-> fuzzy]
      Same(a, b) == StopSame(SF, SG, LF, LG, Lk, a, b)
      LvSame(a, b) == IF fuzzy /\ a # "" /\ b # ""
                      THEN /\ a \in DOMAIN LF /\ b \in DOMAIN LG
                           /\ LevelKeyAf(LF[a]) = LevelKeyAf(LG[b])
                      ELSE LevelSame(LF, LG, a, b)
      TF == ById(f.tr)  TG == ById(g.tr)
      PF == ById(f.pw)  PG == ById(g.pw)
      TfImage(x, y) == /\ Same(x.fs, y.fs) /\ Same(x.ts, y.ts)
                       /\ [x EXCEPT !.fs = "", !.ts = "", !.attr = "", !.af = ""]
                          = [y EXCEPT !.fs = "", !.ts = "", !.attr = "", !.af = ""]
  IN
  [ levels   |-> IF fuzzy THEN Dedup(f.lv, g.lv, LevelKeyAf) ELSE Dedup(f.lv, g.lv, LevelKey),
    stops    |-> /\ UniqueIds(g.st) /\ DOMAIN SG \subseteq DOMAIN SF
                 /\ \A i \in DOMAIN SG \cap DOMAIN SF :
                      /\ [SG[i] EXCEPT !.par = "", !.lvl = ""] = [SF[i] EXCEPT !.par = "", !.lvl = ""]
                      /\ Same(i, i)
                      /\ LvSame(SF[i].lvl, SG[i].lvl),
    covered  |-> \A i \in DOMAIN SF : \E j \in DOMAIN SG : Same(i, j),
    distinct |-> \A i, j \in DOMAIN SG :
                   (/\ i # j /\ [SG[i] EXCEPT !.id = "", !.lat = 0, !.lon = 0]
                                = [SG[j] EXCEPT !.id = "", !.lat = 0, !.lon = 0])
                   => Dist2(SG[i], SG[j]) > NearMin(SG[i].lt),
    trips    |-> /\ UniqueIds(g.tr) /\ DOMAIN TF = DOMAIN TG
                 /\ \A i \in DOMAIN TF \cap DOMAIN TG :
                      /\ [TF[i] EXCEPT !.st = <<>>] = [TG[i] EXCEPT !.st = <<>>]
                      /\ Len(TF[i].st) = Len(TG[i].st)
                      /\ \A k \in DOMAIN TF[i].st \cap DOMAIN TG[i].st :
                           /\ [TF[i].st[k] EXCEPT !.s = ""] = [TG[i].st[k] EXCEPT !.s = ""]
                           /\ Same(TF[i].st[k].s, TG[i].st[k].s),
    pathways |-> /\ UniqueIds(g.pw) /\ DOMAIN PF = DOMAIN PG
                 /\ \A i \in DOMAIN PF \cap DOMAIN PG :
                      /\ [PF[i] EXCEPT !.f = "", !.t = ""] = [PG[i] EXCEPT !.f = "", !.t = ""]
                      /\ Same(PF[i].f, PG[i].f) /\ Same(PF[i].t, PG[i].t),
    transfers |-> /\ \A x \in Range(f.tf) : \E y \in Range(g.tf) : TfImage(x, y)
                  /\ \A y \in Range(g.tf) : \E x \in Range(f.tf) :
                       TfImage(x, y) /\ x.attr = y.attr /\ x.af = y.af
                  /\ \A y \in Range(g.tf) : {y.fs, y.ts} \subseteq DOMAIN SG \cup {""}
                  /\ Cardinality({[y EXCEPT !.attr = "", !.af = ""] : y \in Range(g.tf)}) = Len(g.tf),
    noDangling |-> /\ \A s \in Range(g.st) : s.par \in DOMAIN SG \cup {""} /\ s.lvl \in DOMAIN LG \cup {""}
                   /\ g.xst = <<>>,
    frame    |-> Frame(f, g, {"lv", "st", "tr", "pw", "tf"}) ]
=============================================================================
