----------------------------- MODULE Recluster ------------------------------
(***************************************************************************)
(* -E: stops of the same name close to each other get a common station.    *)
(* words: for every stop of f.st, the words of its name (TLC cannot look   *)
(* into strings).                                                          *)
(***************************************************************************)
EXTENDS Cleanup

\* the stop at the top of the station (or platform) a stop belongs to
Up(S, i) == IF i \notin DOMAIN S THEN i
            ELSE IF S[i].lt = 1 \/ S[i].par = "" THEN i ELSE S[i].par
Root(S, i) == Up(S, Up(S, i))

\* 75 m, read generously; 30 m and 100 m for what is decided for sure
Near75 == 700 * 700
Sure30 == 265 * 265
Apart100 == 910 * 910

Recluster(f, g, words) ==
  LET SF == ById(f.st)  SG == ById(g.st)
      Word == [i \in DOMAIN SF |-> Range(words[CHOOSE k \in DOMAIN f.st : f.st[k].id = i])]
      new == DOMAIN SG \ DOMAIN SF
      gone == DOMAIN SF \ DOMAIN SG
      Station(r) == r \in DOMAIN SG /\ SG[r].lt = 1
      TopF == [i \in DOMAIN SF |-> Root(SF, i)]
      TopG == [i \in DOMAIN SG |-> Root(SG, i)]
      Members == [r \in {TopF[i] : i \in DOMAIN SF} |-> {i \in DOMAIN SF : TopF[i] = r}]
      Kids(s) == (Members[s] \cap DOMAIN SG) \ {s}
      \* where a stop of f is now; "" if that cannot be seen
      Now == [i \in DOMAIN SF |->
                IF i \in DOMAIN SG THEN TopG[i]
                ELSE IF i \in DOMAIN Members /\ Kids(i) # {} THEN TopG[CHOOSE k \in Kids(i) : TRUE]
                ELSE ""]
      Cluster == [r \in {TopG[i] : i \in DOMAIN SG} |-> {i \in DOMAIN SF : Now[i] = r}]
      Alike(x, y) == Word[x] = {} \/ Word[y] = {} \/ Word[x] \cap Word[y] # {}
      Close(u, v) == \E x \in Members[u], y \in Members[v] :
                        Dist2(SF[x], SF[y]) <= Near75 /\ Alike(x, y)
      Tops(r) == {TopF[i] : i \in Cluster[r]}
      Lost == {s \in gone : Now[s] = ""}
      Via == [u \in Lost |-> {v \in Lost : u = v \/ Close(u, v)}]
      Chain(T) == LET Adj == [u \in T \cup Lost |-> {v \in T \cup Lost : u = v \/ Close(u, v)}]
                  IN T = {} \/ T \subseteq Grow(Adj, {CHOOSE u \in T : TRUE})
      \* groups which have to be one: the same name within 30 m and nobody else around
      Around == [u \in DOMAIN Members |->
                   {v \in DOMAIN Members : \E x \in Members[u], y \in Members[v] :
                       Dist2(SF[x], SF[y]) <= Apart100}]
      Spot(u) == UNION {Members[v] : v \in Grow(Around, {u})}
      Sure(K) == \A x, y \in K : SF[x].name = SF[y].name /\ Dist2(SF[x], SF[y]) <= Sure30
      Mid(K) == [lat |-> SumOver(K, [i \in K |-> SF[i].lat]) \div Cardinality(K),
                 lon |-> SumOver(K, [i \in K |-> SF[i].lon]) \div Cardinality(K)]
      Moved(a, b) ==
        IF a \in DOMAIN SG \/ a \notin DOMAIN SF THEN a = b
        ELSE IF Now[a] # "" THEN b = Now[a]
        ELSE Station(b)
      TfKey(x) == [x EXCEPT !.attr = "", !.af = ""]
      TfFits(x, y) == /\ [x EXCEPT !.fs = "", !.ts = ""] = [y EXCEPT !.fs = "", !.ts = ""]
                      /\ Moved(x.fs, y.fs) /\ Moved(x.ts, y.ts)
      PF == ById(f.pw)  PG == ById(g.pw)
  IN
  [ stops    |-> /\ UniqueIds(g.st)
                 /\ \A i \in DOMAIN SF : SF[i].lt # 1 => i \in DOMAIN SG
                 /\ \A i \in DOMAIN SF \cap DOMAIN SG :
                      IF SF[i].lt \in {0, 2, 3} THEN [SF[i] EXCEPT !.par = ""] = [SG[i] EXCEPT !.par = ""]
                      ELSE SF[i] = SG[i],
    parents  |-> \A i \in DOMAIN SF \cap DOMAIN SG :
                   /\ SF[i].par # "" => SG[i].par # ""
                   /\ SG[i].par # "" /\ SF[i].lt # 4 =>
                        Station(SG[i].par),
    together |-> \A i, j \in DOMAIN SF \cap DOMAIN SG : TopF[i] = TopF[j] => TopG[i] = TopG[j],
    new      |-> \A p \in new :
                   /\ p \in DOMAIN Cluster
                   /\ LET K == Cluster[p] IN
                      /\ SG[p].lt = 1 /\ SG[p].par = "" /\ Cardinality(K) > 1
                      /\ \A i \in K : SF[i].lt # 1
                      /\ \E i \in K : SF[i].name = SG[p].name
                      /\ Abs(SG[p].lat - Mid(K).lat) <= 12 /\ Abs(SG[p].lon - Mid(K).lon) <= 12,
    joined   |-> \A r \in DOMAIN Cluster : Cardinality(Tops(r)) > 1 => Station(r),
    near     |-> \A r \in DOMAIN Cluster : Chain(Tops(r)),
    \* what is gone went to a station close by, by way of others which are gone
    lost     |-> \A s \in Lost :
                   \E r \in DOMAIN Cluster : Station(r) /\
                     \E x \in Grow(Via, {s}), u \in Tops(r) : Close(x, u),
    sure     |-> \A u \in DOMAIN Members :
                   Sure(Spot(u)) => Cardinality({Now[i] : i \in Spot(u)} \ {""}) = 1,
    transfers |-> /\ Cardinality({TfKey(y) : y \in Range(g.tf)}) = Len(g.tf)
                  /\ \A y \in Range(g.tf) : \E x \in Range(f.tf) : TfFits(x, y)
                  /\ \A x \in Range(f.tf) : \E y \in Range(g.tf) : TfFits(TfKey(x), TfKey(y)),
    pathways |-> /\ UniqueIds(g.pw) /\ DOMAIN PF = DOMAIN PG
                 /\ \A i \in DOMAIN PF \cap DOMAIN PG :
                      /\ [PF[i] EXCEPT !.f = "", !.t = ""] = [PG[i] EXCEPT !.f = "", !.t = ""]
                      /\ Moved(PF[i].f, PG[i].f) /\ Moved(PF[i].t, PG[i].t),
    frame    |-> Frame(f, g, {"st", "tf", "pw"}) ]
=============================================================================
