------------------------------- MODULE Frames -------------------------------
(***************************************************************************)
(* What each option may touch at all.  Whatever options are combined, and  *)
(* whether they were given one by one or by a short hand, the written feed *)
(* differs from the read one only where one of them has business.          *)
(* An effect is <<table, what>>; what is "gone" (rows may go), "new" (rows *)
(* may come) or the name of a field which may change in rows that stay     *)
(* (of trips also parts of "st": "measures", the distances of stop times *)
(* along the shape; "clamped", these may only be cut short; "times", the  *)
(* arrivals and departures; "stops", the ids of the stops they call at,  *)
(* but not what these say of themselves; and "shape", it may get one,     *)
(* with its measures, if it has none).                                    *)
(* args: opts        what is asked for                                    *)
(*       fuzzyStops  stops are merged whatever their names                *)
(***************************************************************************)
EXTENDS Gtfs

Gone(T) == T \X {"gone"}
New(T) == T \X {"new"}
In(n, fields) == {n} \X fields
SvRow == {"cal", "days", "s", "e", "ex"}
TripRefs == Gone({"tf", "at"})                \* what may name a trip that goes
PEffects == Gone({"st", "lv", "tf"}) \cup In("st", {"par", "lvl"}) \cup In("tr", {"stops"})
            \cup In("pw", {"f", "t"}) \cup In("tf", {"fs", "ts"})
MEffects == In("sh", {"p"}) \cup In("tr", {"clamped"})

Effects(o) ==
  CASE o = "O" -> Gone({"ag", "st", "ro", "sv", "tr", "sh", "tf", "at"})
    [] o = "A" -> Gone({"ag"}) \cup In("ro", {"ag"}) \cup In("fa", {"ag"}) \cup In("at", {"ag"})
    [] o = "P" -> PEffects
    [] o = "R" -> Gone({"ro", "fl", "tf"}) \cup In("tr", {"ro"}) \cup In("at", {"ro"})
    [] o = "C" -> Gone({"sv"}) \cup In("tr", {"sv"})
    [] o = "c" -> In("sv", SvRow)
    [] o = "S" -> Gone({"sh"}) \cup In("tr", {"sh"}) \cup MEffects
    [] o \in {"s", "m"} -> MEffects
    [] o = "r" -> MEffects \cup In("tr", {"measures"})
    [] o = "T" -> Gone({"tr"}) \cup New({"tr"}) \cup In("tr", {"fr", "times"}) \cup TripRefs
    [] o = "I" -> Gone({"tr"}) \cup In("tr", {"sv", "shape"}) \cup TripRefs \cup In("at", {"tr"})
                  \cup New({"sv"}) \cup In("sv", SvRow)
    [] o = "fuzzy" -> In("tr", {"hs", "sn", "wa", "ba", "af"})
    [] o = "N" -> In("sv", SvRow) \cup In("tr", {"sv"}) \cup Gone({"sv", "tr"}) \cup New({"sv", "tr"}) \cup TripRefs \cup New({"at"})
                  \cup In("at", {"tr", "id", "af"})
    [] o = "X" -> Gone({"sv"}) \cup New({"sv", "tr"}) \cup In("sv", SvRow) \cup In("tr", {"sv"})
    [] o = "E" -> In("sv", SvRow)
    [] o = "H" -> New({"st"}) \cup In("st", {"par"})
    [] o = "L" -> PEffects \cup In("st", {"plat"})
    [] o = "F" -> In("st", {"lat", "lon"})
    [] o = "recluster" -> Gone({"st", "tf"}) \cup New({"st"}) \cup In("st", {"par"})
                          \cup In("tf", {"fs", "ts"}) \cup In("pw", {"f", "t"})
    [] o = "snap" -> New({"st"}) \cup In("tr", {"stops"})
    [] o = "D" -> Gone({"sh"}) \cup In("tr", {"sh", "measures"})
    [] o = "single" -> Gone({"tr"}) \cup TripRefs
    [] o = "date" -> Gone({"tr", "sv"}) \cup In("sv", SvRow) \cup TripRefs
    [] o = "group" -> In("tr", {"st"})
    [] o = "fast" -> Gone({"tr"}) \cup TripRefs
    [] o = "types" -> In("ro", {"type"})
    [] o = "fillers" -> In("ro", {"attr"}) \cup In("st", {"attr"})
    [] o = "ids" -> In("at", {"id"})          \* all other kinds kept

WithId == {"ag", "st", "ro", "sv", "tr", "sh", "pw", "lv", "fa"}

RunFrame(f, g, args) ==
  LET All == UNION {Effects(o) : o \in Range(args.opts)}
      May(n, what) == <<n, what>> \in All
      Touched(n) == \E e \in All : e[1] = n
      Time(v) == IF May("tr", "times") /\ v >= 0 THEN 0 ELSE v
      \* what the stops of a feed say of themselves
      Says(S) == [i \in DOMAIN S |->
                    [k \in {"lt", "zone"} \cup (IF args.fuzzyStops THEN {} ELSE
                        {j \in {"name", "plat", "attr", "af"} : ~May("st", j)}) |-> S[i][k]]]
      VF == Says(ById(f.st))  VG == Says(ById(g.st))
      Calls(st, V) == [k \in DOMAIN st |->
                     [st[k] EXCEPT !.m = IF May("tr", "measures") \/ May("tr", "clamped") THEN 0 ELSE @,
                                   !.s = IF ~May("tr", "stops") THEN <<@>>
                                         ELSE IF @ \in DOMAIN V THEN <<V[@]>> ELSE <<>>,
                                   !.a = Time(@), !.d = Time(@)]]
      \* the trip, had it the shape it may get
      Given(x, y) == IF May("tr", "shape") /\ x.sh = "" /\ y.sh # "" /\ Len(x.st) = Len(y.st)
                     THEN [x EXCEPT !.sh = y.sh,
                                    !.st = [k \in DOMAIN @ |-> [@[k] EXCEPT !.m = y.st[k].m]]]
                     ELSE x
      Shapeless(x) == IF May("tr", "shape")
                      THEN [x EXCEPT !.sh = "", !.st = [k \in DOMAIN @ |-> [@[k] EXCEPT !.m = 0]]]
                      ELSE x
      Clamped(x, y) == May("tr", "measures") \/ May("tr", "st") \/
                       (Len(x) = Len(y) /\ \A k \in DOMAIN x :
                          y[k].m = x[k].m \/ (0 <= y[k].m /\ y[k].m < x[k].m))
      Row(n, x, V) == CASE n = "sv" -> SvNorm(x)
                     [] n = "tr" /\ ~May(n, "st") -> [x EXCEPT !.st = Calls(@, V)]
                     [] OTHER -> x
      Rest(n, x, V) == LET y == Row(n, x, V) IN [k \in {j \in DOMAIN y : ~May(n, j)} |-> y[k]]
      Fine(n) ==
        IF ~Touched(n) THEN TableSame(f, g, n)
        ELSE IF n \in WithId
        THEN LET A == ById(f[n])  B == ById(g[n]) IN
             /\ UniqueIds(g[n])
             /\ May(n, "gone") \/ DOMAIN A \subseteq DOMAIN B
             /\ May(n, "new") \/ DOMAIN B \subseteq DOMAIN A
             /\ IF May(n, "gone") /\ May(n, "new")
                THEN \* an id may be given anew, but never to something unheard of
                     CASE n = "tr" ->
                            LET same(x, V) == [Rest(n, Shapeless(x), V) EXCEPT !.id = ""] IN
                            {same(x, VG) : x \in Range(g[n])} \subseteq {same(x, VF) : x \in Range(f[n])}
                       [] n = "st" -> \* given anew: to a station, or to a copy of a stop at its shape
                            LET moved(x, V) == [k \in DOMAIN Rest(n, x, V) \ {"id", "par", "lvl", "lat", "lon"} |-> x[k]] IN
                            \A i \in DOMAIN A \cap DOMAIN B :
                              \/ A[i].lt = 1
                              \/ Rest(n, A[i], VF) = Rest(n, B[i], VG)
                              \/ B[i].lt = 1
                              \/ "snap" \in Range(args.opts) /\ B[i].lt = 0 /\
                                 \E x \in Range(f.st) : x.lt = 0 /\ moved(x, VF) = moved(B[i], VG)
                       [] OTHER -> TRUE
                ELSE \A i \in DOMAIN A \cap DOMAIN B :
                       LET a == IF n = "tr" THEN Given(A[i], B[i]) ELSE A[i] IN
                       /\ Rest(n, a, VF) = Rest(n, B[i], VG)
                       /\ n = "tr" => Clamped(a.st, B[i].st)
        ELSE LET A == {Rest(n, x, VF) : x \in Range(f[n])}  B == {Rest(n, x, VG) : x \in Range(g[n])} IN
             /\ May(n, "gone") \/ (A \subseteq B /\ Len(g[n]) >= Len(f[n]))
             /\ B \subseteq A
             /\ May(n, "new") \/ Len(g[n]) <= Len(f[n])
  IN
  [ agencies |-> Fine("ag"), stops |-> Fine("st"), routes |-> Fine("ro"), services |-> Fine("sv"),
    trips |-> Fine("tr"), shapes |-> Fine("sh"), transfers |-> Fine("tf"), pathways |-> Fine("pw"),
    levels |-> Fine("lv"), fares |-> Fine("fa"), fareRules |-> Fine("fl"),
    attributions |-> Fine("at"), feedInfo |-> Fine("fi"), stray |-> g.xst = <<>> /\ g.xfr = <<>> ]
=============================================================================
