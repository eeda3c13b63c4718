-------------------------------- MODULE Ids ---------------------------------
(***************************************************************************)
(* Ids: numbering (-i, -d), prefixes of merged feeds (--prefix, several    *)
(* inputs) and the ids kept or restored on demand (--keep-...-ids).        *)
(* Every such run is a renaming: there are maps from old to new ids under  *)
(* which the whole feed, with all its references, is the feed written.     *)
(* Old and new rows are matched by what they say apart from ids.           *)
(***************************************************************************)
EXTENDS Gtfs

Kinds == {"ag", "st", "ro", "sv", "tr", "sh", "lv", "fa", "pw"}
Key(n, x) ==
  CASE n \in {"ag", "lv", "fa", "pw"} -> <<x.attr, x.af>>
    [] n = "st" -> <<x.name, x.lt, x.lat, x.lon, x.plat, x.attr, x.af>>
    [] n = "ro" -> <<x.type, x.sort, x.cp, x.cd, x.attr, x.af>>
    [] n = "sv" -> <<x.cal, x.days, x.s, x.e, Range(x.ex)>>
    [] n = "sh" -> x.p
    [] n = "tr" -> <<x.hs, x.sn, x.dir, x.wa, x.ba, x.af, x.fr, [k \in DOMAIN x.st |-> [x.st[k] EXCEPT !.s = ""]]>>
Distinguishable(f) == \A n \in Kinds : Cardinality({Key(n, x) : x \in Range(f[n])}) = Len(f[n])

\* the only row of g which says the same, by id
Match(f, g, n) ==
  [i \in Ids(f[n]) |->
     LET x == ById(f[n])[i]
         C == {j \in DOMAIN g[n] : Key(n, g[n][j]) = Key(n, x)}
     IN IF Cardinality(C) = 1 THEN g[n][CHOOSE j \in C : TRUE].id ELSE "?" \o i]
MatchAll(f, g) == [n \in Kinds |-> Match(f, g, n)]

Ref(m, i) == IF i = "" THEN "" ELSE IF i \in DOMAIN m THEN m[i] ELSE "??" \o i
\* an agency may have no id, if there is no other
RefAg(m, i) == IF i = "" THEN (IF "" \in DOMAIN m THEN m[""] ELSE "") ELSE Ref(m, i)
\* whatever names no agency belongs to the only one
Owned(f) ==
  LET O(x) == IF x.ag = "" /\ Len(f.ag) = 1 THEN [x EXCEPT !.ag = f.ag[1].id] ELSE x
  IN [f EXCEPT !.ro = [k \in DOMAIN f.ro |-> O(f.ro[k])],
               !.fa = [k \in DOMAIN f.fa |-> O(f.fa[k])]]
\* the feed under new names; B and Z rename blocks and zones
RenameTrip(t, M, B) ==
  [t EXCEPT !.id = Ref(M.tr, t.id), !.ro = Ref(M.ro, t.ro), !.sv = Ref(M.sv, t.sv),
            !.sh = Ref(M.sh, t.sh), !.blk = Ref(B, t.blk),
            !.st = [k \in DOMAIN t.st |-> [t.st[k] EXCEPT !.s = Ref(M.st, t.st[k].s)]]]
Rename(f, M, B, Z) ==
  [f EXCEPT
    !.ag = [k \in DOMAIN f.ag |-> [f.ag[k] EXCEPT !.id = RefAg(M.ag, f.ag[k].id)]],
    !.st = [k \in DOMAIN f.st |-> LET s == f.st[k] IN
              [s EXCEPT !.id = Ref(M.st, s.id), !.par = Ref(M.st, s.par),
                        !.lvl = Ref(M.lv, s.lvl), !.zone = Ref(Z, s.zone)]],
    !.ro = [k \in DOMAIN f.ro |-> LET r == f.ro[k] IN
              [r EXCEPT !.id = Ref(M.ro, r.id), !.ag = RefAg(M.ag, r.ag)]],
    !.sv = [k \in DOMAIN f.sv |-> [f.sv[k] EXCEPT !.id = Ref(M.sv, f.sv[k].id)]],
    !.tr = [k \in DOMAIN f.tr |-> RenameTrip(f.tr[k], M, B)],
    !.sh = [k \in DOMAIN f.sh |-> [f.sh[k] EXCEPT !.id = Ref(M.sh, f.sh[k].id)]],
    !.tf = [k \in DOMAIN f.tf |-> LET x == f.tf[k] IN
              [x EXCEPT !.fs = Ref(M.st, x.fs), !.ts = Ref(M.st, x.ts), !.fr = Ref(M.ro, x.fr),
                        !.tr = Ref(M.ro, x.tr), !.ft = Ref(M.tr, x.ft), !.tt = Ref(M.tr, x.tt)]],
    !.pw = [k \in DOMAIN f.pw |-> LET x == f.pw[k] IN
              [x EXCEPT !.id = Ref(M.pw, x.id), !.f = Ref(M.st, x.f), !.t = Ref(M.st, x.t)]],
    !.lv = [k \in DOMAIN f.lv |-> [f.lv[k] EXCEPT !.id = Ref(M.lv, f.lv[k].id)]],
    !.fa = [k \in DOMAIN f.fa |-> LET x == f.fa[k] IN
              [x EXCEPT !.id = Ref(M.fa, x.id), !.ag = RefAg(M.ag, x.ag)]],
    !.fl = [k \in DOMAIN f.fl |-> LET x == f.fl[k] IN
              [x EXCEPT !.fa = Ref(M.fa, x.fa), !.ro = Ref(M.ro, x.ro),
                        !.o = Ref(Z, x.o), !.d = Ref(Z, x.d), !.c = Ref(Z, x.c)]],
    !.at = [k \in DOMAIN f.at |-> LET x == f.at[k] IN
              [x EXCEPT !.id = "", !.ro = Ref(M.ro, x.ro), !.ag = Ref(M.ag, x.ag),
                        !.tr = Ref(M.tr, x.tr)]]]
NoAtIds(f) == [f EXCEPT !.at = [k \in DOMAIN f.at |-> [f.at[k] EXCEPT !.id = ""]]]
Blocks(f) == {t.blk : t \in Range(f.tr)} \ {""}
Zones(f) == ({s.zone : s \in Range(f.st)} \cup UNION {{x.o, x.d, x.c} : x \in Range(f.fl)}) \ {""}
Same(S) == [i \in S |-> i]
IsRenaming(f, g, M, B, Z) ==
  LET h == Rename(Owned(f), M, B, Z)  k == NoAtIds(Owned(g)) IN
  [n \in AllTables |-> TableSame(h, k, n)]

-----------------------------------------------------------------------------
(* -i / -d: numbers from 1, in base 10 or 36, every kind for itself *)

Digit == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f","g","h","i","j",
           "k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
RECURSIVE Num(_, _)
Num(n, b) == IF n < b THEN Digit[n + 1] ELSE Num(n \div b, b) \o Digit[(n % b) + 1]

\* the one that is so named needs no match where it keeps its name
IdMin(f, g, base, keepSeq) ==
  LET keep == Range(keepSeq)
      M == [n \in Kinds |-> IF n \in keep THEN Same(Ids(f[n])) ELSE Match(f, g, n)]
      R == IsRenaming(f, g, M, Same(Blocks(f)), Same(Zones(f)))
      N(n) == {Num(k, base) : k \in 1..Len(f[n])}
  IN
  [ kept     |-> \A n \in keep \cap Kinds : Ids(g[n]) = Ids(f[n]),
    keptAttributions |-> "at" \in keep => SameBag([k \in DOMAIN f.at |-> <<f.at[k].id, f.at[k].attr>>],
                                                  [k \in DOMAIN g.at |-> <<g.at[k].id, g.at[k].attr>>]),
    numbered |-> \A n \in Kinds \ keep : Ids(g[n]) = N(n) /\ Len(g[n]) = Len(f[n]),
    numberedAttributions |-> "at" \notin keep =>
                               {x.id : x \in Range(g.at)} = N("at") /\ Len(g.at) = Len(f.at),
    tables   |-> Distinguishable(f) => \A n \in AllTables \ {"tr", "st", "at"} : R[n],
    trips    |-> Distinguishable(f) => R["tr"],
    stops    |-> Distinguishable(f) => R["st"],
    attributions |-> Distinguishable(f) => R["at"],
    sound    |-> Failing(Integrity(f)) = {} => Failing(Integrity(g)) = {} ]

-----------------------------------------------------------------------------
(* several inputs, and --prefix *)

Prefixed(f, p) ==
  LET P(S) == [i \in S |-> p \o i]
      M == [n \in Kinds |-> P(Ids(f[n]))]
      h == Rename(Owned(f), M, P(Blocks(f)), P(Zones(f)))
  IN [h EXCEPT !.at = [k \in DOMAIN h.at |->
                         [h.at[k] EXCEPT !.id = IF f.at[k].id = "" THEN "" ELSE p \o f.at[k].id]]]
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
\* the k-th of n inputs
PrefixOf(prefix, k, n) == IF n > 1 THEN prefix \o ToString(k - 1) \o "#" ELSE prefix
Union(fs, prefix) ==
  LET Q == [k \in DOMAIN fs |-> Prefixed(fs[k], PrefixOf(prefix, k, Len(fs)))]
  IN [n \in AllTables \cup {"xst", "xfr"} |-> Concat([k \in DOMAIN fs |-> Q[k][n]])]
\* prefixed id -> id in its input
Origin(fs, prefix, IdsOf(_)) ==
  LET Pairs == UNION {{<<PrefixOf(prefix, k, Len(fs)) \o i, i>> : i \in IdsOf(fs[k])} : k \in DOMAIN fs}
  IN [q \in {x[1] : x \in Pairs} |-> (CHOOSE x \in Pairs : x[1] = q)[2]]

\* the restored ids: each entity has its prefixed id or the one it came
\* with, the former only where the latter is in use; one without an id stays
\* without only if it is the only one
Restored(m, O) ==
  LET final == {m[i] : i \in DOMAIN m} IN
  /\ Cardinality(final) = Cardinality(DOMAIN m)
  /\ \A i \in DOMAIN m :
       \/ m[i] = O[i] /\ (O[i] = "" => Cardinality(DOMAIN m) = 1)
       \/ m[i] = i /\ (O[i] \in final \cup DOMAIN m \/ (O[i] = "" /\ Cardinality(DOMAIN m) > 1))

\* base: 0, or that of the numbers given to whatever need not be kept
Merge(f, g, others, prefix, keepSeq, base) ==
  LET fs == <<f>> \o others
      keep == Range(keepSeq)
      u == Union(fs, prefix)
      M == [n \in Kinds |-> IF n \in keep \/ base > 0 THEN Match(u, g, n) ELSE Same(Ids(u[n]))]
      N(n) == {prefix \o Num(k, base) : k \in 1..Len(u[n])}
      TG == ById(g.tr)
      TripsOf(b) == {t.id : t \in {y \in Range(u.tr) : y.blk = b}}
      \* what a block is called now
      Now(b) == {IF M.tr[i] \in DOMAIN TG THEN TG[M.tr[i]].blk ELSE "?" : i \in TripsOf(b)}
      B == [b \in Blocks(u) |-> IF "blk" \in keep THEN CHOOSE x \in Now(b) : TRUE ELSE b]
      R == IsRenaming(u, g, M, B, Same(Zones(u)))
      ok == Distinguishable(u)
  IN
  [ restored |-> ok => \A n \in keep \cap Kinds : Restored(M[n], Origin(fs, prefix, LAMBDA h : Ids(h[n]))),
    blocks   |-> ok /\ "blk" \in keep => Restored(B, Origin(fs, prefix, Blocks)),
    unkept   |-> \A n \in Kinds \ keep :
                   IF base > 0 THEN Ids(g[n]) = N(n) /\ Len(g[n]) = Len(u[n]) ELSE Ids(g[n]) = Ids(u[n]),
    attributionIds |-> IF base > 0 /\ "at" \notin keep
                       THEN {x.id : x \in Range(g.at)} = N("at") /\ Len(g.at) = Len(u.at)
                       ELSE SameBag([k \in DOMAIN u.at |-> <<u.at[k].id, u.at[k].attr>>],
                                    [k \in DOMAIN g.at |-> <<g.at[k].id, g.at[k].attr>>]),
    tables   |-> ok => \A n \in AllTables \ {"tr", "st", "at", "fl"} : R[n],
    fareRules |-> ok => R["fl"],
    trips    |-> ok => R["tr"],
    stops    |-> ok => R["st"],
    attributions |-> ok => R["at"],
    sound    |-> (\A k \in DOMAIN fs : Failing(Integrity(fs[k])) = {}) => Failing(Integrity(g)) = {} ]
=============================================================================
