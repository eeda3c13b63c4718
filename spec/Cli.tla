-------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* What one call of the program does as seen from outside: exit status,    *)
(* messages, files - for valid input, for input with one flaw, and for     *)
(* wrong use; and what is left of a flawed feed when errors are tolerated. *)
(* a.mode: "run", "validate", "usage" or "misuse"                          *)
(* a.flaw.kind:                                                            *)
(*   none                                                                  *)
(*   hard    a row which cannot be used                                    *)
(*   soft    a value of an optional field which cannot be used             *)
(*   text    an empty mandatory text                                       *)
(*   null    a stop at (0, 0)                                              *)
(*   dup     a row twice (the last one of its table)                       *)
(*   stray   a stop time or frequency of a trip which does not exist       *)
(*   nest    the files are in a folder inside of the ZIP file              *)
(*   missing there is no feed                                              *)
(***************************************************************************)
EXTENDS Gtfs

Tolerated(a) ==
  LET k == a.flaw.kind  val == a.mode = "validate" IN
  CASE k = "none" -> TRUE
    [] k \in {"hard", "dup", "stray"} -> a.drop /\ ~val
    [] k = "soft" -> (a.drop \/ a.default) /\ ~val
    [] k = "text" -> a.text # "" \/ (a.drop /\ ~val)
    [] k = "null" -> ~a.nullCheck \/ (a.drop /\ ~val)
    [] k = "nest" -> a.fixZip
    [] OTHER -> FALSE

RemoveAt(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
OneLess(q, r) == \E k \in DOMAIN q : r = RemoveAt(q, k)
OneOther(q, r) == Len(q) = Len(r) /\ \E k \in DOMAIN q : \A j \in DOMAIN q \ {k} : q[j] = r[j]
Whole(f, g) == (\A n \in AllTables : TableSame(f, g, n)) /\ g.xst = <<>> /\ g.xfr = <<>>

\* the row is still there, with another value; all else is the same
OwnId == {"ag", "st", "ro", "sv", "tr", "sh", "pw", "lv", "fa"}
Defaulted(f, g, w) ==
  LET n == w.table IN
  /\ Frame(f, g, {n}) /\ Sound(g)
  /\ Len(f[n]) = Len(g[n])
  /\ IF n \in OwnId
     THEN /\ Ids(f[n]) = Ids(g[n])
          /\ \A x \in Range(f[n]) : \A y \in Range(g[n]) : x.id = y.id =>
               CASE x.id # w.id -> IF n = "sv" THEN SvNorm(x) = SvNorm(y) ELSE x = y
                 [] w.part = "" -> TRUE
                 [] OTHER -> [x EXCEPT ![w.part] = 0] = [y EXCEPT ![w.part] = 0]
                             /\ OneOther(x[w.part], y[w.part])
     ELSE \E k \in DOMAIN g[n] : SameBag(RemoveAt(f[n], w.k), RemoveAt(g[n], k))

\* what depends on the flawed row, directly or indirectly
Hit(f, w) ==
  LET Z(n) == IF w.table = n /\ w.part = "" THEN {w.id} ELSE {}
      AG == Z("ag")
      RO == Z("ro") \cup {r.id : r \in {x \in Range(f.ro) : x.ag \in AG}}
      LV == Z("lv")
      S1 == Z("st") \cup {s.id : s \in {x \in Range(f.st) : x.lvl \in LV}}
      S2 == S1 \cup {s.id : s \in {x \in Range(f.st) : x.par \in S1}}
      ST == S2 \cup {s.id : s \in {x \in Range(f.st) : x.par \in S2}}
      \* a service lives on as long as its calendar or a date of it is left
      SV == IF w.table # "sv" THEN {}
            ELSE {x.id : x \in {y \in Range(f.sv) : y.id = w.id /\
                   IF w.part = "cal" THEN y.ex = <<>> ELSE y.cal = 0 /\ Len(y.ex) = 1}}
      SH == Z("sh")
      TR == Z("tr") \cup {t.id : t \in {x \in Range(f.tr) :
                             x.ro \in RO \/ x.sv \in SV \/ x.sh \in SH}}
      FA == Z("fa") \cup {x.id : x \in {y \in Range(f.fa) : y.ag \in AG}}
  IN [ag |-> AG, ro |-> RO, lv |-> LV, st |-> ST, sv |-> SV, sh |-> SH, tr |-> TR, fa |-> FA,
      pw |-> Z("pw")]
Dropped(f, g, w) ==
  LET h == Hit(f, w)
      own(n, x) == w.table = n /\ w.part = "" /\ w.k > 0 /\ x = f[n][w.k]
      keep(n) == {x \in Range(f[n]) : x.id \notin h[n]}
      \* what names a dropped row in an optional field may be left, without it
      Cut(t, u) == /\ [t EXCEPT !.st = 0] = [u EXCEPT !.st = 0]
                   /\ u.st = SelectSeq(t.st, LAMBDA c : c.s \notin h.st \ Ids(g.st))
      Same(n, E(_, _)) ==
        /\ UniqueIds(g[n]) /\ Ids(g[n]) \subseteq Ids(f[n])
        /\ \A x \in keep(n) : \E y \in Range(g[n]) : y.id = x.id /\
             (IF w.table = n /\ w.part # "" /\ w.id = x.id THEN E(x, y)
              ELSE IF n = "sv" THEN SvNorm(x) = SvNorm(y)
              ELSE IF n = "tr" THEN Cut(x, y)
              ELSE x = y)
      Part(x, y) == /\ [x EXCEPT ![w.part] = 0] = [y EXCEPT ![w.part] = 0]
                    /\ OneLess(x[w.part], y[w.part])
      CalPart(x, y) == IF w.part = "cal" THEN y.cal = 0 /\ SameBag(x.ex, y.ex)
                       ELSE /\ [x EXCEPT !.ex = 0] = [y EXCEPT !.ex = 0]
                            /\ Len(y.ex) = Len(x.ex) - 1 /\ Range(y.ex) \subseteq Range(x.ex)
      NoPart(x, y) == FALSE
      tfIn == {x \in Range(f.tf) : /\ {x.fs, x.ts} \cap h.st = {} /\ {x.fr, x.tr} \cap h.ro = {}
                                  /\ {x.ft, x.tt} \cap h.tr = {} /\ ~own("tf", x)}
      pwIn == {x \in Range(f.pw) : {x.f, x.t} \cap h.st = {} /\ x.id \notin h.pw}
      flIn == {x \in Range(f.fl) : x.fa \notin h.fa /\ x.ro \notin h.ro /\ ~own("fl", x)}
      atIn == {x \in Range(f.at) : /\ x.ag \notin h.ag /\ x.ro \notin h.ro /\ x.tr \notin h.tr
                                  /\ ~own("at", x)}
  IN
  /\ Sound(g)
  /\ w.part = "" /\ w.table \in OwnId => w.id \notin Ids(g[w.table])
  /\ Ids(g.sv) \cap h.sv = {}
  /\ \A n \in {"ag", "ro", "st", "lv", "fa"} : Same(n, NoPart)
  /\ Same("sv", CalPart) /\ Same("tr", Part) /\ Same("sh", Part)
  /\ tfIn \subseteq Range(g.tf) /\ Len(g.tf) <= Len(f.tf)
  /\ pwIn \subseteq Range(g.pw) /\ Ids(g.pw) \subseteq Ids(f.pw)
  /\ flIn \subseteq Range(g.fl) /\ Len(g.fl) <= Len(f.fl)
  /\ atIn \subseteq Range(g.at) /\ Len(g.at) <= Len(f.at)
  /\ TableSame(f, g, "fi")

Left(f, g, a) ==
  LET w == a.flaw IN
  CASE w.kind \in {"none", "nest"} -> Whole(f, g)
    [] w.kind = "null" -> IF a.nullCheck THEN Dropped(f, g, w) ELSE Whole(f, g)
    [] w.kind = "soft" -> IF a.default THEN Defaulted(f, g, w) ELSE Dropped(f, g, w)
    [] w.kind = "text" -> IF a.text = "" THEN Dropped(f, g, w)
                          ELSE /\ Defaulted(f, g, w)
                               /\ w.table = "st" => ById(g.st)[w.id].name = a.text
    [] w.kind = "hard" -> Dropped(f, g, w)
    [] w.kind = "dup" -> Whole([f EXCEPT ![w.table] = SubSeq(@, 1, Len(@) - 1)], g)
    [] w.kind = "stray" -> Whole(f, g)
    [] OTHER -> FALSE

Cli(f, g, a) ==
  LET good == a.mode # "misuse" /\ (a.mode = "usage" \/ Tolerated(a)) IN
  [ status  |-> (a.exit = 0) = good,
    output  |-> a.wrote = (a.mode = "run" /\ good),
    verdict |-> a.noErrors = (a.mode = "validate" /\ good),
    message |-> ~good => a.message,
    inputs  |-> a.inputsSame,
    result  |-> a.wrote => Left(f, g, a) ]
=============================================================================
