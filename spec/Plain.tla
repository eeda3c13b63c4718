------------------------------- MODULE Plain --------------------------------
(***************************************************************************)
(* Runs without any operation: what is read is what is written.  A few     *)
(* options change how the feed is read or written and nothing else; what   *)
(* they make of a feed is a function of the feed, stated here.             *)
(***************************************************************************)
EXTENDS Gtfs

\* --standard-route-types: the hierarchy of route types, flattened
StdType(x) ==
  CASE x \in (100..115) \cup {117, 300, 1503} -> 2
    [] x \in (200..209) \cup (700..717) \cup (1505..1507) \cup {1500, 1501} -> 3
    [] x \in (400..404) \cup {500, 600} -> 1
    [] x \in 900..906 -> 0
    [] x \in (1000..1021) \cup {1200, 1502} -> 4
    [] x \in {1300, 1301, 1304, 1306, 1307} -> 6
    [] x \in {116, 1302, 1303, 1400} -> 7
    [] x = 800 -> 11
    [] x = 405 -> 12
    [] x > 12 -> 2              \* what has no counterpart counts as rail
    [] OTHER -> x
\* --google-supported-route-types: sub-types which are not supported
GoogleType(x) ==
  CASE x \in {104} \cup (110..117) -> 100
    [] x \in 203..209 -> 200
    [] x = 300 -> 109
    [] x = 404 -> 400
    [] x \in {703, 716} \cup (705..714) -> 700
    [] x \in (901..906) \cup {1302} -> 900
    [] OTHER -> x
MappedType(x, types) ==
  CASE types = "standard" -> StdType(x) [] types = "google" -> GoogleType(x) [] OTHER -> x

\* what the feed must read like, given the reading options
AsRead(f, types, dropShapes) ==
  [f EXCEPT !.ro = [k \in DOMAIN f.ro |-> [f.ro[k] EXCEPT !.type = MappedType(f.ro[k].type, types)]],
            !.sh = IF dropShapes THEN <<>> ELSE f.sh,
            !.tr = IF dropShapes THEN [k \in DOMAIN f.tr |-> [f.tr[k] EXCEPT !.sh = ""]] ELSE f.tr]

\* --explicit-calendar: every service has a row in calendar.txt, and runs as before
ExplicitCalendar(f, g) ==
  LET D == DatesOf(f)  E == DatesOf(g) IN
  /\ Ids(f.sv) = Ids(g.sv)
  /\ UniqueIds(g.sv)
  /\ \A s \in Range(g.sv) : s.cal = 1
  /\ \A i \in Ids(f.sv) \cap Ids(g.sv) :
       LET s == ById(f.sv)[i]  u == ById(g.sv)[i] IN
       /\ D[i] = E[i]
       /\ Range(s.ex) = Range(u.ex)
       /\ (s.cal = 1) => SvNorm(s) = SvNorm(u)

\* args: types, drop (shapes), explicit; clean, the feed without its fill values
PlainRun(f, g, args) ==
  LET x == AsRead(args.clean, args.types, args.drop) IN
  [ n \in AllTables |->
      IF n = "sv" /\ args.explicit THEN ExplicitCalendar(f, g) ELSE TableSame(x, g, n) ]
=============================================================================
