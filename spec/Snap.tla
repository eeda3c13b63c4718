-------------------------------- MODULE Snap --------------------------------
(***************************************************************************)
(* --snap-stops: a stop time whose stop lies more than 100 m off the shape *)
(* of its trip gets a copy of the stop which lies on the shape: at the     *)
(* place the stop time says (shape_dist_traveled), or else at the nearest. *)
(***************************************************************************)
EXTENDS Shapes, Cleanup

Off == 885          \* surely not more than 100 m off: up to here
Far == 915          \* surely more than 100 m off: from here

InHull(p, a, b, e) == /\ Min({a.x, b.x}) - e <= p.x /\ p.x <= Max({a.x, b.x}) + e
                     /\ Min({a.y, b.y}) - e <= p.y /\ p.y <= Max({a.y, b.y}) + e
On(p, line, e) == \E k \in 1..(Len(line) - 1) :
                     InHull(p, line[k], line[k + 1], e) /\ Within(p, line[k], line[k + 1], e)
Pt(s) == [x |-> s.lon, y |-> s.lat]
Toward(a, b, m, n) == IF a <= b THEN a + MulDiv(b - a, m, n) ELSE a - MulDiv(a - b, m, n)
\* the places of measure m on the line
Places(line, m) ==
  {[x |-> Toward(line[k].x, line[k + 1].x, m - line[k].m, line[k + 1].m - line[k].m),
    y |-> Toward(line[k].y, line[k + 1].y, m - line[k].m, line[k + 1].m - line[k].m)] :
     k \in {j \in 1..(Len(line) - 1) : /\ line[j].m < line[j + 1].m
                                       /\ line[j].m <= m /\ m <= line[j + 1].m}}
Apart(p, q, e) == Abs(p.x - q.x) > e \/ Abs(p.y - q.y) > e
                    \/ (p.x - q.x) * (p.x - q.x) + (p.y - q.y) * (p.y - q.y) > e * e

\* the stop s of a stop time at m becomes (or stays) the stop z
Snapped(line, m, s, z) ==
  LET p == Pt(s)  q == Pt(z)  P == IF m >= 0 /\ FullyMeasured(line) /\ Monotone(line) THEN Places(line, m) ELSE {}
      moved == z.id # s.id
      d == IF Dist2(s, z) >= 2000000000 THEN 0 ELSE ISqrt(Dist2(s, z))
  IN
  /\ moved => On(q, line, 4) /\ Apart(p, q, Off)
  /\ P # {} => \E w \in P : IF moved THEN ~Apart(q, w, 5) ELSE ~Apart(p, w, Far)
  /\ m < 0 \/ Unmeasured(line) =>
       IF moved THEN ~On(p, line, Off) /\ (d > 0 => ~On(p, line, d - 6 - d \div 100))
       ELSE On(p, line, Far)

Snap(f, g) ==
  LET SF == ById(f.st)  SG == ById(g.st)  H == ById(f.sh)  TF == ById(f.tr)  TG == ById(g.tr)
      new == DOMAIN SG \ DOMAIN SF
      Copy(s, z) == [z EXCEPT !.id = "", !.lat = 0, !.lon = 0] = [s EXCEPT !.id = "", !.lat = 0, !.lon = 0]
      Shaped(t) == t.sh \in DOMAIN H /\ Len(H[t.sh].p) > 1
  IN
  [ stops |-> /\ UniqueIds(g.st)
              /\ \A i \in DOMAIN SF : i \in DOMAIN SG /\ SF[i] = SG[i],
    used  |-> new \subseteq UNION {{x.s : x \in Range(t.st)} : t \in Range(g.tr)},
    trips |-> /\ UniqueIds(g.tr) /\ DOMAIN TF = DOMAIN TG
              /\ \A i \in DOMAIN TF \cap DOMAIN TG :
                   /\ [TF[i] EXCEPT !.st = <<>>] = [TG[i] EXCEPT !.st = <<>>]
                   /\ [k \in DOMAIN TF[i].st |-> [TF[i].st[k] EXCEPT !.s = ""]]
                        = [k \in DOMAIN TG[i].st |-> [TG[i].st[k] EXCEPT !.s = ""]],
    copies |-> \A i \in DOMAIN TF \cap DOMAIN TG :
                 \A k \in DOMAIN TF[i].st \cap DOMAIN TG[i].st :
                   LET a == TF[i].st[k].s  b == TG[i].st[k].s IN
                   a # b => /\ Shaped(TF[i]) /\ b \in new
                            /\ a \in DOMAIN SF /\ Copy(SF[a], SG[b]),
    place |-> \A i \in DOMAIN TF \cap DOMAIN TG : Shaped(TF[i]) =>
                \A k \in DOMAIN TF[i].st \cap DOMAIN TG[i].st :
                  LET a == TF[i].st[k].s  b == TG[i].st[k].s IN
                  a \in DOMAIN SF /\ b \in DOMAIN SG =>
                    Snapped(H[TF[i].sh].p, TF[i].st[k].m, SF[a], SG[b]),
    frame |-> Frame(f, g, {"st", "tr"}) ]
=============================================================================
