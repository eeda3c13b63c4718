------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* The actions of gtfstidy which measure, simplify and merge shapes.       *)
(* Geometry is integer geometry on micro-degrees: all feeds lie near the   *)
(* equator, where 1 udeg is 0.1113 m in both directions.  Thresholds are   *)
(* read with a margin (1 m is 8.98 udeg).                                  *)
(***************************************************************************)
EXTENDS Gtfs

RECURSIVE SqrtIn(_, _, _)
SqrtIn(n, lo, hi) == IF lo >= hi THEN lo
                     ELSE LET m == (lo + hi + 1) \div 2
                          IN IF m * m <= n THEN SqrtIn(n, m, hi) ELSE SqrtIn(n, lo, m - 1)
ISqrt(n) == SqrtIn(n, 0, 46340)      \* largest r with r*r <= n

\* a * b / c for 0 <= b <= c, without leaving 32 bits
MulDiv(a, b, c) == IF c > 40000 THEN (a \div (c \div 100)) * (b \div 100)
                   ELSE (a \div c) * b + ((a % c) * b) \div c

\* is the distance of p from the segment a-b at most e?
Within(p, a, b, e) ==
  LET dx == b.x - a.x  dy == b.y - a.y
      px == p.x - a.x  py == p.y - a.y
      qx == p.x - b.x  qy == p.y - b.y
      Small(u, v) == Abs(u) <= e /\ Abs(v) <= e /\ u * u + v * v <= e * e
      dot == px * dx + py * dy
      len2 == dx * dx + dy * dy
  IN IF dx = 0 THEN Abs(px) <= e /\ IF p.y < Min({a.y, b.y}) THEN Small(px, p.y - Min({a.y, b.y}))
                                    ELSE IF p.y > Max({a.y, b.y}) THEN Small(px, p.y - Max({a.y, b.y}))
                                    ELSE TRUE
     ELSE IF dy = 0 THEN Abs(py) <= e /\ IF p.x < Min({a.x, b.x}) THEN Small(py, p.x - Min({a.x, b.x}))
                                    ELSE IF p.x > Max({a.x, b.x}) THEN Small(py, p.x - Max({a.x, b.x}))
                                    ELSE TRUE
     ELSE IF dot < 0 THEN Small(px, py)
     ELSE IF dot > len2 THEN Small(qx, qy)
     ELSE Abs(px * dy - py * dx) <= e * (ISqrt(len2) + 1)
NearLine(p, line, e) ==
  IF Len(line) = 1 THEN Within(p, line[1], line[1], e)
  ELSE \E k \in 1..(Len(line) - 1) : Within(p, line[k], line[k + 1], e)

Place(p) == <<p.y, p.x>>
\* the distance along the shape up to each point, in udeg
RECURSIVE Along(_, _)
Along(line, k) ==
  IF k = 1 THEN 0
  ELSE LET dx == line[k].x - line[k - 1].x  dy == line[k].y - line[k - 1].y
       IN Along(line, k - 1) +
            (IF dx = 0 THEN Abs(dy) ELSE IF dy = 0 THEN Abs(dx) ELSE ISqrt(dx * dx + dy * dy))
Measured(p) == p.m >= 0
FullyMeasured(line) == \A k \in DOMAIN line : Measured(line[k])
Unmeasured(line) == \A k \in DOMAIN line : ~Measured(line[k])
Monotone(line) == \A k \in 1..(Len(line) - 1) : line[k].m <= line[k + 1].m
\* a usable measurement: it grows somewhere between two different places
Usable(line) == \E i, j \in DOMAIN line :
                  /\ i < j /\ Measured(line[i]) /\ Measured(line[j])
                  /\ line[i].m < line[j].m /\ Along(line, i) < Along(line, j)
Close2(a, b, scale, tol) == Abs(a - b) <= tol + scale

\* measurement of shape line (before) as line2 (after)
MeasureOk(line, line2) ==
  LET n == Len(line)
      A == [k \in 1..n |-> Along(line, k) \div 10]      \* units of 10 udeg
      K == {k \in 1..n : Measured(line[k])}
  IN
  CASE Unmeasured(line) ->
        \* metres along the shape; 10 udeg are 1.1132 m
        \A k \in 1..n : Abs(line2[k].m - 1112 * A[k]) <= 20 + 10 * A[k]
    [] Usable(line) ->
        /\ FullyMeasured(line2) /\ Monotone(line2)
        /\ \A k \in K : line2[k].m = line[k].m
        \* between two measured points: proportional to the distance
        /\ \A k \in (1..n) \ K :
             LET L == {j \in K : j < k}  H == {j \in K : j > k} IN
             L # {} /\ H # {} =>
               LET i == Max(L)  j == Min(H) IN
               A[i] < A[j] =>
                 Abs(line2[k].m - line[i].m - MulDiv(line[j].m - line[i].m, A[k] - A[i], A[j] - A[i]))
                   <= 6 + (line[j].m - line[i].m) \div 200
    [] OTHER -> \* no unit to go by: measured in metres, kept or dropped as a whole
        \/ line2 = line
        \/ Unmeasured(line2)
        \/ FullyMeasured(line2) /\ Monotone(line2)

LastM(line) == line[Len(line)].m

\* the trips after measuring: a stop may not lie beyond the end of its shape
ClampedTrips(f, g) ==
  LET TF == ById(f.tr)  TG == ById(g.tr)  SG == ById(g.sh) IN
  /\ UniqueIds(g.tr) /\ DOMAIN TF = DOMAIN TG
  /\ \A i \in DOMAIN TF \cap DOMAIN TG :
       /\ [TF[i] EXCEPT !.st = <<>>] = [TG[i] EXCEPT !.st = <<>>]
       /\ Len(TF[i].st) = Len(TG[i].st)
       /\ \A k \in DOMAIN TF[i].st \cap DOMAIN TG[i].st :
            LET x == TF[i].st[k]  y == TG[i].st[k] IN
            /\ [x EXCEPT !.m = 0] = [y EXCEPT !.m = 0]
            /\ \/ y.m = x.m
               \/ /\ TG[i].sh \in DOMAIN SG
                  /\ x.m > LastM(SG[TG[i].sh].p) /\ y.m = LastM(SG[TG[i].sh].p)

\* -m: holes in the measurement of shapes are filled
ShapeMeasure(f, g) ==
  LET SF == ById(f.sh)  SG == ById(g.sh) IN
  [ shapes  |-> UniqueIds(g.sh) /\ DOMAIN SF = DOMAIN SG,
    points  |-> \A i \in DOMAIN SF \cap DOMAIN SG :
                  [k \in DOMAIN SF[i].p |-> [SF[i].p[k] EXCEPT !.m = 0]]
                    = [k \in DOMAIN SG[i].p |-> [SG[i].p[k] EXCEPT !.m = 0]],
    measure |-> \A i \in DOMAIN SF \cap DOMAIN SG :
                  Len(SF[i].p) = Len(SG[i].p) => MeasureOk(SF[i].p, SG[i].p),
    trips   |-> ClampedTrips(f, g),
    within  |-> \A t \in Range(g.tr) : t.sh \in DOMAIN SG =>
                  \A k \in DOMAIN t.st : FullyMeasured(SG[t.sh].p) => t.st[k].m <= LastM(SG[t.sh].p),
    frame   |-> Frame(f, g, {"sh", "tr"}) ]

-----------------------------------------------------------------------------
\* positions of the points of line2 in line, taken in order, or <<>>
\* (measures which say nothing, like equal ones, need not be kept)
RECURSIVE Embed(_, _, _, _, _)
Embed(line, line2, i, j, us) ==
  IF j > Len(line2) THEN <<>>
  ELSE IF i > Len(line) THEN <<0>>
  ELSE IF Place(line[i]) = Place(line2[j]) /\ line[i].af = line2[j].af
          /\ (us /\ Measured(line[i]) => line[i].m = line2[j].m)
       THEN <<i>> \o Embed(line, line2, i + 1, j + 1, us)
       ELSE Embed(line, line2, i + 1, j, us)

\* -s: points are dropped only where the shape stays within 1 m
Simplified(line, line2) ==
  LET e == Embed(line, line2, 1, 1, Usable(line)) IN
  /\ Len(line2) >= 1 /\ 0 \notin Range(e) /\ Len(e) = Len(line2)
  /\ Place(line2[1]) = Place(line[1])
  /\ Place(line2[Len(line2)]) = Place(line[Len(line)])
  /\ \A k \in 1..(Len(line) - 1) :
       \E j \in 1..(Len(line2) - 1) : Within(line[k], line2[j], line2[j + 1], 10)
ShapeMin(f, g) ==
  LET SF == ById(f.sh)  SG == ById(g.sh) IN
  [ shapes  |-> UniqueIds(g.sh) /\ DOMAIN SF = DOMAIN SG,
    points  |-> \A i \in DOMAIN SF \cap DOMAIN SG :
                  Len(SF[i].p) > 1 => Simplified(SF[i].p, SG[i].p),
    single  |-> \A i \in DOMAIN SF \cap DOMAIN SG : Len(SF[i].p) = 1 => Len(SG[i].p) = 1,
    straight |-> \A i \in DOMAIN SF \cap DOMAIN SG :
                  LET p == SF[i].p  n == Len(p) IN
                  (n > 2 /\ \A k \in 2..(n - 1) : Within(p[k], p[1], p[n], 7)) => Len(SG[i].p) = 2,
    sequence |-> \A s \in Range(g.sh) : \A k \in 1..(Len(s.p) - 1) : s.p[k].q < s.p[k + 1].q,
    trips   |-> ClampedTrips(f, g),
    frame   |-> Frame(f, g, {"sh", "tr"}) ]

-----------------------------------------------------------------------------
\* -S: shapes which run within 1 m of each other become one of them
Alike(line, line2, e) ==
  /\ Within(line[1], line2[1], line2[1], e)
  /\ Within(line[Len(line)], line2[Len(line2)], line2[Len(line2)], e)
  /\ \A k \in DOMAIN line : NearLine(line[k], line2, e)
  /\ \A k \in DOMAIN line2 : NearLine(line2[k], line, e)
Geo(line) == [k \in DOMAIN line |-> [line[k] EXCEPT !.q = 0, !.af = "", !.m = 0]]
\* does the shape come close to itself again? (then duplicates may be missed)
Simple(line) == \A i, j \in DOMAIN line : i # j => Place(line[i]) # Place(line[j])
\* lines along meridians and parallels, measured by their length: the same
\* way, wherever points were added on its straight parts?
Aligned(line) == \A k \in 1..(Len(line) - 1) : line[k].x = line[k + 1].x \/ line[k].y = line[k + 1].y
Proportional(line) == \A k \in DOMAIN line : line[k].m = Along(line, k)
Between(a, b, c) == \/ a.x = b.x /\ b.x = c.x /\ (b.y - a.y > 0) = (c.y - b.y > 0)
                    \/ a.y = b.y /\ b.y = c.y /\ (b.x - a.x > 0) = (c.x - b.x > 0)
Corners(line) == LET K == {1, Len(line)} \cup
                          {k \in 2..(Len(line) - 1) : ~Between(line[k - 1], line[k], line[k + 1])}
                 IN {<<Place(line[k]), line[k].m>> : k \in K}
SameWay(line, line2) ==
  /\ Len(line) > 1 /\ Len(line2) > 1
  /\ Aligned(line) /\ Aligned(line2) /\ Simple(line) /\ Simple(line2)
  /\ Proportional(line) /\ Proportional(line2)
  /\ Corners(line) = Corners(line2)
ShapeDup(f, g) ==
  LET SF == ById(f.sh)  SG == ById(g.sh)
      TF == ById(f.tr)  TG == ById(g.tr) IN
  [ survivors |-> /\ UniqueIds(g.sh) /\ DOMAIN SG \subseteq DOMAIN SF
                  /\ \A i \in DOMAIN SG \cap DOMAIN SF :
                       /\ [k \in DOMAIN SF[i].p |-> [SF[i].p[k] EXCEPT !.m = 0]]
                            = [k \in DOMAIN SG[i].p |-> [SG[i].p[k] EXCEPT !.m = 0]]
                       /\ FullyMeasured(SF[i].p) /\ Usable(SF[i].p) => SF[i].p = SG[i].p,
    covered   |-> \A i \in DOMAIN SF : \E j \in DOMAIN SG : Alike(SF[i].p, SF[j].p, 20),
    distinct  |-> \A i, j \in DOMAIN SG : i # j =>
                    ~(Len(SG[i].p) > 1 /\ Geo(SG[i].p) = Geo(SG[j].p) /\ Simple(SG[i].p)
                        /\ \A k \in DOMAIN SG[i].p : SG[i].p[k].m = SG[j].p[k].m),
    sameWay   |-> \A i, j \in DOMAIN SG : i # j => ~SameWay(SG[i].p, SG[j].p),
    trips     |-> /\ UniqueIds(g.tr) /\ DOMAIN TF = DOMAIN TG
                  /\ \A i \in DOMAIN TF \cap DOMAIN TG :
                       /\ [TF[i] EXCEPT !.sh = "", !.st = <<>>] = [TG[i] EXCEPT !.sh = "", !.st = <<>>]
                       /\ [k \in DOMAIN TF[i].st |-> [TF[i].st[k] EXCEPT !.m = 0]]
                            = [k \in DOMAIN TG[i].st |-> [TG[i].st[k] EXCEPT !.m = 0]],
    tripShapes |-> \A i \in DOMAIN TF \cap DOMAIN TG :
                     \/ TF[i].sh = TG[i].sh
                     \/ /\ TF[i].sh \in DOMAIN SF \ DOMAIN SG /\ TG[i].sh \in DOMAIN SG
                        /\ Alike(SF[TF[i].sh].p, SF[TG[i].sh].p, 20),
    stops     |-> \A i \in DOMAIN TF \cap DOMAIN TG :
                    (TF[i].sh \in DOMAIN SF /\ FullyMeasured(SF[TF[i].sh].p) /\ Usable(SF[TF[i].sh].p)) =>
                    \A k \in DOMAIN TF[i].st :
                      \/ TG[i].st[k].m = TF[i].st[k].m
                      \/ TF[i].st[k].m > LastM(SF[TF[i].sh].p) /\ TG[i].st[k].m = LastM(SF[TF[i].sh].p),
    within    |-> \A i \in DOMAIN TF \cap DOMAIN TG :
                    (/\ TG[i].sh \in DOMAIN SG /\ FullyMeasured(SG[TG[i].sh].p)
                     /\ TF[i].sh \in DOMAIN SF
                     /\ Usable(SF[TF[i].sh].p) \/ Unmeasured(SF[TF[i].sh].p)) =>
                       \A k \in DOMAIN TG[i].st : TG[i].st[k].m <= LastM(SG[TG[i].sh].p),
    frame     |-> Frame(f, g, {"sh", "tr"}) ]

-----------------------------------------------------------------------------
\* -r: stop times get their place along the shape of their trip
\* (decided exactly for shapes which run straight north)
North(line) == /\ Len(line) >= 2
               /\ \A k \in DOMAIN line : line[k].x = line[1].x
               /\ \A k \in 1..(Len(line) - 1) : line[k].y < line[k + 1].y
\* measure of latitude y on the northbound line
MeasureAt(line, y) ==
  LET k == IF y >= line[Len(line)].y THEN Len(line) - 1
           ELSE Max({1} \cup {j \in 1..(Len(line) - 1) : line[j].y <= y})
      len == line[k + 1].y - line[k].y
      d == IF y < line[k].y THEN 0 ELSE IF y > line[k + 1].y THEN len ELSE y - line[k].y
  IN line[k].m + MulDiv(line[k + 1].m - line[k].m, d, IF len = 0 THEN 1 ELSE len)
\* the plane turned so that the way d runs north: north, south, east, west
Turned(q, d) == CASE d = 1 -> q
                  [] d = 2 -> [q EXCEPT !.y = 0 - @]
                  [] d = 3 -> [q EXCEPT !.x = q.y, !.y = q.x]
                  [] OTHER -> [q EXCEPT !.x = q.y, !.y = 0 - q.x]
\* ways along parallels and meridians
AxisParallel(line) == \A k \in 1..(Len(line) - 1) : line[k].x = line[k + 1].x \/ line[k].y = line[k + 1].y
Gap(a, b) == Max({Abs(a.x - b.x), Abs(a.y - b.y)})
\* m is the measure of a place on the k-th leg of the way, about 250 m from at
OnLeg(line, k, m, at) ==
  LET a == line[k]  b == line[k + 1]
      len == Gap(a, b)
      dm == b.m - a.m
      d == IF dm <= 0 THEN 0
           ELSE IF dm > 40000 THEN (len * ((m - a.m) \div (dm \div 1000))) \div 1000
           ELSE MulDiv(len, m - a.m, dm)
      tol == 2300 + len \div 200 + (IF dm <= 0 THEN len ELSE (2 * len) \div dm)
      Step(u, v) == IF u < v THEN u + d ELSE IF u > v THEN u - d ELSE u
  IN /\ a.m <= m + 1 /\ m <= b.m + 1
     /\ Gap([x |-> Step(a.x, b.x), y |-> Step(a.y, b.y)], at) <= tol
\* do the calls (from the k-th) lie at different points of the way (from the q-th), one
\* after the other?
RECURSIVE PointByPoint(_, _, _, _)
PointByPoint(at, line, k, q) ==
  IF k > Len(at) THEN TRUE
  ELSE LET Q == {j \in q..Len(line) : Gap(line[j], at[k]) <= 1000} IN
       Q # {} /\ PointByPoint(at, line, k + 1, Min(Q) + 1)
StopMeasure(f, g) ==
  LET SF == ById(f.sh)  SG == ById(g.sh)  TF == ById(f.tr)  TG == ById(g.tr)
      ST == ById(f.st)
      Holes(t) == \E k \in DOMAIN t.st : t.st[k].m < 0
      Changed(i) == [k \in DOMAIN TF[i].st |-> TF[i].st[k].m] # [k \in DOMAIN TG[i].st |-> TG[i].st[k].m]
      At(x) == [x |-> ST[x.s].lon, y |-> ST[x.s].lat]
  IN
  [ shapes |-> /\ UniqueIds(g.sh) /\ DOMAIN SF = DOMAIN SG
               /\ \A i \in DOMAIN SF \cap DOMAIN SG :
                  /\ [k \in DOMAIN SF[i].p |-> [SF[i].p[k] EXCEPT !.m = 0]]
                       = [k \in DOMAIN SG[i].p |-> [SG[i].p[k] EXCEPT !.m = 0]]
                  /\ Len(SF[i].p) = Len(SG[i].p) => MeasureOk(SF[i].p, SG[i].p),
    trips  |-> /\ UniqueIds(g.tr) /\ DOMAIN TF = DOMAIN TG
               /\ \A i \in DOMAIN TF \cap DOMAIN TG :
                    /\ [TF[i] EXCEPT !.st = <<>>] = [TG[i] EXCEPT !.st = <<>>]
                    /\ [k \in DOMAIN TF[i].st |-> [TF[i].st[k] EXCEPT !.m = 0]]
                         = [k \in DOMAIN TG[i].st |-> [TG[i].st[k] EXCEPT !.m = 0]],
    complete |-> \A i \in DOMAIN TF \cap DOMAIN TG :
                   (TF[i].sh = "" \/ ~Holes(TF[i])) =>
                     \A k \in DOMAIN TF[i].st \cap DOMAIN TG[i].st :
                       \/ TG[i].st[k].m = TF[i].st[k].m
                       \/ TF[i].sh \in DOMAIN SG /\ TG[i].st[k].m = LastM(SG[TF[i].sh].p)
                            /\ TF[i].st[k].m > TG[i].st[k].m,
    monotone |-> \A i \in DOMAIN TF \cap DOMAIN TG :
                   (TF[i].sh # "" /\ Holes(TF[i]) /\ ~Holes(TG[i])) =>
                     /\ \A k \in 1..(Len(TG[i].st) - 1) : TG[i].st[k].m <= TG[i].st[k + 1].m
                     /\ TG[i].sh \in DOMAIN SG =>
                          LET p == SG[TG[i].sh].p IN
                          \A k \in DOMAIN TG[i].st : p[1].m <= TG[i].st[k].m /\ TG[i].st[k].m <= LastM(p) + 1,
    exact    |-> \A i \in DOMAIN TF \cap DOMAIN TG : \A d \in 1..4 :
                   LET p == IF TF[i].sh \in DOMAIN SG
                            THEN [k \in DOMAIN SG[TF[i].sh].p |-> Turned(SG[TF[i].sh].p[k], d)] ELSE <<>>
                       at == [k \in DOMAIN TF[i].st |-> Turned(At(TF[i].st[k]), d)]
                       Reach(r) == \A k \in DOMAIN at :
                          /\ Abs(at[k].x - p[1].x) <= r
                          /\ p[1].y - r <= at[k].y
                          /\ at[k].y <= p[Len(p)].y + r
                       InOrder == \A k \in 1..(Len(at) - 1) : at[k].y < at[k + 1].y
                   IN
                   (p # <<>> /\ Holes(TF[i]) /\ North(p) /\ FullyMeasured(p)) =>
                   /\ Reach(1500) /\ InOrder =>
                        \A k \in DOMAIN TG[i].st :
                          Abs(TG[i].st[k].m - MeasureAt(p, at[k].y)) <= 20 + LastM(p) \div 500
                   /\ ~Reach(3300) => ~Changed(i) \/ ~Holes(TF[i])
                        \/ \A k \in DOMAIN TF[i].st : TF[i].st[k].m = TG[i].st[k].m
                             \/ (TF[i].st[k].m > LastM(p) /\ TG[i].st[k].m = LastM(p)),
    \* a stop time gets the measure of a place close to its stop
    placed   |-> \A i \in DOMAIN TF \cap DOMAIN TG :
                   (/\ TF[i].sh \in DOMAIN SG /\ Holes(TF[i]) /\ ~Holes(TG[i])
                    /\ FullyMeasured(SG[TF[i].sh].p) /\ AxisParallel(SG[TF[i].sh].p)) =>
                   LET p == SG[TF[i].sh].p IN
                   \A k \in DOMAIN TG[i].st : \E j \in 1..(Len(p) - 1) :
                      OnLeg(p, j, TG[i].st[k].m, At(TG[i].st[k])),
    \* no trip is left out which follows its shape
    found    |-> \A i \in DOMAIN TF \cap DOMAIN TG :
                   (/\ TF[i].sh \in DOMAIN SG /\ Holes(TF[i]) /\ FullyMeasured(SG[TF[i].sh].p)
                    /\ LET p == SG[TF[i].sh].p IN
                       /\ Len(p) >= 2 /\ AxisParallel(p)
                       /\ \A k \in 1..(Len(p) - 1) : Gap(p[k], p[k + 1]) >= 2500
                       /\ PointByPoint([k \in DOMAIN TF[i].st |-> At(TF[i].st[k])], p, 1, 1)) =>
                   ~Holes(TG[i]),
    frame    |-> Frame(f, g, {"sh", "tr"}) ]
=============================================================================
