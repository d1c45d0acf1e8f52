----------------------------- MODULE KVectorTrace -----------------------------
(* Incident directions sampled for a cell: grid points <<i, j, h>> (h = 1 north, *)
(* -1 south) of a square or of a hexagon with a tip on the first axis, and their *)
(* directions under the equal area maps of Rosca and De Graef.                   *)
(*                                                                               *)
(* "grid"  the directions belong to the grid points, no point is listed twice,   *)
(*         and every point of the full grid is the image of a listed one under   *)
(*         an operation of the crystal class that keeps the axis of the grid     *)
(* "region" the documented region of one of the numbered sampling schemes        *)
EXTENDS SpaceGroups, TLC, Vp
CONSTANTS Samples
VARIABLE t
All == Samples
Init == t = 1
Next == t <= Len(All) /\ t' = t + 1
Spec == Init /\ [][Next]_t
Rec == All[t]

Sg(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
N == Rec.n
(* ------------------------------ the two maps -------------------------------- *)
(* inside the hexagon with circumradius N: -1 outside, 0 one of its tips, 1      *)
(* inside or on an edge                                                          *)
InHex(i, j) == IF Abs(i) = N /\ j = 0 THEN 0
               ELSE IF 4 * j * j <= 3 * N * N /\ j * j <= 3 * (N - Abs(i)) * (N - Abs(i)) /\ Abs(i) <= N THEN 1 ELSE -1
InGrid(i, j) == IF Rec.hex THEN InHex(i, j) ELSE 1
(* 1e6 z of the upper hemisphere                                                 *)
SqZ(i, j) == LET m == Max2(Abs(i), Abs(j)) IN 1000000 - (m * m * 1000000) \div (N * N)
HexZ(i, j) == IF j * j >= 3 * i * i
   THEN 1000000 - ((40000 * j * j) \div (3 * N * N)) * 100
   ELSE LET f == 100 * (3 * i * i + j * j) + (34641 * Abs(i * j)) \div 100    \* 400 m^2
        IN 1000000 - ((f * 1000) \div (3 * N * N)) * 10
(* 1e4 times the azimuth of the first quadrant                                   *)
SqA(i, j) == LET a == Abs(i)  b == Abs(j) IN
   IF a = 0 /\ b = 0 THEN 0 ELSE IF a >= b THEN (7854 * b) \div a ELSE 15708 - (7854 * a) \div b
HexA(i, j) == LET a == Abs(i)  b == Abs(j) IN
   IF a = 0 /\ b = 0 THEN 0
   ELSE IF b * b >= 3 * a * a THEN 15708 - (a * 9069) \div b
   ELSE LET x == 1732 * a + 1000 * b  y == 1732 * b - 1000 * a IN
        5236 + (IF y >= 0 THEN (((y * 10000) \div x) * 9069) \div 10000 ELSE -(((-y * 10000) \div x) * 9069) \div 10000)
Close4(a, b) == Abs(a - b) <= 6
Dir(p) == LET i == p[1]  j == p[2]  h == p[3]  x == p[4]  y == p[5]  z == p[6]  a == p[7] IN
   /\ Abs(z - h * (IF Rec.hex THEN HexZ(i, j) ELSE SqZ(i, j))) <= (IF Rec.hex THEN 350 ELSE 5)
   /\ IF i = 0 /\ j = 0 THEN Abs(x) <= 5 /\ Abs(y) <= 5
      ELSE /\ Close4(a, IF Rec.hex THEN HexA(i, j) ELSE SqA(i, j))
           /\ (IF i = 0 THEN Abs(x) <= 5 ELSE Sg(x) = Sg(i)) /\ (IF j = 0 THEN Abs(y) <= 5 ELSE Sg(y) = Sg(j))
   /\ LET q == (x \div 100) * (x \div 100) + (y \div 100) * (y \div 100) + (z \div 100) * (z \div 100) IN Abs(q - 100000000) <= 60000
(* ------------------------------- the classes -------------------------------- *)
(* operations of the class (rows of nine) that keep the axis of the grid         *)
Keeps(r) == r[7] = 0 /\ r[8] = 0 /\ r[3] = 0 /\ r[6] = 0 /\ Abs(r[9]) = 1
Ops == {r \in Parts(Group(Hall(Rec.sg, 1))) : Keeps(r)}
(* twice the plane image of <<i, j>>, in 1e-3 of the grid; direct axes of the    *)
(* hexagonal lattices at 120 degrees, all other operations are Cartesian         *)
Image(r, i, j) == IF Rec.hex
   THEN <<(2 * r[1] - r[4]) * i * 1000 + ((2 * r[1] - r[4] + 4 * r[2] - 2 * r[5]) * 1732 * j) \div 3,
          1732 * r[4] * i + (r[4] + 2 * r[5]) * j * 1000>>
   ELSE <<2000 * (r[1] * i + r[2] * j), 2000 * (r[4] * i + r[5] * j)>>
Listed == {<<p[1], p[2], p[3]>> : p \in {Rec.pts[k] : k \in 1..Len(Rec.pts)}}
Full == {<<i, j, h>> \in (-N..N) \X (-N..N) \X {1, -1} : InGrid(i, j) = 1}
Round2(x) == LET y == x + 1000 IN IF y >= 0 THEN y \div 2000 ELSE -((-y + 1999) \div 2000)
Covered(q, S, O) == q \in S \/ \E r \in O : LET v == Image(r, q[1], q[2])  h == r[9] * q[3]  a == Round2(v[1])  b == Round2(v[2]) IN
   IF ~Rec.hex THEN <<a, b, h>> \in S
   ELSE \E da \in -1..1 : \E db \in -1..1 :
      <<a + da, b + db, h>> \in S /\ Abs(2000 * (a + da) - v[1]) <= 2100 /\ Abs(2000 * (b + db) - v[2]) <= 2100
(* --------------------------- the numbered schemes --------------------------- *)
Both == {1, 3, 4, 5, 7, 10, 14, 15, 18}
HexScheme == {10, 12, 14, 15, 16, 17, 18, 19}
(* azimuth between 0/30 and 30/60/90/120 degrees; the pole is in every sector    *)
Over(i, j, lo) == IF lo = 0 THEN (j > 0 \/ (j = 0 /\ i >= 0)) ELSE j >= 0 /\ (i <= 0 \/ 3 * j * j >= i * i)
Under(i, j, hi) == j >= 0 /\ CASE hi = 30 -> i >= 0 /\ 3 * j * j <= i * i
                             [] hi = 60 -> i >= 0 /\ j * j <= 3 * i * i
                             [] hi = 90 -> i >= 0
                             [] OTHER -> i >= 0 \/ j * j >= 3 * i * i
Sector(i, j, lo, hi) == (i = 0 /\ j = 0) \/ (Over(i, j, lo) /\ Under(i, j, hi))
Region(s, i, j) == CASE s \in {1, 2} -> TRUE [] s = 3 -> i >= 0 [] s = 4 -> j >= 0 [] s \in {5, 6} -> i >= 0 /\ j >= 0
                     [] s = 8 -> i >= 0 /\ Abs(j) <= i [] s \in {7, 9} -> i >= 0 /\ j >= 0 /\ j <= i
                     [] s \in {10, 12} -> Sector(i, j, 0, 120) [] s \in {14, 16} -> Sector(i, j, 30, 90)
                     [] s \in {15, 17} -> Sector(i, j, 0, 60) [] OTHER -> Sector(i, j, 0, 30)
Wanted(s) == {<<i, j, h>> \in (-N..N) \X (-N..N) \X (IF s \in Both THEN {1, -1} ELSE {1}) : InGrid(i, j) = 1 /\ Region(s, i, j)}
(* ------------------------------------------------------------------------------ *)
Judge == t > Len(All) \/ LET S == TLCEval(Listed) IN
   /\ Clause("every grid point at most once", Cardinality(S) = Len(Rec.pts), [id |-> Rec.id])
   /\ Clause("grid points within the grid", \A p \in S : p[1] \in -N..N /\ p[2] \in -N..N /\ p[3] \in {1, -1} /\ InGrid(p[1], p[2]) >= 0, [id |-> Rec.id])
   /\ Clause("directions of the grid points", \A k \in 1..Len(Rec.pts) : Dir(Rec.pts[k]),
             [id |-> Rec.id, bad |-> LET B == {k \in 1..Len(Rec.pts) : ~Dir(Rec.pts[k])} IN IF B = {} THEN <<>> ELSE Rec.pts[CHOOSE k \in B : TRUE]])
   /\ IF Rec.kind = "region"
      THEN Clause("region of the scheme", {q \in S : InGrid(q[1], q[2]) = 1} = Wanted(Rec.scheme),
                  [id |-> Rec.id, missing |-> Cardinality(Wanted(Rec.scheme) \ S), extra |-> Cardinality({q \in S : InGrid(q[1], q[2]) = 1} \ Wanted(Rec.scheme))])
      ELSE LET O == TLCEval(Ops) IN
           /\ Clause("one asymmetric unit is sampled", Cardinality(S) <= (Rec.units * Cardinality(Full)) \div Cardinality(O) + 4 * N + 4,
                     [id |-> Rec.id, listed |-> Cardinality(S), full |-> Cardinality(Full), ops |-> Cardinality(O)])
           /\ LET Bad == TLCEval({q \in Full : ~Covered(q, S, O)}) IN
                Clause("every direction is equivalent to a sampled one", Bad = {}, [id |-> Rec.id, uncovered |-> Cardinality(Bad), first |-> IF Bad = {} THEN <<>> ELSE CHOOSE q \in Bad : TRUE])
Judged == Judge
=============================================================================
