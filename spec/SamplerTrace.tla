---------------------------- MODULE SamplerTrace ----------------------------
(* Samplings of the sphere, of rotations, and of fundamental zones.           *)
(* A grid sampling of a zone is the walk over all points of a full grid that   *)
(* keeps exactly the points inside: the machine below walks the grid of a run  *)
(* and the record says which grid points the real sample contains.             *)
EXTENDS FzTrace, SequencesExt
VARIABLES k, kept
svars == <<i, k, kept>>

Run == Cur   \* kind, l, grid, got (grid indices of the real sample)
Inside(p) ==   \* "in" | "out" | "edge"
  IF Run.kind = "dirzone" THEN Sector(Run.l, p, 6)
  ELSE LET ws == OrbitW(Run.l, p)
           rest == MaxSeq(<<0>> \o [j \in 1..Len(ws) |-> IF NearN(Grp[Run.l][j], <<One, 0, 0, 0>>, 2) THEN 0 ELSE ws[j]])
       IN IF p[1] > rest + 6 THEN "in" ELSE IF p[1] < rest - 6 THEN "out" ELSE "edge"
Zones == {"orizone", "dirzone"}
Points == IF Run.kind \in Zones THEN Len(Run.grid) ELSE 0
(* times the sample contains the grid point *)
Times(n) == Run.count[n]

Step == /\ i <= Len(All) /\ k < Points
        /\ k' = k + 1
        /\ kept' = kept + (IF Inside(Run.grid[k + 1]) = "in" THEN 1 ELSE 0)
        /\ UNCHANGED i
NextRun == /\ i <= Len(All) /\ k = Points
           /\ i' = i + 1 /\ k' = 0 /\ kept' = 0
SInit == i = 1 /\ k = 0 /\ kept = 0
SNext == Step \/ NextRun
SSpec == SInit /\ [][SNext]_svars

GridPoint ==
  (i <= Len(All) /\ k > 0 /\ k <= Points) =>
    LET s == Inside(Run.grid[k]) IN
    /\ Clause("every point of the grid inside the zone is sampled once", s = "in" => Times(k) = 1, [run |-> Run.id, point |-> Run.grid[k], times |-> Times(k)])
    /\ Clause("no point outside the zone is sampled", s = "out" => Times(k) = 0, [run |-> Run.id, point |-> Run.grid[k], times |-> Times(k)])
    /\ Clause("no point is sampled twice", Times(k) <= 1, [run |-> Run.id, point |-> Run.grid[k], times |-> Times(k)])
Whole ==
  (i <= Len(All) /\ Run.kind \in Zones /\ k = Points) =>
    /\ Clause("every sample is a point of the grid", Run.stray = 0, [run |-> Run.id, stray |-> Run.stray])
    /\ Clause("the sample has about the size asked for", Run.size * 100 >= Run.least /\ Run.size * 100 <= Run.most,
         [run |-> Run.id, size |-> Run.size, least |-> Run.least, most |-> Run.most])

(* --- spirals: consecutive points advance by fixed angles and equal areas     *)
(* the arguments are halved where they might exceed the products' range        *)
Turns2(p) == LET n == Len(p) IN
  Clause("every step turns by the golden angle",
          \A j \in 1..(n - 1) :
            LET a == p[j]  b == p[j + 1]
                ra == FSqrt(Max2(0, One - FMul(a[3], a[3])))  rb == FSqrt(Max2(0, One - FMul(b[3], b[3])))
                rr == FMul(ra, rb)
                \* 2 pi / golden ratio = 3.88322208
            IN /\ Near(FMul(a[1], b[1]) + FMul(a[2], b[2]), FMul(rr, FCos(38832)), 12)
               /\ Near(FMul(a[1], b[2]) - FMul(a[2], b[1]), FMul(rr, FSin(38832)), 12), [run |-> Run.id])

Spiral2 == \* on the sphere
  LET p == Run.p  n == Len(p)
      gap == IF n = 1 THEN 0 ELSE p[1][3] - p[n][3]
  IN /\ Clause("unit vectors", \A j \in 1..n : Near(Dot3(p[j], p[j]), One, 8), [run |-> Run.id])
     /\ Clause("equal areas between neighbours, from pole to pole",
          \A j \in 1..n : n > 1 => Near(p[j][3], p[1][3] - ((gap * (j - 1)) \div (n - 1)), 4), [run |-> Run.id])
     /\ Clause("the northern and southern halves mirror each other", Near(p[1][3], -p[n][3], 4), [run |-> Run.id])
     /\ Clause("the poles are nearly reached",
          n > 1 => LET cap == One - p[1][3] IN \* offset of the first point, in steps: cap/gap*(n-1)
                   cap >= 0 /\ (Run.mode = "avg" => Near(cap * (n - 1) * 100, 36 * gap, (4 * gap) + 500 * (n - 1))), [run |-> Run.id])
     /\ Turns2(p)

Turns3(q) ==
  LET n == Len(q)
      turn(x, y, u, v, ang, rr) == /\ Near(FMul(x, u) + FMul(y, v), FMul(rr, FCos(ang)), 14)
                                   /\ Near(FMul(x, v) - FMul(y, u), FMul(rr, FSin(ang)), 14)
  IN
  Clause("the two planes turn by 2 pi over sqrt 2 and over psi",
          \A j \in 1..(n - 1) :
            LET a == q[j]  b == q[j + 1]
                r(x, y) == FSqrt(FMul(x, x) + FMul(y, y))
                r1 == FMul(r(a[1], a[2]), r(b[1], b[2]))  r2 == FMul(r(a[3], a[4]), r(b[3], b[4]))
            IN \* angles measured from the second axis of the plane: (cos, sin)
               /\ turn(a[2], a[1], b[2], b[1], 44429, r1)
               /\ turn(a[4], a[3], b[4], b[3], 40966, r2), [run |-> Run.id])

Spiral3 == \* rotations: two spirals at once, with weights r^2 = (j - 1/2) / n and 1 - r^2
  LET q == Run.p  n == Len(q)
  IN /\ Clause("unit quaternions", \A j \in 1..n : Near(Dot4(q[j], q[j]), One, 10), [run |-> Run.id])
     /\ Clause("the first plane's share grows evenly",
          \A j \in 1..n : Near(FMul(q[j][1], q[j][1]) + FMul(q[j][2], q[j][2]), ((2 * j - 1) * 5000) \div n, 10), [run |-> Run.id])
     /\ Turns3(q)

(* the middle of a long spiral: half of the area or of the shares is behind    *)
Spiral2Mid == LET p == Run.p IN
  /\ Clause("unit vectors", \A j \in 1..Len(p) : Near(Dot3(p[j], p[j]), One, 8), [run |-> Run.id])
  /\ Clause("half of the area is behind the middle", \A j \in 1..Len(p) : Near(p[j][3], 0, 12), [run |-> Run.id])
  /\ Turns2(p)
Spiral3Mid == LET q == Run.p IN
  /\ Clause("unit quaternions", \A j \in 1..Len(q) : Near(Dot4(q[j], q[j]), One, 10), [run |-> Run.id])
  /\ Clause("the planes share the middle alike",
       \A j \in 1..Len(q) : Near(FMul(q[j][1], q[j][1]) + FMul(q[j][2], q[j][2]), 5000, 14), [run |-> Run.id])
  /\ Turns3(q)

(* --- random rotations: shares of regions of known measure                    *)
Share(P(_), n) == FoldLeft(LAMBDA acc, q : IF P(q) THEN acc + 1 ELSE acc, 0, Run.p)
(* counts within six deviations of n * num / den *)
Fair(c, n, num, den) == LET d == c * den - n * num IN   \* (c - n p)^2 <= 36 n p (1 - p)
   LET dev == d \div den IN dev * dev <= 36 * ((((n * num) \div den) * (den - num)) \div den) + 40
Random ==
  LET n == Len(Run.p)
      sgn == 1
      c(j, t) == Share(LAMBDA q : q[j] * q[j] >= t * 10000, n)
  IN /\ Clause("unit quaternions", \A j \in 1..n : Near(Dot4(Run.p[j], Run.p[j]), One, 10), [run |-> Run.id])
     /\ Clause("real parts are not negative", Run.half => \A j \in 1..n : Run.p[j][1] >= 0, [run |-> Run.id])
     \* a component of a uniform unit quaternion: P(c^2 <= 1/2) and P(c^2 <= 1/4)
     \* by the half sphere law (2/pi)(asin c + c sqrt(1 - c^2)): .8183 and .6090
     /\ Clause("every component follows the uniform law",
          \A j \in 1..4 : Fair(n - c(j, 5000), n, 818, 1000) /\ Fair(n - c(j, 2500), n, 609, 1000), [run |-> Run.id])
     /\ Clause("directions are balanced",
          \A j \in 1..4 : (j > 1 \/ ~Run.half) => Fair(Share(LAMBDA q : q[j] > 0, n), n, 1, 2), [run |-> Run.id])
     /\ Clause("pairs of components are independent in sign",
          \A j, m \in 2..4 : j < m => Fair(Share(LAMBDA q : q[j] * q[m] > 0, n), n, 1, 2), [run |-> Run.id])
     /\ Clause("two components share half of the norm evenly",
          \A j, m \in 1..4 : j < m => Fair(Share(LAMBDA q : q[j] * q[j] + q[m] * q[m] > 50000000, n), n, 1, 2), [run |-> Run.id])

(* --- the cube inscribed in the cubic zone (Rodrigues vectors)                *)
Edge == 4142
CubePair ==  \* c: cube point, r: Rodrigues vector of the zone
  LET c == Run.c  r == Run.r
      ac == <<Abs(c[1]), Abs(c[2]), Abs(c[3])>>
      m == MaxSeq(ac)  s == SumSeq(ac)  \* m + middle + min
      corner == FMul(14142, m) < s - m   \* towards a corner of the cube
      border == Near(FMul(14142, m), s - m, 8)
      f == IF m = 0 THEN One ELSE FDiv(FMul(s, Edge), m)
      want == [j \in 1..3 |-> FDiv(c[j], f)]
  IN Clause("the cube and the cubic zone correspond ray by ray, face to face and corner pyramids to the octahedral faces",
        \/ (~corner \/ border) /\ NearN(r, c, 6)
        \/ (corner \/ border) /\ NearN(r, want, 6), Run)

SJudge == (i <= Len(All) /\ k = 0) =>
  CASE Run.kind = "spiral2" -> Spiral2 [] Run.kind = "spiral3" -> Spiral3
    [] Run.kind = "spiral2mid" -> Spiral2Mid [] Run.kind = "spiral3mid" -> Spiral3Mid
    [] Run.kind = "random" -> Random [] Run.kind = "cube" -> CubePair [] OTHER -> TRUE
=============================================================================
