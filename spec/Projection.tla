----------------------------- MODULE Projection -----------------------------
(* Maps between the sphere and the plane, as relations in fixed point:        *)
(* the equal-area square, the two hemispheres side by side, the equal-area     *)
(* hexagon, and polar angles. Samples are recorded (plane point, unit vector)  *)
(* pairs of the real functions.                                               *)
EXTENDS Integers, Sequences, TLC, Vp, Fix
CONSTANTS Samples
VARIABLE i
All == Samples
Cur == All[i]
Tol == 14

Unit(p) == Near(FMul(p[1], p[1]) + FMul(p[2], p[2]) + FMul(p[3], p[3]), One, 8)
SameSide(a, b) == ~(a > 3 * Tol /\ b < -3 * Tol) /\ ~(a < -3 * Tol /\ b > 3 * Tol)

(* the square [-1,1]^2 and one hemisphere *)
SquareRel(s, p) ==
  LET ax == Abs(s[1])  ay == Abs(s[2])
      m == Max2(ax, ay)  k == Min2(ax, ay)
      big == IF ax >= ay THEN Abs(p[1]) ELSE Abs(p[2])
      sml == IF ax >= ay THEN Abs(p[2]) ELSE Abs(p[1])
      t == IF m = 0 THEN 0 ELSE FMul(7854, FDiv(k, m))
      inside == m <= One + 2
  IN /\ Clause("the plane point lies in the square", inside, Cur)
     /\ inside =>
        /\ Clause("areas are preserved: the square of the larger coordinate is 1 - |z|",
              Near(FMul(m, m), One - Abs(p[3]), Tol), Cur)
        /\ Clause("the smaller coordinate is proportional to the azimuth within the quadrant",
              Near(FMul(sml, FCos(t)), FMul(big, FSin(t)), Tol + 6), Cur)
        /\ Clause("the quadrant is kept", SameSide(s[1], p[1]) /\ SameSide(s[2], p[2]), Cur)

SideRel(s, p) ==
  LET north == <<2 * s[1] + One, s[2]>>
      south == <<2 * s[1] - One, s[2]>>
  IN IF p[3] > 2 THEN SquareRel(north, p)
     ELSE IF p[3] < -2 THEN SquareRel(south, p)
     ELSE SquareRel(IF s[1] <= 0 THEN north ELSE south, p)

(* regular hexagon, corners on the first axis at distance 1 *)
HexRel(s, p) ==
  LET x == Abs(s[2])  y == Abs(s[1])
      second == FMul(17321, y) > x
      xs == IF second THEN FMul(5000, x) + FMul(8660, y) ELSE x
      ys == IF second THEN FMul(5000, y) - FMul(8660, x) ELSE y
      t == IF xs = 0 THEN 0 ELSE FMul(9069, FDiv(ys, xs))
      a == IF second THEN t + 10472 ELSE t
      h == FSqrt(Max2(0, One - FMul(p[3], p[3])))
  IN /\ Clause("areas are preserved: z falls with the square of the distance from the edge's axis",
            Near(3 * (One - p[3]), 4 * FMul(xs, xs), 4 * Tol), Cur)
     /\ Clause("the azimuth within a sextant is proportional to the offset along the edge",
            Near(Abs(p[2]), FMul(h, FCos(a)), 3 * Tol) /\ Near(Abs(p[1]), FMul(h, FSin(a)), 3 * Tol), Cur)
     /\ Clause("the quadrant is kept", SameSide(s[1], p[1]) /\ SameSide(s[2], p[2]), Cur)

PolarRel(s, p) ==
  /\ Clause("z is the cosine of the declination", Near(p[3], FCos(s[1]), Tol), Cur)
  /\ Clause("x and y are the sine of the declination times cosine and sine of the azimuth",
        Near(p[1], FMul(FSin(s[1]), FCos(s[2])), Tol) /\ Near(p[2], FMul(FSin(s[1]), FSin(s[2])), Tol), Cur)
  /\ Clause("the declination is between 0 and pi", Cur.inp = "plane" \/ (s[1] >= 0 /\ s[1] <= Pi), Cur)

Judge ==
  /\ Clause("the vector is a unit vector", Unit(Cur.p), Cur)
  /\ CASE Cur.kind = "square" -> SquareRel(Cur.s, Cur.p)
       [] Cur.kind = "inverse" -> SquareRel(Cur.s, Cur.p) /\
             Clause("the inverse maps to the northern hemisphere", Cur.p[3] >= -2, Cur)
       [] Cur.kind = "side" -> SideRel(Cur.s, Cur.p)
       [] Cur.kind = "hexagon" -> HexRel(Cur.s, Cur.p)
       [] Cur.kind = "polar" -> PolarRel(Cur.s, Cur.p)

Init == i = 1
Next == i <= Len(All) /\ Judge /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
