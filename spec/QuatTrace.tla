----------------------------- MODULE QuatTrace -----------------------------
(* Recorded results of the metric functions of quaternions, in fixed point.   *)
EXTENDS Integers, Sequences, TLC, Vp, Fix
CONSTANTS Samples
VARIABLE i
All == Samples
Cur == All[i]
Tol == 12
Small(v) == \A k \in 1..Len(v) : Abs(v[k]) <= 11000
Unit(v) == Near(Dot4(v, v), One, Tol)
VecLen(q) == ISqrt(q[2] * q[2] + q[3] * q[3] + q[4] * q[4])
Len4(d) == ISqrt(d[1] * d[1] + d[2] * d[2] + d[3] * d[3] + d[4] * d[4])
HalfAngle(a, c, s) == /\ Near(FCos(a), c, Tol) /\ Near(FSin(a), s, Tol + 8 + (60000 \div Max2(s, 120)))

(* q: unnormalised input (times 1/4 so that it fits), out: its unit quaternion *)
Norm == LET n == FSqrt(Dot4(Cur.q, Cur.q)) IN
   /\ Clause("bounded", Small(Cur.out), Cur)
   /\ Small(Cur.out) =>
      /\ Clause("the normalised quaternion has length one", Unit(Cur.out), Cur)
      /\ Clause("the direction of the quaternion is kept (standardised: up to sign)",
            \E s \in (IF Cur.std THEN {1, -1} ELSE {1}) : \A k \in 1..4 :
               Near(FMul(n, Cur.out[k]), s * Cur.q[k], Tol), Cur)
      /\ Clause("the real part is not negative", Cur.std => Cur.out[1] >= 0, Cur)

Slerp ==
  LET theta == Cur.theta   \* arc between the ends
      ca == Dot4(Cur.a, Cur.b)
      d == [k \in 1..4 |-> Cur.a[k] - Cur.b[k]]
      half == Len4(d) \div 2   \* sine of half the arc
      ok == Small(Cur.out)
      d1 == [k \in 1..4 |-> Cur.a[k] - Cur.out[k]]
      d2 == [k \in 1..4 |-> Cur.b[k] - Cur.out[k]]
  IN /\ Clause("the given arc is the arc between the ends (harness)", Near(FCos(theta), ca, Tol) /\ Near(FSin(theta \div 2), half, Tol), Cur)
     /\ Clause("bounded", ok, Cur)
     /\ ok => /\ Clause("the interpolated quaternion has length one", Unit(Cur.out), Cur)
              /\ Clause("the way from the start is the fraction of the arc",
                    Near(Len4(d1), 2 * FSin(FMul(theta, Cur.t) \div 2), 2 * Tol), Cur)
              /\ Clause("the way to the end is the rest of the arc",
                    Near(Len4(d2), 2 * FSin(FMul(theta, One - Cur.t) \div 2), 2 * Tol), Cur)

Between ==   \* rotation from one direction to another
  LET ok == Small(Cur.out) IN
  /\ Clause("bounded", ok, Cur)
  /\ ok => /\ Clause("a rotation", Unit(Cur.out), Cur)
           /\ Clause("the rotation takes the start to the finish", Near3(QRot(Cur.out, Cur.a), Cur.b, 3 * Tol), Cur)
           /\ Clause("the axis is perpendicular to both",
                 LET u == <<Cur.out[2], Cur.out[3], Cur.out[4]>> IN
                 Near(Dot3(u, Cur.a), 0, 2 * Tol) /\ Near(Dot3(u, Cur.b), 0, 2 * Tol), Cur)
           /\ Clause("the angle is at most 180 degrees", Cur.out[1] >= -2, Cur)

(* next to the start (or next to opposite to it), magnified: d is what is     *)
(* between finish and +-start, u and c vector and real part, cm, pm and um the *)
(* real part, u . start and u magnified as d is                               *)
BetweenFine ==
  LET ok == Small(Cur.out) /\ Small(Cur.um) /\ Abs(Cur.cm) <= 11000 /\ Abs(Cur.pm) <= 11000
      u == <<Cur.out[2], Cur.out[3], Cur.out[4]>>
      across == IF Cur.opposite THEN Cross3(u, Cur.a) ELSE Cross3(Cur.um, Cur.a)
      moved == [k \in 1..3 |-> IF Cur.opposite
                  THEN 2 * FMul(Cur.pm, u[k]) + 2 * FMul(Cur.cm, across[k])
                  ELSE 2 * across[k]]
  IN /\ Clause("bounded", ok, Cur)
     /\ ok => Clause("the rotation takes the start to a finish beside it", Near3(moved, Cur.d, 60), Cur)

Angle == /\ Clause("the angle is between 0 and 2 pi", Cur.angle >= 0 /\ Cur.angle <= 2 * Pi + 8, Cur)
         /\ (Cur.angle >= 0 /\ Cur.angle <= 2 * Pi + 8) =>
            Clause("half the angle has the real part as cosine",
               Near(FCos(Cur.angle \div 2), Cur.q[1], Tol) /\ Near(FSin(Cur.angle \div 2), VecLen(Cur.q),
                   Tol + 8 + (60000 \div Max2(VecLen(Cur.q), 120))), Cur)

Judge == CASE Cur.kind = "norm" -> Norm [] Cur.kind = "slerp" -> Slerp
           [] Cur.kind = "between" -> Between [] Cur.kind = "angle" -> Angle
           [] Cur.kind = "beside" -> BetweenFine
Init == i = 1
Next == i <= Len(All) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Judged == i <= Len(All) => Judge
=============================================================================
