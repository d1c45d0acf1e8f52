-------------------------------- MODULE Fix --------------------------------
(* Fixed-point arithmetic, 10000 units per 1.0, within TLC's 32-bit integers: *)
(* factors of a product up to 4.6 in magnitude, arguments of Sqrt up to 21.   *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
One == 10000
Pi == 31416
HalfPi == 15708
FMul(a, b) == (a * b + 5000) \div 10000
FDiv(a, b) == IF b < 0 THEN (-a * 10000 + ((-b) \div 2)) \div (-b) ELSE (a * 10000 + (b \div 2)) \div b
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + (n \div x)) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
ISqrt(n) == IF n <= 0 THEN 0 ELSE Newton(n, IF n < 40000 THEN 200 + n \div 200 ELSE 46341)
FSqrt(a) == ISqrt(a * 10000)

(* sine and cosine by their series on -pi/4..pi/4, reduced by quadrants       *)
SinS(t) == LET u == FMul(t, t) IN
   FMul(t, One - FMul(u, 1667 - FMul(u, 83 - FMul(u, 2))))
CosS(t) == LET u == FMul(t, t) IN
   One - FMul(u, 5000 - FMul(u, 417 - FMul(u, 14)))
Quad(t) == (t + 7854) \div HalfPi
FSin(t) == LET k == Quad(t)  r == t - k * HalfPi IN
   CASE k % 4 = 0 -> SinS(r) [] k % 4 = 1 -> CosS(r) [] k % 4 = 2 -> -SinS(r) [] OTHER -> -CosS(r)
FCos(t) == LET k == Quad(t)  r == t - k * HalfPi IN
   CASE k % 4 = 0 -> CosS(r) [] k % 4 = 1 -> -SinS(r) [] k % 4 = 2 -> -CosS(r) [] OTHER -> SinS(r)

Dot3(a, b) == FMul(a[1], b[1]) + FMul(a[2], b[2]) + FMul(a[3], b[3])
Cross3(a, b) == <<FMul(a[2], b[3]) - FMul(a[3], b[2]),
                  FMul(a[3], b[1]) - FMul(a[1], b[3]),
                  FMul(a[1], b[2]) - FMul(a[2], b[1])>>
Dot4(a, b) == FMul(a[1], b[1]) + FMul(a[2], b[2]) + FMul(a[3], b[3]) + FMul(a[4], b[4])
Near3(a, b, tol) == \A i \in 1..3 : a[i] - b[i] <= tol /\ b[i] - a[i] <= tol
NearN(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] - b[i] <= tol /\ b[i] - a[i] <= tol
Neg(v) == [i \in 1..Len(v) |-> -v[i]]
(* quaternions (w, x, y, z) *)
QMul(a, b) == <<
   FMul(a[1], b[1]) - FMul(a[2], b[2]) - FMul(a[3], b[3]) - FMul(a[4], b[4]),
   FMul(a[1], b[2]) + FMul(a[2], b[1]) + FMul(a[3], b[4]) - FMul(a[4], b[3]),
   FMul(a[1], b[3]) - FMul(a[2], b[4]) + FMul(a[3], b[1]) + FMul(a[4], b[2]),
   FMul(a[1], b[4]) + FMul(a[2], b[3]) - FMul(a[3], b[2]) + FMul(a[4], b[1])>>
QConj(a) == <<a[1], -a[2], -a[3], -a[4]>>
(* rotation of a vector: v + 2 w (u x v) + 2 u x (u x v) *)
QRot(q, v) == LET u == <<q[2], q[3], q[4]>>
                  c == Cross3(u, v)
                  d == Cross3(u, c)
              IN [i \in 1..3 |-> v[i] + 2 * FMul(q[1], c[i]) + 2 * d[i]]
===========================================================================
