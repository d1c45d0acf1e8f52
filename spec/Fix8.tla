-------------------------------- MODULE Fix8 --------------------------------
(* Fixed point with 1e8 units per 1.0 within 32-bit integers. Mul8: one       *)
(* factor at most 1.1 in magnitude, the other at most 19.                     *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Fix
One8 == 100000000
LOCAL Sg(a) == IF a < 0 THEN -1 ELSE 1
LOCAL Ab(a) == IF a < 0 THEN -a ELSE a
LOCAL MulP(a, b) == LET a1 == a \div 10000  a0 == a % 10000
                        b1 == b \div 10000  b0 == b % 10000 IN
   a1 * b1 + (((a1 * b0 + 5000) \div 10000) + ((a0 * b1 + 5000) \div 10000)) + ((a0 * b0) \div 100000000)
Mul8(a, b) == Sg(a) * Sg(b) * MulP(Ab(a), Ab(b))
(* n/d for integers |n| <= d * 20, d < 2^30 / 10: long division by digits     *)
RECURSIVE Digits(_, _, _, _)
LOCAL Digits(q, r, d, k) == IF k = 0 THEN q ELSE Digits(10 * q + (10 * r) \div d, (10 * r) % d, d, k - 1)
Ratio8(n, d) == Sg(n) * Digits(Ab(n) \div d, Ab(n) % d, d, 8)
(* sqrt(n/d) for 0 <= n <= d: Newton for 1/sqrt from its value to 1e-4        *)
RECURSIVE InvRoot(_, _, _)
LOCAL InvRoot(a, y, k) == IF k = 0 THEN y ELSE InvRoot(a, Mul8(y, (3 * One8 - Mul8(Mul8(a, y), y)) \div 2), k - 1)
RECURSIVE RatioRoot8(_, _)
RatioRoot8(n, d) == IF n = 0 THEN 0 ELSE IF n = d THEN One8 ELSE
   IF 16 * n < d THEN (RatioRoot8(16 * n, d) + 2) \div 4 ELSE
   LET a == Ratio8(n, d)
       s == ISqrt(a)                      \* sqrt(n/d) in 1e4 units
       y == (One8 \div s) * 10000 + ((One8 % s) * 10000) \div s
   IN Mul8(a, InvRoot(a, y, 2))
(* sine and cosine for |t| <= 6.2 pi                                          *)
Pi8 == 314159265
LOCAL Half == 157079633
LOCAL CosS8(x) == LET u == Mul8(x, x) IN
   One8 - Mul8(u, One8 - Mul8(u, One8 - Mul8(u, One8 - u \div 56) \div 30) \div 12) \div 2
LOCAL SinS8(x) == LET u == Mul8(x, x) IN
   Mul8(x, One8 - Mul8(u, One8 - Mul8(u, One8 - Mul8(u, One8 - u \div 72) \div 42) \div 20) \div 6)
LOCAL Qd(t) == (t + 78539816) \div Half
Sin8(t) == LET k == Qd(t)  r == t - k * Half IN
   CASE k % 4 = 0 -> SinS8(r) [] k % 4 = 1 -> CosS8(r) [] k % 4 = 2 -> -SinS8(r) [] OTHER -> -CosS8(r)
Cos8(t) == LET k == Qd(t)  r == t - k * Half IN
   CASE k % 4 = 0 -> CosS8(r) [] k % 4 = 1 -> -SinS8(r) [] k % 4 = 2 -> -CosS8(r) [] OTHER -> SinS8(r)
(* exp(-x) for 0 <= x <= 20: series after 5 halvings                          *)
RECURSIVE Sq8(_, _)
LOCAL Sq8(y, k) == IF k = 0 THEN y ELSE Sq8(Mul8(y, y), k - 1)
ExpNeg8(x) == IF x >= 1900000000 THEN 0 ELSE LET u == x \div 32 IN
   Sq8(One8 - Mul8(u, One8 - Mul8(u, One8 - Mul8(u, One8 - Mul8(u, One8 - u \div 5) \div 4) \div 3) \div 2), 5)
=============================================================================
