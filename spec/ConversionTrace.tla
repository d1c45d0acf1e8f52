-------------------------- MODULE ConversionTrace --------------------------
(* A recorded value in some representation, against the rotation it stands    *)
(* for: the unit quaternion q with non-negative real part and its angle w     *)
(* (checked). Fixed point 1e-4.                                               *)
EXTENDS Integers, Sequences, TLC, Vp, Fix
CONSTANTS Samples
VARIABLE i
All == Samples
Cur == All[i]
Tol == Cur.tol
Small(v, m) == \A k \in 1..Len(v) : Abs(v[k]) <= m
Vec(q) == <<q[2], q[3], q[4]>>
Len3(v) == ISqrt(v[1] * v[1] + v[2] * v[2] + v[3] * v[3])
Signs == IF Cur.q[1] <= Tol THEN {1, -1} ELSE {1}
Row(q, j) == LET e == [k \in 1..3 |-> IF k = j THEN One ELSE 0] IN QRot(QConj(q), e)

AngleOk == /\ Cur.w >= 0 /\ Cur.w <= Pi + 2 /\ Near(FCos(Cur.w \div 2), Cur.q[1], 6) /\ Near(FSin(Cur.w \div 2), Len3(Vec(Cur.q)), 6)

Qu(v) == /\ Clause("quaternion: of length one", Near(Dot4(v, v), One, 3 * Tol), Cur)
         /\ Clause("quaternion: the real part is not negative", v[1] >= -2, Cur)
         /\ Clause("quaternion: the rotation", \E s \in Signs : \A k \in 1..4 : Near(v[k], s * Cur.q[k], Tol), Cur)
Om(v) == Clause("matrix: the rotation", \A j \in 1..3 : Near3(<<v[3 * j - 2], v[3 * j - 1], v[3 * j]>>, Row(Cur.q, j), 3 * Tol), Cur)
Zh(v) == Clause("first two rows of the matrix", \A j \in 1..2 : Near3(<<v[3 * j - 2], v[3 * j - 1], v[3 * j]>>, Row(Cur.q, j), 3 * Tol), Cur)
Axis(n) == LET u == Vec(Cur.q)  l == Len3(u) IN
   /\ Clause("the axis is a unit vector", Near(Dot3(n, n), One, 3 * Tol), Cur)
   /\ Clause("the axis of the rotation", \E s \in Signs : \A k \in 1..3 : Near(FMul(n[k], l), s * u[k], Tol + 4), Cur)
Ax(v) == /\ Axis(<<v[1], v[2], v[3]>>)
         /\ Clause("the angle is from 0 to pi", v[4] >= -2 /\ v[4] <= Pi + 4, Cur)
         /\ Clause("the angle of the rotation", Near(v[4], Cur.w, 2 * Tol), Cur)
(* Rodrigues: axis and the tangent of half the angle, sent as cosine and sine *)
Ro(v) == /\ Axis(<<v[1], v[2], v[3]>>)
         /\ Clause("the tangent of half the angle", v[5] >= -2 /\ v[4] >= -2 /\ Near(v[4], Cur.q[1], Tol) /\ Near(v[5], Len3(Vec(Cur.q)), Tol), Cur)
HoSize(h, t) ==   \* h^3 = 3/4 (w - sin w)
   IF Cur.w <= One THEN Near(h, FMul(Cur.w, One - FDiv(FMul(Cur.w, Cur.w), 60 * One)) \div 2, t + 2)
   ELSE Near(FMul(h, FMul(h, h)), (3 * (Cur.w - FSin(Cur.w))) \div 4, 3 * FMul(FMul(h, h), t + 2) + 6)
Ho(v) == LET h == Len3(v)  u == Vec(Cur.q)  l == Len3(u) IN
   /\ Clause("homochoric: along the axis", \E s \in Signs : \A k \in 1..3 : Near(FMul(v[k], l), s * FMul(u[k], h), Tol + 4), Cur)
   /\ Clause("homochoric: its length for the angle", HoSize(h, Tol), Cur)
R2 == 14142
Max3(a, b, c) == Max2(a, Max2(b, c))
Cu(v) ==
   LET a == [k \in 1..3 |-> Abs(v[k])]
       b == Max3(a[1], a[2], a[3])
       u == Vec(Cur.q)  l == Len3(u)
       perms == {p \in {<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>} : a[p[1]] >= a[p[2]] /\ a[p[2]] >= a[p[3]]}
       dir(p) == LET m == a[p[2]]  s == a[p[3]]
                     t == IF m = 0 THEN 0 ELSE (FDiv(s, m) * 2618) \div 10000
                     c == FCos(t)  f == FDiv(3 * One - 2 * FMul(R2, c), FMul(R2, R2 - c))
                     x == FDiv(m, b)
                     z == One - FMul(FMul(x, x), f)
                     r == FMul(x, FSqrt(Max2(0, FMul(f, 2 * One - FMul(FMul(x, x), f)))))
                     den == FMul(R2, c) - One
                     num == FMul(R2, FSin(t))
                     n == ISqrt(den * den + num * num)
                 IN <<z, FMul(r, FDiv(den, n)), FMul(r, FDiv(num, n))>>
       sg(x, y) == IF x < 0 THEN -y ELSE y
       ct == Tol + (IF b > 500 THEN 20 ELSE 200)
   IN /\ Clause("cubochoric: inside the cube", b <= 10725 + Tol, Cur)
      /\ Clause("cubochoric: its size for the angle", HoSize(FMul(b, 12407), Tol + 2), Cur)
      /\ (b > 100 /\ b <= 11000) => Clause("cubochoric: its direction",
            \E p \in perms : LET d == dir(p) IN \E s \in Signs : \A k \in 1..3 : Near(FMul(sg(v[p[k]], d[k]), l), s * u[p[k]], ct), Cur)
Bu(v) == LET h == v[2] \div 2  c == FCos(h)  s == FSin(h)
             sg == (v[1] + v[3]) \div 2  d == (v[1] - v[3]) \div 2
             e == <<FMul(c, FCos(sg)), -FMul(s, FCos(d)), -FMul(s, FSin(d)), -FMul(c, FSin(sg))>> IN
   /\ Clause("Euler angles: within their ranges", /\ v[1] >= -4 /\ v[1] <= 2 * Pi + 4 /\ v[2] >= -4 /\ v[2] <= Pi + 4 /\ v[3] >= -4 /\ v[3] <= 2 * Pi + 4, Cur)
   /\ Clause("Euler angles: the rotation", \E g \in {1, -1} : \A k \in 1..4 : Near(e[k], g * Cur.q[k], 2 * Tol + 6), Cur)

Bound == CASE Cur.rep = "bu" -> 63000 [] Cur.rep = "ax" -> 33000 [] OTHER -> 15000
Judge ==
   /\ Clause("harness: the angle belongs to the rotation", AngleOk, Cur)
   /\ Clause("the value is bounded", Small(Cur.v, Bound), Cur)
   /\ Small(Cur.v, Bound) =>
      CASE Cur.rep = "qu" -> Qu(Cur.v) [] Cur.rep = "om" -> Om(Cur.v) [] Cur.rep = "zh" -> Zh(Cur.v)
        [] Cur.rep = "ax" -> Ax(Cur.v) [] Cur.rep = "ro" -> Ro(Cur.v) [] Cur.rep = "ho" -> Ho(Cur.v)
        [] Cur.rep = "cu" -> Cu(Cur.v) [] Cur.rep = "bu" -> Bu(Cur.v)
Init == i = 1
Next == i <= Len(All) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Judged == i <= Len(All) => Judge
=============================================================================
