------------------------------ MODULE Se3Fine ------------------------------
(* The same motions with 1e8 units per 1.0: the rotation R x, the slide V x,  *)
(* its inverse and the logarithm, for angles up to pi. tol: of the format and  *)
(* the angle (1 - cos a loses digits in single precision).                     *)
EXTENDS Integers, Sequences, TLC, Vp, Fix, Fix8
CONSTANTS Samples
VARIABLE i
All == Samples
Cur == All[i]
(* sin(a)/a, (1 - cos a)/a by their series in u = a^2                          *)
RECURSIVE Nest(_, _, _, _)
Nest(u, den, k, last) == IF k > last THEN One8 ELSE One8 - Mul8(u, Nest(u, den, k + 1, last)) \div den[k]
SincDen == <<6, 20, 42, 72, 110, 156, 210, 272>>
CosDen == <<12, 30, 56, 90, 132, 182, 240>>
Sq(a) == IF a <= One8 THEN Mul8(a, a) ELSE 4 * Mul8(a \div 2, IF a <= 2 * One8 THEN a \div 2 ELSE One8)
         + (IF a <= 2 * One8 THEN 0 ELSE 4 * (Mul8(One8, a \div 2 - One8) + Mul8(a \div 2 - One8, a \div 2 - One8)))
Dot8(p, q) == Mul8(p[1], q[1]) + Mul8(p[2], q[2]) + Mul8(p[3], q[3])
Cross8(p, q) == <<Mul8(p[2], q[3]) - Mul8(p[3], q[2]), Mul8(p[3], q[1]) - Mul8(p[1], q[3]), Mul8(p[1], q[2]) - Mul8(p[2], q[1])>>
Along(n, x, f, g, h) ==  \* f x + g n cross x + h (n . x) n
  LET c == Cross8(n, x)  d == Dot8(n, x) IN TLCEval([k \in 1..3 |-> Mul8(f, x[k]) + Mul8(g, c[k]) + Mul8(h, Mul8(n[k], d))])
Slide8(n, a, x) == LET u == Sq(a)  s == Nest(u, SincDen, 1, 8)  c == Mul8(Nest(u, CosDen, 1, 7), a \div 2) IN Along(n, x, s, c, One8 - s)
Turn8(n, a, x) == Along(n, x, Cos8(a), Sin8(a), One8 - Cos8(a))
Bounded(v) == \A k \in 1..Len(v) : Abs(v[k]) <= 600000000
Close(p, q, tol) == \A k \in 1..3 : Near(p[k], q[k], tol)
Judge ==
  LET n == Cur.n  a == Cur.a  x == Cur.x  tol == Cur.tol IN
  IF ~(Bounded(Cur.turns[1]) /\ Bounded(Cur.turns[2]) /\ Bounded(Cur.turns[3]) /\ Bounded(Cur.inv))
  THEN Clause("bounded", FALSE, Cur)
  ELSE /\ Clause("the rotation to the last digits", \A k \in 1..Len(Cur.turns) : Close(Cur.turns[k], Turn8(n, a, x), tol), Cur)
       /\ Clause("the translation to the last digits", \A k \in 1..Len(Cur.slides) : Close(Cur.slides[k], Slide8(n, a, x), tol), Cur)
       /\ Clause("V times its inverse is the identity", Close(Slide8(n, a, Cur.inv), x, 2 * tol), Cur)
       /\ Clause("the logarithm to the last digits", \A k \in 1..Len(Cur.logs) :
             /\ Close(<<Cur.logs[k][1], Cur.logs[k][2], Cur.logs[k][3]>>, [j \in 1..3 |-> Mul8(n[j], a)], 3 * tol)
             /\ Close(<<Cur.logs[k][4], Cur.logs[k][5], Cur.logs[k][6]>>, x, 3 * tol), Cur)
Init == i = 1
Next == i <= Len(All) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Judged == i <= Len(All) => Judge
=============================================================================
