------------------------------ MODULE Se3Form ------------------------------
(* The rigid motion exp(w, t) for w = angle * n: rotation by angle about n,   *)
(* translation V t with V = sinc + (1-cos)/angle [n] + (1 - sinc) n n'.       *)
EXTENDS Integers, Sequences, Fix
Turn(n, a) == LET s == FSin(a \div 2) IN <<FCos(a \div 2), FMul(s, n[1]), FMul(s, n[2]), FMul(s, n[3])>>
Slide(n, a, t) ==
   LET small == a < 2000
       sinc == IF small THEN One - FMul(a, a) \div 6 ELSE FDiv(FSin(a), a)
       h == FSin(a \div 2)
       cosc == IF small THEN a \div 2 ELSE FDiv(2 * FMul(h, h), a)
       c == Cross3(n, t)  d == Dot3(n, t)
   IN [k \in 1..3 |-> FMul(sinc, t[k]) + FMul(cosc, c[k]) + FMul(One - sinc, FMul(n[k], d))]
Motion(n, a, t) == [r |-> Turn(n, a), t |-> Slide(n, a, t)]
Compose(p, q) == [r |-> QMul(p.r, q.r), t |-> LET v == QRot(p.r, q.t) IN [k \in 1..3 |-> p.t[k] + v[k]]]
=============================================================================
