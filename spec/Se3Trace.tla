------------------------------ MODULE Se3Trace ------------------------------
(* Recorded exponentials and logarithms of rigid motions. n: unit axis,       *)
(* a: angle >= 0, t: translation part of the tangent vector.                  *)
EXTENDS Integers, Sequences, TLC, Vp, Fix, Se3Form
CONSTANTS Samples
VARIABLE i
All == Samples
Cur == All[i]
Tol == Cur.tol
Small(v) == \A k \in 1..Len(v) : Abs(v[k]) <= 45000
Row(q, j) == LET e == [k \in 1..3 |-> IF k = j THEN One ELSE 0] IN QRot(QConj(q), e)
M == Motion(Cur.n, Cur.a, Cur.t)
OmOk(m, name) ==
   /\ Clause(name \o ": the rotation", \A j \in 1..3 : Near3(<<m[3 * j - 2], m[3 * j - 1], m[3 * j]>>, Row(M.r, j), 2 * Tol), Cur)
QuOk(q, name) == Clause(name \o ": the rotation", \E g \in {1, -1} : \A k \in 1..4 : Near(q[k], g * M.r[k], Tol), Cur)
TrOk(t, name) == Clause(name \o ": the translation", Near3(t, M.t, 2 * Tol), Cur)
Exp == IF ~Small(Cur.om) \/ ~Small(Cur.tom) \/ ~Small(Cur.qu) \/ ~Small(Cur.tqu) \/ ~Small(Cur.r) \/ ~Small(Cur.tr) \/ ~Small(Cur.w)
       THEN Clause("bounded", FALSE, Cur)
       ELSE /\ OmOk(Cur.om, "matrix") /\ TrOk(Cur.tom, "matrix")
            /\ OmOk(Cur.r, "split") /\ TrOk(Cur.tr, "split")
            /\ OmOk(Cur.w, "rotation alone")
            /\ QuOk(Cur.qu, "quaternion") /\ TrOk(Cur.tqu, "quaternion")
(* the tangent vector is recovered (angles below pi) *)
LogOf(v, name) == IF ~Small(v) THEN Clause("bounded", FALSE, Cur)
   ELSE /\ Clause(name \o ": the rotation vector", Near3(<<v[1], v[2], v[3]>>, [k \in 1..3 |-> FMul(Cur.a, Cur.n[k])], 2 * Tol), Cur)
        /\ Clause(name \o ": the translation part", Near3(<<v[4], v[5], v[6]>>, Cur.t, 3 * Tol), Cur)
Log == LogOf(Cur.lom, "log of a matrix") /\ LogOf(Cur.lsp, "log of rotation and translation") /\ LogOf(Cur.lqu, "log of a quaternion")
(* second and third order in the angle of R x and V x for small angles        *)
Series == LET c == Cross3(Cur.n, Cur.x)  d == Cross3(Cur.n, c)
              ok(v, u, den) == Small(v) /\ Near3([k \in 1..3 |-> den * v[k]], u, den * 6 + 8 + 2 * Cur.a) IN
   \* the next order adds less than the angle
   /\ Clause("small rotations: second order", ok(Cur.r2, d, 2), Cur)
   /\ Clause("small rotations: third order", ok(Cur.r3, Neg(c), 6), Cur)
   /\ Clause("small motions: second order", ok(Cur.v2, d, 6), Cur)
   /\ Clause("small motions: third order", ok(Cur.v3, Neg(c), 24), Cur)
   /\ Clause("small motions inverted: second order", Cur.inv => ok(Cur.i2, d, 12), Cur)
Judge == CASE Cur.kind = "series" -> Series [] Cur.kind = "exp" -> Exp [] Cur.kind = "log" -> Log
Init == i = 1
Next == i <= Len(All) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Judged == i <= Len(All) => Judge
=============================================================================
