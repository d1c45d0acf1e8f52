------------------------------ MODULE FzTrace ------------------------------
(* Reduction of rotations under crystal symmetry. The symmetry-equivalents of *)
(* an orientation q (sample to crystal) are g.q; of a misorientation m from   *)
(* crystal 2 to crystal 1 they are g1.m.g2. Records of the real functions are *)
(* judged against the groups of LaueOps, in fixed point.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Vp, Fix, LaueOps
CONSTANTS Samples
VARIABLE i
(* evaluated once and kept in a register of TLC *)
ASSUME TLCSet(7, Groups)
Grp == TLCGet(7)
All == Samples
Cur == All[i]
Tol == 9

QW(a, b) == FMul(a[1], b[1]) - FMul(a[2], b[2]) - FMul(a[3], b[3]) - FMul(a[4], b[4])
Unit4(q) == Near(Dot4(q, q), One, 12)
Bounded4(q) == \A k \in 1..4 : Abs(q[k]) <= 10100
Same(a, b, tol) == NearN(a, b, tol) \/ NearN(a, Neg(b), tol)
VecLen(q) == ISqrt(q[2] * q[2] + q[3] * q[3] + q[4] * q[4])
(* the angle's half has cosine c and the rest of the quaternion is s long; the *)
(* sine is only used where it is the more accurate of the two                 *)
Angle(a, q) == /\ a >= 0 /\ a <= Pi + 4
               /\ Near(FCos(a \div 2), Abs(q[1]), Tol)
               /\ LET s == VecLen(q) IN (s > 300 => Near(FSin(a \div 2), s, 2 * Tol + (60000 \div s)))
                                       /\ (s <= 300 => a <= 800)

(* ---- orientations *)
Orbit(l, q) == TLCEval([k \in 1..Len(Grp[l]) |-> QMul(Grp[l][k], q)])
OrbitW(l, q) == TLCEval([k \in 1..Len(Grp[l]) |-> Abs(QW(Grp[l][k], q))])

Reduce ==
  LET q == Cur.q  out == Cur.out  ws == OrbitW(Cur.l, q)  top == MaxSeq(ws)
      ok == Bounded4(out)
  IN /\ Clause("the reduced orientation is a rotation", ok, Cur)
     /\ ok =>
        /\ Clause("the reduced orientation is a rotation", Unit4(out), Cur)
        /\ Clause("the reduced orientation has a real part that is not negative", out[1] >= -1, Cur)
        /\ Clause("the reduced orientation is equivalent by symmetry of the crystal",
              \E k \in 1..Len(ws) : Near(ws[k], Abs(out[1]), Tol) /\ Same(out, QMul(Grp[Cur.l][k], q), Tol), Cur)
        /\ Clause("no equivalent has a smaller angle", Near(out[1], top, Tol), Cur)

Equivalents ==
  LET orb == Orbit(Cur.l, Cur.q)
      ok == Len(Cur.outs) = Len(orb) /\ \A k \in 1..Len(Cur.outs) : Bounded4(Cur.outs[k])
  IN /\ Clause("as many equivalents as the group has rotations", ok, Cur)
     /\ ok =>
        /\ Clause("the equivalents are the orbit of the orientation",
              /\ \A a \in 1..Len(orb) : \E b \in 1..Len(orb) : Same(Cur.outs[b], orb[a], Tol)
              /\ \A b \in 1..Len(orb) : \E a \in 1..Len(orb) : Same(Cur.outs[b], orb[a], Tol), Cur)

(* membership, on unit quaternions whose real part is not negative            *)
Member ==
  LET ws == OrbitW(Cur.l, Cur.q)
      rest == MaxSeq(<<0>> \o [k \in 1..Len(ws) |-> IF NearN(Grp[Cur.l][k], <<One, 0, 0, 0>>, 2) THEN 0 ELSE ws[k]])
  IN /\ Clause("an orientation inside the zone is a member", Cur.q[1] > rest + Tol => Cur.fast /\ Cur.brute, Cur)
     /\ Clause("an orientation outside of the zone is not a member", Cur.q[1] < rest - Tol => ~Cur.fast /\ ~Cur.brute, Cur)

AngleOne ==   \* angle between two orientations, symmetry on the left only
  LET m == QMul(Cur.q, QConj(Cur.q2))
      orb == Orbit(Cur.l, m)
      top == MaxSeq([k \in 1..Len(orb) |-> Abs(orb[k][1])])
  IN Clause("the angle is the least of the equivalents",
        \E k \in 1..Len(orb) : Abs(orb[k][1]) >= top - 3 /\ Angle(Cur.angle, orb[k]), Cur)

(* ---- misorientations *)
(* all pairs: m.g2 for every g2, then the real parts of g1.(m.g2)             *)
Right(l, m) == TLCEval([k \in 1..Len(Grp[l]) |-> QMul(m, Grp[l][k])])
Pairs(l1, right) == TLCEval([k \in 1..(Len(Grp[l1]) * Len(right)) |->
    Abs(QW(Grp[l1][1 + ((k - 1) % Len(Grp[l1]))], right[1 + ((k - 1) \div Len(Grp[l1]))]))])
PairAt(l1, right, k) == QMul(Grp[l1][1 + ((k - 1) % Len(Grp[l1]))], right[1 + ((k - 1) \div Len(Grp[l1]))])

Disorient(m, l1, l2) ==
  LET right == Right(l2, m)
      ws == Pairs(l1, right)
      top == MaxSeq(ws)
      best == SelectSeq([k \in 1..Len(ws) |-> k], LAMBDA k : ws[k] >= top - 2 * Tol)
      bestq == TLCEval([j \in 1..Len(best) |-> PairAt(l1, right, best[j])])
      judge(o) == Bounded4(o) /\ o[1] >= -1 /\ \E j \in 1..Len(bestq) : Same(o, bestq[j], 2 * Tol)
      angle(a) == \E j \in 1..Len(bestq) : Angle(a, bestq[j])
  IN /\ \A k \in 1..Len(Cur.outs) :
          Clause("the disorientation is an equivalent of least angle", judge(Cur.outs[k]),
                 [which |-> k, rec |-> Cur, real |-> top])
     /\ \A k \in 1..Len(Cur.angles) :
          Clause("the disorientation angle is the least of the equivalents", angle(Cur.angles[k]),
                 [which |-> k, rec |-> Cur, real |-> top])

(* ---- directions: equivalents g.p and -g.p *)
Tan(a) == FDiv(FSin(a), FCos(a))
(* is the direction in the standard sector? "in", "out", or "edge" within e    *)
And3(a, b) == IF a = "out" \/ b = "out" THEN "out" ELSE IF a = "edge" \/ b = "edge" THEN "edge" ELSE "in"
(* v >= 0 *)
Ge(v, e) == IF v > e THEN "in" ELSE IF v < -e THEN "out" ELSE "edge"
(* azimuth between a and b (b - a <= pi), as half planes through the z axis    *)
Between(p, a, b, e) == And3(Ge(FMul(FCos(a), p[2]) - FMul(FSin(a), p[1]), e),
                            Ge(FMul(FSin(b), p[1]) - FMul(FCos(b), p[2]), e))
Sector(l, p, e) ==
  CASE l = 1 -> Ge(p[3], e)
    [] l = 2 -> And3(Ge(p[3], e), Ge(p[2], e))
    [] l \in {3, 4} -> And3(Ge(p[3], e), And3(Ge(p[1], e), Ge(p[2], e)))
    [] l = 5 -> And3(Ge(p[3], e), And3(Ge(p[2], e), Ge(p[1] - p[2], e)))
    [] l = 6 -> And3(Ge(p[3], e), Between(p, -20944, 0, e))
    [] l = 7 -> And3(Ge(p[3], e), Between(p, -15708, -5236, e))
    [] l = 8 -> And3(Ge(p[3], e), Between(p, 0, 10472, e))
    [] l = 9 -> And3(Ge(p[3], e), Between(p, 0, 5236, e))
    [] l = 10 -> And3(And3(Ge(p[1], e), Ge(p[2], e)), And3(Ge(p[3] - p[1], e), Ge(p[3] - p[2], e)))
    [] l = 11 -> And3(And3(Ge(p[2], e), Ge(p[1] - p[2], e)), Ge(p[3] - p[1], e))
DirOrbit(l, p) == LET n == Len(Grp[l]) IN
  TLCEval([k \in 1..(2 * n) |-> IF k <= n THEN QRot(Grp[l][k], p) ELSE Neg(QRot(Grp[l][k - n], p))])

Direction ==
  LET orb == DirOrbit(Cur.l, Cur.p)
      ok == Len(Cur.outs) = Len(orb) /\ (\A k \in 1..Len(Cur.outs) : \A j \in 1..3 : Abs(Cur.outs[k][j]) <= 10100)
              /\ \A j \in 1..3 : Abs(Cur.out[j]) <= 10100
  IN /\ Clause("as many equivalent directions as the group has operations", ok, Cur)
     /\ ok =>
       /\ Clause("the equivalent directions are the orbit",
            \A a \in 1..Len(orb) : (\E b \in 1..Len(orb) : Near3(Cur.outs[b], orb[a], Tol)) /\
                                    (\E b \in 1..Len(orb) : Near3(Cur.outs[a], orb[b], Tol)), Cur)
       /\ Clause("the reduced direction is equivalent", \E a \in 1..Len(orb) : Near3(Cur.out, orb[a], Tol), Cur)
       /\ Clause("the reduced direction lies in the sector", Sector(Cur.l, Cur.out, Tol) # "out", Cur)
       /\ Clause("membership of the sector",
            LET s == Sector(Cur.l, Cur.p, Tol) IN (s = "in" => Cur.inside) /\ (s = "out" => ~Cur.inside), Cur)
       /\ Clause("the reduced direction is a member of the sector", Cur.outinside, Cur)

Judge == CASE Cur.kind = "reduce" -> Reduce
           [] Cur.kind = "equiv" -> Equivalents
           [] Cur.kind = "member" -> Member
           [] Cur.kind = "angle" -> AngleOne
           [] Cur.kind = "disori" -> Disorient(QMul(Cur.q, QConj(Cur.q2)), Cur.l1, Cur.l2)
           [] Cur.kind = "misori" -> Disorient(Cur.q, Cur.l2, Cur.l1)
           [] Cur.kind = "direction" -> Direction
Init == i = 1
Next == i <= Len(All) /\ i' = i + 1
Judged == i <= Len(All) => Judge
Spec == Init /\ [][Next]_i

(* the model itself: the sectors and zones tile the sphere and the rotations   *)
ZonesCover == \A l \in 1..11 : Len(Grp[l]) = Order(l)
=============================================================================
