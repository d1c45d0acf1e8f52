------------------------------ MODULE FzFine ------------------------------
(* The zone next to its walls: where two equivalents have nearly the same      *)
(* angle, the one that is smaller by parts in a million must still be found.   *)
(* Records carry 1e8 units per 1.0; r is the rounding of the number format.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Vp, Fix, Fix8, LaueOps
CONSTANTS Samples
VARIABLE i
ToFix8(r, x) == (x[1] * One8 + (x[2] * (IF r = 2 THEN 141421356 ELSE 173205081))) \div 2
FineGroup(l) == TLCEval(SetToSeq({TLCEval([k \in 1..4 |-> ToFix8(Root(l), e[k])]) : e \in Exact(l)}))
ASSUME TLCSet(8, <<FineGroup(1), FineGroup(2), FineGroup(3), FineGroup(4), FineGroup(5), FineGroup(6),
                   FineGroup(7), FineGroup(8), FineGroup(9), FineGroup(10), FineGroup(11)>>)
Grp == TLCGet(8)
All == Samples
Cur == All[i]
P8(a, b) == TLCEval(<<
   Mul8(a[1], b[1]) - Mul8(a[2], b[2]) - Mul8(a[3], b[3]) - Mul8(a[4], b[4]),
   Mul8(a[1], b[2]) + Mul8(a[2], b[1]) + Mul8(a[3], b[4]) - Mul8(a[4], b[3]),
   Mul8(a[1], b[3]) - Mul8(a[2], b[4]) + Mul8(a[3], b[1]) + Mul8(a[4], b[2]),
   Mul8(a[1], b[4]) + Mul8(a[2], b[3]) - Mul8(a[3], b[2]) + Mul8(a[4], b[1])>>)
C8(a) == <<a[1], -a[2], -a[3], -a[4]>>
W8(a, b) == Mul8(a[1], b[1]) - Mul8(a[2], b[2]) - Mul8(a[3], b[3]) - Mul8(a[4], b[4])
Top(s) == FoldLeft(LAMBDA m, v : IF v > m THEN v ELSE m, 0, s)
Orb(l, q) == TLCEval([k \in 1..Len(Grp[l]) |-> Abs(W8(Grp[l][k], q))])
(* half the angle: its cosine is the real part                                 *)
Reduced ==
  LET top == Top(Orb(Cur.l, Cur.q)) IN
  Clause("no equivalent has a smaller angle", Near(Cur.out[1], top, Cur.r), [rec |-> Cur, real |-> top])
IsIdentity(g) == Abs(g[1]) = One8
Member ==
  LET g == Grp[Cur.l]
      rest == Top([k \in 1..Len(g) |-> IF IsIdentity(g[k]) THEN 0 ELSE Abs(W8(g[k], Cur.q))])
  IN /\ Clause("an orientation inside the zone is a member", Cur.q[1] > rest + Cur.r => Cur.fast /\ Cur.brute, [rec |-> Cur, other |-> rest])
     /\ Clause("an orientation outside of the zone is not a member", Cur.q[1] < rest - Cur.r => ~Cur.fast /\ ~Cur.brute, [rec |-> Cur, other |-> rest])
Disorient(m, l1, l2) ==
  LET right == TLCEval([k \in 1..Len(Grp[l2]) |-> P8(m, Grp[l2][k])])
      n == Len(Grp[l1])
      top == Top([k \in 1..(n * Len(right)) |-> Abs(W8(Grp[l1][1 + ((k - 1) % n)], right[1 + ((k - 1) \div n)]))])
  IN \A k \in 1..Len(Cur.outs) :
       Clause("the disorientation is an equivalent of least angle", Near(Cur.outs[k][1], top, Cur.r),
              [which |-> k, rec |-> Cur, real |-> top])
(* next to an equivalent: the (small) angle itself, in 1e-8, is kept           *)
Angles(m) ==
  LET right == TLCEval([k \in 1..Len(Grp[Cur.l2]) |-> P8(m, Grp[Cur.l2][k])])
      n == Len(Grp[Cur.l1])
      top == Top([k \in 1..(n * Len(right)) |-> Abs(W8(Grp[Cur.l1][1 + ((k - 1) % n)], right[1 + ((k - 1) \div n)]))])
  IN /\ Clause("harness: the angle belongs to the pair", Near(top, One8 - (Mul8(Cur.w, Cur.w) \div 8), 100), [rec |-> Cur, real |-> top])
     /\ \A k \in 1..Len(Cur.angles) : Clause("small disorientation angles are kept", Near(Cur.angles[k], Cur.w, Cur.r), [which |-> k, rec |-> Cur])
Judge == CASE Cur.kind = "reduce" -> Reduced
           [] Cur.kind = "member" -> Member
           [] Cur.kind = "disori" -> Disorient(P8(Cur.q, C8(Cur.q2)), Cur.l1, Cur.l2)
           [] Cur.kind = "angle" -> Angles(P8(Cur.q, C8(Cur.q2)))
           [] Cur.kind = "misori" -> Disorient(Cur.q, Cur.l2, Cur.l1)
Init == i = 1
Next == i <= Len(All) /\ i' = i + 1
Judged == i <= Len(All) => Judge
Spec == Init /\ [][Next]_i
FineZones == \A l \in 1..11 : Len(Grp[l]) = Order(l)
=============================================================================
