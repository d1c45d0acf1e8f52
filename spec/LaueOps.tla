------------------------------ MODULE LaueOps ------------------------------
(* The rotation parts of the 11 Laue groups, exactly: quaternions whose       *)
(* components are (a + b * sqrt(r)) / 2, r = 2 for the cubic family and r = 3  *)
(* for the hexagonal family, generated from the axes of the group.            *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC
LOCAL INSTANCE Fix

Root(l) == IF l \in 6..9 THEN 3 ELSE 2
(* numbers <<a, b>> = (a + b sqrt r) / 2; products of such are quarters, which *)
(* are again halves for group elements                                        *)
NAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
NNeg(x) == <<-x[1], -x[2]>>
NMulQ(r, x, y) == <<x[1] * y[1] + r * x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>  \* quarters
NSign(r, x) == LET s == x[1] * x[1] - r * x[2] * x[2] IN
   CASE x = <<0, 0>> -> 0
     [] x[1] >= 0 /\ x[2] >= 0 -> 1
     [] x[1] <= 0 /\ x[2] <= 0 -> -1
     [] x[1] > 0 -> IF s > 0 THEN 1 ELSE -1
     [] OTHER -> IF s > 0 THEN -1 ELSE 1
Sum4(r, w, x, y, z) ==   \* four quarters to a half
   LET s == NAdd(NAdd(w, x), NAdd(y, z)) IN <<s[1] \div 2, s[2] \div 2>>
EMul(r, a, b) ==
  LET m(i, j) == NMulQ(r, a[i], b[j]) IN <<
   Sum4(r, m(1,1), NNeg(m(2,2)), NNeg(m(3,3)), NNeg(m(4,4))),
   Sum4(r, m(1,2), m(2,1), m(3,4), NNeg(m(4,3))),
   Sum4(r, m(1,3), NNeg(m(2,4)), m(3,1), m(4,2)),
   Sum4(r, m(1,4), m(2,3), NNeg(m(3,2)), m(4,1))>>
EConj(a) == <<a[1], NNeg(a[2]), NNeg(a[3]), NNeg(a[4])>>
(* a rotation is a quaternion up to sign: first nonzero component positive     *)
Canon(r, a) ==
  LET s == SelectSeq(<<NSign(r, a[1]), NSign(r, a[2]), NSign(r, a[3]), NSign(r, a[4])>>, LAMBDA v : v # 0)
  IN IF s[1] > 0 THEN a ELSE [i \in 1..4 |-> NNeg(a[i])]

O2 == <<0, 0>>   \* zero
I2 == <<2, 0>>   \* one
Identity == <<I2, O2, O2, O2>>
R2z == <<O2, O2, O2, I2>>
R2x == <<O2, I2, O2, O2>>
R4z == <<<<0, 1>>, O2, O2, <<0, 1>>>>   \* sqrt(2)/2, r = 2
R3z == <<<<1, 0>>, O2, O2, <<0, 1>>>>   \* 1/2, sqrt(3)/2, r = 3
R6z == <<<<0, 1>>, O2, O2, <<1, 0>>>>   \* sqrt(3)/2, 1/2, r = 3
R3d == <<<<1, 0>>, <<1, 0>>, <<1, 0>>, <<1, 0>>>>  \* 120 degrees about 111
Generators(l) == CASE l = 1 -> {} [] l = 2 -> {R2z} [] l = 3 -> {R2z, R2x}
  [] l = 4 -> {R4z} [] l = 5 -> {R4z, R2x} [] l = 6 -> {R3z} [] l = 7 -> {R3z, R2x}
  [] l = 8 -> {R6z} [] l = 9 -> {R6z, R2x} [] l = 10 -> {R2z, R2x, R3d} [] l = 11 -> {R4z, R3d}
Order(l) == <<1, 2, 4, 4, 8, 3, 6, 6, 12, 12, 24>>[l]

Grow(l, S) == S \cup {Canon(Root(l), EMul(Root(l), a, g)) : a \in S, g \in Generators(l)}
(* six rounds complete every group (checked in LaueGroups) *)
Exact(l) == FoldLeft(LAMBDA S, k : Grow(l, S), {Identity}, <<1, 2, 3, 4, 5, 6>>)

(* in fixed point, as a sequence; evaluated once (a constant) *)
ToFix(r, x) == (x[1] * 10000 + (x[2] * (IF r = 2 THEN 14142 ELSE 17321))) \div 2
FixGroup(l) == TLCEval(SetToSeq({TLCEval([i \in 1..4 |-> ToFix(Root(l), e[i])]) : e \in Exact(l)}))
Groups == <<FixGroup(1), FixGroup(2), FixGroup(3), FixGroup(4), FixGroup(5), FixGroup(6),
            FixGroup(7), FixGroup(8), FixGroup(9), FixGroup(10), FixGroup(11)>>
==========================================================================
