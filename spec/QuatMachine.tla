---------------------------- MODULE QuatMachine ----------------------------
(* Quaternion arithmetic, exactly: an integer quaternion q is multiplied,      *)
(* conjugated and standardised step by step, next to the matrix of q b q* (the  *)
(* rotation times the squared norm). Products compose rotations, conjugation    *)
(* inverts them, the sign of a quaternion does not matter.                      *)
EXTENDS Integers, Sequences, TLC, Vp
CONSTANTS MaxOps, C, MaxNorm
VARIABLES q, mat, hist
vars == <<q, mat, hist>>
Mul(a, b) == <<a[1]*b[1] - a[2]*b[2] - a[3]*b[3] - a[4]*b[4],
               a[1]*b[2] + a[2]*b[1] + a[3]*b[4] - a[4]*b[3],
               a[1]*b[3] - a[2]*b[4] + a[3]*b[1] + a[4]*b[2],
               a[1]*b[4] + a[2]*b[3] - a[3]*b[2] + a[4]*b[1]>>
Conj(a) == <<a[1], -a[2], -a[3], -a[4]>>
Std(a) == IF a[1] >= 0 THEN a ELSE <<-a[1], -a[2], -a[3], -a[4]>>
N2(a) == a[1]*a[1] + a[2]*a[2] + a[3]*a[3] + a[4]*a[4]
Mat(a) == LET w == a[1] x == a[2] y == a[3] z == a[4] IN
  <<<<w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y)>>,
    <<2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x)>>,
    <<2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z>>>>
MM(A, B) == [i \in 1..3 |-> [j \in 1..3 |-> A[i][1]*B[1][j] + A[i][2]*B[2][j] + A[i][3]*B[3][j]]]
T(A) == [i \in 1..3 |-> [j \in 1..3 |-> A[j][i]]]
MV(A, v) == [i \in 1..3 |-> A[i][1]*v[1] + A[i][2]*v[2] + A[i][3]*v[3]]
\* with an argument: TLC evaluates a definition without one only once
RQ(c) == [i \in 1..4 |-> RandomElement(-c..c)]
RV(c) == [i \in 1..3 |-> RandomElement(-c..c)]

Log(rec, new) == \E v \in {RV(9)} : hist' = Append(hist, rec @@ [q |-> new, v |-> v, applied |-> MV(mat', v)])
Fits(a) == N2(q) * N2(a) <= MaxNorm
MulRight == \E a \in {RQ(C)} : /\ N2(a) > 0 /\ Fits(a)
  /\ q' = Mul(q, a) /\ mat' = MM(mat, Mat(a)) /\ Log([op |-> "right", a |-> a], q')
MulLeft == \E a \in {RQ(C)} : /\ N2(a) > 0 /\ Fits(a)
  /\ q' = Mul(a, q) /\ mat' = MM(Mat(a), mat) /\ Log([op |-> "left", a |-> a], q')
DoConj == q' = Conj(q) /\ mat' = T(mat) /\ Log([op |-> "conj"], q')
DoStd == q' = Std(q) /\ mat' = mat /\ Log([op |-> "std"], q')
Triple == \E a \in {RQ(2)}, b \in {RQ(2)} : /\ N2(a) > 0 /\ N2(b) > 0 /\ N2(q) * N2(a) * N2(b) <= MaxNorm
  /\ q' = Mul(a, Mul(q, b)) /\ mat' = MM(Mat(a), MM(mat, Mat(b)))
  /\ Log([op |-> "triple", a |-> a, b |-> b], q')
Init == \E a \in {RQ(C)} : q = (IF N2(a) = 0 THEN <<1, 0, 0, 0>> ELSE a) /\ mat = Mat(q) /\ hist = <<[op |-> "start", q |-> q]>>
Next == Len(hist) <= MaxOps /\ (MulRight \/ MulLeft \/ DoConj \/ DoStd \/ Triple)
Spec == Init /\ [][Next]_vars
Homomorphic == mat = Mat(q)
Scaled == MM(mat, T(mat)) = [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN N2(q) * N2(q) ELSE 0]]
EmitDone == (Len(hist) = MaxOps + 1) => Emit(hist)
=============================================================================
