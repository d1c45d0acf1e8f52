-------------------------------- MODULE Vp --------------------------------
(* Shared by every specification: emission of behaviours/cases for replay,  *)
(* reporting of broken clauses of recorded traces, exact arithmetic.        *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE Json
LOCAL INSTANCE SequencesExt

Emit(rec) == PrintT("@@C " \o ToJson(rec))
Broken(rec) == PrintT("@@B " \o ToJson(rec))

(* Clause(name, ok, rec): TRUE always; reports rec with the clause's name   *)
(* when ok is FALSE. The verdict is total: every clause is evaluated.       *)
Clause(name, ok, rec) == IF ok THEN TRUE ELSE Broken([clause |-> name, rec |-> rec])

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
(* without overflow for values of opposite sign *)
Near(a, b, tol) == IF (a >= 0) = (b >= 0) THEN Abs(a - b) <= tol ELSE IF a >= 0 THEN a <= tol + b ELSE b <= tol + a

SumSeq(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
MinSeq(s) == FoldLeft(Min2, s[1], s)
MaxSeq(s) == FoldLeft(Max2, s[1], s)

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))

(* rationals <<num, den>>, den > 0, reduced *)
Rat(n, d) == LET g == Gcd(n, d)
                 s == IF d < 0 THEN -1 ELSE 1
             IN IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>
RAdd(a, b) == Rat(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RSub(a, b) == Rat(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
RMul(a, b) == Rat(a[1] * b[1], a[2] * b[2])
RDiv(a, b) == Rat(a[1] * b[2], a[2] * b[1])
RInt(n) == <<n, 1>>
RLe(a, b) == a[1] * b[2] <= b[1] * a[2]
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
(* floor division is TLA+'s \div (rounds towards -infinity) *)
===========================================================================
