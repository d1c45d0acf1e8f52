----------------------------- MODULE WignerTrace -----------------------------
(* Columns of Wigner d matrices read from the real tables. Column n of degree *)
(* l is the unit eigenvector, for eigenvalue n, of cos(b) Jz - sin(b) Jx,     *)
(* with non-negative last entry. Values in 1e8 fixed point.                   *)
EXTENDS Integers, Sequences, TLC, Vp, Fix8
CONSTANTS Samples
VARIABLE i
All == Samples
Cur == All[i]
SgnOf(k) == IF k % 2 = 0 THEN 1 ELSE -1
(* the table holds l >= m >= n >= 0 only: b[k + 1] is the entry of orders     *)
(* max(k, n), min(k, n) at the angle, c[k + 1] at the supplementary angle     *)
FromTable == LET l == Cur.l  n == Cur.n
                 up(T, k) == IF k >= n THEN T[k + 1] ELSE SgnOf(k - n) * T[k + 1] IN
   [j \in 1..(2 * l + 1) |-> LET m == j - l - 1 IN IF m >= 0 THEN up(Cur.b, m) ELSE SgnOf(l - n) * up(Cur.c, -m)]
Column == IF Cur.kind = "table" THEN FromTable ELSE Cur.v
Small(v) == \A k \in 1..Len(v) : Abs(v[k]) <= 103000000
Raw == IF Cur.kind = "table" THEN Cur.b \o Cur.c ELSE Cur.v
JudgeColumn ==
   IF ~Small(Raw) THEN Clause("bounded", FALSE, [l |-> Cur.l, n |-> Cur.n, id |-> Cur.id])
   ELSE LET l == Cur.l  n == Cur.n  N == 2 * l + 1
            v == TLCEval(Column)
            C == Ratio8(Cur.p, Cur.r)  S == Ratio8(Cur.q, Cur.r)
            \* root[j]: sqrt((l-m)(l+m+1)) / (2 l + 1) between m = j-l-1 and m+1
            root == TLCEval([j \in 1..(2 * l) |-> RatioRoot8((2 * l + 1 - j) * j, N * N)])
            at(j) == IF j < 1 \/ j > N THEN 0 ELSE v[j]
            res(j) == Mul8(Mul8(Ratio8(j - l - 1, N), C), v[j])
                      - (IF j <= 2 * l THEN Mul8(Mul8(root[j], S), v[j + 1]) \div 2 ELSE 0)
                      - (IF j > 1 THEN Mul8(Mul8(root[j - 1], S), v[j - 1]) \div 2 ELSE 0)
                      - Mul8(Ratio8(n, N), v[j])
            norm == SumSeq([j \in 1..N |-> Mul8(v[j], v[j])])
            rec == [l |-> l, n |-> n, id |-> Cur.id] IN
      /\ Clause("eigenvector of the rotated angular momentum", \A j \in 1..N : Abs(res(j)) <= Cur.tol, rec)
      /\ Clause("unit columns", Abs(norm - One8) <= 4 * Cur.tol + 4 * N, rec)
      /\ Clause("sign", Cur.sgn >= 0 /\ v[N] >= -Cur.tol, rec)
(* Extended numbers x * 2^(460 e), here x = sign * 2^p; a result is recorded   *)
(* as <<k, f, sign, e>>: sign * f/1e8 * 2^k * 2^(460 e) with f/1e8 in 1..2.    *)
Total(w) == w[1] + 460 * w[4]
Normal(w) == w[1] >= -230 /\ w[1] < 230
Same(w, p, e, s) == w[2] = One8 /\ w[3] = s /\ Total(w) = p + 460 * e
JudgeX ==
   LET ta == Cur.pa + 460 * Cur.ea  tb == Cur.pb + 460 * Cur.eb
       hi == Max2(ta, tb)  d == Abs(ta - tb)
       shi == IF ta >= tb THEN Cur.sa ELSE Cur.sb
       slo == IF ta >= tb THEN Cur.sb ELSE Cur.sa
       low == IF d <= 26 THEN One8 \div (2 ^ d) ELSE 0
       want == One8 + shi * slo * low               \* in units of the larger
       z == Cur.z
       dz == Total(z) - hi
       got == IF dz = 1 THEN 2 * z[2] ELSE IF dz <= 0 /\ dz >= -26 THEN z[2] \div (2 ^ (-dz)) ELSE -One8 IN
   /\ Clause("normalised numbers keep their value", Same(Cur.na, Cur.pa, Cur.ea, Cur.sa) /\ Same(Cur.nb, Cur.pb, Cur.eb, Cur.sb) /\ Normal(Cur.na) /\ Normal(Cur.nb), Cur)
   /\ Clause("sums of extended numbers", IF want = 0 THEN z[2] = 0 ELSE z[3] = shi /\ Normal(z) /\ Near(got, want, 4), Cur)
Judge == IF Cur.kind = "xnum" THEN JudgeX ELSE JudgeColumn
Init == i = 1
Next == i <= Len(All) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Judged == i <= Len(All) => Judge
=============================================================================
