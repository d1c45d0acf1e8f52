----------------------------- MODULE ClaheTrace -----------------------------
(* Contrast limited adaptive histogram equalisation, judged on recorded images. *)
(* Stages of the machine for one image: tiles, counts per bin, clipping, hand-   *)
(* ing the excess out, cumulating, interpolating between bins and tile centers.   *)
(* Grey values are 64ths, results in 1e8.                                         *)
EXTENDS Integers, Sequences, TLC, Vp, Fix8
CONSTANTS Samples
VARIABLES t
vars == <<t>>
All == Samples
R == All[t]
Add(f(_), m) == LET RECURSIVE S(_)
                    S(k) == IF k = 0 THEN 0 ELSE f(k) + S(k - 1) IN S(m)
Ceil(a, b) == (a + b - 1) \div b
H == Len(R.x)
W == Len(R.x[1])
GH == R.grid[1]
GW == R.grid[2]
TH == Ceil(H, GH)
TW == Ceil(W, GW)
V == TH * TW
Fold(i, n) == IF i > n THEN 2 * n - i ELSE i
Pixel(i, j) == R.x[Fold(i, H)][Fold(j, W)]                       \* 1-based, mirrored below and to the right
Bin(v) == (v * (R.bins - 1)) \div 64                              \* 0-based
Counts(a, b) == LET bs == TLCEval([k \in 1..V |-> Bin(Pixel((a - 1) * TH + ((k - 1) \div TW) + 1, (b - 1) * TW + ((k - 1) % TW) + 1))]) IN
                TLCEval([n \in 1..R.bins |-> Add(LAMBDA k : IF bs[k] = n - 1 THEN 1 ELSE 0, V)])
(* clip limit in quarters                                                          *)
Limit == Max2((R.clip * V) \div (4 * R.bins), 1)
Clipped(c) == IF R.clip <= 0 THEN c ELSE
   LET d == TLCEval([n \in 1..R.bins |-> Min2(c[n], Limit)])
       excess == V - SumSeq(d) IN
   TLCEval([n \in 1..R.bins |-> d[n] + (excess \div R.bins) + (IF n - 1 < excess % R.bins THEN 1 ELSE 0)])
Cumul(c) == LET RECURSIVE S(_, _)
                S(n, so) == IF n > Len(c) THEN <<>> ELSE <<Ratio8(Min2(so + c[n], V), V)>> \o S(n + 1, so + c[n]) IN S(1, 0)
Tables == TLCEval([a \in 1..GH |-> TLCEval([b \in 1..GW |-> TLCEval(Cumul(Clipped(Counts(a, b))))])])
(* position among n cells: num / den - 1/2, kept within the first and last center     *)
Cell(num, den, n) == LET m == 2 * num - den  d == 2 * den IN
   IF m <= 0 THEN [i |-> 1, f |-> 0] ELSE IF m >= d * (n - 1) THEN [i |-> n, f |-> 0] ELSE [i |-> (m \div d) + 1, f |-> Ratio8(m % d, d)]
Mix(c, n, at(_)) == IF c.f = 0 \/ c.i = n THEN at(c.i) ELSE Mul8(One8 - c.f, at(c.i)) + Mul8(c.f, at(c.i + 1))
Want(T, i, j) == LET r == Cell((i - 1) * GH, Max2(H - 1, 1), GH)
                     c == Cell((j - 1) * GW, Max2(W - 1, 1), GW)
                     v == Cell(R.x[i][j] * R.bins, 64, R.bins) IN
   Mix(r, GH, LAMBDA a : Mix(c, GW, LAMBDA b : Mix(v, R.bins, LAMBDA k : T[a][b][k])))
Image == LET T == Tables
             want == TLCEval([i \in 1..H |-> TLCEval([j \in 1..W |-> Want(T, i, j)])]) IN
   /\ Clause("equalised values", Len(R.got) = H /\ \A i \in 1..H : \A j \in 1..W : Near(R.got[i][j], want[i][j], 400), [id |-> R.id, got |-> R.got, want |-> want])
   /\ Clause("values stay between 0 and 1", \A i \in 1..H : \A j \in 1..W : R.got[i][j] >= 0 /\ R.got[i][j] <= One8 + 50, [id |-> R.id])
   /\ \A i \in 1..H : \A j \in 1..W : want[i][j] >= 0 /\ want[i][j] <= One8
   (* every table rises to 1 unless clipping handed out nothing                            *)
   /\ \A a \in 1..GH : \A b \in 1..GW : T[a][b][R.bins] = One8 /\ \A k \in 2..R.bins : T[a][b][k] >= T[a][b][k - 1]
Init == t = 0
Next == t < Len(All) /\ t' = t + 1
Spec == Init /\ [][Next]_vars
Judged == t = 0 \/ Image
=============================================================================
