----------------------------- MODULE NlparTrace -----------------------------
(* Non-local averaging of the patterns of a scan. Patterns are lists of         *)
(* integers (grey values); R.data[i][j] is the pattern at row i, column j.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Vp, Fix8
CONSTANTS Samples
VARIABLES t
vars == <<t>>
All == Samples
R == All[t]
Add(f(_), m) == LET RECURSIVE S(_)
                    S(k) == IF k = 0 THEN 0 ELSE f(k) + S(k - 1) IN S(m)
H == Len(R.data)
W == Len(R.data[1])
N == Len(R.data[1][1])
At(p) == R.data[p[1]][p[2]]
Cells == [k \in 1..(H * W) |-> <<((k - 1) \div W) + 1, ((k - 1) % W) + 1>>]
Dist(p, q) == LET a == At(p)  b == At(q) IN Add(LAMBDA k : (a[k] - b[k]) * (a[k] - b[k]), N)
Far(p, q) == Max2(Abs(p[1] - q[1]), Abs(p[2] - q[2]))
Num == TLCEval([k \in 1..(H * W) |-> Cells[k]])
(* the patterns at most r rows and columns away                                     *)
Around(p, r) == SelectSeq(Num, LAMBDA q : Far(p, q) <= r)
(* twice the noise of a pattern, times the pixels: its closest adjacent pattern       *)
Noise(p) == LET c == SelectSeq(Around(p, 1), LAMBDA q : q # p)
                RECURSIVE S(_)
                S(k) == IF k = 0 THEN 1000000000 ELSE Min2(Dist(p, c[k]), S(k - 1)) IN S(Len(c))
Big == 2000000000
RootPix == 10 * RatioRoot8(2 * N, 100)
(* squared difference in excess of the noise, in its standard deviations, at least 0,  *)
(* in 1e7 units                                                                         *)
Excess(d, m) == IF 2 * d <= m THEN 0
                ELSE IF m = 0 \/ (2 * d - m) \div (2 * m) >= 17 THEN Big
                ELSE LET r == Ratio8(2 * d - m, 2 * m) IN Mul8(r, RootPix \div 10)
(* excess e under sharpness c (1e8), as a weight                                       *)
Weight(e, c) == IF e = Big THEN 0 ELSE IF (e \div 100000) * (c \div 1000000) > 190000 THEN 0 ELSE ExpNeg8(160 * Mul8(e, c \div 16))
(* mean share of the pattern itself among its adjacent ones                         *)
Share(near, c) == LET one(k) == LET s == Add(LAMBDA j : Weight(near[k][j], c), Len(near[k])) IN Ratio8(One8 \div 10, s \div 10) IN
                  Add(LAMBDA k : one(k), Len(near)) \div Len(near)
Sharp(near, goal) == LET RECURSIVE B(_, _, _)
                         B(lo, hi, k) == IF k = 0 THEN lo + (hi - lo) \div 2
                                         ELSE LET mid == lo + (hi - lo) \div 2 IN
                                              IF Share(near, mid) < goal THEN B(mid, hi, k - 1) ELSE B(lo, mid, k - 1)
                     IN B(100000, 1500000000, 26)
Full == LET noise == TLCEval([k \in 1..Len(Num) |-> Noise(Num[k])])
            num(p) == (p[1] - 1) * W + p[2]
            ex(p, q) == Excess(Dist(p, q), noise[num(p)] + noise[num(q)])
            near == TLCEval([k \in 1..Len(Num) |-> LET a == Around(Num[k], 1) IN [j \in 1..Len(a) |-> ex(Num[k], a[j])]])
            c == TLCEval(Sharp(near, R.coeff)) IN
   \A k \in 1..Len(Num) :
      LET a == TLCEval(Around(Num[k], R.rad))
          w == TLCEval([j \in 1..Len(a) |-> Weight(ex(Num[k], a[j]), c)])
          top == TLCEval(Add(LAMBDA j : IF a[j] = Num[k] THEN 0 ELSE w[j] \div 10, Len(a)))
          \* a bias multiplies the weight of the pattern itself: the others shrink
          all == TLCEval(Mul8(top, ExpNeg8(R.bias)) + (One8 \div 10))
          sh == TLCEval([j \in 1..Len(a) |-> Ratio8((IF a[j] = Num[k] THEN One8 ELSE Mul8(w[j], ExpNeg8(R.bias))) \div 10, all)])
          \* hundredths of a thousandth
          want == TLCEval([x \in 1..N |-> Add(LAMBDA j : ((sh[j] + 50) \div 100) * At(a[j])[x], Len(a)) \div 10])
      IN Clause("weighted mean of the patterns around", \A x \in 1..N : Near(R.got[Num[k][1]][Num[k][2]][x], want[x], R.tol),
                [id |-> R.id, at |-> Num[k], sharp |-> c, got |-> R.got[Num[k][1]][Num[k][2]], want |-> want])
(* for any scan: between the values around; a lone pattern stays                        *)
Hull == \A k \in 1..Len(Num) :
   LET a == TLCEval(Around(Num[k], R.rad)) IN
   Clause("within the values of the patterns around", \A x \in 1..N :
      LET g == R.got[Num[k][1]][Num[k][2]][x] IN
      /\ \E j \in 1..Len(a) : g >= 100000 * At(a[j])[x] - 400
      /\ \E j \in 1..Len(a) : g <= 100000 * At(a[j])[x] + 400, [id |-> R.id, at |-> Num[k], got |-> R.got[Num[k][1]][Num[k][2]]])
Init == t = 0
Next == t < Len(All) /\ t' = t + 1
Spec == Init /\ [][Next]_vars
Judged == t = 0 \/ (Hull /\ (R.full => Full))
=============================================================================
