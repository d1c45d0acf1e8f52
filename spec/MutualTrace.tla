----------------------------- MODULE MutualTrace -----------------------------
(* Mutual information of images, judged on recorded values. An image is a list  *)
(* of integers u: the value u / (2 bins) of its range, in bin u div 2 (the top   *)
(* value belongs to the last bin). Entropies in nats, 1e8.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Vp, Fix8
CONSTANTS Samples
VARIABLES t
vars == <<t>>
All == Samples
R == All[t]
Add(f(_), m) == LET RECURSIVE S(_)
                    S(k) == IF k = 0 THEN 0 ELSE f(k) + S(k - 1) IN S(m)
(* ln(n + 1) - ln n = 2 atanh(1 / (2n + 1))                                        *)
Step(n) == LET y == Ratio8(1, 2 * n + 1)  q == Mul8(y, y)
               RECURSIVE S(_, _)
               S(k, p) == IF p = 0 THEN 0 ELSE p \div k + S(k + 2, Mul8(p, q)) IN 2 * S(1, y)
Logs == LET RECURSIVE L(_, _)
            L(n, v) == IF n > 200 THEN <<>> ELSE <<v>> \o L(n + 1, v + Step(n)) IN L(1, 0)
ASSUME TLCSet(11, TLCEval(Logs))
Ln(n) == TLCGet(11)[n]
ASSUME Near(Ln(2), 69314718, 30) /\ Near(Ln(10), 230258509, 100) /\ Near(Ln(128), 485203026, 1200)
(* entropy of labels                                                               *)
Entropy(s) == LET n == Len(s)
                  c == TLCEval([p \in 1..n |-> Cardinality({q \in 1..n : s[q] = s[p]})]) IN
              LET s2 == Add(LAMBDA p : (2 * Ln(c[p]) + 25) \div 50, n) IN
              Ln(n) - ((s2 \div n) * 25 + ((s2 % n) * 25) \div n)
Bin(u, bins) == Min2(u \div 2, bins - 1)
Bins(s, bins) == TLCEval([i \in 1..Len(s) |-> Bin(s[i], bins)])
(* minmax: a constant image belongs to the first bin (recorded images span their   *)
(* range otherwise)                                                                *)
Flat(s) == \A i \in 1..Len(s) : s[i] = s[1]
Normed(s, bins) == IF R.normed /\ Flat(s) THEN [i \in 1..Len(s) |-> 0] ELSE Bins(s, bins)
Pairs(a, b, f) == TLCEval([i \in 1..Len(a) |-> a[i] * f + b[i]])
Quot(a, b) == Ratio8(a \div 16, b \div 16)
(* r / atanh(r)                                                                    *)
Atanhc(r) == LET q == Mul8(r, r)
                 RECURSIVE S(_, _)
                 S(k, p) == IF p = 0 THEN 0 ELSE p \div k + S(k + 2, Mul8(p, q)) IN S(1, One8)
Root(a) == 2 * RatioRoot8(a \div 4, One8)
(* normalised by the entropies x, y, j; -1: not judged (small divisors, or the      *)
(* logarithmic mean of nearly equal entropies)                                      *)
Norm(mode, mi, x, y, j) ==
   LET d == CASE mode = "Kvalseth Sum" -> (x + y) \div 2
              [] mode = "Kvalseth Min" -> Min2(x, y)
              [] mode = "Kvalseth Max" -> Max2(x, y)
              [] mode = "Yao" -> j
              [] mode = "Strehl-Ghosh" -> Mul8(Root(x), Root(y))
              [] OTHER -> LET r == Quot(x - y, x + y) IN IF Abs(r) > 60000000 THEN 0 ELSE Quot((x + y) \div 2, Atanhc(r)) IN
   IF mode = "none" THEN mi ELSE IF Min2(x, y) < 20000000 \/ d < 20000000 \/ (mode = "Logarithmic" /\ Abs(x - y) \in 400..2000000) THEN -1 ELSE Quot(mi, d)
Info(a, b, bins, mode, bits) == LET x == Entropy(a)  y == Entropy(b)  j == Entropy(Pairs(a, b, bins))
                                    v == Norm(mode, x + y - j, x, y, j) IN
                                IF bits /\ mode = "none" THEN v + Mul8(44269504, v) ELSE v
Good(got, want) == want = -1 \/ Near(got, want, 1500)
Plain == LET want == Info(Normed(R.a, R.bins), Normed(R.b, R.bins), R.bins, "none", FALSE) IN
         Clause("mutual information of the binned images", Good(R.got, want), [r |-> R, want |-> want])
(* the lowest bins left out                                                          *)
Kept(a, b) == SelectSeq([i \in 1..Len(a) |-> <<a[i], b[i]>>], LAMBDA p : ~R.trim \/ (p[1] > 0 /\ p[2] > 0))
Binned == LET k == TLCEval(Kept(Bins(R.a, R.bins), Bins(R.b, R.binsy)))
              want == IF Len(k) = 0 THEN -1 ELSE Info([i \in 1..Len(k) |-> k[i][1]], [i \in 1..Len(k) |-> k[i][2]], R.binsy, R.mode, R.bits) IN
          Clause("normalised mutual information of the binned images", Good(R.got, want), [r |-> R, want |-> want])
(* every cyclic shift of the source; got[y][x] has the shift (y - h div 2, x - w div 2) *)
Shifted(s, h, w, dy, dx) == [i \in 1..(h * w) |-> s[((((i - 1) \div w) - dy) % h) * w + ((((i - 1) % w) - dx) % w) + 1]]
(* pixels outside of the foreground (mask 0) of either image do not count; constant   *)
(* marginals are those of the whole foreground of each image, for every shift          *)
Inside(s, m) == SelectSeq([k \in 1..Len(s) |-> IF m[k] = 1 THEN s[k] ELSE -1], LAMBDA v : v >= 0)
Masked(d, s, m1, m2, wholeA, wholeB) ==
   LET both == TLCEval([k \in 1..Len(d) |-> m1[k] * m2[k]])
       a == TLCEval(Inside(d, both))  b == TLCEval(Inside(s, both)) IN
   IF Len(a) = 0 THEN -1 ELSE
   LET x == IF R.constant THEN wholeA ELSE Entropy(a)
       y == IF R.constant THEN wholeB ELSE Entropy(b)
       j == Entropy(Pairs(a, b, R.binsy)) IN
   Norm(R.mode, Max2(x + y - j, 0), x, y, j)
Cross == LET d == Bins(R.a, R.bins)  s == Bins(R.b, R.binsy)
             \* the marginals of the whole foreground, once
             x == IF R.constant THEN Entropy(Inside(d, R.ma)) ELSE 0
             y == IF R.constant THEN Entropy(Inside(s, R.mb)) ELSE 0 IN
   \A r \in 1..R.h : \A c \in 1..R.w :
      LET want == Masked(d, Shifted(s, R.h, R.w, r - 1 - (R.h \div 2), c - 1 - (R.w \div 2)), R.ma,
                         Shifted(R.mb, R.h, R.w, r - 1 - (R.h \div 2), c - 1 - (R.w \div 2)), x, y) IN
      Clause("mutual information at every shift", Len(R.got) = R.h /\ Len(R.got[1]) = R.w /\ Good(R.got[r][c], IF want = -1 THEN -1 ELSE Max2(want, 0)), [id |-> R.id, y |-> r, x |-> c, got |-> R.got[r][c], want |-> want])
Init == t = 0
Next == t < Len(All) /\ t' = t + 1
Spec == Init /\ [][Next]_vars
Judged == t = 0 \/ (CASE R.op = "plain" -> Plain [] R.op = "binned" -> Binned [] OTHER -> Cross)
=============================================================================
