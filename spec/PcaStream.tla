----------------------------- MODULE PcaStream -----------------------------
(* Streaming component analysis as a state machine. Events: "new" (model made), *)
(* "feed" (a batch of integer samples, less a common offset) and what the code  *)
(* then reports. State of the specification: number of samples, their sum, the  *)
(* sum of their products (covariance), and the components reported last.        *)
EXTENDS Integers, Sequences, TLC, Vp, Fix8
CONSTANTS Samples
VARIABLES t, n, sum, prod, steps
vars == <<t, n, sum, prod, steps>>
All == Samples
Ev == All[t]
Zero(f) == [i \in 1..f |-> 0]
Add(f(_), m) == LET RECURSIVE S(_)
                    S(k) == IF k = 0 THEN 0 ELSE f(k) + S(k - 1) IN S(m)
Init == t = 0 /\ n = 0 /\ sum = <<>> /\ prod = <<>> /\ steps = 0
F == IF t = 0 THEN 0 ELSE Ev.f
After(e) == IF e.op = "new"
   THEN n' = 0 /\ sum' = Zero(e.f) /\ prod' = [i \in 1..e.f |-> Zero(e.f)] /\ steps' = 0
   ELSE /\ n' = n + Len(e.x)
        /\ sum' = TLCEval([i \in 1..e.f |-> sum[i] + Add(LAMBDA r : e.x[r][i], Len(e.x))])
        /\ prod' = TLCEval([i \in 1..e.f |-> TLCEval([j \in 1..e.f |-> prod[i][j] + Add(LAMBDA r : e.x[r][i] * e.x[r][j], Len(e.x))])])
        /\ steps' = steps + 1
Next == t < Len(All) /\ t' = t + 1 /\ After(All[t + 1])
Spec == Init /\ [][Next]_vars
(* ---------------------------- covariance ------------------------------------ *)
Num(i, j) == n * prod[i][j] - sum[i] * sum[j]                     \* n (n - 1) times the covariance
Covariance == \A i \in 1..F : \A j \in 1..F :
   Clause("covariance of all samples so far", Near(Ev.cov[i][j], (Num(i, j) * 10000) \div (n * (n - 1)), 1 + Ev.loose), [at |-> t, i |-> i, j |-> j, got |-> Ev.cov[i][j], want |-> (Num(i, j) * 10000) \div (n * (n - 1))])
Corr(i, j) == LET lo == IF Num(i, i) <= Num(j, j) THEN i ELSE j
                  hi == IF lo = i THEN j ELSE i IN
              Mul8(Ratio8(Num(i, j), Num(lo, lo)), RatioRoot8(Num(lo, lo), Num(hi, hi)))
Correlation == \A i \in 1..F : \A j \in 1..F :
   Num(i, i) = 0 \/ Num(j, j) = 0 \/ Num(i, i) > 300 * Num(j, j) \/ Num(j, j) > 300 * Num(i, i) \/
   Clause("correlation of all samples so far", Near(Ev.cov[i][j], Corr(i, j), 2000 + 10000 * Ev.loose), [at |-> t, i |-> i, j |-> j, got |-> Ev.cov[i][j], want |-> Corr(i, j)])
(* eigenvectors E (columns) of C / 64                                          *)
C64(i, j) == Ratio8(Num(i, j), 64 * n * (n - 1))
Eigen ==
   LET E == Ev.vec
       CE == TLCEval([i \in 1..F |-> TLCEval([k \in 1..F |-> Add(LAMBDA j : Mul8(C64(i, j), E[j][k]), F)])])
       L == TLCEval([k \in 1..F |-> Add(LAMBDA i : Mul8(E[i][k], CE[i][k]), F)]) IN
   /\ Clause("eigenvectors are orthonormal", \A k \in 1..F : \A l \in 1..F : Near(Add(LAMBDA i : Mul8(E[i][k], E[i][l]), F), IF k = l THEN One8 ELSE 0, 1000), [at |-> t])
   /\ Clause("eigenvectors of the covariance", \A k \in 1..F : \A i \in 1..F : Near(CE[i][k], Mul8(L[k], E[i][k]), 2000 + 10000 * Ev.loose), [at |-> t, values |-> L])
   /\ Clause("eigenvectors in ascending order", \A k \in 1..(F - 1) : L[k] <= L[k + 1] + 2000 + 10000 * Ev.loose, [at |-> t, values |-> L])
Cov == Ev.op # "feed" \/ n < 2 \/ (/\ (IF Ev.corr THEN Correlation ELSE Covariance) /\ (Ev.vec = <<>> \/ Eigen))
(* ------------------------------- Oja ---------------------------------------- *)
(* Q' R = Q + eta X^T X Q, in 1e6 (and 1e8 / 64); eta = eta16 / 16               *)
Oja == LET K == Ev.k
           G(i, j) == Add(LAMBDA r : Ev.x[r][i] * Ev.x[r][j], Len(Ev.x))
           XX == TLCEval([i \in 1..F |-> TLCEval([j \in 1..F |-> G(i, j)])])
           M == TLCEval([i \in 1..F |-> TLCEval([c \in 1..K |-> ((16 * Ev.before[i][c] + Ev.eta16 * Add(LAMBDA j : XX[i][j] * Ev.before[j][c], F)) \div 1024) * 100])])
           Q == Ev.after
           R == TLCEval([a \in 1..K |-> TLCEval([b \in 1..K |-> Add(LAMBDA i : Mul8(Q[i][a], M[i][b]), F)])]) 
           fresh == Ev.plus /\ steps % Max2(K \div 2, 1) = 0 /\ steps \div Max2(K \div 2, 1) <= K
           new == IF fresh THEN steps \div Max2(K \div 2, 1) ELSE 0             \* Oja++: this column was drawn anew
           old == (1..K) \ {new} IN
   /\ Clause("components are orthonormal", \A a \in old : \A b \in old : Near(Add(LAMBDA i : Mul8(Q[i][a], Q[i][b]), F), IF a = b THEN One8 ELSE 0, Ev.tol), [at |-> t, k |-> K])
   /\ Clause("components are the orthonormalised Oja update", \A a \in old : \A b \in old : a <= b \/ Near(R[a][b], 0, Ev.tol + 400), [at |-> t, r |-> R])
   /\ Clause("components span the Oja update", new # 0 \/ \A b \in 1..K : \A i \in 1..F : Near(M[i][b], Add(LAMBDA a : Mul8(Q[i][a], R[a][b]), K), Ev.tol + 400), [at |-> t, r |-> R, m |-> M])
   /\ Clause("steps are counted", Ev.step = steps, [at |-> t, got |-> Ev.step, want |-> steps])
   \* a column drawn from the normal distribution is not what the update would have left there
   /\ Clause("Oja++ draws a column anew", new = 0 \/ \E a \in 1..K : ~Near(Add(LAMBDA i : Mul8(Q[i][a], Q[i][new]), F), IF a = new THEN One8 ELSE 0, Ev.tol), [at |-> t, column |-> new])
   /\ Clause("Oja++ keeps account of the columns drawn", ~Ev.plus \/ \A a \in 1..K : Ev.drawn[a] = (a <= steps \div Max2(K \div 2, 1)), [at |-> t, got |-> Ev.drawn])
(* transform and back                                                          *)
Proj == \A r \in 1..Len(Ev.y) : 
   /\ \A a \in 1..Ev.k : Clause("projection on the components", Near(Ev.z[r][a], Add(LAMBDA i : Ev.y[r][i] * Ev.after[i][a], F), 200 + 4 * Ev.tol), [at |-> t, row |-> r])
   /\ \A i \in 1..F : Clause("reconstruction from the components", Near(Ev.back[r][i], Add(LAMBDA a : Mul8(Ev.z[r][a], Ev.after[i][a]), Ev.k), 200 + 4 * Ev.tol), [at |-> t, row |-> r])
(* samples along the orthogonal directions (1,1,1,1), (1,-1,1,-1), (1,1,-1,-1),  *)
(* (1,-1,-1,1) of different weights, in batches of any size                     *)
Had == <<<<1, 1, 1, 1>>, <<1, -1, 1, -1>>, <<1, 1, -1, -1>>, <<1, -1, -1, 1>>>>
Converged == \A a \in 1..Ev.k : LET h == Had[Ev.rank[a]] IN
   Clause("components converge to the directions of largest variance, in order", \A i \in 1..4 : Near(Ev.after[i][a], (IF Ev.after[1][a] > 0 THEN 1 ELSE -1) * h[i] * 50000000, 20000 + Ev.tol), [rank |-> Ev.rank, got |-> Ev.after])
(* ----------------------------- Krasulina -------------------------------------- *)
Root8(x) == Mul8(RatioRoot8(x \div 32, One8), 565685425)
Kras ==
   LET K == Ev.k
       H == TLCEval([r \in 1..Len(Ev.x) |-> TLCEval([a \in 1..K |-> Add(LAMBDA i : Ev.x[r][i] * Ev.dual[a][i], F)])])
       W == TLCEval([r \in 1..Len(Ev.x) |-> Mul8(Ev.eta8, Ratio8(One8 \div 8, (One8 + Mul8(Ev.eta8, Root8(Add(LAMBDA a : Mul8(H[r][a], H[r][a]), K)))) \div 8))])
       Res == TLCEval([r \in 1..Len(Ev.x) |-> TLCEval([i \in 1..F |-> Ev.x[r][i] * One8 - Add(LAMBDA a : Mul8(Ev.before[i][a], H[r][a]), K)])])
       Upd(i, a) == Ev.before[i][a] + Add(LAMBDA r : Mul8(Mul8(W[r], Res[r][i]), H[r][a]), Len(Ev.x)) IN
   /\ Clause("components move by the weighted residuals", \A i \in 1..F : \A a \in 1..K : Near(Ev.after[i][a], Upd(i, a), Ev.tol), [at |-> t, got |-> Ev.after, want |-> [i \in 1..F |-> [a \in 1..K |-> Upd(i, a)]]])
   /\ Clause("dual components", \A a \in 1..K : \A b \in 1..K : Near(Add(LAMBDA i : Mul8(Ev.dualAfter[a][i], Ev.after[i][b]), F), IF a = b THEN One8 ELSE 0, Ev.tol), [at |-> t])
   /\ Clause("dual components lie in the span", \A i \in 1..F : \A j \in 1..F : Near(Add(LAMBDA a : Mul8(Ev.after[i][a], Ev.dualAfter[a][j]), K), Add(LAMBDA a : Mul8(Ev.after[j][a], Ev.dualAfter[a][i]), K), Ev.tol), [at |-> t])
   /\ Clause("reported components are orthonormal", \A a \in 1..K : \A b \in 1..K : Near(Add(LAMBDA i : Mul8(Ev.u[i][a], Ev.u[i][b]), F), IF a = b THEN One8 ELSE 0, Ev.tol), [at |-> t])
   /\ Clause("reported components span the same space", \A i \in 1..F : \A a \in 1..K :
         Near(Ev.after[i][a], Add(LAMBDA b : Mul8(Ev.u[i][b], Add(LAMBDA j : Mul8(Ev.u[j][b], Ev.after[j][a]), F)), K), Ev.tol), [at |-> t])
   /\ \A r \in 1..Len(Ev.y) : 
      /\ \A a \in 1..K : Clause("projection on the components", Near(Ev.z[r][a], Add(LAMBDA i : Ev.y[r][i] * Ev.dualAfter[a][i], F), Ev.tol), [at |-> t, row |-> r])
      /\ \A i \in 1..F : Clause("reconstruction from the components", Near(Ev.back[r][i], Add(LAMBDA a : Mul8(Ev.z[r][a], Ev.after[i][a]), K), Ev.tol), [at |-> t, row |-> r])
Judged == t = 0 \/ Ev.op = "new" \/ CASE Ev.model = "cov" -> Cov [] Ev.model = "oja" -> (IF Ev.op = "end" THEN Converged ELSE Oja /\ Proj) [] OTHER -> Kras
=============================================================================
