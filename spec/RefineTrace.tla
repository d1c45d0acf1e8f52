---------------------------- MODULE RefineTrace ----------------------------
(* Orientation refinement as a state machine over recorded runs. The master    *)
(* pattern under test is a probe: each lookup gives the crystal orientations    *)
(* tried (rotation matrices, row by row, in 1e8) and the patterns they scored.   *)
(*                                                                               *)
(* Grid search: every pattern has a center and a step. Each round tries the      *)
(* center turned by a local grid of cubochoric steps; the best becomes the new   *)
(* center and the step shrinks when the center itself was best.                  *)
(* Gradient search: every pattern walks; the best orientation scored is kept     *)
(* when it beats the first one.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Vp, Fix8
CONSTANTS Samples
VARIABLES t, poss, rounds, ok
vars == <<t, poss, rounds, ok>>
All == Samples
Run == All[t]                                                     \* the events of one run come after its "new"
Add(f(_), m) == LET RECURSIVE S(_)
                    S(k) == IF k = 0 THEN 0 ELSE f(k) + S(k - 1) IN S(m)
(* proper rotations of the crystal that permute its axes                         *)
Perms == {<<a, b, c>> : a \in 1..3, b \in 1..3, c \in 1..3}
Odd(p) == p \in {<<2, 1, 3>>, <<1, 3, 2>>, <<3, 2, 1>>}
Signed == {s \in [p : {p \in Perms : Cardinality({p[1], p[2], p[3]}) = 3}, s : [1..3 -> {1, -1}]] :
             s.s[1] * s.s[2] * s.s[3] = (IF Odd(s.p) THEN -1 ELSE 1)}
ASSUME Cardinality(Signed) = 24
Group(l) == CASE l = 1 -> {s \in Signed : s.p = <<1, 2, 3>> /\ s.s[1] = 1 /\ s.s[2] = 1}
              [] l = 2 -> {s \in Signed : s.p = <<1, 2, 3>> /\ s.s[3] = 1}
              [] l = 3 -> {s \in Signed : s.p = <<1, 2, 3>>}
              [] l = 4 -> {s \in Signed : s.p[3] = 3 /\ s.s[3] = 1}
              [] l = 5 -> {s \in Signed : s.p[3] = 3}
              [] l = 10 -> {s \in Signed : ~Odd(s.p)}
              [] OTHER -> Signed
ASSUME TLCSet(11, [l \in 1..11 |-> TLCEval(Group(l))])
G(l) == TLCGet(11)[l]
ASSUME \A l \in {1, 2, 3, 4, 5, 10, 11} : Cardinality(G(l)) = (CASE l = 1 -> 1 [] l = 2 -> 2 [] l = 3 -> 4 [] l = 4 -> 4 [] l = 5 -> 8 [] l = 10 -> 12 [] OTHER -> 24)
At(R, i, j) == R[3 * (i - 1) + j]
(* S R: row i is s[i] times row p[i]                                             *)
Turn(s, R) == [m \in 1..9 |-> LET i == ((m - 1) \div 3) + 1  j == ((m - 1) % 3) + 1 IN s.s[i] * At(R, s.p[i], j)]
Rel(A, B) == TLCEval([m \in 1..9 |-> LET i == ((m - 1) \div 3) + 1  j == ((m - 1) % 3) + 1 IN Add(LAMBDA k : Mul8(At(A, i, k), At(B, j, k)), 3)])   \* A B^T
Trace(s, M) == Add(LAMBDA i : s.s[i] * At(M, s.p[i], i), 3)
(* the smallest rotation from B to A up to the crystal's symmetry: matrix        *)
Least(l, A, B) == LET M == Rel(A, B)
                      s == CHOOSE x \in G(l) : \A y \in G(l) : Trace(y, M) <= Trace(x, M) IN TLCEval(Turn(s, M))
Axis(M) == <<(At(M, 3, 2) - At(M, 2, 3)) \div 2, (At(M, 1, 3) - At(M, 3, 1)) \div 2, (At(M, 2, 1) - At(M, 1, 2)) \div 2>>
Same(l, A, B, tol) == \E s \in G(l) : LET T == Turn(s, B) IN \A m \in 1..9 : Near(A[m], T[m], tol)
(* ------------------------------ the local grid -------------------------------- *)
R1 == 133067004                                                   \* radius of the ball of rotations, (3 pi / 4)^(1/3)
Angle(run, level, scale) == LET h == Mul8(Mul8(R1, Ratio8(run.semi * level, 18000 * run.k)), scale)
                                w == 2 * h + (8 * Mul8(Mul8(h, h), h)) \div 60 IN w - Mul8(Mul8(w, w), w) \div 6      \* sine of the angle
Norm(v) == RatioRoot8(Mul8(v[1], v[1]) + Mul8(v[2], v[2]) + Mul8(v[3], v[3]), One8)
Sg(x, th) == IF x > th THEN 1 ELSE IF x < -th THEN -1 ELSE 0
Sig(v, level, th) == <<level, Sg(v[1], th), Sg(v[2], th), Sg(v[3], th), Sg(Abs(v[1]) - Abs(v[2]), th), Sg(Abs(v[1]) - Abs(v[3]), th), Sg(Abs(v[2]) - Abs(v[3]), th)>>
Zeros(o) == Cardinality({i \in 1..3 : o[i] = 0})
Offsets(k, dim) == {o \in {<<a, b, c>> : a \in -k..k, b \in -k..k, c \in -k..k} : dim = 3 \/ (dim = 2 /\ Zeros(o) >= 1) \/ (dim = 1 /\ Zeros(o) >= 2)}
Expected(k, dim) == {Sig(o, Max2(Abs(o[1]), Max2(Abs(o[2]), Abs(o[3]))), 0) : o \in Offsets(k, dim)}
ASSUME TLCSet(12, [k \in 1..2 |-> TLCEval([d \in 1..3 |-> TLCEval(Expected(k, d))])])
ASSUME \A k \in 1..2 : \A d \in 1..3 : Cardinality(TLCGet(12)[k][d]) = Cardinality(Offsets(k, d))
Level(run, v, scale) == LET n == Norm(v)
                            ls == {x \in 0..run.k : Near(n, Angle(run, x, scale), 300 + (n \div 2000))} IN IF ls = {} THEN -1 ELSE CHOOSE x \in ls : TRUE
SigOf(run, row, k, c, scale) == LET v == Axis(Least(row.laue, row.cands[k], row.cands[c]))
                                IN Sig(v, Level(run, v, scale), Max2(Norm(v) \div 12, 150))
(* ------------------------------- scores --------------------------------------- *)
Dot(e, s) == LET p == Len(e) IN p * Add(LAMBDA i : e[i] * s[i], p) - Add(LAMBDA i : e[i], p) * Add(LAMBDA i : s[i], p)
Size(e, s) == Len(e) * Add(LAMBDA i : Abs(e[i] * s[i]), Len(e))
(* correlation, 1e8; e integers, s in 1e6                                          *)
Dev(s) == LET m == Add(LAMBDA i : s[i], Len(s)) IN TLCEval([i \in 1..Len(s) |-> s[i] - m \div Len(s)])
Corr(e, s) == LET de == Dev([i \in 1..Len(e) |-> e[i] * 100000])  ds == Dev(s)
                  a == Add(LAMBDA i : Mul8(de[i] * 16, ds[i] * 16), Len(e))
                  b == Add(LAMBDA i : Mul8(de[i] * 16, de[i] * 16), Len(e))
                  c == Add(LAMBDA i : Mul8(ds[i] * 16, ds[i] * 16), Len(e))
              IN IF b < 1000 \/ c < 1000 THEN 0 ELSE LET r == Mul8(RatioRoot8(b \div 20, One8), RatioRoot8(c \div 20, One8)) IN Ratio8(a \div 20, r)
(* -------------------------------- state --------------------------------------- *)
(* poss[p]: the orientations p can be at: [r |-> matrix, scale |-> step] (grid),    *)
(* or all orientations scored so far with their scores (gradient)                   *)
NewState(e) == [p \in 1..Len(e.cur) |-> IF e.kind = "grid" THEN {[r |-> e.cur[p], scale |-> One8, got |-> <<>>]} ELSE {}]
RunOf(i) == LET RECURSIVE B(_)
                B(k) == IF All[k].op = "new" THEN k ELSE B(k - 1) IN B(i)
Slack(run, e, s) == IF run.half THEN Size(e, s) \div 60 ELSE 0
GridRow(run, row, ps) ==
   LET c == (Len(row.cands) + 1) \div 2
       who == {p \in 1..Len(ps) : run.phase[p] = row.phase /\ \E x \in ps[p] : Same(row.laue, row.cands[c], x.r, 1500)} IN
   IF who = {} THEN [p |-> 0, next |-> {}]
   ELSE LET p == CHOOSE q \in who : TRUE
            from == {x \in ps[p] : Same(row.laue, row.cands[c], x.r, 1500)}
            \* steps near the resolution of single precision are not told apart
            fine == {x \in from : Angle(run, 1, x.scale) < 350000}
            sets == IF fine # {} THEN from ELSE {x \in from : {SigOf(run, row, k, c, x.scale) : k \in 1..Len(row.cands)} = TLCGet(12)[run.k][run.dim]}
            d == TLCEval([k \in 1..Len(row.cands) |-> Dot(run.exps[p], row.sims[k])])
            top == MaxSeq(d)
            sl == MaxSeq([k \in 1..Len(row.cands) |-> Slack(run, run.exps[p], row.sims[k])])
            best == {k \in 1..Len(row.cands) : d[k] >= top - 2 * sl}
        IN [p |-> p, grid |-> sets # {}, n |-> Len(row.cands), from |-> from,
            sigs |-> IF sets # {} THEN {} ELSE {SigOf(run, row, k, c, (CHOOSE x \in from : TRUE).scale) : k \in 1..Len(row.cands)},
            next |-> {[r |-> row.cands[k], scale |-> IF k = c THEN Mul8(x.scale, run.shrink) ELSE x.scale, got |-> Append(x.got, <<d[k], sl>>)] : k \in best, x \in (IF sets = {} THEN from ELSE sets)}]
Closest(run, row, ps) == LET d(p) == LET M == Rel(row.cands[1], IF ps[p] = {} THEN run.cur[p] ELSE (CHOOSE x \in ps[p] : \A y \in ps[p] : y.n <= x.n).r) IN At(M, 1, 1) + At(M, 2, 2) + At(M, 3, 3)
                             mine == {p \in 1..Len(ps) : run.phase[p] = row.phase}
                             dd == TLCEval([p \in mine |-> d(p)]) IN
                         IF mine = {} THEN 0 ELSE CHOOSE p \in mine : \A q \in mine : dd[q] <= dd[p]
GradRow(run, row, ps) == LET p == Closest(run, row, ps) IN
   [p |-> p, next |-> IF p = 0 THEN {} ELSE ps[p] \union {[r |-> row.cands[1], n |-> Cardinality(ps[p]), score |-> Corr(run.exps[p], row.sims[1])]}]
RECURSIVE Rows(_, _, _, _)
Rows(run, rows, k, ps) == IF k > Len(rows) THEN <<ps, <<>>>>
   ELSE LET g == TLCEval(IF run.kind = "grid" THEN GridRow(run, rows[k], ps) ELSE GradRow(run, rows[k], ps))
            n == Rows(run, rows, k + 1, IF g.p = 0 THEN ps ELSE [ps EXCEPT ![g.p] = g.next]) IN <<n[1], <<g>> \o n[2]>>
Init == t = 0 /\ poss = <<>> /\ rounds = <<>> /\ ok = <<>>
Next == t < Len(All) /\ t' = t + 1 /\
   LET e == All[t + 1] IN
   CASE e.op = "new" -> poss' = NewState(e) /\ rounds' = [p \in 1..Len(e.cur) |-> 0] /\ ok' = <<>>
     [] e.op = "score" -> LET run == All[RunOf(t + 1)]
                              r == TLCEval(Rows(run, e.rows, 1, poss)) IN
                          /\ poss' = r[1] /\ ok' = r[2]
                          /\ rounds' = [p \in 1..Len(rounds) |-> rounds[p] + Cardinality({k \in 1..Len(r[2]) : r[2][k].p = p})]
     [] OTHER -> UNCHANGED <<poss, rounds>> /\ ok' = <<>>
Spec == Init /\ [][Next]_vars
(* -------------------------------- clauses -------------------------------------- *)
Score == LET run == All[RunOf(t)] IN \A k \in 1..Len(ok) :
   /\ Clause("orientations are tried around the best so far", ok[k].p # 0, [run |-> run.id, event |-> t, row |-> k, tried |-> Run.rows[k].cands[(Len(Run.rows[k].cands) + 1) \div 2], poss |-> poss])
   /\ run.kind # "grid" \/ ok[k].p = 0 \/ (/\ Clause("local grid", ok[k].grid /\ ok[k].n = Cardinality(Offsets(run.k, run.dim)), [run |-> run.id, event |-> t, row |-> k, pattern |-> ok[k].p, n |-> ok[k].n, from |-> ok[k].from, signatures |-> ok[k].sigs]))
TopScore(p) == (CHOOSE x \in poss[p] : \A y \in poss[p] : y.score <= x.score).score
Still(p) == LET run == All[RunOf(t)] IN \A m \in 1..9 : Near(Run.final[p][m], run.cur[p][m], 100)
End == LET run == All[RunOf(t)] IN \A p \in 1..Len(poss) :
   /\ Still(p) \/ Clause("refined orientations are in the fundamental zone", Run.front[p] /\ \A s \in G(run.laue[p]) : Trace(s, Run.final[p]) <= At(Run.final[p], 1, 1) + At(Run.final[p], 2, 2) + At(Run.final[p], 3, 3) + 3000, [run |-> run.id, pattern |-> p, got |-> Run.final[p]])
   /\ Clause("every pattern takes all rounds", rounds[p] = run.niter, [run |-> run.id, pattern |-> p, rounds |-> rounds[p]])
   /\ IF run.kind = "grid" THEN
        Clause("the best orientation is kept", \E x \in poss[p] : Same(run.laue[p], Run.final[p], x.r, 1500), [run |-> run.id, pattern |-> p, got |-> Run.final[p], poss |-> poss[p]])
        /\ Clause("the score of every round is returned", Len(Run.scores[p]) = run.niter /\ \E x \in poss[p] : \A j \in 1..run.niter : Near(Run.scores[p][j], x.got[j][1], 2 + x.got[j][2]), [run |-> run.id, pattern |-> p, got |-> Run.scores[p], poss |-> poss[p]])
      ELSE poss[p] = {} \/
        /\ run.climbs => \A x, y \in poss[p] : x.n = 0 /\ y.n = 1 => Clause("a small step does not lower the score", y.score >= x.score - 600000, [run |-> run.id, pattern |-> p, scores |-> <<x.score, y.score>>])
        /\ Clause("the best scored orientation is kept", \E x \in poss[p] : x.score >= TopScore(p) - run.slack /\ Same(run.laue[p], Run.final[p], x.r, 1500), [run |-> run.id, pattern |-> p, got |-> Run.final[p], scores |-> {x.score : x \in poss[p]}])
Judged == t = 0 \/ Run.op = "new" \/ (IF Run.op = "score" THEN Score ELSE End)
=============================================================================
