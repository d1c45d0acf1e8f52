------------------------------ MODULE BeamTrace ------------------------------
(* Propagation of the electron wave through depth slices. State of the wave:   *)
(* amplitudes psi of the beams (1e8), psi = (1,0,..0) at the surface; a slice   *)
(* of thickness z turns it by exp(i pi lambda z (U + diag(2 s / lambda + i U'))) *)
(* with s the excitation errors. The intensity of a site is the sum over        *)
(* slices, by share of the electrons, of Re(S psi conj psi), up to the slice      *)
(* at which 95 % of the electrons of that voltage are reached (at most 100).    *)
EXTENDS Integers, Sequences, TLC, Vp, Fix8
CONSTANTS Samples
VARIABLES t,        \* sample
          d,        \* slices passed
          psi,      \* amplitudes <<re, im>>
          mat,      \* generator of a substep
          lgh       \* accumulated products, by slices' shares
vars == <<t, d, psi, mat, lgh>>
All == Samples
Rec == All[t]
N(r) == Len(r.g)
Sum(f(_), n) == LET RECURSIVE S(_)
                    S(k) == IF k = 0 THEN 0 ELSE f(k) + S(k - 1) IN S(n)
(* ------------------------------ generator ---------------------------------- *)
(* r.lam: 1e10, r.g: Cartesian beams 1e7 per nm, r.k: unit direction 1e8, r.u: 1e7, *)
(* r.up: 1e7, r.dz: 1e-4 nm, r.sub substeps                                     *)
H(r) == (r.dz * 10000) \div r.sub
GK(r, i) == Sum(LAMBDA a : Mul8(r.g[i][a], r.k[a]), 3)
LGG(r, i) == Sum(LAMBDA a : Mul8(Mul8(r.lam, r.g[i][a]), r.g[i][a]), 3)
(* -(g.k + lambda g^2 / 2) / (1 + lambda g.k)                                   *)
Err(r, i) == IF i = 1 THEN 0 ELSE
             LET num == 10 * GK(r, i) + LGG(r, i) \div 2
                 den == One8 + Mul8(r.lam, GK(r, i)) \div 10 IN
             Mul8(-num, Ratio8(50000000, den \div 2))
Gen(r) == LET c == Mul8(628318531, H(r))
              l == Mul8(Mul8(314159265, H(r)), r.lam)
              Entry(i, j) == IF i = j THEN <<-(Mul8(l, r.up) \div 10), Mul8(c, Err(r, i))>>
                             ELSE <<-(Mul8(l, r.u[i][j][2]) \div 10), Mul8(l, r.u[i][j][1]) \div 10>> IN
          TLCEval([i \in 1..N(r) |-> TLCEval([j \in 1..N(r) |-> TLCEval(Entry(i, j))])])
Norm(m, n) == LET RECURSIVE M(_)
                  M(i) == IF i = 0 THEN 0 ELSE Max2(Sum(LAMBDA j : Abs(m[i][j][1]) + Abs(m[i][j][2]), n), M(i - 1)) IN M(n)
(* ----------------------------- one slice ------------------------------------ *)
Apply(m, x, n, p) == TLCEval([i \in 1..n |->
    TLCEval(<<Sum(LAMBDA j : Mul8(m[i][j][1], x[j][1]) - Mul8(m[i][j][2], x[j][2]), n) \div p,
              Sum(LAMBDA j : Mul8(m[i][j][1], x[j][2]) + Mul8(m[i][j][2], x[j][1]), n) \div p>>)])
Add(x, y, n) == TLCEval([i \in 1..n |-> TLCEval(<<x[i][1] + y[i][1], x[i][2] + y[i][2]>>)])
RECURSIVE Series(_, _, _, _, _)
Series(m, y, term, n, p) == IF p = 8 THEN y ELSE LET u == Apply(m, term, n, p) IN Series(m, Add(y, u, n), u, n, p + 1)
RECURSIVE Steps(_, _, _, _)
Steps(m, x, n, k) == IF k = 0 THEN x ELSE Steps(m, Series(m, x, x, n, 1), n, k - 1)
(* share of the electrons of the slice: r.w counts, r.total over all voltages   *)
Share(r, k) == Ratio8(r.w[k], r.total)
Accumulate(l, x, w, n) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> TLCEval(
    <<l[i][j][1] + Mul8(w, Mul8(x[i][1], x[j][1]) + Mul8(x[i][2], x[j][2])),
      l[i][j][2] + Mul8(w, Mul8(x[i][2], x[j][1]) - Mul8(x[i][1], x[j][2]))>>)])])
(* slices before the one at which 95 % of the voltage's electrons are reached   *)
Cut(r) == LET tot == Sum(LAMBDA k : r.w[k], Len(r.w))
              RECURSIVE C(_, _)
              C(k, s) == IF 20 * (s + r.w[k]) >= 19 * tot THEN k - 1 ELSE C(k + 1, s + r.w[k]) IN
          Min2(C(1, 0), 100)
Surface(r) == [i \in 1..N(r) |-> IF i = 1 THEN <<One8, 0>> ELSE <<0, 0>>]
Zero(r) == [i \in 1..N(r) |-> [j \in 1..N(r) |-> <<0, 0>>]]
Init == t = 0 /\ d = 0 /\ psi = <<>> /\ mat = <<>> /\ lgh = <<>>
Enter == /\ t < Len(All) /\ (IF t = 0 THEN TRUE ELSE d = Cut(Rec))
         /\ t' = t + 1 /\ d' = 0 /\ psi' = Surface(All[t']) /\ mat' = Gen(All[t']) /\ lgh' = Zero(All[t'])
Slice == /\ t > 0 /\ d < Cut(Rec)
         /\ LET x == Steps(mat, psi, N(Rec), Rec.sub) IN
            /\ psi' = x /\ lgh' = Accumulate(lgh, x, Share(Rec, d + 1), N(Rec))
         /\ d' = d + 1 /\ UNCHANGED <<t, mat>>
Next == Enter \/ Slice
Spec == Init /\ [][Next]_vars
(* ------------------------------ judgement ----------------------------------- *)
(* r.s[site][i][j]: 1e4; r.got[site]: 1e4                                       *)
Want(s) == Sum(LAMBDA i : Sum(LAMBDA j : Mul8(lgh[i][j][1], s[i][j][1]) - Mul8(lgh[i][j][2], s[i][j][2]), N(Rec)), N(Rec))
Prob == Sum(LAMBDA i : Mul8(psi[i][1], psi[i][1]) + Mul8(psi[i][2], psi[i][2]), N(Rec))
(* the waves of a crystal that absorbs lose electrons, others keep them (for hermitian U) *)
Kept == IF t = 0 THEN TRUE ELSE Clause("electrons are not created", IF Rec.absorb THEN Prob <= One8 + 200000 ELSE Near(Prob, One8, 200000), [id |-> Rec.id, d |-> d, prob |-> Prob])
Small == t > 0 /\ d = 0 => Clause("bounded", Norm(mat, N(Rec)) <= 90000000, [id |-> Rec.id, norm |-> Norm(mat, N(Rec))])
Intensity == t > 0 /\ d = Cut(Rec) => \A k \in 1..Len(Rec.s) :
   LET w == Want(Rec.s[k]) IN
   Clause("intensity", Near(Rec.got[k], w, 3 + Abs(w) \div 2500 + Rec.s[k][1][1][1] \div 200000), [id |-> Rec.id, site |-> k, got |-> Rec.got[k], want |-> w, slices |-> d, beams |-> N(Rec)])
=============================================================================
