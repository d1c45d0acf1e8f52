----------------------------- MODULE MasterFile -----------------------------
(* A master pattern file: electron counts of a Monte Carlo run per position    *)
(* and energy, master patterns per site, energy and position of either          *)
(* hemisphere, and the space group. Reading it gives the patterns summed over   *)
(* the sites and averaged over the energies with the share of their electrons.  *)
EXTENDS Integers, Sequences, TLC, Vp, Fix8
CONSTANTS Samples
VARIABLES t
vars == <<t>>
All == Samples
R == All[t]
Add(f(_), m) == LET RECURSIVE S(_)
                    S(k) == IF k = 0 THEN 0 ELSE f(k) + S(k - 1) IN S(m)
(* electrons of an energy                                                        *)
Count(e) == Add(LAMBDA y : Add(LAMBDA x : R.counts[y][x][e], Len(R.counts[1])), Len(R.counts))
Laue(sg) == CASE sg <= 2 -> 1 [] sg <= 15 -> 2 [] sg <= 74 -> 3 [] sg <= 88 -> 4 [] sg <= 142 -> 5
              [] sg <= 148 -> 6 [] sg <= 167 -> 7 [] sg <= 176 -> 8 [] sg <= 194 -> 9 [] sg <= 206 -> 10 [] OTHER -> 11
Init == t = 0
Next == t < Len(All) /\ t' = t + 1
Spec == Init /\ [][Next]_vars
Read == LET ne == Len(R.counts[1][1])
            c == TLCEval([e \in 1..ne |-> Count(e)])
            all == Add(LAMBDA e : c[e], ne)
            side(h, y, x) == Ratio8(Add(LAMBDA e : c[e] * Add(LAMBDA s : h[s][e][y][x], Len(h)), ne), all)
            n == Len(R.north[1][1]) IN
   /\ Clause("the hemispheres side by side", Len(R.got) = n /\ \A y \in 1..n : Len(R.got[y]) = 2 * n, R.id)
   /\ Clause("Laue group of the space group", R.laue = Laue(R.sg), R)
   /\ \A y \in 1..n : \A x \in 1..n :
        Clause("patterns weighted with the electrons of their energies",
               Near(R.got[y][x], side(R.north, y, x), 600) /\ Near(R.got[y][n + x], side(R.south, y, x), 600),
               [r |-> R, y |-> y, x |-> x, north |-> side(R.north, y, x), south |-> side(R.south, y, x)])
Judged == t = 0 \/ Read
=============================================================================
