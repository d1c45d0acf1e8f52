----------------------------- MODULE WignerIndex -----------------------------
(* The order of the Wigner d table: (l, m, n) with l >= m >= n >= 0 counted   *)
(* lexicographically. The walk steps through one degree (or its first steps)  *)
(* from its known start; small degrees are chained to each other.             *)
EXTENDS Integers, Sequences, TLC, Vp
CONSTANTS MaxL,        \* every degree up to MaxL is walked from the very start
          Far          \* further degrees, whose corners are visited
VARIABLES l, m, n, idx, mode
vars == <<l, m, n, idx, mode>>
Tri(k) == (k * (k + 1)) \div 2
Tetra(k) == (((k * (k + 1)) \div 2) * (k + 2)) \div 3
Init == \/ l = 0 /\ m = 0 /\ n = 0 /\ idx = 0 /\ mode = "walk"
        \/ /\ l \in Far /\ mode = "far"
           /\ m \in {0, 1, l \div 2, l - 1, l} /\ n \in {0, 1, l \div 3, l - 1, l} /\ n <= m
           /\ idx = Tetra(l) + Tri(m) + n
Next == /\ mode = "walk" /\ UNCHANGED mode
        /\ IF n < m THEN l' = l /\ m' = m /\ n' = n + 1
           ELSE IF m < l THEN l' = l /\ m' = m + 1 /\ n' = 0
           ELSE l < MaxL /\ l' = l + 1 /\ m' = 0 /\ n' = 0
        /\ idx' = idx + 1
Spec == Init /\ [][Next]_vars
(* the closed form counts the walk *)
Counted == idx = Tetra(l) + Tri(m) + n
EmitIt == Emit(<<l, m, n, idx>>)
=============================================================================
