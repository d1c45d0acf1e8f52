----------------------------- MODULE LaueGroups -----------------------------
(* Growth of each Laue group's rotations from its generators: a state is the  *)
(* set found so far; the group is complete when multiplication adds nothing.  *)
(* TLC explores every order of discovery of the small groups and one order of *)
(* the large ones, and checks the group axioms on the completed sets.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Vp, LaueOps
CONSTANTS Ids
VARIABLES l, els, frontier
vars == <<l, els, frontier>>
Init == l \in Ids /\ els = {Identity} /\ frontier = {Identity}
Step == \E a \in frontier :
   LET new == {Canon(Root(l), EMul(Root(l), g, a)) : g \in Generators(l)} \ els IN
   /\ els' = els \cup new /\ frontier' = (frontier \ {a}) \cup new /\ UNCHANGED l
(* one order only *)
StepOne == LET a == CHOOSE a \in frontier : TRUE
               new == {Canon(Root(l), EMul(Root(l), g, a)) : g \in Generators(l)} \ els IN
   /\ frontier # {} /\ els' = els \cup new /\ frontier' = (frontier \ {a}) \cup new /\ UNCHANGED l
Next == IF Order(l) <= 8 THEN Step ELSE StepOne
Spec == Init /\ [][Next]_vars

Bounded == Cardinality(els) <= Order(l)
Unit == \A e \in els : LET n == [i \in 1..4 |-> NMulQ(Root(l), e[i], e[i])] IN
          NAdd(NAdd(n[1], n[2]), NAdd(n[3], n[4])) = <<4, 0>>
Complete == frontier = {} =>
   /\ Cardinality(els) = Order(l)
   /\ \A a \in els : Canon(Root(l), EConj(a)) \in els
   /\ \A a, b \in els : Canon(Root(l), EMul(Root(l), a, b)) \in els
   /\ els = Exact(l)
EmitDone == frontier = {} => Emit([l |-> l, root |-> Root(l), order |-> Order(l), els |-> els])
=============================================================================
