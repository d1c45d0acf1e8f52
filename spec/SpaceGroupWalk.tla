--------------------------- MODULE SpaceGroupWalk ---------------------------
(* Generating every space group from its symbol, one round of products at a    *)
(* time, and what follows from the group: orbits of sites, the class, Laue     *)
(* group and system of its rotation parts, and the reflections that the        *)
(* centring of the lattice allows. Every setting is emitted for replay.        *)
EXTENDS SpaceGroups, TLC, Vp
CONSTANTS Settings, Waves     \* <<[n, st, sites]>>, reflections to be tried
VARIABLES k, S, F
Todo == Settings
Tried == Waves
Cur == Todo[k]
H == Hall(Cur.n, Cur.st)
Init == /\ k \in 1..Len(Todo)
        /\ S = {One} /\ F = {One}
Next == /\ F # {}
        /\ F' = {Mul(g, x) : g \in Gens(H), x \in F} \ S
        /\ S' = S \cup F'
        /\ UNCHANGED k
Spec == Init /\ [][Next]_<<k, S, F>>
Done == F = {}
(* the group grows by left multiplication and stays within the translations   *)
(* in 24ths                                                                   *)
Typed == Cardinality(S) <= 192 /\ \A x \in S : \A j \in 1..3 : x[2][j] \in 0..23
RECURSIVE Pow(_, _)
Pow(x, j) == IF j = 0 THEN One ELSE Mul(x, Pow(x, j - 1))
IsGroup == Done => \A x \in S : \E j \in 1..24 : Pow(x, j) = One
(* translations x rotation parts, and orbits x stabilizers                     *)
Factors == Done => Cardinality(S) = Cardinality(Translations(S)) * Cardinality(Parts(S))
Centring == Done => Cardinality(Translations(S)) = CASE H[1] = "P" -> 1 [] H[1] = "F" -> 4 [] H[1] = "R" -> 3 [] OTHER -> 2
OrbitStabilizer == Done => \A j \in 1..Len(Cur.sites) :
   Cardinality(Orbit(S, Cur.sites[j])) * Cardinality(Stabilizer(S, Cur.sites[j])) = Cardinality(S)
EmitAll == Done => LET P == Parts(S)  c == Class(P)  l == Laue(P) IN
   Emit([n |-> Cur.n, st |-> Cur.st, ops |-> S, cls |-> c, laue |-> l, system |-> System[l], lattice |-> H[1],
         sites |-> Cur.sites, orbits |-> [j \in 1..Len(Cur.sites) |-> Orbit(S, Cur.sites[j])],
         allowed |-> [j \in 1..Len(Tried) |-> Allowed(S, Tried[j])]])
=============================================================================
