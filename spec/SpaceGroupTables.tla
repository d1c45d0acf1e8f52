-------------------------- MODULE SpaceGroupTables --------------------------
(* From space group numbers and point group symbols to Laue groups, through   *)
(* the crystal classes: the 32 classes in the order of the space groups, each *)
(* with its first space group, its generators as rotations or rotoinversions  *)
(* and so its Laue group. Nothing is a table of the answer: the Laue group of  *)
(* a class is found by generating the proper parts of its operations together *)
(* with inversion and comparing with the 11 groups of LaueOps by order of      *)
(* rotations about each kind of axis.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Vp, LaueOps
CONSTANTS Lo, Hi
VARIABLES n
Classes == <<
  [sym |-> "1", first |-> 1, g |-> {}],
  [sym |-> "1-", first |-> 2, g |-> {}],
  [sym |-> "2", first |-> 3, g |-> {R2z}],
  [sym |-> "m", first |-> 6, g |-> {R2z}],
  [sym |-> "2/m", first |-> 10, g |-> {R2z}],
  [sym |-> "222", first |-> 16, g |-> {R2z, R2x}],
  [sym |-> "mm2", first |-> 25, g |-> {R2z, R2x}],
  [sym |-> "mmm", first |-> 47, g |-> {R2z, R2x}],
  [sym |-> "4", first |-> 75, g |-> {R4z}],
  [sym |-> "4-", first |-> 81, g |-> {R4z}],
  [sym |-> "4/m", first |-> 83, g |-> {R4z}],
  [sym |-> "422", first |-> 89, g |-> {R4z, R2x}],
  [sym |-> "4mm", first |-> 99, g |-> {R4z, R2x}],
  [sym |-> "4-2m", first |-> 111, g |-> {R4z, R2x}],
  [sym |-> "4/mmm", first |-> 123, g |-> {R4z, R2x}],
  [sym |-> "3", first |-> 143, g |-> {R3z}],
  [sym |-> "3-", first |-> 147, g |-> {R3z}],
  [sym |-> "32", first |-> 149, g |-> {R3z, R2x}],
  [sym |-> "3m", first |-> 156, g |-> {R3z, R2x}],
  [sym |-> "3-m", first |-> 162, g |-> {R3z, R2x}],
  [sym |-> "6", first |-> 168, g |-> {R6z}],
  [sym |-> "6-", first |-> 174, g |-> {R6z}],
  [sym |-> "6/m", first |-> 175, g |-> {R6z}],
  [sym |-> "622", first |-> 177, g |-> {R6z, R2x}],
  [sym |-> "6mm", first |-> 183, g |-> {R6z, R2x}],
  [sym |-> "6-m2", first |-> 187, g |-> {R6z, R2x}],
  [sym |-> "6/mmm", first |-> 191, g |-> {R6z, R2x}],
  [sym |-> "23", first |-> 195, g |-> {R2z, R2x, R3d}],
  [sym |-> "m3-", first |-> 200, g |-> {R2z, R2x, R3d}],
  [sym |-> "432", first |-> 207, g |-> {R4z, R3d}],
  [sym |-> "4-3m", first |-> 215, g |-> {R4z, R3d}],
  [sym |-> "m3-m", first |-> 221, g |-> {R4z, R3d}] >>
ClassOf(sg) == CHOOSE k \in 1..32 : Classes[k].first <= sg /\ (k = 32 \/ sg < Classes[k + 1].first)
LaueOf(k) == CHOOSE l \in 1..11 : Generators(l) = Classes[k].g
Laue(sg) == LaueOf(ClassOf(sg))

Init == n = Lo
Next == n < Hi /\ n' = n + 1
Spec == Init /\ [][Next]_n

(* the Laue group never leaves the crystal family as the number grows, and     *)
(* within a family the order grows                                            *)
Valid == n \in 1..230
Ordered == (Valid /\ n + 1 <= 230) => Laue(n + 1) >= Laue(n)
EmitAll == Emit([sg |-> n, laue |-> IF Valid THEN Laue(n) ELSE 0, sym |-> IF Valid THEN Classes[ClassOf(n)].sym ELSE "",
                 order |-> IF Valid THEN 2 * Order(Laue(n)) ELSE 0, cls |-> IF Valid THEN ClassOf(n) ELSE 0])
=============================================================================
