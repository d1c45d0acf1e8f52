------------------------------- MODULE FitRun -------------------------------
(* Brute force search of a pattern center and orientations: for every depth    *)
(* (pcz) the dictionary is walked in batches; for every shift of the detector   *)
(* (pcx, pcy) and pattern the best score so far and its entry are kept; the     *)
(* best mean over the patterns wins. The loops are walked over recorded scores  *)
(* and the recorded outcome of the code is judged at the end.                   *)
(* run: scores[z][cell][b][d], batch, tol, z, cell (0: outside of the limits),  *)
(* ori[b] (entry, 0: none)                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Vp
CONSTANTS Runs
VARIABLES r, z, pos, table, done
vars == <<r, z, pos, table, done>>
Recs == Runs
Run == Recs[r]
NZ == Len(Run.scores)
NC == Len(Run.scores[1])
NB == Len(Run.scores[1][1])
ND == Len(Run.scores[1][1][1])
Add(f(_), m) == LET RECURSIVE S(_)
                    S(k) == IF k = 0 THEN 0 ELSE f(k) + S(k - 1) IN S(m)
None == [s |-> -2000000000, d |-> 0]
Blank(k) == [c \in 1..Len(Recs[k].scores[1]) |-> [b \in 1..Len(Recs[k].scores[1][1]) |-> None]]
Init == r = 1 /\ z = 1 /\ pos = 0 /\ table = Blank(1) /\ done = <<>>
(* the best of a batch                                                            *)
Best(c, b, lo, hi) == LET row == Run.scores[z][c][b]
                          RECURSIVE M(_)
                          M(k) == IF k < lo THEN None ELSE LET m == M(k - 1) IN IF row[k] > m.s THEN [s |-> row[k], d |-> k] ELSE m IN M(hi)
Step == /\ r <= Len(Recs) /\ z <= NZ /\ pos < ND
        /\ LET hi == Min2(pos + Run.batch, ND) IN
           /\ table' = TLCEval([c \in 1..NC |-> [b \in 1..NB |-> LET n == Best(c, b, pos + 1, hi) IN IF n.s > table[c][b].s THEN n ELSE table[c][b]]])
           /\ pos' = hi
        /\ UNCHANGED <<r, z, done>>
Deeper == /\ r <= Len(Recs) /\ z <= NZ /\ pos = ND
          /\ done' = Append(done, table) /\ z' = z + 1 /\ pos' = 0 /\ table' = Blank(r)
          /\ UNCHANGED r
Mean(k, c) == Add(LAMBDA b : done[k][c][b].s \div NB, NB)
Judge == LET rec == [id |-> Run.id, z |-> Run.z, cell |-> Run.cell, ori |-> Run.ori]
             in == Run.z \in 1..NZ /\ Run.cell \in 1..NC IN
   /\ Clause("the pattern center lies within the limits of the search", in, rec)
   /\ in => LET mine == Mean(Run.z, Run.cell) IN
        /\ Clause("no pattern center of the search scores better",
                  \A k \in 1..NZ : \A c \in 1..NC : Mean(k, c) <= mine + Run.tol, [rec |-> rec, mine |-> mine])
        /\ \A b \in 1..NB :
             Clause("the orientations are the best of the dictionary there",
                    Run.ori[b] \in 1..ND /\ Run.scores[Run.z][Run.cell][b][Run.ori[b]] >= done[Run.z][Run.cell][b].s - Run.tol,
                    [rec |-> rec, b |-> b, best |-> done[Run.z][Run.cell][b]])
NextRun == /\ r <= Len(Recs) /\ z > NZ
           /\ r' = r + 1 /\ z' = 1 /\ pos' = 0 /\ done' = <<>>
           /\ table' = IF r < Len(Recs) THEN Blank(r + 1) ELSE <<>>
Next == Step \/ Deeper \/ NextRun
Spec == Init /\ [][Next]_vars
(* what the batches keep is the best of all the entries seen                        *)
BatchesAreExhaustive == (r <= Len(Recs) /\ z <= NZ /\ pos > 0) =>
   LET c == 1 + (pos % NC) IN \A b \in 1..NB :
      LET e == table[c][b] IN e.d \in 1..pos /\ Run.scores[z][c][b][e.d] = e.s /\ \A k \in 1..pos : Run.scores[z][c][b][k] <= e.s
Judged == (r <= Len(Recs) /\ z > NZ) => Judge
=============================================================================
