------------------------------ MODULE IndexRun ------------------------------
(* Dictionary indexing of a scan: for every phase, the dictionary is walked  *)
(* in chunks; for every dictionary chunk the scan is walked in chunks (or    *)
(* matched at once when the scan chunk exceeds the scan); the best matches   *)
(* per pattern are merged; finally every pattern takes the phase whose best  *)
(* match is best.                                                            *)
(*                                                                           *)
(* Runs is a sequence of recorded runs of the real indexing. For each, the   *)
(* machine below walks the loops with the recorded chunk sizes over the      *)
(* scores of all (pattern, entry) pairs, and at the end judges the recorded  *)
(* outcome against the machine's table.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Vp
CONSTANTS Runs
(* run: [nq, k, dchunk, qchunk, big, tol, mtol, scores[phase][q][d], idx[phase][q][i],  *)
(*       met[phase][q][i], phase[q], best[q] (entry), bestmet[q], id]        *)

VARIABLES r, ph, dpos, qpos, table, seen
vars == <<r, ph, dpos, qpos, table, seen>>

Recs == Runs
Run == Recs[r]
NPh == Len(Run.scores)
D(p) == Len(Run.scores[p][1])

Better(x, y) == IF x[1] = y[1] THEN x[2] < y[2] ELSE IF Run.big THEN x[1] > y[1] ELSE x[1] < y[1]
TopN(s, n) == LET t == SortSeq(s, Better) IN IF Len(t) <= n THEN t ELSE SubSeq(t, 1, n)
Range(s) == {s[i] : i \in 1..Len(s)}
Entries(p, q, a, b) == LET row == Run.scores[p][q] IN [i \in 1..(b - a + 1) |-> <<row[a + i - 1], a + i - 1>>]

Empty == [q \in 1..Run.nq |-> <<>>]
Init == r = 1 /\ ph = 1 /\ dpos = 0 /\ qpos = 0
        /\ table = [q \in 1..Recs[1].nq |-> <<>>] /\ seen = <<>>

(* one query chunk against the current dictionary chunk *)
QChunk == IF Run.qchunk > Run.nq THEN Run.nq ELSE Run.qchunk
Step ==
  /\ ph <= NPh /\ dpos < D(ph) /\ qpos < Run.nq
  /\ LET a == dpos + 1
         b == Min2(dpos + Run.dchunk, D(ph))
         qb == Min2(qpos + QChunk, Run.nq)
         upd(q) == TopN(table[q] \o TopN(Entries(ph, q, a, b), Run.k), Run.k)
     IN /\ table' = [q \in 1..Run.nq |-> IF q > qpos /\ q <= qb THEN upd(q) ELSE table[q]]
        /\ IF qb = Run.nq THEN qpos' = 0 /\ dpos' = b ELSE qpos' = qb /\ dpos' = dpos
  /\ UNCHANGED <<r, ph, seen>>

EndPhase ==
  /\ ph <= NPh /\ dpos = D(ph)
  /\ seen' = Append(seen, table)
  /\ table' = Empty /\ dpos' = 0 /\ qpos' = 0 /\ ph' = ph + 1
  /\ UNCHANGED r

Top1(p, q) == seen[p][q][1][1]
AsGood(x, y, tol) == IF Run.big THEN x >= y - tol ELSE x <= y + tol

Judge ==
  \A q \in 1..Run.nq :
    /\ \A p \in 1..NPh :
       LET ix == Run.idx[p][q]
           me == Run.met[p][q]
           want == seen[p][q]
           rec == [id |-> Run.id, phase |-> p, pattern |-> q, got |-> ix, metrics |-> me,
                   want |-> [i \in 1..Len(want) |-> [score |-> want[i][1], entry |-> want[i][2]]]]
           known == \A i \in 1..Run.k : ix[i] \in 1..D(p)
       IN /\ Clause("every match is an entry of the dictionary", known, rec)
          /\ Clause("no dictionary entry is matched twice", Cardinality(Range(ix)) = Run.k, rec)
          /\ known => Clause("the i-th match has the i-th best score of the whole dictionary",
                 \A i \in 1..Run.k : Near(Run.scores[p][q][ix[i]], want[i][1], Run.tol), rec)
          /\ known => Clause("the reported metric is the score of the match",
                 \A i \in 1..Run.k : Near(me[i], Run.scores[p][q][ix[i]], Run.mtol), rec)
    /\ LET w == Run.phase[q]
           rec == [id |-> Run.id, pattern |-> q, phase |-> w, best |-> Run.best[q],
                   tops |-> [p \in 1..NPh |-> Top1(p, q)]]
       IN /\ Clause("the phase chosen exists", w \in 1..NPh, rec)
          /\ (w \in 1..NPh) =>
               /\ Clause("the phase chosen has the best match of all phases",
                     \A p \in 1..NPh : AsGood(Top1(w, q), Top1(p, q), Run.tol), rec)
               /\ Clause("the orientation is the best match of the chosen phase",
                     Run.best[q] \in 1..D(w) /\ Near(Run.scores[w][q][Run.best[q]], Top1(w, q), Run.tol), rec)
               /\ Clause("the best metric is the one of the best match",
                     Near(Run.bestmet[q], Top1(w, q), Run.mtol), rec)

EndRun ==
  /\ ph = NPh + 1
  /\ Judge
  /\ r < Len(Recs)
  /\ r' = r + 1 /\ ph' = 1 /\ dpos' = 0 /\ qpos' = 0
  /\ table' = [q \in 1..Recs[r + 1].nq |-> <<>>] /\ seen' = <<>>

Next == Step \/ EndPhase \/ EndRun
Spec == Init /\ [][Next]_vars

(* the loops reach the exhaustive answer, whatever the chunk sizes *)
LoopsAreExhaustive ==
  (dpos = 0 /\ qpos = 0 /\ ph > 1) =>
     \A q \in 1..Run.nq : seen[ph - 1][q] = TopN(Entries(ph - 1, q, 1, D(ph - 1)), Run.k)
============================================================================
