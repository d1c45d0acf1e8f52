----------------------------- MODULE KnnStream -----------------------------
(* Streaming k-nearest-neighbour search: data arrives in chunks of any size, *)
(* every chunk is matched against all queries at once or against contiguous  *)
(* blocks of queries in any order (possibly skipping some), and the table of *)
(* best matches is merged after every step.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Randomization, Vp

CONSTANTS D,        \* number of data vectors
          Q,        \* number of queries
          K,        \* neighbours kept
          Metric,   \* "angular" | "euclidean" | "manhattan"
          Dim,      \* vector dimension
          Lo, Hi,   \* entries lie in Lo..Hi
          Rand,     \* TRUE: random vectors (simulation); FALSE: fixed vectors
          Partial,  \* TRUE: query blocks may be skipped
          MinGap    \* least distance between two scores of one query (quantised)

VARIABLES qvec,     \* queries
          dvec,     \* data vectors streamed so far
          chunk,    \* <<start, end>> of the current chunk (0-based, end excl.)
          todo,     \* queries not yet matched with the current chunk
          seen,     \* seen[q]: data indices matched with q so far
          table,    \* table[q]: best K entries <<score, index>>, best first
          hist      \* operations applied, with the table after each

vars == <<qvec, dvec, chunk, todo, seen, table, hist>>

Vec(seed) == IF Rand THEN [j \in 1..Dim |-> RandomElement(Lo..Hi)]
             ELSE [j \in 1..Dim |-> Lo + ((seed * 7 + j * j * 5 + seed * seed * j) % (Hi - Lo + 1))]

RECURSIVE Dot(_, _, _), Sq(_, _, _), L1(_, _, _)
Dot(a, b, j) == IF j = 0 THEN 0 ELSE a[j] * b[j] + Dot(a, b, j - 1)
Sq(a, b, j) == IF j = 0 THEN 0 ELSE (a[j] - b[j]) * (a[j] - b[j]) + Sq(a, b, j - 1)
L1(a, b, j) == IF j = 0 THEN 0 ELSE Abs(a[j] - b[j]) + L1(a, b, j - 1)

Score(a, b) == CASE Metric = "angular" -> Dot(a, b, Dim)
                 [] Metric = "euclidean" -> Sq(a, b, Dim)
                 [] Metric = "manhattan" -> L1(a, b, Dim)

(* better scores first; equal scores are ordered by index to make the model  *)
(* deterministic (the code may order them either way)                        *)
Better(x, y) == IF x[1] = y[1] THEN x[2] < y[2]
                ELSE IF Metric = "angular" THEN x[1] > y[1] ELSE x[1] < y[1]

RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>>
              ELSE LET b == CHOOSE x \in S : \A y \in S \ {x} : Better(x, y)
                   IN <<b>> \o SortSet(S \ {b})
RECURSIVE Prefix(_, _)
Prefix(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)
Range(s) == {s[i] : i \in 1..Len(s)}
Top(S) == Prefix(SortSet(S), K)
Entries(q, idx) == {<<Score(qvec[q], dvec[i + 1]), i>> : i \in idx}

(* the merge the streaming search performs: best K of the chunk, appended to *)
(* the best K kept so far, best K of both                                    *)
Merge(q) == Top(Range(table[q]) \cup Range(Top(Entries(q, chunk[1]..(chunk[2] - 1)))))

(* the table as observed: best scores padded to K with none                  *)
Obs(t) == [q \in 1..Q |-> [s |-> [i \in 1..Len(t[q]) |-> t[q][i][1]]]]

Init == /\ qvec = [q \in 1..Q |-> Vec(100 + q)]
        /\ dvec = <<>>
        /\ chunk = <<0, 0>>
        /\ todo = {}
        /\ seen = [q \in 1..Q |-> {}]
        /\ table = [q \in 1..Q |-> <<>>]
        /\ hist = <<>>

SetChunk(n) ==
  /\ (Partial \/ todo = {})
  /\ Len(dvec) + n <= D
  /\ LET new == [i \in 1..n |-> Vec(Len(dvec) + i)] IN
     /\ dvec' = dvec \o new
     /\ chunk' = <<Len(dvec), Len(dvec) + n>>
     /\ hist' = Append(hist, [op |-> "chunk", n |-> n])
  /\ todo' = 1..Q
  /\ UNCHANGED <<qvec, seen, table>>

Match(qs, op) ==
  /\ qs \subseteq todo /\ qs # {}
  /\ todo' = todo \ qs
  /\ seen' = [q \in 1..Q |-> IF q \in qs THEN seen[q] \cup (chunk[1]..(chunk[2] - 1)) ELSE seen[q]]
  /\ table' = [q \in 1..Q |-> IF q \in qs THEN Merge(q) ELSE table[q]]
  /\ hist' = Append(hist, [op EXCEPT !.scores = [q \in 1..Q |-> [i \in 1..Len(table'[q]) |-> table'[q][i][1]]],
                                     !.index = [q \in 1..Q |-> [i \in 1..Len(table'[q]) |-> table'[q][i][2]]]])
  /\ UNCHANGED <<qvec, dvec, chunk>>

QueryAll == Match(1..Q, [op |-> "all", start |-> 0, n |-> Q, scores |-> 0, index |-> 0])
QueryBlock(a, b) == Match(a..b, [op |-> "block", start |-> a - 1, n |-> b - a + 1, scores |-> 0, index |-> 0])

Next == \/ \E n \in 1..D : SetChunk(n)
        \/ QueryAll
        \/ \E a \in 1..Q : \E b \in a..Q : QueryBlock(a, b)

Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------- properties    *)
(* the merged table is the exhaustive answer over everything matched so far  *)
StreamingIsExhaustive == \A q \in 1..Q : table[q] = Top(Entries(q, seen[q]))
(* no index is listed twice; as many entries as possible are filled          *)
Filled == \A q \in 1..Q : Cardinality(Range(table[q])) = Min2(K, Cardinality(seen[q]))

Separated == \A q \in 1..Q : \A i, j \in 1..Len(dvec) :
   i # j => Abs(Score(qvec[q], dvec[i]) - Score(qvec[q], dvec[j])) >= MinGap

Done == Len(dvec) = D /\ (todo = {})
EmitDone == (Done /\ Separated) =>
   Emit([metric |-> Metric, k |-> K, q |-> qvec, d |-> dvec, hist |-> hist])
Halt == ~Done
===========================================================================
