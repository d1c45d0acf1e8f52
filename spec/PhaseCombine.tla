---------------------------- MODULE PhaseCombine ----------------------------
(* Results of indexing are registered phase by phase (a later registration   *)
(* for the same phase replaces the earlier one) and combined: each pattern    *)
(* takes the phase whose top match is best. Combining may happen at any time  *)
(* and again after more registrations, for either sense of "best".            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Vp
CONSTANTS N,      \* patterns
          K,      \* matches kept per pattern
          Phases, \* phase ids that may be registered
          MaxOps, \* length of a history
          MaxM,   \* metrics are drawn from 1..MaxM
          Rand
VARIABLES raw,    \* phase -> <<serial, metrics[q][k]>> (serial 0: not registered)
          phase, top, serial, best, \* combined: phase, serial of its matches, its metric
          nreg, hist
vars == <<raw, phase, top, serial, best, nreg, hist>>

None == [serial |-> 0, m |-> <<>>]
Init == raw = [p \in Phases |-> None] /\ nreg = 0 /\ hist = <<>>
        /\ phase = <<>> /\ best = <<>> /\ top = <<>> /\ serial = <<>>

Metrics(s) == [q \in 1..N |-> [k \in 1..K |->
     IF Rand THEN RandomElement(1..MaxM) ELSE 1 + ((s * 7 + q * 5 + k * 3 + s * q) % MaxM)]]
Registered == {p \in Phases : raw[p].serial > 0}

Register(p) ==
  /\ Len(hist) < MaxOps
  /\ \E ms \in {Metrics(nreg + 1)} :
     /\ raw' = [raw EXCEPT ![p] = [serial |-> nreg + 1, m |-> ms]]
     /\ hist' = Append(hist, [op |-> "register", phase |-> p, serial |-> nreg + 1, metrics |-> ms])
  /\ nreg' = nreg + 1
  /\ UNCHANGED <<phase, top, serial, best>>

Best(q, high) == CHOOSE p \in Registered : \A o \in Registered :
    IF high THEN raw[p].m[q][1] >= raw[o].m[q][1] ELSE raw[p].m[q][1] <= raw[o].m[q][1]
NoTies == \A q \in 1..N : \A p, o \in Registered : p # o => raw[p].m[q][1] # raw[o].m[q][1]

Combine(high) ==
  /\ Len(hist) < MaxOps /\ Registered # {} /\ NoTies
  /\ phase' = [q \in 1..N |-> Best(q, high)]
  /\ top' = [q \in 1..N |-> q]
  /\ serial' = [q \in 1..N |-> raw[Best(q, high)].serial]
  /\ best' = [q \in 1..N |-> raw[Best(q, high)].m[q][1]]
  /\ hist' = Append(hist, [op |-> "combine", high |-> high, phase |-> phase', serial |-> serial', best |-> best',
         of |-> [p \in 0..Max2(0, CHOOSE x \in {phase'[q] : q \in 1..N} : \A y \in {phase'[q] : q \in 1..N} : y <= x)
                 |-> {q \in 1..N : phase'[q] = p}]])
  /\ UNCHANGED <<raw, nreg>>

Next == (\E p \in Phases : Register(p)) \/ (\E h \in BOOLEAN : Combine(h))
Spec == Init /\ [][Next]_vars

(* the pattern's phase is registered and no registered phase has a better top *)
Chosen == \A i \in 1..Len(hist) : hist[i].op = "combine" =>
            \A q \in 1..N : hist[i].phase[q] \in Phases
(* the index sets of the phases partition the scan *)
Partition == \A i \in 1..Len(hist) : hist[i].op = "combine" =>
     /\ UNION {hist[i].of[p] : p \in DOMAIN hist[i].of} = 1..N
     /\ \A p, o \in DOMAIN hist[i].of : p # o => hist[i].of[p] \cap hist[i].of[o] = {}

EmitDone == (Len(hist) = MaxOps /\ hist[MaxOps].op = "combine") => Emit([n |-> N, k |-> K, hist |-> hist])
=============================================================================
