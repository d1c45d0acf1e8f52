--------------------------- MODULE StreamSchedule ---------------------------
(* All ways in which a stream of N samples can be cut into batches (the order  *)
(* of the samples is a rotation), one behaviour per schedule.                  *)
EXTENDS Integers, Sequences, TLC, Vp
CONSTANTS N
VARIABLES left, cuts, start
vars == <<left, cuts, start>>
Init == left = N /\ cuts = <<>> /\ start \in 0..(N - 1)
Next == left > 0 /\ \E b \in 1..left : left' = left - b /\ cuts' = Append(cuts, b) /\ UNCHANGED start
Spec == Init /\ [][Next]_vars
EmitDone == left # 0 \/ Emit([cuts |-> cuts, start |-> start])
=============================================================================
