--------------------------- MODULE ConversionWalk ---------------------------
(* The graph of orientation conversions. A rotation does not change when its  *)
(* representation does: a walk carries an abstract rotation through functions *)
(* of the library; the walks are replayed and every value on the way judged.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Vp
CONSTANTS Functions,   \* set of <<name, from, to>>
          MaxLen, Mode  \* "walk" or "edges"
VARIABLES rep, path, rotation, done
vars == <<rep, path, rotation, done>>
Reps == {"qu", "om", "ax", "ro", "ho", "cu", "bu", "zh"}
ASSUME \A f \in Functions : f[2] \in Reps /\ f[3] \in Reps
(* every representation can be reached and left again *)
Step(R) == R \cup {f[3] : f \in {g \in Functions : g[2] \in R}}
RECURSIVE Reach(_, _)
Reach(R, n) == IF n = 0 THEN R ELSE Reach(Step(R), n - 1)
Connected == \A r \in Reps : Reach({r}, 4) = Reps

Init == /\ rep \in Reps /\ rotation = "q" /\ done = FALSE
        /\ path = <<rep>>
Convert(f) == /\ ~done /\ f[2] = rep
              /\ Len(path) <= MaxLen
              /\ rep' = f[3] /\ path' = Append(path, f[1]) /\ UNCHANGED <<rotation, done>>
Finish == ~done /\ Len(path) > 1 /\ (Mode = "edges" \/ Len(path) > MaxLen) /\ done' = TRUE /\ UNCHANGED <<rep, path, rotation>>
Next == (\E f \in Functions : Convert(f)) \/ Finish
Spec == Init /\ [][Next]_vars
SameRotation == rotation = "q"
Typed == path[Len(path)] = rep \/ \E f \in Functions : f[1] = path[Len(path)] /\ f[3] = rep
EmitDone == done => Emit(path)
=============================================================================
