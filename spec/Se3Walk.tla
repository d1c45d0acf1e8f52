------------------------------ MODULE Se3Walk ------------------------------
(* Rigid motions exp(s * xi) along one screw xi = (axis n, translation t):    *)
(* steps add up. TLC checks the closed form used as oracle (Se3Form) against  *)
(* the group law and emits the walks for replay.                              *)
EXTENDS Integers, Sequences, TLC, Vp, Fix, Se3Form
CONSTANTS MaxLen, Unit, MaxSum   \* angle of one unit in 1e-4 rad
VARIABLES sum, steps, screw, motion
vars == <<sum, steps, screw, motion>>
Screws == {<<<<10000, 0, 0>>, <<3000, -7000, 2000>>>>, <<<<0, 6000, 8000>>, <<10000, 0, -5000>>>>,
           <<<<-4800, 6000, -6400>>, <<-2500, 2500, 6000>>>>, <<<<0, 0, -10000>>, <<0, 0, 8000>>>>}
Mot(s, k) == IF k < 0 THEN Motion(<<-s[1][1], -s[1][2], -s[1][3]>>, -k * Unit, [j \in 1..3 |-> ((-s[2][j]) * (-k) * Unit) \div 10000])
             ELSE Motion(s[1], k * Unit, [j \in 1..3 |-> (s[2][j] * k * Unit) \div 10000])
Init == sum = 0 /\ steps = <<>> /\ screw \in Screws /\ motion = [r |-> <<One, 0, 0, 0>>, t |-> <<0, 0, 0>>]
Step(k) == /\ Len(steps) < MaxLen /\ Abs(sum + k) <= MaxSum
           /\ sum' = sum + k /\ steps' = Append(steps, k) /\ UNCHANGED screw
           /\ motion' = Compose(motion, Mot(screw, k))
Next == \E k \in -8..8 : k # 0 /\ Step(k)
Spec == Init /\ [][Next]_vars
StepsAddUp == LET m == Mot(screw, sum) IN
   /\ \E g \in {1, -1} : \A j \in 1..4 : Near(motion.r[j], g * m.r[j], 10 + 6 * Len(steps))
   /\ Near3(motion.t, m.t, 20 + 25 * Len(steps))
EmitDone == Len(steps) = MaxLen => Emit(steps)
=============================================================================
