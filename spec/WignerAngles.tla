---------------------------- MODULE WignerAngles ----------------------------
(* Angles with rational cosine p/r and sine q/r (0 <= angle <= pi).           *)
EXTENDS Integers, Sequences, TLC, Vp
CONSTANTS MaxU
VARIABLE t
Tri3(u, v) == <<u * u - v * v, 2 * u * v, u * u + v * v>>
Red(x) == LET g == Gcd(x[1], Gcd(x[2], x[3])) IN <<x[1] \div g, x[2] \div g, x[3] \div g>>
All == {<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>} \cup
       {Red(Tri3(u, v)) : u \in 1..MaxU, v \in 1..MaxU}
Init == t \in All
Next == UNCHANGED t
Spec == Init /\ [][Next]_t
OnCircle == t[1] * t[1] + t[2] * t[2] = t[3] * t[3] /\ t[2] >= 0
EmitIt == Emit(t)
=============================================================================
