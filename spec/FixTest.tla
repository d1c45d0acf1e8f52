------------------------------ MODULE FixTest ------------------------------
(* self-test of the fixed-point functions: identities and known values        *)
EXTENDS Integers, Sequences, Fix
VARIABLE t
Init == t \in -70000..70000
Next == UNCHANGED t
Near1(a, b, tol) == a - b <= tol /\ b - a <= tol
Identity == Near1(FMul(FSin(t), FSin(t)) + FMul(FCos(t), FCos(t)), One, 6)
Doubling == Near1(FSin(2 * t), 2 * FMul(FSin(t), FCos(t)), 14)
Known == /\ Near1(FSin(5236), 5000, 2) /\ Near1(FCos(10472), 5000, 3) /\ Near1(FSin(7854), 7071, 2)
         /\ Near1(FCos(Pi), -One, 2) /\ FSqrt(20000) = 14142 /\ FSqrt(100) = 1000
Roots == LET a == t % 200000 IN Near1(ISqrt(a * 10000) * 1, FSqrt(a), 0) /\ FSqrt(a) * FSqrt(a) <= a * 10000
            /\ (FSqrt(a) + 1) * (FSqrt(a) + 1) > a * 10000
===========================================================================
