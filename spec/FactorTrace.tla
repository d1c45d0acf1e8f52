---------------------------- MODULE FactorTrace ----------------------------
(* Factorization of integers, and the rectangle built from the factors: a       *)
(* machine that hands the primes, largest first, to the shorter side.           *)
(* Numbers beyond 32 bits are given by their (smaller) prime factors, which     *)
(* TLC checks to be prime.                                                       *)
EXTENDS Integers, Sequences, TLC, Vp
CONSTANTS Samples
VARIABLES t, todo, a, b
vars == <<t, todo, a, b>>
All == Samples
R == All[t]
(* trial division by 2, 3 and 6k + 5, 6k + 7 up to the square root                    *)
NoDivisor(p, m) == \A k \in 0..m : (6 * k + 5) * (6 * k + 5) > p \/ (p % (6 * k + 5) # 0 /\ (p = 6 * k + 7 \/ p % (6 * k + 7) # 0))
IsPrime(p) == p \in {2, 3} \/ (p > 3 /\ p % 2 # 0 /\ p % 3 # 0 /\ NoDivisor(p, IF p < 10000 THEN 16 ELSE IF p < 1000000 THEN 166 ELSE IF p < 100000000 THEN 1666 ELSE 7722))
ASSUME {p \in 0..200 : IsPrime(p)} = {p \in 2..200 : \A d \in 2..(p - 1) : p % d # 0}
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
Product(s) == LET RECURSIVE P(_)
                  P(i) == IF i = 0 THEN 1 ELSE s[i] * P(i - 1) IN P(Len(s))
(* no overflow: the product is taken only of numbers that divide n in turn          *)
Divides(n, s) == LET RECURSIVE Q(_, _)
                     Q(m, i) == IF i > Len(s) THEN m = 1 ELSE s[i] >= 1 /\ m % s[i] = 0 /\ Q(m \div s[i], i + 1) IN Q(n, 1)
Init == t = 0 /\ todo = 0 /\ a = 1 /\ b = 1
Next == IF t > 0 /\ R.op = "square" /\ todo > 0
        THEN /\ t' = t /\ todo' = todo - 1
             /\ IF a > b THEN a' = a /\ b' = b * R.primes[todo] ELSE a' = a * R.primes[todo] /\ b' = b
        ELSE /\ t < Len(All) /\ t' = t + 1 /\ a' = 1 /\ b' = 1
             /\ todo' = IF All[t + 1].op = "square" THEN Len(All[t + 1].primes) ELSE 0
Spec == Init /\ [][Next]_vars
Factor == /\ Clause("factors are prime", \A i \in 1..Len(R.got) : IsPrime(R.got[i]), R)
          /\ Clause("factors in order", Sorted(R.got), R)
          /\ Clause("the product of the factors is the number", Divides(R.n, R.got), R)
Large == /\ \A i \in 1..Len(R.primes) : IsPrime(R.primes[i])
         /\ Clause("the factors of a product of primes are those primes", R.got = R.primes, R)
Square == LET ok == R.got[1] >= 1 /\ R.got[2] >= 1 /\ R.n % R.got[1] = 0 /\ R.n \div R.got[1] = R.got[2] IN
          IF todo > 0 THEN TRUE ELSE
          /\ Clause("the sides of the rectangle multiply to the number", ok, R)
          /\ a * b = R.n
          /\ Clause("the rectangle is as square as the largest primes allow", Max2(R.got[1], R.got[2]) <= Max2(a, b), [r |-> R, a |-> a, b |-> b])
Judged == t = 0 \/ (CASE R.op = "factor" -> Factor [] R.op = "large" -> Large [] OTHER -> Square)
=============================================================================
