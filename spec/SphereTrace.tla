----------------------------- MODULE SphereTrace -----------------------------
(* Spherical harmonic transforms on the equiangular grid of 2B azimuths       *)
(* 2 pi j / 2B by 2B polar angles pi (2k+1) / 4B, and correlations over the   *)
(* rotation group. Orthonormal harmonics with the Condon-Shortley sign:       *)
(* Y_lm = sqrt((2l+1)/4pi) d^l_m0 e^(i m azimuth).                            *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Vp, Fix8
F4 == INSTANCE Fix
CONSTANTS Samples
VARIABLE i
All == Samples
Cur == All[i]
SgnOf(k) == IF k % 2 = 0 THEN 1 ELSE -1
Polar(L, k) == (2 * k + 1) * (Pi8 \div (4 * L)) + ((2 * k + 1) * (Pi8 % (4 * L))) \div (4 * L)
\* m steps of the azimuth grid, reduced to one turn
Turn(L, q) == LET r == q % (2 * L) IN r * (Pi8 \div L) + (r * (Pi8 % L)) \div L
Small(v, lim) == \A k \in 1..Len(v) : Abs(v[k]) <= lim
(* values over m = -l..l of the inverse transform of unit coefficients at one *)
(* grid point of azimuth 0, divided by dv (a power of two) to fit             *)
Basis == LET l == Cur.l  N == 2 * l + 1  t == Polar(Cur.L, Cur.k)
             C == Cos8(t)  S == Sin8(t)
             v == TLCEval([j \in 1..N |-> SgnOf(j - l - 1) * Cur.v[j]])
             root == TLCEval([j \in 1..(2 * l) |-> RatioRoot8((2 * l + 1 - j) * j, N * N)])
             res(j) == Mul8(Mul8(Ratio8(j - l - 1, N), C), v[j])
                      - (IF j <= 2 * l THEN Mul8(Mul8(root[j], S), v[j + 1]) \div 2 ELSE 0)
                      - (IF j > 1 THEN Mul8(Mul8(root[j - 1], S), v[j - 1]) \div 2 ELSE 0)
             norm == SumSeq([j \in 1..N |-> Mul8(v[j], v[j])])
             \* (2l+1) / 4 pi / dv^2
             want == ((7957747 \div (Cur.dv * Cur.dv)) * N) + (((7957747 % (Cur.dv * Cur.dv)) * N) \div (Cur.dv * Cur.dv))
             rec == [L |-> Cur.L, l |-> l, k |-> Cur.k, id |-> Cur.id] IN
   IF ~Small(Cur.v, 110000000) THEN Clause("bounded", FALSE, rec)
   ELSE /\ Clause("harmonics: eigenfunctions", \A j \in 1..N : Abs(res(j)) <= Cur.tol, rec)
        /\ Clause("harmonics: normalised", Abs(norm - want) <= 4 * Cur.tol + 6 * N, rec)
        /\ Clause("harmonics: sign", SgnOf(l) * Cur.v[N] >= -Cur.tol, rec)
        /\ Clause("harmonics: real at azimuth zero", Small(Cur.im, Cur.tol), rec)
(* around a circle of latitude                                                *)
Circle == LET at(j) == Turn(Cur.L, Cur.m * (j - 1)) IN
   IF ~Small(Cur.re, 110000000) \/ ~Small(Cur.im, 110000000) THEN Clause("bounded", FALSE, Cur)
   ELSE Clause("harmonics: azimuth",
           \A j \in 1..Len(Cur.re) : Abs(Cur.re[j] - Mul8(Cos8(at(j)), Cur.re[1])) <= Cur.tol
                                  /\ Abs(Cur.im[j] - Mul8(Sin8(at(j)), Cur.re[1])) <= Cur.tol, Cur)
Grid == LET a == Turn(Cur.L, Cur.j)  p == Polar(Cur.L, Cur.k)
            x == <<Mul8(Cos8(a), Sin8(p)), Mul8(Sin8(a), Sin8(p)), Cos8(p)>> IN
   IF Abs(Cur.theta) > 700000000 \/ Abs(Cur.phi) > 700000000 THEN Clause("bounded", FALSE, Cur)
   ELSE Clause("grid", Abs(Cur.theta - a) <= Cur.tol /\ Abs(Cur.phi - p) <= Cur.tol /\ \A n \in 1..3 : Abs(Cur.xyz[n] - x[n]) <= Cur.tol, Cur)
(* quadrature weight of the ring: 2 pi / 2B times Driscoll and Healy's        *)
Weight(L, k) == LET S(n) == Sin8(LET r == ((2 * k + 1) * n) % (8 * L) IN r * (Pi8 \div (4 * L)) + (r * (Pi8 % (4 * L))) \div (4 * L))
                    sum == SumSeq([p \in 1..L |-> S(2 * p - 1) \div (2 * p - 1)])
                IN Mul8(Mul8(S(1), sum), Ratio8(2 * 355, 113 * L * L))
(* the forward transform of a unit impulse at (j, k): all |m| <= l            *)
Impulse == LET w == Weight(Cur.L, Cur.k)
               t(m) == Turn(Cur.L, m * Cur.j) IN
   IF ~Small(Cur.re \o Cur.im, 110000000) \/ ~Small(Cur.b, 400000000) THEN Clause("bounded", FALSE, Cur)
   ELSE Clause("forward transform of an impulse",
           \A n \in 1..Len(Cur.lm) : LET m == Cur.lm[n][2]  a == Mul8(w, Cur.b[n]) IN
              Abs(Cur.re[n] - Mul8(a, Cos8(t(m)))) <= Cur.tol /\ Abs(Cur.im[n] + Mul8(a, Sin8(t(m)))) <= Cur.tol, [L |-> Cur.L, j |-> Cur.j, k |-> Cur.k, id |-> Cur.id])
(* sums of harmonics, 1e4 units; real functions list m >= 0 only              *)
SumOf(part) == SumSeq([n \in 1..Len(Cur.lm) |->
      LET m == Cur.lm[n][2]  t == Turn(Cur.L, m * Cur.j)
          c == Cos8(t) \div 10000  s == Sin8(t) \div 10000
          f == IF Cur.real /\ m > 0 THEN 2 ELSE 1 IN
      f * F4!FMul(Cur.b[n], IF part = "re" THEN F4!FMul(Cur.cr[n], c) - F4!FMul(Cur.ci[n], s)
                                           ELSE F4!FMul(Cur.cr[n], s) + F4!FMul(Cur.ci[n], c))])
Combine == /\ Clause("inverse transform of a sum", Near(Cur.re, SumOf("re"), 6 + 3 * Len(Cur.lm)), [L |-> Cur.L, id |-> Cur.id])
           /\ Clause("inverse transform of a sum", IF Cur.real THEN Cur.im = 0 ELSE Near(Cur.im, SumOf("im"), 6 + 3 * Len(Cur.lm)), [L |-> Cur.L, id |-> Cur.id])
Back == Clause("equal: " \o Cur.what, Len(Cur.x) = Len(Cur.y) /\ \A n \in 1..Len(Cur.x) : Near(Cur.x[n], Cur.y[n], Cur.tol), [L |-> Cur.L, id |-> Cur.id])
(* correlation over Euler angles 2 pi (a, b, c) / (2B - 1):                   *)
(* sum of f_lm conj(g_ln) d_mk d_kn e^(i (m a + k b + n c)), d at 90 degrees  *)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 THEN 1 ELSE (Binom(n - 1, k - 1) * n) \div k
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
\* table convention: d_mn = (-1)^(m-n) of the standard one
D90(l, m, n) ==
   LET sum == SumSeq([q \in 1..(2 * l + 1) |-> LET k == q - 1 IN SgnOf(k) * Binom(l + n, k) * Binom(l - n, l - m - k)])
       num == Fact(l + m) * Fact(l - m)  den == Fact(l + n) * Fact(l - n)
       mag == IF num <= den THEN (sum * RatioRoot8(num, den)) \div (2 ^ l)
              ELSE LET r == RatioRoot8(den, num) IN    \* 1 / r by exact rational num/den * r
                   (sum * Mul8(r, Ratio8(num, den))) \div (2 ^ l)
   IN mag
Table90 == [l \in 0..2 |-> [m \in (-l)..l |-> [n \in (-l)..l |-> D90(l, m, n) \div 10000]]]
ASSUME TLCSet(8, Table90)
CMul(u, v) == <<F4!FMul(u[1], v[1]) - F4!FMul(u[2], v[2]), F4!FMul(u[1], v[2]) + F4!FMul(u[2], v[1])>>
CAdd(u, v) == <<u[1] + v[1], u[2] + v[2]>>
SumC(s) == FoldLeft(CAdd, <<0, 0>>, s)
Unit(L, q) == LET r == q % (2 * L - 1)  t == (2 * r * F4!Pi + L - 1) \div (2 * L - 1) IN <<F4!FCos(t), F4!FSin(t)>>
Corr == LET L == Cur.L
            d(l, m, n) == TLCGet(8)[l][m][n]
            lms == [q \in 1..(L * L) |-> LET l == CHOOSE l \in 0..(L - 1) : l * l < q /\ q <= (l + 1) * (l + 1) IN <<l, q - l * l - l - 1>>]
            idx(l, m) == l * l + l + m + 1
            U == TLCEval([q \in 0..(2 * L - 2) |-> Unit(L, q)])
            u(q) == U[q % (2 * L - 1)]
            \* small d at the middle angle
            mid(l, m, n) == SumC([k \in 1..(2 * l + 1) |-> LET e == u((k - l - 1) * Cur.at[2])  w == F4!FMul(d(l, m, k - l - 1), d(l, k - l - 1, n)) IN <<F4!FMul(w, e[1]), F4!FMul(w, e[2])>>])
            one(q) == LET l == lms[q][1]  m == lms[q][2] IN
               SumC([n \in 1..(2 * l + 1) |-> LET g == Cur.g[idx(l, n - l - 1)] IN
                    CMul(CMul(CMul(Cur.f[q], <<g[1], -g[2]>>), u(m * Cur.at[1] + (n - l - 1) * Cur.at[3])), mid(l, m, n - l - 1))])
            s == TLCEval(SumC([q \in 1..(L * L) |-> one(q)]))
            tol == 120 IN
   IF Cur.what = "size" THEN Clause("correlation of complex functions", F4!ISqrt(s[1] * s[1] + s[2] * s[2]) - Cur.v <= tol /\ Cur.v - F4!ISqrt(s[1] * s[1] + s[2] * s[2]) <= tol, Cur.id)
   ELSE Clause("correlation of real functions", Near(s[1], Cur.v, tol) /\ Near(s[2], 0, tol), Cur.id)
Judge == CASE Cur.kind = "basis" -> Basis [] Cur.kind = "circle" -> Circle [] Cur.kind = "grid" -> Grid
           [] Cur.kind = "impulse" -> Impulse [] Cur.kind = "combine" -> Combine [] Cur.kind = "back" -> Back
           [] Cur.kind = "cc" -> Corr
Init == i = 1
Next == i <= Len(All) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Judged == i <= Len(All) => Judge
=============================================================================
