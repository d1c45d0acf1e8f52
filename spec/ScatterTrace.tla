---------------------------- MODULE ScatterTrace ----------------------------
(* Atomic scattering factors. Scattering magnitudes g in hundredths of 1/A,    *)
(* rms displacements in 1e-3 A, voltages in tenths of kV, factors in 1e-6 A.   *)
EXTENDS Integers, Sequences, TLC, Vp, Fix8, ScatterTables
CONSTANTS Samples
VARIABLE t
All == Samples
Init == t = 1
Next == t <= Len(All) /\ t' = t + 1
Spec == Init /\ [][Next]_t
Rec == All[t]
ASSUME TLCSet(11, WkA) /\ TLCSet(12, WkB) /\ TLCSet(13, LvdA) /\ TLCSet(14, LvdB) /\ TLCSet(15, ItcS) /\ TLCSet(16, Itc)
Sum(f(_), n) == LET RECURSIVE S(_)
                    S(k) == IF k = 0 THEN 0 ELSE f(k) + S(k - 1) IN S(n)
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
(* --------------------------- functions, 1e8 -------------------------------- *)
(* (1 - exp(-x)) / x for x in 1e8 (below 19) or, beyond, 1e4                    *)
Decay(x) == IF x < 50000000
            THEN One8 - Mul8(x, One8 - Mul8(x, One8 - Mul8(x, One8 - Mul8(x, One8 - Mul8(x, One8 - x \div 7) \div 6) \div 5) \div 4) \div 3) \div 2
            ELSE Ratio8((One8 - ExpNeg8(x)) \div 20, x \div 20)
(* natural logarithm of m 2^k for 1e8 <= m < 2e8                                *)
Ln2 == 69314718
LnM(m) == LET z == Ratio8((m - 141421356) \div 4, (m + 141421356) \div 4)  z2 == Mul8(z, z) IN
   Ln2 \div 2 + 2 * Mul8(z, One8 + Mul8(z2, One8 \div 3 + Mul8(z2, One8 \div 5 + Mul8(z2, One8 \div 7 + z2 \div 9))))
RECURSIVE Norm(_, _)
LOCAL Norm(x, k) == IF x < One8 THEN Norm(2 * x, k - 1) ELSE IF x >= 2 * One8 THEN Norm(x \div 2, k + 1) ELSE <<x, k>>
Ln8(x) == LET n == Norm(x, 0) IN LnM(n[1]) + n[2] * Ln2
(* ------------------------------ elastic part -------------------------------- *)
(* Weickenmeier & Kohl: sum A (1 - exp(-B s^2)) / s^2 with s = g / 2            *)
Fine(b, gg) == IF b < 2000000 THEN Mul8(b * 1000, gg * 2500) ELSE 10 * Mul8(b * 50, gg * 5000)     \* B s^2 in 1e8 (below 18)
WkTerm(a, b, gg) == LET x4 == IF gg = 0 THEN 0 ELSE Mul8(b * 10, gg * 100) \div 4 \* 1e4 units of B s^2: b 1e-5, gg 1e-4 / 4
                        ab == Mul8(a * 1000, b * 10) IN                    \* 1e6
   IF x4 > 180000 THEN Mul8(ab, Ratio8(10000, x4))
   ELSE Mul8(ab, Decay(Fine(b, gg)))                                           \* 1e8 units
Wk(z, gg) == Sum(LAMBDA i : WkTerm(TLCGet(11)[z][i], TLCGet(12)[z][i], gg), 4)
(* Lobato & Van Dyck: sum a (2 + b g^2) / (1 + b g^2)^2                         *)
Shift(p, k) == IF k >= 0 THEN p * Pow10(k) ELSE p \div Pow10(Min2(-k, 9))
LvdTerm(a, m, e, gg) ==
   LET fine == gg < 60000
       p == IF fine THEN Mul8(m * 100, gg * 1000) ELSE Mul8(m * 100, gg * 100)    \* b g^2 = p 10^-k
       k == IF fine THEN e + 1 ELSE e
       y == LET RECURSIVE At(_)
                At(j) == IF j = 1 \/ (IF j >= k THEN p < 90000000 \div Pow10(j - k) ELSE p \div Pow10(Min2(k - j, 9)) < 90000000)
                         THEN Ratio8(Pow10(j), Pow10(j) + Shift(p, j - k)) ELSE At(j - 1) IN At(7)
   IN Mul8(a, y + Mul8(y, y))
Lvd(z, gg) == Sum(LAMBDA i : LvdTerm(TLCGet(13)[z][i], TLCGet(14)[z][i][1], TLCGet(14)[z][i][2], gg), 5)
Elastic(by, z, gg) == IF by = "WK" THEN Wk(z, gg) ELSE Lvd(z, gg)
(* Debye-Waller factor exp(- (2 pi g sigma)^2 / 2), relativistic mass           *)
Damp(gg, s) == LET x == Mul8(s * s * 1000, gg * 1000) IN              \* sigma^2 g^2 in 1e8
   IF x > 90000000 THEN 0 ELSE ExpNeg8(Mul8(1973920880, x))
Gamma(v) == One8 + Ratio8(v, 5110)
Elast == \A k \in 1..Len(Rec.items) :
   LET it == Rec.items[k]
       f == Elastic(Rec.by, it.z, it.g * it.g)
       \* large coefficients of opposite sign cancel: rounding of the parameters and of single precision
       slack == IF Rec.by = "WK" THEN Abs(f) \div 500 ELSE Abs(f) \div 20000 + Sum(LAMBDA i : Abs(TLCGet(13)[it.z][i]) \div 5000000, 5)
       w == IF Rec.itc THEN f ELSE Mul8(Mul8(f, Damp(it.g * it.g, it.s)), Gamma(it.v)) IN
   Clause("elastic part", Near(it.re, w, 5 + slack + slack \div 2) /\ (Rec.itc => it.im = 0), [by |-> Rec.by, itc |-> Rec.itc, item |-> it, want |-> w])
(* tabulated values: 1e-3, at s in hundredths                                   *)
Table == \A k \in 1..Len(Rec.items) : LET it == Rec.items[k]  w == 1000 * TLCGet(16)[it.z - 1][it.row] IN
   Clause("tabulated elastic factor", it.s = TLCGet(15)[it.row] /\ Near(it.re, w, (w \div 100) * (IF it.z = 24 /\ it.s <= 12 THEN 8 ELSE 3) + 2500), [by |-> Rec.by, item |-> it, want |-> w])
(* ----------------------------- absorptive part ------------------------------ *)
(* wave number 0.5068 sqrt(1022 V + V^2) in 1e6 per A                           *)
WaveNumber(v) == LET rr == RatioRoot8(10220 * v + v * v, 100000000) IN rr * 5 + (rr \div 1000) * 68 + ((rr % 1000) * 68) \div 1000
Cbrt(z) == LET q == (z * 12500000) \div 8
               RECURSIVE N(_, _)
               N(y, k) == IF k = 0 THEN y ELSE N((2 * y + Ratio8(q \div 2, Mul8(y, y) \div 2)) \div 3, k - 1) IN
           4 * N(30000000 + (q \div 5) * 3, 9)
Hyp(a, b) == LET m == Max2(a, b)  r == Ratio8(Min2(a, b) \div 20, m \div 20) IN
             Mul8(m, Mul8(141421356, RatioRoot8((One8 + Mul8(r, r)) \div 2, One8)))
Over(a, b) == Ratio8(a \div 20, b \div 20)
(* hydrogenic core losses: 4 (0.885)^2 Z^(1/3) gamma^2 / k0 h(G R, theta_E k0 R), R = 0.885 a0 / Z^(1/3) *)
H3(w, k) == LET w2 == Mul8(w, w)  k2 == Mul8(k, k)
                h1 == Hyp(w, 2 * k)
                x1 == IF w = 0 THEN 0 ELSE Over(Mul8(Over(w, One8 + w2), Ln8(w + h1) - Ln8(2 * k)), h1)
                d2 == Hyp(One8 + w2, 2 * Mul8(k, w))
                x2 == Over(Ln8(One8 + 2 * k2 + w2 + d2) - Ln8(2 * k) - Ln8(One8 + k2) \div 2, d2)
                r == RatioRoot8((One8 + k2) \div 4, One8) * 4                \* 2 sqrt(1 + k^2)
                h3 == Hyp(w, r)
                x3 == IF w < 5000000 THEN Over(One8, 4 * (One8 + k2)) ELSE Over(Ln8(w + h3) - Ln8(r), Mul8(w, h3))
            IN x2 - x1 - x3
CoreAt(it) == LET cb == Cbrt(it.z)  k0 == WaveNumber(it.v)
                  rad == Ratio8(46807650 \div 5, cb \div 5)
                  th == Mul8(Ratio8(3 * it.z, it.v), Ratio8(2 * it.v + 10220, it.v + 10220))   \* 1e10
                  kap == Mul8(Mul8(th, rad), k0)
                  om == Mul8(Mul8(628318531, rad), it.g * 1000000)
                  h == H3(om, kap)
                  g2 == Mul8(Gamma(it.v), Gamma(it.v)) IN
   Mul8(Mul8(Mul8(Mul8(313290000, cb), Ratio8(h \div 200, k0 \div 2)), g2), Damp(it.g * it.g, it.s)) \div 100   \* 1e6
Core == \A k \in 1..Len(Rec.items) : LET it == Rec.items[k]  w == CoreAt(it) IN
   Clause("core losses", Near(it.im, w, 3 + Abs(w) \div 4000), [by |-> Rec.by, item |-> it, want |-> w])
(* the three implementations agree; the hybrid one has no negative absorption   *)
Agree == \A k \in 1..Len(Rec.items) : LET it == Rec.items[k] IN
   /\ Clause("absorption agrees between implementations", Near(it.hy, Max2(it.wk, 0), 30 + Abs(it.wk) \div 5000), [item |-> it])
   /\ Clause("analytical and numerical absorption agree", it.lvd = -1 \/ Near(it.lvd, it.wk, 100 + Abs(it.wk) \div 40), [item |-> it])
(* thermal absorption depends on voltage as gamma^2 / k0                        *)
Scaled(im, v) == LET g2 == Mul8(Gamma(v), Gamma(v)) IN Mul8(Ratio8(im \div 4, g2 \div 4), WaveNumber(v))
Scale == \A k \in 1..Len(Rec.items) : LET it == Rec.items[k]  a == Scaled(it.a, it.va)  b == Scaled(it.b, it.vb) IN
   Clause("thermal absorption by voltage", Near(a, b, 30 + Abs(a) \div 5000), [by |-> Rec.by, item |-> it])
(* contributions add up                                                         *)
Additive == \A k \in 1..Len(Rec.items) : LET it == Rec.items[k] IN
   /\ Clause("contributions add up", (Rec.by # "WK" /\ (it.core <= 0 \/ it.phonon <= 0)) \/ Near(it.both, it.core + it.phonon, 20 + Abs(it.both) \div 20000), [by |-> Rec.by, item |-> it])
   /\ Clause("no absorption without contributions", it.none = 0, [by |-> Rec.by, item |-> it])
   /\ Clause("thermal absorption is continuous at zero", Near(it.zero, it.near, 50 + Abs(it.zero) \div 300), [by |-> Rec.by, item |-> it])
(* --------------------------- exponential integrals --------------------------- *)
Euler == 57721566
(* exp(-x) Ei(x) for x in 1e-4: (C + ln x) exp(-x) + the mean of 1/k over a Poisson variable k >= 1 *)
EiScaled(x) == LET m == x \div 10000
                   RECURSIVE Up(_, _, _), Down(_, _, _)      \* weights relative to a quarter at the mode
                   Up(k, w, s) == IF w < 2 THEN s ELSE Up(k + 1, Mul8(w, Ratio8(x, 10000 * (k + 1))), <<s[1] + w, s[2] + (IF k = 0 THEN 0 ELSE w \div k)>>)
                   Down(k, w, s) == IF k < 0 \/ w < 2 THEN s ELSE Down(k - 1, IF k = 0 THEN 0 ELSE Mul8(w, Ratio8(10000 * k, x)), <<s[1] + w, s[2] + (IF k = 0 THEN 0 ELSE w \div k)>>)
                   u == Up(m, One8 \div 4, <<0, 0>>)
                   d == IF m = 0 THEN u ELSE Down(m - 1, Mul8(One8 \div 4, Ratio8(10000 * m, x)), u)
                   e == IF x > 180000 THEN 0 ELSE ExpNeg8(x * 10000)
                   l == IF x > 180000 THEN 0 ELSE Ln8(x * 10000) IN
   Mul8(e, Euler + l) + Over(d[2], d[1])
(* exp(x) E1(x): series below one, continued fraction above                     *)
E1Scaled(x) == IF x < 10000
   THEN LET y == x * 10000
            RECURSIVE T(_, _, _)
            T(k, p, s) == IF k > 12 THEN s ELSE LET q == Mul8(p, y) \div k IN T(k + 1, -q, s - (-q) \div k)
            s == -Euler - Ln8(y) + T(1, One8, 0) IN Ratio8(s \div 2, ExpNeg8(y) \div 2)
   ELSE LET RECURSIVE F(_, _)
            F(k, tt) == IF k = 0 THEN tt ELSE F(k - 1, x * 100 + Mul8(tt, Ratio8(k * 500000, (tt + k * 1000000) \div 2))) IN
        Ratio8(500000, F(60, x * 100) \div 2)
Integrals == \A k \in 1..Len(Rec.items) : LET it == Rec.items[k] IN
   /\ Clause("exponential integral Ei", it.x = 0 \/ LET w == EiScaled(it.x) IN Near(it.ei, w, 200 + Abs(w) \div 3000000 + Rec.loose * (Abs(w) \div 100000 + 200)), [by |-> Rec.by, item |-> it, want |-> EiScaled(it.x)])
   /\ Clause("exponential integral E1", it.x = 0 \/ LET w == E1Scaled(it.x) IN Near(it.e1, w, 60 + Abs(w) \div 1000000 + Rec.loose * (Abs(w) \div 100000)) /\ Near(it.em, -it.e1, 10 + Abs(it.e1) \div 2000000), [by |-> Rec.by, item |-> it, want |-> E1Scaled(it.x)])
(* ------------------------------ Simpson's rule ------------------------------- *)
(* six times the integral of a x^2 + b x + c over the nodes (and of d x^3 where twelve times) *)
Cube(x) == x * x * x
Prim(c, x) == 4 * c[1] * Cube(x) + 6 * c[2] * x * x + 12 * c[3] * x + 3 * c[4] * Cube(x) * x
Simpson == \A k \in 1..Len(Rec.items) : LET it == Rec.items[k]  w == Prim(it.c, it.b) - Prim(it.c, it.a) IN
   Clause("Simpson's rule is exact for parabolas", Near(it.got, w, 1 + Abs(w) \div 1000000), [item |-> it, want |-> w])
(* 12.26426 / sqrt(E (1 + 0.97848e-6 E)) with E = 100 v eV                      *)
Wavelength == \A k \in 1..Len(Rec.items) : LET it == Rec.items[k]
                  w == Mul8(122642595, RatioRoot8(10000, 10000 * it.v + it.v * it.v - (IF it.v < 900 THEN (it.v * it.v * 2152) \div 100000 ELSE (((it.v * it.v) \div 1000) * 2152) \div 100))) IN
   Clause("wavelength", Near(it.lam, w, w \div 40000), [item |-> it, want |-> w])
(* x exp(-x) Ei(x), interpolated in steps of 0.005 in 1/x from values rounded at 1e-6 *)
ScaledEi == \A k \in 1..Len(Rec.items) : LET it == Rec.items[k]  w == EiScaled(it.x * 10000) * it.x IN
   Clause("scaled exponential integral", Near(it.val, w, 3000 + 20 * it.x), [item |-> it, want |-> w])
Judge == t > Len(All) \/ CASE Rec.kind = "elastic" -> Elast [] Rec.kind = "table" -> Table [] Rec.kind = "core" -> Core
                           [] Rec.kind = "agree" -> Agree [] Rec.kind = "scale" -> Scale [] Rec.kind = "add" -> Additive
                           [] Rec.kind = "wavelength" -> Wavelength [] Rec.kind = "rih" -> ScaledEi
                           [] Rec.kind = "integrals" -> Integrals [] OTHER -> Simpson
Judged == Judge
=============================================================================
