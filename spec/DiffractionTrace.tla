-------------------------- MODULE DiffractionTrace --------------------------
(* Coefficients of dynamical diffraction: wavelengths, Fourier coefficients of *)
(* the potential, site matrices, excitation errors. Cells come with the        *)
(* reciprocal metric (1e6), positions in 240ths of the edges, and the atomic   *)
(* scattering factors (1e6) where they are needed.                             *)
EXTENDS Integers, Sequences, TLC, Vp, Fix8
CONSTANTS Samples
VARIABLE t
All == Samples
Init == t = 1
Next == t <= Len(All) /\ t' = t + 1
Spec == Init /\ [][Next]_t
Rec == All[t]
(* 1e6 units: cosines and sines of 240ths of a turn                            *)
ASSUME TLCSet(7, [k \in 0..239 |-> <<Cos8(2617994 * k) \div 100, Sin8(2617994 * k) \div 100>>])
Wave(d, p) == TLCGet(7)[(d[1] * p[1] + d[2] * p[2] + d[3] * p[3]) % 240]
Sum(f(_), n) == LET RECURSIVE S(_)
                    S(k) == IF k = 0 THEN 0 ELSE f(k) + S(k - 1) IN S(n)
(* sum over positions of exp(2 pi i d.r), 1e6                                  *)
Re6(d, pos) == Sum(LAMBDA k : Wave(d, pos[k])[1], Len(pos))
Im6(d, pos) == Sum(LAMBDA k : Wave(d, pos[k])[2], Len(pos))
(* squared length of d, 1e5                                                    *)
Sq5(m, d) == Sum(LAMBDA r : Sum(LAMBDA c : ((m[3 * (r - 1) + c] + 5) \div 10) * d[r] * d[c], 3), 3)
Bound(v, lim) == \A k \in 1..Len(v) : Abs(v[k]) <= lim
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
(* -------------------------------- wavelengths ------------------------------- *)
(* tenths of volts for tenths of a kV: V (1 + 0.00097847561649 V)              *)
Volts(v) == 1000 * v + (((v * v) \div 10) * 9785) \div 10000
(* lambda^2 psi = 1.5041203 (nm, V): lambda 100 in 1e8                         *)
Lam(l, psi) == Bound(<<l>>, 190000000) /\ l > 0 /\ psi > 0 /\ Near(Mul8(Mul8(l, l), psi * 1000), 150412036, 8000)
Wavelength == Clause("wavelength", Lam(Rec.lam, Volts(Rec.v)) /\ Near(Rec.psi, Volts(Rec.v), 2 + Rec.psi \div 100000)
                     /\ Near(Rec.gamma, 1000000 + (195695 * Rec.v) \div 1000, 3), Rec)
(* ------------------------------- site matrices ------------------------------ *)
(* the entry for g and h: Z^2 occupancy exp(-B (h - g)^2 / 4) sum exp(2 pi i (h - g) r), 1e4 *)
SghAt(s, g, h) == LET d == Minus(h, g)
                      x == Sq5(Rec.rmt, d)                                \* 1e5
                      w == ExpNeg8((Min2(x, 80000000) \div 4) * s.b) IN   \* b in 1e-3 nm^2, occupancy in eighths
   <<(((Mul8(Re6(d, s.pos), w) \div 100) * s.z * s.z) \div 8) * s.occ, (((Mul8(Im6(d, s.pos), w) \div 100) * s.z * s.z) \div 8) * s.occ>>
Sgh == \A k \in 1..Len(Rec.items) : LET it == Rec.items[k]  s == Rec.sites[it.s]  v == SghAt(s, it.g, it.h) IN
   Clause("site matrix", Near(it.re, v[1], 4 * s.z * s.z + Abs(v[1]) \div 20000) /\ Near(it.im, v[2], 4 * s.z * s.z + Abs(v[2]) \div 20000), [id |-> Rec.id, item |-> it, want |-> v])
(* ------------------------- potential coefficients --------------------------- *)
(* ff, gg of d (1e5): sums over sites of occupancy, factor and exp(-2 pi i d.r) *)
Mean(d, s, im) == 100 * ((IF im THEN -Im6(d, s.pos) ELSE Re6(d, s.pos)) \div Len(s.pos))
Part(d, f, im) == Sum(LAMBDA j : (Mul8(Mean(d, Rec.sites[j], im), f[j]) * Len(Rec.sites[j].pos) * Rec.sites[j].occ) \div 80, Len(Rec.sites))
Pref8 == Ratio8(4787801, Rec.vol)           \* 0.04787801 / vol, vol in 1e8 nm^3
Preg8 == 66484034
Times(x, y8) == Mul8(x, y8)
Ff(it) == <<Part(it.d, it.fre, FALSE), Part(it.d, it.fre, TRUE)>>
Gg(it) == <<Part(it.d, it.fim, FALSE), Part(it.d, it.fim, TRUE)>>
Root(x, y) == LET m == Max2(Max2(Abs(x), Abs(y)), 1)  u == Ratio8(x, m) \div 14143  v == Ratio8(y, m) \div 14143 IN
   Mul8(Mul8(m, RatioRoot8(u * u + v * v, 100000000)), 141430000)
(* 1e5 units                                                                    *)
Tol(it) == 12 + (Abs(it.ure) + Abs(it.uim)) \div 10000
UWant(it) == LET f == Ff(it)  g == Gg(it)  p == Mul8(Pref8, Preg8) IN
   IF Rec.absorb THEN <<Mul8(f[1] - g[2], p), Mul8(f[2] + g[1], p)>> ELSE <<Mul8(f[1], p), Mul8(f[2], p)>>
Potential == /\ Clause("bounded", Pref8 > 0 /\ Pref8 < 190000000 /\ \A k \in 1..Len(Rec.items) : Bound(<<Rec.items[k].ure, Rec.items[k].uim>>, 100000000), [id |-> Rec.id])
   /\ \A k \in 1..Len(Rec.items) : LET it == Rec.items[k]  w == UWant(it) IN
      Clause("potential coefficient", Near(it.ure, w[1], Tol(it)) /\ Near(it.uim, w[2], Tol(it)), [id |-> Rec.id, item |-> it, want |-> w])
   /\ LET z == Rec.zero  f == Ff(z)  g == Gg(z)  v0 == Mul8(Pref8, Root(f[1], f[2])) \div 10000 IN       \* tenths of volts
      /\ Clause("wavelength in the crystal", Lam(Rec.lam, Volts(Rec.v) + v0), [id |-> Rec.id, v |-> Rec.v, lam |-> Rec.lam, mean |-> v0])
      /\ Clause("mean absorption", Near(Rec.up, IF Rec.absorb THEN Mul8(Mul8(Pref8, Preg8), Root(g[1], g[2])) ELSE 0, 8 + Rec.up \div 2000), [id |-> Rec.id, up |-> Rec.up])
(* ------------------------- scattering matrix entries ------------------------ *)
(* per entry q (1e7 per nm) with U (1e5 per nm^2) and the wavelength: q = lambda U,  *)
(* or the same turned by the phase of the elastic part                          *)
QWant(it) == LET f == Ff(it)  g == Gg(it)  p == Mul8(Pref8, Preg8)
                 u == <<Mul8(f[1], p), Mul8(f[2], p)>>  w == <<Mul8(g[1], p), Mul8(g[2], p)>>
                 m == Max2(Root(u[1], u[2]), 1)
                 q == IF ~Rec.absorb THEN <<m, 0>>
                      ELSE IF Rec.shift THEN <<u[1] - w[2], u[2] + w[1]>>
                      ELSE \* |u| + i w conj(u) / |u|
                           <<m + Mul8(w[1], Ratio8(u[2], m)) - Mul8(w[2], Ratio8(u[1], m)),
                             Mul8(w[1], Ratio8(u[1], m)) + Mul8(w[2], Ratio8(u[2], m))>>
             IN <<Mul8(q[1], Rec.lam), Mul8(q[2], Rec.lam)>>                     \* 100 lambda
Matrix == \A k \in 1..Len(Rec.items) : LET it == Rec.items[k]  w == QWant(it)  f == Ff(it) IN
   Clause("scattering matrix entry", (~Rec.shift /\ Abs(f[1]) + Abs(f[2]) < 30000) \/ (Near(it.ure, w[1], 20 + Abs(it.ure) \div 500) /\ Near(it.uim, w[2], 20 + Abs(it.uim) \div 500 + (IF Rec.shift THEN 0 ELSE Abs(it.ure) \div 500))),
          [id |-> Rec.id, item |-> it, want |-> w])
(* ----------------------------- excitation errors ---------------------------- *)
(* |k + g| ends on the sphere after s along k: s 2 (k + g).k = - g.(2k + g) |k|; *)
(* k in tenths of reciprocal edges, all in 1e4                                  *)
Dot4(m, a, b) == Sum(LAMBDA r : Sum(LAMBDA c : ((m[3 * (r - 1) + c] + 50) \div 100) * a[r] * b[c], 3), 3)
Excite == \A k \in 1..Len(Rec.items) : LET it == Rec.items[k]
      kk == Dot4(Rec.rmt, it.k, it.k)  gk == Dot4(Rec.rmt, it.g, it.k)  gg == Dot4(Rec.rmt, it.g, it.g)   \* 100 k.k, 10 g.k, g.g
      num == -(2 * gk + 10 * gg) \div 10                                         \* 1e4
      den == 2 * (kk \div 100 + gk \div 10)                                       \* 1e4
      kl == RatioRoot8(kk \div 100, 4000000) IN                                   \* |k| / 20, 1e8
   Abs(den) < 30000 \/ Abs(num) \div Abs(den) >= 15 \/
   Clause("excitation error", LET want == Mul8(IF den > 0 THEN Ratio8(num, den) ELSE Ratio8(-num, -den), kl) \div 500 IN Near(it.s, want, 20 + Abs(want) \div 500), [id |-> Rec.id, item |-> it])
Judge == t > Len(All) \/ CASE Rec.kind = "wavelength" -> Wavelength [] Rec.kind = "sites" -> Sgh
                           [] Rec.kind = "potential" -> Potential [] Rec.kind = "matrix" -> Matrix [] OTHER -> Excite
Judged == Judge
=============================================================================
