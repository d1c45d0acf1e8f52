------------------------------ MODULE CellTrace ------------------------------
(* Unit cells with edges in half angstroms and cosines in tenths: metric,      *)
(* volume, structure matrices, products in the three spaces, density,          *)
(* reflections, and the hexagonal cell of a rhombohedral one.                  *)
EXTENDS SpaceGroups, TLC, Vp, Fix8
F4 == INSTANCE Fix
CONSTANTS Samples
VARIABLE i
All == Samples
Cur == All[i]
Bound(v, lim) == \A k \in 1..Len(v) : Abs(v[k]) <= lim
At(M, r, c) == M[3 * (r - 1) + c]
ProdAt(M, N, r, c) == Mul8(At(M, r, 1), At(N, 1, c)) + Mul8(At(M, r, 2), At(N, 2, c)) + Mul8(At(M, r, 3), At(N, 3, c))
GramAt(M, r, c) == Mul8(At(M, 1, r), At(M, 1, c)) + Mul8(At(M, 2, r), At(M, 2, c)) + Mul8(At(M, 3, r), At(M, 3, c))
Tp(M) == <<M[1], M[4], M[7], M[2], M[5], M[8], M[3], M[6], M[9]>>
\* 1000 times the squared volume of the cell with unit edges
Disc(c) == 1000 - 10 * (c[1] * c[1] + c[2] * c[2] + c[3] * c[3]) + 2 * c[1] * c[2] * c[3]
Vol8(e, c) == Mul8(RatioRoot8(Disc(c), 1000), Ratio8(e[1] * e[2] * e[3], 8000))
CosAt(c, r, s) == IF r = s THEN 10 ELSE c[6 - r - s]
Metric8(e, c, r, s) == e[r] * e[s] * CosAt(c, r, s) * 25000
Nine == (1..3) \X (1..3)
Metric == LET M == Cur.dmt  R == Cur.rmt  D == Cur.dsm  Q == Cur.rsm  e == Cur.e  c == Cur.c IN
   IF ~Bound(M, 200000000) \/ ~Bound(R, 1800000000) \/ ~Bound(D, 110000000) \/ ~Bound(Q, 1000000000) \/ ~Bound(Cur.angles, 350000000) \/ ~Bound(Cur.abc, 200000000)
   THEN Clause("bounded", FALSE, Cur)
   ELSE /\ Clause("metric tensor", \A p \in Nine : Near(At(M, p[1], p[2]), Metric8(e, c, p[1], p[2]), Cur.tol), Cur)
        /\ Clause("edges", \A k \in 1..3 : Near(Cur.abc[k], e[k] * 5000000, Cur.tol), Cur)
        /\ Clause("angles", \A k \in 1..3 : Cur.angles[k] > 0 /\ Near(Cos8(Cur.angles[k]), c[k] * 10000000, Cur.tol), Cur)
        /\ Clause("volume", Near(Cur.vol, Vol8(e, c), Cur.tol), Cur)
        /\ Clause("reciprocal metric tensor", \A p \in Nine : Near(ProdAt(Tp(M), R, p[1], p[2]), IF p[1] = p[2] THEN One8 ELSE 0, 40 * Cur.tol), Cur)
        /\ Clause("structure matrix: first edge along x, second in the plane, right handed",
                  D[4] = 0 /\ D[7] = 0 /\ D[8] = 0 /\ D[1] > 0 /\ D[5] > 0 /\ D[9] > 0, Cur)
        /\ Clause("structure matrix: metric", \A p \in Nine : Near(GramAt(D, p[1], p[2]), At(M, p[1], p[2]), 4 * Cur.tol), Cur)
        /\ Clause("reciprocal structure matrix", \A p \in Nine : Near(ProdAt(Tp(D), Q, p[1], p[2]), IF p[1] = p[2] THEN One8 ELSE 0, 40 * Cur.tol), Cur)
(* vectors with small whole components, matrices in 1e6 units                 *)
ByRows(M, t) == <<M[1] * t[1] + M[2] * t[2] + M[3] * t[3], M[4] * t[1] + M[5] * t[2] + M[6] * t[3], M[7] * t[1] + M[8] * t[2] + M[9] * t[3]>>
WMulP(a, b) == (a \div 100) * (b \div 100) + ((a \div 100) * (b % 100) + (a % 100) * (b \div 100)) \div 100 + ((a % 100) * (b % 100)) \div 10000
WMul(a, b) == IF (a < 0) = (b < 0) THEN WMulP(Abs(a), Abs(b)) ELSE -WMulP(Abs(a), Abs(b))
Mat(s) == CASE s = "dc" -> Cur.dsm [] s = "rc" -> Cur.rsm [] s = "dr" -> Cur.dmt [] s = "rd" -> Cur.rmt [] s = "cd" -> Tp(Cur.rsm) [] s = "cr" -> Tp(Cur.dsm)
              [] OTHER -> <<1000000, 0, 0, 0, 1000000, 0, 0, 0, 1000000>>
Near3(u, v, tol) == \A k \in 1..3 : Near(u[k], v[k], tol)
\* Cartesian components of p given in space s, 1e4 units
Cart(s, p) == LET v == ByRows(Mat(s \o "c"), p) IN [k \in 1..3 |-> (v[k] + 50) \div 100]
Cart4(s, p) == LET M == Mat(s \o "c")  w(r) == WMul(M[3 * r + 1] \div 100, p[1]) + WMul(M[3 * r + 2] \div 100, p[2]) + WMul(M[3 * r + 3] \div 100, p[3]) IN <<w(0), w(1), w(2)>>
Dot4(u, v) == WMul(u[1], v[1]) + WMul(u[2], v[2]) + WMul(u[3], v[3])
Cross4(u, v) == <<WMul(u[2], v[3]) - WMul(u[3], v[2]), WMul(u[3], v[1]) - WMul(u[1], v[3]), WMul(u[1], v[2]) - WMul(u[2], v[1])>>
Size(v) == Abs(v[1]) + Abs(v[2]) + Abs(v[3])
Vectors == LET p == Cur.p  q == Cur.q  s == Cur.s  cp == Cart(s, p)  cq == Cart(s, q)
               d == Dot4(cp, cq)  dp == Dot4(cp, cp)
               rel(x) == 8 + (x \div 1500) IN
   IF \E k \in 1..3 : \E x \in {"d", "r", "c"} : ~Bound(Cur.to[x], 400000000) \/ ~Bound(Cur.cross[x] \o Cur.bare[x], 40000000) \/ ~Bound(<<Cur.dot, Cur.auto>>, 40000000)
         \/ ~Bound(<<Cur.len, Cur.lenq>>, 1000000) \/ ~Bound(Cur.unit, 400000) \/ ~Bound(<<Cur.angle>>, 40000) \/ ~Bound(<<Cur.vol>>, 20000)
         \/ ~Bound(Cur.dmt \o Cur.dsm, 2000000) \/ ~Bound(Cur.rmt \o Cur.rsm, 20000000) THEN Clause("bounded", FALSE, Cur)
   ELSE /\ Clause("change of space", \A x \in {"d", "r", "c"} : Near3(Cur.to[x], ByRows(Mat(s \o x), p), 30), Cur)
        /\ Clause("dot product", Near(Cur.dot, d, rel(Size(cp) + Size(cq))) /\ Near(Cur.auto, dp, rel(2 * Size(cp))), Cur)
        /\ Clause("length", Cur.len >= 0 /\ Near(WMul(Cur.len, Cur.len), dp, rel(4 * Size(cp))), Cur)
        /\ Clause("normalised", IF p = <<0, 0, 0>> THEN Cur.unit = <<0, 0, 0>>
                                ELSE \A k \in 1..3 : Near(WMul(Cur.unit[k], Cur.len), p[k] * 10000, 2 + Abs(Cur.unit[k]) \div 8000 + Abs(Cur.len) \div 8000), Cur)
        /\ (Cur.angle >= 0 => Clause("angle", Cur.angle <= 31417 /\ Near(WMul(WMul(Cur.len, Cur.lenq), F4!FCos(Cur.angle)), d, 30 + (Cur.len + Cur.lenq) \div 2000 + WMul(Cur.len, Cur.lenq) \div 800), Cur))
        /\ Clause("cross product", LET w == Cross4(cp, cq) IN
              \A x \in {"d", "r", "c"} : Near3(Cart4(x, Cur.cross[x]), w, 12 + (Size(cp) + Size(cq)) \div 800 + Size(Cur.cross[x]) \div 1500), Cur)
        \* without the volume the product is divided (direct) or multiplied (reciprocal) by it
        /\ Clause("cross product without the volume", \A x \in {"d", "r", "c"} : \A k \in 1..3 :
              Near(WMul(Cur.bare[x][k], CASE s = "d" -> Cur.vol [] s = "r" -> 10000 [] OTHER -> 10000),
                   CASE s = "r" -> WMul(Cur.cross[x][k], Cur.vol) [] OTHER -> Cur.cross[x][k], 4 + Abs(Cur.cross[x][k]) \div 900 + Abs(Cur.bare[x][k]) \div 8000), Cur)
(* rotation of the frame, entries of the matrix in 1e4                         *)
Frame == LET v == ByRows(IF Cur.dir = "on" THEN Cur.m ELSE Tp(Cur.m), Cur.p) IN
   IF ~Bound(Cur.v, 10000000) THEN Clause("bounded", FALSE, Cur) ELSE Clause("change of frame", Near3(Cur.v, v, 12), Cur)
Turns == Clause("angle of a known turn", Len(Cur.got) = Len(Cur.want) /\ \A k \in 1..Len(Cur.want) : Near(Cur.got[k], Cur.want[k], 3), Cur)
(* weights in 0.01 g/mol                                                       *)
Weight == <<101, 400, 694, 901, 1081, 1201, 1401, 1600, 1900, 2018, 2299, 2431, 2698, 2809, 3097, 3207, 3545, 3995, 3910, 4008, 4496, 4787, 5094, 5200, 5494, 5585, 5893, 5869, 6355, 6538,
   6972, 7264, 7492, 7896, 7990, 8380, 8547, 8762, 8891, 9122, 9291, 9596, 9891, 10107, 10291, 10642, 10787, 11241, 11482, 11871, 12176, 12760, 12690, 13129, 13291, 13733, 13891, 14012, 14091, 14424,
   14500, 15036, 15196, 15725, 15893, 16250, 16493, 16726, 16893, 17305, 17497, 17849, 18095, 18384, 18621, 19023, 19222, 19508, 19697, 20059, 20438, 20720, 20898, 20900, 21000, 22200, 22300, 22600, 22700,
   23204, 23104, 23803, 23700, 24400, 24300, 24700, 24700, 25100>>
Sum(f(_)) == SumSeq([k \in 1..Len(Cur.z) |-> f(k)])
Density == LET W == Sum(LAMBDA k : ((Weight[Cur.z[k]] * Cur.occ[k]) \div 10) * Cur.mult[k])      \* 0.001 g/mol
               n == Sum(LAMBDA k : Cur.mult[k])
               V == (RatioRoot8(Disc(Cur.c), 1000) \div 100000) * Cur.e[1] * Cur.e[2] * Cur.e[3]    \* 1/8000 cubic angstrom
               den == Max2(F4!FMul(V \div 80, 6022), 1)                                            \* 0.01 g/mol per g/cm3
               rho == (W \div den) * 100 + ((W % den) * 100) \div den                              \* 0.001 g/cm3
               \* within 0.3 per cent
               lo(x) == x - x \div 300 - 2  hi(x) == x + x \div 300 + 2 IN
   IF Abs(Cur.density) > 20000000 \/ Abs(Cur.aw) > 300000 \/ Abs(Cur.an) > 1000000 THEN Clause("bounded", FALSE, Cur)
   ELSE /\ Clause("density", Cur.density >= lo(rho) /\ Cur.density <= hi(rho), [want |-> rho, rec |-> Cur])
        /\ (Cur.whole => LET a == W \div n IN Clause("average weight", Cur.aw >= lo(a) /\ Cur.aw <= hi(a), Cur))
        /\ (Cur.whole => Clause("average atomic number", Near(Cur.an, (Sum(LAMBDA k : Cur.z[k] * Cur.mult[k]) * 100) \div n, 2), Cur))
        /\ Clause("shares of the squared atomic number", LET z2 == [k \in 1..Len(Cur.z) |-> Cur.z[k] * Cur.z[k] * Cur.mult[k]]  all == SumSeq([k \in 1..Len(Cur.z) |-> (z2[k] * Cur.occ[k]) \div 10]) IN all >= 100000 =>
              \A k \in 1..Len(Cur.z) : Near(Cur.z2[k], (z2[k] * Cur.occ[k]) \div Max2(all \div 100, 1), 3 + Cur.z2[k] \div 200), Cur)
(* reflections: reciprocal metric in 1e4 per nm2, 1/d2 likewise                *)
Sq(g) == LET R == Cur.rmt IN g[1] * g[1] * R[1] + g[2] * g[2] * R[5] + g[3] * g[3] * R[9] + 2 * (g[1] * g[2] * R[2] + g[1] * g[3] * R[3] + g[2] * g[3] * R[6])
Slack(g) == 4 + g[1] * g[1] + g[2] * g[2] + g[3] * g[3] + 2 * (Abs(g[1] * g[2]) + Abs(g[1] * g[3]) + Abs(g[2] * g[3]))
Centred(n, g) == \A t \in Lattice(First[n][1]) : (g[1] * t[1] + g[2] * t[2] + g[3] * t[3]) % 24 = 0
Reflections == LET L == {Cur.hkl[k] : k \in 1..Len(Cur.hkl)}
                   ok(g) == g # <<0, 0, 0>> /\ (Cur.filter => Centred(Cur.n, g))
                   b == Cur.box IN
   /\ Clause("each reflection once", Cardinality(L) = Len(Cur.hkl), [id |-> Cur.id])
   /\ Clause("only reflections of the cell within the resolution", \A g \in L : ok(g) /\ Sq(g) <= Cur.lim + Slack(g), [id |-> Cur.id, bad |-> {g \in L : ~(ok(g) /\ Sq(g) <= Cur.lim + Slack(g))}])
   /\ Clause("every reflection of the cell within the resolution",
         \A h \in (-b[1])..b[1], k \in (-b[2])..b[2], l \in (-b[3])..b[3] : LET g == <<h, k, l>> IN (Sq(g) <= Cur.lim - Slack(g) /\ ok(g)) => g \in L, [id |-> Cur.id])
Differences == LET D == {Cur.diff[k] : k \in 1..Len(Cur.diff)} IN
   /\ Clause("each difference once", Cardinality(D) = Len(Cur.diff), [id |-> Cur.id])
   /\ Clause("differences are reflections", \A g \in D : g # <<0, 0, 0>> /\ (Cur.filter => Centred(Cur.n, g)), [id |-> Cur.id])
   /\ Clause("every difference of two reflections", \A k \in 1..Len(Cur.some) : \A j \in 1..Len(Cur.hkl) : LET g == <<Cur.hkl[j][1] - Cur.some[k][1], Cur.hkl[j][2] - Cur.some[k][2], Cur.hkl[j][3] - Cur.some[k][3]>> IN g = <<0, 0, 0>> \/ g \in D, [id |-> Cur.id])
(* rhombohedral edge e and cosine c to the hexagonal cell, sites in 240ths     *)
Hexagonal == LET e == Cur.e  c == Cur.c IN
   IF ~Bound(Cur.abc, 40000) \/ ~Bound(Cur.angles, 40000) THEN Clause("bounded", FALSE, Cur)
   ELSE /\ Clause("hexagonal cell", /\ Near(Cur.abc[1], Cur.abc[2], 1)
               /\ Near(F4!FMul(Cur.abc[1], Cur.abc[1]), (e * e * (10 - c) * 5), 6) /\ Near(F4!FMul(Cur.abc[3], Cur.abc[3]), (e * e * (30 + 6 * c) * 5) \div 2, 8)
               /\ Near(Cur.angles[1], 15708, 1) /\ Near(Cur.angles[2], 15708, 1) /\ Near(Cur.angles[3], 20944, 1), Cur)
        /\ Clause("volume of three", Near(Cur.vol, 3 * Cur.vol1, 6), Cur)
        /\ Clause("sites in the hexagonal cell", \A k \in 1..Len(Cur.sites) : LET x == Cur.sites[k]  y == Cur.moved[k] IN
              /\ (y[1] - (2 * x[1] - x[2] - x[3])) % 720 = 0 /\ (y[2] - (x[1] + x[2] - 2 * x[3])) % 720 = 0 /\ (y[3] - (x[1] + x[2] + x[3])) % 720 = 0, Cur)
Judge == CASE Cur.kind = "metric" -> Metric [] Cur.kind = "vectors" -> Vectors [] Cur.kind = "frame" -> Frame [] Cur.kind = "density" -> Density
           [] Cur.kind = "reflections" -> Reflections [] Cur.kind = "differences" -> Differences [] Cur.kind = "turns" -> Turns [] Cur.kind = "hexagonal" -> Hexagonal
Init == i = 1
Next == i <= Len(All) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Judged == i <= Len(All) => Judge
=============================================================================
