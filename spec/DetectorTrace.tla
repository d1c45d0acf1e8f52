---------------------------- MODULE DetectorTrace ----------------------------
(* The detector in the sample frame. Lengths in detector heights, 1e8 units.   *)
(* The detector frame: pixel rows i run along Down, columns j along Right, the *)
(* source lies pcz heights behind the pattern center along -Normal. An          *)
(* optional rigid motion exp(w, u) of the detector frame goes first.            *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Vp, Fix8
CONSTANTS Samples
VARIABLES t
vars == <<t>>
All == Samples
R == All[t]
Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Times(k, a) == <<Mul8(k, a[1]), Mul8(k, a[2]), Mul8(k, a[3])>>
Cross(a, b) == <<Mul8(a[2], b[3]) - Mul8(a[3], b[2]), Mul8(a[3], b[1]) - Mul8(a[1], b[3]), Mul8(a[1], b[2]) - Mul8(a[2], b[1])>>
(* d: detector tilt less sample tilt; s: the other tilt of the sample            *)
Down(d) == <<-Sin8(d), 0, -Cos8(d)>>
Along == <<0, One8, 0>>
Out(d) == <<Cos8(d), 0, -Sin8(d)>>
Right(d, s) == Minus(Times(Cos8(s), Along), Times(Sin8(s), Out(d)))
Normal(d, s) == Plus(Times(Sin8(s), Along), Times(Cos8(s), Out(d)))
(* the columns are recorded as the rows of m                                       *)
Axes(d, s) == <<Down(d), Right(d, s), Normal(d, s)>>
At(ax, v) == LET c(k) == Mul8(ax[1][k], v[1]) + Mul8(ax[2][k], v[2]) + Mul8(ax[3][k], v[3]) IN <<c(1), c(2), c(3)>>
(* from the pattern center: fractions of the height from the top and of the width  *)
(* from the left of the edge of the first pixel                                     *)
Source(pc, rows, cols) == LET half == Ratio8(1, 2 * rows) IN
   <<half - pc[2], half - Mul8(Ratio8(cols, rows), pc[1]), pc[3]>>
(* exp(w, u) of a point, |w| < 1.1: R p + V u by series in the squared angle        *)
Sq(w) == Mul8(w[1], w[1]) + Mul8(w[2], w[2]) + Mul8(w[3], w[3])
Ser(q, a, b, c, e) == LET x == Mul8(q, One8 \div e) IN (One8 - Mul8(q, One8 - Mul8(q, One8 - Mul8(q, One8 - x) \div c) \div b) \div a)
FA(q) == Ser(q, 6, 20, 42, 72)
FB(q) == Ser(q, 12, 30, 56, 90) \div 2
FC(q) == Ser(q, 20, 42, 72, 110) \div 6
Turned(w, p) == LET q == Sq(w)  c == Cross(w, p) IN Plus(p, Plus(Times(FA(q), c), Times(FB(q), Cross(w, c))))
Slid(w, u) == LET q == Sq(w)  c == Cross(w, u) IN Plus(u, Plus(Times(FB(q), c), Times(FC(q), Cross(w, c))))
Moved(w, u, p) == Plus(Turned(w, p), Slid(w, u))
(* the parts of the motion in force after a sequence of settings: each sets the     *)
(* rotations, the shifts, both or neither                                            *)
Mask(first, sets) == FoldLeft(LAMBDA m, s : [k \in 1..6 |-> IF (IF k < 4 THEN s.rot ELSE s.shift) THEN s.m[k] = 1 ELSE m[k]], [k \in 1..6 |-> first[k] = 1], sets)
Motion == LET m == Mask(R.first, R.sets) IN TLCEval([k \in 1..6 |-> IF m[k] THEN R.se3[k] ELSE 0])
Spot(ax, c, x, pix) == LET w == <<x[1], x[2], x[3]>>  u == <<x[4], x[5], x[6]>> IN
   At(ax, Plus(Moved(w, u, <<pix[1], pix[2], 0>>), c))
NearV(a, b, tol) == \A k \in 1..3 : Near(a[k], b[k], tol)
Geom == LET ax == TLCEval(Axes(R.d, R.s))  c == TLCEval(Source(R.pc, R.rows, R.cols))  x == Motion IN
   /\ Clause("one value per component", Len(R.got) = Len(R.pix), R.id)
   /\ \A p \in 1..Len(R.pix) :
        LET want == TLCEval(Minus(Spot(ax, c, x, <<Ratio8(R.pix[p][1], R.unit * R.rows), Ratio8(R.pix[p][2], R.unit * R.rows)>>), <<R.scan[p][1], R.scan[p][2], 0>>)) IN
        Clause(R.name, NearV(R.got[p], want, 400), [id |-> R.id, p |-> p, pixel |-> R.pix[p], got |-> R.got[p], want |-> want])
(* the point hit by a ray from the scan position: in line with the ray                *)
Hit == LET ax == TLCEval(Axes(R.d, R.s))  c == TLCEval(Source(R.pc, R.rows, R.cols))  x == Motion IN
   \A p \in 1..Len(R.got) :
      LET at == TLCEval(Minus(Spot(ax, c, x, R.got[p]), <<R.scan[p][1], R.scan[p][2], 0>>))
          off == Cross(R.ray[p], at) IN
      Clause("the ray meets the detector where it is said to", NearV(off, <<0, 0, 0>>, 1500), [id |-> R.id, p |-> p, at |-> at, ray |-> R.ray[p]])
(* centers of binned pixels, in halves of a pixel: the mean of their pixels' centers  *)
Grid == LET h == R.rows \div R.bin[1]  w == R.cols \div R.bin[2] IN
   [k \in 1..(h * w) |-> <<2 * (((k - 1) \div w) * R.bin[1]) + R.bin[1] - 1, 2 * (((k - 1) % w) * R.bin[2]) + R.bin[2] - 1>>]
Binned == LET g == Grid  ax == TLCEval(Axes(R.d, R.s))  c == TLCEval(Source(R.pc, R.rows, R.cols))  x == Motion IN
   /\ Clause("one point per binned pixel", Len(R.got) = Len(g), R.id)
   /\ \A p \in 1..Len(g) :
        LET want == TLCEval(Spot(ax, c, x, <<Ratio8(g[p][1], 2 * R.rows), Ratio8(g[p][2], 2 * R.rows)>>)) IN
        Clause("centers of the binned pixels", NearV(R.got[p], want, 400), [id |-> R.id, p |-> p, got |-> R.got[p], want |-> want])
(* the axes, the position of the first pixel and back                                  *)
Same(a, b) == LET e == (a - b) % 360000 IN Min2(e, 360000 - e) <= 12
Bruker == LET ax == TLCEval(Axes(R.d, R.s))  o == At(ax, Source(R.pc, R.rows, R.cols)) IN
   /\ Clause("axes of the detector", \A k \in 1..3 : NearV(R.axes[k], ax[k], 150), [r |-> R, want |-> ax])
   /\ Clause("position of the first pixel", NearV(R.tr, o, 600), [r |-> R, want |-> o])
   /\ Clause("pattern center and tilts come back", (\A k \in 1..3 : Near(R.back[k], R.pc[k], R.backtol)) /\ Same(R.tilts[1], R.deg[1]) /\ Same(R.tilts[2], R.deg[2]), R)
Grads == LET m == Mask(R.first, R.sets) IN
   Clause("only the chosen parts of the motion are optimised", \A k \in 1..6 : (R.grad[k] = 1) = m[k], R)
(* directions in a deformed crystal: the orientation turns the direction of the point,  *)
(* the inverse deformation gradient finv (rows) follows; recorded as unit vectors         *)
Half(v) == <<v[1] \div 16, v[2] \div 16, v[3] \div 16>>
TurnQ(q, v) == LET a == <<q[2], q[3], q[4]>>  c == Cross(a, v) IN Plus(v, Plus(Times(2 * q[1], c), Times(2 * One8, Cross(a, c))))
Dot(a, b) == Mul8(a[1], b[1]) + Mul8(a[2], b[2]) + Mul8(a[3], b[3])
Strain == LET ax == TLCEval(Axes(R.d, R.s))  c == TLCEval(Source(R.pc, R.rows, R.cols))
              x == Motion  w == <<x[1], x[2], x[3]>>  u == <<x[4], x[5], x[6]>>
              at(pix) == IF R.bruker THEN At(ax, Plus(<<pix[1], pix[2], 0>>, c)) ELSE Moved(w, u, <<pix[1], pix[2], 0>>)
              f == R.finv IN
   LET g == Grid IN
   /\ Clause("one direction per binned pixel", Len(R.got) = Len(g), R.id)
   /\ \A p \in 1..Len(g) :
        LET v == Half(at(<<Ratio8(g[p][1], 2 * R.rows), Ratio8(g[p][2], 2 * R.rows)>>))
            s == TLCEval(TurnQ(R.q, v))
            e == TLCEval(<<Dot(f[1], s), Dot(f[2], s), Dot(f[3], s)>>)  got == R.got[p]
            off == Cross(got, e) IN
        Clause("directions in the deformed crystal", NearV(off, <<0, 0, 0>>, 60 + (Abs(Dot(got, e)) \div 400000)) /\ Dot(got, e) > 0 /\ Near(Dot(got, got), One8, 200), [id |-> R.id, p |-> p, got |-> got, want |-> e])
Alike == Clause(R.what, Len(R.a) = Len(R.b) /\ (\A k \in 1..Len(R.a) : Near(R.a[k], R.b[k], R.tol)), R)
Init == t = 0
Next == t < Len(All) /\ t' = t + 1
Spec == Init /\ [][Next]_vars
Judged == t = 0 \/ (CASE R.op = "points" -> Geom [] R.op = "hit" -> Hit [] R.op = "binned" -> Binned [] R.op = "grad" -> Grads [] R.op = "strain" -> Strain [] R.op = "alike" -> Alike [] OTHER -> Bruker)
=============================================================================
