---------------------------- MODULE ElectronTrace ----------------------------
(* Backscattered electrons. A beam electron alternates scattering and flight     *)
(* (screened Rutherford angles and mean free path, continuous energy loss) until *)
(* it leaves the surface or has had R.events events. Here electrons fly with     *)
(* given uniform and exponential variates, one per state, and are tallied in     *)
(* classes; at the end the tallies are compared with those of the code, which    *)
(* draws its own: the counts must agree within five standard deviations.          *)
(* Units: energies of the beam energy, lengths of its mean free path, 1e8.        *)
(* R: E0, a0 (screening at the beam energy), K (relative energy lost per path     *)
(* length over the logarithm), J (ionisation potential over E0), dir, events,     *)
(* eb, db (bin sizes), ne, nd (numbers of bins), uni[k] = list of events           *)
(* <<R, X, cos psi, sin psi>>, code (tallies), sims                                *)
EXTENDS Integers, Sequences, TLC, Vp, Fix8
CONSTANTS Samples
VARIABLES t, k, tally
vars == <<t, k, tally>>
All == Samples
R == All[t]
(* natural logarithm of x (1e8 units), 0 < x < 20                                   *)
RECURSIVE Ln8(_)
Ln8(x) == IF x > 150000000 THEN Ln8((x + 1) \div 2) + 69314718
          ELSE IF x < 70000000 THEN Ln8(2 * x) - 69314718
          ELSE LET y == Ratio8((x - One8) \div 4, (x + One8) \div 4)  q == Mul8(y, y) IN
               2 * Mul8(y, One8 + Mul8(q, (One8 \div 3) + Mul8(q, (One8 \div 5) + Mul8(q, (One8 \div 7) + (q \div 9)))))
(* quotient of numbers below 20                                                       *)
Quot(a, b) == Ratio8(a \div 20, b \div 20)
(* square root of 0 <= a <= 1                                                          *)
Root(a) == IF a <= 0 THEN 0 ELSE RatioRoot8(Min2(a, One8) \div 8, One8 \div 8)
(* (1024 + E) / (511 + E) over 2                                                       *)
Rel(e) == LET en == ((R.E0 \div 10) * (e \div 10000)) \div 1000 IN Ratio8((10240000 + en) \div 2, 5110000 + en)
(* ln(1.166 E / J + 0.9911)                                                            *)
Stop(e) == Ln8(Mul8(116600000, e) + Mul8(99110000, R.J)) - Ln8(R.J)
(* one event of <<energy, depth, direction>>                                            *)
Event(s, u) ==
   LET e == s[1]  al == Quot(R.a0, e)
       g == Quot(Rel(e), Rel(One8))
       mfp == Mul8(Mul8(e, Quot(One8 + al, One8 + R.a0)), Mul8(g, g))
       step == Mul8(mfp, u[2])
       c == One8 - Quot(2 * Mul8(al, u[1]), (One8 + al) - u[1])
       si == Root(Mul8(One8 - c, One8 + c))
       d == s[3]
       h == Root(Mul8(d[1], d[1]) + Mul8(d[2], d[2]))
       \* unit vectors across the direction: horizontal and the other
       p == IF h < 100000 THEN <<One8, 0, 0>> ELSE <<Quot(-d[2], h), Quot(d[1], h), 0>>
       q == <<Mul8(d[2], p[3]) - Mul8(d[3], p[2]), Mul8(d[3], p[1]) - Mul8(d[1], p[3]), Mul8(d[1], p[2]) - Mul8(d[2], p[1])>>
       f(j) == Mul8(c, d[j]) + Mul8(si, Mul8(u[3], p[j]) + Mul8(u[4], q[j]))
       n == <<f(1), f(2), f(3)>>
       lost == Mul8(Mul8(R.K, Stop(e)), Quot(step, e))
   IN [e |-> e - lost, z |-> s[2] + Mul8(n[3], step), d |-> n, esc |-> IF n[3] = 0 THEN 0 ELSE IF Abs(s[2]) \div 16 >= Abs(n[3]) THEN 1900000000 ELSE Ratio8(Abs(s[2]) \div 20, Max2(Abs(n[3]) \div 20, 1))]
RECURSIVE Fly(_, _)
Fly(s, us) == LET v == TLCEval(Event(s, us[1])) IN
   IF v.z < 0 THEN <<v>> ELSE IF Len(us) = 1 THEN <<>> ELSE Fly(<<v.e, v.z, v.d>>, Tail(us))
(* classes of an electron that left: 1 all counted ones, then energy bins, depth bins, *)
(* directions (quadrant, inner or outer half of the square), energy by depth by side   *)
NCl == 1 + R.ne + R.nd + 8 + 8
Classes(v) == LET eb == (One8 - v.e) \div R.eb  db == v.esc \div R.db
                  x == IF v.d[1] < 0 THEN 0 ELSE 1  y == IF v.d[2] < 0 THEN 0 ELSE 1
                  out == IF One8 - Abs(v.d[3]) >= One8 \div 4 THEN 1 ELSE 0
                  hi(i, n) == IF 2 * i >= n THEN 1 ELSE 0 IN
   IF eb >= R.ne \/ db >= R.nd THEN {}
   ELSE {1, 2 + eb, 2 + R.ne + db, 2 + R.ne + R.nd + 4 * out + 2 * x + y,
         10 + R.ne + R.nd + 4 * hi(eb, R.ne) + 2 * hi(db, R.nd) + x}
Init == t = 1 /\ k = 0 /\ tally = <<>>
Electron == /\ t <= Len(All) /\ (IF R.op = "fly" THEN k < Len(R.uni) ELSE FALSE)
            /\ LET f == Fly(<<One8, 0, R.dir>>, R.uni[k + 1])
                   c == IF Len(f) = 0 THEN {} ELSE Classes(f[1])
                   old == IF k = 0 THEN [j \in 1..NCl |-> 0] ELSE tally IN
               tally' = TLCEval([j \in 1..NCl |-> old[j] + (IF j \in c THEN 1 ELSE 0)])
            /\ k' = k + 1 /\ t' = t
Over == t <= Len(All) /\ (IF R.op = "fly" THEN k = Len(R.uni) ELSE TRUE)
Turn == Over /\ t' = t + 1 /\ k' = 0 /\ tally' = <<>>
Next == Electron \/ Turn
Spec == Init /\ [][Next]_vars
(* expected counts to a hundredth, allowed deviation: 5 sigma, a few, and a hundredth    *)
ISq(n) == LET RECURSIVE B(_, _)
              B(lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN B(m, hi) ELSE B(lo, m) IN B(0, 46000)
Flown == LET n == Len(R.uni)
             want(j) == Ratio8(R.code[j], R.sims) \div 1000 IN  \* share in 1e5
   /\ Clause("classes recorded", Len(R.code) = NCl, R.id)
   /\ \A j \in 1..NCl :
        LET ex == (want(j) * (n \div 10)) \div 10000 IN
        Clause("as many electrons leave in every class of energy, depth and direction",
               Abs(tally[j] - ex) <= (5 * ISq(ex)) + 6 + (ex \div 50), [id |-> R.id, class |-> j, spec |-> tally[j], code |-> ex, n |-> n])
(* one event of electrons that start outwards: losses are exponential                      *)
Losses == LET l == Mul8(R.K, Stop(One8))
              x(i) == IF (i * (R.eb \div 100)) \div Max2(l \div 100, 1) >= 18 THEN 1900000000 ELSE Ratio8((i * R.eb) \div 20, l \div 20)
              n == R.sims IN
   \A i \in 1..R.ne :
      LET p == ExpNeg8(x(i - 1)) - ExpNeg8(x(i))
          ex == ((p \div 1000) * (n \div 100)) \div 1000 IN
      Clause("energy losses between events are exponential", Abs(R.code[i] - ex) <= (6 * ISq(ex)) + 10 + (n \div 20000) + (ex \div 300), [id |-> R.id, bin |-> i, want |-> ex, got |-> R.code[i]])
(* one event of electrons that start straight outwards: those whose cosine to the     *)
(* beam is above a bound follow the screened Rutherford law, and rings of the square   *)
(* are bands of the cosine                                                              *)
Angles == LET n == R.n
              \* share with 1 - cosine below y: y (1 + a) / (2 a + y), y in 1e8
              cum(i) == LET y == Ratio8(i * i, n * n) IN Ratio8(Mul8(One8 + R.a0, y) \div 40, (R.a0 \div 20) + (y \div 40))
              ex(i) == ((((cum(i) - cum(i - 1)) \div 2) \div 1000) * (R.sims \div 100)) \div 500 IN
   /\ \A i \in 1..n : Clause("scattering angles follow the screened Rutherford law", Abs(R.rings[i] - ex(i)) <= (5 * ISq(ex(i))) + 10 + (ex(i) \div 300) + (R.sims \div 50000), [id |-> R.id, ring |-> i, want |-> ex(i), got |-> R.rings[i]])
   /\ LET all == R.octants[1] + R.octants[2] + R.octants[3] + R.octants[4] + R.octants[5] + R.octants[6] + R.octants[7] + R.octants[8] IN
      \A j \in 1..8 : Clause("every azimuth is as likely", Abs(R.octants[j] - (all \div 8)) <= (5 * ISq(all \div 8)) + 5, [id |-> R.id, octants |-> R.octants])
(* electrons that keep their direction, at (A, B) / (2 n) on the square, n bins             *)
Straight == LET bin(a) == (a + 2 * R.n) \div 4 IN
   /\ Clause("the direction of the beam is as meant", Near(Cos8(R.sigma), Mul8(Ratio8(Abs(R.A), 2 * R.n), Ratio8(Abs(R.A), 2 * R.n)) - One8, 60) /\ Near(R.omega, Mul8(Ratio8(IF R.A < 0 THEN -R.B ELSE R.B, Abs(R.A)), 78539816) + (IF R.A < 0 THEN 314159265 ELSE 0), 60), R)
   /\ Clause("electrons are counted in the bin of their direction", R.at = IF R.swap THEN <<bin(R.B), bin(R.A)>> ELSE <<bin(R.A), bin(R.B)>>, R)
(* histograms with finer bins, or more of them, contain the others                          *)
Same == Clause(R.what, R.fine = R.coarse, R)
Judged == Over => (CASE R.op = "fly" -> Flown [] R.op = "losses" -> Losses [] R.op = "angles" -> Angles [] R.op = "straight" -> Straight [] OTHER -> Same)
=============================================================================
