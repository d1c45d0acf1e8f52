----------------------------- MODULE ImageTrace -----------------------------
(* Pixel operations: masks, Gaussian blur and downsampling, judged on recorded *)
(* images. Pixel values are small integers, results in 1e8.                    *)
EXTENDS Integers, Sequences, TLC, Vp, Fix8
CONSTANTS Samples
VARIABLES t
vars == <<t>>
All == Samples
R == All[t]
Add(f(_), m) == LET RECURSIVE S(_)
                    S(k) == IF k = 0 THEN 0 ELSE f(k) + S(k - 1) IN S(m)
(* ------------------------------ masks ---------------------------------------- *)
(* center and radius in sixteenths; radius 0: half the shorter side              *)
Inside(i, j) == LET r == IF R.r = 0 THEN 8 * Min2(R.h, R.w) ELSE R.r
                    a == 16 * i - R.c[1] * (R.h - 1)
                    b == 16 * j - R.c[2] * (R.w - 1) IN a * a + b * b < r * r
Mask == Clause("pixels inside the circle", Len(R.bits) = R.h /\ \A i \in 1..R.h : Len(R.bits[i]) = R.w /\ \A j \in 1..R.w : R.bits[i][j] = Inside(i - 1, j - 1), R)
(* ------------------------------- blur ------------------------------------------ *)
(* sigma in 300ths; the kernel reaches z sigma, rounded to whole pixels      *)
Radius(s, z) == (2 * z * s + 300) \div 600
Gauss(d, s) == IF 2500 * d * d >= s * s THEN 0 ELSE ExpNeg8(Ratio8(45000 * d * d, s * s))
Weights(s, z) == LET n == Radius(s, z)
                     g == TLCEval([k \in 1..(2 * n + 1) |-> Gauss(k - 1 - n, s)])
                     total == Add(LAMBDA k : g[k] \div 32, 2 * n + 1) IN
                 TLCEval([k \in 1..(2 * n + 1) |-> IF 2 * n + 1 = 1 THEN One8 ELSE Ratio8(g[k] \div 32, total)])
Fold(i, n) == IF i < 1 THEN 2 - i ELSE IF i > n THEN 2 * n - i ELSE i
Line(v, w, mirror) == LET n == Len(v)  r == (Len(w) - 1) \div 2 IN
   TLCEval([i \in 1..n |-> Add(LAMBDA k : LET j == i + k - 1 - r IN
              IF j >= 1 /\ j <= n THEN Mul8(w[k], v[j]) ELSE IF mirror THEN Mul8(w[k], v[Fold(j, n)]) ELSE 0, Len(w))])
Turned(m) == TLCEval([j \in 1..Len(m[1]) |-> TLCEval([i \in 1..Len(m) |-> m[i][j]])])
Both(m, op(_)) == LET a == TLCEval([i \in 1..Len(m) |-> op(m[i])])
                      b == Turned(a) IN Turned(TLCEval([j \in 1..Len(b) |-> op(b[j])]))
Image == TLCEval([i \in 1..Len(R.x) |-> TLCEval([j \in 1..Len(R.x[1]) |-> R.x[i][j] * One8])])
Blurred(m, s, z, mirror) == LET w == Weights(s, z) IN Both(m, LAMBDA v : Line(v, w, mirror))
(* ---------------------------- downsampling --------------------------------------- *)
Cube(x) == Mul8(Mul8(x, x), x)
Far(x) == -((3 * Mul8(x, Mul8(One8 - x, One8 - x))) \div 4)
Close(x) == One8 - (9 * Mul8(x, x)) \div 4 + (5 * Cube(x)) \div 4
(* position of sample d (0-based) of out samples in a line of n: num / den        *)
Num(d, out, n, corners) == IF corners THEN (IF out > 1 THEN d * (n - 1) ELSE 0) ELSE (2 * d + 1) * n - out
Den(out, corners) == IF corners THEN Max2(out - 1, 1) ELSE 2 * out
Pick(v, i) == v[Max2(1, Min2(Len(v), i + 1))]
Take(v, out, mode, corners) == TLCEval([e \in 1..out |->
   LET num == Num(e - 1, out, Len(v), corners)
       den == Den(out, corners) IN
   IF mode = "nearest" THEN Pick(v, ((e - 1) * Len(v)) \div out)
   ELSE LET m == IF mode = "bilinear" THEN Max2(num, 0) ELSE num
            i == m \div den
            x == Ratio8(m % den, den) IN
        IF mode = "bilinear" THEN Mul8(One8 - x, Pick(v, i)) + Mul8(x, Pick(v, i + 1))
        ELSE Mul8(Far(x), Pick(v, i - 1)) + Mul8(Close(x), Pick(v, i)) + Mul8(Close(One8 - x), Pick(v, i + 1)) + Mul8(Far(One8 - x), Pick(v, i + 2))])
Resized(m, h, w, mode, corners) == LET a == TLCEval([i \in 1..Len(m) |-> Take(m[i], w, mode, corners)])
                                       b == Turned(a) IN Turned(TLCEval([j \in 1..Len(b) |-> Take(b[j], h, mode, corners)]))
Equal(got, want, tol) == Len(got) = Len(want) /\ \A i \in 1..Len(want) : Len(got[i]) = Len(want[i]) /\ \A j \in 1..Len(want[i]) : Near(got[i][j], want[i][j], tol)
Blur == LET want == Blurred(Image, R.s, R.z, R.mirror) IN
        Clause("every pixel is the Gaussian mean of its surroundings", Equal(R.got, want, 3000), [id |-> R.id, got |-> R.got, want |-> want])
(* scale in hundredths; sigma is a third of it                                     *)
Down == LET h == (100 * Len(R.x)) \div R.scale
            w == (100 * Len(R.x[1])) \div R.scale
            want == Resized(Blurred(Image, R.s, 3, TRUE), h, w, R.mode, R.corners) IN
        Clause("the blurred image is sampled on the coarser grid", Equal(R.got, want, 12000), [id |-> R.id, got |-> R.got, want |-> want])
Init == t = 0
Next == t < Len(All) /\ t' = t + 1
Spec == Init /\ [][Next]_vars
Judged == t = 0 \/ (CASE R.op = "mask" -> Mask [] R.op = "blur" -> Blur [] OTHER -> Down)
=============================================================================
