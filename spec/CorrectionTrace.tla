-------------------------- MODULE CorrectionTrace --------------------------
(* Corrections of the patterns of a scan, applied one after another. Steps is *)
(* a recorded history: what the patterns were before and after every          *)
(* correction (fixed point, Scale units per 1.0). The machine walks it and    *)
(* judges every step; the state it carries from step to step is the scan.     *)
EXTENDS Integers, Sequences, TLC, Vp
CONSTANTS Steps, Scale
(* step: [op, n, h, w, before[i][p], after[i][p], ref[i][p], list, bin, got[j][p]] *)
VARIABLES i, scan
vars == <<i, scan>>
All == Steps
S == All[i]
P == S.h * S.w
Sum(s) == SumSeq(s)
Rec == [step |-> i, op |-> S.op, id |-> S.id]
Bad(q) == [step |-> i, op |-> S.op, id |-> S.id, pattern |-> q]
Same(a, b, tol) == Len(a) = Len(b) /\ \A p \in 1..Len(a) : Near(a[p], b[p], tol)

Frame == /\ Clause("the number of patterns and of pixels is kept",
              Len(S.after) = S.n /\ \A q \in 1..S.n : Len(S.after[q]) = P, Rec)
         /\ S.cont => Clause("nothing changes the patterns between two corrections",
                         \A q \in 1..S.n : S.before[q] = scan[q], Rec)

Background == \A p \in 1..P :
   LET tot == Sum([q \in 1..S.n |-> S.before[q][p]]) IN
   \A q \in 1..S.n : Clause("background subtraction removes the mean of each pixel over the scan",
       Near(S.n * S.after[q][p], S.n * S.before[q][p] - tot, 2 * S.n + 2), Bad(q))

ZeroMean == \A q \in 1..S.n : LET tot == Sum(S.before[q]) IN \A p \in 1..P :
   Clause("each pattern's own mean is removed",
       Near(P * S.after[q][p], P * S.before[q][p] - tot, 2 * P + 2), Bad(q))

(* after * (range + 0.0001) = before - min *)
MinMax == \A q \in 1..S.n :
   LET lo == MinSeq(S.before[q])  hi == MaxSeq(S.before[q])
       inside == \A p \in 1..P : S.after[q][p] >= -2 /\ S.after[q][p] <= Scale + 2
   IN /\ Clause("rescaled patterns lie in 0..1", inside, Bad(q))
      /\ inside => \A p \in 1..P :
          Clause("each pattern is scaled from its own range to 0..1",
            Near(S.after[q][p] * (hi - lo + Scale \div 10000), (S.before[q][p] - lo) * Scale,
                 3 * (hi - lo) + 3 * Scale), Bad(q))

(* unit variance (sample variance) and zero mean, affine in the input *)
Standard == \A q \in 1..S.n :
   LET a == S.after[q]  b == S.before[q]
       least == MinSeq(b)  most == MaxSeq(b)
       lo == CHOOSE p \in 1..P : b[p] = least
       hi == CHOOSE p \in 1..P : b[p] = most
       c == [p \in 1..P |-> a[p] \div (Scale \div 100)]
       inside == \A p \in 1..P : Abs(a[p]) <= 9 * Scale
   IN
   /\ Clause("standardised patterns are bounded", inside, Bad(q))
   /\ inside =>
     /\ Clause("standardised patterns have zero mean", Near(Sum(a), 0, 2 * P + 2), Bad(q))
     /\ Clause("standardised patterns have unit variance",
          Near(Sum([p \in 1..P |-> c[p] * c[p]]), (P - 1) * 10000, 400 * P), Bad(q))
     /\ \A p \in 1..P : Clause("standardising keeps the shape of the pattern",
          Near(((a[p] - a[lo]) \div 20) * (b[hi] - b[lo]), ((a[hi] - a[lo]) \div 20) * (b[p] - b[lo]),
               3 * (b[hi] - b[lo]) + (a[hi] - a[lo]) + 20), Bad(q))

Reference(what) == \A q \in 1..S.n : Clause(what, Same(S.after[q], S.ref[q], 3), Bad(q))

(* reading patterns: block means of the listed patterns *)
At(q, y, x) == S.before[q][(y - 1) * S.w + x]
Read == LET b == S.bin  hb == S.h \div b  wb == S.w \div b IN
   /\ Clause("reading returns one pattern per index", Len(S.got) = Len(S.list), Rec)
   /\ \A j \in 1..Len(S.got) : \A y \in 1..hb : \A x \in 1..wb :
      Clause("reading returns the block means of the listed patterns",
        Near(b * b * S.got[j][(y - 1) * wb + x],
             Sum([k \in 1..(b * b) |-> At(S.list[j], (y - 1) * b + 1 + (k - 1) \div b, (x - 1) * b + 1 + ((k - 1) % b))]),
             2 * b * b), Bad(S.list[j]))
   /\ Clause("reading changes nothing", \A q \in 1..S.n : S.after[q] = S.before[q], Rec)

Judge == Frame /\ CASE S.op = "background" -> Background
                 [] S.op = "zeromean" -> ZeroMean
                 [] S.op = "minmax" -> MinMax
                 [] S.op = "standard" -> Standard
                 [] S.op = "clahe" -> Reference("contrast enhancement treats every pattern on its own")
                 [] S.op = "nlpar" -> Reference("averaging uses the scan's own layout")
                 [] S.op = "clean" -> Reference("cleaning is background, range, contrast, range")
                 [] S.op = "read" -> Read

Init == i = 1 /\ scan = <<>>
Next == i <= Len(All) /\ Judge /\ scan' = S.after /\ i' = i + 1
Spec == Init /\ [][Next]_vars
============================================================================
