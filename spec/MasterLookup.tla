---------------------------- MODULE MasterLookup ----------------------------
(* A master pattern: two hemispheres of n x n pixels side by side, modified   *)
(* (normalised, contrast enhanced) and looked up, with or without virtual     *)
(* binning, in any order. A lookup always sees the pattern as it is now: the  *)
(* binned copy kept between lookups is never one of an earlier pattern or of  *)
(* another binning factor.                                                    *)
(*                                                                           *)
(* Lookup values are exact: at quarter-pixel positions the value is a sum of  *)
(* the four pixels around with weights in sixteenths.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Vp
CONSTANTS Size,      \* pixels per side of a hemisphere
          Factors,   \* binning factors looked up (1: none)
          MaxOps, NQuery, MaxPix,
          Kinds      \* modifications allowed

VARIABLES version,   \* number of modifications so far
          cache,     \* <<version, factor>> of the binned copy kept, or <<>>
          pix,       \* the original pixels: pix[row][col], 2*Size columns
          hist
vars == <<version, cache, pix, hist>>

(* bilinear value (sixteenths) at quarter positions (u rows, v columns) of a  *)
(* binned image; positions are in quarters of a binned pixel from the centre  *)
(* of the first one                                                           *)
BlockSum(b, r, c) == SumSeq([k \in 1..(b * b) |->
     pix[(r - 1) * b + 1 + ((k - 1) \div b)][(c - 1) * b + 1 + ((k - 1) % b)]])
Bilinear(b, hemi, u, v) ==
  LET nb == Size \div b
      in(x) == Max2(0, Min2(x, 4 * (nb - 1)))   \* beyond the outermost centres: as there
      r0 == (in(u) \div 4) + 1   fu == in(u) % 4
      c0 == (in(v) \div 4) + 1   fv == in(v) % 4
      r1 == Min2(r0 + 1, nb) c1 == Min2(c0 + 1, nb)
      at(r, c) == BlockSum(b, r, c + hemi * nb)
  IN (4 - fu) * (4 - fv) * at(r0, c0) + (4 - fu) * fv * at(r0, c1)
     + fu * (4 - fv) * at(r1, c0) + fu * fv * at(r1, c1)

Init == /\ version = 0 /\ cache = <<>> /\ hist = <<>>
        /\ pix = [r \in 1..Size |-> [c \in 1..(2 * Size) |-> RandomElement(0..MaxPix)]]

Modify(k) == /\ Len(hist) < MaxOps
             /\ version' = version + 1 /\ cache' = <<>>
             /\ hist' = Append(hist, [op |-> "modify", kind |-> k])
             /\ UNCHANGED pix

Lookup(b) ==
  /\ Len(hist) < MaxOps
  /\ cache' = IF b = 1 \/ cache = <<version, b>> THEN cache ELSE <<version, b>>
  /\ LET nb == Size \div b
         \* up to the equator, which is north; the side where the hemispheres
         \* meet in the picture is left out
         north == [k \in 1..NQuery |-> RandomElement({TRUE, FALSE})]
         qs == [k \in 1..NQuery |-> IF k < 3   \* the poles themselves
                  THEN [hemi |-> k - 1, u |-> 2 * (nb - 1), v |-> 2 * (nb - 1)]
                  ELSE IF north[k]
                  THEN [hemi |-> 0, u |-> RandomElement((-2)..(4 * nb - 2)), v |-> RandomElement((-2)..(4 * (nb - 1)))]
                  ELSE [hemi |-> 1, u |-> RandomElement((-1)..(4 * nb - 3)), v |-> RandomElement(0..(4 * nb - 3))]]
     IN \E q \in {qs} :
          hist' = Append(hist, [op |-> "lookup", bin |-> b, version |-> version,
              used |-> IF b = 1 THEN <<version, 1>> ELSE cache', q |-> q,
              val |-> [k \in 1..NQuery |-> Bilinear(b, q[k].hemi, q[k].u, q[k].v)]])
  /\ UNCHANGED <<version, pix>>

Next == (\E k \in Kinds : Modify(k)) \/ (\E b \in Factors : Lookup(b))
Spec == Init /\ [][Next]_vars

(* every lookup used the pattern of its time at its own factor *)
LookupsAreCurrent == \A i \in 1..Len(hist) :
    hist[i].op = "lookup" => hist[i].used = <<hist[i].version, hist[i].bin>>
EmitDone == (Len(hist) = MaxOps) => Emit([n |-> Size, pix |-> pix, hist |-> hist])
=============================================================================
