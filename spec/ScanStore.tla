----------------------------- MODULE ScanStore -----------------------------
(* The per-pattern attributes of a scan: orientations, scan coordinates and  *)
(* inverse deformation gradients, written as a whole or for a subset of the   *)
(* patterns and read back for any list of patterns.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Vp
CONSTANTS N, MaxOps, MaxList
VARIABLES ori, pos, def, clock, hist
vars == <<ori, pos, def, clock, hist>>
Unset == <<>>
Ident == 0   \* tag of the identity deformation

(* lists of patterns without repetition (for writes), in any order *)
RECURSIVE Lists(_, _)
Lists(S, n) == IF n = 0 THEN {<<>>} ELSE
    {<<>>} \cup {<<x>> \o t : x \in S, t \in Lists(S, n - 1)}
Injective(l) == \A i, j \in 1..Len(l) : i # j => l[i] # l[j]
RandList(inj) == LET n == RandomElement(1..MaxList)
                     l == [i \in 1..n |-> RandomElement(1..N)]
                 IN IF inj THEN SelectSeq(l, LAMBDA x : TRUE) ELSE l

Init == ori = Unset /\ pos = Unset /\ def = Unset /\ clock = 0 /\ hist = <<>>
Go == Len(hist) < MaxOps
Log(e) == hist' = Append(hist, e)
Tags(n) == [i \in 1..n |-> clock + i]

WriteAll(which) ==
  /\ Go /\ clock' = clock + N
  /\ Log([op |-> "write", attr |-> which, list |-> <<>>, tags |-> Tags(N), result |-> "ok"])
  /\ ori' = IF which = "ori" THEN Tags(N) ELSE ori
  /\ pos' = IF which = "pos" THEN Tags(N) ELSE pos
  /\ def' = IF which = "def" THEN Tags(N) ELSE def

Put(cur, l, t) == [i \in 1..N |-> IF \E j \in 1..Len(l) : l[j] = i
                                  THEN t[CHOOSE j \in 1..Len(l) : l[j] = i] ELSE cur[i]]
WriteSome(which, l) ==
  /\ Go /\ Injective(l)
  /\ (which = "ori" => ori # Unset) /\ (which = "pos" => pos # Unset)
  /\ clock' = clock + Len(l)
  /\ Log([op |-> "write", attr |-> which, list |-> l, tags |-> Tags(Len(l)), result |-> "ok"])
  /\ ori' = IF which = "ori" THEN Put(ori, l, Tags(Len(l))) ELSE ori
  /\ pos' = IF which = "pos" THEN Put(pos, l, Tags(Len(l))) ELSE pos
  /\ UNCHANGED def

(* one deformation for all patterns; no argument: the identity *)
WriteOneDef(shape) ==
  /\ Go /\ clock' = clock + 1
  /\ def' = [i \in 1..N |-> clock + 1]
  /\ Log([op |-> "onedef", shape |-> shape, tags |-> <<clock + 1>>])
  /\ UNCHANGED <<ori, pos>>
ResetDef ==
  /\ Go /\ def' = [i \in 1..N |-> Ident]
  /\ Log([op |-> "resetdef"]) /\ UNCHANGED <<ori, pos, clock>>

(* writes of the wrong length are refused and change nothing *)
WriteBad(which, n) ==
  /\ Go /\ n # N /\ n > 1
  /\ Log([op |-> "bad", attr |-> which, n |-> n])
  /\ UNCHANGED <<ori, pos, def, clock>>
WriteBadList(which, n, m) ==
  /\ Go /\ n # m /\ (which = "ori" => ori # Unset) /\ (which = "pos" => pos # Unset)
  /\ Log([op |-> "badlist", attr |-> which, n |-> n, m |-> m])
  /\ UNCHANGED <<ori, pos, def, clock>>

Cur(which) == CASE which = "ori" -> ori [] which = "pos" -> pos [] which = "def" -> def
Read(which, l) ==
  /\ Go /\ ~(which = "ori" /\ ori = Unset)
  /\ Log([op |-> "read", attr |-> which, list |-> l,
          tags |-> IF Cur(which) = Unset THEN <<>>
                   ELSE IF l = <<>> THEN Cur(which) ELSE [i \in 1..Len(l) |-> Cur(which)[l[i]]],
          result |-> IF Cur(which) = Unset THEN "refused" ELSE "ok"])
  /\ UNCHANGED <<ori, pos, def, clock>>

Next == \/ \E w \in {"ori", "pos", "def"} : WriteAll(w)
        \/ \E w \in {"ori", "pos"} : \E l \in {RandList(TRUE)} : WriteSome(w, l)
        \/ \E s \in {"m", "v"} : WriteOneDef(s)
        \/ ResetDef
        \/ \E w \in {"ori", "pos", "def"} : \E n \in {RandomElement(2..N + 2)} : WriteBad(w, n)
        \/ \E w \in {"ori", "pos"} : \E n \in {RandomElement(1..3)}, m \in {RandomElement(1..3)} : WriteBadList(w, n, m)
        \/ \E w \in {"ori", "pos", "def"} : \E l \in {RandList(FALSE), <<>>} : Read(w, l)
Spec == Init /\ [][Next]_vars

(* a read returns, for each listed pattern, the last value written for it *)
LastWrite(which, upto, i) ==
  LET W == {k \in 1..upto :
       \/ hist[k].op = "write" /\ hist[k].attr = which
          /\ (hist[k].list = <<>> \/ \E j \in 1..Len(hist[k].list) : hist[k].list[j] = i)
       \/ which = "def" /\ hist[k].op \in {"onedef", "resetdef"}}
      k == CHOOSE x \in W : \A y \in W : y <= x
  IN IF hist[k].op = "resetdef" THEN Ident
     ELSE IF hist[k].op = "onedef" THEN hist[k].tags[1]
     ELSE IF hist[k].list = <<>> THEN hist[k].tags[i]
     ELSE hist[k].tags[CHOOSE j \in 1..Len(hist[k].list) : hist[k].list[j] = i]
ReadsLastWrite ==
  Len(hist) > 0 =>
  LET e == hist[Len(hist)] IN
   (e.op = "read" /\ e.result = "ok") =>
      \A j \in 1..Len(e.tags) : e.tags[j] = LastWrite(e.attr, Len(hist) - 1, IF e.list = <<>> THEN j ELSE e.list[j])

EmitDone == Len(hist) = MaxOps => Emit([n |-> N, hist |-> hist])
============================================================================
