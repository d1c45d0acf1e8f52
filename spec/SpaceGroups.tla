---------------------------- MODULE SpaceGroups ----------------------------
(* The 230 space groups in their 254 settings of the International Tables     *)
(* (monoclinic: axis b, cell 1; rhombohedral: hexagonal axes, obverse; the    *)
(* second entry where there are two origins), from Hall's symbols: a lattice, *)
(* an inversion at the origin or not, and generators with axis and            *)
(* translation. An operation is <<R, t>>: the rotation part by rows and the   *)
(* translation in 24ths of the cell edges.                                    *)
EXTENDS Integers, Sequences, FiniteSets
Id9 == <<1, 0, 0, 0, 1, 0, 0, 0, 1>>
Lattice(s) == CASE s = "P" -> {} [] s = "A" -> {<<0, 12, 12>>} [] s = "B" -> {<<12, 0, 12>>} [] s = "C" -> {<<12, 12, 0>>}
                [] s = "I" -> {<<12, 12, 12>>} [] s = "F" -> {<<0, 12, 12>>, <<12, 0, 12>>, <<12, 12, 0>>}
                [] s = "R" -> {<<16, 8, 8>>, <<8, 16, 16>>}
(* m: along a - b, p: along a + b, d: along a + b + c                          *)
Rotation(s) == CASE s = "1" -> Id9
   [] s = "2x" -> <<1, 0, 0, 0, -1, 0, 0, 0, -1>> [] s = "2y" -> <<-1, 0, 0, 0, 1, 0, 0, 0, -1>> [] s = "2z" -> <<-1, 0, 0, 0, -1, 0, 0, 0, 1>>
   [] s = "2m" -> <<0, -1, 0, -1, 0, 0, 0, 0, -1>> [] s = "2p" -> <<0, 1, 0, 1, 0, 0, 0, 0, -1>>
   [] s = "3z" -> <<0, -1, 0, 1, -1, 0, 0, 0, 1>> [] s = "3d" -> <<0, 0, 1, 1, 0, 0, 0, 1, 0>>
   [] s = "4z" -> <<0, -1, 0, 1, 0, 0, 0, 0, 1>> [] s = "6z" -> <<1, -1, 0, 1, 0, 0, 0, 0, 1>>
(* a, b, c: halves; n: all halves; u, v, w: quarters; d: all quarters; k/N: a  *)
(* screw along c                                                              *)
Shift(s) == CASE
  s = "" -> <<0, 0, 0>>
  [] s = "1/3" -> <<0, 0, 8>>
  [] s = "1/6" -> <<0, 0, 4>>
  [] s = "2/3" -> <<0, 0, 16>>
  [] s = "2/6" -> <<0, 0, 8>>
  [] s = "4/6" -> <<0, 0, 16>>
  [] s = "5/6" -> <<0, 0, 20>>
  [] s = "a" -> <<12, 0, 0>>
  [] s = "ab" -> <<12, 12, 0>>
  [] s = "abw" -> <<12, 12, 6>>
  [] s = "ac" -> <<12, 0, 12>>
  [] s = "acd" -> <<18, 6, 18>>
  [] s = "ad" -> <<18, 6, 6>>
  [] s = "aw" -> <<12, 0, 6>>
  [] s = "b" -> <<0, 12, 0>>
  [] s = "bc" -> <<0, 12, 12>>
  [] s = "bd" -> <<6, 18, 6>>
  [] s = "bw" -> <<0, 12, 6>>
  [] s = "c" -> <<0, 0, 12>>
  [] s = "cw" -> <<0, 0, 18>>
  [] s = "d" -> <<6, 6, 6>>
  [] s = "n" -> <<12, 12, 12>>
  [] s = "nw" -> <<12, 12, 18>>
  [] s = "ud" -> <<12, 6, 6>>
  [] s = "uv" -> <<6, 6, 0>>
  [] s = "vw" -> <<0, 6, 6>>
  [] s = "w" -> <<0, 0, 6>>
Mul(A, B) == LET R == A[1]  Q == B[1]  t == A[2]  u == B[2] IN
   << <<R[1]*Q[1] + R[2]*Q[4] + R[3]*Q[7], R[1]*Q[2] + R[2]*Q[5] + R[3]*Q[8], R[1]*Q[3] + R[2]*Q[6] + R[3]*Q[9],
        R[4]*Q[1] + R[5]*Q[4] + R[6]*Q[7], R[4]*Q[2] + R[5]*Q[5] + R[6]*Q[8], R[4]*Q[3] + R[5]*Q[6] + R[6]*Q[9],
        R[7]*Q[1] + R[8]*Q[4] + R[9]*Q[7], R[7]*Q[2] + R[8]*Q[5] + R[9]*Q[8], R[7]*Q[3] + R[8]*Q[6] + R[9]*Q[9]>>,
      <<(R[1]*u[1] + R[2]*u[2] + R[3]*u[3] + t[1]) % 24,
        (R[4]*u[1] + R[5]*u[2] + R[6]*u[3] + t[2]) % 24,
        (R[7]*u[1] + R[8]*u[2] + R[9]*u[3] + t[3]) % 24>> >>
One == <<Id9, <<0, 0, 0>> >>
NegR(r) == <<-r[1], -r[2], -r[3], -r[4], -r[5], -r[6], -r[7], -r[8], -r[9]>>
Gens(h) ==
   LET raw == {<<IF h[3][k][1] = 1 THEN Rotation(h[3][k][2]) ELSE NegR(Rotation(h[3][k][2])), Shift(h[3][k][3])>> : k \in 1..Len(h[3])}
              \cup {<<Id9, t>> : t \in Lattice(h[1])}
              \cup (IF h[2] THEN {<<NegR(Id9), <<0, 0, 0>> >>} ELSE {})
   IN IF h[4] = 0 THEN raw ELSE {Mul(Mul(<<Id9, <<0, 0, h[4]>> >>, g), <<Id9, <<0, 0, 24 - h[4]>> >>) : g \in raw}
RECURSIVE Close(_, _, _)
Close(G, S, F) == IF F = {} THEN S ELSE LET N == {Mul(g, x) : g \in G, x \in F} \ S IN Close(G, S \cup N, N)
Group(h) == Close(Gens(h), {One}, {One})
(* rotation parts, and what they are                                          *)
Parts(S) == {x[1] : x \in S}
Tr(r) == r[1] + r[5] + r[9]
Det(r) == r[1] * (r[5] * r[9] - r[6] * r[8]) - r[2] * (r[4] * r[9] - r[6] * r[7]) + r[3] * (r[4] * r[8] - r[5] * r[7])
Count(P, d, t) == Cardinality({r \in P : Det(r) = d /\ Tr(r) = t})
Translations(S) == {x[2] : x \in {y \in S : y[1] = Id9}}
(* the 32 classes by their numbers of 2, 3, 4 and 6-fold rotations and of      *)
(* inversions, mirrors, and 3, 4 and 6-fold rotoinversions                     *)
Types(P) == <<Count(P, 1, -1), Count(P, 1, 0), Count(P, 1, 1), Count(P, 1, 2), Count(P, -1, -3), Count(P, -1, 1), Count(P, -1, 0), Count(P, -1, -1), Count(P, -1, -2)>>
ClassTypes == <<
  <<0,0,0,0,0,0,0,0,0>>, <<0,0,0,0,1,0,0,0,0>>, <<1,0,0,0,0,0,0,0,0>>, <<0,0,0,0,0,1,0,0,0>>, <<1,0,0,0,1,1,0,0,0>>,
  <<3,0,0,0,0,0,0,0,0>>, <<1,0,0,0,0,2,0,0,0>>, <<3,0,0,0,1,3,0,0,0>>,
  <<1,0,2,0,0,0,0,0,0>>, <<1,0,0,0,0,0,0,2,0>>, <<1,0,2,0,1,1,0,2,0>>, <<5,0,2,0,0,0,0,0,0>>, <<1,0,2,0,0,4,0,0,0>>, <<3,0,0,0,0,2,0,2,0>>, <<5,0,2,0,1,5,0,2,0>>,
  <<0,2,0,0,0,0,0,0,0>>, <<0,2,0,0,1,0,2,0,0>>, <<3,2,0,0,0,0,0,0,0>>, <<0,2,0,0,0,3,0,0,0>>, <<3,2,0,0,1,3,2,0,0>>,
  <<1,2,0,2,0,0,0,0,0>>, <<0,2,0,0,0,1,0,0,2>>, <<1,2,0,2,1,1,2,0,2>>, <<7,2,0,2,0,0,0,0,0>>, <<1,2,0,2,0,6,0,0,0>>, <<3,2,0,0,0,4,0,0,2>>, <<7,2,0,2,1,7,2,0,2>>,
  <<3,8,0,0,0,0,0,0,0>>, <<3,8,0,0,1,3,8,0,0>>, <<9,8,6,0,0,0,0,0,0>>, <<3,8,0,0,0,6,0,6,0>>, <<9,8,6,0,1,9,8,6,0>> >>
Class(P) == CHOOSE k \in 1..32 : ClassTypes[k] = Types(P)
\* numbers of the 11 centrosymmetric classes, and the crystal system of each
Centric == <<2, 5, 8, 11, 15, 17, 20, 23, 27, 29, 32>>
System == <<1, 2, 3, 4, 4, 5, 5, 6, 6, 7, 7>>
Laue(P) == LET c == Class(P \cup {NegR(r) : r \in P}) IN CHOOSE l \in 1..11 : Centric[l] = c
(* sites: points in 240ths of the cell edges; their orbit within the cell      *)
Move(x, v) == <<(x[1][1] * v[1] + x[1][2] * v[2] + x[1][3] * v[3] + 10 * x[2][1]) % 240,
                (x[1][4] * v[1] + x[1][5] * v[2] + x[1][6] * v[3] + 10 * x[2][2]) % 240,
                (x[1][7] * v[1] + x[1][8] * v[2] + x[1][9] * v[3] + 10 * x[2][3]) % 240>>
Orbit(S, v) == {Move(x, v) : x \in S}
Stabilizer(S, v) == {x \in S : Move(x, v) = <<v[1] % 240, v[2] % 240, v[3] % 240>>}
(* a reflection is allowed by the centring when every lattice translation is   *)
(* a whole number of its waves                                                *)
Allowed(S, g) == \A t \in Translations(S) : (g[1] * t[1] + g[2] * t[2] + g[3] * t[3]) % 24 = 0
First == <<
  <<"P", FALSE, <<<<1, "1", "">>>>, 0>>,
  <<"P", TRUE, <<<<1, "1", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "2y", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "2y", "b">>>>, 0>>,
  <<"C", FALSE, <<<<1, "2y", "">>>>, 0>>,
  <<"P", FALSE, <<<<-1, "2y", "">>>>, 0>>,
  <<"P", FALSE, <<<<-1, "2y", "c">>>>, 0>>,
  <<"C", FALSE, <<<<-1, "2y", "">>>>, 0>>,
  <<"C", FALSE, <<<<-1, "2y", "c">>>>, 0>>,
  <<"P", TRUE, <<<<1, "2y", "">>>>, 0>>,
  <<"P", TRUE, <<<<1, "2y", "b">>>>, 0>>,
  <<"C", TRUE, <<<<1, "2y", "">>>>, 0>>,
  <<"P", TRUE, <<<<1, "2y", "c">>>>, 0>>,
  <<"P", TRUE, <<<<1, "2y", "bc">>>>, 0>>,
  <<"C", TRUE, <<<<1, "2y", "c">>>>, 0>>,
  <<"P", FALSE, <<<<1, "2z", "">>, <<1, "2x", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "2z", "c">>, <<1, "2x", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "2z", "">>, <<1, "2x", "ab">>>>, 0>>,
  <<"P", FALSE, <<<<1, "2z", "ac">>, <<1, "2x", "ab">>>>, 0>>,
  <<"C", FALSE, <<<<1, "2z", "c">>, <<1, "2x", "">>>>, 0>>,
  <<"C", FALSE, <<<<1, "2z", "">>, <<1, "2x", "">>>>, 0>>,
  <<"F", FALSE, <<<<1, "2z", "">>, <<1, "2x", "">>>>, 0>>,
  <<"I", FALSE, <<<<1, "2z", "">>, <<1, "2x", "">>>>, 0>>,
  <<"I", FALSE, <<<<1, "2z", "b">>, <<1, "2x", "c">>>>, 0>>,
  <<"P", FALSE, <<<<1, "2z", "">>, <<-1, "2x", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "2z", "c">>, <<-1, "2x", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "2z", "">>, <<-1, "2x", "c">>>>, 0>>,
  <<"P", FALSE, <<<<1, "2z", "">>, <<-1, "2x", "a">>>>, 0>>,
  <<"P", FALSE, <<<<1, "2z", "c">>, <<-1, "2x", "ac">>>>, 0>>,
  <<"P", FALSE, <<<<1, "2z", "">>, <<-1, "2x", "bc">>>>, 0>>,
  <<"P", FALSE, <<<<1, "2z", "ac">>, <<-1, "2x", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "2z", "">>, <<-1, "2x", "ab">>>>, 0>>,
  <<"P", FALSE, <<<<1, "2z", "c">>, <<-1, "2x", "n">>>>, 0>>,
  <<"P", FALSE, <<<<1, "2z", "">>, <<-1, "2x", "n">>>>, 0>>,
  <<"C", FALSE, <<<<1, "2z", "">>, <<-1, "2x", "">>>>, 0>>,
  <<"C", FALSE, <<<<1, "2z", "c">>, <<-1, "2x", "">>>>, 0>>,
  <<"C", FALSE, <<<<1, "2z", "">>, <<-1, "2x", "c">>>>, 0>>,
  <<"A", FALSE, <<<<1, "2z", "">>, <<-1, "2x", "">>>>, 0>>,
  <<"A", FALSE, <<<<1, "2z", "">>, <<-1, "2x", "b">>>>, 0>>,
  <<"A", FALSE, <<<<1, "2z", "">>, <<-1, "2x", "a">>>>, 0>>,
  <<"A", FALSE, <<<<1, "2z", "">>, <<-1, "2x", "ab">>>>, 0>>,
  <<"F", FALSE, <<<<1, "2z", "">>, <<-1, "2x", "">>>>, 0>>,
  <<"F", FALSE, <<<<1, "2z", "">>, <<-1, "2x", "d">>>>, 0>>,
  <<"I", FALSE, <<<<1, "2z", "">>, <<-1, "2x", "">>>>, 0>>,
  <<"I", FALSE, <<<<1, "2z", "">>, <<-1, "2x", "c">>>>, 0>>,
  <<"I", FALSE, <<<<1, "2z", "">>, <<-1, "2x", "a">>>>, 0>>,
  <<"P", TRUE, <<<<1, "2z", "">>, <<1, "2x", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "2z", "">>, <<1, "2x", "">>, <<-1, "1", "n">>>>, 0>>,
  <<"P", TRUE, <<<<1, "2z", "">>, <<1, "2x", "c">>>>, 0>>,
  <<"P", FALSE, <<<<1, "2z", "">>, <<1, "2x", "">>, <<-1, "1", "ab">>>>, 0>>,
  <<"P", TRUE, <<<<1, "2z", "a">>, <<1, "2x", "a">>>>, 0>>,
  <<"P", TRUE, <<<<1, "2z", "a">>, <<1, "2x", "bc">>>>, 0>>,
  <<"P", TRUE, <<<<1, "2z", "ac">>, <<1, "2x", "">>>>, 0>>,
  <<"P", TRUE, <<<<1, "2z", "a">>, <<1, "2x", "ac">>>>, 0>>,
  <<"P", TRUE, <<<<1, "2z", "">>, <<1, "2x", "ab">>>>, 0>>,
  <<"P", TRUE, <<<<1, "2z", "ab">>, <<1, "2x", "ac">>>>, 0>>,
  <<"P", TRUE, <<<<1, "2z", "c">>, <<1, "2x", "b">>>>, 0>>,
  <<"P", TRUE, <<<<1, "2z", "">>, <<1, "2x", "n">>>>, 0>>,
  <<"P", FALSE, <<<<1, "2z", "">>, <<1, "2x", "ab">>, <<-1, "1", "ab">>>>, 0>>,
  <<"P", TRUE, <<<<1, "2z", "n">>, <<1, "2x", "ab">>>>, 0>>,
  <<"P", TRUE, <<<<1, "2z", "ac">>, <<1, "2x", "ab">>>>, 0>>,
  <<"P", TRUE, <<<<1, "2z", "ac">>, <<1, "2x", "n">>>>, 0>>,
  <<"C", TRUE, <<<<1, "2z", "c">>, <<1, "2x", "">>>>, 0>>,
  <<"C", TRUE, <<<<1, "2z", "bc">>, <<1, "2x", "">>>>, 0>>,
  <<"C", TRUE, <<<<1, "2z", "">>, <<1, "2x", "">>>>, 0>>,
  <<"C", TRUE, <<<<1, "2z", "">>, <<1, "2x", "c">>>>, 0>>,
  <<"C", TRUE, <<<<1, "2z", "b">>, <<1, "2x", "">>>>, 0>>,
  <<"C", FALSE, <<<<1, "2z", "">>, <<1, "2x", "">>, <<-1, "1", "bc">>>>, 0>>,
  <<"F", TRUE, <<<<1, "2z", "">>, <<1, "2x", "">>>>, 0>>,
  <<"F", FALSE, <<<<1, "2z", "">>, <<1, "2x", "">>, <<-1, "1", "d">>>>, 0>>,
  <<"I", TRUE, <<<<1, "2z", "">>, <<1, "2x", "">>>>, 0>>,
  <<"I", TRUE, <<<<1, "2z", "">>, <<1, "2x", "c">>>>, 0>>,
  <<"I", TRUE, <<<<1, "2z", "b">>, <<1, "2x", "c">>>>, 0>>,
  <<"I", TRUE, <<<<1, "2z", "b">>, <<1, "2x", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "w">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "c">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "cw">>>>, 0>>,
  <<"I", FALSE, <<<<1, "4z", "">>>>, 0>>,
  <<"I", FALSE, <<<<1, "4z", "bw">>>>, 0>>,
  <<"P", FALSE, <<<<-1, "4z", "">>>>, 0>>,
  <<"I", FALSE, <<<<-1, "4z", "">>>>, 0>>,
  <<"P", TRUE, <<<<1, "4z", "">>>>, 0>>,
  <<"P", TRUE, <<<<1, "4z", "c">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "ab">>, <<-1, "1", "ab">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "n">>, <<-1, "1", "n">>>>, 0>>,
  <<"I", TRUE, <<<<1, "4z", "">>>>, 0>>,
  <<"I", FALSE, <<<<1, "4z", "bw">>, <<-1, "1", "bw">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "">>, <<1, "2x", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "ab">>, <<1, "2x", "ab">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "w">>, <<1, "2x", "c">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "abw">>, <<1, "2x", "nw">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "c">>, <<1, "2x", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "n">>, <<1, "2x", "n">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "cw">>, <<1, "2x", "c">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "nw">>, <<1, "2x", "abw">>>>, 0>>,
  <<"I", FALSE, <<<<1, "4z", "">>, <<1, "2x", "">>>>, 0>>,
  <<"I", FALSE, <<<<1, "4z", "bw">>, <<1, "2x", "bw">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "">>, <<-1, "2x", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "">>, <<-1, "2x", "ab">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "c">>, <<-1, "2x", "c">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "n">>, <<-1, "2x", "n">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "">>, <<-1, "2x", "c">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "">>, <<-1, "2x", "n">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "c">>, <<-1, "2x", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "c">>, <<-1, "2x", "ab">>>>, 0>>,
  <<"I", FALSE, <<<<1, "4z", "">>, <<-1, "2x", "">>>>, 0>>,
  <<"I", FALSE, <<<<1, "4z", "">>, <<-1, "2x", "c">>>>, 0>>,
  <<"I", FALSE, <<<<1, "4z", "bw">>, <<-1, "2x", "">>>>, 0>>,
  <<"I", FALSE, <<<<1, "4z", "bw">>, <<-1, "2x", "c">>>>, 0>>,
  <<"P", FALSE, <<<<-1, "4z", "">>, <<1, "2x", "">>>>, 0>>,
  <<"P", FALSE, <<<<-1, "4z", "">>, <<1, "2x", "c">>>>, 0>>,
  <<"P", FALSE, <<<<-1, "4z", "">>, <<1, "2x", "ab">>>>, 0>>,
  <<"P", FALSE, <<<<-1, "4z", "">>, <<1, "2x", "n">>>>, 0>>,
  <<"P", FALSE, <<<<-1, "4z", "">>, <<-1, "2x", "">>>>, 0>>,
  <<"P", FALSE, <<<<-1, "4z", "">>, <<-1, "2x", "c">>>>, 0>>,
  <<"P", FALSE, <<<<-1, "4z", "">>, <<-1, "2x", "ab">>>>, 0>>,
  <<"P", FALSE, <<<<-1, "4z", "">>, <<-1, "2x", "n">>>>, 0>>,
  <<"I", FALSE, <<<<-1, "4z", "">>, <<-1, "2x", "">>>>, 0>>,
  <<"I", FALSE, <<<<-1, "4z", "">>, <<-1, "2x", "c">>>>, 0>>,
  <<"I", FALSE, <<<<-1, "4z", "">>, <<1, "2x", "">>>>, 0>>,
  <<"I", FALSE, <<<<-1, "4z", "">>, <<1, "2x", "bw">>>>, 0>>,
  <<"P", TRUE, <<<<1, "4z", "">>, <<1, "2x", "">>>>, 0>>,
  <<"P", TRUE, <<<<1, "4z", "">>, <<1, "2x", "c">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "">>, <<1, "2x", "">>, <<-1, "1", "ab">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "">>, <<1, "2x", "">>, <<-1, "1", "n">>>>, 0>>,
  <<"P", TRUE, <<<<1, "4z", "">>, <<1, "2x", "ab">>>>, 0>>,
  <<"P", TRUE, <<<<1, "4z", "">>, <<1, "2x", "n">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "ab">>, <<1, "2x", "ab">>, <<-1, "1", "ab">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "ab">>, <<1, "2x", "n">>, <<-1, "1", "ab">>>>, 0>>,
  <<"P", TRUE, <<<<1, "4z", "c">>, <<1, "2x", "">>>>, 0>>,
  <<"P", TRUE, <<<<1, "4z", "c">>, <<1, "2x", "c">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "n">>, <<1, "2x", "c">>, <<-1, "1", "n">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "n">>, <<1, "2x", "">>, <<-1, "1", "n">>>>, 0>>,
  <<"P", TRUE, <<<<1, "4z", "c">>, <<1, "2x", "ab">>>>, 0>>,
  <<"P", TRUE, <<<<1, "4z", "n">>, <<1, "2x", "n">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "n">>, <<1, "2x", "n">>, <<-1, "1", "n">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "n">>, <<1, "2x", "ab">>, <<-1, "1", "n">>>>, 0>>,
  <<"I", TRUE, <<<<1, "4z", "">>, <<1, "2x", "">>>>, 0>>,
  <<"I", TRUE, <<<<1, "4z", "">>, <<1, "2x", "c">>>>, 0>>,
  <<"I", FALSE, <<<<1, "4z", "bw">>, <<1, "2x", "bw">>, <<-1, "1", "bw">>>>, 0>>,
  <<"I", FALSE, <<<<1, "4z", "bw">>, <<1, "2x", "aw">>, <<-1, "1", "bw">>>>, 0>>,
  <<"P", FALSE, <<<<1, "3z", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "3z", "1/3">>>>, 0>>,
  <<"P", FALSE, <<<<1, "3z", "2/3">>>>, 0>>,
  <<"R", FALSE, <<<<1, "3z", "">>>>, 0>>,
  <<"P", TRUE, <<<<1, "3z", "">>>>, 0>>,
  <<"R", TRUE, <<<<1, "3z", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "3z", "">>, <<1, "2m", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "3z", "">>, <<1, "2p", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "3z", "1/3">>, <<1, "2m", "">>>>, 8>>,
  <<"P", FALSE, <<<<1, "3z", "1/3">>, <<1, "2p", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "3z", "2/3">>, <<1, "2m", "">>>>, 4>>,
  <<"P", FALSE, <<<<1, "3z", "2/3">>, <<1, "2p", "">>>>, 0>>,
  <<"R", FALSE, <<<<1, "3z", "">>, <<1, "2p", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "3z", "">>, <<-1, "2p", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "3z", "">>, <<-1, "2m", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "3z", "">>, <<-1, "2p", "c">>>>, 0>>,
  <<"P", FALSE, <<<<1, "3z", "">>, <<-1, "2m", "c">>>>, 0>>,
  <<"R", FALSE, <<<<1, "3z", "">>, <<-1, "2p", "">>>>, 0>>,
  <<"R", FALSE, <<<<1, "3z", "">>, <<-1, "2p", "c">>>>, 0>>,
  <<"P", TRUE, <<<<1, "3z", "">>, <<1, "2m", "">>>>, 0>>,
  <<"P", TRUE, <<<<1, "3z", "">>, <<1, "2m", "c">>>>, 0>>,
  <<"P", TRUE, <<<<1, "3z", "">>, <<1, "2p", "">>>>, 0>>,
  <<"P", TRUE, <<<<1, "3z", "">>, <<1, "2p", "c">>>>, 0>>,
  <<"R", TRUE, <<<<1, "3z", "">>, <<1, "2p", "">>>>, 0>>,
  <<"R", TRUE, <<<<1, "3z", "">>, <<1, "2p", "c">>>>, 0>>,
  <<"P", FALSE, <<<<1, "6z", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "6z", "1/6">>>>, 0>>,
  <<"P", FALSE, <<<<1, "6z", "5/6">>>>, 0>>,
  <<"P", FALSE, <<<<1, "6z", "2/6">>>>, 0>>,
  <<"P", FALSE, <<<<1, "6z", "4/6">>>>, 0>>,
  <<"P", FALSE, <<<<1, "6z", "c">>>>, 0>>,
  <<"P", FALSE, <<<<-1, "6z", "">>>>, 0>>,
  <<"P", TRUE, <<<<1, "6z", "">>>>, 0>>,
  <<"P", TRUE, <<<<1, "6z", "c">>>>, 0>>,
  <<"P", FALSE, <<<<1, "6z", "">>, <<1, "2m", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "6z", "1/6">>, <<1, "2m", "">>>>, 10>>,
  <<"P", FALSE, <<<<1, "6z", "5/6">>, <<1, "2m", "">>>>, 2>>,
  <<"P", FALSE, <<<<1, "6z", "2/6">>, <<1, "2m", "">>>>, 8>>,
  <<"P", FALSE, <<<<1, "6z", "4/6">>, <<1, "2m", "">>>>, 4>>,
  <<"P", FALSE, <<<<1, "6z", "c">>, <<1, "2m", "c">>>>, 0>>,
  <<"P", FALSE, <<<<1, "6z", "">>, <<-1, "2m", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "6z", "">>, <<-1, "2m", "c">>>>, 0>>,
  <<"P", FALSE, <<<<1, "6z", "c">>, <<-1, "2m", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "6z", "c">>, <<-1, "2m", "c">>>>, 0>>,
  <<"P", FALSE, <<<<-1, "6z", "">>, <<1, "2m", "">>>>, 0>>,
  <<"P", FALSE, <<<<-1, "6z", "c">>, <<1, "2m", "">>>>, 0>>,
  <<"P", FALSE, <<<<-1, "6z", "">>, <<-1, "2m", "">>>>, 0>>,
  <<"P", FALSE, <<<<-1, "6z", "c">>, <<-1, "2m", "c">>>>, 0>>,
  <<"P", TRUE, <<<<1, "6z", "">>, <<1, "2m", "">>>>, 0>>,
  <<"P", TRUE, <<<<1, "6z", "">>, <<1, "2m", "c">>>>, 0>>,
  <<"P", TRUE, <<<<1, "6z", "c">>, <<1, "2m", "">>>>, 0>>,
  <<"P", TRUE, <<<<1, "6z", "c">>, <<1, "2m", "c">>>>, 0>>,
  <<"P", FALSE, <<<<1, "2z", "">>, <<1, "2x", "">>, <<1, "3d", "">>>>, 0>>,
  <<"F", FALSE, <<<<1, "2z", "">>, <<1, "2x", "">>, <<1, "3d", "">>>>, 0>>,
  <<"I", FALSE, <<<<1, "2z", "">>, <<1, "2x", "">>, <<1, "3d", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "2z", "ac">>, <<1, "2x", "ab">>, <<1, "3d", "">>>>, 0>>,
  <<"I", FALSE, <<<<1, "2z", "b">>, <<1, "2x", "c">>, <<1, "3d", "">>>>, 0>>,
  <<"P", TRUE, <<<<1, "2z", "">>, <<1, "2x", "">>, <<1, "3d", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "2z", "">>, <<1, "2x", "">>, <<1, "3d", "">>, <<-1, "1", "n">>>>, 0>>,
  <<"F", TRUE, <<<<1, "2z", "">>, <<1, "2x", "">>, <<1, "3d", "">>>>, 0>>,
  <<"F", FALSE, <<<<1, "2z", "">>, <<1, "2x", "">>, <<1, "3d", "">>, <<-1, "1", "d">>>>, 0>>,
  <<"I", TRUE, <<<<1, "2z", "">>, <<1, "2x", "">>, <<1, "3d", "">>>>, 0>>,
  <<"P", TRUE, <<<<1, "2z", "ac">>, <<1, "2x", "ab">>, <<1, "3d", "">>>>, 0>>,
  <<"I", TRUE, <<<<1, "2z", "b">>, <<1, "2x", "c">>, <<1, "3d", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "">>, <<1, "2x", "">>, <<1, "3d", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "n">>, <<1, "2x", "">>, <<1, "3d", "">>>>, 0>>,
  <<"F", FALSE, <<<<1, "4z", "">>, <<1, "2x", "">>, <<1, "3d", "">>>>, 0>>,
  <<"F", FALSE, <<<<1, "4z", "d">>, <<1, "2x", "">>, <<1, "3d", "">>>>, 0>>,
  <<"I", FALSE, <<<<1, "4z", "">>, <<1, "2x", "">>, <<1, "3d", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "acd">>, <<1, "2x", "ab">>, <<1, "3d", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "bd">>, <<1, "2x", "ab">>, <<1, "3d", "">>>>, 0>>,
  <<"I", FALSE, <<<<1, "4z", "bd">>, <<1, "2x", "c">>, <<1, "3d", "">>>>, 0>>,
  <<"P", FALSE, <<<<-1, "4z", "">>, <<1, "2x", "">>, <<1, "3d", "">>>>, 0>>,
  <<"F", FALSE, <<<<-1, "4z", "">>, <<1, "2x", "">>, <<1, "3d", "">>>>, 0>>,
  <<"I", FALSE, <<<<-1, "4z", "">>, <<1, "2x", "">>, <<1, "3d", "">>>>, 0>>,
  <<"P", FALSE, <<<<-1, "4z", "n">>, <<1, "2x", "">>, <<1, "3d", "">>>>, 0>>,
  <<"F", FALSE, <<<<-1, "4z", "a">>, <<1, "2x", "">>, <<1, "3d", "">>>>, 0>>,
  <<"I", FALSE, <<<<-1, "4z", "bd">>, <<1, "2x", "c">>, <<1, "3d", "">>>>, 0>>,
  <<"P", TRUE, <<<<1, "4z", "">>, <<1, "2x", "">>, <<1, "3d", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "">>, <<1, "2x", "">>, <<1, "3d", "">>, <<-1, "1", "n">>>>, 0>>,
  <<"P", TRUE, <<<<1, "4z", "n">>, <<1, "2x", "">>, <<1, "3d", "">>>>, 0>>,
  <<"P", FALSE, <<<<1, "4z", "n">>, <<1, "2x", "">>, <<1, "3d", "">>, <<-1, "1", "n">>>>, 0>>,
  <<"F", TRUE, <<<<1, "4z", "">>, <<1, "2x", "">>, <<1, "3d", "">>>>, 0>>,
  <<"F", TRUE, <<<<1, "4z", "a">>, <<1, "2x", "">>, <<1, "3d", "">>>>, 0>>,
  <<"F", FALSE, <<<<1, "4z", "d">>, <<1, "2x", "">>, <<1, "3d", "">>, <<-1, "1", "d">>>>, 0>>,
  <<"F", FALSE, <<<<1, "4z", "d">>, <<1, "2x", "">>, <<1, "3d", "">>, <<-1, "1", "ad">>>>, 0>>,
  <<"I", TRUE, <<<<1, "4z", "">>, <<1, "2x", "">>, <<1, "3d", "">>>>, 0>>,
  <<"I", TRUE, <<<<1, "4z", "bd">>, <<1, "2x", "c">>, <<1, "3d", "">>>>, 0>>>>
Second == <<
  <<48, <<"P", TRUE, <<<<1, "2z", "ab">>, <<1, "2x", "bc">>>>, 0>>>>,
  <<50, <<"P", TRUE, <<<<1, "2z", "ab">>, <<1, "2x", "b">>>>, 0>>>>,
  <<59, <<"P", TRUE, <<<<1, "2z", "ab">>, <<1, "2x", "a">>>>, 0>>>>,
  <<68, <<"C", TRUE, <<<<1, "2z", "b">>, <<1, "2x", "bc">>>>, 0>>>>,
  <<70, <<"F", TRUE, <<<<1, "2z", "uv">>, <<1, "2x", "vw">>>>, 0>>>>,
  <<85, <<"P", TRUE, <<<<1, "4z", "a">>>>, 0>>>>,
  <<86, <<"P", TRUE, <<<<1, "4z", "bc">>>>, 0>>>>,
  <<88, <<"I", TRUE, <<<<1, "4z", "ad">>>>, 0>>>>,
  <<125, <<"P", TRUE, <<<<1, "4z", "a">>, <<1, "2x", "b">>>>, 0>>>>,
  <<126, <<"P", TRUE, <<<<1, "4z", "a">>, <<1, "2x", "bc">>>>, 0>>>>,
  <<129, <<"P", TRUE, <<<<1, "4z", "a">>, <<1, "2x", "a">>>>, 0>>>>,
  <<130, <<"P", TRUE, <<<<1, "4z", "a">>, <<1, "2x", "ac">>>>, 0>>>>,
  <<133, <<"P", TRUE, <<<<1, "4z", "ac">>, <<1, "2x", "b">>>>, 0>>>>,
  <<134, <<"P", TRUE, <<<<1, "4z", "ac">>, <<1, "2x", "bc">>>>, 0>>>>,
  <<137, <<"P", TRUE, <<<<1, "4z", "ac">>, <<1, "2x", "a">>>>, 0>>>>,
  <<138, <<"P", TRUE, <<<<1, "4z", "ac">>, <<1, "2x", "ac">>>>, 0>>>>,
  <<141, <<"I", TRUE, <<<<1, "4z", "bd">>, <<1, "2x", "">>>>, 0>>>>,
  <<142, <<"I", TRUE, <<<<1, "4z", "bd">>, <<1, "2x", "c">>>>, 0>>>>,
  <<201, <<"P", TRUE, <<<<1, "2z", "ab">>, <<1, "2x", "bc">>, <<1, "3d", "">>>>, 0>>>>,
  <<203, <<"F", TRUE, <<<<1, "2z", "uv">>, <<1, "2x", "vw">>, <<1, "3d", "">>>>, 0>>>>,
  <<222, <<"P", TRUE, <<<<1, "4z", "a">>, <<1, "2x", "bc">>, <<1, "3d", "">>>>, 0>>>>,
  <<224, <<"P", TRUE, <<<<1, "4z", "bc">>, <<1, "2x", "bc">>, <<1, "3d", "">>>>, 0>>>>,
  <<227, <<"F", TRUE, <<<<1, "4z", "vw">>, <<1, "2x", "vw">>, <<1, "3d", "">>>>, 0>>>>,
  <<228, <<"F", TRUE, <<<<1, "4z", "ud">>, <<1, "2x", "vw">>, <<1, "3d", "">>>>, 0>>>> >>
HasSecond(n) == \E k \in 1..Len(Second) : Second[k][1] = n
Hall(n, s) == IF s = 1 THEN First[n] ELSE Second[CHOOSE k \in 1..Len(Second) : Second[k][1] = n][2]
=============================================================================
