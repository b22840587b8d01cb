--------------------------- MODULE TraceSymmetry ----------------------------
(***************************************************************************)
(* Permutational symmetry of recorded tensors.                             *)
(*                                                                         *)
(* A tensor is a partial function from index tuples to fixed-point values  *)
(* (the union of the blocks cut from it).  A symmetry is generated by      *)
(* signed permutations of the tuple positions.  Tuples fall into orbits;   *)
(* an orbit that contains a tuple with both signs must vanish, within any  *)
(* other the values agree up to sign and nothing more is forced: values    *)
(* of different orbits are generic, that is nonzero and different.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, done
vars == <<ci, done>>
Case == Cases[ci]

Abs(x) == IF x < 0 THEN -x ELSE x
Image(g, t) == [k \in 1..Len(t) |-> t[g.p[k]]]

\* The signed orbit of a tuple: all <<tuple, sign>> reached.
RECURSIVE Spread(_, _)
Spread(S, gens) ==
  LET N == S \cup {<<Image(g, x[1]), g.s * x[2]>> : g \in gens, x \in S}
  IN IF N = S THEN S ELSE Spread(N, gens)
Orbit(t, gens) == Spread({<<t, 1>>}, gens)

Gens(o) == {o.gens[k] : k \in 1..Len(o.gens)}

\* One tensor: elements <<tuple, value>>.
Symmetric(o) ==
  LET E == 1..Len(o.el)
      idx == {o.el[k].i : k \in E}
      val == FoldLeft(LAMBDA f, e : (e.i :> e.v) @@ f, <<>>, o.el)
      gens == Gens(o)
      orb == [t \in idx |-> Orbit(t, gens)]
      dead == {t \in idx : <<t, -1>> \in orb[t]}
      live == idx \ dead
      broken == \/ \E t \in dead : Abs(val[t]) > 1
                \/ \E t \in live : \E x \in orb[t] :
                     x[1] \in idx /\ Abs(val[x[1]] - x[2] * val[t]) > 1
      classes == {{x[1] : x \in orb[t]} \cap idx : t \in live}
      \* two of several hundred random numbers may agree on the grid
      chance == IF Cardinality(classes) > 20 THEN 1 ELSE 0
      sizes == {Abs(val[CHOOSE t \in c : TRUE]) : c \in classes}
  IN (IF broken THEN {"symmetry"} ELSE {})
     \cup (IF \E c \in classes : Abs(val[CHOOSE t \in c : TRUE]) <= 1 THEN {"vanishes"} ELSE {})
     \cup (IF ~broken /\ Cardinality(sizes) + chance < Cardinality(classes)
           THEN {"forced-equal"} ELSE {})

\* Denominators over one list of energies: sums of differences.
\* D1[a,i] = e_a - e_i; D2[a,b,i,j] = D1[a,i] + D1'[b,j].
Near(a, b) == Abs(a - b) <= 4
IsDiff(D, n) ==
  \A a, b, c \in 1..n : Near(D[a][b] + D[b][c], D[a][c])
Denominator(o) ==
  LET n == o.n
      m == o.m
      d1 == IF o.has1 THEN o.d1
            ELSE [a \in 1..n |-> [i \in 1..n |-> IF m = 0 THEN 0 ELSE o.d2[a][1][i][1]]]
      e1 == IF ~o.has2 \/ n = 0 \/ m = 0 THEN 0
            ELSE [b \in 1..m |-> [j \in 1..m |-> o.d2[1][b][1][j]]]
      generic(D, k) == Cardinality({Abs(D[x[1]][x[2]]) : x \in {y \in (1..k) \X (1..k) : y[1] < y[2]}}) + 1
                         >= (k * (k - 1)) \div 2
  IN IF n = 0 \/ (o.has2 /\ m = 0) THEN {}
     ELSE (IF ~IsDiff(d1, n) THEN {"not-differences"} ELSE {})
          \cup (IF ~generic(d1, n) THEN {"forced-equal"} ELSE {})
          \cup (IF ~o.has2 THEN {}
                ELSE (IF ~IsDiff(e1, m) THEN {"not-differences-2"} ELSE {})
                     \cup (IF ~generic(e1, m) THEN {"forced-equal-2"} ELSE {})
                     \cup (IF \E a, i \in 1..n, b, j \in 1..m : ~Near(o.d2[a][b][i][j], d1[a][i] + e1[b][j])
                           THEN {"not-sums"} ELSE {}))

Clauses(o) == IF o.st # "ok" THEN {o.st}
              ELSE IF o.kind = "tensor" THEN Symmetric(o) ELSE Denominator(o)
Bad == UNION {{Case.outs[k].name \o ":" \o c : c \in Clauses(Case.outs[k])} : k \in 1..Len(Case.outs)}

Init == ci \in 1..Len(Cases) /\ done = FALSE
Judge == /\ ~done /\ done' = TRUE /\ UNCHANGED ci
         /\ PrintT("VERDICT " \o ToJson([id |-> Case.id, bad |-> SetToSeq(Bad)]))
Spec == Init /\ [][Judge]_vars
=============================================================================
