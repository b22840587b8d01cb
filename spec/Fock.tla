-------------------------------- MODULE Fock --------------------------------
(***************************************************************************)
(* Fermionic Fock space over orbitals 1, 2, ..., n.  A determinant is the  *)
(* set of its occupied orbitals, standing for the product of creation      *)
(* operators in increasing orbital order applied to the true vacuum.       *)
(*                                                                         *)
(* A state here is a signed determinant [s |-> -1|0|1, d |-> set]; s = 0   *)
(* is the zero vector.  Elementary operators are <<"c", p>> (creation) and *)
(* <<"a", p>> (annihilation).  Everything the library does with orbitals   *)
(* is defined on top of these two actions.                                 *)
(***************************************************************************)
EXTENDS Field

Null  == [s |-> 0, d |-> {}]
Det(D) == [s |-> 1, d |-> D]

Below(p, D) == Cardinality({x \in D : x < p})

Ann(p, st) == IF st.s = 0 \/ p \notin st.d THEN Null
              ELSE [s |-> st.s * Sgn(Below(p, st.d)), d |-> st.d \ {p}]
Cre(p, st) == IF st.s = 0 \/ p \in st.d THEN Null
              ELSE [s |-> st.s * Sgn(Below(p, st.d)), d |-> st.d \cup {p}]

ActOp(op, st) == IF op[1] = "c" THEN Cre(op[2], st) ELSE Ann(op[2], st)

\* The operator product ops[1] ops[2] ... ops[k] acting on st (rightmost first).
Act(ops, st) == FoldRight(LAMBDA op, acc : ActOp(op, acc), ops, st)

\* a+_a a_i  and  a+_a a+_b a_j a_i
Ex1(i, a)       == << <<"c", a>>, <<"a", i>> >>
Ex2(i, j, a, b) == << <<"c", a>>, <<"c", b>>, <<"a", j>>, <<"a", i>> >>

(***************************************************************************)
(* Normal order with respect to the Fermi vacuum `occ': operators that     *)
(* annihilate it (a_v, a+_o) move to the right, the others to the left,    *)
(* with the sign of the permutation and no contractions.                   *)
(***************************************************************************)
QuasiAnn(op, occ) == IF op[1] = "c" THEN op[2] \in occ ELSE op[2] \notin occ

NormalOrder(ops, occ) ==
  LET left  == SelectSeq(ops, LAMBDA op : ~QuasiAnn(op, occ))
      right == SelectSeq(ops, LAMBDA op : QuasiAnn(op, occ))
      inv   == Cardinality({ij \in (1..Len(ops)) \X (1..Len(ops)) :
                  /\ ij[1] < ij[2]
                  /\ QuasiAnn(ops[ij[1]], occ)
                  /\ ~QuasiAnn(ops[ij[2]], occ)})
  IN [s |-> Sgn(inv), ops |-> left \o right]

\* Action of the normal-ordered product of ops on st.
ActN(ops, occ, st) ==
  LET no == NormalOrder(ops, occ)
      r  == Act(no.ops, st)
  IN [s |-> no.s * r.s, d |-> r.d]

(***************************************************************************)
(* Determinant bases.                                                      *)
(***************************************************************************)
Code(D) == FoldSet(LAMBDA p, acc : acc + 2^(p - 1), 0, D)

\* All determinants with na electrons in the orbitals A and nb in B.
Sector(A, na, B, nb) ==
  {x \cup y : x \in kSubset(na, A), y \in kSubset(nb, B)}

BasisSeq(S) == SetToSeq(S)

\* Index of each determinant of the sequence, addressed by its code.
Positions(bas) ==
  LET codes == [k \in 1..Len(bas) |-> Code(bas[k])]
  IN [x \in Range(codes) |-> CHOOSE k \in 1..Len(bas) : codes[k] = x]

\* 0 for determinants outside of the basis.
PosOf(pos, D) == LET x == Code(D) IN IF x \in DOMAIN pos THEN pos[x] ELSE 0
=============================================================================
