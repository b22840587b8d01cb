----------------------------- MODULE SpecBridge -----------------------------
(***************************************************************************)
(* The CI Hamiltonian over bare integrals and the normal-ordered one of    *)
(* the coupled-cluster machine belong together:                            *)
(*   Shifted   they differ by the energy of the reference on the diagonal; *)
(*   Reached   H e^T|0>, with e^T|0> cut after quadruples, is              *)
(*             e^T(E0 + E + R1 + R2)|0> up to doubles.                     *)
(***************************************************************************)
EXTENDS CI, Machine

CONSTANTS Seeds, Sizes
VARIABLES seed, size, sys
vars == <<seed, size, sys>>

SmallSizes == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 3>>}
MoreSizes  == SmallSizes \cup {<<1, 4>>, <<4, 1>>, <<2, 4>>, <<4, 2>>, <<3, 4>>, <<4, 4>>}

\* <pq|rs> = <qp|sr> and no other symmetry.
Plain(p, q, r, s) == Add(Rnd(seed, 2, p, q, r, s), Rnd(seed, 2, q, p, s, r))
Made(no, nv) ==
  LET n == no + nv
      h == [p \in 1..n |-> [q \in 1..n |-> Rnd(seed, 1, p, q, 0, 0)]]
      I == [p \in 1..n |-> [q \in 1..n |-> [r \in 1..n |-> [s \in 1..n |-> Plain(p, q, r, s)]]]] IN
  [form |-> "g", n |-> n, no |-> no, nv |-> nv, na |-> no, nb |-> 0, spin |-> [p \in 1..n |-> "a"],
   h |-> h, I |-> I,
   V |-> [p \in 1..n |-> [q \in 1..n |-> [r \in 1..n |-> [s \in 1..n |-> Anti4(I, p, q, r, s)]]]],
   F |-> [p \in 1..n |-> [q \in 1..n |-> Add(h[p][q], Sum(LAMBDA i : Anti4(I, p, i, q, i), 1..no))]],
   L1 |-> [i \in 1..no |-> [a \in 1..nv |-> 0]],
   L2 |-> [i \in 1..no |-> [j \in 1..no |-> [a \in 1..nv |-> [b \in 1..nv |-> 0]]]],
   T1 |-> [a \in 1..nv |-> [i \in 1..no |-> Rnd(seed, 7, a, i, 0, 0)]],
   T2 |-> [a \in 1..nv |-> [b \in 1..nv |-> [i \in 1..no |-> [j \in 1..no |-> Ant(seed, 8, a, b, i, j)]]]]]

Init == seed \in Seeds /\ size \in Sizes /\ sys = <<>>
Make == sys = <<>> /\ sys' = TLCEval(Made(size[1], size[2])) /\ UNCHANGED <<seed, size>>
Spec == Init /\ [][Make]_vars

Rank(D) == Cardinality(D \ Ground(sys))
EnRef == HElem(sys, Ground(sys), Ground(sys))

Shifted == sys # <<>> =>
  LET bas == TLCEval(BasisOf(sys))  H == TLCEval(MatrixH(sys, bas))  e0 == TLCEval(EnRef) IN
  \A r, k \in 1..Len(bas) : (Rank(bas[r]) <= 2 \/ Rank(bas[k]) <= 1) =>
     HElem(sys, bas[r], bas[k]) = IF r = k THEN Add(e0, H[r][k]) ELSE H[r][k]

RECURSIVE Grown(_, _, _)
Grown(low, x, k) ==
  LET y == TLCEval(Scale(Inv(k), ApplyT(sys.T1, sys.T2, OccSeq(sys), VirtSeq(sys), sys.n, low, Positions(low), x)))
  IN IF IsZero(y) THEN x ELSE VecAdd(x, Grown(low, y, k + 1))

Reached == sys # <<>> =>
  LET w   == TLCEval(Machine(sys, 1))
      low == TLCEval(SetToSeq({D \in ToSet(w.bas) : Rank(D) <= 2}))
      pos == TLCEval(Positions(low))
      C   == TLCEval([k \in 1..Len(w.bas) |-> IF Rank(w.bas[k]) <= 4 THEN w.ket[k] ELSE 0])
      e   == Unit(Len(low), PosOf(pos, Ground(sys)))
      R   == Residuals(w)
      y   == TLCEval(VecAdd(Scale(Add(EnRef, Energy(w)), e),
                            ApplyT(R[1].val, R[2].val, OccSeq(sys), VirtSeq(sys), sys.n, low, pos, e)))
      z   == TLCEval(Grown(low, y, 1))
  IN \A r \in 1..Len(low) :
       z[r] = Sum(LAMBDA k : IF C[k] = 0 THEN 0 ELSE Mul(HElem(sys, low[r], w.bas[k]), C[k]), 1..Len(w.bas))
=============================================================================
