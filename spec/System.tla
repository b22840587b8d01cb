------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* What the three calling conventions of the library mean.                 *)
(*                                                                         *)
(*   "g"  spin-orbital tensors, occupied orbitals first;                   *)
(*   "u"  unrestricted: alpha and beta tensors, antisymmetric same-spin    *)
(*        blocks and a bare alpha-beta block  Vab[p,q,r,s] = <pq|rs>;      *)
(*   "r"  restricted: one set of spatial tensors, with the same-spin block *)
(*        given by antisymmetrising the alpha-beta one.                    *)
(*                                                                         *)
(* All three denote a spin-orbital system                                  *)
(*   [n, no, spin, F, V, T1, T2, L1, L2]                                   *)
(* over 1..n with the occupied orbitals 1..no; spin-labelled systems are   *)
(* ordered occ-alpha, occ-beta, virt-alpha, virt-beta.  T1[a][i] and       *)
(* T2[a][b][i][j] are indexed by virtuals counted from 1 and occupieds,    *)
(* L1[i][a], L2[i][j][a][b] the other way round.                           *)
(***************************************************************************)
EXTENDS Operators

(* Per spin-orbital: its spin ("a" or "b"), and its index among the         *)
(* occupied (or virtual) orbitals of that spin.                             *)
Layout(noa, nva, nob, nvb) ==
  LET n == noa + nob + nva + nvb
      no == noa + nob
  IN [n |-> n, no |-> no, noa |-> noa, nob |-> nob, nva |-> nva, nvb |-> nvb,
      spin |-> [p \in 1..n |->
         IF p <= noa THEN "a" ELSE IF p <= no THEN "b"
         ELSE IF p <= no + nva THEN "a" ELSE "b"],
      ix |-> [p \in 1..n |->
         IF p <= noa THEN p ELSE IF p <= no THEN p - noa
         ELSE IF p <= no + nva THEN p - no ELSE p - no - nva],
      \* index within the full orbital set of that spin, occupied first
      full |-> [p \in 1..n |->
         IF p <= noa THEN p ELSE IF p <= no THEN p - noa
         ELSE IF p <= no + nva THEN noa + p - no ELSE nob + p - no - nva]]

\* One-body tensor diagonal in spin.
Spin1(sp, sq, A, B, p, q) ==
  IF sp # sq THEN 0 ELSE IF sp = "a" THEN A[p][q] ELSE B[p][q]

\* Antisymmetric two-body tensor from its aa, ab, bb components.
Spin2(sp, sq, sr, ss, AA(_, _, _, _), AB(_, _, _, _), BB(_, _, _, _), p, q, r, s) ==
  CASE <<sp, sq, sr, ss>> = <<"a", "a", "a", "a">> -> AA(p, q, r, s)
    [] <<sp, sq, sr, ss>> = <<"b", "b", "b", "b">> -> BB(p, q, r, s)
    [] <<sp, sq, sr, ss>> = <<"a", "b", "a", "b">> -> AB(p, q, r, s)
    [] <<sp, sq, sr, ss>> = <<"b", "a", "b", "a">> -> AB(q, p, s, r)
    [] <<sp, sq, sr, ss>> = <<"a", "b", "b", "a">> -> Neg(AB(p, q, s, r))
    [] <<sp, sq, sr, ss>> = <<"b", "a", "a", "b">> -> Neg(AB(q, p, r, s))
    [] OTHER -> 0

At4(X, p, q, r, s) == X[p][q][r][s]
Anti4(X, p, q, r, s) == Sub(X[p][q][r][s], X[p][q][s][r])

SpinSystem(L, Fa, Fb, T1a, T1b, L1a, L1b,
           VAA(_, _, _, _), VAB(_, _, _, _), VBB(_, _, _, _),
           TAA(_, _, _, _), TAB(_, _, _, _), TBB(_, _, _, _),
           LAA(_, _, _, _), LAB(_, _, _, _), LBB(_, _, _, _)) ==
  LET n == L.n  no == L.no  nv == L.n - L.no
      sp == L.spin  fx == L.full  ix == L.ix
  IN [n |-> n, no |-> no, spin |-> sp, na |-> L.noa, nb |-> L.nob,
      F |-> [p \in 1..n |-> [q \in 1..n |->
              Spin1(sp[p], sp[q], Fa, Fb, fx[p], fx[q])]],
      V |-> [p \in 1..n |-> [q \in 1..n |-> [r \in 1..n |-> [s \in 1..n |->
              Spin2(sp[p], sp[q], sp[r], sp[s], VAA, VAB, VBB,
                    fx[p], fx[q], fx[r], fx[s])]]]],
      T1 |-> [a \in 1..nv |-> [i \in 1..no |->
              Spin1(sp[no + a], sp[i], T1a, T1b, ix[no + a], ix[i])]],
      T2 |-> [a \in 1..nv |-> [b \in 1..nv |-> [i \in 1..no |-> [j \in 1..no |->
              Spin2(sp[no + a], sp[no + b], sp[i], sp[j], TAA, TAB, TBB,
                    ix[no + a], ix[no + b], ix[i], ix[j])]]]],
      L1 |-> [i \in 1..no |-> [a \in 1..nv |->
              Spin1(sp[i], sp[no + a], L1a, L1b, ix[i], ix[no + a])]],
      L2 |-> [i \in 1..no |-> [j \in 1..no |-> [a \in 1..nv |-> [b \in 1..nv |->
              Spin2(sp[i], sp[j], sp[no + a], sp[no + b], LAA, LAB, LBB,
                    ix[i], ix[j], ix[no + a], ix[no + b])]]]]]

SystemOf(c) ==
  CASE c.form = "g" ->
         [n |-> c.no + c.nv, no |-> c.no, na |-> c.no, nb |-> 0,
          spin |-> [p \in 1..(c.no + c.nv) |-> "a"],
          F |-> c.F, V |-> c.V, T1 |-> c.T1, T2 |-> c.T2, L1 |-> c.L1, L2 |-> c.L2]
    [] c.form = "u" ->
         SpinSystem(Layout(c.noa, c.nva, c.nob, c.nvb),
            c.Fa, c.Fb, c.T1a, c.T1b, c.L1a, c.L1b,
            LAMBDA p, q, r, s : At4(c.Va, p, q, r, s),
            LAMBDA p, q, r, s : At4(c.Vab, p, q, r, s),
            LAMBDA p, q, r, s : At4(c.Vb, p, q, r, s),
            LAMBDA p, q, r, s : At4(c.T2aa, p, q, r, s),
            LAMBDA p, q, r, s : At4(c.T2ab, p, q, r, s),
            LAMBDA p, q, r, s : At4(c.T2bb, p, q, r, s),
            LAMBDA p, q, r, s : At4(c.L2aa, p, q, r, s),
            LAMBDA p, q, r, s : At4(c.L2ab, p, q, r, s),
            LAMBDA p, q, r, s : At4(c.L2bb, p, q, r, s))
    [] c.form = "r" ->
         SpinSystem(Layout(c.no, c.nv, c.no, c.nv),
            c.F, c.F, c.T1, c.T1, c.L1, c.L1,
            LAMBDA p, q, r, s : Anti4(c.V, p, q, r, s),
            LAMBDA p, q, r, s : At4(c.V, p, q, r, s),
            LAMBDA p, q, r, s : Anti4(c.V, p, q, r, s),
            LAMBDA p, q, r, s : Anti4(c.T2, p, q, r, s),
            LAMBDA p, q, r, s : At4(c.T2, p, q, r, s),
            LAMBDA p, q, r, s : Anti4(c.T2, p, q, r, s),
            LAMBDA p, q, r, s : Anti4(c.L2, p, q, r, s),
            LAMBDA p, q, r, s : At4(c.L2, p, q, r, s),
            LAMBDA p, q, r, s : Anti4(c.L2, p, q, r, s))

(***************************************************************************)
(* The operators of a system.                                              *)
(***************************************************************************)
Occ(sys)  == 1..sys.no
Virt(sys) == (sys.no + 1)..sys.n

\* Bare one-body Hamiltonian recovered from the Fock operator.
Bare(sys, p, q) == Sub(sys.F[p][q], Sum(LAMBDA i : sys.V[p][i][q][i], Occ(sys)))

\* Energy of the reference determinant.
E0(sys) == Add(Sum(LAMBDA i : Bare(sys, i, i), Occ(sys)),
               Sum(LAMBDA ij : sys.V[ij[1]][ij[2]][ij[1]][ij[2]], Pairs(Occ(sys))))

BasisOf(sys) ==
  LET A == {p \in 1..sys.n : sys.spin[p] = "a"}
      B == {p \in 1..sys.n : sys.spin[p] = "b"}
  IN BasisSeq(Sector(A, sys.na, B, sys.nb))

(* Determinants up to an excitation rank.  T only raises the rank and H     *)
(* changes it by at most two, so what is read off at ranks 0..2 is that of  *)
(* the whole space when ranks 0..4 are kept; for the energy 0..2 will do.   *)
BasisUpTo(sys, r) == SelectSeq(BasisOf(sys), LAMBDA d : Cardinality(d \ Occ(sys)) <= r)

\* H - <0|H|0>
MatrixH(sys, bas) ==
  LET e0 == E0(sys)
      hh == [p \in 1..sys.n |-> [q \in 1..sys.n |-> Bare(sys, p, q)]]
      M  == Matrix(LAMBDA p, q : hh[p][q],
                   LAMBDA p, q, r, s : sys.V[p][q][r][s], bas)
  IN [r \in 1..Len(bas) |-> [c \in 1..Len(bas) |->
        IF r = c THEN Sub(M[r][c], e0) ELSE M[r][c]]]

\* Excitation operator T1 + T2 and de-excitation operator L1 + L2.
MatrixT(sys, bas) ==
  LET o == sys.no IN
  Matrix(LAMBDA p, q : IF p > o /\ q <= o THEN sys.T1[p - o][q] ELSE 0,
         LAMBDA p, q, r, s : IF p > o /\ q > o /\ r <= o /\ s <= o
                             THEN sys.T2[p - o][q - o][r][s] ELSE 0, bas)
MatrixL(sys, bas) ==
  LET o == sys.no IN
  Matrix(LAMBDA p, q : IF p <= o /\ q > o THEN sys.L1[p][q - o] ELSE 0,
         LAMBDA p, q, r, s : IF p <= o /\ q <= o /\ r > o /\ s > o
                             THEN sys.L2[p][q][r - o][s - o] ELSE 0, bas)
=============================================================================
