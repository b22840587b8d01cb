------------------------------- MODULE Coulomb ------------------------------
(***************************************************************************)
(* Electron repulsion integrals over orbitals.                             *)
(*                                                                         *)
(* An orbital is [c |-> coefficients over the atomic orbitals, s |-> spin, *)
(* k |-> crystal momentum (an index)], with Gaussian-integer coefficients  *)
(* <<re, im>>.  Integrals over atomic orbitals are fixed-point numbers     *)
(* <<re, im>>: ao[k1][k2][k3][m][n][l][o] is (m k1, n k2 | l k3, o k4)     *)
(* where k4 is the momentum that conserves.                                *)
(*                                                                         *)
(*   chemist's      (pq|rs): p* q at the first, r* s at the second point   *)
(*   physicist's    <pq|rs> = (pr|qs)                                      *)
(*   antisymmetric  (pq|rs) - (ps|rq)     <pq|rs> - <pq|sr>                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Conj(a) == <<a[1], -a[2]>>
CZero == <<0, 0>>
CSum(f(_), S) == FoldSet(LAMBDA x, acc : CAdd(f(x), acc), CZero, S)

(* Momenta are points of a mesh, given by integer coordinates.             *)
Conserves(mesh, at, k1, k2, k3, k4) ==
  \A d \in 1..Len(mesh) : (at[k1][d] - at[k2][d] + at[k3][d] - at[k4][d]) % mesh[d] = 0
Fourth(mesh, at, k1, k2, k3) ==
  CHOOSE k \in 1..Len(at) : Conserves(mesh, at, k1, k2, k3, k)
\* A mesh is closed: the fourth momentum exists and is unique.
Closed(mesh, at) == \A k1, k2, k3 \in 1..Len(at) :
                      Cardinality({k \in 1..Len(at) : Conserves(mesh, at, k1, k2, k3, k)}) = 1

\* Contract the four coefficient vectors one after the other.
Contract(t, p, q, r, s) ==
  LET n == Len(t)
      I == 1..n
  IN CSum(LAMBDA a : IF p.c[a] = CZero THEN CZero ELSE CMul(Conj(p.c[a]),
      CSum(LAMBDA b : IF q.c[b] = CZero THEN CZero ELSE CMul(q.c[b],
       CSum(LAMBDA c : IF r.c[c] = CZero THEN CZero ELSE CMul(Conj(r.c[c]),
        CSum(LAMBDA d : IF s.c[d] = CZero THEN CZero ELSE CMul(s.c[d], t[a][b][c][d]),
             I)), I)), I)), I)

Direct(ao, mesh, at, p, q, r, s) ==
  IF p.s # q.s \/ r.s # s.s \/ ~Conserves(mesh, at, p.k, q.k, r.k, s.k) THEN CZero
  ELSE Contract(ao[p.k][q.k][r.k], p, q, r, s)

Chem(ao, mesh, at, p, q, r, s, anti) ==
  IF anti THEN CSub(Direct(ao, mesh, at, p, q, r, s), Direct(ao, mesh, at, p, s, r, q))
  ELSE Direct(ao, mesh, at, p, q, r, s)
Phys(ao, mesh, at, p, q, r, s, anti) ==
  IF anti THEN CSub(Direct(ao, mesh, at, p, r, q, s), Direct(ao, mesh, at, p, s, q, r))
  ELSE Direct(ao, mesh, at, p, r, q, s)

Core(h, p, q) ==
  IF p.k # q.k THEN CZero
  ELSE LET I == 1..Len(h[p.k]) IN
       CSum(LAMBDA a : CMul(Conj(p.c[a]),
         CSum(LAMBDA b : CMul(q.c[b], h[p.k][a][b]), I)), I)
=============================================================================
