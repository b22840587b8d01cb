--------------------------------- MODULE CI ---------------------------------
(***************************************************************************)
(* Configuration interaction: excitation spaces, operators on CI vectors,  *)
(* and CI coefficients of a coupled-cluster state.                         *)
(*                                                                         *)
(* A spin-resolved determinant over m spatial orbitals is a set of spin    *)
(* orbitals in 1..2m, alpha orbital p as p and beta orbital p as m + p, so *)
(* the alpha string comes first in the product of creation operators.      *)
(***************************************************************************)
EXTENDS System, Functions

(* Excitation spaces.                                                      *)
Subsets(k, S) == IF k > Cardinality(S) THEN {} ELSE kSubset(k, S)
Excited(ref, all, k) ==
  {(ref \ x) \cup y : x \in Subsets(k, ref), y \in Subsets(k, all \ ref)}
UpTo(ref, all, k) == UNION {Excited(ref, all, r) : r \in 0..k}

\* At most k electrons moved, each within its own spin.
UpToSpin(refa, alla, refb, allb, k) ==
  UNION {{x \cup y : x \in Excited(refa, alla, ra), y \in Excited(refb, allb, rb)} :
         <<ra, rb>> \in {r \in (0..k) \X (0..k) : r[1] + r[2] <= k}}

\* Occupation vectors of m modes with q quanta in all.
Quanta(m, q) == {v \in [1..m -> 0..q] : FoldFunction(LAMBDA x, acc : x + acc, 0, v) = q}

(* Hamiltonians over CI integrals <pq|rs> (plain, with <pq|rs> = <qp|sr>). *)
SpinOf(m, p) == IF p <= m THEN "a" ELSE "b"
Ix(m, p) == IF p <= m THEN p ELSE p - m
hu(c, p, q) == Spin1(SpinOf(c.m, p), SpinOf(c.m, q), c.ha, c.hb, Ix(c.m, p), Ix(c.m, q))
Vu(c, p, q, r, s) ==
  Spin2(SpinOf(c.m, p), SpinOf(c.m, q), SpinOf(c.m, r), SpinOf(c.m, s),
        LAMBDA w, x, y, z : Anti4(c.Ia, w, x, y, z),
        LAMBDA w, x, y, z : At4(c.Iab, w, x, y, z),
        LAMBDA w, x, y, z : Anti4(c.Ib, w, x, y, z),
        Ix(c.m, p), Ix(c.m, q), Ix(c.m, r), Ix(c.m, s))
hg(c, p, q) == c.h[p][q]
Vg(c, p, q, r, s) == Anti4(c.I, p, q, r, s)

HElem(c, E, D) ==
  IF c.form = "g" THEN Elem(LAMBDA p, q : hg(c, p, q), LAMBDA p, q, r, s : Vg(c, p, q, r, s), E, D)
  ELSE Elem(LAMBDA p, q : hu(c, p, q), LAMBDA p, q, r, s : Vu(c, p, q, r, s), E, D)

HMatrix(c, bas) == [r \in 1..Len(bas) |-> [k \in 1..Len(bas) |-> HElem(c, bas[r], bas[k])]]

(***************************************************************************)
(* Operators on CI vectors.  An operator string sends each basis state to  *)
(* a signed determinant; what leaves the basis is dropped.                 *)
(***************************************************************************)
OpsOf(op, m) ==
  CASE op.k = "s"  -> Ex1(op.i, op.a)
    [] op.k = "sa" -> Ex1(op.i, op.a)
    [] op.k = "sb" -> Ex1(m + op.i, m + op.a)
    [] op.k = "d"  -> Ex1(op.j, op.b) \o Ex1(op.i, op.a)
    [] op.k = "da" -> Ex1(op.j, op.b) \o Ex1(op.i, op.a)
    [] op.k = "db" -> Ex1(m + op.j, m + op.b) \o Ex1(m + op.i, m + op.a)
    [] op.k = "sasb" -> Ex1(m + op.j, m + op.b) \o Ex1(op.i, op.a)

ApplyOps(ops, bas, pos, vec) ==
  LET img == [k \in 1..Len(bas) |-> LET r == Act(ops, Det(bas[k]))
                                    IN [s |-> r.s, to |-> IF r.s = 0 THEN 0 ELSE PosOf(pos, r.d)]]
  IN [r \in 1..Len(bas) |->
        FoldLeftDomain(LAMBDA acc, k : IF img[k].s # 0 /\ img[k].to = r
                                 THEN (acc + Signed(img[k].s, vec[k])) % P ELSE acc,
                       0, bas)]

(***************************************************************************)
(* exp(T)|0> in the CI ordering of the orbitals.  occ[i] and vir[a] are    *)
(* the CI orbitals that the i-th occupied and a-th virtual index of the    *)
(* amplitudes stand for.                                                   *)
(***************************************************************************)
InvMap(seq, n) == [p \in 1..n |-> IF p \in Range(seq) THEN CHOOSE k \in 1..Len(seq) : seq[k] = p ELSE 0]

(* T acting on a vector: each determinant collects what reaches it from the *)
(* determinants with one or two of its excitations undone.                  *)
ApplyT(T1, T2, occ, vir, n, bas, pos, vec) ==
  LET io == InvMap(occ, n)  iv == InvMap(vir, n)
      O == Range(occ)
      From(ops, D, t) == LET j == PosOf(pos, D) IN
         IF j = 0 \/ t = 0 THEN 0
         ELSE IF vec[j] = 0 THEN 0 ELSE Signed(Act(ops, Det(D)).s, Mul(t, vec[j]))
  IN [r \in 1..Len(bas) |->
       LET E == bas[r]  holes == O \ E  parts == E \ O IN
       Add(Sum(LAMBDA x : From(Ex1(x[1], x[2]), (E \ {x[2]}) \cup {x[1]},
                               T1[iv[x[2]]][io[x[1]]]), holes \X parts),
           Sum(LAMBDA x : From(Ex2(x[1][1], x[1][2], x[2][1], x[2][2]),
                               (E \ {x[2][1], x[2][2]}) \cup {x[1][1], x[1][2]},
                               T2[iv[x[2][1]]][iv[x[2][2]]][io[x[1][1]]][io[x[1][2]]]),
               Pairs(holes) \X Pairs(parts)))]
=============================================================================
