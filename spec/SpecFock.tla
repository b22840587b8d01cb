------------------------------ MODULE SpecFock ------------------------------
(***************************************************************************)
(* The specification checked against itself, for all determinants of small *)
(* Fock spaces: canonical anticommutation relations, normal ordering, and  *)
(* the closed form of matrix elements against the definition.              *)
(*                                                                         *)
(* `one' and `two' are operators with entries that are distinct monomials  *)
(* in field elements, so that an identity that holds for them holds        *)
(* entrywise up to the usual 1/P.                                          *)
(***************************************************************************)
EXTENDS Operators, TLC

CONSTANTS MaxN
VARIABLES n, bra, ket
vars == <<n, bra, ket>>

Init == n \in 1..MaxN /\ ket \in SUBSET (1..n) /\ bra \in SUBSET (1..n)
Spec == Init /\ [][FALSE]_vars

Plus(x, y) ==    \* sum of two signed determinants, as a function on determinants
  [D \in {x.d, y.d} |-> (IF x.d = D THEN x.s ELSE 0) + (IF y.d = D THEN y.s ELSE 0)]
Zero(f) == \A D \in DOMAIN f : f[D] = 0

Anticommute ==
  \A p, q \in 1..n :
    /\ Zero(Plus(Cre(p, Cre(q, Det(ket))), Cre(q, Cre(p, Det(ket)))))
    /\ Zero(Plus(Ann(p, Ann(q, Det(ket))), Ann(q, Ann(p, Det(ket)))))
    /\ LET f == Plus(Ann(p, Cre(q, Det(ket))), Cre(q, Ann(p, Det(ket)))) IN
       IF p # q THEN Zero(f)
       ELSE \A D \in DOMAIN f : f[D] = IF D = ket THEN 1 ELSE 0

\* Normal-ordered products have no expectation value in their vacuum, and the
\* two-index one is the product minus its contraction.
NormalOrdered ==
  \A p, q \in 1..n :
    LET occ == bra
        x == ActN(Ex1(p, q), occ, Det(ket))
        y == Act(Ex1(p, q), Det(ket))
        c == IF p = q /\ p \in occ THEN 1 ELSE 0
    IN /\ ActN(Ex1(p, q), occ, Det(occ)).d = occ => ActN(Ex1(p, q), occ, Det(occ)).s = 0
       /\ LET f == Plus(x, [s |-> -y.s, d |-> y.d])
              D == DOMAIN f \cup {ket} IN
          \A E \in D : (IF E \in DOMAIN f THEN f[E] ELSE 0) = (IF E = ket THEN -c ELSE 0)

h(p, q) == N(7 * p * p + 31 * q + 1009 * p * q + 5)
V(p, q, r, s) ==
  IF p = q \/ r = s THEN 0
  ELSE LET sg == (IF p < q THEN 1 ELSE -1) * (IF r < s THEN 1 ELSE -1)
           a == IF p < q THEN p ELSE q   b == IF p < q THEN q ELSE p
           c == IF r < s THEN r ELSE s   d == IF r < s THEN s ELSE r
       IN Signed(sg, N(a * 911 + b * b * 353 + c * c * c * 127 + d * 4099 + a * b * c * d * 17))

ClosedForm ==
  Cardinality(bra) = Cardinality(ket) => Elem(h, V, bra, ket) = ElemSQ(n, h, V, bra, ket)
=============================================================================
