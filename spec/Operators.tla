------------------------------ MODULE Operators -----------------------------
(***************************************************************************)
(* One- plus two-body operators                                            *)
(*    O = SUM h(p,q) a+_p a_q + SUM_{p<q, r<s} V(p,q,r,s) a+_p a+_q a_s a_r *)
(* with V antisymmetric in (p,q) and in (r,s).  Nothing else is assumed:   *)
(* neither hermiticity nor real values.                                    *)
(*                                                                         *)
(* ElemSQ is the definition: apply every operator string and collect.      *)
(* Elem is the closed (Slater-Condon) form.  The model checker proves them *)
(* equal for all pairs of determinants in the configurations of            *)
(* SpecFock.cfg; traces are judged with Elem.                              *)
(***************************************************************************)
EXTENDS Fock

Pairs(S) == {pq \in S \X S : pq[1] < pq[2]}

Hit(ops, D, E) == LET r == Act(ops, Det(D)) IN IF r.d = E THEN r.s ELSE 0

ElemSQ(n, h(_, _), V(_, _, _, _), E, D) ==
  LET R == 1..n
      one == Sum(LAMBDA pq : Signed(Hit(Ex1(pq[2], pq[1]), D, E), h(pq[1], pq[2])),
                 R \X R)
      two == Sum(LAMBDA x : Signed(Hit(Ex2(x[2][1], x[2][2], x[1][1], x[1][2]), D, E),
                                   V(x[1][1], x[1][2], x[2][1], x[2][2])),
                 Pairs(R) \X Pairs(R))
  IN Add(one, two)

Elem(h(_, _), V(_, _, _, _), E, D) ==
  LET X == E \ D
      Y == D \ E
      C == E \cap D
      k == Cardinality(X)
  IN IF Cardinality(Y) # k \/ k > 2 THEN 0
     ELSE IF k = 0 THEN
       Add(Sum(LAMBDA q : h(q, q), D),
           Sum(LAMBDA pq : V(pq[1], pq[2], pq[1], pq[2]), Pairs(D)))
     ELSE IF k = 1 THEN
       LET p == Min(X)
           q == Min(Y)
           v == Add(h(p, q), Sum(LAMBDA c : V(p, c, q, c), C))
       IN Signed(Act(Ex1(q, p), Det(D)).s, v)
     ELSE
       LET p1 == Min(X) p2 == Max(X)
           q1 == Min(Y) q2 == Max(Y)
       IN Signed(Act(Ex2(q1, q2, p1, p2), Det(D)).s, V(p1, p2, q1, q2))

Matrix(h(_, _), V(_, _, _, _), bas) ==
  [r \in 1..Len(bas) |-> [c \in 1..Len(bas) |-> Elem(h, V, bas[r], bas[c])]]

MatrixSQ(n, h(_, _), V(_, _, _, _), bas) ==
  [r \in 1..Len(bas) |-> [c \in 1..Len(bas) |-> ElemSQ(n, h, V, bas[r], bas[c])]]
=============================================================================
