--------------------------- MODULE SpecLagrangian ---------------------------
(***************************************************************************)
(* The coupled-cluster machine itself has the Lagrangian: for all small    *)
(* systems of the configuration its residuals, Lambda residuals and        *)
(* density matrices are the derivatives of one function, in the sense of   *)
(* the very operators with which recordings are judged.                    *)
(*                                                                         *)
(* Entries are pseudo-random field elements made from the variable `seed'. *)
(***************************************************************************)
EXTENDS Lagrangian, Machine

CONSTANTS Seeds, Sizes
VARIABLES seed, size, sys
vars == <<seed, size, sys>>

Made(no, nv, t) ==
  LET n == no + nv IN
  [form |-> "g", n |-> n, no |-> no, nv |-> nv, na |-> no, nb |-> 0, spin |-> [p \in 1..n |-> "a"],
   F  |-> [p \in 1..n |-> [q \in 1..n |-> Rnd(seed, 1, p, q, 0, 0)]],
   V  |-> [p \in 1..n |-> [q \in 1..n |-> [r \in 1..n |-> [s \in 1..n |-> Ant(seed, 2, p, q, r, s)]]]],
   D1 |-> [a \in 1..nv |-> [i \in 1..no |-> Rnd(seed, 3, a, i, 0, 0)]],
   D2 |-> [a \in 1..nv |-> [b \in 1..nv |-> [i \in 1..no |-> [j \in 1..no |-> Ant(seed, 4, a, b, i, j)]]]],
   L1 |-> [i \in 1..no |-> [a \in 1..nv |-> Rnd(seed, 5, i, a, 0, 0)]],
   L2 |-> [i \in 1..no |-> [j \in 1..no |-> [a \in 1..nv |-> [b \in 1..nv |-> Ant(seed, 6, i, j, a, b)]]]],
   T1 |-> [a \in 1..nv |-> [i \in 1..no |-> Add(Rnd(seed, 7, a, i, 0, 0), N(t * Rnd(seed, 3, a, i, 0, 0)))]],
   T2 |-> [a \in 1..nv |-> [b \in 1..nv |-> [i \in 1..no |-> [j \in 1..no |->
            Add(Ant(seed, 8, a, b, i, j), N(t * Ant(seed, 4, a, b, i, j)))]]]]]

SmallSizes == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>}
MoreSizes  == SmallSizes \cup {<<1, 3>>, <<3, 1>>, <<2, 3>>, <<3, 2>>, <<3, 3>>}
Init == seed \in Seeds /\ size \in Sizes /\ sys = <<>>
Make == sys = <<>> /\ sys' = TLCEval(Made(size[1], size[2], 0)) /\ UNCHANGED <<seed, size>>
Spec == Init /\ [][Make]_vars

Lag(w, t) == FromResiduals(sys, <<>>, t, Energy(w), Residuals(w))
At(t)     == Lag(Machine(Made(size[1], size[2], t), 1), 1)

\* Two ways to the same number, for weights 1 and 3 of the reference.
Linear == sys # <<>> => \A t \in {1, 3} : LET w == TLCEval(Machine(sys, t)) IN
            Lag(w, t) = FromDensities(sys, <<>>, Densities(w))
Stationary == sys # <<>> => LET w == TLCEval(Machine(sys, 1)) IN
                Against(sys, <<>>, "D", Lambdas(w)) = Slope(At(-2), At(-1), At(1), At(2))
\* The blocks not returned by the library are Lambda itself.
LambdaBlocks == sys # <<>> => LET w == TLCEval(Machine(sys, 1)) IN
  /\ \A i \in 1..size[1] : \A a \in 1..size[2] : Gam1(w, i, size[1] + a) = sys.L1[i][a]
  /\ \A i, j \in 1..size[1] : \A a, b \in 1..size[2] : Gam2(w, i, j, size[1] + a, size[1] + b) = sys.L2[i][j][a][b]
=============================================================================
