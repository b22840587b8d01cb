----------------------------- MODULE SpecLinear -----------------------------
(***************************************************************************)
(* The coupled-cluster machine is linear in the Hamiltonian and of first   *)
(* degree in Lambda: shown for combinations of two pseudo-random systems   *)
(* with all small coefficients.                                            *)
(***************************************************************************)
EXTENDS Linear, Machine

CONSTANTS Seeds, Sizes, Values
VARIABLES seed, size, cs, what, sys
vars == <<seed, size, cs, what, sys>>

SmallSizes == {<<1, 1>>, <<1, 2>>, <<2, 1>>}
MoreSizes  == SmallSizes \cup {<<2, 2>>}
Few == {-1, 0, 2}
More == -1..3

\* H and L may come from different places: hz, lz are combinations of seeds.
Mix(f(_), cf) == Add(Mul(N(cf[1]), f(seed * 10 + 1)), Mul(N(cf[2]), f(seed * 10 + 2)))
Made(hc, lc) ==
  LET no == size[1]  nv == size[2]  n == no + nv  z == seed * 10 IN
  [n |-> n, no |-> no, na |-> no, nb |-> 0, spin |-> [p \in 1..n |-> "a"],
   F  |-> [p \in 1..n |-> [q \in 1..n |-> Mix(LAMBDA x : Rnd(x, 1, p, q, 0, 0), hc)]],
   V  |-> [p \in 1..n |-> [q \in 1..n |-> [r \in 1..n |-> [s \in 1..n |->
            Mix(LAMBDA x : Ant(x, 2, p, q, r, s), hc)]]]],
   L1 |-> [i \in 1..no |-> [a \in 1..nv |-> Mix(LAMBDA x : Rnd(x, 5, i, a, 0, 0), lc)]],
   L2 |-> [i \in 1..no |-> [j \in 1..no |-> [a \in 1..nv |-> [b \in 1..nv |->
            Mix(LAMBDA x : Ant(x, 6, i, j, a, b), lc)]]]],
   T1 |-> [a \in 1..nv |-> [i \in 1..no |-> Rnd(z, 7, a, i, 0, 0)]],
   T2 |-> [a \in 1..nv |-> [b \in 1..nv |-> [i \in 1..no |-> [j \in 1..no |-> Ant(z, 8, a, b, i, j)]]]]]

One == <<1, 0>>
Two == <<0, 1>>
Three == IF what = "H" THEN <<Made(One, One), Made(Two, One), Made(cs, One)>>
         ELSE <<Made(One, One), Made(One, Two), Made(One, cs)>>

Init == /\ seed \in Seeds /\ size \in Sizes /\ what \in {"H", "L"} /\ sys = <<>>
        /\ cs \in {c \in Values \X Values : Coefficients(what, c)}
Make == sys = <<>> /\ sys' = TLCEval(Three) /\ UNCHANGED <<seed, size, cs, what>>
Spec == Init /\ [][Make]_vars

Says(c) == LET w == TLCEval(Machine(c, 3)) IN
           IF what = "H" THEN <<[ax |-> <<>>, val |-> Energy(w)]>> \o Residuals(w) \o Lambdas(w)
           ELSE Lambdas(w) \o Densities(w)

Combines == sys # <<>> =>
  LET s == TLCEval([k \in 1..3 |-> Says(sys[k])]) IN
  \A j \in 1..Len(s[1]) : IsCombination(Len(s[3][j].ax), s[3][j].val, <<s[1][j].val, s[2][j].val>>, cs)
=============================================================================
