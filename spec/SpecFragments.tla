---------------------------- MODULE SpecFragments ---------------------------
(***************************************************************************)
(* The coupled-cluster machine is extensive: for two fragments of the      *)
(* sizes of the configuration, placed in the whole in every possible way,  *)
(* all it says about the whole fits what it says about the fragments.      *)
(***************************************************************************)
EXTENDS Fragments, Machine

CONSTANTS Seeds, Sizes          \* Sizes: pairs of <<occupied, virtual>>
VARIABLES seed, pair, own, sys
vars == <<seed, pair, own, sys>>

SmallPairs == {<<(<<1, 1>>), (<<1, 1>>)>>, <<(<<1, 1>>), (<<1, 2>>)>>}
MorePairs  == SmallPairs \cup {<<(<<1, 2>>), (<<1, 2>>)>>, <<(<<2, 1>>), (<<1, 1>>)>>, <<(<<2, 2>>), (<<1, 1>>)>>}

\* Which fragment each orbital of a class belongs to.
Ways(m, n) == {f \in [1..(m + n) -> {1, 2}] : Cardinality({k \in 1..(m + n) : f[k] = 1}) = m}
Own(f) == [k \in DOMAIN f |-> <<f[k], Cardinality({j \in 1..k : f[j] = f[k]})>>]

Frag(f) ==
  LET no == pair[f][1]  nv == pair[f][2]  n == no + nv  z == seed * 10 + f IN
  [n |-> n, no |-> no, na |-> no, nb |-> 0, spin |-> [p \in 1..n |-> "a"],
   F  |-> [p \in 1..n |-> [q \in 1..n |-> Rnd(z, 1, p, q, 0, 0)]],
   V  |-> [p \in 1..n |-> [q \in 1..n |-> [r \in 1..n |-> [s \in 1..n |-> Ant(z, 2, p, q, r, s)]]]],
   L1 |-> [i \in 1..no |-> [a \in 1..nv |-> Rnd(z, 5, i, a, 0, 0)]],
   L2 |-> [i \in 1..no |-> [j \in 1..no |-> [a \in 1..nv |-> [b \in 1..nv |-> Ant(z, 6, i, j, a, b)]]]],
   T1 |-> [a \in 1..nv |-> [i \in 1..no |-> Rnd(z, 7, a, i, 0, 0)]],
   T2 |-> [a \in 1..nv |-> [b \in 1..nv |-> [i \in 1..no |-> [j \in 1..no |-> Ant(z, 8, a, b, i, j)]]]]]

Whole(A, B) ==
  LET fr == <<A, B>>
      no == Len(own["o"])  nv == Len(own["v"])  n == no + nv
      w(p) == IF p <= no THEN own["o"][p] ELSE LET x == own["v"][p - no] IN <<x[1], fr[x[1]].no + x[2]>>
      o(i) == own["o"][i]
      v(a) == own["v"][a]
  IN [n |-> n, no |-> no, na |-> no, nb |-> 0, spin |-> [p \in 1..n |-> "a"],
      F |-> [p \in 1..n |-> [q \in 1..n |->
              IF w(p)[1] # w(q)[1] THEN 0 ELSE fr[w(p)[1]].F[w(p)[2]][w(q)[2]]]],
      V |-> [p \in 1..n |-> [q \in 1..n |-> [r \in 1..n |-> [s \in 1..n |->
              IF {w(p)[1], w(q)[1], w(r)[1], w(s)[1]} # {w(p)[1]} THEN 0
              ELSE fr[w(p)[1]].V[w(p)[2]][w(q)[2]][w(r)[2]][w(s)[2]]]]]],
      T1 |-> [a \in 1..nv |-> [i \in 1..no |->
              IF v(a)[1] # o(i)[1] THEN 0 ELSE fr[v(a)[1]].T1[v(a)[2]][o(i)[2]]]],
      L1 |-> [i \in 1..no |-> [a \in 1..nv |->
              IF v(a)[1] # o(i)[1] THEN 0 ELSE fr[v(a)[1]].L1[o(i)[2]][v(a)[2]]]],
      T2 |-> [a \in 1..nv |-> [b \in 1..nv |-> [i \in 1..no |-> [j \in 1..no |->
              IF {v(a)[1], v(b)[1], o(i)[1], o(j)[1]} # {v(a)[1]} THEN 0
              ELSE fr[v(a)[1]].T2[v(a)[2]][v(b)[2]][o(i)[2]][o(j)[2]]]]]],
      L2 |-> [i \in 1..no |-> [j \in 1..no |-> [a \in 1..nv |-> [b \in 1..nv |->
              IF {v(a)[1], v(b)[1], o(i)[1], o(j)[1]} # {v(a)[1]} THEN 0
              ELSE fr[v(a)[1]].L2[o(i)[2]][o(j)[2]][v(a)[2]][v(b)[2]]]]]]]

Init == /\ seed \in Seeds /\ pair \in Sizes /\ sys = <<>>
        /\ \E f \in Ways(pair[1][1], pair[2][1]) : \E g \in Ways(pair[1][2], pair[2][2]) :
             own = [o |-> Own(f), v |-> Own(g)]
Make == sys = <<>> /\ sys' = <<TLCEval(Frag(1)), TLCEval(Frag(2))>> /\ UNCHANGED <<seed, pair, own>>
Spec == Init /\ [][Make]_vars

Says(c) == LET w == TLCEval(Machine(c, 1)) IN
           <<[val |-> Energy(w)]>> \o Residuals(w) \o Lambdas(w) \o Densities(w)
Kinds == <<"E", "R1", "R2", "M1", "M2", "G1", "G1", "G1", "G1", "G2", "G2", "G2", "G2", "G2", "G2", "G2", "G2", "G2">>
Blks == <<<<>>, <<"v", "o">>, <<"v", "v", "o", "o">>, <<"o", "v">>, <<"o", "o", "v", "v">>,
          <<"v", "v">>, <<"o", "o">>, <<"v", "o">>, <<"o", "v">>,
          <<"v", "v", "v", "v">>, <<"v", "o", "v", "v">>, <<"v", "v", "v", "o">>, <<"v", "o", "v", "o">>,
          <<"v", "v", "o", "o">>, <<"o", "o", "v", "o">>, <<"o", "v", "o", "o">>, <<"o", "o", "o", "o">>,
          <<"o", "o", "v", "v">>>>

Extensive == sys # <<>> =>
  LET a == TLCEval(Says(sys[1]))  b == TLCEval(Says(sys[2]))  ab == TLCEval(Says(TLCEval(Whole(sys[1], sys[2]))))
  IN \A k \in 1..Len(Kinds) : Fits(Kinds[k], own, Blks[k], ab[k].val, <<a[k].val, b[k].val>>)
=============================================================================
