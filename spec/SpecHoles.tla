------------------------------ MODULE SpecHoles -----------------------------
(***************************************************************************)
(* The coupled-cluster machine says the same about electrons and about     *)
(* holes: for small systems with pseudo-random entries, orbitals of both   *)
(* spins or of one of them exchanged, its energy, residuals, Lambda        *)
(* residuals and density matrices change by the rule of Holes.tla.         *)
(***************************************************************************)
EXTENDS Holes, Machine

CONSTANTS Seeds, Sizes, Weights
VARIABLES seed, size, side, sys
vars == <<seed, size, side, sys>>

SmallSizes == {<<1, 1, 0, 0>>, <<1, 2, 0, 0>>, <<2, 1, 0, 0>>, <<1, 1, 1, 1>>, <<2, 2, 0, 0>>}
MoreSizes  == SmallSizes \cup {<<1, 2, 1, 1>>, <<1, 3, 0, 0>>, <<2, 1, 1, 1>>, <<1, 2, 1, 2>>, <<2, 3, 0, 0>>}

(* Orbitals are in the order occupied alpha and beta, virtual alpha, beta.  *)
Count(z) == z[1] + z[2] + z[3] + z[4]
Occs(z)  == z[1] + z[3]
Spins(z) == [p \in 1..Count(z) |-> IF p <= z[1] THEN "a" ELSE IF p <= Occs(z) THEN "b"
                                   ELSE IF p <= Occs(z) + z[2] THEN "a" ELSE "b"]
Index(z) == [p \in 1..Count(z) |-> IF p <= z[1] THEN p ELSE IF p <= Occs(z) THEN p - z[1]
                                   ELSE IF p <= Occs(z) + z[2] THEN p - Occs(z) ELSE p - Occs(z) - z[2]]

(* The size and, for each orbital, the original one it is.                  *)
Seen(z, sd) == <<IF "a" \in sd THEN z[2] ELSE z[1], IF "a" \in sd THEN z[1] ELSE z[2],
                 IF "b" \in sd THEN z[4] ELSE z[3], IF "b" \in sd THEN z[3] ELSE z[4]>>
Orig(z, sd) ==
  LET y == Seen(z, sd) IN
  [p \in 1..Count(y) |->
     LET occ == (p <= Occs(y)) # (Spins(y)[p] \in sd) IN
     CHOOSE q \in 1..Count(z) : /\ (q <= Occs(z)) = occ /\ Spins(z)[q] = Spins(y)[p]
                                /\ Index(z)[q] = Index(y)[p]]

(* An operator with elements f, seen with the orbitals `or' exchanged where *)
(* `ex'.                                                                    *)
Seen2(f(_, _), ex, or, p, q) ==
  LET fl == <<ex[p], ex[q]>>  x == Exchange(fl)  i == <<or[p], or[q]>> IN
  IF ~Paired(fl) THEN 0 ELSE Signed(x[2], f(i[x[1][1]], i[x[1][2]]))
Seen4(f(_, _, _, _), ex, or, p, q, r, s) ==
  LET fl == <<ex[p], ex[q], ex[r], ex[s]>>  i == <<or[p], or[q], or[r], or[s]>> IN
  IF ~Paired(fl) THEN 0
  ELSE LET x == Exchange(fl) IN Signed(x[2], f(i[x[1][1]], i[x[1][2]], i[x[1][3]], i[x[1][4]]))

SameSpin(sp, p, q, r, s) == (sp[p] = sp[r] /\ sp[q] = sp[s]) \/ (sp[p] = sp[s] /\ sp[q] = sp[r])

\* A system whose operators are given by their elements over all orbitals.
Given(z, F(_, _), V(_, _, _, _), T1(_, _), T2(_, _, _, _), L1(_, _), L2(_, _, _, _)) ==
  LET n == Count(z)  no == Occs(z)  nv == n - no IN
  [n |-> n, no |-> no, na |-> z[1], nb |-> z[3], spin |-> Spins(z),
   F  |-> [p \in 1..n |-> [q \in 1..n |-> F(p, q)]],
   V  |-> [p \in 1..n |-> [q \in 1..n |-> [r \in 1..n |-> [s \in 1..n |-> V(p, q, r, s)]]]],
   T1 |-> [a \in 1..nv |-> [i \in 1..no |-> T1(no + a, i)]],
   T2 |-> [a \in 1..nv |-> [b \in 1..nv |-> [i \in 1..no |-> [j \in 1..no |-> T2(no + a, no + b, i, j)]]]],
   L1 |-> [i \in 1..no |-> [a \in 1..nv |-> L1(i, no + a)]],
   L2 |-> [i \in 1..no |-> [j \in 1..no |-> [a \in 1..nv |-> [b \in 1..nv |-> L2(i, j, no + a, no + b)]]]]]

E1(tag, p, q) == IF Spins(size)[p] # Spins(size)[q] THEN 0 ELSE Rnd(seed, tag, p, q, 0, 0)
E2(tag, p, q, r, s) == IF ~SameSpin(Spins(size), p, q, r, s) THEN 0 ELSE Ant(seed, tag, p, q, r, s)

Electrons == Given(size, LAMBDA p, q : E1(1, p, q), LAMBDA p, q, r, s : E2(2, p, q, r, s),
                         LAMBDA p, q : E1(7, p, q), LAMBDA p, q, r, s : E2(8, p, q, r, s),
                         LAMBDA p, q : E1(5, p, q), LAMBDA p, q, r, s : E2(6, p, q, r, s))
Ex == LET y == Seen(size, side) IN [p \in 1..Count(y) |-> Spins(y)[p] \in side]
Or == Orig(size, side)
InHoles(c) ==
  LET ex == TLCEval(Ex)  or == TLCEval(Or) IN
  Given(Seen(size, side),
        LAMBDA p, q : Seen2(LAMBDA x, y : E1(1, x, y), ex, or, p, q),
        LAMBDA p, q, r, s : Seen4(LAMBDA x, y, z, w : E2(2, x, y, z, w), ex, or, p, q, r, s),
        LAMBDA p, q : Seen2(LAMBDA x, y : E1(7, x, y), ex, or, p, q),
        LAMBDA p, q, r, s : Seen4(LAMBDA x, y, z, w : E2(8, x, y, z, w), ex, or, p, q, r, s),
        LAMBDA p, q : Seen2(LAMBDA x, y : E1(5, x, y), ex, or, p, q),
        LAMBDA p, q, r, s : Seen4(LAMBDA x, y, z, w : E2(6, x, y, z, w), ex, or, p, q, r, s))

Init == seed \in Seeds /\ size \in Sizes /\ side \in {{"a"}, {"b"}, {"a", "b"}} /\ sys = <<>>
        /\ (size[3] + size[4] = 0 => side = {"a", "b"})
Make == sys = <<>> /\ sys' = <<TLCEval(Electrons), TLCEval(InHoles(1))>> /\ UNCHANGED <<seed, size, side>>
Spec == Init /\ [][Make]_vars

Quiet2(f(_, _), g(_, _), A, B, ex, or) ==
  \A p \in A : \A q \in B : g(p, q) = Seen2(f, ex, or, p, q)
Quiet4(f(_, _, _, _), g(_, _, _, _), A, B, C, D, ex, or) ==
  \A p \in A : \A q \in B : \A r \in C : \A s \in D : g(p, q, r, s) = Seen4(f, ex, or, p, q, r, s)

SameResults == sys # <<>> => \A t \in Weights :
  LET e == TLCEval(Machine(sys[1], t))  h == TLCEval(Machine(sys[2], t))
      ex == TLCEval(Ex)  or == TLCEval(Or)
      O == 1..sys[2].no  W == (sys[2].no + 1)..sys[2].n  A == 1..sys[2].n
  IN /\ Energy(e) = Energy(h)
     /\ Quiet2(LAMBDA a, i : Res1(e, a, i), LAMBDA a, i : Res1(h, a, i), W, O, ex, or)
     /\ Quiet4(LAMBDA a, b, i, j : Res2(e, a, b, i, j), LAMBDA a, b, i, j : Res2(h, a, b, i, j), W, W, O, O, ex, or)
     /\ Quiet2(LAMBDA i, a : Lam1(e, i, a), LAMBDA i, a : Lam1(h, i, a), O, W, ex, or)
     /\ Quiet4(LAMBDA i, j, a, b : Lam2(e, i, j, a, b), LAMBDA i, j, a, b : Lam2(h, i, j, a, b), O, O, W, W, ex, or)
     /\ Quiet2(LAMBDA p, q : Gam1(e, p, q), LAMBDA p, q : Gam1(h, p, q), A, A, ex, or)
     /\ Quiet4(LAMBDA p, q, r, s : Gam2(e, p, q, r, s), LAMBDA p, q, r, s : Gam2(h, p, q, r, s), A, A, A, A, ex, or)

\* Looking twice shows the original.
Twice == \A p \in 1..Count(size) :
           Or[Orig(Seen(size, side), side)[p]] = p
=============================================================================
