-------------------------------- MODULE Holes -------------------------------
(***************************************************************************)
(* Holes instead of electrons.                                             *)
(*                                                                         *)
(* A hole is what is there when an electron is not: calling the empty      *)
(* orbitals occupied and the occupied ones empty, for both spins or for    *)
(* one of them, and annihilators creators, describes the same states and   *)
(* operators.  In a normal-ordered product every index that refers to an   *)
(* exchanged orbital moves to the other half of the indices, each pair of  *)
(* them at the price of a sign.  Coupled-cluster theory is normal-ordered, *)
(* so energies stay and all tensors change in this one way.                *)
(***************************************************************************)
EXTENDS Field

(* Which index of the original tensor stands where, given which ones refer *)
(* to exchanged orbitals: <<positions, sign>>; <<>> if the tensor has no    *)
(* such elements, for the numbers of electrons would not fit.               *)
Upper(fl) == {k \in 1..Len(fl) : fl[k] /\ k <= Len(fl) \div 2}
Lower(fl) == {k \in 1..Len(fl) : fl[k] /\ k > Len(fl) \div 2}
Paired(fl) == Cardinality(Upper(fl)) = Cardinality(Lower(fl))

Exchange(fl) ==
  LET n == Len(fl)
      up == SetToSortSeq(Upper(fl), <)
      dn == SetToSortSeq(Lower(fl), <)
      to(k) == IF ~fl[k] THEN k
               ELSE IF k <= n \div 2 THEN dn[CHOOSE j \in 1..Len(up) : up[j] = k]
               ELSE up[CHOOSE j \in 1..Len(dn) : dn[j] = k]
  IN <<[k \in 1..n |-> to(k)], IF Len(up) % 2 = 1 THEN -1 ELSE 1>>

(* Blocks [blk, val] with a class letter for each axis: "o", "v", and "O",  *)
(* "V" for beta.  `side' is the set of letters whose orbitals have been     *)
(* exchanged.                                                               *)
Turned(c) == CASE c = "o" -> "v" [] c = "v" -> "o" [] c = "O" -> "V" [] c = "V" -> "O"
OtherSpin(c) == CASE c = "o" -> "O" [] c = "v" -> "V" [] c = "O" -> "o" [] c = "V" -> "v"
Flags(side, blk) == [k \in 1..Len(blk) |-> blk[k] \in side]

Orders(n) == IF n = 2 THEN {<<1, 2>>} ELSE IF n = 0 THEN {<<>>}
             ELSE {<<1, 2, 3, 4>>, <<2, 1, 3, 4>>, <<1, 2, 4, 3>>, <<2, 1, 4, 3>>}
OrderSign(ord) == IF ord \in {<<2, 1, 3, 4>>, <<1, 2, 4, 3>>} THEN -1 ELSE 1

(* The original block with the same elements: <<number, order of its axes>>. *)
(* Closed-shell results are the same with the spins exchanged.               *)
Partner(side, closed, blk, base) ==
  LET x == Exchange(Flags(side, blk))
      want == [k \in 1..Len(blk) |-> LET c == blk[x[1][k]] IN IF c \in side THEN Turned(c) ELSE c]
      flip == [k \in 1..Len(blk) |-> OtherSpin(want[k])]
      fit  == {y \in (1..Len(base)) \X Orders(Len(blk)) :
                 LET b == [k \in 1..Len(base[y[1]].blk) |-> base[y[1]].blk[IF Len(base[y[1]].blk) = Len(blk)
                                                                        THEN y[2][k] ELSE k]] IN
                 b = want \/ (closed /\ b = flip)}
  IN IF fit = {} THEN <<>> ELSE CHOOSE y \in fit : TRUE

At(val, ix) == IF Len(ix) = 0 THEN val ELSE IF Len(ix) = 2 THEN val[ix[1]][ix[2]]
               ELSE val[ix[1]][ix[2]][ix[3]][ix[4]]

Elements(val, n) ==
  IF n = 0 THEN {<<>>}
  ELSE IF n = 2 THEN UNION {{<<p, q>> : q \in 1..Len(val[p])} : p \in 1..Len(val)}
  ELSE UNION {UNION {UNION {{<<p, q, r, s>> : s \in 1..Len(val[p][q][r])}
              : r \in 1..Len(val[p][q])} : q \in 1..Len(val[p])} : p \in 1..Len(val)}

\* Blocks of which one axis has no orbitals have nothing to agree on.
Agrees(side, closed, blk, val, base) ==
  LET x == Exchange(Flags(side, blk))
      y == Partner(side, closed, blk, base)
      sg == x[2] * OrderSign(y[2])
      n == Len(blk)
      \* axis k of the original block is axis from[k] of this one
      from == [k \in 1..n |-> x[1][CHOOSE j \in 1..n : y[2][j] = k]]
  IN y # <<>> /\ \A ix \in Elements(val, n) :
       At(val, ix) = Signed(sg, At(base[y[1]].val, [k \in 1..n |-> ix[from[k]]]))
=============================================================================
