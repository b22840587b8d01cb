------------------------------- MODULE Relabel ------------------------------
(***************************************************************************)
(* What orbitals are called, how they are normalised and how those of a    *)
(* class are combined with each other is up to the user.                   *)
(*                                                                         *)
(* Orbitals come in classes: "o", "v" (and "O", "V" for beta).  A labelling*)
(* says for each class which combination of original orbitals stands at    *)
(* each position: `up' for the first half of the indices of a tensor, `dn' *)
(* for the second half, which changes inversely.  A combination is a       *)
(* sequence of terms <<class, index, coefficient>>.  `sc' is the power of  *)
(* two by which the orbital at a position has been scaled.                 *)
(*                                                                         *)
(* A quantity computed from relabelled arguments must be the relabelled    *)
(* quantity: nothing may depend on the order of the orbitals, on their     *)
(* normalisation or phase, on which combinations of them are taken, or on  *)
(* which spin is called alpha.                                             *)
(***************************************************************************)
EXTENDS Field, TLC

RootM1 == CHOOSE r \in 2..P : (r * r) % P = P - 1

Classes == {"o", "v", "O", "V"}
Plain(size) ==       \* size: number of orbitals of each class
  LET one == [c \in Classes |-> [k \in 1..size[c] |-> << <<c, k, 1>> >>]] IN
  [up |-> one, dn |-> one, sc |-> [c \in Classes |-> [k \in 1..size[c] |-> 0]]]

(* Combinations.                                                           *)
Power(b, k) == IF k >= 0 THEN Pow(b, k) ELSE Inv(Pow(b, -k))
Times(A, f) == [n \in 1..Len(A) |-> <<A[n][1], A[n][2], Mul(A[n][3], f)>>]
Coef(A, k) == LET S == {n \in 1..Len(A) : A[n][2] = k} IN IF S = {} THEN 0 ELSE A[CHOOSE n \in S : TRUE][3]
Plus(A, B) ==
  LET ks == SetToSeq({A[n][2] : n \in 1..Len(A)} \cup {B[n][2] : n \in 1..Len(B)})
      all == [n \in 1..Len(ks) |-> <<A[1][1], ks[n], Add(Coef(A, ks[n]), Coef(B, ks[n]))>>]
  IN SelectSeq(all, LAMBDA x : x[3] # 0)

(* Actions.                                                                *)
Swapped(seq, i, j) == [seq EXCEPT ![i] = seq[j], ![j] = seq[i]]
Cycled(seq, k)     == [i \in 1..Len(seq) |-> seq[((i - 1 + k) % Len(seq)) + 1]]
Other(c) == CASE c = "o" -> "O" [] c = "O" -> "o" [] c = "v" -> "V" [] c = "V" -> "v"
Scaled(lab, act, f) == [lab EXCEPT !.up[act.c][act.i] = Times(@, f), !.dn[act.c][act.i] = Times(@, Inv(f))]

\* The orbital at i gets that at j added, at the scale of i.
Share(lab, act) == Power(2, lab.sc[act.c][act.i] - lab.sc[act.c][act.j])

Do(lab, act) ==
  CASE act.k = "swap"  -> [lab EXCEPT !.up[act.c] = Swapped(@, act.i, act.j), !.dn[act.c] = Swapped(@, act.i, act.j),
                                      !.sc[act.c] = Swapped(@, act.i, act.j)]
    [] act.k = "cycle" -> [lab EXCEPT !.up[act.c] = Cycled(@, act.i), !.dn[act.c] = Cycled(@, act.i),
                                      !.sc[act.c] = Cycled(@, act.i)]
    [] act.k = "scale" -> [Scaled(lab, act, Power(2, act.j)) EXCEPT !.sc[act.c][act.i] = @ + act.j]
    [] act.k = "turn"  -> Scaled(lab, act, Pow(RootM1, act.j))
    [] act.k = "mix"   -> [lab EXCEPT
                             !.up[act.c][act.i] = Plus(@, Times(lab.up[act.c][act.j], Share(lab, act))),
                             !.dn[act.c][act.j] = Plus(@, Times(lab.dn[act.c][act.i], Neg(Share(lab, act))))]
    [] act.k = "spins" -> [f \in DOMAIN lab |-> [c \in Classes |-> lab[f][Other(c)]]]

(* Blocks.  A block [blk, val] has one class per axis.  The value of a      *)
(* relabelled block is found in the original block that holds the same      *)
(* orbitals, which may have the indices of a pair in the other order, at    *)
(* the price of a sign (`anti').                                            *)
Orders(n) == IF n = 2 THEN {<<1, 2>>} ELSE IF n = 0 THEN {<<>>}
             ELSE {<<1, 2, 3, 4>>, <<2, 1, 3, 4>>, <<1, 2, 4, 3>>, <<2, 1, 4, 3>>}
Sign(ord) == IF ord \in {<<2, 1, 3, 4>>, <<1, 2, 4, 3>>} THEN -1 ELSE 1

\* The class now standing under each class letter (whole classes move together).
ClassNow(lab, c) == IF Len(lab.up[c]) = 0 THEN c ELSE lab.up[c][1][1][1]

Source(lab, blk, base) ==       \* base: sequence of blocks of the same kind
  LET want == [k \in 1..Len(blk) |-> ClassNow(lab, blk[k])]
      fit  == {x \in (1..Len(base)) \X Orders(Len(blk)) :
                 \A k \in 1..Len(blk) : base[x[1]].blk[x[2][k]] = want[k]}
      best == {x \in fit : x[2] = [k \in 1..Len(blk) |-> k]}
  IN IF best # {} THEN CHOOSE x \in best : TRUE ELSE IF fit # {} THEN CHOOSE x \in fit : TRUE ELSE <<0, <<>>>>

Same0(val, base) == val = base
Combine(A, f(_)) == IF Len(A) = 1 THEN Mul(A[1][3], f(A[1][2]))
                ELSE FoldLeft(LAMBDA x, t : Add(x, Mul(t[3], f(t[2]))), 0, A)
Same2(lab, blk, val, base) ==
  LET A == lab.up[blk[1]]  B == lab.dn[blk[2]] IN
  \A p \in 1..Len(A) : \A q \in 1..Len(B) :
     val[p][q] = Combine(A[p], LAMBDA x : Combine(B[q], LAMBDA y : base[x][y]))

Same4(lab, blk, val, base, ord) ==
  LET A == lab.up[blk[1]]  B == lab.up[blk[2]]  C == lab.dn[blk[3]]  D == lab.dn[blk[4]]
      sg == Sign(ord)
      \* position of the orbitals on the axes of the original block
      At(x, y, z, w) == LET row == IF ord[1] = 1 THEN base[x][y] ELSE base[y][x] IN
                        IF ord[3] = 3 THEN row[z][w] ELSE row[w][z] IN
  \A p \in 1..Len(A) : \A q \in 1..Len(B) : \A r \in 1..Len(C) : \A s \in 1..Len(D) :
    LET a == A[p]  b == B[q]  c == C[r]  d == D[s] IN
    val[p][q][r][s] = Signed(sg,
      IF Len(a) + Len(b) + Len(c) + Len(d) = 4
      THEN Mul(At(a[1][2], b[1][2], c[1][2], d[1][2]), Mul(Mul(a[1][3], b[1][3]), Mul(c[1][3], d[1][3])))
      ELSE Combine(a, LAMBDA x : Combine(b, LAMBDA y : Combine(c, LAMBDA z : Combine(d, LAMBDA w : At(x, y, z, w))))))

Same(lab, blk, val, base) ==
  LET src == Source(lab, blk, base) IN
  IF src[1] = 0 THEN FALSE
  ELSE IF Len(blk) = 0 THEN Same0(val, base[src[1]].val)
  ELSE IF Len(blk) = 2 THEN Same2(lab, blk, val, base[src[1]].val)
  ELSE Same4(lab, blk, val, base[src[1]].val, src[2])
=============================================================================
