------------------------------- MODULE Machine ------------------------------
(***************************************************************************)
(* The coupled-cluster machine run to its end in one step, for models that *)
(* compare what it says about several systems, and everything it says as   *)
(* blocks [ax, val] over the orbitals O (occupied) and W (virtual).        *)
(***************************************************************************)
EXTENDS CoupledCluster, TLC

(* Pseudo-random field elements, and antisymmetric ones.                    *)
Rnd(seed, tag, p, q, r, s) == N(Pow(N(seed * 7919 + tag * 104 + 1009 * p + 313 * q + 37 * r + 11 * s + 17), 5) + p * q + r * 3 + s * s)
Ant(seed, tag, p, q, r, s) ==
  IF p = q \/ r = s THEN 0
  ELSE LET v == Rnd(seed, tag, IF p < q THEN p ELSE q, IF p < q THEN q ELSE p, IF r < s THEN r ELSE s, IF r < s THEN s ELSE r)
       IN IF (p < q) = (r < s) THEN v ELSE Neg(v)

RECURSIVE Series(_, _, _, _), SeriesL(_, _, _, _)
Series(M, sgn, x, k)  == LET y == TLCEval(NextTerm(M, sgn, x, k)) IN
                         IF IsZero(y) THEN x ELSE VecAdd(x, Series(M, sgn, y, k + 1))
SeriesL(M, sgn, x, k) == LET y == TLCEval(NextTermL(M, sgn, x, k)) IN
                         IF IsZero(y) THEN x ELSE VecAdd(x, SeriesL(M, sgn, y, k + 1))

Machine(c, t) ==
  LET bas == TLCEval(BasisOf(c))
      pos == TLCEval(Positions(bas))
      g   == PosOf(pos, Ground(c))
      T   == TLCEval(MatrixT(c, bas))
      H   == TLCEval(MatrixH(c, bas))
      L   == TLCEval(MatrixL(c, bas))
      e   == Unit(Len(bas), g)
      ket == TLCEval(Series(T, 1, e, 1))
      hb  == TLCEval(Series(T, -1, MatVec(H, ket), 1))
      b0  == TLCEval(VecAdd(Scale(t, e), L[g]))
      bra == TLCEval(SeriesL(T, -1, b0, 1))
  IN [sys |-> c, bas |-> bas, pos |-> pos, g |-> g, ket |-> ket, hb |-> hb, b0 |-> b0, bra |-> bra,
      bhb |-> TLCEval(SeriesL(T, 1, VecMat(bra, H), 1))]

OccSeq(c)  == [i \in 1..c.no |-> i]
VirtSeq(c) == [a \in 1..(c.n - c.no) |-> c.no + a]
Blk2(f(_, _), A, B) == [ax |-> <<A, B>>, val |-> [p \in 1..Len(A) |-> [q \in 1..Len(B) |-> f(A[p], B[q])]]]
Blk4(f(_, _, _, _), A, B, C, D) ==
  [ax |-> <<A, B, C, D>>,
   val |-> [p \in 1..Len(A) |-> [q \in 1..Len(B) |-> [r \in 1..Len(C) |-> [s \in 1..Len(D) |->
              f(A[p], B[q], C[r], D[s])]]]]]
Residuals(w) == LET O == OccSeq(w.sys)  W == VirtSeq(w.sys) IN
  <<Blk2(LAMBDA a, i : Res1(w, a, i), W, O), Blk4(LAMBDA a, b, i, j : Res2(w, a, b, i, j), W, W, O, O)>>
Lambdas(w) == LET O == OccSeq(w.sys)  W == VirtSeq(w.sys) IN
  <<Blk2(LAMBDA i, a : Lam1(w, i, a), O, W), Blk4(LAMBDA i, j, a, b : Lam2(w, i, j, a, b), O, O, W, W)>>
Densities(w) ==
  LET O == OccSeq(w.sys)  W == VirtSeq(w.sys)
      g1(p, q) == Gam1(w, p, q)
      g2(p, q, r, s) == Gam2(w, p, q, r, s) IN
  <<Blk2(g1, W, W), Blk2(g1, O, O), Blk2(g1, W, O), Blk2(g1, O, W),
    Blk4(g2, W, W, W, W), Blk4(g2, W, O, W, W), Blk4(g2, W, W, W, O), Blk4(g2, W, O, W, O),
    Blk4(g2, W, W, O, O), Blk4(g2, O, O, W, O), Blk4(g2, O, W, O, O), Blk4(g2, O, O, O, O),
    Blk4(g2, O, O, W, W)>>
=============================================================================
