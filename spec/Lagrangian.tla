----------------------------- MODULE Lagrangian -----------------------------
(***************************************************************************)
(* One function stands behind energies, residuals, Lambda residuals and    *)
(* density matrices,                                                       *)
(*    Lag(T, L, H) = <0| (t + L) e^-T H e^T |0>  =  t E + <L, R>           *)
(* Its derivative by L are the residuals R, its derivative by T the Lambda *)
(* residuals (t = 1), and its derivative by H the density matrices, with   *)
(* respect to which it is linear.                                          *)
(*                                                                         *)
(* A block is [ax, val]: the orbitals along each axis and the values.      *)
(* Contract sums it against a tensor over every index combination of the   *)
(* spin-orbital system that the block stands for.  In the forms "g" and    *)
(* "u" these are its antisymmetric images.  In the closed-shell form "r"   *)
(* orbitals are spatial and a two-body block is the alpha-beta one.        *)
(***************************************************************************)
EXTENDS System

Sum2(o, X(_, _)) ==
  FoldLeftDomain(LAMBDA a1, p : FoldLeftDomain(LAMBDA a2, q :
      (a2 + o.val[p][q] * X(o.ax[2][q], o.ax[1][p])) % P, a1, o.ax[2]), 0, o.ax[1])

Sum4(o, X(_, _, _, _)) ==
  FoldLeftDomain(LAMBDA a1, p : FoldLeftDomain(LAMBDA a2, q :
  FoldLeftDomain(LAMBDA a3, r : FoldLeftDomain(LAMBDA a4, s :
      (a4 + o.val[p][q][r][s] * X(o.ax[3][r], o.ax[4][s], o.ax[1][p], o.ax[2][q])) % P,
      a3, o.ax[4]), a2, o.ax[3]), a1, o.ax[2]), 0, o.ax[1])

\* Orderings of a pair that are not in the block itself.
Twice(x, y) == IF x = y THEN 1 ELSE 2

Contract(form, o, X1(_, _), X2(_, _, _, _)) ==
  IF Len(o.ax) = 2
  THEN (IF form = "r" THEN 2 ELSE 1) * Sum2(o, X1)
  ELSE IF form = "r"
  THEN Mul(IF o.ax[1] = o.ax[2] /\ o.ax[3] = o.ax[4] THEN 1 ELSE 2,
           Sum4(o, LAMBDA r, s, p, q : Sub(2 * X2(r, s, p, q), X2(r, s, q, p))))
  ELSE Mul(Mul(Twice(o.ax[1], o.ax[2]) * Twice(o.ax[3], o.ax[4]), Mul(Half, Half)), Sum4(o, X2))

ContractAll(form, outs, X1(_, _), X2(_, _, _, _)) ==
  FoldLeft(LAMBDA acc, o : (acc + Contract(form, o, X1, X2)) % P, 0, outs)

(***************************************************************************)
(* Entries of the tensors of a case by the orbitals of its blocks.  x is   *)
(* "H" (Fock matrix and integrals), "L" (Lambda), or "D" (a direction in   *)
(* the space of T).                                                        *)
(***************************************************************************)
One(c, lay, x, p, q) ==
  IF c.form = "u"
  THEN LET sp == lay.spin  ix == lay.ix  fx == lay.full IN
       CASE x = "H" -> Spin1(sp[p], sp[q], c.Fa, c.Fb, fx[p], fx[q])
         [] x = "L" -> Spin1(sp[p], sp[q], c.L1a, c.L1b, ix[p], ix[q])
         [] x = "D" -> Spin1(sp[p], sp[q], c.D1a, c.D1b, ix[p], ix[q])
  ELSE CASE x = "H" -> c.F[p][q]
         [] x = "L" -> c.L1[p][q - c.no]
         [] x = "D" -> c.D1[p - c.no][q]

Two(c, lay, x, p, q, r, s) ==
  IF c.form = "u"
  THEN LET sp == lay.spin  ix == lay.ix  fx == lay.full IN
       CASE x = "H" -> Spin2(sp[p], sp[q], sp[r], sp[s],
                             LAMBDA w, y, z, u : At4(c.Va, w, y, z, u), LAMBDA w, y, z, u : At4(c.Vab, w, y, z, u),
                             LAMBDA w, y, z, u : At4(c.Vb, w, y, z, u), fx[p], fx[q], fx[r], fx[s])
         [] x = "L" -> Spin2(sp[p], sp[q], sp[r], sp[s],
                             LAMBDA w, y, z, u : At4(c.L2aa, w, y, z, u), LAMBDA w, y, z, u : At4(c.L2ab, w, y, z, u),
                             LAMBDA w, y, z, u : At4(c.L2bb, w, y, z, u), ix[p], ix[q], ix[r], ix[s])
         [] x = "D" -> Spin2(sp[p], sp[q], sp[r], sp[s],
                             LAMBDA w, y, z, u : At4(c.D2aa, w, y, z, u), LAMBDA w, y, z, u : At4(c.D2ab, w, y, z, u),
                             LAMBDA w, y, z, u : At4(c.D2bb, w, y, z, u), ix[p], ix[q], ix[r], ix[s])
  ELSE CASE x = "H" -> c.V[p][q][r][s]
         [] x = "L" -> c.L2[p][q][r - c.no][s - c.no]
         [] x = "D" -> c.D2[p - c.no][q - c.no][r][s]

LayoutOf(c) == IF c.form = "u" THEN Layout(c.noa, c.nva, c.nob, c.nvb) ELSE <<>>

Against(c, lay, x, outs) ==
  ContractAll(c.form, outs, LAMBDA p, q : One(c, lay, x, p, q),
              LAMBDA p, q, r, s : Two(c, lay, x, p, q, r, s))

\* From an energy and residuals, with weight t of the reference.
FromResiduals(c, lay, t, E, R) == Add(Mul(N(t), E), Against(c, lay, "L", R))

\* From density matrices (all blocks, Lambda itself being the last ones).
FromDensities(c, lay, G) == Against(c, lay, "H", G)

(* The derivative at 0 of a polynomial of degree four along a line, from    *)
(* its values at -2, -1, 1, 2.                                              *)
Slope(m2, m1, p1, p2) == Mul(Sub(8 * Sub(p1, m1), Sub(p2, m2)), Inv(12))
=============================================================================
