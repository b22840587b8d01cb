--------------------------- MODULE CoupledCluster ---------------------------
(***************************************************************************)
(* The coupled-cluster machine.                                            *)
(*                                                                         *)
(* From a system it computes, one operator application per step,           *)
(*     ket  = e^T |0>                                                      *)
(*     hb   = e^-T H e^T |0>          (amplitude residuals and energy)     *)
(*     b0   = <0| (t + L)             (t the weight of the reference)      *)
(*     bra  = b0 e^-T                 (density matrices)                   *)
(*     bhb  = b0 e^-T H e^T           (Lambda residuals)                   *)
(* The exponential series end because T raises the excitation rank.        *)
(* `mode' selects the method: "full" is the above, "linear" keeps only the *)
(* first commutator, hb = (H + [H,T])|0>.                                  *)
(***************************************************************************)
EXTENDS System

\* One more term of an exponential series applied to a vector.
NextTerm(M, sgn, x, k) == Scale(Mul(N(sgn), Inv(k)), MatVec(M, x))
NextTermL(M, sgn, x, k) == Scale(Mul(N(sgn), Inv(k)), VecMat(x, M))

Ground(sys) == Occ(sys)

(* Readers.  `w' carries [sys, bas, pos, g, ket, hb, b0, bra, bhb].          *)
(* Determinants of other spin are not in the sector and have no component.  *)
Comp(w, vec, st) ==
  IF st.s = 0 THEN 0
  ELSE LET j == PosOf(w.pos, st.d) IN IF j = 0 THEN 0 ELSE Signed(st.s, vec[j])

\* Energy and amplitude residuals <mu| e^-T H e^T |0>.
Energy(w)             == w.hb[w.g]
Res1(w, a, i)         == Comp(w, w.hb, Act(Ex1(i, a), Det(Ground(w.sys))))
Res2(w, a, b, i, j)   == Comp(w, w.hb, Act(Ex2(i, j, a, b), Det(Ground(w.sys))))

(* The pieces of the energy: linear in the doubles, linear in the singles,  *)
(* and bilinear in two sets of singles, <0| H T1 U1 |0>.                    *)
Only1(sys, t) == [sys EXCEPT !.T1 = t,
   !.T2 = [a \in DOMAIN sys.T2 |-> [b \in DOMAIN sys.T2 |->
            [i \in 1..sys.no |-> [j \in 1..sys.no |-> 0]]]]]
Only2(sys)    == [sys EXCEPT !.T1 = [a \in DOMAIN sys.T1 |-> [i \in 1..sys.no |-> 0]]]
Piece(w, A, x) == LET y == MatVec(A, x) IN MatVec(w.H, y)[w.g]
PieceD(w)      == Piece(w, MatrixT(Only2(w.sys), w.bas), w.ket)
PieceS(w)      == Piece(w, MatrixT(Only1(w.sys, w.sys.T1), w.bas), w.ket)
PieceSS(w, u)  == Piece(w, MatrixT(Only1(w.sys, w.sys.T1), w.bas),
                        MatVec(MatrixT(Only1(w.sys, u), w.bas), w.ket))

\* Lambda residuals <0|(t+L) [Hbar, tau_mu] |0>.
LamOf(w, ops) ==
  LET direct == Comp(w, w.bhb, Act(ops, Det(Ground(w.sys))))
      disc   == FoldLeftDomain(LAMBDA acc, k :
                  LET st == Act(ops, Det(w.bas[k]))
                  IN IF w.hb[k] = 0 \/ st.s = 0 THEN acc
                     ELSE (acc + Mul(Comp(w, w.b0, st), w.hb[k])) % P,
                  0, w.bas)
  IN Sub(direct, disc)
Lam1(w, i, a)       == LamOf(w, Ex1(i, a))
Lam2(w, i, j, a, b) == LamOf(w, Ex2(i, j, a, b))

\* Normal-ordered reduced density matrices
\*   G1[p,q]     = <0|(t+L) e^-T {q+ p} e^T|0>
\*   G2[p,q,r,s] = <0|(t+L) e^-T {r+ s+ q p} e^T|0>
Expect(w, ops) ==
  LET nord == NormalOrder(ops, Ground(w.sys)) IN
  FoldLeftDomain(LAMBDA acc, k :
     IF w.ket[k] = 0 THEN acc
     ELSE LET st == Act(nord.ops, Det(w.bas[k]))
          IN IF st.s = 0 THEN acc
             ELSE LET j == PosOf(w.pos, st.d)
                  IN IF j = 0 THEN acc
                     ELSE (acc + Signed(st.s * nord.s, Mul(w.bra[j], w.ket[k]))) % P,
     0, w.bas)
Gam1(w, p, q)       == Expect(w, Ex1(p, q))
Gam2(w, p, q, r, s) == Expect(w, Ex2(p, q, r, s))
=============================================================================
