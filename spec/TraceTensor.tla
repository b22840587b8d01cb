----------------------------- MODULE TraceTensor ----------------------------
(***************************************************************************)
(* Conformance of recorded rearrangements of tensors: spin conversions,    *)
(* occupied/virtual blocks, denominators, block-diagonal matrices, and the *)
(* ring and ladder doubles equations.                                      *)
(*                                                                         *)
(* A case holds named source tensors and recorded results; result `o' has  *)
(* a kind, which says what its element at (p, q, ...) must be, where the   *)
(* arguments are taken from `o.ax', the labels along each axis.            *)
(***************************************************************************)
EXTENDS System, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, done
vars == <<ci, done>>
Case == Cases[ci]

Lay == Layout(Case.noa, Case.nva, Case.nob, Case.nvb)

(* ---- spin conversions: p, q, ... are spin orbitals of the layout ------- *)
SpinF(L, p, q) == Spin1(L.spin[p], L.spin[q], Case.Fa, Case.Fb, L.full[p], L.full[q])
SpinT1(L, a, i) == Spin1(L.spin[a], L.spin[i], Case.T1a, Case.T1b, L.ix[a], L.ix[i])
SpinT2(L, a, b, i, j) ==
  Spin2(L.spin[a], L.spin[b], L.spin[i], L.spin[j],
        LAMBDA p, q, r, s : At4(Case.T2aa, p, q, r, s),
        LAMBDA p, q, r, s : At4(Case.T2ab, p, q, r, s),
        LAMBDA p, q, r, s : At4(Case.T2bb, p, q, r, s),
        L.ix[a], L.ix[b], L.ix[i], L.ix[j])
\* Denominators: as amplitudes but symmetric, hence without signs.
SpinD2(L, a, b, i, j) ==
  LET sp == <<L.spin[a], L.spin[b], L.spin[i], L.spin[j]>>
      x == SpinT2(L, a, b, i, j)
  IN IF sp \in {<<"a", "b", "b", "a">>, <<"b", "a", "a", "b">>} THEN Neg(x) ELSE x
SpinV(L, p, q, r, s, anti) ==
  Spin2(L.spin[p], L.spin[q], L.spin[r], L.spin[s],
        LAMBDA w, x, y, z : IF anti THEN Anti4(Case.Ia, w, x, y, z) ELSE At4(Case.Ia, w, x, y, z),
        LAMBDA w, x, y, z : At4(Case.Iab, w, x, y, z),
        LAMBDA w, x, y, z : IF anti THEN Anti4(Case.Ib, w, x, y, z) ELSE At4(Case.Ib, w, x, y, z),
        L.full[p], L.full[q], L.full[r], L.full[s])

\* One block from its six spin components, alpha counts na[1..4].
SixBlocks(p, q, r, s) ==
  LET na == Case.na
      sp == <<p > na[1], q > na[2], r > na[3], s > na[4]>>
      i == <<IF sp[1] THEN p - na[1] ELSE p, IF sp[2] THEN q - na[2] ELSE q,
             IF sp[3] THEN r - na[3] ELSE r, IF sp[4] THEN s - na[4] ELSE s>>
      at(X) == X[i[1]][i[2]][i[3]][i[4]]
  IN CASE sp = <<FALSE, FALSE, FALSE, FALSE>> -> at(Case.aaaa)
       [] sp = <<TRUE, TRUE, TRUE, TRUE>>     -> at(Case.bbbb)
       [] sp = <<FALSE, TRUE, FALSE, TRUE>>   -> at(Case.abab)
       [] sp = <<TRUE, FALSE, TRUE, FALSE>>   -> at(Case.baba)
       [] sp = <<FALSE, TRUE, TRUE, FALSE>>   -> at(Case.abba)
       [] sp = <<TRUE, FALSE, FALSE, TRUE>>   -> at(Case.baab)
       [] OTHER -> 0

(* ---- ring and ladder doubles: Riccati equations over pairs ------------- *)
No == Case.no
Nv == Case.nv
O == 1..No
U == 1..Nv
V4(p, q, r, s) == Case.V[p][q][r][s]
T4(a, b, i, j) == Case.T2[a][b][i][j]
Ladder(a, b, i, j) ==
  LET pp == {cd \in U \X U : cd[1] < cd[2]}
      hh == {kl \in O \X O : kl[1] < kl[2]}
      \* T * hp over pairs: (ab, k<l) (kl, c<d)
      t1 == Sum(LAMBDA cd : Mul(V4(No + a, No + b, No + cd[1], No + cd[2]), T4(cd[1], cd[2], i, j)), pp)
      t2 == Sum(LAMBDA kl : Mul(T4(a, b, kl[1], kl[2]), V4(kl[1], kl[2], i, j)), hh)
      t3 == Sum(LAMBDA kl : Mul(T4(a, b, kl[1], kl[2]),
              Sum(LAMBDA cd : Mul(V4(kl[1], kl[2], No + cd[1], No + cd[2]), T4(cd[1], cd[2], i, j)), pp)), hh)
  IN Add(Add(V4(No + a, No + b, i, j), t1), Add(t2, t3))
\* Over particle-hole pairs: B[ai,bj] = <ab|ij>, W[ai,ck] = -<ak|ci>,
\* K[kc,ld] = <kl|cd>, X[ai,bj] = T[a,b,i,j].
Ring(a, b, i, j) ==
  LET ph == U \X O
      t1 == Sum(LAMBDA ck : Mul(Neg(V4(No + b, ck[2], No + ck[1], j)), T4(a, ck[1], i, ck[2])), ph)
      t2 == Sum(LAMBDA ck : Mul(Neg(V4(No + a, ck[2], No + ck[1], i)), T4(ck[1], b, ck[2], j)), ph)
      t3 == Sum(LAMBDA ck : Mul(T4(a, ck[1], i, ck[2]),
              Sum(LAMBDA dl : Mul(V4(ck[2], dl[2], No + ck[1], No + dl[1]), T4(dl[1], b, dl[2], j)), ph)), ph)
  IN Add(Add(V4(No + a, No + b, i, j), t1), Add(t2, t3))

(* ---- expected elements -------------------------------------------------- *)
Want2(o, p, q, L) ==
  CASE o.kind = "at1" -> Case.S1[p][q]
    [] o.kind = "F"   -> SpinF(L, p, q)
    [] o.kind = "T1"  -> SpinT1(L, p, q)
    [] o.kind = "D1"  -> Sub(Case.ev[p], Case.eo[q])
    [] o.kind = "bd"  ->
         IF p <= Case.ma /\ q <= Case.mb THEN Case.A[p][q]
         ELSE IF p > Case.ma /\ q > Case.mb THEN Case.B[p - Case.ma][q - Case.mb]
         ELSE 0

Want4(o, p, q, r, s, L) ==
  CASE o.kind = "at2" -> Case.S2[p][q][r][s]
    [] o.kind = "T2"  -> SpinT2(L, p, q, r, s)
    [] o.kind = "E2"  -> SpinD2(L, p, q, r, s)
    [] o.kind = "VA"  -> SpinV(L, p, q, r, s, TRUE)
    [] o.kind = "V2"  -> SpinV(L, p, q, r, s, FALSE)
    [] o.kind = "six" -> SixBlocks(p, q, r, s)
    [] o.kind = "D2"  -> Sub(Add(Case.ev[p], Case.ev[q]), Add(Case.eo[r], Case.eo[s]))
    [] o.kind = "D2u" -> Sub(Add(Case.ev[p], Case.evb[q]), Add(Case.eo[r], Case.eob[s]))
    [] o.kind = "ladder" -> Ladder(p, q, r, s)
    [] o.kind = "ring" -> Ring(p, q, r, s)

Wrong(o, L) ==
  IF o.kind = "refuse" THEN o.st # "refused"
  ELSE IF o.st # "ok" THEN TRUE
  ELSE IF Len(o.ax) = 2 THEN
    \E p \in 1..Len(o.ax[1]) : \E q \in 1..Len(o.ax[2]) :
       o.val[p][q] # Want2(o, o.ax[1][p], o.ax[2][q], L)
  ELSE
    \E p \in 1..Len(o.ax[1]) : \E q \in 1..Len(o.ax[2]) :
    \E r \in 1..Len(o.ax[3]) : \E s \in 1..Len(o.ax[4]) :
       o.val[p][q][r][s] # Want4(o, o.ax[1][p], o.ax[2][q], o.ax[3][r], o.ax[4][s], L)

Reason(o) == o.name \o (IF o.st = "ok" THEN ":value" ELSE ":" \o o.st)

Bad == LET L == TLCEval(Lay) IN
       {Reason(Case.outs[k]) : k \in {j \in 1..Len(Case.outs) : Wrong(Case.outs[j], L)}}

Init == ci \in 1..Len(Cases) /\ done = FALSE
Judge == /\ ~done /\ done' = TRUE /\ UNCHANGED ci
         /\ PrintT("VERDICT " \o ToJson([id |-> Case.id, bad |-> SetToSeq(Bad)]))
Spec == Init /\ [][Judge]_vars
=============================================================================
