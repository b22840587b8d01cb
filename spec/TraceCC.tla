------------------------------ MODULE TraceCC -------------------------------
(***************************************************************************)
(* Conformance of recorded coupled-cluster calls.                          *)
(*                                                                         *)
(* A case is one system together with the arrays the real library returned *)
(* for it.  The machine of CoupledCluster.tla runs on the system, then     *)
(* every recorded array is compared entry by entry with what the machine   *)
(* says.  One verdict line is printed per case.                            *)
(*                                                                         *)
(* case.outs[k] = [name, kind, ax, st, val]: `kind' names the quantity,    *)
(* `ax' the orbitals along each axis of `val', `st' is "ok" or the reason  *)
(* why there is no usable value (raised, shape, inexact).                  *)
(***************************************************************************)
EXTENDS CoupledCluster, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES ci, ph, w, k, x, bad
vars == <<ci, ph, w, k, x, bad>>

Case == Cases[ci]
Needs(what) == \E o \in 1..Len(Case.outs) : Case.outs[o].kind \in what
NeedBra == Needs({"M1", "M2", "G1", "G2"})
NeedHam == Needs({"E", "Ed", "Es", "Ess", "Esu", "R1", "R2", "M1", "M2"})

Reach == IF Needs({"R1", "R2", "M1", "M2", "G1", "G2"}) THEN 4 ELSE 2

Init == /\ ci \in 1..Len(Cases)
        /\ ph = "setup" /\ w = <<>> /\ k = 0 /\ x = <<>> /\ bad = {}

Setup ==
  /\ ph = "setup"
  /\ LET sys == TLCEval(SystemOf(Case))
         bas == TLCEval(BasisUpTo(sys, Reach))
         pos == TLCEval(Positions(bas))
         g   == PosOf(pos, Ground(sys))
         zero == [q \in 1..Len(bas) |-> 0]
     IN /\ w' = [sys |-> sys, bas |-> bas, pos |-> pos, g |-> g,
                 T |-> MatrixT(sys, bas),
                 H |-> IF NeedHam THEN MatrixH(sys, bas) ELSE <<>>,
                 L |-> IF NeedBra THEN MatrixL(sys, bas) ELSE <<>>,
                 ket |-> Unit(Len(bas), g), hb |-> zero, b0 |-> zero,
                 bra |-> zero, bhb |-> zero]
        /\ x' = Unit(Len(bas), g)
        /\ ph' = IF Case.mode = "linear" THEN "lin" ELSE IF Case.mode = "pieces" THEN "judge" ELSE "ket"
        /\ k' = 1
  /\ UNCHANGED <<ci, bad>>

\* Linear methods: (H + HT - TH)|0>
Linear ==
  /\ ph = "lin"
  /\ LET t  == MatVec(w.T, x)
         h  == MatVec(w.H, x)
     IN w' = [w EXCEPT !.hb = VecAdd(h, VecSub(MatVec(w.H, t), MatVec(w.T, h)))]
  /\ ph' = "judge"
  /\ UNCHANGED <<ci, k, x, bad>>

ExpKet ==
  /\ ph = "ket"
  /\ LET y == NextTerm(w.T, 1, x, k)
     IN IF IsZero(y)
        THEN /\ ph' = IF NeedHam THEN "ham" ELSE IF NeedBra THEN "bra0" ELSE "judge"
             /\ UNCHANGED <<w, k, x>>
        ELSE /\ w' = [w EXCEPT !.ket = VecAdd(w.ket, y)]
             /\ x' = y /\ k' = k + 1 /\ UNCHANGED ph
  /\ UNCHANGED <<ci, bad>>

ApplyH ==
  /\ ph = "ham"
  /\ LET y == MatVec(w.H, w.ket)
     IN /\ w' = [w EXCEPT !.hb = y] /\ x' = y
  /\ k' = 1 /\ ph' = "unexp"
  /\ UNCHANGED <<ci, bad>>

UnExpKet ==
  /\ ph = "unexp"
  /\ LET y == NextTerm(w.T, -1, x, k)
     IN IF IsZero(y)
        THEN /\ ph' = IF NeedBra THEN "bra0" ELSE "judge"
             /\ UNCHANGED <<w, k, x>>
        ELSE /\ w' = [w EXCEPT !.hb = VecAdd(w.hb, y)]
             /\ x' = y /\ k' = k + 1 /\ UNCHANGED ph
  /\ UNCHANGED <<ci, bad>>

StartBra ==
  /\ ph = "bra0"
  /\ LET e == Unit(Len(w.bas), w.g)
         b == VecAdd(Scale(Case.tfac, e), w.L[w.g])
     IN /\ w' = [w EXCEPT !.b0 = b, !.bra = b] /\ x' = b
  /\ k' = 1 /\ ph' = "brat"
  /\ UNCHANGED <<ci, bad>>

UnExpBra ==
  /\ ph = "brat"
  /\ LET y == NextTermL(w.T, -1, x, k)
     IN IF IsZero(y)
        THEN /\ ph' = IF NeedHam THEN "brah" ELSE "judge"
             /\ UNCHANGED <<w, k, x>>
        ELSE /\ w' = [w EXCEPT !.bra = VecAdd(w.bra, y)]
             /\ x' = y /\ k' = k + 1 /\ UNCHANGED ph
  /\ UNCHANGED <<ci, bad>>

BraH ==
  /\ ph = "brah"
  /\ LET y == VecMat(w.bra, w.H)
     IN /\ w' = [w EXCEPT !.bhb = y] /\ x' = y
  /\ k' = 1 /\ ph' = "braexp"
  /\ UNCHANGED <<ci, bad>>

ExpBra ==
  /\ ph = "braexp"
  /\ LET y == NextTermL(w.T, 1, x, k)
     IN IF IsZero(y)
        THEN /\ ph' = "judge" /\ UNCHANGED <<w, k, x>>
        ELSE /\ w' = [w EXCEPT !.bhb = VecAdd(w.bhb, y)]
             /\ x' = y /\ k' = k + 1 /\ UNCHANGED ph
  /\ UNCHANGED <<ci, bad>>

(***************************************************************************)
(* Judging.                                                                *)
(***************************************************************************)
Value2(kind, p, q) ==
  CASE kind = "R1" -> Res1(w, p, q)
    [] kind = "M1" -> Lam1(w, p, q)
    [] kind = "G1" -> Gam1(w, p, q)

Raw4(kind, p, q, r, s) ==
  CASE kind = "R2" -> Res2(w, p, q, r, s)
    [] kind = "M2" -> Lam2(w, p, q, r, s)
    [] kind = "G2" -> Gam2(w, p, q, r, s)

\* Values for p < q, r < s only; the rest follows by antisymmetry.
Table4(o) ==
  LET A == Range(o.ax[1]) \cup Range(o.ax[2])
      B == Range(o.ax[3]) \cup Range(o.ax[4])
  IN TLCEval([p \in A |-> [q \in A |-> [r \in B |-> [s \in B |->
       IF p < q /\ r < s /\ ( \/ (p \in Range(o.ax[1]) /\ q \in Range(o.ax[2]))
                              \/ (q \in Range(o.ax[1]) /\ p \in Range(o.ax[2])))
       THEN Raw4(o.kind, p, q, r, s) ELSE 0]]]])

Lookup4(t, p, q, r, s) ==
  IF p = q \/ r = s THEN 0
  ELSE LET sg == (IF p < q THEN 1 ELSE -1) * (IF r < s THEN 1 ELSE -1)
           a == IF p < q THEN t[p][q] ELSE t[q][p]
       IN Signed(sg, IF r < s THEN a[r][s] ELSE a[s][r])

Wrong(o) ==
  IF o.st # "ok" THEN TRUE
  ELSE IF o.kind = "E" THEN o.val # Energy(w)
  ELSE IF o.kind = "Ed" THEN o.val # PieceD(w)
  ELSE IF o.kind = "Es" THEN o.val # PieceS(w)
  ELSE IF o.kind = "Ess" THEN o.val # PieceSS(w, w.sys.T1)
  ELSE IF o.kind = "Esu" THEN o.val # PieceSS(w, Case.U1)
  ELSE IF Len(o.ax) = 2 THEN
    \E p \in 1..Len(o.ax[1]) : \E q \in 1..Len(o.ax[2]) :
       o.val[p][q] # Value2(o.kind, o.ax[1][p], o.ax[2][q])
  ELSE LET t == Table4(o) IN
    \E p \in 1..Len(o.ax[1]) : \E q \in 1..Len(o.ax[2]) :
    \E r \in 1..Len(o.ax[3]) : \E s \in 1..Len(o.ax[4]) :
       o.val[p][q][r][s] # Lookup4(t, o.ax[1][p], o.ax[2][q], o.ax[3][r], o.ax[4][s])

Reason(o) == o.name \o (IF o.st = "ok" THEN ":value" ELSE ":" \o o.st)

Judge ==
  /\ ph = "judge"
  /\ bad' = {o \in 1..Len(Case.outs) : Wrong(Case.outs[o])}
  /\ ph' = "done" /\ w' = <<>> /\ x' = <<>> /\ k' = 0
  /\ PrintT("VERDICT " \o ToJson([id |-> Case.id, outs |-> Len(Case.outs),
        bad |-> SetToSeq({Reason(Case.outs[o]) : o \in bad'})]))
  /\ UNCHANGED ci

Next == \/ Setup \/ Linear \/ ExpKet \/ ApplyH \/ UnExpKet
        \/ StartBra \/ UnExpBra \/ BraH \/ ExpBra \/ Judge

Spec == Init /\ [][Next]_vars

\* The series must end: no exponential needs more than no + 1 terms.
SeriesEnds == ph \in {"ket", "unexp", "brat", "braexp"} => k <= w.sys.n + 1
=============================================================================
