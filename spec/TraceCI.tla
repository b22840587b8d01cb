------------------------------ MODULE TraceCI -------------------------------
(***************************************************************************)
(* Conformance of recorded CI calls.  One case is                          *)
(*   "matrix"   a basis and the recorded matrix of a Hamiltonian           *)
(*   "history"  a basis, a vector and the vectors recorded after each of a *)
(*              sequence of operator applications                          *)
(*   "expt"     labels and recorded coefficients of exp(T)|0>              *)
(***************************************************************************)
EXTENDS CI, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, ph, w, k, x, bad
vars == <<ci, ph, w, k, x, bad>>
Case == Cases[ci]

Init == /\ ci \in 1..Len(Cases)
        /\ ph = "setup" /\ w = <<>> /\ k = 0 /\ x = <<>> /\ bad = {}

GivenBasis == [j \in 1..Len(Case.bas) |-> ToSet(Case.bas[j])]

(* ---- matrix elements --------------------------------------------------- *)
SetupMatrix ==
  /\ ph = "setup" /\ Case.kind = "matrix"
  /\ w' = [bas |-> TLCEval(GivenBasis)]
  /\ ph' = "row" /\ k' = 1
  /\ UNCHANGED <<ci, x, bad>>

\* One row of the matrix per step.
Row ==
  /\ ph = "row"
  /\ IF k > Len(w.bas) THEN ph' = "judge" /\ UNCHANGED <<k, bad>>
     ELSE LET wrong == {c \in 1..Len(w.bas) :
                  LET e == HElem(Case, w.bas[k], w.bas[c]) IN
                  Case.val[k][c] # (IF w.bas[k] = w.bas[c] THEN Add(e, Case.const) ELSE e)}
          IN /\ bad' = bad \cup {"rank" \o ToString(Cardinality(w.bas[k] \ w.bas[c])) : c \in wrong}
             /\ k' = k + 1 /\ UNCHANGED ph
  /\ UNCHANGED <<ci, w, x>>

(* ---- histories of operator applications -------------------------------- *)
SetupHistory ==
  /\ ph = "setup" /\ Case.kind = "history"
  /\ LET bas == TLCEval(GivenBasis)
     IN w' = [bas |-> bas, pos |-> TLCEval(Positions(bas)),
              H |-> IF \E o \in 1..Len(Case.ops) : Case.ops[o].k = "H"
                    THEN TLCEval(HMatrix(Case, bas)) ELSE <<>>]
  /\ x' = Case.vec /\ k' = 1 /\ ph' = "apply"
  /\ UNCHANGED <<ci, bad>>

ApplyOne ==
  /\ ph = "apply"
  /\ IF k > Len(Case.ops) THEN ph' = "judge" /\ UNCHANGED <<k, x, bad>>
     ELSE LET op == Case.ops[k]
              y  == TLCEval(IF op.k = "H" THEN MatVec(w.H, x)
                    ELSE ApplyOps(OpsOf(op, Case.m), w.bas, w.pos, x))
          IN /\ x' = y /\ k' = k + 1 /\ UNCHANGED ph
             /\ bad' = IF op.st # "ok" THEN bad \cup {op.k \o ":" \o op.st}
                       ELSE IF op.val # y THEN bad \cup {op.k \o ":value"} ELSE bad
  /\ UNCHANGED <<ci, w>>

(* ---- coefficients of exp(T)|0> ----------------------------------------- *)
Amps == IF Case.form = "g" THEN [T1 |-> Case.T1, T2 |-> Case.T2]
        ELSE LET L == Layout(Case.noa, Case.nva, Case.nob, Case.nvb)
                 no == L.no  nv == L.n - L.no  sp == L.spin  ix == L.ix IN
             [T1 |-> [a \in 1..nv |-> [i \in 1..no |->
                       Spin1(sp[no + a], sp[i], Case.T1a, Case.T1b, ix[no + a], ix[i])]],
              T2 |-> [a \in 1..nv |-> [b \in 1..nv |-> [i \in 1..no |-> [j \in 1..no |->
                       Spin2(sp[no + a], sp[no + b], sp[i], sp[j],
                             LAMBDA p, q, r, s : At4(Case.T2aa, p, q, r, s),
                             LAMBDA p, q, r, s : At4(Case.T2ab, p, q, r, s),
                             LAMBDA p, q, r, s : At4(Case.T2bb, p, q, r, s),
                             ix[no + a], ix[no + b], ix[i], ix[j])]]]]]

OccSeq == Case.occ
VirSeq == Case.vir
RefDet == ToSet(Case.occ)
Space ==
  IF Case.form = "g" THEN UpTo(RefDet, 1..Case.n, Case.order)
  ELSE LET m == Case.n \div 2 IN
       UpToSpin(RefDet \cap (1..m), 1..m, RefDet \ (1..m), (m + 1)..(2 * m), Case.order)

SetupExpT ==
  /\ ph = "setup" /\ Case.kind = "expt" /\ Case.st = "ok"
  /\ LET bas == TLCEval(SetToSeq(Space))
         pos == TLCEval(Positions(bas))
         t   == TLCEval(Amps)
         g   == PosOf(pos, RefDet)
     IN /\ w' = [bas |-> bas, pos |-> pos, ket |-> Unit(Len(bas), g),
                 t |-> t]
        /\ x' = Unit(Len(bas), g)
  /\ k' = 1 /\ ph' = "exp"
  /\ UNCHANGED <<ci, bad>>

ExpTerm ==
  /\ ph = "exp"
  /\ LET y == TLCEval(Scale(Inv(k), ApplyT(w.t.T1, w.t.T2, OccSeq, VirSeq, Case.n, w.bas, w.pos, x)))
     IN IF IsZero(y) THEN /\ ph' = "compare" /\ UNCHANGED <<w, k, x>>
        ELSE /\ w' = [w EXCEPT !.ket = TLCEval(VecAdd(w.ket, y))]
             /\ x' = y /\ k' = k + 1 /\ UNCHANGED ph
  /\ UNCHANGED <<ci, bad>>

Compare ==
  /\ ph = "compare"
  /\ LET lab == TLCEval([j \in 1..Len(Case.lab) |-> ToSet(Case.lab[j])])
         inn == {j \in 1..Len(lab) : PosOf(w.pos, lab[j]) > 0}
         off == {j \in inn : Case.val[j] # w.ket[PosOf(w.pos, lab[j])]}
     IN bad' = bad
          \cup (IF Range(lab) # Range(w.bas) \/ Len(lab) # Len(w.bas) THEN {"labels"} ELSE {})
          \cup {"rank" \o ToString(Cardinality(lab[j] \ RefDet)) : j \in off}
  /\ ph' = "judge"
  /\ UNCHANGED <<ci, w, k, x>>

NoValue ==
  /\ ph = "setup" /\ Case.kind = "expt" /\ Case.st # "ok"
  /\ bad' = IF Case.st = "refused" THEN {} ELSE {Case.st}
  /\ ph' = "judge"
  /\ UNCHANGED <<ci, w, k, x>>

(* ------------------------------------------------------------------------ *)
Judge ==
  /\ ph = "judge" /\ ph' = "done" /\ w' = <<>> /\ x' = <<>> /\ k' = 0
  /\ PrintT("VERDICT " \o ToJson([id |-> Case.id,
        bad |-> SetToSeq(bad \cup (IF Case.kind = "matrix" /\ Case.st # "ok" THEN {Case.st} ELSE {}))]))
  /\ UNCHANGED <<ci, bad>>

Next == SetupMatrix \/ Row \/ SetupHistory \/ ApplyOne \/ SetupExpT \/ ExpTerm \/ Compare
        \/ NoValue \/ Judge
Spec == Init /\ [][Next]_vars
SeriesEnds == ph = "exp" => k <= Case.n + 1
=============================================================================
