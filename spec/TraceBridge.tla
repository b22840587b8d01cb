---------------------------- MODULE TraceBridge -----------------------------
(***************************************************************************)
(* One state in two languages.                                             *)
(*                                                                         *)
(* The CI vector of e^T|0> complete through quadruples, multiplied by the  *)
(* Hamiltonian, has up to double excitations the components of             *)
(*     H e^T |0>  =  e^T (E0 + E + R1 + R2 + ...) |0>                      *)
(* with E the correlation energy and R1, R2 the residuals that the         *)
(* coupled-cluster functions give for the same amplitudes.  All of vector, *)
(* energy and residuals are recorded; the specification adds only the      *)
(* action of T and the energy E0 of the reference.                         *)
(***************************************************************************)
EXTENDS CI, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, ph, w, k, x, bad
vars == <<ci, ph, w, k, x, bad>>
Case == Cases[ci]

Init == ci \in 1..Len(Cases) /\ ph = "setup" /\ w = <<>> /\ k = 0 /\ x = <<>> /\ bad = {}

\* Alpha, beta and mixed blocks as spin-orbital amplitudes.
Joined(A, B, AA, AB, BB) ==
  LET L == Layout(Case.noa, Case.nva, Case.nob, Case.nvb)
      no == L.no  nv == L.n - L.no  sp == L.spin  ix == L.ix IN
  [T1 |-> [a \in 1..nv |-> [i \in 1..no |-> Spin1(sp[no + a], sp[i], A, B, ix[no + a], ix[i])]],
   T2 |-> [a \in 1..nv |-> [b \in 1..nv |-> [i \in 1..no |-> [j \in 1..no |->
            Spin2(sp[no + a], sp[no + b], sp[i], sp[j],
                  LAMBDA p, q, r, s : At4(AA, p, q, r, s), LAMBDA p, q, r, s : At4(AB, p, q, r, s),
                  LAMBDA p, q, r, s : At4(BB, p, q, r, s),
                  ix[no + a], ix[no + b], ix[i], ix[j])]]]]]
AmpT == IF Case.form = "g" THEN [T1 |-> Case.T1, T2 |-> Case.T2]
        ELSE Joined(Case.T1a, Case.T1b, Case.T2aa, Case.T2ab, Case.T2bb)
AmpR == IF Case.form = "g" THEN [T1 |-> Case.R1, T2 |-> Case.R2]
        ELSE Joined(Case.R1a, Case.R1b, Case.R2aa, Case.R2ab, Case.R2bb)

Ref == ToSet(Case.occ)
Broken == {Case.outs[j].name \o ":" \o Case.outs[j].st : j \in {y \in 1..Len(Case.outs) : Case.outs[y].st # "ok"}}
          \cup (IF Case.st = "ok" THEN {} ELSE {"vector:" \o Case.st})

On(t, y) == ApplyT(t.T1, t.T2, Case.occ, Case.vir, Case.n, w.bas, w.pos, y)

Setup ==
  /\ ph = "setup" /\ Broken = {}
  /\ LET lab == TLCEval([j \in 1..Len(Case.lab) |-> ToSet(Case.lab[j])])
         low == {j \in 1..Len(lab) : Cardinality(lab[j] \ Ref) <= 2}
         ix  == TLCEval(SetToSeq(low))
         bas == TLCEval([j \in 1..Len(ix) |-> lab[ix[j]]])
     IN w' = [bas |-> bas, pos |-> TLCEval(Positions(bas)), t |-> TLCEval(AmpT),
              got |-> [j \in 1..Len(ix) |-> Case.val[ix[j]]], sum |-> <<>>]
  /\ ph' = "start" /\ UNCHANGED <<ci, k, x, bad>>

\* (E0 + E + R1 + R2)|0>
Start ==
  /\ ph = "start"
  /\ LET e == Unit(Len(w.bas), PosOf(w.pos, Ref))
         y == TLCEval(VecAdd(Scale(Add(HElem(Case, Ref, Ref), Case.energy), e), On(AmpR, e)))
     IN x' = y /\ w' = [w EXCEPT !.sum = y]
  /\ k' = 1 /\ ph' = "exp" /\ UNCHANGED <<ci, bad>>

Term ==
  /\ ph = "exp"
  /\ LET y == TLCEval(Scale(Inv(k), On(w.t, x))) IN
     IF IsZero(y) THEN ph' = "compare" /\ UNCHANGED <<w, k, x>>
     ELSE w' = [w EXCEPT !.sum = TLCEval(VecAdd(w.sum, y))] /\ x' = y /\ k' = k + 1 /\ UNCHANGED ph
  /\ UNCHANGED <<ci, bad>>

Compare ==
  /\ ph = "compare" /\ ph' = "judge"
  /\ bad' = {"rank" \o ToString(Cardinality(w.bas[j] \ Ref)) : j \in {y \in 1..Len(w.bas) : w.got[y] # w.sum[y]}}
            \cup (IF PosOf(w.pos, Ref) = 0 THEN {"reference"} ELSE {})
  /\ UNCHANGED <<ci, w, k, x>>

Failed == ph = "setup" /\ Broken # {} /\ bad' = Broken /\ ph' = "judge" /\ UNCHANGED <<ci, w, k, x>>

Judge ==
  /\ ph = "judge" /\ ph' = "done" /\ w' = <<>> /\ x' = <<>> /\ k' = 0
  /\ PrintT("VERDICT " \o ToJson([id |-> Case.id, bad |-> SetToSeq(bad)]))
  /\ UNCHANGED <<ci, bad>>

Next == Setup \/ Start \/ Term \/ Compare \/ Failed \/ Judge
Spec == Init /\ [][Next]_vars
SeriesEnds == ph = "exp" => k <= Case.n + 1
=============================================================================
