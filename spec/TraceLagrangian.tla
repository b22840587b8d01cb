-------------------------- MODULE TraceLagrangian ---------------------------
(***************************************************************************)
(* Recorded energies, residuals, Lambda residuals and density matrices of  *)
(* one system judged against each other: they must be derivatives of one   *)
(* Lagrangian.  case.at[k] holds energy and residuals at T + s D, s = 0,   *)
(* -2, -1, 1, 2; case.den the density matrices for weights case.tfac;      *)
(* case.lam the Lambda residuals of the different implementations.         *)
(***************************************************************************)
EXTENDS Lagrangian, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, k, val, bad
vars == <<ci, k, val, bad>>
Case == Cases[ci]

Init == ci \in 1..Len(Cases) /\ k = 0 /\ val = <<>> /\ bad = {}

Failed(outs) == {outs[o].name \o ":" \o outs[o].st : o \in {x \in 1..Len(outs) : outs[x].st # "ok"}}

\* The Lagrangian at the points of the line, one per step; t is its weight.
Point ==
  /\ k < Len(Case.at)
  /\ LET a == Case.at[k + 1]
         f == Failed(<<a.E>> \o a.R)
     IN /\ bad' = bad \cup f
        /\ val' = Append(val, IF f # {} THEN -1
                              ELSE FromResiduals(Case, LayoutOf(Case), 1, a.E.val, a.R))
  /\ k' = k + 1 /\ UNCHANGED ci

Dens == {d.name : d \in {Case.den[j] : j \in 1..Len(Case.den)}}
Judge ==
  /\ k = Len(Case.at)
  /\ LET lay  == LayoutOf(Case)
         base == Case.at[1]
         dens == UNION {LET d == Case.den[j]
                            f == Failed(d.outs)
                        IN IF f # {} THEN f
                           ELSE IF val[1] = -1 THEN {}
                           ELSE IF Add(val[1], Mul(N(d.t - 1), base.E.val))
                                   = FromDensities(Case, lay, d.outs \o d.lambda) THEN {}
                           ELSE {d.name \o ":contraction"} : j \in 1..Len(Case.den)}
         lam  == UNION {LET m == Case.lam[j]
                            f == Failed(m.outs)
                        IN IF f # {} THEN f
                           ELSE IF \E q \in 1..Len(val) : val[q] = -1 THEN {}
                           ELSE IF Against(Case, lay, "D", m.outs)
                                   = Slope(val[2], val[3], val[4], val[5]) THEN {}
                           ELSE {m.name \o ":slope"} : j \in 1..Len(Case.lam)}
     IN bad' = bad \cup dens \cup lam
  /\ k' = k + 1
  /\ PrintT("VERDICT " \o ToJson([id |-> Case.id, bad |-> SetToSeq(bad')]))
  /\ UNCHANGED <<ci, val>>

Next == Point \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
