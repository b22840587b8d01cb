----------------------------- MODULE TraceLinear ----------------------------
(***************************************************************************)
(* Recorded results for several arguments (`parts') and for a combination  *)
(* of them with coefficients `cs' (`whole').                               *)
(***************************************************************************)
EXTENDS Linear, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, k, bad
vars == <<ci, k, bad>>
Case == Cases[ci]

Init == ci \in 1..Len(Cases) /\ k = 0 /\ bad = {}

Off(outs) == {outs[j].name \o ":" \o outs[j].st : j \in {x \in 1..Len(outs) : outs[x].st # "ok"}}

\* The results, one by one.
Compare ==
  /\ k < Len(Case.whole)
  /\ LET w == Case.whole[k + 1]
         fit == \A f \in 1..Len(Case.parts) : Case.parts[f][k + 1].st = "ok"
     IN bad' = bad \cup
          IF w.st = "ok" /\ fit /\ ~IsCombination(Len(w.blk), w.val,
                                     [f \in 1..Len(Case.parts) |-> Case.parts[f][k + 1].val], Case.cs)
          THEN {w.name \o ":value"} ELSE {}
  /\ k' = k + 1 /\ UNCHANGED ci

Done ==
  /\ k = Len(Case.whole)
  /\ bad' = bad \cup Off(Case.whole) \cup UNION {Off(Case.parts[f]) : f \in 1..Len(Case.parts)}
                \cup (IF Coefficients(Case.what, Case.cs) THEN {} ELSE {"coefficients"})
  /\ PrintT("VERDICT " \o ToJson([id |-> Case.id, bad |-> SetToSeq(bad')]))
  /\ k' = k + 1 /\ UNCHANGED ci

Next == Compare \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
