---------------------------- MODULE TraceRelabel ----------------------------
(***************************************************************************)
(* Recorded results for a system and for the same system after each of a   *)
(* sequence of relabellings.  The labelling is followed action by action;  *)
(* after each action all results must be the first ones seen through it.   *)
(***************************************************************************)
EXTENDS Relabel, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, k, lab, bad
vars == <<ci, k, lab, bad>>
Case == Cases[ci]

Init == ci \in 1..Len(Cases) /\ k = 0 /\ lab = Plain(Case.size) /\ bad = {}

\* The original blocks of the same function and quantity.
Base(f) == SelectSeq(Case.base, LAMBDA b : b.fn = f)

Off(outs) == {outs[j].name \o ":" \o outs[j].st : j \in {x \in 1..Len(outs) : outs[x].st # "ok"}}
Judge(l, outs) ==
  Off(outs) \cup {outs[j].name \o ":value" : j \in {x \in 1..Len(outs) :
      /\ outs[x].st = "ok"
      /\ LET b == Base(outs[x].fn) IN
         /\ \A y \in 1..Len(b) : b[y].st = "ok"
         /\ ~Same(l, outs[x].blk, outs[x].val, b)}}

\* Several actions may come before results are recorded again.
Step ==
  /\ k < Len(Case.steps)
  /\ LET s == Case.steps[k + 1] IN
     /\ lab' = FoldLeft(LAMBDA l, a : Do(l, a), lab, s.acts)
     /\ bad' = bad \cup Judge(lab', s.outs)
  /\ k' = k + 1 /\ UNCHANGED ci

Done ==
  /\ k = Len(Case.steps)
  /\ bad' = bad \cup Off(Case.base)
  /\ PrintT("VERDICT " \o ToJson([id |-> Case.id, bad |-> SetToSeq(bad')]))
  /\ k' = k + 1 /\ UNCHANGED <<ci, lab>>

Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
