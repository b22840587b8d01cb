----------------------------- MODULE TraceHoles -----------------------------
(***************************************************************************)
(* Recorded results for a system and for descriptions of it by holes.      *)
(***************************************************************************)
EXTENDS Holes, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, k, bad
vars == <<ci, k, bad>>
Case == Cases[ci]

Init == ci \in 1..Len(Cases) /\ k = 0 /\ bad = {}

\* The original blocks of the same method and quantity.
Base(f) == SelectSeq(Case.base, LAMBDA b : b.fn = f)

Off(outs) == {outs[j].name \o ":" \o outs[j].st : j \in {x \in 1..Len(outs) : outs[x].st # "ok"}}

View ==
  /\ k < Len(Case.views)
  /\ LET w == Case.views[k + 1] IN
     bad' = bad \cup Off(w.outs) \cup
       {w.outs[j].name \o ":value" : j \in {x \in 1..Len(w.outs) :
          /\ w.outs[x].st = "ok"
          /\ LET b == Base(w.outs[x].fn) IN
             /\ \A y \in 1..Len(b) : b[y].st = "ok"
             /\ ~Agrees({w.side[y] : y \in 1..Len(w.side)}, Case.closed, w.outs[x].blk, w.outs[x].val, b)}}
  /\ k' = k + 1 /\ UNCHANGED ci

Done ==
  /\ k = Len(Case.views)
  /\ bad' = bad \cup Off(Case.base)
  /\ PrintT("VERDICT " \o ToJson([id |-> Case.id, bad |-> SetToSeq(bad')]))
  /\ k' = k + 1 /\ UNCHANGED ci

Next == View \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
