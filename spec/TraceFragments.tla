--------------------------- MODULE TraceFragments ---------------------------
(***************************************************************************)
(* Recorded results for fragments on their own and for wholes assembled    *)
(* from some of them.  case.frags[f].outs and case.wholes[k].outs list the *)
(* same functions in the same order; case.wholes[k].parts lists which      *)
(* fragments the whole has been made of, own their orbitals in it.         *)
(***************************************************************************)
EXTENDS Fragments, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, k, bad
vars == <<ci, k, bad>>
Case == Cases[ci]

Init == ci \in 1..Len(Cases) /\ k = 0 /\ bad = {}

Off(outs) == {outs[j].name \o ":" \o outs[j].st : j \in {x \in 1..Len(outs) : outs[x].st # "ok"}}

Whole ==
  /\ k < Len(Case.wholes)
  /\ LET w == Case.wholes[k + 1]
         part(j) == [f \in 1..Len(w.parts) |-> Case.frags[w.parts[f]].outs[j]]
     IN bad' = bad \cup Off(w.outs) \cup
          {w.outs[j].name \o ":value" : j \in {x \in 1..Len(w.outs) :
             /\ w.outs[x].st = "ok"
             /\ \A f \in 1..Len(w.parts) : part(x)[f].st = "ok"
             /\ ~Fits(w.outs[x].kind, w.own, w.outs[x].blk, w.outs[x].val,
                      [f \in 1..Len(w.parts) |-> part(x)[f].val])}}
  /\ k' = k + 1 /\ UNCHANGED ci

Done ==
  /\ k = Len(Case.wholes)
  /\ bad' = bad \cup UNION {Off(Case.frags[f].outs) : f \in 1..Len(Case.frags)}
  /\ PrintT("VERDICT " \o ToJson([id |-> Case.id, bad |-> SetToSeq(bad')]))
  /\ k' = k + 1 /\ UNCHANGED ci

Next == Whole \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
