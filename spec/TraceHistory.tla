---------------------------- MODULE TraceHistory ----------------------------
(***************************************************************************)
(* Conformance of recorded call histories.                                 *)
(*                                                                         *)
(* Objects and results are seen through digests.  A case has               *)
(*   objs       names of the argument objects, and the group of each       *)
(*   args[v]    the digests they have when their group is at version v     *)
(*   calls      for each call used, its name, group, view flag and the     *)
(*              digest of its result per version, measured by itself in a  *)
(*              process of its own (`want')                                *)
(*   events     what happened: after each event the digests of all         *)
(*              argument objects (`args') and of all kept results          *)
(*              (`kept'), and for a call the digest of what it returned    *)
(*              (`got').                                                   *)
(* The state is the one of SpecHistory seen through digests: the version   *)
(* of each group and the kept results.  The first event that contradicts   *)
(* it ends the case.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
Keep == 8

VARIABLES ci, e, ver, kept, ph
vars == <<ci, e, ver, kept, ph>>

Case == Cases[ci]
Event == Case.events[e]

Init == /\ ci \in 1..Len(Cases) /\ e = 1 /\ kept = <<>> /\ ph = "run"
        /\ ver = [g \in 1..Len(Cases[ci].groups) |-> 1]

Recent(s) == IF Len(s) > Keep THEN SubSeq(s, Len(s) - Keep + 1, Len(s)) ELSE s

\* What the caller knows after the event.
NextVer  == IF Event.k = "rewrite" THEN [ver EXCEPT ![Event.c] = 3 - @] ELSE ver
Want     == Case.calls[Event.c].want[ver[Case.calls[Event.c].g]]
NextKept ==
  CASE Event.k = "call" -> Recent(Append(kept, [c |-> Event.c, d |-> Want]))
    [] Event.k = "overwrite" -> [kept EXCEPT ![Event.c].d = Event.got]
    [] Event.k = "rewrite" ->
         SelectSeq(kept, LAMBDA r : ~(Case.calls[r.c].g = Event.c /\ Case.calls[r.c].view))

Actor == CASE Event.k = "call" -> Case.calls[Event.c].name
           [] Event.k = "overwrite" -> "overwriting result of " \o Case.calls[kept[Event.c].c].name
           [] Event.k = "rewrite" -> "rewriting arguments"

BadResult == IF Event.k = "call" /\ Event.got # Want THEN {Actor \o ":result"} ELSE {}
BadArgs == {Actor \o ":changed " \o Case.objs[k].name :
             k \in {j \in 1..Len(Case.objs) :
                      Event.args[j] # Case.objs[j].want[NextVer[Case.objs[j].g]]}}
BadKept(nk) ==
  IF Len(Event.kept) # Len(nk) THEN {Actor \o ":kept"}
  ELSE {Actor \o ":changed result of " \o Case.calls[nk[k].c].name :
         k \in {j \in 1..Len(nk) : /\ Event.kept[j] # nk[j].d
                                   /\ ~(Event.k = "call" /\ j = Len(nk))}}

Stop(bad) == /\ PrintT("VERDICT " \o ToJson([id |-> Case.id, at |-> e, bad |-> SetToSeq(bad)]))
             /\ ph' = "done" /\ UNCHANGED <<e, ver, kept>>
Run ==
  /\ ph = "run" /\ e <= Len(Case.events)
  /\ LET nk  == NextKept
         bad == BadResult \cup BadArgs \cup BadKept(nk)
     IN IF bad # {} THEN Stop(bad)
        ELSE e' = e + 1 /\ ver' = NextVer /\ kept' = nk /\ UNCHANGED ph
  /\ UNCHANGED ci
Finish == ph = "run" /\ e > Len(Case.events) /\ Stop({}) /\ UNCHANGED ci

Next == Run \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
