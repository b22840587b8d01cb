----------------------------- MODULE SpecCalls ------------------------------
(***************************************************************************)
(* Histories over the library's actual functions.                          *)
(*                                                                         *)
(* The catalog (IOEnv.CATALOG) lists the calls the harness can make: the   *)
(* group of shared objects each works on, whether the caller may overwrite *)
(* its result in place, and whether its result is a view of its arguments  *)
(* (then rewriting the arguments rightly changes it).  The objects come in *)
(* variants (sizes, layout in memory).  A walk has the actions of          *)
(* SpecHistory; a third of the calls repeat one made before, and the last  *)
(* Keep results are kept.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

CONSTANTS Depth, Keep, Variants

Catalog == JsonDeserialize(IOEnv.CATALOG)
Groups  == JsonDeserialize(IOEnv.GROUPS)      \* sequence of sequences of group names

VARIABLES gs, var, kept, log
vars == <<gs, var, kept, log>>

Pool == {c \in 1..Len(Catalog) : \E g \in 1..Len(gs) : Catalog[c].grp = gs[g]}

\* Initial states are computed once for all walks, so the choice is a step.
Init == gs = <<>> /\ var = 1 /\ kept = <<>> /\ log = <<>>
Begin == /\ gs = <<>>
         /\ \E k \in {RandomElement(1..Len(Groups))} : gs' = Groups[k]
         /\ \E v \in {RandomElement(1..Variants)} : var' = v
         /\ UNCHANGED <<kept, log>>

Recent(s) == IF Len(s) > Keep THEN SubSeq(s, Len(s) - Keep + 1, Len(s)) ELSE s
Made == {log[k].c : k \in {j \in 1..Len(log) : log[j].k = "call"}}

Call ==
  \E again \in {RandomElement(1..3)} :
  \E c \in {RandomElement(IF again = 1 /\ Made # {} THEN Made
                          ELSE IF Pool \subseteq Made THEN Pool ELSE Pool \ Made)} :
    /\ log' = Append(log, [k |-> "call", c |-> c])
    /\ kept' = Recent(Append(kept, c))

Overwrite ==
  LET ok == {k \in 1..Len(kept) : Catalog[kept[k]].scr} IN
  /\ ok # {}
  /\ \E k \in {RandomElement(ok)} : log' = Append(log, [k |-> "overwrite", c |-> k])
  /\ UNCHANGED kept

Rewrite ==
  \E g \in {RandomElement(1..Len(gs))} :
    /\ log' = Append(log, [k |-> "rewrite", c |-> g])
    /\ kept' = SelectSeq(kept, LAMBDA c : ~(Catalog[c].grp = gs[g] /\ Catalog[c].view))

Step ==
  /\ gs # <<>> /\ Len(log) < Depth
  /\ \E r \in {RandomElement(1..10)} :
       IF r = 1 THEN Rewrite
       ELSE IF r <= 4 /\ (\E k \in 1..Len(kept) : Catalog[kept[k]].scr) THEN Overwrite
       ELSE Call
  /\ UNCHANGED <<gs, var>>

Publish ==
  /\ Len(log) = Depth
  /\ PrintT("WALK " \o ToJson([groups |-> gs, variant |-> var, log |-> log]))
  /\ log' = Append(log, [k |-> "end", c |-> 0])
  /\ UNCHANGED <<gs, var, kept>>

Next == Begin \/ Step \/ Publish
Spec == Init /\ [][Next]_vars

(* The exhaustive part: for every group and variant each call in turn is   *)
(* made, its result overwritten if the caller owns it, and made again.     *)
Single == {Catalog[c].grp : c \in 1..Len(Catalog)}
InitProbe == \E g \in Single : /\ gs = <<g>> /\ var \in 1..Variants /\ kept = <<>> /\ log = <<>>

Ended == log # <<>> /\ log[Len(log)].k = "end"
Probe ==
  LET left == Pool \ Made
      c    == IF var % 2 = 1 THEN CHOOSE x \in left : \A y \in left : x <= y
                            ELSE CHOOSE x \in left : \A y \in left : x >= y
      one  == Recent(Append(kept, c))
      call == [k |-> "call", c |-> c]
  IN /\ left # {} /\ ~Ended
     /\ log' = log \o (IF Catalog[c].scr THEN <<call, [k |-> "overwrite", c |-> Len(one)], call>>
                       ELSE <<call, call>>)
     /\ kept' = Recent(Append(one, c))
     /\ UNCHANGED <<gs, var>>
EndProbe ==
  /\ Pool \subseteq Made /\ ~Ended
  /\ PrintT("WALK " \o ToJson([groups |-> gs, variant |-> var, log |-> log]))
  /\ log' = Append(log, [k |-> "end", c |-> 0])
  /\ UNCHANGED <<gs, var, kept>>
SpecProbe == InitProbe /\ [][Probe \/ EndProbe]_vars

\* Only results the caller owns are overwritten.
Owned == \A k \in 1..Len(kept) : kept[k] \in Pool
=============================================================================
