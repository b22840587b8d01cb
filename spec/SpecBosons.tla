----------------------------- MODULE SpecBosons -----------------------------
(***************************************************************************)
(* Vibrational strings: occupation vectors with raise and lower.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS MaxModes, MaxQuanta, Depth

VARIABLES m, cur, hist
vars == <<m, cur, hist>>

Raised(v, p)  == [v EXCEPT ![p] = @ + 1]
CanLower(v, p) == v[p] > 0
Lowered(v, p) == [v EXCEPT ![p] = @ - 1]

TypeOK == cur \in [1..m -> 0..(MaxQuanta + Depth + 1)]

(* Exhaustive exploration.                                                 *)
Init == m \in 1..MaxModes /\ cur \in [1..m -> 0..MaxQuanta] /\ hist = <<>>
Step(op, p) ==
  LET ok == op = "raise" \/ CanLower(cur, p)
      new == IF op = "raise" THEN Raised(cur, p) ELSE IF ok THEN Lowered(cur, p) ELSE cur
  IN /\ PrintT("STEP " \o ToJson([n |-> m, occ |-> cur, op |-> op, p |-> p - 1, ok |-> ok,
                                  new |-> new]))
     /\ cur' = new
     /\ UNCHANGED <<m, hist>>
InBounds == \A p \in 1..m : cur[p] <= MaxQuanta
Next == InBounds /\ \E op \in {"raise", "lower"} : \E p \in 1..m : Step(op, p)
Spec == Init /\ [][Next]_vars

Compare ==
  \A v \in [1..m -> 0..MaxQuanta] :
    PrintT("PAIR " \o ToJson([n |-> m, m |-> m, x |-> cur, y |-> v, eq |-> v = cur]))
CompareSpec == Init /\ [][FALSE]_vars

\* [b_p, b+_q] = d_pq on occupation vectors: lowering undoes raising, and
\* operations on different modes commute.
Undo == \A p \in 1..m : Lowered(Raised(cur, p), p) = cur
Commute == \A p, q \in 1..m : p # q /\ CanLower(cur, p) =>
             Lowered(Raised(cur, q), p) = Raised(Lowered(cur, p), q)

(* Histories.                                                              *)
(* TLC computes initial states once for all walks, so the start is a step.  *)
WalkInit == m = 1 /\ cur = <<0>> /\ hist = <<>>
WalkStart ==
  /\ hist = <<>>
  /\ \E k \in {RandomElement(1..MaxModes)} :
     \E r \in {RandomElement({3, 3, MaxQuanta \div 500, MaxQuanta \div 200, MaxQuanta})} :
     \E v \in {[p \in 1..k |-> IF RandomElement(1..4) = 1 THEN 0 ELSE RandomElement((IF r = 3 THEN 0 ELSE r - 30)..r)]} :
       m' = k /\ cur' = v /\ hist' = <<v>>
WalkStep ==
  /\ hist # <<>> /\ Len(hist) <= Depth
  /\ \E p \in {RandomElement(1..m)} : \E op \in {RandomElement({"raise", "lower"})} :
       LET ok == op = "raise" \/ CanLower(cur, p) IN
       /\ cur' = IF op = "raise" THEN Raised(cur, p) ELSE IF ok THEN Lowered(cur, p) ELSE cur
       /\ hist' = Append(hist, [op |-> op, p |-> p - 1, ok |-> ok, new |-> cur'])
       /\ m' = m
  /\ IF Len(hist') = Depth + 1 THEN PrintT("WALK " \o ToJson([n |-> m, h |-> hist'])) ELSE TRUE
Walks == WalkInit /\ [][WalkStart \/ WalkStep]_vars
=============================================================================
