---------------------------- MODULE SpecHistory -----------------------------
(***************************************************************************)
(* Histories of calls over shared objects.                                 *)
(*                                                                         *)
(* Memory is a heap of cells.  The caller owns argument objects and the    *)
(* results of calls made so far; each is a name for a cell.  The caller    *)
(* may rewrite an argument in place, overwrite a result in place, and      *)
(* call.  `truth' is what the caller believes the arguments hold and       *)
(* `want' what a result must hold: the meaning of the call for the         *)
(* arguments at the time.  Faithful says that belief and memory agree.     *)
(*                                                                         *)
(* A faithful library allocates a new cell for each result and writes to   *)
(* no other.  Fault selects one of the ways in which real code goes wrong; *)
(* for each of them TLC must find a history that contradicts Faithful,     *)
(* which shows that the observations used by TraceHistory (arguments and   *)
(* kept results after every event) are enough to see it.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Args, Calls, Values, MaxLen, Fault

VARIABLES heap, cell, truth, res, cache, len
vars == <<heap, cell, truth, res, cache, len>>

\* What the caller may put into an argument.
Contents == {<<"v", v>> : v \in Values}

\* The first call reads every argument, the others only one of them.
First == CHOOSE c \in Calls : TRUE
Reads(c) == IF c = First THEN Args ELSE {CHOOSE a \in Args : TRUE}
Meaning(c, st) == <<c, [a \in Reads(c) |-> st[a]]>>

Init == /\ cell \in {f \in [Args -> 1..Cardinality(Args)] : \A a, b \in Args : a # b => f[a] # f[b]}
        /\ truth \in [Args -> Contents]
        /\ heap = [k \in 1..Cardinality(Args) |-> truth[CHOOSE a \in Args : cell[a] = k]]
        /\ res = <<>> /\ cache = <<>> /\ len = 0

NewCell(h, v) == Append(h, v)
Held(a) == heap[cell[a]]

\* The library computes from what memory holds, which may differ from truth.
Computed(c) == <<c, [a \in Reads(c) |-> Held(a)]>>

Call(c) ==
  LET want == Meaning(c, truth)
      v    == IF Fault = "caches" /\ \E k \in 1..Len(cache) : cache[k][1] = c
              THEN cache[CHOOSE k \in 1..Len(cache) : cache[k][1] = c][2]
              ELSE Computed(c)
      mine == {k \in 1..Len(res) : res[k].call = c}
      h0   == IF Fault = "mutates"
              THEN [heap EXCEPT ![cell[CHOOSE a \in Reads(c) : TRUE]] = <<"spoiled", c>>]
              ELSE heap
  IN /\ cache' = IF Fault = "caches" THEN Append(cache, <<c, v>>) ELSE <<>>
     /\ IF Fault = "reuses" /\ mine # {}
        THEN LET k == CHOOSE k \in mine : TRUE
             IN /\ heap' = [h0 EXCEPT ![res[k].cell] = v]
                /\ res' = Append(res, [call |-> c, cell |-> res[k].cell, want |-> want])
        ELSE IF Fault = "aliases" /\ c # First
        THEN \* the value is the argument's own cell (a function that returns its input)
             LET a == CHOOSE a \in Reads(c) : TRUE
             IN /\ heap' = h0
                /\ res' = Append(res, [call |-> c, cell |-> cell[a],
                                       want |-> truth[a]])
        ELSE /\ heap' = NewCell(h0, v)
             /\ res' = Append(res, [call |-> c, cell |-> Len(h0) + 1, want |-> want])
     /\ UNCHANGED <<cell, truth>>

Rewrite(a, v) ==
  /\ v # truth[a]
  /\ heap' = [heap EXCEPT ![cell[a]] = v]
  /\ truth' = [truth EXCEPT ![a] = v]
  /\ UNCHANGED <<cell, res, cache>>

Overwrite(k) ==
  /\ heap' = [heap EXCEPT ![res[k].cell] = <<"scribble", len>>]
  /\ res' = [res EXCEPT ![k].want = <<"scribble", len>>]
  /\ UNCHANGED <<cell, truth, cache>>

Next == /\ len < MaxLen /\ len' = len + 1
        /\ \/ \E c \in Calls : Call(c)
           \/ \E a \in Args : \E v \in Contents : Rewrite(a, v)
           \/ \E k \in 1..Len(res) : Overwrite(k)
Spec == Init /\ [][Next]_vars

Faithful == /\ \A a \in Args : Held(a) = truth[a]
            /\ \A k \in 1..Len(res) : heap[res[k].cell] = res[k].want
=============================================================================
