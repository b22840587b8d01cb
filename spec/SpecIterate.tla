---------------------------- MODULE SpecIterate -----------------------------
(***************************************************************************)
(* Who computes the next step of a coupled-cluster iteration.              *)
(*                                                                         *)
(* A user holds T and Lambda amplitudes in one of the representations      *)
(*    "g" spin-orbital, "u" alpha/beta, "r" closed shell,                  *)
(* and at each step updates T, updates Lambda, asks for the energy, or     *)
(* prepares the Lambda intermediates, with any implementation of any       *)
(* representation the system has.  Using another representation converts   *)
(* what is held; intermediates are of use until T changes.  TLC enumerates *)
(* (or walks through) the schedules; the harness replays them and          *)
(* TraceIterate judges the amplitudes and energies along the way.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS Depth, Systems       \* Systems \subseteq {"g", "u", "r"}

VARIABLES form, trep, lrep, held, log
vars == <<form, trep, lrep, held, log>>

Reps(f) == CASE f = "g" -> {"g"} [] f = "u" -> {"g", "u"} [] f = "r" -> {"g", "u", "r"}

Amps(r) == CASE r = "g" -> {"ccsd_simple", "ccsd_stanton"}
             [] r = "u" -> {"uccsd_stanton"}
             [] r = "r" -> {"rccsd_stanton"}
Lams(r) == CASE r = "g" -> {"ccsd_lambda_simple", "ccsd_lambda_opt", "ccsd_lambda_stanton"}
                           \cup (IF held THEN {"ccsd_lambda_opt_int"} ELSE {})
             [] r = "u" -> {"uccsd_lambda_opt"}
             [] r = "r" -> {"rccsd_lambda_opt"}
Energies(r) == CASE r = "g" -> {"cc_energy"} [] r = "u" -> {"ucc_energy"} [] r = "r" -> {"rcc_energy"}

Note(k, r, m) == log' = Append(log, [k |-> k, r |-> r, m |-> m])

Init == /\ form \in Systems
        /\ trep = form /\ lrep = form /\ held = FALSE /\ log = <<>>

UpdateT == \E r \in Reps(form) : \E m \in Amps(r) :
             /\ trep' = r /\ held' = FALSE /\ Note("amp", r, m) /\ UNCHANGED lrep
UpdateL == \E r \in Reps(form) : \E m \in Lams(r) :
             /\ trep' = r /\ lrep' = r /\ Note("lam", r, m) /\ UNCHANGED held
Energy  == \E r \in Reps(form) : \E m \in Energies(r) :
             /\ trep' = r /\ Note("energy", r, m) /\ UNCHANGED <<lrep, held>>
Prepare == /\ ~held /\ held' = TRUE /\ trep' = "g"
           /\ Note("prep", "g", "lambda_int") /\ UNCHANGED lrep

Step == /\ Len(log) < Depth
        /\ \/ UpdateT \/ UpdateL \/ Energy \/ Prepare
        /\ UNCHANGED form

\* A complete schedule is printed once.
Publish == /\ Len(log) = Depth
         /\ PrintT("SCHED " \o ToJson([form |-> form, log |-> log]))
         /\ log' = Append(log, [k |-> "end", r |-> form, m |-> ""])
         /\ UNCHANGED <<form, trep, lrep, held>>

Next == Step \/ Publish
Spec == Init /\ [][Next]_vars

(* Intermediates are used only while the amplitudes they were made from     *)
(* are the current ones.                                                    *)
Last(k) == LET S == {n \in 1..Len(log) : log[n].k = k}
           IN IF S = {} THEN 0 ELSE CHOOSE n \in S : \A o \in S : o <= n
Fresh == /\ held => Last("prep") > Last("amp")
         /\ \A n \in 1..Len(log) : log[n].m = "ccsd_lambda_opt_int" =>
              \E p \in 1..(n - 1) : /\ log[p].k = "prep"
                                    /\ \A q \in p..n : log[q].k # "amp"
TypeOK == trep \in Reps(form) /\ lrep \in Reps(form) /\ held \in BOOLEAN
=============================================================================
