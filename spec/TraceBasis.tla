----------------------------- MODULE TraceBasis -----------------------------
(***************************************************************************)
(* Conformance of recorded string lists and CI bases.                      *)
(*   "strings"  k-fold excitations of `ref' over `n' orbitals              *)
(*   "spin"     alpha/beta basis of order `k' over m orbitals              *)
(*   "gen"      spin-orbital basis of order `k'                            *)
(*   "boson"    all vectors with between `lo' and `k' quanta               *)
(* `first' says whether the reference must be there and lead the list.     *)
(***************************************************************************)
EXTENDS CI, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, done
vars == <<ci, done>>
Case == Cases[ci]


Reference ==
  CASE Case.kind = "strings" -> ToSet(Case.ref)
    [] Case.kind = "spin" -> (1..Case.na) \cup ((Case.n + 1)..(Case.n + Case.nb))
    [] Case.kind = "gen" ->
         LET nb == Case.na \div 2 IN
         (1..(Case.na - nb)) \cup ((Case.n \div 2 + 1)..(Case.n \div 2 + nb))
    [] Case.kind = "boson" -> [p \in 1..Case.n |-> 0]

Expected ==
  LET n == Case.n  k == Case.k IN
  CASE Case.kind = "strings" -> Excited(Reference, 1..n, k)
    [] Case.kind = "spin" ->
         UpToSpin(1..Case.na, 1..n, (n + 1)..(n + Case.nb), (n + 1)..(2 * n), k)
           \ (IF Case.first THEN {} ELSE {Reference})
    [] Case.kind = "gen" -> UpTo(Reference, 1..n, k) \ (IF Case.first THEN {} ELSE {Reference})
    [] Case.kind = "boson" -> UNION {Quanta(n, q) : q \in Case.lo..k}

Got == IF Case.kind = "boson" THEN Case.got
       ELSE [x \in 1..Len(Case.got) |-> ToSet(Case.got[x])]

Bad ==
  IF Case.st # "ok" THEN {Case.st}
  ELSE LET got == TLCEval(Got)
           set == TLCEval({got[x] : x \in 1..Len(got)})
           exp == TLCEval(Expected) IN
       (IF \E d \in exp : d \notin set THEN {"omission"} ELSE {})
       \cup (IF \E d \in set : d \notin exp THEN {"intruder"} ELSE {})
       \cup (IF Cardinality(set) # Len(got) THEN {"duplicate"} ELSE {})
       \cup (IF Case.first /\ (Len(got) = 0 \/ got[1] # Reference)
             THEN {"reference-not-first"} ELSE {})

Init == ci \in 1..Len(Cases) /\ done = FALSE
Judge == /\ ~done /\ done' = TRUE /\ UNCHANGED ci
         /\ PrintT("VERDICT " \o ToJson([id |-> Case.id, bad |-> SetToSeq(Bad)]))
Spec == Init /\ [][Judge]_vars
=============================================================================
