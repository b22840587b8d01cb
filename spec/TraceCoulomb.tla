---------------------------- MODULE TraceCoulomb ----------------------------
(***************************************************************************)
(* Conformance of recorded integrals.  A case has the atomic integrals, a  *)
(* pool of orbitals and recorded arrays; `ax' of an array names the pool   *)
(* orbitals along each axis.  Values are fixed point, so they may differ   *)
(* by what rounding the atomic integrals can amount to.                    *)
(***************************************************************************)
EXTENDS Coulomb, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, done
vars == <<ci, done>>
Case == Cases[ci]
Orb(i) == Case.orbs[i]

Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == Abs(a[1] - b[1]) <= Case.tol /\ Abs(a[2] - b[2]) <= Case.tol

Want4(o, p, q, r, s) ==
  CASE o.kind = "chem" -> Chem(Case.ao, Case.mesh, Case.at, Orb(p), Orb(q), Orb(r), Orb(s), o.anti)
    [] o.kind = "phys" -> Phys(Case.ao, Case.mesh, Case.at, Orb(p), Orb(q), Orb(r), Orb(s), o.anti)

\* Tables over k-points: the fourth momentum is the one that conserves.
TableAxes(o) ==
  LET k == o.ks
      k4 == IF o.kind = "chemtab" THEN Fourth(Case.mesh, Case.at, k[1], k[2], k[3])
            ELSE Fourth(Case.mesh, Case.at, k[1], k[3], k[2])
      of(x) == SelectSeq([i \in 1..Len(Case.orbs) |-> i], LAMBDA i : Orb(i).k = x)
  IN <<of(k[1]), of(k[2]), of(k[3]), of(k4)>>

Diff4(o, ax, want(_, _, _, _)) ==
  \E a \in 1..Len(ax[1]), b \in 1..Len(ax[2]), c \in 1..Len(ax[3]), d \in 1..Len(ax[4]) :
     ~Near(o.val[a][b][c][d], want(ax[1][a], ax[2][b], ax[3][c], ax[4][d]))

Wrong(o) ==
  IF o.kind = "flag" THEN o.got # o.want
  ELSE IF o.st # "ok" THEN TRUE
  ELSE CASE o.kind \in {"chem", "phys"} ->
              Diff4(o, o.ax, LAMBDA p, q, r, s : Want4(o, p, q, r, s))
         [] o.kind = "chemtab" -> Diff4(o, TableAxes(o), LAMBDA p, q, r, s :
              Chem(Case.ao, Case.mesh, Case.at, Orb(p), Orb(q), Orb(r), Orb(s), FALSE))
         [] o.kind = "phystab" -> Diff4(o, TableAxes(o), LAMBDA p, q, r, s :
              Phys(Case.ao, Case.mesh, Case.at, Orb(p), Orb(q), Orb(r), Orb(s), FALSE))
         [] o.kind = "core" ->
              \E a \in 1..Len(o.ax[1]), b \in 1..Len(o.ax[2]) :
                ~Near(o.val[a][b], Core(Case.h, Orb(o.ax[1][a]), Orb(o.ax[2][b])))

Bad == {Case.outs[k].name \o (IF Case.outs[k].st = "ok" THEN ":value" ELSE ":" \o Case.outs[k].st)
          : k \in {j \in 1..Len(Case.outs) : Wrong(Case.outs[j])}}

Init == ci \in 1..Len(Cases) /\ done = FALSE
Judge == /\ ~done /\ done' = TRUE /\ UNCHANGED ci
         /\ Assert(Closed(Case.mesh, Case.at), "mesh")
         /\ PrintT("VERDICT " \o ToJson([id |-> Case.id, bad |-> SetToSeq(Bad)]))
Spec == Init /\ [][Judge]_vars
=============================================================================
