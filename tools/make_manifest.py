"""Writes MANIFEST.json from the checks that exist."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True
import check  # noqa: E402

CCNOTE = ("TLC runs the coupled-cluster machine of spec/CoupledCluster.tla on every recorded "
          "system and compares each returned entry exactly; sizes are bounded, entries are "
          "random (polynomial identity testing).")
LEVEL = {p: CCNOTE for p in ("C08", "C09", "C10", "C11", "C13", "C14", "C15", "C16")}
LEVEL.update(
    C01="All transitions of all strings up to the bound are explored by TLC and replayed on the real "
        "strings; larger strings by simulated walks.",
    C02="Every recorded list is compared by TLC with the set of configurations defined in the "
        "specification, for all occupation patterns up to the bound.",
    C03="All pairs of determinants of the recorded sectors are compared exactly with the operator "
        "definition; integrals are random exact numbers.",
    C04="Recorded histories of operator applications are replayed by TLC step by step on the "
        "specification's vectors.",
    C05="Recorded coefficients are compared exactly with the exponential series applied by TLC.",
    C06="Each element of every recorded conversion is compared with the position map; sizes are "
        "enumerated with zeros and unequal spins.",
    C07="Each element of every recorded block is compared; splits are enumerated per axis.",
    C12="Recorded results are compared exactly with the Riccati forms; sizes bounded, entries random.",
    C17="Recorded integrals are compared with TLC's own transformation of the AO integrals on a "
        "fixed-point grid with a stated tolerance; bounded molecules and coefficient sets.",
    C18="As C17 for cells and k-meshes, with momentum conservation decided by the specification.",
    C19="Every code and the recorded occupation patterns are judged against the block definition.",
    C20="TLC computes the functions itself in multi-limb fixed point and compares recorded doubles; "
        "points are bounded but cover all regimes and the boundaries between them.",
    C21="As C20 for the grand potentials and their derivatives.",
    C22="Each element is compared with the index formula; sizes enumerated.",
    C23="Each factory's recorded tensors are checked against symmetry clauses, including that nothing "
        "else is tied; sizes and generator states are sampled.",
    C24="All transitions of all occupations up to the bound are explored by TLC and replayed; longer "
        "histories by simulated walks.",
    C25="TLC generates call histories over shared objects; they are replayed and the recorded "
        "observations are judged against a machine in which calls do not change the store.",
    C26="TLC generates the choice of implementation per step; the recorded iteration is judged "
        "against the coupled-cluster machine iterated by TLC.",
    C27="TLC shows for the machine that the Lagrangian is stationary as stated; recorded energies, "
        "residuals, Lambda residuals and densities are contracted by TLC and judged against each other.",
    C28="All short histories of relabellings are explored by TLC and long ones walked; they are carried "
        "out on arguments and the recorded results compared with the transformed first ones.",
    C29="TLC shows extensivity for the machine; recorded results of assembled systems are judged against "
        "those of their parts.",
    C30="Recorded CI products are judged against TLC's exponential applied to recorded energies and "
        "residuals; sizes bounded, entries random.",
    C31="TLC shows for the machine that electrons and holes give the same results; recorded results for "
        "both descriptions are judged against each other.",
    C32="TLC shows linearity for the machine; recorded results for sums of arguments are judged against "
        "those for the terms.",
)

checks = []
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
have = [p for ps in check.MODULES.values() for p in ps]
for p in props:
    if p["id"] not in have:
        continue
    checks.append(dict(
        property=p["id"],
        quick_cmd="/opt/venv/bin/python /verif/harness/check.py %s" % p["id"],
        thorough_cmd="/opt/venv/bin/python /verif/harness/check.py %s thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique="TLA+ specification checked with TLC; recorded calls of the library are judged "
                  "against it",
        level="model_checking", level_note=LEVEL[p["id"]]))
m = dict(version=1, setup_cmd="bash /verif/setup.sh", checks=checks, not_applicable=[])
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
