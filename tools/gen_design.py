#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the text below, the metadata of
the check modules, known_findings.jsonl and seeded/*/meta.json + the recorded
screening results in tools/screening.json.  Run by hand (repo's python)."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "tools"), "/repo"]
from props import PROPS  # noqa: E402

TEXT = {
    "C01": """The generated system (eigenpairs, initial state) is the ground truth; monitors
compare spectrum, mode directions, reconstruction, forecast/hindcast beyond the window and
predict() with it. `weak` adds modes five orders of magnitude below the dominant one, so an
absolute tolerance or a lost direction shows; `pairs` fits (X, Y) not consecutive in time.""",
    "C02": """An online monitor recomputes dynamics, reconstruction, time steps, frequency and
growth rate from the *public* modes/eigs/amplitudes after every step of a history of window
changes (rescaled, shifted, ragged, assigned, aliased dictionaries) and refits. State machine:
(original_time, dmd_time) as plain numbers, changed by the monitor in lockstep.""",
    "C03": """Defining equations are the oracle: U*U = I, the truncated product is the best rank-r
approximation, the rank rule is re-implemented from the documentation (Gavish-Donoho
coefficient by integration of the Marchenko-Pastur law), tlsq projector, ||A - QB|| of the
randomized QB against the optimal truncation, delay matrix entry by entry, difference stencils
on polynomials of exactly the order they are exact for. `ties` has exactly equal energies.""",
    "C04": """Independent dense linear algebra (no shared code) builds the documented operator; the
set of (eigenvalue, mode) pairs must agree up to mode scale. Metamorphic monitors: scaling of the
data, unitary change of coordinates, rescaling, exact/projected leave eigenvalues unchanged.""",
    "C05": """Amplitudes are compared with `lstsq` on the published modes for the chosen snapshot or,
for opt=True, with the explicit space-time least-squares problem over all snapshots.""",
    "C06": """Differential monitor: a used instance and a fresh one, same class/options/data/seed, must
agree observation by observation after histories with failing fits, reads, masks and windows;
the global generator is sampled before/after to see who consumes it.""",
    "C07": """Content digests of all caller-owned objects and of global state (NumPy generator and error
state, rcParams, environ, cwd) before/after every action; write-protected inputs are the injected
fault; results are overwritten through the handed-out arrays to find aliases.""",
    "C08": """A reference model of (mode, eigenvalue, amplitude, active) tuples is driven by the same
operations as all living instances; every observation of every instance is judged after every
step, including rejected operations (which must have no effect).""",
    "C09": """Round trip through file, pickle protocols 2-5, copy, deepcopy and a second interpreter;
then both objects get the same further operations and must stay equal; truncation of the file at
random byte positions is the injected fault.""",
    "C10": """The fit on a flat C-ordered float matrix is the reference; every other representation of
the same numbers must give the same observations (same memory order of the reference where BLAS
round-off depends on it). Malformed inputs must raise and leave the instance unfitted or with the
earlier fit, never a silent result.""",
    "C11": """Delay matrices are rebuilt entry by entry; every instant of the reconstruction is compared
with the first/mean/weighted combination of the delayed copies present in the extended dynamics;
HAVOK's regression, forced integration and derivative are recomputed with scipy.""",
    "C12": """The true (A, B, u) is the oracle for identification and for the response to control
sequences never seen in the fit; on generic data the truncated least-squares solution is
recomputed.""",
    "C13": """Each manifold is represented by an explicit basis (or, for unitary, by its Procrustes
certificate): distance of A to the span decides membership, the unconstrained least-squares
solution over the basis decides optimality.""",
    "C14": """Ground truth on exact data; on any data first-order certificates: least-squares optimality
of the modes for the reported eigenvalues, residual no worse than at the initial guess, vanishing
projected gradient at convergence, constraint sets, metamorphic relations in time and data.
Bagging: the trial fits are replayed one by one from the seed.""",
    "C15": """As C14 for VarProDMD: certificates on the selected samples, reported cost and ssr,
selected-sample count and distinctness, sorting of eigenvalues with modes and amplitudes.""",
    "C16": """Every bin of every level is replayed with a stand-alone sub-DMD on the residual of the
levels above; slowness of each retained eigenvalue is recomputed; sums of levels are compared with
the reconstruction; partial_* and time_window_* are compared with the replay.""",
    "C17": """Explicit feature maps of polynomial kernels turn EDMD into exact DMD on features, which
is solved independently; Koopman eigenfunctions of systems with closed features are the ground
truth at unseen points.""",
    "C18": """Independent least-squares (batch) and recursive (online) solution over the reported
dictionary; almost-linear-dependence residual of every sample; Jacobian against complex-step /
central differences of f; split into bias/linear/nonlinear is checked pointwise.""",
    "C19": """KKT conditions of the restricted problem for the reported support, and a replay of the
ADMM iteration for the support itself.""",
    "C20": """Every window is replayed with a bare BOPDMD on an independently cut, demeaned and tapered
window; bands are checked as frequency intervals; overlap-add, chain of levels, global bands and
file round trips are recomputed.""",
    "C21": """The wrapped class is fitted on data transformed by independent code; the inverse
transformation of its reconstruction is the oracle for the decorated model.""",
    "C22": """Reference model of (mode, eigenvalue, amplitude, active) tuples with the documented
criteria re-implemented; histories of functions, tuner calls, masks and windows.""",
    "C23": """The three stages (reduction, DMD, interpolation) are replayed with separate instances of
the same building blocks; data affine in the parameter are ground truth at unseen parameters.""",
    "C24": """matplotlib is the observation point: figures are recorded (saved or shown) and the drawn
points, curves, meshes, images, discs, colours, titles and files are compared with numbers computed
from the model.""",
}


def main():
    out = [open(os.path.join(ROOT, "tools", "design_head.md")).read().rstrip(), ""]
    out += ["## Properties", ""]
    for p in PROPS:
        i = p["id"]
        m = importlib.import_module("checks." + i.lower())
        out.append("### %s %s" % (i, p["title"]))
        out.append(TEXT[i].strip())
        out.append("")
        out.append("*Why tests cannot settle it:* " + p["why_tests_cant"]
                   if p.get("why_tests_cant") else "")
        out.append("")
        out.append("*Workloads (cases quick / thorough):* " + ", ".join(
            "%s %d / %d" % (k, v["quick"], v["thorough"]) for k, v in m.WORKLOADS.items())
            + ". *Floors:* " + ", ".join("%s >= %d" % kv for kv in m.REQUIRED.items()) + ".")
        if m.ASSUMPTIONS:
            out.append("")
            out.append("*Bounds:* " + "; ".join(m.ASSUMPTIONS) + ".")
        out.append("")
    out += ["## Known findings and repaired defects", "",
            "Recorded, because repairing them changes numbers or semantics that the existing "
            "tests pin:", ""]
    fixed = []
    for line in open(os.path.join(ROOT, "known_findings.jsonl")):
        line = line.strip()
        if line.startswith("fixed:"):
            fixed.append(line[7:])
        elif line:
            d = json.loads(line)
            out.append("* %s `%s`: %s" % (d["property"], d["kind"], d["what"]))
    out += ["", "A known finding is recognised by its *characterisation* (the wrong result is "
            "recomputed from the recorded deviation); any other deviation of the same property is "
            "reported as a violation.", "",
            "Repaired in /repo, one `fix:` commit each (%d): see known_findings.jsonl; by "
            "property: " % len(fixed)
            + ", ".join("%s %d" % (k, sum(1 for f in fixed if "property=" + k in f))
                        for k in sorted({f.split("property=")[1][:3] for f in fixed})) + ".", ""]
    out.append(open(os.path.join(ROOT, "tools", "design_tail.md")).read().rstrip())
    out += ["", "## Planted changes", "",
            "Kept under seeded/ (each confirmed: builds, passes the 589 stable tests, its demo "
            "fails with it and passes without):", "",
            "| change | property | needs | caught by |", "|---|---|---|---|"]
    scr = json.load(open(os.path.join(ROOT, "tools", "screening.json")))
    sd = os.path.join(ROOT, "seeded")
    for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        d = json.load(open(os.path.join(sd, s, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (s, d["property"], d["needs"].replace("|", "/"),
                                             scr["seeded"].get(s, "?")))
    out += ["", scr["note"], ""]
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write("\n".join(out))


main()
