#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and robsim/specs.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from robsim.specs import SPECS  # noqa: E402

T = {
 "C01": ("deterministic simulation: seeded thread interleavings at statement granularity, compared with solo runs",
         "Seeded search over interleavings of 2-4 threads; switches happen at executed lines of robpy, third-party "
         "calls are atomic. Says nothing about interleavings inside NumPy, SciPy or scikit-learn."),
 "C02": ("deterministic simulation: seeded query histories and interleavings, refinement against the fresh model",
         "Seeded search over query orders, batch boundaries, failing queries and thread schedules of one model."),
 "C03": ("deterministic simulation with injected interrupts: process-wide state compared around every call",
         "Seeded search; the compared state is the listed one, sampled at statement granularity for the global "
         "generators and at the end of calls for the rest."),
 "C04": ("deterministic simulation: the same seeded run under another entropy, clock, thread, history, hash "
         "seed and delivery of the input",
         "Exact comparison of seeded pairs of runs; other containers, layouts and number types up to rounding."),
 "C05": ("deterministic simulation of the random search against exhaustive reference models on small data",
         "Bounded to data small enough to enumerate every start; assumes many more draws than starts."),
 "C06": ("deterministic simulation with adversarial draws, refinement against a reference concentration step",
         "Seeded search over data, parameters and draw faults; numerically singular solutions excluded."),
 "C07": ("deterministic simulation with adversarial draws, refinement against reference estimating equations",
         "Seeded search over data, parameters and draw faults; exact fits excluded from the equations."),
 "C08": ("deterministic simulation with injected failures of linear-algebra and allocation calls",
         "Seeded enumeration of failing calls (single, multiple, persistent) over the whole call tree."),
 "C09": ("deterministic simulation with exceptions injected at statements, library calls, callbacks, streams",
         "Seeded search over interruption points; C code is atomic."),
 "C10": ("deterministic simulation of random object lives, refinement against a fresh object",
         "Seeded search over histories with faults; numerical identity is required."),
 "C11": ("deterministic simulation of crash and restart: only pickled bytes or copies survive",
         "Seeded search over save points and lives; pickle protocols 2-5, deepcopy, clone."),
 "C12": ("deterministic simulation of file I/O with short reads, errors, other locales, caller mutations",
         "Seeded search; compared cell by cell with an independent reading of the shipped files."),
 "C13": ("deterministic simulation of log, stream, clock and plotting environments with faults",
         "Seeded search over settings and stream failures."),
 "C14": ("deterministic simulation with step budgets, adversarial draws and degenerate data",
         "Termination within a step budget on everything explored; third-party calls trusted to terminate."),
 "C15": ("deterministic simulation: concurrent observer, interrupts, library failures, caller overwrites",
         "Seeded search; contents, layout, dtype and writability of inputs are compared at statement granularity."),
 "C16": ("deterministic simulation with injected record corruption in arbitrary arrival order",
         "Seeded search with the default number of starts; compared with the clean records' own fit."),
 "C17": ("deterministic simulation with injected cell loss and corruption",
         "Seeded search; exact containment clauses plus comparison with the fault-free stream."),
 "C18": ("deterministic simulation of reordered and relabelled record streams against the original delivery",
         "Seeded search over orders and labels on data without ties; differences that rounding-sized noise causes "
         "as well are set aside."),
}
NA = {
 "N01": "A relation between two deterministic computations on different data: no schedule, fault, timing or draw is "
        "involved (the seeded draws are the same in both), so simulating the environment adds nothing; a metamorphic "
        "or algebraic method decides it.",
 "N02": "Pure function of the sample, single-threaded, no randomness or I/O: nothing for a simulator to control.",
 "N03": "Pure function of the sample and parameter: nothing for a simulator to control.",
 "N04": "Algebraic property of a returned value for each input; it depends on no schedule, fault or history beyond "
        "what C06, C10 and C14 already simulate.",
 "N06": "Input validation of single calls: a table of invalid inputs decides it, no environment is involved.",
 "N07": "Compares drawn artists with numbers for one call; no schedule, fault or history decides it (the "
        "plot-independence clauses that do depend on the environment are in C13).",
}
have = [c for c in T if c in SPECS and os.path.exists(f"{HERE}/robsim/checks/{c.lower()}.py")]
m = {
    "version": 1,
    "setup_cmd": "./check --selftest",
    "hooks": {"guard": "ROBSIM_NONE (no guarded code exists: every seam is outside /repo)",
              "enable": "nothing to enable; the checks import robpy from /repo's working tree",
              "source_commits": []},
    "checks": [{"property": c, "quick_cmd": f"./check {c} --tier quick",
                "thorough_cmd": f"./check {c} --tier thorough", "technique": T[c][0],
                "level": SPECS[c]["level"], "level_note": T[c][1]} for c in have],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()] + [
        {"property": c, "reason": "check under construction"} for c in T if c not in have],
    "notes": "All checks are seeded with VERIF_SEED; ./check --replay FILE repeats a reported violation.",
}
with open(f"{HERE}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
