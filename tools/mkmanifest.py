#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": ("generated grids vs geometric reference model", "Exact comparison of whole transition tables with an independent geometric construction; thin, odd/even and non-square shapes are generated deliberately."),
 "C02": ("generated coordinate pairs vs breadth-first search, metric laws", "Distances compared with breadth-first search on an explicit hexagonal lattice; laws checked on random triples, negative coordinates included."),
 "C03": ("stateful wall-edit sequences vs reference model", "Whole transition array, adjacency and valid actions compared after every edit; deterministic worlds only."),
 "C04": ("generated transition tables, sampling-frequency and rejection checks", "Support of draws is exact, frequencies use a bound with false-alarm probability below 1e-9 and a fixed seed."),
 "C05": ("stateful environment histories vs reference model", "Every call of a generated history is mirrored in an independent model; positions, histories, indicators compared after every call."),
 "C06": ("stateful environment histories vs reference model of features and counts", "All feature values and counts compared exactly after every call."),
 "C07": ("stateful histories with resets, differential against a freshly built environment", "State and action values after reset compared with a new identical environment."),
 "C08": ("generated MDPs vs independently solved optimum (policy iteration / linear solve)", "Tolerance derived from convergence tolerance and discount; iteration limit generous."),
 "C09": ("generated MDPs, residuals of soft Bellman equations and independent fixed point", "Reward magnitudes up to 1e6."),
 "C10": ("generated action-value tables vs exact policy reference, seeded frequency tests", "Includes NaN and -inf entries, ties, extreme magnitudes and temperatures."),
 "C11": ("generated distributions vs matrix reference, metamorphic linearity and scaling", "Exact up to 1e-9."),
 "C12": ("generated multi-agent runs vs turn-taking reference model", "Each move is checked for legality, order, number and stopping at catches; runs use a recording planner where schedules matter."),
 "C13": ("generated plan layouts vs reference and recorded planner arguments", "Layout compared exactly; runs record every n_moves argument given to planners."),
 "C14": ("generated tree searches, recomputation of values and visits from recorded trajectories", "The returned V, N and action values are recomputed independently from the recorded simulations; tree-choice rule checked through generated node statistics."),
 "C15": ("generated interactive searches vs replay of every simulation in a reference model", "Every recorded simulation is replayed in an independent model of turns, consumption and catches; opponents' moves checked against independently solved optimal actions."),
 "C16": ("differential: same seed with caching on and off over sequences of searches", "Trajectories, visits and values must be identical."),
 "C17": ("stateful histories of fits with snapshots, faulty plug-in planners", "Bit-for-bit comparison of state before and after planning."),
 "C18": ("sequences of valid and invalid specifications over one world vs reference layout", "After rejections the world must behave like one that never saw them."),
 "C19": ("round-trip through dictionary, JSON string and file, differential planning", "Index and coordinate forms cross-checked."),
 "C20": ("generated worlds rendered and sampled pixel by pixel", "Uses the Agg renderer; sampling at cell centres and along arrows; feature values in [0, 1]."),
 "C21": ("generated walks vs transition table, replay of recovered actions", "Deterministic and stochastic worlds, ambiguous moves included."),
 "C22": ("stateful fit/reset histories vs reference delta rule", "Exact up to 1e-8."),
 "C23": ("generated trajectory collections vs reference inference, metamorphic order/duplication/ignored-feature relations", "Reference solves soft and greedy planning independently; greedy policies only where untied."),
 "C24": ("generated worlds and trajectories vs reference line-of-sight walk", "Non-termination is detected by a per-case time limit far above the typical millisecond."),
 "C25": ("generated deterministic MDPs vs step-by-step summed visit distributions", "Tolerance 1e-6/(1-discount)."),
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    t, note = T[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"], technique="property-based testing: " + t, level="exploration",
                       level_note=note + " Random search: no absence proof; covers what the evidence file counts. Trusts NumPy, numba, Hypothesis and the reference model in harness/."))
m = dict(version=1, setup_cmd="./tools/setup", checks=checks, not_applicable=[],
         notes="No hooks in /repo. Checks import maMDP from /repo's working tree with fresh caches per run. known_findings.txt lists the repaired defects.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
