#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": ("generated models and records, reference router over the JSON dump", "synthetic and trained ensembles; bitwise"),
 "C02": ("differential: repeated fits, serial against parallel, 1-8 thread pools", "thread schedules are sampled, not enumerated"),
 "C03": ("round trip over generated models, JSON text and files", "bitwise on predictions and contributions"),
 "C04": ("reference binning model and metamorphic monotone transformations", "exact"),
 "C05": ("structural invariants of trees fitted on generated data", "exact"),
 "C06": ("reference routing of the training records, hessian sums", "single-precision tolerance derived from the summation"),
 "C07": ("reference Newton step per node", "single-precision tolerance derived from the summation"),
 "C08": ("reference exhaustive split search over generated data", "small data so that all splits can be enumerated; near-ties within rounding accepted"),
 "C09": ("metamorphic: sweeps of one constrained feature over generated models", "all split values of the model and values next to them"),
 "C10": ("reference routing, sentinel substitution, direction oracle", "near-ties within rounding accepted"),
 "C11": ("reference missing-branch model per treatment", "single-precision tolerance"),
 "C12": ("invariant: additivity over generated ensembles", "tolerance relative to the weights"),
 "C13": ("reference brute-force Shapley values and path walks", "up to 6 features per brute force"),
 "C14": ("reference recursive expectation; Python grid against it (Hypothesis)", "single-precision proportions"),
 "C15": ("reference aggregation over the dumped splits", "single-precision sums"),
 "C16": ("reference metrics on truncated models, stopping rule simulation", "exact stopping rule; metric values up to rounding"),
 "C17": ("reference metric definitions and metamorphic relations", "O(n^2) AUC on up to some hundred records"),
 "C18": ("reference closed forms, numeric derivatives", "single-precision tolerance"),
 "C19": ("reference replay of sampled trees and statistical bounds over seeds", "probabilities tested with bounds that a correct sampler misses with negligible chance; seeds fixed"),
 "C20": ("fault injection over generated valid and invalid inputs, corrupted documents", "crashes, hangs and panics are violations"),
 "C21": ("metamorphic: permutation, repetition, scaling, negation", "bitwise where powers of two make it exact"),
 "C22": ("differential over memory layouts and dtypes, and against the core library (Hypothesis)", "bitwise"),
 "C23": ("round trips through files, pickle, copy, clone and set_params (Hypothesis)", "bitwise"),
 "C24": ("reference reading of the JSON dump against every introspection call (Hypothesis)", "exact, sums up to rounding"),
 "C25": ("model-based operation sequences against a fresh booster (core and Hypothesis)", "bitwise"),
 "C26": ("parameter walks against an explicit parameter model, core and Python keywords", "exact"),
 "C27": ("differential against XGBoost on generated models (Hypothesis)", "same leaves; margins to 1e-5"),
 "C28": ("model of the stored elements against every accessor, over generated shapes and append/write sequences", "exact"),
 "C29": ("reference definitions over generated arguments", "exact, or rounding of the stated precision"),
 "C30": ("reference reading of each dumped tree against every function of the tree", "bitwise for routing, single precision for averages"),
}
checks = []
for k, (t, note) in sorted(T.items()):
    checks.append({
        "property": k, "quick_cmd": f"./check {k}", "thorough_cmd": f"VERIF_TIER=thorough ./check {k}", "evidence_file": f"evidence/{k}.json",
        "technique": "property-based testing: " + t, "level": "exploration",
        "level_note": f"Generated-input search with shrinking; {note}. Holds on everything explored, not a proof. See DESIGN.md for generators, oracle and bounds.",
    })
json.dump({"version": 1, "setup_cmd": "bash ./setup.sh", "checks": checks, "not_applicable": []}, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
