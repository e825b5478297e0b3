#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json and known_findings.txt's check list from one table."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T_ENUM = "bounded-exhaustive model checking of the real code: explicit enumeration of every scenario of stated bounded families, each executed on the implementation and compared with an independent reference model"
T_HIST = "bounded-exhaustive model checking of operation histories: every operation sequence up to a depth is executed on the real objects in lock-step with a reference model"
hist = {"C03", "C21", "C23", "C24", "C22"}
base = "Holds for every scenario of the enumerated families (counts, bounds and samples in the evidence file); nothing is sampled and nothing is claimed beyond them. Trusted: the reference geometry in /verif/mc, rustc, and that distinct features are separated by far more than the tolerance."
extra = {
 "C01": "Reference: exact rational all-pairs intersection. Double precision.",
 "C02": "Reference: independent all-pairs computation with zero/non-zero classification; scenes too close to call are skipped and counted. Double precision.",
 "C03": "Reference: a fresh sweep object given the same curves, plus the C02 reference.",
 "C04": "Reference: exact rational segment intersection; single precision only on exactly representable coordinates.",
 "C21": "Needs the containers public: built with --cfg rcgal_verif.",
 "C22": "The binding sources of /repo/src/wasm are compiled unchanged for the host against a stand-in wasm-bindgen and called directly; the generated JavaScript glue itself is not run.",
 "C23": "Retained memory is measured with a counting global allocator, output by redirecting the process's standard streams to a file.",
 "C25": "Work is the exact number of arithmetic steps of a counting number type; allowances leave a factor of at least two above the present implementation.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {"guard": "rcgal_verif", "enable": 'RUSTFLAGS="--cfg rcgal_verif" (run.sh sets it for C21 only)', "source_commits": ["87f0181fe9935aa5357a536dbafc5a5015a27ac9"]},
 "checks": [
  {
   "property": i,
   "quick_cmd": f"./run.sh {i}",
   "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
   "evidence_file": f"evidence/{i}.json",
   "technique": T_HIST if i in hist else T_ENUM,
   "level": "model_checking",
   "level_note": (base + " " + extra.get(i, "")).strip(),
  }
  for i in ids
 ],
 "not_applicable": [],
 "notes": "Replay a counterexample with ./run.sh <id> --replay <file>. See DESIGN.md.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]))
