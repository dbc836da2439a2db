#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per claimed property."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = {
 "P01": "property-based round trip over generated models (rapid), structural comparison",
 "P02": "property-based round trip over generated extension content (rapid)",
 "P03": "property-based round trip and metamorphic insertion of unknown content (rapid)",
 "P04": "differential: generated packages read by an independent ZIP/XML reader against a reference document mapping",
 "P05": "metamorphic respelling of generated documents plus reference document mapping (rapid)",
 "P06": "structure-aware mutation and coverage-guided fuzzing of documents and packages, crash/hang/allocation oracle",
 "P07": "injection of invalid attribute values into generated documents against an expected error list",
 "P08": "fault injection: truncation, corruption and read errors at generated offsets",
 "P09": "fault injection: failing destinations and attachment streams at generated offsets",
 "P10": "generated multi-part packages decoded under the race detector against a sequential reference",
 "P11": "generated cancellation points against a context oracle",
 "P12": "metamorphic repetition and splitting of saves (rapid)",
 "P13": "differential against a reference validator over perturbed generated models (rapid)",
 "P14": "differential against a reference validator over perturbed generated extension content (rapid)",
 "P15": "generated cyclic and dangling models, totality oracle, race detector",
 "P16": "differential against a naive manifold oracle over generated and perturbed meshes",
 "P17": "differential against an exact reference bounding box over generated assemblies",
 "P18": "model-based stateful testing of the mesh builder against a reference (rapid)",
 "P19": "generated STL files (binary and ASCII) against the triangles they were written from",
 "P20": "fault injection and mutation of STL files, no-change and allocation oracle",
 "P21": "generated models and strings against a reference UUID grammar and completion oracle",
 "P22": "differential against naive lookup, traversal and identifier references (rapid)",
 "P23": "property-based save and reload of attachments and relationships, independent package reader",
 "P24": "generated documents and models against a recording extension (rapid)",
 "P25": "model-based testing of error collection and wrapping against a reference (rapid)",
 "P27": "generated operation histories and concurrent mixtures, each outcome against the same operation alone, under the race detector (rapid)",
 "P26": "property-based testing of codecs and matrix algebra against float64/big references (rapid)",
}
NOTE = ("Sampled inputs, not a proof: holds on every generated case of the stated domain and bounds; "
        "the generators' limits are listed in DESIGN.md.")
built = set(open(os.path.join(here, "built.txt")).read().split())
checks, na = [], []
for p in sorted(T):
    if p in built:
        checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": T[p], "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": p, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check builds harness/ against /repo's working tree (replace directive) and runs one worker process per sub-check; KNOWN_FINDINGS lists recorded and repaired defects."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "..", "MANIFEST.json"), "a").write("\n")
