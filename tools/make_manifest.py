"""Writes /verif/MANIFEST.json."""
import json
import os

NOTES = {
    "C01": "differential: exact rational half-plane clipping as reference model; degenerate-biased generator",
    "C02": "differential: edges against the exact reference cells",
    "C03": "structural invariants of the half-edge structure over generated inputs",
    "C04": "differential: vertices against the exact reference corners",
    "C05": "differential (exact areas) and conservation of area over generated inputs",
    "C06": "metamorphic: with and without removal of zero-length edges; reference corners",
    "C07": "metamorphic: permuted sites, corners and number types",
    "C08": "metamorphic: translation, scaling, mirroring, turning",
    "C09": "metamorphic/stateful: histories of adding and removing sites",
    "C10": "metamorphic: nested bounding polygons",
    "C11": "monitored histories: every event of generated constructions against exact geometry",
    "C12": "model-based: beach line against the exact lower envelope after every step",
    "C13": "invariant over histories: tree shape after every step of generated constructions",
    "C14": "model-based stateful testing of tree operations against a sorted list",
    "C15": "model-based stateful testing of observer histories",
    "C16": "differential: observed against unobserved constructions; model of the option semantics",
    "C17": "differential: drawn matplotlib artists against the diagram's geometry",
    "C18": "differential: polygon queries against exact rational geometry",
    "C19": "round-trip and model-based testing of coordinates",
    "C20": "differential: formulas against exact / high-precision definitions",
    "C21": "model-based histories of shared objects, and scheduled interleavings of threads, against fresh constructions",
    "C22": "model-based stateful testing of half-edge operations",
    "C25": "invariant after every step, and exact borders of the unbounded diagram at the end of the sweep",
    "C24": "differential: exact reference cells cut by the circle with 80 digits",
    "C23": "differential: exact reference of the distinct locations; sites outside, repeated sites and corners",
}
LEVEL = ("generated-input search with Hypothesis (seeded, shrinking); bounds, distribution and tolerance in DESIGN.md; "
         "absence of a counterexample among the generated cases, not a proof")

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line)["id"] for line in open(os.path.join(root, "properties.jsonl"))]
checks = [{"property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p,
           "evidence_file": "evidence/%s.json" % p, "technique": "property-based testing; " + NOTES[p],
           "level": "exploration", "level_note": LEVEL} for p in props]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
