#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks

SEQ = "TLA+ specification (Core.tla): model checked with TLC, its call sequences replayed into the library, recorded executions validated against it (trace validation)"
NOTES = dict(
 C02=(SEQ, "Exhaustive for the small model; sampled call sequences beyond it. Values are exactly representable (IEEE rounding itself is not specified)."),
 C03=(SEQ, "Exhaustive for a small model; sampled boundaries (any doubles) and observations beyond it."),
 C04=(SEQ, "Exhaustive for a small model; sampled increments, sums, boundary vectors beyond it."),
 C09=(SEQ, "Exhaustive for a small model; sampled histories incl. constructed hash collisions of libstdc++ beyond it."),
 C10=(SEQ, "Exhaustive for a small model; every position of an invalid label in a label map and sampled histories beyond it."),
 C11=(SEQ, "Exhaustive for a small model; all ordered pairs of types and sampled histories beyond it."),
 C14=(SEQ, "Exhaustive for a small model; sampled histories beyond it."),
)
try:
    from notes import NOTES as MORE
    NOTES.update(MORE)
except ImportError:
    pass
out = dict(version=1, setup_cmd="./setup", checks=[], not_applicable=[])
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
for i in ids:
    if i in checks.CHECKS:
        t, n = NOTES[i]
        out["checks"].append(dict(property=i, quick_cmd="./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i,
                                  evidence_file="evidence/%s.json" % i, technique=t, level="model_checking", level_note=n))
    else:
        out["not_applicable"].append(dict(property=i, reason="the check is not built yet"))
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
