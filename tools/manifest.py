#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "N01": "Pixels are the outcome of rasterisation, hinting and blending of floating point outlines in external modules (gg, freetype, x/image); no static argument over this repository's source bounds them. The part that is decided from source (which operations are drawn, where, with which font) is C17, C19 and C20.",
 "N02": "Ink extents come from glyph outlines inside the font files at run time, against a packed size that by design ignores overhang (kerns are negative, accents overhang): a numerical fact about font data, not about the shape of the code.",
 "N03": "Equality of floating point layout results with another program's output for every expression is a numerical fact; which quantities are combined, and how, is decided from source by C11, C12, C15-C18, C22 and C28.",
 "N04": "A quantitative bound on time and memory needs amortised reasoning about slices, maps and the scanner package that no analysis here provides; that every loop and recursion makes progress is C01.",
}
CLAIMED = json.load(open(os.path.join(here, "tools", "claimed.json")))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        c = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"./run.sh {i}",
            "technique": c["technique"], "level": "other", "level_note": c["note"], "evidence_file": f"evidence/{i}.json"})
    else:
        na.append({"property": i, "reason": NA.get(i, "No rule decides this property yet.")})
m = {"version": 1, "setup_cmd": "./run.sh --setup", "checks": checks, "not_applicable": na,
     "notes": "The checks read /repo's source only (no hooks, nothing of it is executed). Every check loads the current tree, type-checks it and builds its SSA form. fix: commits in /repo are listed in known_findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
