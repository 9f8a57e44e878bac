#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, sys
from pathlib import Path
ROOT = Path(__file__).resolve().parents[1]
sys.path.insert(0, str(ROOT))
from registry import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(ROOT / "properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {
        "guard": "cfg(kani) and cfg(colorz_contracts)",
        "enable": "cargo kani sets cfg(kani); check.py passes --cfg colorz_contracts in RUSTFLAGS for the contracts on internal functions",
        "source_commits": json.loads((ROOT / "tools/hook_commits.json").read_text()),
    },
    "checks": [], "not_applicable": [],
    "notes": "Deductive verification of the real code with Kani: property contracts in contracts/src, in-place function contracts in /repo under cfg(colorz_contracts). See DESIGN.md.",
}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        note = c.note or "Every obligation generated from the current source is discharged for all inputs."
        if c.bounded:
            note += " Bounded parts (not counted as proved): " + "; ".join(c.bounded) + "."
        note += " Trusted: Kani/CBMC, rustc" + ("; " + "; ".join(c.trusted) if c.trusted else "") + "."
        if c.assumptions:
            note += " Assumes: " + "; ".join(c.assumptions) + "."
        m["checks"].append({
            "property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough",
            "technique": "contract-based deductive verification (Kani function and property contracts, CBMC back end)",
            "level": c.level, "level_note": note,
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet")})
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
