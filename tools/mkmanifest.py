"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVM = ("TLC trace validation: executions of compiled code checked step by step against EVM.tla",
       "model_checking",
       "Every execution recorded for this property is a behaviour of EVM.tla at each suspension and at the end; the rest are compared with revm's interpreter, which is itself sampled against EVM.tla. Bounded by the programs generated; trusts fake-llvm for the meaning of the IR and Word256.java for 256-bit arithmetic.")
CHECKS = {p: EVM for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09")}
NA = {}
try:
    from mkmanifest_more import CHECKS as MORE, NA as MORE_NA
    CHECKS.update(MORE)
    NA.update(MORE_NA)
except ImportError:
    pass

props = [json.loads(x)["id"] for x in open(f"{V}/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"python3 tools/check.py {p}",
            "thorough_cmd": f"python3 tools/check.py {p} --thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": CHECKS[p][0],
            "level": CHECKS[p][1],
            "level_note": CHECKS[p][2],
        }
        for p in props if p in CHECKS
    ],
    "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in CHECKS],
    "notes": "No hooks in /repo; the only commits there are fix: commits (see known-findings.txt). The language is TLA+, checked with TLC.",
}
with open(f"{V}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
