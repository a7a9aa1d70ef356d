import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from checks_meta import CHECKS
NA = {
    "C27": "a probability over random seeds (decryption failure bound); no sound static argument on the source decides it",
    "C28": "machine-level timing depends on code generation and micro-architecture, below what a source/MIR analysis can see; C13 claims the source-level part",
}
root = os.path.dirname(here)
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [
        {"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p}",
         "evidence_file": f"evidence/{p}.json", "technique": c["technique"], "level": "other", "level_note": c["note"]}
        for p, c in sorted(CHECKS.items())
    ],
    "not_applicable": [{"property": p, "reason": NA.get(p, "not built yet")} for p in props if p not in CHECKS],
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
