"""Writes MANIFEST.json from checks.py (technique and level notes) and properties.jsonl."""
import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from checks import CHECKS  # noqa: E402

NA = {}
props = [json.loads(line) for line in (ROOT / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 run.py {i}",
            "thorough_cmd": f"python3 run.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": c["technique"],
            "level": "exploration",
            "level_note": c["note"],
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every monitor observes the public Rust and C interfaces. Open and fixed findings: KNOWN_FINDINGS.txt.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
