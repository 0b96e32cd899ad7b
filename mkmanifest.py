"""Writes MANIFEST.json and known_findings.jsonl's table view from the checks that exist."""
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
os.chdir(here)
NOTES = json.load(open("level_notes.json"))
props = [json.loads(ln) for ln in open("properties.jsonl")]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(f"checks/{pid.lower()}.py"):
        cmd = f"/opt/venv/bin/python run.py {pid} --tier "
        checks.append({
            "property": pid,
            "quick_cmd": cmd + "quick",
            "thorough_cmd": cmd + "thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "property-based testing: Hypothesis-generated cases and "
                         "histories, shrunk on failure; " + NOTES[pid][0],
            "level": "exploration",
            "level_note": NOTES[pid][1],
        })
    else:
        na.append({"property": pid, "reason": "check not built yet"})
out = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python run.py --self-test",
    "checks": checks,
    "not_applicable": na,
    "notes": "Pure Python target: checks import /repo/src of the working tree directly, "
             "nothing is compiled. No hooks in /repo.",
}
with open("MANIFEST.json", "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
