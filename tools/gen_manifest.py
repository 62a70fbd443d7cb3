"""Source of /verif/MANIFEST.json and of the "fixed" list (run by hand; the output is committed)."""
import glob, json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
 "default": "runtime monitoring: generated workloads on the real code, independent reference oracle",
}
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for p in props:
    pid = p["id"]
    if glob.glob(os.path.join(V, "vmon", "checks", pid.lower() + "*.py")):
        n = NOTES.get(pid, {})
        checks.append({"property": pid,
            "quick_cmd": f"/opt/venv/bin/python /verif/vmon/runner.py {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python /verif/vmon/runner.py {pid}",
            "evidence_file": f"evidence/{pid}.json",
            "technique": n.get("technique", TECH["default"]),
            "level": "exploration",
            "level_note": n.get("level_note", "Holds on every generated case of the run (seeded, counts in the evidence file); trusts the independent oracle of the monitor and the generators' reach.")})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python /verif/tools/setup_check.py",
           "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
