"""Writes MANIFEST.json; run by hand when the list of claimed properties changes."""
import json, sys
sys.path.insert(0, "/verif")
NOTES = json.load(open("/verif/notes.json"))
out = {"version": 1, "setup_cmd": "./check setup", "hooks": {"guard": "none", "enable": "no hooks were needed: every seam is installed at run time by the simulator (builtins.open, numpy entropy, runner subclasses, sys.settrace)", "source_commits": []},
       "checks": [], "not_applicable": [], "notes": "see DESIGN.md"}
for p, n in NOTES["claimed"].items():
    out["checks"].append({"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
                          "evidence_file": f"evidence/{p}.json", "technique": n["technique"], "level": "exploration", "level_note": n["note"]})
for p, r in NOTES["not_applicable"].items():
    out["not_applicable"].append({"property": p, "reason": r})
json.dump(out, open("/verif/MANIFEST.json", "w"), indent=1)
