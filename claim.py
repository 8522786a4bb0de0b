"""Hand tool: python3 claim.py <ID> <technique> <note>"""
import json, sys, subprocess
n = json.load(open("/verif/notes.json"))
p, t, note = sys.argv[1:4]
n["claimed"][p] = {"technique": t, "note": note}
n["not_applicable"].pop(p, None)
json.dump(n, open("/verif/notes.json", "w"), indent=1)
subprocess.run(["python3", "/verif/mkmanifest.py"], check=True)
