import json
ALL = ["C%02d" % i for i in range(1, 24)]
SUITES = json.load(open("/verif/lib/suites.json"))
NOTES = json.load(open("/verif/lib/notes.json"))
checks, na = [], []
for p in ALL:
    if p in SUITES:
        t, n = NOTES[p]
        checks.append({"property": p, "quick_cmd": "./check.py " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.py " + p,
                       "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": p, "reason": "its check is still being built"})
json.dump({"version": 1, "setup_cmd": "./setup.sh",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the harness crates bind through the public API only."},
          open("/verif/MANIFEST.json", "w"), indent=1)
