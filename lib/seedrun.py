#!/usr/bin/env python3
"""seedrun.py [-p PROPS] ID...: applies each seeded change to /repo, runs its property's check (or PROPS), undoes it."""
import json, subprocess, sys, time, os
args = sys.argv[1:]
props = None
if args[0] == "-p":
    props = args[1].split(","); args = args[2:]
for i in args:
    d = "/verif/seeded/" + i
    if not os.path.isdir(d):
        d = "/verif/seeded-more/" + i
    m = json.load(open(d + "/meta.json"))
    if subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip():
        sys.exit("/repo is not clean")
    if subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"]).returncode:
        print(i, "DOES NOT APPLY"); continue
    try:
        for p in props or [m["property"]]:
            t = time.time()
            r = subprocess.run(["./check.py", p], cwd="/verif", capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if "broken by" in l][:1]
            print(i, p, "exit", r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "ERROR " + (r.stdout + r.stderr)[-800:], "%.0fs" % (time.time() - t), (v or [""])[0].strip()[:160], flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
