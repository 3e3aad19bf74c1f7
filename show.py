#!/usr/bin/env python3
"""development helper: run contracts of a property and summarise"""
import json, subprocess, sys
r = subprocess.run(["python3-vt", "-m", "bmivc.run"] + sys.argv[1:], capture_output=True, text=True, cwd="/verif")
l = [x for x in r.stdout.splitlines() if x.startswith("RESULT ")]
if not l:
    print(r.stdout[-3000:], r.stderr[-5000:]); sys.exit(1)
for c in json.loads(l[0][7:]):
    if isinstance(c, str): print(c); continue
    n = {}
    for o in c["obligations"]: n[o["status"]] = n.get(o["status"], 0) + 1
    print(f"{c['contract']:40s} {c['status']:12s} paths={c['paths']} {n} {c['s']}s z3={c['z3_calls']}/{c['z3_s']}s", c.get("why", ""))
    if c["status"] != "done": print(c.get("where", "")[-1800:])
    for o in c["obligations"]:
        if o["status"] != "proved": print("   ", o["status"], o["name"], "\n       ", o.get("why", "")[:1200], "\n      facts:", "; ".join(o.get("facts", []))[:800])
