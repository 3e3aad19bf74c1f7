#!/usr/bin/env python3
"""development helper: run the contracts of all (or given) properties in parallel, print what is not proved"""
import concurrent.futures as cf, glob, json, os, subprocess, sys
os.chdir(os.path.join(os.path.dirname(__file__), ".."))
props = sys.argv[1:] or sorted(os.path.basename(f)[:-3].upper() for f in glob.glob("bmivc/contracts/c[0-9]*.py"))


def run(*a):
    r = subprocess.run(["python3-vt", "-m", "bmivc.run", *a], capture_output=True, text=True)
    l = [x for x in r.stdout.splitlines() if x.startswith("RESULT ")]
    return json.loads(l[0][7:]) if l else [dict(contract=a, status="crash", obligations=[], why=r.stderr[-500:], s=0)]


tot = {}
with cf.ThreadPoolExecutor(8) as ex:
    names = dict(zip(props, ex.map(lambda p: run(p, "--list"), props)))
    jobs = [(p, n) for p in props for n in names[p]]
    for (p, n), rs in zip(jobs, ex.map(lambda j: run(*j), jobs)):
        c = rs[0]
        d = {}
        for o in c["obligations"]:
            d[o["status"]] = d.get(o["status"], 0) + 1
            tot[o["status"]] = tot.get(o["status"], 0) + 1
        if c["status"] != "done" or set(d) != {"proved"} or c["s"] > 60:
            print(p, n, c["status"], d, c["s"], c.get("why", "")[:200])
            for o in [o for o in c["obligations"] if o["status"] != "proved"][:6]:
                if True:
                    print("    ", o["status"], o["name"], o.get("why", "")[:170])
print(len(jobs), "contracts", tot)
