#!/usr/bin/env python3
"""development helper: mut.py PROP FILE 'old' 'new' [contract]: run the contracts on a changed scratch copy"""
import os, shutil, subprocess, sys, tempfile
prop, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp()
try:
    shutil.copytree("/repo/src", d + "/src")
    shutil.copytree("/repo/workflows", d + "/workflows")
    p = f"{d}/{f}" if f.startswith("workflows/") else f"{d}/src/bmi/{f}"
    s = open(p).read()
    assert s.count(old) >= 1, "not found"
    open(p, "w").write(s.replace(old, new, int(os.environ.get("MUT_N", 1))))
    os.environ["BMI_REPO"] = d
    r = subprocess.run(["python3", "/verif/tools/reg.py", prop], capture_output=True, text=True)
    print(r.stdout[:2500], r.stderr[-500:])
finally:
    shutil.rmtree(d)
