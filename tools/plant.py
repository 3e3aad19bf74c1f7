"""python3 tools/plant.py SPEC...: builds seeded/<id>/ from a spec, a python file defining
ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python text); validates it in a scratch copy."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONWARNINGS="ignore")
SH = '#!/bin/bash\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexport PYTHONPATH="$PWD/src"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def build(spec, tests=True):
    g = {}
    exec(open(spec).read(), g)
    ID = g["ID"]
    d = os.path.join(HERE, "seeded", ID)
    tmp = tempfile.mkdtemp(prefix="plant-")
    rep = os.path.join(tmp, "repo")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", rep])
        for f, old, new in g["EDITS"]:
            p = os.path.join(rep, f)
            s = open(p).read()
            assert s.count(old) == 1, (ID, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", rep, "diff"], text=True)
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.py", "w").write(g["DEMO"].lstrip("\n"))
        open(f"{d}/demo.sh", "w").write(SH)
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
        a = subprocess.run(["bash", f"{d}/demo.sh"], cwd="/repo", env=ENV, capture_output=True, text=True)
        b = subprocess.run(["bash", f"{d}/demo.sh"], cwd=rep, env=ENV, capture_output=True, text=True)
        ok = a.returncode == 0 and b.returncode != 0
        msg = f"{ID}: demo clean={a.returncode} patched={b.returncode}"
        if a.returncode:
            msg += "\n" + a.stdout[-800:] + a.stderr[-1500:]
        if tests:
            e = dict(ENV, PYTHONPATH=rep + "/src", PATH="/opt/venv/bin:" + ENV["PATH"])
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "-n", "8", "--timeout=300", f"--basetemp={tmp}/t", "tests"], cwd=rep, env=e, capture_output=True, text=True)
            msg += " | " + t.stdout.strip().splitlines()[-1]
            fails = [l for l in t.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))]
            msg += "".join("\n   " + l[:200] for l in fails)
            ok = ok and not fails
        print("OK  " if ok else "BAD ", msg, "|", b.stderr.strip().splitlines()[-1][:150] if b.stderr.strip() else "", flush=True)
        if not ok:
            shutil.rmtree(d)
    finally:
        shutil.rmtree(tmp)


for s in sys.argv[1:]:
    build(s, tests="NOTEST" not in os.environ)
