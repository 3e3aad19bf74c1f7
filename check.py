#!/usr/bin/env python3
"""Decides one property: discharges the contracts of the functions it depends on (python3-vt -m bmivc.run)
and evaluates the runtime contracts on the real code (/opt/venv/bin/python -m bmivc.rt.core).

usage: ./check.py PROP [--tier quick|thorough]

exit 0: property held; exit 1: VIOLATION line; anything else: error of the check."""
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
REPO = os.environ.get("BMI_REPO", "/repo")
VT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
VENV = "/opt/venv/bin/python"
ENV = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", BMI_REPO=REPO,
           PYTHONHASHSEED="0")
if os.path.realpath(REPO) != "/repo":   # a changed copy: the runtime contracts import it too
    ENV["PYTHONPATH"] = os.path.join(REPO, "src") + os.pathsep + ENV.get("PYTHONPATH", "")


def sh(cmd, limit, env=None):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=limit, env=env or ENV, cwd=HERE)
        return p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        d = lambda x: x.decode(errors="replace") if isinstance(x, bytes) else (x or "")
        return d(e.stdout), d(e.stderr) + "\n[time limit]", -1


def tagged(out, tag):
    for l in reversed(out.splitlines()):
        if l.startswith(tag):
            return json.loads(l[len(tag):])
    return None


def list_contracts(prop):
    if not os.path.exists(f"bmivc/contracts/{prop.lower()}.py"):
        return []
    out, err, rc = sh([VT, "-m", "bmivc.run", prop, "--list"], 120)
    r = tagged(out, "RESULT ")
    if r is None:
        raise SystemExit(f"cannot list the contracts of {prop}: {err[-2000:]}")
    return r


def run_contract(prop, name, limit, tier):
    env = dict(ENV, BMIVC_LIMIT=str(limit), BMIVC_TIER=tier)
    t0 = time.time()
    out, err, rc = sh([VT, "-m", "bmivc.run", prop, name], limit + 60, env)
    r = tagged(out, "RESULT ")
    if not r:
        return dict(contract=name, func="?", pre="", post="", prop=prop, status="unsupported", obligations=[], paths=0,
                    s=round(time.time() - t0, 2), z3_s=0, z3_calls=0, shims=[], files=[],
                    why=("no result from the verifier: " + err[-400:]))
    return r[0]


def run_rt(prop, tier, seed, budget, extra=()):
    cmd = [VENV, "-m", "bmivc.rt.core", prop, "--tier", tier, "--seed", str(seed), "--budget", str(budget), *extra]
    out, err, rc = sh(cmd, budget + 150)
    r = tagged(out, "RTRESULT ")
    return r, err


def known(prop):
    out = []
    try:
        for l in open("known_findings.txt"):
            l = l.strip()
            if l.startswith(f"known: property={prop} "):
                out.append(l[len("known: "):])
    except FileNotFoundError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-rt", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    budget_total = 560 if tier == "quick" else 840
    climit = 240 if tier == "quick" else 420
    os.makedirs("evidence", exist_ok=True)
    names = list_contracts(prop)
    rt = err = None
    res = []
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        rtf = None if a.no_rt else ex.submit(run_rt, prop, tier, seed, 200 if tier == "quick" else 420)
        fs = {ex.submit(run_contract, prop, n, climit, tier): n for n in names}
        for f in cf.as_completed(list(fs)):
            res.append(f.result())
        if rtf is not None:
            rt, err = rtf.result()
    res.sort(key=lambda c: names.index(c["contract"]))
    if rt is None and not a.no_rt:
        print("the runtime contracts gave no result:\n" + (err or "")[-3000:], file=sys.stderr)
        # the code under test cannot even be imported: the checks cannot run
        rt = dict(checks=[], failures=[], wall_s=0.0)
        rt_broken = True
    else:
        rt_broken = False
        rt = rt or dict(checks=[], failures=[], wall_s=0.0)

    obls = [dict(o, func=c["func"]) for c in res for o in c["obligations"]]
    refuted = [o for o in obls if o["status"] == "refuted"]
    unknown = [o for o in obls if o["status"] == "unknown"]
    proved = [o for o in obls if o["status"] == "proved"]
    unsup = [c for c in res if c["status"] != "done"]
    failures = list(rt["failures"])
    hunted = 0
    if (refuted or unknown or unsup) and not failures and not a.no_rt and not rt_broken:
        # replay: look for a failing input on the real code with other seeds and larger cases
        k = 0
        while time.time() - t0 < budget_total - 120 and k < (3 if refuted else 1) and not failures:
            k += 1
            left = budget_total - (time.time() - t0)
            r2, _ = run_rt(prop, "thorough" if k > 1 else "quick", seed + 1000 * k, max(30, min(150, left - 60)))
            if r2:
                hunted += sum(c["cases"] for c in r2["checks"])
                failures += r2["failures"]
    viol = []
    replay = f"evidence/replay-{prop}.json"
    if os.path.exists(replay):
        os.remove(replay)
    if failures or refuted:
        rep = dict(property=prop, failed_obligations=refuted[:20], undecided=[dict(name=o["name"], why=o.get("why", "")[:500]) for o in unknown][:10],
                   failing_inputs=failures[:5], cases_tried_on_real_code=sum(c["cases"] for c in rt["checks"]) + hunted)
        if failures:
            f = failures[0]
            rep["how_to_replay"] = (f"cd /verif && JAX_PLATFORMS=cpu {VENV} -m bmivc.rt.core {prop} --check {f['check']} "
                                    f"--case {f['case']} --seed {f['seed']}")
        json.dump(rep, open(replay, "w"), indent=1, default=str)
        for o in refuted[:10]:
            print(f"failed obligation: {o['name']} ({o['func']})")
        for f in failures[:5]:
            print(f"failing input for contract {f['check']} case {f['case']} seed {f['seed']}: {f['message'][:500]}")
        viol.append(f"VIOLATION property={prop} replay=/verif/{replay}" + ("" if failures else " no-failing-input-found"))
    if rt_broken and not viol:
        print(f"{prop}: no answer (the code under test could not be executed)")
        write(prop, tier, seed, res, rt, obls, proved, refuted, unknown, unsup, t0, 0)
        sys.exit(2)
    write(prop, tier, seed, res, rt, obls, proved, refuted, unknown, unsup, t0, len(viol))
    hits = set(rt.get("known_hits", ())) | {k for c in res for k in c.get("known_hits", ())}
    for k in known(prop):
        tag = k.split("[", 1)[1].split("]", 1)[0] if " [" in k else None
        if tag is not None and tag not in hits:
            continue  # the recorded defect does not show on this tree
        print("KNOWN-FINDING: " + k)
    print(f"{prop} [{tier}]: {len(obls)} obligations, {len(proved)} discharged, {len(refuted)} refuted, {len(unknown)} undecided; "
          f"{len(unsup)}/{len(res)} contracts out of reach on this source; "
          f"{sum(c['cases'] for c in rt['checks'])} runtime contract cases; {time.time() - t0:.1f} s")
    for c in unsup:
        print(f"  not decided deductively: {c['contract']} ({c['func']}): {c.get('why', '')[:200]}")
    for o in unknown:
        print(f"  undecided obligation: {o['name']}")
    for v in viol:
        print(v)
    sys.exit(1 if viol else 0)


def write(prop, tier, seed, res, rt, obls, proved, refuted, unknown, unsup, t0, nviol):
    from bmivc import trusted
    man = json.load(open("MANIFEST.json")) if os.path.exists("MANIFEST.json") else {"checks": []}
    level = next((c["level"] for c in man["checks"] if c["property"] == prop), "proof")
    shims = sorted({s for c in res for s in c["shims"]})
    bounded = [dict(contract=c["check"], functions=c["functions"], cases=c["cases"], skipped=c["skipped"], seconds=c["wall_s"])
               for c in rt["checks"]]
    back = {}
    for o in proved:
        k = o.get("how") or ("z3" if o.get("z3") else "term rewriting")
        back[k] = back.get(k, 0) + 1
    cov = dict(
        obligations=len(obls), discharged=len(proved), refuted=len(refuted), undecided=len(unknown),
        checker_cmd=f"python3-vt -m bmivc.run {prop}",
        trusted_base=trusted.base(prop, shims),
        functions_under_contract=[dict(function=c["func"], contract=c["contract"], requires=c["pre"], ensures=c["post"], status=c["status"],
                                       obligations=len(c["obligations"]),
                                       discharged=sum(1 for o in c["obligations"] if o["status"] == "proved"), paths=c["paths"],
                                       seconds=c["s"]) for c in res],
        discharged_by=back, solver_calls=sum(c["z3_calls"] for c in res), solver_s=round(sum(c["z3_s"] for c in res), 2),
        verifier_s=round(sum(c["s"] for c in res), 2),
        source_files=sorted({f for c in res for f in c["files"]}),
        dependency_contracts_used=shims,
        out_of_reach_on_this_source=[dict(contract=c["contract"], function=c["func"], why=c.get("why", "")) for c in unsup],
        undecided_obligations=[o["name"] for o in unknown],
        bounded_standins_not_counted_as_proved=bounded,
        evaluations=sum(c["cases"] for c in rt["checks"]),
        distinct_nontrivial=sum(c["cases"] - c["skipped"] for c in rt["checks"]),
        rule="runtime contract evaluations on the real code: seeded inputs, one per (contract, case number, seed); a case is non-trivial "
             "when the function under contract was executed on it",
        samples=[dict(name=o["name"], status=o["status"], seconds=o["s"]) for o in obls[:6]] + bounded[:3],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=trusted.assumptions(prop),
              wall_s=round(time.time() - t0, 2), violations=nviol)
    tmp = f"evidence/.{prop}.tmp"
    json.dump(ev, open(tmp, "w"), indent=1, default=str)
    os.replace(tmp, f"evidence/{prop}.json")


if __name__ == "__main__":
    main()
