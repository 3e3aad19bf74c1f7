"""Runtime contract checks: the contracts of the listed functions, evaluated on the *real*
code of /repo (imported by /opt/venv/bin/python) for generated inputs.

They are the bounded companions of the deductive obligations: they supply the failing input
that is replayed when an obligation is refuted, and they stand in (labelled bounded, never
counted as proved) where a function is out of the verifier's reach.
"""

import importlib
import json
import os
import sys
import threading
import time
import traceback
import zlib

import numpy as np


class Skip(Exception):
    pass


class Fail(AssertionError):
    pass


CHECKS = {}
KNOWN_HITS = set()
OUT_FD = [1]


def check(prop, n=10, thorough=None, functions=(), hang=150):
    """hang: seconds after which a case counts as not terminating"""
    def deco(fn):
        CHECKS.setdefault(prop, {})[fn.__name__] = dict(
            fn=fn, n=n, thorough=thorough if thorough is not None else 4 * n, functions=tuple(functions), hang=hang
        )
        return fn

    return deco


def _short(v, limit=1500):
    try:
        if hasattr(v, "shape") and hasattr(v, "dtype"):
            v = np.asarray(v)
            if v.size > 200:
                return f"array shape={v.shape} dtype={v.dtype} head={v.ravel()[:12].tolist()}"
            return v.tolist()
        if isinstance(v, dict):
            return {str(k): _short(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [_short(x) for x in v]
        if isinstance(v, (int, float, str, bool)) or v is None:
            return v
        return repr(v)[:limit]
    except Exception:
        return "<unprintable>"


class R:
    def __init__(self, prop, name, i, seed, tier):
        self.prop, self.name, self.i, self.seed, self.tier = prop, name, i, seed, tier
        self.rng = np.random.default_rng([int(seed) & 0xFFFFFFFF, zlib.crc32(name.encode()), i])
        self.notes = {}

    # -- inputs
    def note(self, **kw):
        for k, v in kw.items():
            self.notes[k] = _short(v)

    def get(self, module, name, optional=True):
        """A function or class of the code under test; private helpers may have been renamed."""
        try:
            obj = importlib.import_module(module)
            for part in name.split("."):
                obj = getattr(obj, part)
            return obj
        except (ImportError, AttributeError):
            if optional:
                raise Skip(f"{module}.{name} does not exist")
            raise

    def int(self, lo, hi):
        return int(self.rng.integers(lo, hi + 1))

    def real(self, lo, hi):
        return float(self.rng.uniform(lo, hi))

    def choice(self, xs):
        return xs[int(self.rng.integers(len(xs)))]

    # -- judgements
    def true(self, cond, msg, **kw):
        if not bool(cond):
            self.note(**kw)
            raise Fail(msg)

    def eq(self, a, b, msg, **kw):
        if not (type(a) is type(b) or isinstance(a, (int, float, str, list, dict, tuple, type(None)))) or a != b:
            if not a == b:
                self.note(got=a, expected=b, **kw)
                raise Fail(f"{msg}: got {_short(a)!r}, expected {_short(b)!r}")

    def same(self, a, b, msg, **kw):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or not np.array_equal(a, b, equal_nan=(a.dtype.kind == "f" and b.dtype.kind == "f")):
            self.note(got=a, expected=b, **kw)
            raise Fail(f"{msg}: arrays differ (shapes {a.shape} and {b.shape})")

    def close(self, a, b, msg, rtol=1e-6, atol=1e-9, **kw):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape or not np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True):
            self.note(got=a, expected=b, **kw)
            raise Fail(f"{msg}: got {_short(a)}, expected {_short(b)}")

    def known(self, fid, holds, defect, msg, **kw):
        """the property holds, or exactly the defect recorded in known_findings.txt under [fid] shows"""
        if bool(holds):
            return
        if bool(defect):
            KNOWN_HITS.add(fid)
            return
        self.note(**kw)
        raise Fail(msg)

    def raises(self, fn, msg, exc=Exception, **kw):
        try:
            v = fn()
        except exc:
            return
        self.note(returned=v, **kw)
        raise Fail(f"{msg}: accepted, returned {_short(v)!r}")


def run_case(prop, name, i, seed, tier):
    spec = CHECKS[prop][name]
    r = R(prop, name, i, seed, tier)
    try:
        spec["fn"](r)
        return "ok", None
    except Skip as e:
        return "skip", str(e)
    except Fail as e:
        return "fail", dict(prop=prop, check=name, case=i, seed=seed, message=str(e)[:3000], inputs=r.notes,
                            trace=traceback.format_exc()[-3000:])
    except Exception as e:  # the real code raised on an input its contract accepts
        return "fail", dict(prop=prop, check=name, case=i, seed=seed,
                            message=f"unexpected {type(e).__name__}: {str(e)[:1500]}", inputs=r.notes,
                            trace=traceback.format_exc()[-3000:])


def load_checks(prop):
    importlib.import_module(f"bmivc.rt.{prop.lower()}")
    return CHECKS.get(prop, {})


def run(prop, tier="quick", seed=1, only=None, case=None, budget=None):
    import warnings

    warnings.filterwarnings("ignore")
    t0 = time.time()
    out = dict(property=prop, tier=tier, seed=seed, checks=[], failures=[])
    for name, spec in load_checks(prop).items():
        if only and name not in only:
            continue
        n = spec["thorough"] if tier == "thorough" else spec["n"]
        rec = dict(check=name, functions=list(spec["functions"]), cases=0, skipped=0, failed=0)
        t1 = time.time()
        for i in range(n) if case is None else [case]:
            if budget and time.time() - t0 > budget and i > 0:
                rec["stopped_early"] = True
                break
            dog = None
            if spec["hang"]:
                def bark(name=name, i=i, rec=rec):
                    out["failures"].append(dict(prop=prop, check=name, case=i, seed=seed, inputs={}, trace="",
                                                message=f"no result after {spec['hang']} s (normally a few seconds): does not terminate"))
                    rec["failed"] += 1
                    out["checks"].append(rec)
                    out["wall_s"] = round(time.time() - t0, 2)
                    out["known_hits"] = []
                    os.write(OUT_FD[0], ("RTRESULT " + json.dumps(out) + "\n").encode())
                    os._exit(1)
                dog = threading.Timer(spec["hang"], bark)
                dog.daemon = True
                dog.start()
            status, info = run_case(prop, name, i, seed, tier)
            if dog:
                dog.cancel()
            rec["cases"] += 1
            if status == "skip":
                rec["skipped"] += 1
                rec["skip_reason"] = info
                break
            if status == "fail":
                rec["failed"] += 1
                out["failures"].append(info)
                break
        rec["wall_s"] = round(time.time() - t1, 2)
        out["checks"].append(rec)
    out["wall_s"] = round(time.time() - t0, 2)
    out["known_hits"] = sorted(KNOWN_HITS)
    return out


def main(argv=None):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--check", action="append")
    ap.add_argument("--case", type=int)
    ap.add_argument("--budget", type=float)
    a = ap.parse_args(argv)
    real_stdout = OUT_FD[0] = os.dup(1)
    os.dup2(2, 1)  # whatever the code under test prints goes to stderr
    res = run(a.prop, a.tier, a.seed, a.check, a.case, a.budget)
    os.write(real_stdout, ("RTRESULT " + json.dumps(res) + "\n").encode())
    sys.exit(1 if res["failures"] else 0)


if __name__ == "__main__":
    from bmivc.rt import core

    core.main()
