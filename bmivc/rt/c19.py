import os
import stat
import tempfile

import numpy as np

from .core import check

R_ = "bmi.estimators.external.r_estimators"
J_ = "bmi.estimators.external.julia_estimators"

TABLE = [
    (R_, "RKSGEstimator", lambda r: dict(variant=r.choice([1, 2]), neighbors=r.int(1, 20)), lambda p: ["--method", f"KSG{p['variant']}", "--neighbors", str(p["neighbors"])]),
    (R_, "RLNNEstimator", lambda r: dict(k=r.int(1, 9), truncation=r.int(10, 40)), lambda p: ["--method", "LNN", "--neighbors", str(p["k"]), "--truncation", str(p["truncation"])]),
    (R_, "RBNSLEstimator", lambda r: dict(proc=r.choice([0, 1, 2, 10])), lambda p: ["--method", "BNSL", "--proc", str(p["proc"])]),
    (J_, "JuliaKSGEstimator", lambda r: dict(variant=r.choice([1, 2]), neighbors=r.int(1, 20)), lambda p: ["--estimator", f"KSG{p['variant']}", "--neighbors", str(p["neighbors"])]),
    (J_, "JuliaHistogramEstimator", lambda r: dict(bins=r.int(2, 20)), lambda p: ["--estimator", "Histogram", "--bins", str(p["bins"])]),
    (J_, "JuliaTransferEstimator", lambda r: dict(bins=r.int(2, 20)), lambda p: ["--estimator", "Transfer", "--bins", str(p["bins"])]),
    (J_, "JuliaKernelEstimator", lambda r: dict(bandwidth=r.choice([1.0, 0.25, 3.5])), lambda p: ["--estimator", "Kernel", "--bandwidth", str(p["bandwidth"])]),
]
DEFAULTS = {"RKSGEstimator": dict(variant=1, neighbors=10), "RLNNEstimator": dict(k=5, truncation=30), "RBNSLEstimator": dict(proc=10),
            "JuliaKSGEstimator": dict(variant=1, neighbors=10), "JuliaHistogramEstimator": dict(bins=10), "JuliaTransferEstimator": dict(bins=10),
            "JuliaKernelEstimator": dict(bandwidth=1.0)}


class Fake:
    """Stand-ins for Rscript and julia on the PATH: they record their arguments and a copy of the sample."""

    def __init__(self, d, out="0.625", code=0, err=""):
        self.d = d
        for name in ("Rscript", "julia"):
            p = os.path.join(d, name)
            with open(p, "w") as f:
                f.write(f'#!/bin/sh\nprintf "%s\\n" {name} "$@" > {d}/args\ncp "$2" {d}/copy\n'
                        f"printf '%b' '{err}' >&2\nprintf '%b' '{out}'\nexit {code}\n")
            os.chmod(p, os.stat(p).st_mode | stat.S_IXUSR)

    def __enter__(self):
        self.old = os.environ["PATH"]
        os.environ["PATH"] = self.d + os.pathsep + self.old
        return self

    def __exit__(self, *a):
        os.environ["PATH"] = self.old

    def args(self):
        return open(os.path.join(self.d, "args")).read().split("\n")[:-1]


@check("C19", 42, 140, ["bmi.estimators.external.*:_build_command", "bmi.estimators.external.external_estimator:ExternalEstimator.*"])
def commands(r):
    mod, cls, mk, opts = TABLE[r.i % len(TABLE)]
    C = r.get(mod, cls, optional=False)
    read = r.get("bmi.utils", "read_sample", optional=False)
    save = r.get("bmi.utils", "save_sample", optional=False)
    p = mk(r)
    default = r.i // len(TABLE) == 1
    e = C() if default else C(**p)
    if default:
        p = DEFAULTS[cls]
    dx, dy = r.choice([(1, 1), (2, 3), (12, 1), (1, 11)])
    n = r.choice([1, 6])
    x, y = r.rng.normal(size=(n, dx)), r.rng.normal(size=(n, dy))
    out, val = r.choice([("0.625", 0.625), ("  1.5\\n", 1.5), ("-0.125\\n", -0.125), ("2e-3\\n", 2e-3), ("nan\\n", float("nan"))])
    r.note(cls=cls, params=p, dim_x=dx, dim_y=dy, output=out)
    r.eq(e.parameters().dict(), p, "reported parameters")
    prog = "Rscript" if mod == R_ else "julia"
    script = "rmi.R" if mod == R_ else "mi_estimator.jl"
    with tempfile.TemporaryDirectory() as d, Fake(d, out) as f:
        sp = os.path.join(d, "my sample.csv")
        save(sp, x, y)
        for k in range(2):
            if k == 0:
                res = e.estimate_with_info_from_path(sp)
            else:
                res = e.estimate_with_info(x, y)
            a = f.args()
            r.eq(a[0], prog, "program")
            r.true(os.path.isabs(a[1]) and os.path.basename(a[1]) == script and os.path.exists(a[1]), "script", got=a[1])
            if k == 0:
                r.eq(os.path.realpath(a[2]), os.path.realpath(sp), "sample path")
            r.eq(a[3:], [str(dx), str(dy)] + opts(p), "arguments")
            r.close(res.mi_estimate, val, "number printed by the script", rtol=0, atol=0)
            cx, cy = read(os.path.join(d, "copy"))
            r.same(cx, x, "x in the file given to the script")
            r.same(cy, y, "y in the file given to the script")
        r.close(e.estimate(x, y), val, "estimate", rtol=0, atol=0)
        x2, y2 = r.rng.normal(size=(n + 1, dx)), r.rng.normal(size=(n + 1, dy + 1))
        e.estimate(x2, y2)
        r.eq(f.args()[3:], [str(dx), str(dy + 1)] + opts(p), "arguments for a second data set")
        cx, cy = read(os.path.join(d, "copy"))
        r.same(cx, x2, "x of a second data set")
        r.same(cy, y2, "y of a second data set")
        if not os.path.isabs(os.path.relpath(sp)):
            cwd = os.getcwd()
            try:
                os.chdir(d)
                e.estimate_with_info_from_path("my sample.csv")
                r.eq(os.path.realpath(f.args()[2]), os.path.realpath(sp), "relative paths")
            finally:
                os.chdir(cwd)


@check("C19", 21, 63, ["bmi.estimators.external.external_estimator:_run_command_and_read_mi"])
def failures(r):
    mod, cls, mk, _ = TABLE[r.i % len(TABLE)]
    e = r.get(mod, cls, optional=False)(**mk(r))
    out, code, err = r.choice([("0.5", 1, ""), ("not a number", 0, ""), ("", 0, ""), ("Error: 3", 0, ""), ("0.5 0.6", 0, ""), ("[1] 0.5", 0, ""), ("0.5", 2, "oops")])
    r.note(cls=cls, output=out, code=code, err=err)
    x = r.rng.normal(size=(4, 1))
    with tempfile.TemporaryDirectory() as d, Fake(d, out, code, err):
        r.raises(lambda: e.estimate(x, x), "a failing script or unparseable output")
        r.raises(lambda: e.estimate_with_info(x, x), "a failing script or unparseable output")


@check("C19", 7, 14, ["bmi.estimators.external.*:__init__"])
def parameters(r):
    bad = [(R_, "RKSGEstimator", [dict(variant=3), dict(variant=0), dict(neighbors=0), dict(neighbors=-2)]), (R_, "RLNNEstimator", [dict(k=0), dict(truncation=0)]),
           (R_, "RBNSLEstimator", [dict(proc=-1)]), (J_, "JuliaKSGEstimator", [dict(variant=3), dict(neighbors=0)]),
           (J_, "JuliaHistogramEstimator", [dict(bins=1), dict(bins=0), dict(bins=-3)]), (J_, "JuliaTransferEstimator", [dict(bins=1), dict(bins=-1)]),
           (J_, "JuliaKernelEstimator", [dict(bandwidth=0.0), dict(bandwidth=-1.0)])]
    mod, cls, kws = bad[r.i % 7]
    C = r.get(mod, cls, optional=False)
    for kw in kws:
        r.raises(lambda: C(**kw), f"{cls}({kw})")
