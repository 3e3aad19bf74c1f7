import importlib.util
import os

import numpy as np
import pandas as pd

from .core import Skip, check

W = "workflows/benchmark/_utils.py:"


class _Styler:
    """Stand-in for pandas' Styler (it needs Jinja2): holds the styled table."""

    def __init__(self, data):
        self.data = data
        self.index = data.index.copy()
        self.columns = data.columns.copy()
        self.caption = None

    def pipe(self, fn, *a, **k):
        return fn(self, *a, **k)

    def set_caption(self, c):
        self.caption = c
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: self


def _mod():
    p = os.path.join(os.environ.get("BMI_REPO", "/repo"), "workflows/benchmark/_utils.py")
    if not os.path.exists(p):
        raise Skip("no workflows/benchmark/_utils.py")
    spec = importlib.util.spec_from_file_location("_bmi_workflow_utils", p)
    m = importlib.util.module_from_spec(spec)
    pd.DataFrame.style = property(_Styler)
    spec.loader.exec_module(m)
    return m


def _results(r, nan=False):
    rows = []
    tasks = [f"t{i}" for i in range(r.int(1, 4))]
    ests = [f"e{i}" for i in range(r.int(1, 3))]
    ns = sorted(r.rng.choice([100, 500, 1000, 5000], size=r.int(1, 3), replace=False).tolist())
    true = {t: r.real(0.1, 3) for t in tasks}
    if r.rng.uniform() < 0.3:  # tasks with equal mutual information
        true = {t: true[tasks[0]] for t in tasks}
    for t in tasks:
        for e in ests:
            for n in ns:
                if r.rng.uniform() < 0.15 and not (t == tasks[0] and e == ests[0]):
                    continue
                for s in range(r.int(1, 4)):
                    v = true[t] * r.real(0.5, 1.5) * (0.01 if r.rng.uniform() < 0.2 else 1.0)
                    if nan and r.rng.uniform() < 0.1:
                        v = float("nan")
                    rows.append(dict(estimator_id=e, task_id=t, n_samples=n, seed=s, mi_estimate=v, mi_true=true[t], extra="z"))
    df = pd.DataFrame(rows)
    return df.iloc[r.rng.permutation(len(df))].reset_index(drop=True), true, ns


def _agg(df, n, conv=False, mean=True):
    """runs of each cell; n=None: all sample sizes (the recorded finding)"""
    sub = df if n is None else df[df.n_samples == n]
    out, mx = {}, {}
    for _, q in sub.iterrows():
        c = (q.task_id, q.estimator_id)
        out.setdefault(c, []).append((q.mi_estimate, q.n_samples))
        k = c + (q.n_samples,)
        if not np.isnan(q.mi_estimate):
            mx[k] = max(mx.get(k, -np.inf), q.mi_estimate)
    if not conv:
        return {c: [e for e, _ in v] for c, v in out.items()}
    good = {c: [e > 0.1 * mx.get(c + (m,), np.nan) for e, m in v] for c, v in out.items()}
    if conv == "flags":
        return good
    sel = {c: [e for (e, _), g in zip(v, good[c]) if g] for c, v in out.items()}
    return {c: v for c, v in sel.items() if v}


def _mean(v):
    v = [e for e in v if not np.isnan(e)]
    return np.mean(v) if v else np.nan


def _table_is(t, exp, cols, rows=None):
    """the table has exactly the cells exp"""
    if sorted(t.columns) != sorted(cols) or (rows is not None and sorted(t.index) != sorted(rows)):
        return False
    for (a, b), v in exp.items():
        if a not in t.index or not np.isclose(t.loc[a, b], v, rtol=1e-9, atol=1e-12, equal_nan=True):
            return False
    return all((a, b) in exp or b == "True MI" or np.isnan(t.loc[a, b]) for a in t.index for b in t.columns)


@check("C21", 40, 160, [W + "create_benchmark_table"])
def benchmark_table(r):
    f = getattr(_mod(), "create_benchmark_table")
    df, true, ns = _results(r, nan=r.i % 4 == 3)
    n = r.choice(ns + [None])
    conv = bool(r.i % 3 == 1)
    keep = df.copy(deep=True)
    cols = list(df.columns)
    r.note(results=df.to_dict("list"), n_samples=n, converged_only=conv)
    if _agg(df, n if n is not None else df.n_samples.max()) == {}:
        return
    kw = {} if n is None else dict(n_samples=n)
    t = f(df, converged_only=conv, **kw).data
    r.true(list(df.columns) == cols and df.equals(keep), "the input is not modified")
    n = df.n_samples.max() if n is None else n
    for a in t.index:
        r.close(t.loc[a, "True MI"], true[a], f"true MI of {a}", rtol=1e-9)

    def want(n):
        exp = {k: _mean(v) for k, v in _agg(df, n, conv).items()}
        return exp, {b for _, b in exp} | {"True MI"}
    # recorded finding: the runs with all sample sizes contribute
    r.known("C21-benchmark-n", _table_is(t, *want(n)), len(ns) > 1 and _table_is(t, *want(None)),
            "cells are the means over the runs with the requested sample size", got=t.to_dict(), expected=str(want(n)[0]))


@check("C21", 30, 120, [W + "create_convergence_table"])
def convergence_table(r):
    f = getattr(_mod(), "create_convergence_table")
    df, true, ns = _results(r)
    n = r.choice(ns + [None])
    keep, cols = df.copy(deep=True), list(df.columns)
    r.note(results=df.to_dict("list"), n_samples=n)
    if _agg(df, n if n is not None else df.n_samples.max()) == {}:
        return
    t = f(df, **({} if n is None else dict(n_samples=n))).data
    r.true(list(df.columns) == cols and df.equals(keep), "the input is not modified")
    n = df.n_samples.max() if n is None else n

    def want(n):
        exp = {k: np.mean(v) for k, v in _agg(df, n, "flags").items()}
        return exp, {b for _, b in exp}, {a for a, _ in exp}
    r.known("C21-convergence-n", _table_is(t, *want(n)), len(ns) > 1 and _table_is(t, *want(None)),
            "cells are the converged fractions of the runs with the requested sample size", got=t.to_dict(), expected=str(want(n)[0]))
