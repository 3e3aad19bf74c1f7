import numpy as np
from scipy.special import digamma

from .core import check

K = "bmi.estimators.ksg:"


def _dist(a, metric):
    d = a[:, None, :] - a[None, :, :]
    if metric == "euclidean":
        return np.sqrt((d**2).sum(-1))
    if metric == "manhattan":
        return np.abs(d).sum(-1)
    return np.abs(d).max(-1)


def _std(a):
    s = a.std(0)
    return (a - a.mean(0)) / np.where(s > 1e-12, s, 1.0)


def ksg(x, y, ks, mx, my, standardize, counts=None):
    if standardize:
        x, y = _std(x), _std(y)
    n = len(x)
    dx, dy = _dist(x, mx), _dist(y, my)
    dz = np.maximum(dx, dy)
    out = []
    for k in sorted(set(ks)):
        tot = 0.0
        for i in range(n):
            eps = np.sort(dz[i])[k]
            nx = max(0, int((dx[i] < eps).sum()) - 1)
            ny = max(0, int((dy[i] < eps).sum()) - 1)
            tot += digamma(nx + 1) + digamma(ny + 1)
        out.append(max(0.0, digamma(k) + digamma(n) - tot / n))
    return float(np.mean(out))


def _data(r, n):
    dx, dy = r.choice([1, 2, 3, 7]), r.choice([1, 2, 3, 5])
    kind = r.choice(["normal", "normal", "corr", "dup", "grid", "const", "nonneg"])
    x = r.rng.normal(size=(n, dx))
    y = r.rng.normal(size=(n, dy))
    if kind == "corr":
        y[:, 0] = x[:, 0] + 0.1 * y[:, 0]
    elif kind == "dup":
        idx = r.rng.integers(0, max(1, n // 3), size=n)
        x, y = x[idx], y[idx]
    elif kind == "grid":  # integer data: ties; only exact arithmetic metrics, unstandardised
        x, y = np.round(x), np.round(2 * y)
    elif kind == "const":
        x[:] = 1.5
    elif kind == "nonneg":
        x, y = np.abs(x) * 10, np.abs(y) * 10 + 100
    return kind, x, y


@check("C12", 60, 400, [K + "KSGEnsembleFirstEstimator.fit", K + "KSGEnsembleFirstEstimatorSlow.fit"])
def formula(r):
    F = r.get("bmi.estimators", "KSGEnsembleFirstEstimator", optional=False)
    S = r.get("bmi.estimators", "KSGEnsembleFirstEstimatorSlow", optional=False)
    ks = [r.int(1, 6 if r.i % 6 else 12) for _ in range(r.int(1, 3))]
    n = r.choice([max(ks) + 1, max(ks) + 2, 13, 20, 31]) if r.i % 12 else 150
    n = max(n, max(ks) + 1)
    kind, x, y = _data(r, n)
    mx = r.choice(["euclidean", "manhattan", "chebyshev"])
    my = r.choice([None, "euclidean", "manhattan", "chebyshev"])
    std = r.choice([True, False])
    if kind in ("grid", "dup", "const"):
        std = False
        mx, my = r.choice(["manhattan", "chebyshev"]), r.choice([None, "manhattan", "chebyshev"])
        if kind == "dup":
            x, y = np.round(x * 64) / 64, np.round(y * 64) / 64
    chunk = r.choice([1, 2, 3, n - 1, n, n + 5, 10, 7])
    r.note(kind=kind, x=x, y=y, neighborhoods=ks, metric_x=mx, metric_y=my, standardize=std, chunk_size=chunk)
    exp = ksg(x, y, ks, mx, my or mx, std)
    x0, y0 = x.copy(), y.copy()
    kw = dict(neighborhoods=ks, standardize=std, metric_x=mx, metric_y=my)
    e = F(chunk_size=chunk, **kw)
    got = float(e.estimate(x, y))
    r.true(np.isfinite(got), "estimate is finite", got=got)
    r.close(got, exp, "fast estimator", rtol=1e-7, atol=1e-9)
    r.same(x, x0, "x unchanged")
    r.same(y, y0, "y unchanged")
    r.close(float(e.estimate(x, y)), got, "second run on the same data", rtol=1e-12)
    r.close(float(F(chunk_size=chunk, **dict(kw, neighborhoods=ks[::-1])).estimate(x, y)), exp, "order of the neighbourhoods", rtol=1e-7, atol=1e-9)
    r.close(float(F(chunk_size=chunk, **dict(kw, neighborhoods=ks + ks[:1])).estimate(x, y)), exp, "repeated neighbourhood", rtol=1e-7, atol=1e-9)
    s = S(**kw)
    r.close(float(s.estimate(x, y)), exp, "reference estimator", rtol=1e-7, atol=1e-9)
    r.close(float(S(**dict(kw, neighborhoods=ks + ks[:1])).estimate(x, y)), exp, "reference estimator, repeated neighbourhood", rtol=1e-7, atol=1e-9)
    pr = e.get_predictions()
    r.eq(sorted(pr), sorted(set(ks)), "predictions for each neighbourhood")
    for k in set(ks):
        r.close(pr[k], ksg(x, y, [k], mx, my or mx, std), f"prediction for k={k}", rtol=1e-7, atol=1e-9)
        r.close(s.get_predictions()[k], pr[k], f"implementations agree for k={k}", rtol=1e-7, atol=1e-9)
    p = e.parameters()
    r.eq((p.metric_x, p.metric_y, p.standardize), (mx, my or mx, std), "reported parameters")


@check("C12", 4, 8, [K + "KSGEnsembleFirstEstimator.fit", K + "KSGEnsembleFirstEstimatorSlow.fit"])
def large(r):
    """More points than any threshold a fast path is likely to have."""
    n = [450, 1100, 2100, 700, 130, 3000, 260, 5100][r.i % 8]
    ks = [[2, 7], [150, 1], [3], [4, 90]][r.i % 4]
    x = r.rng.normal(size=(n, 1 + r.i % 2))
    y = 0.8 * x[:, :1] + r.rng.normal(size=(n, 1))
    m = ["euclidean", "chebyshev"][r.i % 2]
    r.note(n=n, neighborhoods=ks, metric=m)
    exp = {k: ksg(x, y, [k], m, m, True) for k in ks}
    for name in ("KSGEnsembleFirstEstimator", "KSGEnsembleFirstEstimatorSlow")[:2 if n < 1000 else 1]:
        e = r.get("bmi.estimators", name, optional=False)(neighborhoods=ks, metric_x=m)
        e.fit(x, y)
        for k in ks:
            r.close(float(e.get_predictions()[k]), exp[k], f"{name}: prediction for k={k}", rtol=1e-7, atol=1e-9)


@check("C12", 16, 40, [K + "KSGEnsembleFirstEstimator.fit"])
def refit(r):
    """A second data set does not see the first one."""
    F = r.get("bmi.estimators", "KSGEnsembleFirstEstimator", optional=False)
    S = r.get("bmi.estimators", "KSGEnsembleFirstEstimatorSlow", optional=False)
    C = (F, S)[r.i % 2]
    a, b = r.rng.normal(size=(20, 1)), r.rng.normal(size=(20, 2))
    c = r.rng.normal(size=(11, 3))
    r.note(cls=C.__name__)
    e = C(neighborhoods=(2, 3), metric_x="euclidean")
    e.estimate(a, a + 0.01 * r.rng.normal(size=(20, 1)))
    got = float(e.estimate(c, c[:, :2] + r.rng.normal(size=(11, 2)) * 0.5 * 0))
    r.close(got, ksg(c, c[:, :2], [2, 3], "euclidean", "euclidean", True), "estimate after another fit", rtol=1e-7)


@check("C12", 16, 48, [K + "KSGEnsembleParameters", K + "KSGEnsembleFirstEstimator.fit"])
def invalid(r):
    C = r.get("bmi.estimators", r.choice(["KSGEnsembleFirstEstimator", "KSGEnsembleFirstEstimatorSlow"]), optional=False)
    x, y = r.rng.normal(size=(12, 2)), r.rng.normal(size=(12, 1))
    k = r.i % 8
    r.note(kind=k, cls=C.__name__)
    if k == 0:
        r.raises(lambda: C(neighborhoods=[]).estimate(x, y), "empty neighbourhoods")
    elif k == 1:
        r.raises(lambda: C(neighborhoods=[3, 0]).estimate(x, y), "zero neighbourhood")
    elif k == 2:
        r.raises(lambda: C(neighborhoods=[-1, 2]).estimate(x, y), "negative neighbourhood")
    elif k == 3:
        r.raises(lambda: C(neighborhoods=[12]).estimate(x, y), "dataset not larger than the largest neighbourhood")
    elif k == 4:
        r.raises(lambda: C(neighborhoods=[2, 40]).estimate(x, y), "dataset smaller than the largest neighbourhood")
    elif k == 5:
        r.raises(lambda: C(neighborhoods=[2]).estimate(x, y[:-1]), "unequal lengths")
    elif k == 6:
        r.raises(lambda: C(neighborhoods=[2]).estimate(x[:5], y), "unequal lengths")
    elif k == 7:
        r.raises(lambda: C(neighborhoods=[2]).get_predictions(), "predictions before fitting")
        C(neighborhoods=[11]).estimate(x, y)
