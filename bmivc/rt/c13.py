import numpy as np
from sklearn.neighbors import KernelDensity

from .core import check


def _std(a):
    return (a - a.mean(0)) / a.std(0)


def hist_mi(x, y, bx, by):
    z = np.hstack([x, y])
    idx = []
    for j in range(z.shape[1]):
        b = bx if j < x.shape[1] else by
        e = np.histogram_bin_edges(z[:, j], bins=b)
        idx.append(np.clip(np.searchsorted(e, z[:, j], side="right") - 1, 0, b - 1))
    idx = np.array(idx).T
    n = len(z)
    joint, px, py = {}, {}, {}
    for row in idx:
        a, b = tuple(row[: x.shape[1]]), tuple(row[x.shape[1]:])
        joint[a, b] = joint.get((a, b), 0) + 1
        px[a] = px.get(a, 0) + 1
        py[b] = py.get(b, 0) + 1
    return sum(c / n * np.log(c * n / (px[a] * py[b])) for (a, b), c in joint.items())


@check("C13", 30, 120, ["bmi.estimators._histogram:HistogramEstimator.estimate"])
def histogram(r):
    H = r.get("bmi.estimators", "HistogramEstimator", optional=False)
    dx, dy = r.choice([(1, 1), (1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (2, 2)])
    n = r.choice([r.int(3, 60), r.int(3, 60), 1500]) if r.i % 10 else 20_000
    x = r.rng.normal(size=(n, dx))
    y = 0.7 * x[:, :1] + r.rng.normal(size=(n, dy)) * r.choice([0.1, 1.0])
    bx, by = r.int(1, 6 if dx + dy < 4 else 3), r.choice([None, 1, 2, 3, 5 if dx + dy < 4 else 4])
    if r.i % 10 == 0:  # many points: cells of every probability
        dx, dy, bx, by = 1, 1, 8, 11
        x, y = x[:, :1], y[:, :1]
    std = bool(r.i % 2)
    r.note(x=x, y=y, n_bins_x=bx, n_bins_y=by, standardize=std)
    e = H(n_bins_x=bx, n_bins_y=by, standardize=std)
    x0, y0 = x.copy(), y.copy()
    exp = hist_mi(_std(x) if std else x, _std(y) if std else y, bx, by or bx)
    r.close(float(e.estimate(x, y)), exp, "plug-in MI", rtol=1e-7, atol=1e-9)
    x2, y2 = r.rng.normal(size=(n, dx)) * 2, r.rng.normal(size=(n, dy))
    r.close(float(e.estimate(x2, y2)), hist_mi(_std(x2) if std else x2, _std(y2) if std else y2, bx, by or bx), "second data set", rtol=1e-7, atol=1e-9)
    r.close(float(e.estimate(x, y)), exp, "the first data set again", rtol=1e-7, atol=1e-9)
    r.same(x, x0, "x unchanged")
    r.same(y, y0, "y unchanged")
    p = e.parameters()
    r.eq((p.n_bins_x, p.n_bins_y, p.standardize), (bx, by or bx, std), "reported parameters")
    if r.i == 0:
        r.eq((H().parameters().n_bins_x, H().parameters().n_bins_y), (5, 5), "default bins")


KER = ["gaussian", "tophat", "epanechnikov", "exponential", "linear", "cosine"]


@check("C13", 30, 120, ["bmi.estimators._kde:KDEMutualInformationEstimator.estimate_entropies"])
def kde(r):
    E = r.get("bmi.estimators", "KDEMutualInformationEstimator", optional=False)
    dx, dy = r.int(1, 3), r.int(1, 3)
    n = r.choice([r.int(4, 40), r.int(4, 40), 70, 300])
    x, y = r.rng.normal(size=(n, dx)) * 2, r.rng.normal(size=(n, dy)) + 1
    kw = dict(kernel_xy=r.choice(KER), bandwidth_xy=r.choice(["scott", "silverman", 0.5, 1.3]))
    full = {}
    for v in "xy":
        k = r.choice([None, r.choice(KER)])
        b = r.choice([None, "scott", "silverman", 0.7])
        if k is not None:
            kw[f"kernel_{v}"] = k
        if b is not None:
            kw[f"bandwidth_{v}"] = b
        full[v] = (k or kw["kernel_xy"], b or kw["bandwidth_xy"])
    full["xy"] = (kw["kernel_xy"], kw["bandwidth_xy"])
    std = bool(r.i % 2)
    r.note(standardize=std, n=n, dim_x=dx, dim_y=dy, **kw)
    e = E(standardize=std, **kw)
    a, b = (_std(x), _std(y)) if std else (x, y)

    def h(v, data):
        return -np.mean(KernelDensity(kernel=full[v][0], bandwidth=full[v][1]).fit(data).score_samples(data))

    hx, hy, hxy = h("x", a), h("y", b), h("xy", np.hstack([a, b]))
    res = e.estimate_entropies(x, y)
    r.close([res.entropy_x, res.entropy_y, res.entropy_xy], [hx, hy, hxy], "entropies", rtol=1e-7)
    r.close(res.mutual_information, hx + hy - hxy, "MI", rtol=1e-7)
    r.close(float(e.estimate(x, y)), hx + hy - hxy, "estimate", rtol=1e-7)
    p = e.parameters()
    r.eq((p.kernel_x, p.bandwidth_x, p.kernel_y, p.bandwidth_y, p.kernel_xy, p.bandwidth_xy, p.standardize),
         full["x"] + full["y"] + full["xy"] + (std,), "reported parameters")
    m = r.choice([n, r.int(4, 30)])  # a second data set of another size
    x2, y2 = r.rng.normal(size=(m, dx)), r.rng.normal(size=(m, dy))
    a, b = (_std(x2), _std(y2)) if std else (x2, y2)
    r.close(float(e.estimate(x2, y2)), h("x", a) + h("y", b) - h("xy", np.hstack([a, b])), "estimate on a second data set", rtol=1e-7)


@check("C13", 20, 80, ["bmi.estimators.correlation:CCAMutualInformationEstimator.estimate"])
def cca(r):
    E = r.get("bmi.estimators", "CCAMutualInformationEstimator", optional=False)
    k = r.choice([1, 2, 3, 6])
    add_x, add_y = r.choice([(0, 0), (1, 0), (0, 2), (0, 0)])
    n = r.choice([200, 200, 1100])
    z = r.rng.normal(size=(n, k))
    x = np.hstack([z + 0.3 * r.rng.normal(size=(n, k)), r.rng.normal(size=(n, add_x))])
    y = np.hstack([z + 0.5 * np.arange(1, k + 1) * r.rng.normal(size=(n, k)), r.rng.normal(size=(n, add_y))])
    x = x @ r.rng.normal(size=(k + add_x, k + add_x))
    # population-free oracle: canonical correlations are the singular values of the whitened cross-covariance
    xc, yc = x - x.mean(0), y - y.mean(0)
    qx, _ = np.linalg.qr(xc)
    qy, _ = np.linalg.qr(yc)
    rho = np.clip(np.linalg.svd(qx.T @ qy, compute_uv=False), 0, 1 - 1e-12)
    exp = float(np.sum(-0.5 * np.log(1 - rho**2)))
    r.note(n=n, dim_x=k + add_x, dim_y=k + add_y, rho=rho)
    got = float(E().estimate(x, y))
    r.close(got, exp, "CCA estimate over all canonical pairs", rtol=2e-3, atol=2e-3)
