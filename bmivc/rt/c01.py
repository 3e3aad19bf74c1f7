import numpy as np

from . import ref
from .core import check

SM = "bmi.samplers._splitmultinormal:"


def _cov(r):
    big = r.i % 11 == 10
    if r.i % 5 == 4:  # dimensions known to be one
        dx, dy = r.choice([(1, 1), (1, 3), (4, 1)])
    elif big:
        dx, dy = r.int(60, 160), r.int(60, 160)
    else:
        dx, dy = r.int(1, 6), r.int(1, 6)
    c = ref.rand_corr(r.rng, dx + dy)
    d = 10 ** r.rng.uniform(-1.5, 1.5, size=dx + dy)
    scale = 10.0 ** r.choice([0, 0, -3, 3, -40, 40, -100, 100])
    return dx, dy, c * np.outer(d, d) * scale, d


@check("C01", 44, 200, [SM + "SplitMultinormal.mutual_information", SM + "_Multinormal.entropy"])
def gaussian_value(r):
    S = r.get("bmi.samplers", "SplitMultinormal", optional=False)
    dx, dy, cov, d = _cov(r)
    exp = ref.gauss_mi(cov, dx)
    r.note(dim_x=dx, dim_y=dy, covariance=cov)
    mean = r.rng.normal(size=dx + dy) * r.choice([0, 1, 1e6])
    cov0, mean0 = cov.copy(), mean.copy()
    s = S(dim_x=dx, dim_y=dy, covariance=cov, mean=mean)
    got = s.mutual_information()
    r.true(np.isfinite(got) and got >= 0, f"MI {got} is not finite and non-negative")
    r.close(got, exp, "MI of a joint normal", rtol=1e-6, atol=1e-9)
    got = S(dim_x=dx, dim_y=dy, covariance=cov).mutual_information()
    r.close(got, exp, "MI does not depend on the mean", rtol=1e-6, atol=1e-9)
    r.same(cov, cov0, "covariance argument unchanged")
    r.same(mean, mean0, "mean argument unchanged")
    r.eq((s.dim_x, s.dim_y, s.dim_total), (dx, dy, dx + dy), "dimensions")
    got = S(dim_x=dx, dim_y=dy, covariance=cov.tolist()).mutual_information()
    r.close(got, exp, "MI with list input", rtol=1e-6, atol=1e-9)


@check("C01", 8, 20, [SM + "SplitMultinormal.mutual_information"])
def gaussian_structured(r):
    S = r.get("bmi.samplers", "SplitMultinormal", optional=False)
    k = r.int(1, 5)
    if r.i < 4:  # exactly independent blocks
        a, b = ref.rand_corr(r.rng, k), ref.rand_corr(r.rng, k + 1)
        cov = np.block([[a, np.zeros((k, k + 1))], [np.zeros((k + 1, k)), b]]) * r.choice([1e-9, 1, 1e9])
        r.note(covariance=cov, dim_x=k)
        got = S(dim_x=k, dim_y=k + 1, covariance=cov).mutual_information()
        r.close(got, 0.0, "MI of independent variables", atol=1e-9)
        r.true(got >= 0, "MI is non-negative")
    else:  # canonical correlations
        rho = r.rng.uniform(-0.999, 0.999, size=k)
        cov = np.eye(2 * k + 1)
        for i in range(k):
            cov[i, k + i] = cov[k + i, i] = rho[i]
        r.note(rho=rho)
        got = S(dim_x=k, dim_y=k + 1, covariance=cov).mutual_information()
        r.close(got, -0.5 * np.sum(np.log(1 - rho**2)), "MI of canonical correlations", rtol=1e-7)


@check("C01", 20, 100, [SM + "BivariateNormalSampler.mutual_information", SM + "BivariateNormalSampler.__init__"])
def bivariate_value(r):
    B = r.get("bmi.samplers", "BivariateNormalSampler", optional=False)
    rho = r.choice([0.0, 0.5, -0.5, 0.999999, -0.999, r.real(-1, 1), r.real(-1, 1)])
    sx, sy = 10 ** r.real(-4, 4), 10 ** r.real(-4, 4)
    if abs(rho) > 0.99:
        sx = sy = 1.0
    mx, my = r.real(-100, 100), r.real(-100, 100)
    r.note(rho=rho, std_x=sx, std_y=sy, mean_x=mx, mean_y=my)
    if max(sx, sy) / min(sx, sy) > 1e4:
        sx = sy
    s = B(correlation=rho, std_x=sx, std_y=sy, mean_x=mx, mean_y=my)
    r.close(s.mutual_information(), -0.5 * np.log1p(-rho**2), "bivariate MI", rtol=1e-7, atol=1e-12)
    r.close(s.correlation(), rho, "correlation", rtol=1e-12)
    # the sampled distribution: affine in the standard draw
    x, y = (np.asarray(v, dtype=float) for v in s.sample(4000, 7 + r.i))
    r.eq((x.shape, y.shape), ((4000, 1), (4000, 1)), "shapes")
    r.true(abs(x.mean() - mx) < 6 * sx / 63 + 1e-4 * abs(mx), "mean of X", got=x.mean())
    r.true(abs(y.mean() - my) < 6 * sy / 63 + 1e-4 * abs(my), "mean of Y", got=y.mean())
    if abs(mx) < 1e3 * sx and abs(my) < 1e3 * sy:
        r.true(abs(x.std() / sx - 1) < 0.1 and abs(y.std() / sy - 1) < 0.1, "standard deviations", got=[x.std(), y.std()])
        r.true(abs(np.corrcoef(x[:, 0], y[:, 0])[0, 1] - rho) < 0.1, "sample correlation", got=np.corrcoef(x[:, 0], y[:, 0])[0, 1])


@check("C01", 38, 76, [SM + "SplitMultinormal.__init__", SM + "_can_be_covariance"])
def invalid_rejected(r):
    S = r.get("bmi.samplers", "SplitMultinormal", optional=False)
    B = r.get("bmi.samplers", "BivariateNormalSampler", optional=False)
    dx, dy = r.int(1, 4), r.int(1, 4)
    n = dx + dy
    sc = 10.0 ** r.choice([0, -4, -12, 5])
    cov = ref.rand_corr(r.rng, n) * sc
    k = r.i % 19
    kw = dict(dim_x=dx, dim_y=dy, covariance=cov)
    if k == 0:
        kw["mean"] = np.zeros(n + 1)
    elif k == 1:
        kw["mean"] = np.zeros(n - 1)
    elif k == 2:
        kw["covariance"] = np.eye(n + 1) * sc
    elif k == 3:
        kw["covariance"] = np.eye(n - 1) * sc
    elif k == 4:
        kw["covariance"] = np.eye(n)[:, : n - 1]
    elif k == 5:  # asymmetric in a single entry
        i, j = r.rng.choice(n, 2, replace=False)
        cov[i, j] += 0.3 * sc
    elif k == 6:  # antisymmetric part with positive eigenvalues
        a = r.rng.normal(size=(n, n))
        kw["covariance"] = cov + (a - a.T) * 0.1 * sc
    elif k == 7:  # two negative eigenvalues: the determinant is positive
        q, _ = np.linalg.qr(r.rng.normal(size=(n, n)))
        ev = np.ones(n)
        ev[:2] = -0.5
        m = q @ np.diag(ev) @ q.T * sc
        kw["covariance"] = (m + m.T) / 2
    elif k == 8:
        q, _ = np.linalg.qr(r.rng.normal(size=(n, n)))
        ev = np.ones(n)
        ev[0] = -0.01
        m = q @ np.diag(ev) @ q.T * sc
        kw["covariance"] = (m + m.T) / 2
    elif k == 9:
        kw["dim_x"], kw["dim_y"] = 0, n
    elif k == 10:
        kw["dim_x"], kw["dim_y"] = n, 0
    elif k == 11:
        kw["dim_x"], kw["dim_y"] = -1, n + 1
    elif k == 12:
        kw["covariance"] = -np.eye(n) * sc
    elif k == 13:
        kw["covariance"] = np.zeros((n, n))
    elif k == 15:
        kw["mean"] = np.zeros((n, 1))
    elif k == 16:
        kw["mean"] = np.zeros((1, n))
    elif k == 17:
        kw["mean"] = np.zeros(1 if n > 2 else 3)
    elif k == 18:
        kw["covariance"] = cov[None]
    elif k == 14:
        bad = r.choice([dict(correlation=1.0), dict(correlation=-1.0), dict(correlation=1.5), dict(correlation=-2.0),
                        dict(correlation=0.1, std_x=0.0), dict(correlation=0.1, std_y=0.0), dict(correlation=0.1, std_x=-1.0),
                        dict(correlation=0.1, std_y=-2.0), dict(correlation=0.1, std_x=-1.0, std_y=-1.0), dict(correlation=float("nan"))])
        r.note(**bad)
        r.raises(lambda: B(**bad), "invalid bivariate parameters")
        return
    r.note(**kw)
    r.raises(lambda: S(**kw), f"invalid parameters (kind {k})")
