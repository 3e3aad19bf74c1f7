import copy

import jax
import jax.numpy as jnp
import numpy as np
from scipy import stats

from . import ref
from .core import check


def _make(r, k):
    """(name, sampler, dims)"""
    g = lambda n: r.get("bmi.samplers", n, optional=False)
    kinds = ["binormal", "multinormal", "student", "student_df1", "additive", "discrete", "discrete_float", "multidiscrete",
             "zip", "zip_float", "concat", "transformed", "bmm", "bmm_mixture", "student_inf", "bmm_student"]
    kind = kinds[k % len(kinds)]
    dx, dy = r.int(1, 3), r.int(1, 3)
    if kind == "binormal":
        return kind, g("BivariateNormalSampler")(correlation=r.real(-0.9, 0.9), std_x=2.0, mean_y=1.0), (1, 1)
    if kind == "multinormal":
        return kind, g("SplitMultinormal")(dim_x=dx, dim_y=dy, covariance=ref.rand_corr(r.rng, dx + dy), mean=r.rng.normal(size=dx + dy)), (dx, dy)
    if kind == "student":
        return kind, g("SplitStudentT")(dim_x=dx, dim_y=dy, df=5, dispersion=ref.rand_corr(r.rng, dx + dy), mean=r.rng.normal(size=dx + dy)), (dx, dy)
    if kind == "student_df1":
        return kind, g("SplitStudentT")(dim_x=1, dim_y=1, df=1, dispersion=np.eye(2)), (1, 1)
    if kind == "student_inf":
        return kind, g("SplitStudentT")(dim_x=dx, dim_y=dy, df=float("inf"), dispersion=ref.rand_corr(r.rng, dx + dy)), (dx, dy)
    if kind == "additive":
        return kind, g("AdditiveUniformSampler")(epsilon=r.real(0.05, 2)), (1, 1)
    if kind.startswith("discrete"):
        return kind, g("DiscreteUniformMixtureSampler")(n_discrete=r.int(1, 6), use_discrete_x=kind == "discrete"), (1, 1)
    if kind == "multidiscrete":
        return kind, g("MultivariateDiscreteUniformMixtureSampler")(ns_discrete=[2, 5, 3]), (3, 3)
    if kind.startswith("zip"):
        return kind, g("ZeroInflatedPoissonizationSampler")(p=r.choice([0.0, 0.15, 0.6]), use_discrete_y=kind == "zip"), (1, 1)
    if kind == "concat":
        return kind, g("IndependentConcatenationSampler")([_make(r, 0)[1], _make(r, 4)[1], _make(r, 1)[1]]), None
    if kind == "transformed":
        return kind, g("TransformedSampler")(_make(r, 1)[1], transform_x=lambda x: jnp.tanh(x)), None
    bmm = r.get("bmi.samplers", "bmm", optional=False)
    if kind == "bmm":
        return kind, bmm.BMMSampler(bmm.MultivariateNormalDistribution(dim_x=dx, dim_y=dy, covariance=ref.rand_corr(r.rng, dx + dy)), mi_estimate_sample=100), (dx, dy)
    if kind == "bmm_student":
        return kind, bmm.BMMSampler(bmm.MultivariateStudentDistribution(dim_x=dx, dim_y=dy, df=4, dispersion=ref.rand_corr(r.rng, dx + dy)), mi_estimate_sample=100), (dx, dy)
    c = [bmm.MultivariateNormalDistribution(dim_x=dx, dim_y=dy, covariance=ref.rand_corr(r.rng, dx + dy), mean=jnp.full(dx + dy, 3.0 * s)) for s in (-1, 1)]
    return kind, bmm.BMMSampler(bmm.mixture(jnp.array([0.3, 0.7]), c), mi_estimate_sample=100), (dx, dy)


def _state(o, depth=0):
    """A comparable snapshot of an object's attributes."""
    if depth > 4:
        return "..."
    if isinstance(o, (np.ndarray, jnp.ndarray)):
        a = np.asarray(o)
        return (a.shape, str(a.dtype), a.tobytes())
    if isinstance(o, (int, float, str, bool, type(None), np.generic)):
        return repr(o)
    if isinstance(o, (list, tuple)):
        return [_state(v, depth + 1) for v in o]
    if isinstance(o, dict):
        return {str(k): _state(v, depth + 1) for k, v in o.items()}
    if type(o).__module__.startswith("bmi") and hasattr(o, "__dict__"):
        return (type(o).__name__, {k: _state(v, depth + 1) for k, v in vars(o).items()})
    return type(o).__name__


def _kept(a, b):
    """b is the state a; values computed once and kept (absent or None before) do not count as changes"""
    if a == b or a == "None":
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 2 and a[0] == b[0] and isinstance(a[1], dict):
        return _kept(a[1], b[1])
    if isinstance(a, dict) and isinstance(b, dict):
        return all(k in b and _kept(a[k], b[k]) for k in a)
    return False


@check("C05", 48, 160, ["bmi.samplers.*:sample"])
def shapes_and_determinism(r):
    kind, s, dims = _make(r, r.i)
    n = [1, 2, 7, 50, 1500][(r.i // 16 + r.i) % 5]
    seed = r.choice([0, 1, 42, 2**31 - 1, r.int(0, 10**6)])
    r.note(kind=kind, n_points=n, seed=seed)
    if dims:
        r.eq((s.dim_x, s.dim_y), dims, "declared dimensions")
    r.eq(s.dim_total, s.dim_x + s.dim_y, "dim_total")
    before = _state(s)
    x1, y1 = (np.array(v) for v in s.sample(n, seed))
    r.eq((x1.shape, y1.shape), ((n, s.dim_x), (n, s.dim_y)), "shapes")
    r.true(np.all(np.isfinite(x1.astype(float))) and np.all(np.isfinite(y1.astype(float))), "finite samples")
    x2, y2 = s.sample(n, seed)
    r.same(x1, x2, "X is a function of the seed")
    r.same(y1, y2, "Y is a function of the seed")
    x3, y3 = s.sample(n, jax.random.PRNGKey(seed))
    r.same(x1, x3, "X for the key built from the seed")
    r.same(y1, y3, "Y for the key built from the seed")
    x4, y4 = s.sample(n, np.int64(seed))
    r.same(x1, x4, "X for a NumPy integer seed")
    r.same(y1, y4, "Y for a NumPy integer seed")
    x5, y5 = s.sample(n_points=n, rng=seed)
    r.same(x1, x5, "X with keyword arguments")
    r.true(_kept(before, _state(s)), "sampling changes the sampler")
    if n > 2 and "discrete" not in kind:
        x6, y6 = s.sample(n, seed + 1 if seed < 2**31 - 1 else 5)
        r.true(not np.array_equal(x1, x6) or not np.array_equal(y1, y6), "another seed gives the same sample")
        r.true(len(np.unique(np.asarray(x1), axis=0)) > 1, "rows are not copies of one draw")
    s.sample(n + 3 if r.i % 2 else 3, 7)
    x7, y7 = s.sample(n, seed)
    r.same(x1, x7, "X after other samples were drawn")
    r.same(y1, y7, "Y after other samples were drawn")
    key = jax.random.split(jax.random.PRNGKey(seed), 3)[2]
    k0 = np.array(key)
    a, b = s.sample(n, key), s.sample(n, key)
    r.same(a[0], b[0], "X for a derived key")
    r.same(a[1], b[1], "Y for a derived key")
    r.same(np.array(key), k0, "the key is unchanged")


N = 8000


def _corr(a, b):
    return abs(np.corrcoef(np.ravel(a), np.ravel(b))[0, 1])


def _z(v, mean, name, r):
    v = np.asarray(v, dtype=float)
    se = v.std() / np.sqrt(len(v)) + 1e-12
    r.true(abs(v.mean() - mean) < 6 * se + 1e-6, f"{name}: sample mean {v.mean()} vs {mean} (se {se})")


@check("C05", 27, 63, ["bmi.samplers.*:sample"])
def documented_joint_law(r):
    """Rows come from the documented joint model (moment, support and independence tests)."""
    g = lambda n: r.get("bmi.samplers", n, optional=False)
    k = r.i % 9
    seed = 11 + r.i
    ks = lambda v, d: stats.kstest(np.asarray(v, dtype=float).ravel(), d).pvalue
    if k == 0:
        eps = [0.3, 6.0, 1.0, 0.05, 30.0][r.i // 9 % 5]
        r.note(epsilon=eps)
        x, y = (np.asarray(v, dtype=float)[:, 0] for v in g("AdditiveUniformSampler")(epsilon=eps).sample(N, seed))
        n = y - x
        r.true(ks(x, stats.uniform(0, 1).cdf) > 1e-6, "X ~ U(0, 1)")
        r.true(ks(n, stats.uniform(-eps, 2 * eps).cdf) > 1e-6, "Y - X ~ U(-eps, eps)")
        r.true(_corr(x, n) < 0.07 and _corr(x, n**2) < 0.07 and _corr((x - 0.5) ** 2, n**2) < 0.07, "noise is independent of X")
    elif k == 1:
        m = [3, 12, 1, 2, 40][r.i // 9 % 5]
        r.note(m=m)
        x, y = (np.asarray(v, dtype=float)[:, 0] for v in g("DiscreteUniformMixtureSampler")(n_discrete=m, use_discrete_x=r.i % 2 == 0).sample(N, seed))
        c = np.bincount(x.astype(int), minlength=m)
        r.true(len(c) == m and np.all(x == x.astype(int)), "X in {0..m-1}")
        r.true(np.all(abs(c / N - 1 / m) < 6 * np.sqrt(1 / N)), "X uniform", counts=c)
        r.true(ks(y - x, stats.uniform(0, 2).cdf) > 1e-6, "Y - X ~ U(0, 2)")
        if m > 1:
            r.true(_corr(x, y - x) < 0.07, "Y - X independent of X")
    elif k == 2:
        p = [0.15, 0.7, 0.0, 0.9][r.i // 9 % 4]
        r.note(p=p)
        x, y = (np.asarray(v, dtype=float)[:, 0] for v in g("ZeroInflatedPoissonizationSampler")(p=p).sample(N, seed))
        r.true(ks(x, stats.expon().cdf) > 1e-6, "X ~ Exp(1)")
        r.true(np.all(y >= 0) and np.all(y == np.round(y)), "Y is a count")
        _z(y == 0, p + (1 - p) / 2, "P(Y=0)", r)
        _z((y == 0) * x, p + (1 - p) / 4, "E[X 1(Y=0)]", r)
        _z(x * y, 2 * (1 - p), "E[XY]", r)
        _z(y * (y - 1), 2 * (1 - p), "E[Y(Y-1)]", r)
    elif k in (3, 4):
        dx, dy = r.choice([(1, 1), (2, 1), (1, 3), (2, 2)])
        cov = ref.rand_corr(r.rng, dx + dy)
        d = np.array([0.5, 2.0, 1.0, 3.0])[: dx + dy]
        cov = cov * np.outer(d, d)
        mean = r.rng.normal(size=dx + dy)
        r.note(dim_x=dx, dim_y=dy, covariance=cov, mean=mean)
        if k == 3:
            s, f = g("SplitMultinormal")(dim_x=dx, dim_y=dy, covariance=cov, mean=mean), 1.0
        else:
            s, f = g("SplitStudentT")(dim_x=dx, dim_y=dy, dispersion=cov, mean=mean, df=9), 9 / 7
        z = np.hstack([np.asarray(v, dtype=float) for v in s.sample(N, seed)])
        w = (z - mean) @ np.linalg.inv(np.linalg.cholesky(cov)).T
        r.close(np.median(w, axis=0), np.zeros(dx + dy), "location", atol=0.1)
        r.close(np.cov(w.T), f * np.eye(dx + dy), "whitened covariance", atol=0.2)
        marg = stats.norm(0, 1).cdf if k == 3 else stats.t(9).cdf
        for j in range(dx + dy):
            r.true(ks(w[:, j], marg) > 1e-6, f"marginal of whitened coordinate {j}")
        r2 = np.sum(w**2, axis=1)
        q = stats.chi2(dx + dy).cdf if k == 3 else (lambda t: stats.f(dx + dy, 9).cdf(t / (dx + dy)))
        r.true(ks(r2, q) > 1e-6, "radius of the whitened sample")
    elif k == 5:  # the pair of (X, Y) of the mixture comes from the same component
        bmm = r.get("bmi.samplers", "bmm", optional=False)
        c = [bmm.MultivariateNormalDistribution(dim_x=1, dim_y=1, covariance=np.eye(2) * 0.01, mean=jnp.array([a, b]))
             for a, b in ((-5.0, 3.0), (5.0, 8.0))]
        x, y = (np.asarray(v, dtype=float)[:, 0] for v in bmm.BMMSampler(bmm.mixture(jnp.array([0.3, 0.7]), c)).sample(N, seed))
        r.true(np.all((x > 0) == (y > 5.5)), "mixture rows are paired")
        _z(x > 0, 0.7, "proportion", r)
    elif k == 6:  # components of a concatenation are independent and paired
        s = g("MultivariateDiscreteUniformMixtureSampler")(ns_discrete=[4, 4])
        x, y = (np.asarray(v, dtype=float) for v in s.sample(N, seed))
        n = y - x
        r.true(np.all(n > -1e-4) and np.all(n < 2 + 1e-4), "Y_k - X_k in [0, 2]")
        for a, b in ((x[:, 0], x[:, 1]), (n[:, 0], n[:, 1]), (x[:, 0], n[:, 1]), (x[:, 1], n[:, 0]), (x[:, 0], n[:, 0]), (x[:, 1], n[:, 1])):
            r.true(_corr(a, b) < 0.07, "independent streams")
    elif k == 7:
        rho = r.choice([-0.7, 0.0, 0.9])
        x, y = (np.asarray(v, dtype=float)[:, 0] for v in g("BivariateNormalSampler")(correlation=rho, std_x=2.0, std_y=0.5, mean_x=1.0, mean_y=-3.0).sample(N, seed))
        a, b = (x - 1) / 2, (y + 3) / 0.5
        r.true(ks(a, stats.norm(0, 1).cdf) > 1e-6 and ks(b, stats.norm(0, 1).cdf) > 1e-6, "marginals")
        _z(a * b, rho, "E[ab]", r)
    else:
        s = g("TransformedSampler")(g("BivariateNormalSampler")(correlation=0.999), transform_x=lambda t: -t, transform_y=lambda t: 2 * t)
        x, y = (np.asarray(v, dtype=float)[:, 0] for v in s.sample(N, seed))
        r.true(np.corrcoef(x, y)[0, 1] < -0.99, "transformed rows stay paired")
