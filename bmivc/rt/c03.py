import numpy as np

from .core import check


@check("C03", 24, 100, ["bmi.samplers._additive_uniform:AdditiveUniformSampler.mutual_information"])
def additive_uniform(r):
    A = r.get("bmi.samplers", "AdditiveUniformSampler", optional=False)
    eps = [0.5, 0.5 + 1e-6, 0.5 - 1e-6, 0.1, 0.75, 1.0, 10.0, 1e-3][r.i % 8] if r.i < 8 else 10 ** r.real(-3, 3)
    r.note(epsilon=eps)
    s = A(epsilon=eps)
    exp = 1 / (4 * eps) if eps > 0.5 else eps - np.log(2 * eps)
    r.close(s.mutual_information(), exp, "additive uniform MI", rtol=2e-6, atol=2e-6)
    r.close(A.mutual_information_function(eps), exp, "static function", rtol=2e-6, atol=2e-6)
    r.eq((s.dim_x, s.dim_y, s.dim_total), (1, 1, 2), "dims")
    x, y = s.sample(5, r.i)
    r.eq((tuple(x.shape), tuple(y.shape)), ((5, 1), (5, 1)), "sample shapes")
    x, y = (np.asarray(v, float) for v in s.sample(2000, r.i))
    n = (y - x) / eps
    tol = 0.02 + 1e-6 / eps
    r.true(np.all(np.abs(n) <= 1 + tol) and n.min() < -0.97 and n.max() > 0.97 and abs(n.mean()) < 0.09, "noise spans (-eps, eps)", low=n.min(), high=n.max())
    r.true(x.min() >= 0 and x.max() <= 1 and x.min() < 0.03 and x.max() > 0.97, "X spans (0, 1)")
    bad = r.choice([0, 0.0, -0.1, -1, -1e-9])
    r.raises(lambda: A(epsilon=bad), "epsilon <= 0", epsilon=bad)


def _dm(m):
    return np.log(m) - (m - 1) / m * np.log(2)


@check("C03", 16, 60, ["bmi.samplers._discrete_continuous:DiscreteUniformMixtureSampler.mutual_information"])
def discrete_mixture(r):
    D = r.get("bmi.samplers", "DiscreteUniformMixtureSampler", optional=False)
    m = r.i + 1 if r.i < 8 else r.int(9, 5000)
    r.note(n_discrete=m)
    s = D(n_discrete=m, use_discrete_x=bool(r.i % 2))
    r.close(s.mutual_information(), _dm(m), "discrete mixture MI", rtol=3e-6, atol=1e-6)
    r.eq((s.dim_x, s.dim_y), (1, 1), "dims")
    r.raises(lambda: D(n_discrete=r.choice([0, -1, -5])), "m <= 0")


@check("C03", 12, 60, ["bmi.samplers._discrete_continuous:MultivariateDiscreteUniformMixtureSampler.__init__"])
def multivariate_discrete(r):
    D = r.get("bmi.samplers", "MultivariateDiscreteUniformMixtureSampler", optional=False)
    ms = [r.int(1, 12) for _ in range(r.i % 5 + 1)]
    if r.i % 3 == 1:  # equal components
        ms = ms[:2] + [ms[0]] * 2
    r.note(ns_discrete=ms)
    s = D(ns_discrete=ms if r.i % 2 else tuple(ms), use_discrete_x=bool(r.i % 3))
    r.close(s.mutual_information(), sum(_dm(m) for m in ms), "sum over components", rtol=5e-6, atol=3e-6)
    r.eq((s.dim_x, s.dim_y), (len(ms), len(ms)), "dims")
    x, y = s.sample(3, 0)
    r.eq((tuple(x.shape), tuple(y.shape)), ((3, len(ms)), (3, len(ms))), "sample shapes")
    r.raises(lambda: D(ns_discrete=ms + [0]), "a component with m = 0")
    # every component has its own number of values
    x, y = (np.asarray(v) for v in s.sample(3000, 3))
    for j, m in enumerate(ms):
        r.eq(sorted(set(x[:, j].tolist())), [float(v) for v in range(m)], f"support of component {j}")
        r.true(np.all(y[:, j] - x[:, j] >= -1e-5) and np.all(y[:, j] - x[:, j] <= 2 + 1e-5), f"Y - X of component {j}")


@check("C03", 16, 60, ["bmi.samplers._discrete_continuous:ZeroInflatedPoissonizationSampler.mutual_information"])
def zero_inflated(r):
    Z = r.get("bmi.samplers", "ZeroInflatedPoissonizationSampler", optional=False)
    p = [0.0, 0.15, 0.5, 0.99][r.i % 4] if r.i < 8 else r.real(0, 0.999)
    r.note(p=p)
    s = Z(p=p, use_discrete_y=bool(r.i % 2))
    r.close(s.mutual_information(), (1 - p) * 0.3012, "documented approximation", rtol=1e-6)
    t = [1, 2, 3, 10, 50][r.i % 5]
    k = np.arange(1, t + 1)
    exp = (1 - p) * (2 * np.log(2) - np.euler_gamma - np.sum(np.log(k) * 0.5**k))
    r.note(truncation=t)
    r.close(s.mutual_information(truncation=t), exp, "truncated series", rtol=3e-6, atol=1e-6)
    r.eq((s.dim_x, s.dim_y), (1, 1), "dims")
    x, y = s.sample(4, r.i)
    r.eq((tuple(x.shape), tuple(y.shape)), ((4, 1), (4, 1)), "sample shapes")
    bad = r.choice([1.0, 1, 1.5, -0.1, -1])
    r.raises(lambda: Z(p=bad), "p outside [0, 1)", p=bad)
    r.raises(lambda: s.mutual_information(truncation=r.choice([0, -1])), "non-positive truncation")
