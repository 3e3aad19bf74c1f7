import jax
import jax.numpy as jnp
import numpy as np
from scipy import stats

from . import ref
from .core import check

CORE = "bmi.samplers._tfp._core:"


def _bmm(r):
    return r.get("bmi.samplers", "bmm", optional=False)


def _comp(r, dx, dy, kind=None):
    bmm = _bmm(r)
    cov, mean = ref.rand_corr(r.rng, dx + dy), r.rng.normal(size=dx + dy)
    kind = kind or r.choice(["n", "t"])
    if kind == "n":
        d = bmm.MultivariateNormalDistribution(dim_x=dx, dim_y=dy, covariance=cov, mean=mean)
        f = lambda a, m, c: stats.multivariate_normal(m, c).logpdf(a).reshape(len(a))
        mi = ref.gauss_mi(cov, dx)
    else:
        df = r.choice([2, 3, 8])
        d = bmm.MultivariateStudentDistribution(dim_x=dx, dim_y=dy, df=df, dispersion=cov, mean=mean)
        f = lambda a, m, c: stats.multivariate_t(m, c, df=df).logpdf(a).reshape(len(a))
        h = lambda k: ref.t_entropy(k, df)
        mi = ref.gauss_mi(cov, dx) + h(dx) + h(dy) - h(dx + dy)
    lj = lambda x, y: f(np.hstack([x, y]), mean, cov)
    lx = lambda x: f(x, mean[:dx], cov[:dx, :dx])
    ly = lambda y: f(y, mean[dx:], cov[dx:, dx:])
    return d, lj, lx, ly, mi


TOL = dict(rtol=2e-4, atol=3e-4)


@check("C11", 20, 60, [CORE + "JointDistribution.pmi", "bmi.samplers._tfp._normal:*", "bmi.samplers._tfp._student:*"])
def primitives(r):
    dx, dy = r.int(1, 3), r.int(1, 3)
    d, lj, lx, ly, mi = _comp(r, dx, dy, "nt"[r.i % 2])
    r.note(dim_x=dx, dim_y=dy, kind="nt"[r.i % 2])
    x, y = r.rng.normal(size=(6, dx)), r.rng.normal(size=(6, dy))
    r.close(d.pmi(jnp.asarray(x), jnp.asarray(y)), lj(x, y) - lx(x) - ly(y), "PMI", **TOL)
    r.close(d.dist_joint.log_prob(jnp.hstack([x, y])), lj(x, y), "joint density", **TOL)
    r.close(d.dist_x.log_prob(jnp.asarray(x)), lx(x), "X marginal", **TOL)
    r.close(d.dist_y.log_prob(jnp.asarray(y)), ly(y), "Y marginal", **TOL)
    r.close(d.analytic_mi, mi, "analytic MI", rtol=1e-4, atol=1e-4)
    a, b = d.sample(5, jax.random.PRNGKey(r.i))
    r.eq((np.shape(a), np.shape(b)), ((5, dx), (5, dy)), "sample shapes")
    r.raises(lambda: d.sample(0, jax.random.PRNGKey(0)), "n_points = 0")


@check("C11", 16, 50, [CORE + "mixture"])
def mixtures(r):
    bmm = _bmm(r)
    dx, dy, m = r.int(1, 2), r.int(1, 3), r.int(1, 4)
    cs = [_comp(r, dx, dy) for _ in range(m)]
    w = r.rng.dirichlet(np.ones(m) * 2)
    r.note(dim_x=dx, dim_y=dy, weights=w)
    d = bmm.mixture(jnp.asarray(w) if r.i % 2 else w, [c[0] for c in cs])
    x, y = r.rng.normal(size=(6, dx)), r.rng.normal(size=(6, dy))
    mixed = lambda fs: np.log(sum(p * np.exp(f) for p, f in zip(w, fs)))
    r.close(d.dist_x.log_prob(jnp.asarray(x)), mixed([c[2](x) for c in cs]), "mixed X marginal", **TOL)
    r.close(d.dist_y.log_prob(jnp.asarray(y)), mixed([c[3](y) for c in cs]), "mixed Y marginal", **TOL)
    r.close(d.dist_joint.log_prob(jnp.hstack([x, y])), mixed([c[1](x, y) for c in cs]), "mixed joint", **TOL)
    r.close(d.pmi(jnp.asarray(x), jnp.asarray(y)), mixed([c[1](x, y) for c in cs]) - mixed([c[2](x) for c in cs]) - mixed([c[3](y) for c in cs]), "PMI", **TOL)
    r.eq((d.dim_x, d.dim_y), (dx, dy), "dims")
    r.true(d.analytic_mi is None, "the MI of a mixture is not known analytically")
    r.raises(lambda: bmm.mixture(jnp.ones(m + 1) / (m + 1), [c[0] for c in cs]), "more proportions than components")
    if m > 1:
        r.raises(lambda: bmm.mixture(jnp.ones(m - 1) / (m - 1), [c[0] for c in cs]), "fewer proportions than components")
    o1, o2 = _comp(r, dx + 1, dy)[0], _comp(r, dx, dy + 1)[0]
    pad = lambda o: bmm.mixture(jnp.ones(m + 1) / (m + 1), [c[0] for c in cs] + [o])
    r.raises(lambda: pad(o1), "components with another dim_x")
    r.raises(lambda: pad(o2), "components with another dim_y")
    if dx != dy:
        r.raises(lambda: pad(_comp(r, dy, dx)[0]), "components with swapped dimensions")


@check("C11", 14, 40, [CORE + "transform"])
def transforms(r):
    bmm = _bmm(r)
    from tensorflow_probability.substrates import jax as tfp

    tfb = tfp.bijectors
    dx, dy = r.int(1, 3), r.int(1, 3)
    if r.i % 2:
        d, lj, lx, ly, mi = _comp(r, dx, dy)
    else:
        cs = [_comp(r, dx, dy) for _ in range(2)]
        d, mi = bmm.mixture(jnp.array([0.4, 0.6]), [c[0] for c in cs]), None
    fx = r.choice([None, tfb.Scale(2.5), tfb.Sinh(), tfb.Shift(jnp.float32(1.5))])
    fy = r.choice([None, tfb.Scale(-0.5), tfb.Sinh(), tfb.Shift(jnp.float32(-2.0))])
    r.note(dim_x=dx, dim_y=dy, fx=type(fx).__name__, fy=type(fy).__name__)
    t = bmm.transform(d, x_transform=fx, y_transform=fy)
    x, y = jnp.asarray(r.rng.normal(size=(5, dx))), jnp.asarray(r.rng.normal(size=(5, dy)))
    ax = lambda v: v if fx is None else fx.forward(v)
    ay = lambda v: v if fy is None else fy.forward(v)
    r.close(t.pmi(ax(x), ay(y)), d.pmi(x, y), "PMI is invariant", rtol=1e-3, atol=2e-3)
    jx = 0 if fx is None else fx.forward_log_det_jacobian(x, event_ndims=1)
    jy = 0 if fy is None else fy.forward_log_det_jacobian(y, event_ndims=1)
    r.close(t.dist_x.log_prob(ax(x)), d.dist_x.log_prob(x) - jx, "X marginal", rtol=1e-3, atol=2e-3)
    r.close(t.dist_y.log_prob(ay(y)), d.dist_y.log_prob(y) - jy, "Y marginal", rtol=1e-3, atol=2e-3)
    r.eq((t.dim_x, t.dim_y), (dx, dy), "dims")
    if mi is None:
        r.true(t.analytic_mi is None, "unknown MI stays unknown")
    else:
        r.close(t.analytic_mi, d.analytic_mi, "known MI unchanged", rtol=0, atol=0)
    k = jax.random.PRNGKey(r.i)
    a, b = t.sample(4, k)
    c, e = d.sample(4, k)
    r.close(a, ax(c), "sampled X is the transformed base X", rtol=1e-3, atol=1e-4)
    r.close(b, ay(e), "sampled Y is the transformed base Y", rtol=1e-3, atol=1e-4)


@check("C11", 8, 24, ["bmi.samplers._tfp._product:ProductDistribution.__init__"])
def products(r):
    bmm = _bmm(r)
    dx, dy = r.int(1, 3), r.int(1, 3)
    c = _comp(r, dx, dy)
    p = bmm.ProductDistribution(c[0].dist_x, c[0].dist_y)
    x, y = r.rng.normal(size=(5, dx)), r.rng.normal(size=(5, dy))
    r.note(dim_x=dx, dim_y=dy)
    r.eq((p.dim_x, p.dim_y), (dx, dy), "dims")
    r.close(p.analytic_mi, 0.0, "MI", rtol=0, atol=0)
    r.close(p.pmi(jnp.asarray(x), jnp.asarray(y)), np.zeros(5), "PMI is zero", atol=1e-3)
    r.close(p.dist_joint.log_prob(jnp.hstack([x, y])), c[2](x) + c[3](y), "joint of a product", **TOL)


@check("C11", 14, 40, ["bmi.samplers._tfp._wrapper:BMMSampler.mutual_information", CORE + "monte_carlo_mi_estimate", CORE + "pmi_profile"])
def monte_carlo(r):
    bmm = _bmm(r)
    dx, dy = r.int(1, 2), r.int(1, 2)
    d = _comp(r, dx, dy)[0]
    if r.i % 3 == 2:
        d = bmm.ProductDistribution(d.dist_x, d.dist_y)
    n, seed = r.choice([1, 2, 50, 333, 1500]), r.int(0, 50)
    key = jax.random.PRNGKey(seed)
    r.note(dim_x=dx, dim_y=dy, n=n, seed=seed)
    prof = np.asarray(bmm.pmi_profile(key, d, n), float)
    r.eq(prof.shape, (n,), "profile length")
    x, y = d.sample(n, key)
    r.close(prof, d.pmi(x, y), "profile is the PMI of a sample", **TOL)
    mi, se = bmm.monte_carlo_mi_estimate(key, d, n)
    r.close(mi, prof.mean(), "mean of the profile", rtol=1e-4, atol=1e-4)
    r.close(se, prof.std() / np.sqrt(n), "standard error", rtol=1e-3, atol=1e-4)
    s = bmm.BMMSampler(d, mi_estimate_seed=seed if r.i % 2 else key, mi_estimate_sample=n)
    v = float(s.mutual_information())
    r.close(v, max(0.0, float(prof.mean())), "wrapped estimate", rtol=1e-4, atol=1e-4)
    r.true(v >= 0, "never negative")
    calls = []
    mod = r.get("bmi.samplers._tfp._wrapper", "BMMSampler", False)
    inner = d.pmi
    try:
        d.pmi = lambda *a, **k: calls.append(1) or inner(*a, **k)
        r.close(float(s.mutual_information()), v, "second call", rtol=0, atol=0)
        r.eq(len(calls), 0, "the estimate is computed once")
    finally:
        del d.pmi
    given = r.choice([0.0, 0.25, 3])
    s2 = bmm.BMMSampler(d, mi=given, mi_estimate_sample=10)
    r.close(float(s2.mutual_information()), given, "given value", rtol=0, atol=0)
    r.eq((s.dim_x, s.dim_y), (dx, dy), "dims")
    a, b = s.sample(4, seed)
    c, e = d.sample(4, key)
    r.same(a, c, "sampling the distribution (X)")
    r.same(b, e, "sampling the distribution (Y)")
    r.raises(lambda: bmm.BMMSampler(d, mi_estimate_sample=r.choice([0, -1])), "non-positive sample size")
