import jax
import jax.numpy as jnp
import numpy as np

from . import ref
from .core import check


@check("C04", 24, 80, ["bmi.samplers._transformed:TransformedSampler.sample", "bmi.samplers._transformed:TransformedSampler.__init__"])
def transformed(r):
    T = r.get("bmi.samplers", "TransformedSampler", optional=False)
    dx, dy = r.int(1, 4), r.int(1, 4)
    ax, ay = r.choice([(0, 0), (0, 0), (1, 0), (0, 2), (2, 1)])
    vec = bool(r.i % 2)
    base = ref.FakeSampler(dx, dy, mi=r.real(0, 3), tag=0.3)
    f = (lambda x: jnp.concatenate([x * 2 + jnp.arange(dx)] + [x[..., :1]] * ax, axis=-1))
    g = (lambda y: jnp.concatenate([y ** 3 - jnp.sum(y, axis=-1, keepdims=True)] + [y[..., -1:]] * ay, axis=-1))
    none_x, none_y = ax == 0 and r.i % 5 == 1, ay == 0 and r.i % 5 == 2
    r.note(dim_x=dx, dim_y=dy, add_dim_x=ax, add_dim_y=ay, vectorise=vec, none_x=none_x, none_y=none_y)
    s = T(base, transform_x=None if none_x else f, transform_y=None if none_y else g, add_dim_x=ax, add_dim_y=ay, vectorise=vec)
    r.eq((s.dim_x, s.dim_y, s.dim_total), (dx + ax, dy + ay, dx + dy + ax + ay), "dims")
    r.close(s.mutual_information(), base._mi, "MI", rtol=1e-12)
    n = r.choice([1, 2, 17, 1200])
    key = r.int(0, 100)
    x, y = s.sample(n, key)
    r.eq(len(base.calls), 1, "exactly one base sample is drawn")
    bx, by = base.sample(n, key)
    r.close(x, bx if none_x else f(bx), "X is f of the base X", rtol=1e-5, atol=1e-6)
    r.close(y, by if none_y else g(by), "Y is g of the base Y", rtol=1e-5, atol=1e-6)
    tx, ty = s.transform(bx, by)
    r.close(tx, x, "transform(x)", rtol=1e-5, atol=1e-6)
    r.close(ty, y, "transform(y)", rtol=1e-5, atol=1e-6)
    r.raises(lambda: T(base, add_dim_x=-1), "negative add_dim_x")
    r.raises(lambda: T(base, add_dim_y=-1), "negative add_dim_y")
    r.raises(lambda: T(base, add_dim_x=3, add_dim_y=-2), "negative add_dim_y with positive add_dim_x")
    r.raises(lambda: T(base, add_dim_x=-2, add_dim_y=3), "negative add_dim_x with positive add_dim_y")


class _KeyOnly:
    """Component sampler whose output tells which key and which component produced it."""

    def __init__(self, dim_x, dim_y, mi, tag):
        self.dim_x, self.dim_y, self._mi, self.tag, self.keys = dim_x, dim_y, mi, tag, []

    def mutual_information(self):
        return self._mi

    def sample(self, n_points, rng):
        self.keys.append(tuple(int(v) for v in np.asarray(rng, dtype=np.uint32).ravel()))
        base = np.arange(n_points, dtype=np.float32)[:, None] * 1000 + self.tag * 10
        return base + np.arange(self.dim_x), -(base + np.arange(self.dim_y))


@check("C04", 24, 80, ["bmi.samplers._independent_coordinates:IndependentConcatenationSampler.sample"])
def concatenation(r):
    C = r.get("bmi.samplers", "IndependentConcatenationSampler", optional=False)
    m = r.i % 6 + 1
    comps = [_KeyOnly(r.int(1, 3), r.int(1, 3), r.real(0, 2), t) for t in range(m)]
    arg = comps if r.i % 2 else tuple(comps)
    s = C(arg)
    r.note(dims=[(c.dim_x, c.dim_y) for c in comps], mis=[c._mi for c in comps])
    r.eq((s.dim_x, s.dim_y), (sum(c.dim_x for c in comps), sum(c.dim_y for c in comps)), "dims")
    r.close(s.mutual_information(), sum(c._mi for c in comps), "sum of MIs", rtol=1e-5, atol=1e-6)
    n = r.choice([1, 5, 150])
    x, y = s.sample(n, r.i)
    ks = [c.keys for c in comps]
    r.true(all(len(k) == 1 for k in ks), "every component is sampled once", keys=ks)
    r.true(len({k[0] for k in ks}) == m, "components use distinct keys", keys=ks)
    r.true(all(k[0] != tuple(int(v) for v in np.asarray(jax.random.PRNGKey(r.i))) for k in ks), "the parent key is not reused", keys=ks)
    b = np.arange(n, dtype=np.float32)[:, None] * 1000
    r.same(x, np.hstack([b + c.tag * 10 + np.arange(c.dim_x) for c in comps]), "X columns in order")
    r.same(y, np.hstack([-(b + c.tag * 10 + np.arange(c.dim_y)) for c in comps]), "Y columns in order")
    if isinstance(arg, list):
        arg.append(_KeyOnly(1, 1, 1.0, 9))
        r.eq(s.dim_x, sum(c.dim_x for c in comps[:m]), "later changes of the list do not matter")
        x2, _ = s.sample(2, 0)
        r.eq(x2.shape[1], s.dim_x, "sample width equals dim_x after the caller's list changed")


@check("C04", 4, 8, ["bmi.samplers._independent_coordinates:IndependentConcatenationSampler.sample"])
def concatenation_independent(r):
    """Identical components give independent coordinates."""
    C = r.get("bmi.samplers", "IndependentConcatenationSampler", optional=False)
    B = r.get("bmi.samplers", "BivariateNormalSampler", optional=False)
    b = B(0.6)
    s = C([B(0.6), B(0.6), B(-0.3)] if r.i % 2 else [b, b, B(-0.3)])
    r.close(s.mutual_information(), -np.log1p(-0.36) - 0.5 * np.log1p(-0.09), "MI", rtol=1e-5)
    x, y = (np.asarray(v) for v in s.sample(20000, 5 + r.i))
    c = np.corrcoef(np.hstack([x, y]).T)
    exp = np.eye(6)
    for i, q in enumerate([0.6, 0.6, -0.3]):
        exp[i, 3 + i] = exp[3 + i, i] = q
    r.close(c, exp, "correlations of the concatenation", atol=0.05)
