import jax
import jax.numpy as jnp
import numpy as np

from .core import check

N = "bmi.estimators.neural."


def lse(a):
    a = np.asarray(a, float)
    m = a.max()
    return m + np.log(np.exp(a - m).sum()) if np.isfinite(m) else m


def ref_infonce(s):
    return float(np.mean([s[i, i] - (lse(s[i]) - np.log(len(s))) for i in range(len(s))]))


def _off(s):
    return s[~np.eye(len(s), dtype=bool)]


def ref_dv(s):
    o = _off(s)
    return float(np.mean(np.diag(s)) - (lse(o) - np.log(len(o))))


def ref_nwj(s):
    return float(np.mean(np.diag(s)) - np.mean(np.exp(_off(s) - 1)))


REFS = dict(infonce=ref_infonce, donsker_varadhan=ref_dv, nwj=ref_nwj)


@check("C14", 45, 200, [N + "_backend_linear_memory:*", N + "_backend_quadratic_memory:*"])
def losses(r):
    name = ["infonce", "donsker_varadhan", "nwj"][r.i % 3]
    n = r.choice([2, 3, 5, 12, 40, 130]) if name != "infonce" else r.choice([1, 2, 3, 5, 12, 40, 130])
    scale = r.choice([1.0, 1.0, 0.0, 5.0, 60.0]) if name != "nwj" else r.choice([0.0, 1.0, 3.0])
    s = (r.rng.normal(size=(n, n)) * scale + (0 if name == "nwj" else r.choice([0.0, 0.0, -200.0, 200.0, -4000.0, 4000.0]))).astype(np.float32)
    tab = jnp.asarray(s)
    f = lambda x, y: tab[x[0].astype(int), y[1].astype(int)]
    xs, ys = jnp.arange(n, dtype=jnp.float32)[:, None], jnp.stack([jnp.zeros(n), jnp.arange(n, dtype=jnp.float32)], 1)
    r.note(loss=name, scores=s)
    exp = REFS[name](s.astype(float))
    tol = dict(rtol=3e-4, atol=3e-4 * (1 + np.abs(s).max()))
    vals = []
    for mod in ("_backend_linear_memory", "_backend_quadratic_memory"):
        g = r.get(N + mod, name)
        v = float(g(f, xs, ys))
        r.close(v, exp, f"{mod}.{name}", **tol)
        v2 = float(jax.jit(lambda a, b: g(f, a, b))(xs, ys))
        r.close(v2, exp, f"{mod}.{name} (jit)", **tol)
        vals.append(v)
    if name == "infonce":
        r.true(vals[0] <= np.log(n) + 1e-3 * (1 + np.abs(s).max()) and vals[1] <= np.log(n) + 1e-3 * (1 + np.abs(s).max()), "InfoNCE is at most log n")


@check("C14", 12, 60, [N + "_backend_linear_memory:*", N + "_backend_quadratic_memory:*"])
def loss_gradients(r):
    """Both implementations have the same gradient with respect to the scores."""
    name = ["infonce", "donsker_varadhan", "nwj"][r.i % 3]
    n = r.int(2, 6)
    s = jnp.asarray(r.rng.normal(size=(n, n)), dtype=jnp.float32)
    xs, ys = jnp.arange(n, dtype=jnp.float32)[:, None], jnp.arange(n, dtype=jnp.float32)[:, None]
    r.note(loss=name, scores=s)
    gs = []
    for mod in ("_backend_linear_memory", "_backend_quadratic_memory"):
        g = r.get(N + mod, name)
        gs.append(np.asarray(jax.grad(lambda t: g(lambda x, y: t[x[0].astype(int), y[0].astype(int)], xs, ys))(s), float))
    eps = 1e-6
    num = np.zeros((n, n))
    s64 = np.asarray(s, float)
    for i in range(n):
        for j in range(n):
            d = np.zeros((n, n))
            d[i, j] = eps
            num[i, j] = (REFS[name](s64 + d) - REFS[name](s64 - d)) / (2 * eps)
    r.close(gs[0], num, "gradient, linear memory", rtol=1e-2, atol=1e-3)
    r.close(gs[1], num, "gradient, quadratic memory", rtol=1e-2, atol=1e-3)


@check("C14", 24, 100, [N + "_mine_estimator:_mine_value", N + "_mine_estimator:_mine_value_neg_grad_log_denom"])
def mine(r):
    val = r.get(N + "_mine_estimator", "_mine_value")
    full = r.get(N + "_mine_estimator", "_mine_value_neg_grad_log_denom")
    import equinox as eqx

    class Lin(eqx.Module):
        w: jnp.ndarray
        b: jnp.ndarray

        def __call__(self, x, y):
            return jnp.tanh(self.w @ jnp.concatenate([x, y])) + self.b * y[0]

    n, dx, dy = r.choice([1, 2, 5, 9, 70]), r.int(1, 3), r.int(1, 3)
    w, b = r.rng.normal(size=dx + dy), float(r.rng.normal())
    x, yp, yu = r.rng.normal(size=(n, dx)), r.rng.normal(size=(n, dy)), r.rng.normal(size=(n, dy))
    c = Lin(jnp.asarray(w, jnp.float32), jnp.float32(b))
    T = lambda x, y: np.tanh(np.hstack([x, y]) @ w) + b * y[:, 0]

    def dT(x, y):
        z = np.hstack([x, y])
        return (1 - np.tanh(z @ w) ** 2)[:, None] * z, y[:, 0]

    alpha = r.choice([0.9, 0.1, 0.5, 0.99])
    prev = r.choice([-np.inf, 0.0, 1.3, -2.0])
    r.note(n=n, alpha=alpha, log_denom_prev=prev, w=w, b=b, x=x, y_paired=yp, y_unpaired=yu)
    exp_v = T(x, yp).mean() - (lse(T(x, yu)) - np.log(n))
    J = lambda a: jnp.asarray(a, jnp.float32)
    kw = dict(f=c, xs=J(x), ys_paired=J(yp), ys_unpaired=J(yu))
    r.close(val(**kw), exp_v, "MINE value", rtol=1e-4, atol=1e-4)
    v, g, ld = full(**kw, log_denom_prev=prev, alpha=alpha)
    r.close(v, exp_v, "MINE value (with gradient)", rtol=1e-4, atol=1e-4)
    cur = np.mean(np.exp(T(x, yu)))
    den = alpha * cur + (1 - alpha) * np.exp(prev)
    r.close(ld, np.log(den), "smoothed log-denominator", rtol=1e-4, atol=1e-4)
    e = np.exp(T(x, yu))[:, None]
    gw = (e * dT(x, yu)[0]).mean(0) / den - dT(x, yp)[0].mean(0)
    gb = (e[:, 0] * dT(x, yu)[1]).mean() / den - dT(x, yp)[1].mean()
    r.close(g.w, gw, "negative gradient (w)", rtol=1e-3, atol=1e-3)
    r.close(g.b, gb, "negative gradient (b)", rtol=1e-3, atol=1e-3)


@check("C14", 12, 40, [N + "_critics:MLP.__call__"])
def critic(r):
    M = r.get(N + "_critics", "MLP")
    dx, dy = r.int(1, 4), r.int(1, 4)
    hid = r.choice([(5,), (4, 3), (), (2, 2, 2), (6, 5, 4, 5, 6), (3,) * 8])
    m = M(jax.random.PRNGKey(r.i), dim_x=dx, dim_y=dy, hidden_layers=hid)
    x, y = r.rng.normal(size=dx), r.rng.normal(size=dy)
    r.note(dim_x=dx, dim_y=dy, hidden_layers=hid, x=x, y=y)
    z = np.concatenate([x, y])
    ls = m.layers
    r.eq([(l.weight.shape[1], l.weight.shape[0]) for l in ls], list(zip([dx + dy] + list(hid), list(hid) + [1])), "layer sizes")
    for k, l in enumerate(ls):
        z = np.asarray(l.weight, float) @ z + np.asarray(l.bias, float)
        if k < len(ls) - 1:
            z = np.maximum(z, 0)
    out = m(jnp.asarray(x, jnp.float32), jnp.asarray(y, jnp.float32))
    r.eq(np.shape(out), (), "scalar score")
    r.close(out, z[0], "score of the pair", rtol=1e-4, atol=1e-5)
    ws = [np.asarray(l.weight).ravel()[:2].tolist() for l in ls]
    r.eq(len({tuple(w) for w in ws}), len(ws), "layers are initialised with distinct keys")
