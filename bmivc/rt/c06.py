import numpy as np

from . import ref
from .core import check

M = "bmi.samplers._matrix_utils:"


@check("C06", 30, 150, [M + "parametrised_correlation_matrix"])
def parametrised(r):
    f = r.get("bmi.samplers", "parametrised_correlation_matrix", optional=False)
    dx, dy = r.int(1, 5), r.int(1, 5)
    k = r.int(1, min(dx, dy))
    c, cx, cy = r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)
    if r.i % 7 == 0:
        c, cx, cy = 1, -1, 1
    n = dx + dy
    exp = np.eye(n)
    for a in range(n):
        for b in range(n):
            if a != b:
                if a < dx and b < dx:
                    exp[a, b] = cx
                elif a >= dx and b >= dx:
                    exp[a, b] = cy
                else:
                    i, j = min(a, b), max(a, b) - dx
                    exp[a, b] = c if i == j and i < k else 0
    r.note(dim_x=dx, dim_y=dy, k=k, correlation=c, correlation_x=cx, correlation_y=cy)
    r.close(f(dim_x=dx, dim_y=dy, k=k, correlation=c, correlation_x=cx, correlation_y=cy), exp, "entries", rtol=1e-12, atol=0)
    e = np.eye(n)
    e[0, dx] = e[dx, 0] = 0.5
    r.close(f(dx, dy), e, "default entries", rtol=1e-12, atol=0)
    base = dict(dim_x=dx, dim_y=dy, k=k)
    for bad in (dict(k=min(dx, dy) + 1), dict(k=0), dict(correlation=1.01), dict(correlation=-1.01), dict(correlation_x=1.5),
                dict(correlation_x=-1.5), dict(correlation_y=2), dict(correlation_y=-2), dict(dim_x=0), dict(dim_y=0), dict(k=-1)):
        r.raises(lambda: f(**{**base, **bad}), f"out of range {bad}")


@check("C06", 20, 100, [M + "canonical_correlation"])
def canonical(r):
    f = r.get("bmi.samplers", "canonical_correlation", optional=False)
    m, add = r.int(1, 5), r.choice([0, 0, 1, 3])
    rho = r.rng.uniform(-1, 1, size=m)
    exp = np.eye(2 * m + add)
    for i in range(m):
        exp[i, m + i] = exp[m + i, i] = rho[i]
    r.note(rho=rho, additional_y=add)
    r.close(f(rho if r.i % 2 else rho.tolist(), additional_y=add), exp, "entries", rtol=1e-12, atol=0)
    if add == 0:
        r.close(f(rho), exp, "default additional_y", rtol=1e-12, atol=0)


def _params(r):
    dx, dy = r.int(1, 5), r.int(1, 5)
    K = r.int(0, min(dx, dy))
    v = lambda: r.choice([0.0, r.real(-2, 2), r.real(0.1, 3)])
    p = dict(dim_x=dx, dim_y=dy, n_interacting=K, alpha=v(), lambd=v(), epsilon_x=r.real(0.3, 2), beta_x=v(), eta_x=v())
    full = dict(p, epsilon_y=p["epsilon_x"], beta_y=p["beta_x"], eta_y=p["eta_x"])
    for name in ("epsilon_y", "beta_y", "eta_y"):
        if r.rng.uniform() < 0.6:
            p[name] = full[name] = r.choice([0.0, r.real(0.3, 2)]) if name != "epsilon_y" else r.real(0.3, 2)
    return p, full


@check("C06", 40, 200, [M + "GaussianLVMParametrization.covariance", M + "GaussianLVMParametrization.mixing"])
def lvm(r):
    G = r.get("bmi.samplers", "GaussianLVMParametrization", optional=False)
    p, q = _params(r)
    r.note(**p)
    g = G(**p)
    dx, dy, K = p["dim_x"], p["dim_y"], p["n_interacting"]
    mix = ref.lvm_mixing(dx, dy, K, q["alpha"], q["lambd"], q["epsilon_x"], q["epsilon_y"], q["beta_x"], q["beta_y"], q["eta_x"], q["eta_y"])
    r.close(g.mixing, mix, "mixing", rtol=1e-12, atol=0)
    cov = mix @ mix.T
    r.close(g.covariance, cov, "covariance", rtol=1e-10, atol=1e-12)
    c = g.covariance
    r.close(c, c.T, "symmetric", rtol=1e-13)
    r.close(g.correlation, ref.corr_of(cov), "correlation", rtol=1e-9, atol=1e-12)
    r.close(np.diag(g.correlation), np.ones(dx + dy), "unit diagonal", rtol=1e-12)
    r.eq(g.n_latent, mix.shape[1], "n_latent")
    lab = (["$U_\\mathrm{all}$", "$U_X$", "$U_Y$"] + [f"$Z_{i+1}$" for i in range(K)] + [f"$E_{i+1}$" for i in range(dx)]
           + [f"$F_{i+1}$" for i in range(dy)] + [f"$V_{i+1}$" for i in range(K, dx)] + [f"$W_{i+1}$" for i in range(K, dy)])
    r.eq(list(g.latent_variable_labels), lab, "latent labels")
    r.eq(list(g.xy_labels), [f"$X_{i+1}$" for i in range(dx)] + [f"$Y_{i+1}$" for i in range(dy)], "xy labels")
    for bad in (-1, min(dx, dy) + 1):
        r.raises(lambda: G(**dict(p, n_interacting=bad)), f"n_interacting={bad}")


@check("C06", 20, 100, [M + "DenseLVMParametrization.correlation_strength", M + "SparseLVMParametrization.correlation_interacting"])
def strengths(r):
    D = r.get("bmi.samplers._matrix_utils", "DenseLVMParametrization")
    S = r.get("bmi.samplers._matrix_utils", "SparseLVMParametrization")
    dx, dy = r.int(1, 4), r.int(1, 4)
    a, e = r.real(-2, 2), r.real(0.2, 2)
    d = D(dim_x=dx, dim_y=dy, alpha=a, epsilon=e)
    r.note(dim_x=dx, dim_y=dy, alpha=a, epsilon=e)
    off = d.correlation[~np.eye(dx + dy, dtype=bool)]
    r.close(off, np.full(off.shape, d.correlation_strength), "dense correlation strength", rtol=1e-9)
    r.close(d.correlation_strength, a * a / (a * a + e * e), "dense strength value", rtol=1e-12)
    K = r.int(1, min(dx, dy))
    b, l = r.choice([0.0, r.real(-1, 1)]), r.real(-2, 2)
    kw = dict(dim_x=dx, dim_y=dy, n_interacting=K, beta=b, lambd=l, epsilon=e)
    eta = r.choice([None, 0.0, 0.7])
    if eta is not None:
        kw["eta"] = eta
    r.note(**kw)
    s = S(**kw)
    c = s.correlation
    for i in range(dx):
        for j in range(dy):
            r.close(c[i, dx + j], s.correlation_interacting if i == j and i < K else 0.0, f"sparse correlation ({i}, {j})", rtol=1e-9, atol=1e-12)
    et = l if eta is None else eta
    mix = ref.lvm_mixing(dx, dy, K, 0.0, l, e, e, b, b, et, et)
    r.close(s.covariance, mix @ mix.T, "sparse covariance", rtol=1e-10, atol=1e-12)
    if eta is None:
        v = np.diag(s.covariance)
        r.close(v, np.full(dx + dy, v[0]), "all variables have the same variance", rtol=1e-12)
