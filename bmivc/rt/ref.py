"""Reference formulas, written from the documentation only (float64)."""

import numpy as np
from scipy.special import digamma, gammaln


def rand_corr(rng, n, k=None):
    """A well-conditioned random correlation matrix."""
    a = rng.normal(size=(n, n + 2))
    s = a @ a.T + 0.3 * n * np.eye(n)
    d = np.sqrt(np.diag(s))
    s = s / np.outer(d, d)
    return (s + s.T) / 2


def logdet(m):
    m = np.asarray(m, dtype=float)
    d = np.sqrt(np.diag(m))
    s, v = np.linalg.slogdet(m / np.outer(d, d))
    assert s > 0
    return v + 2 * np.sum(np.log(d))


def gauss_mi(cov, dim_x):
    cov = np.asarray(cov, dtype=float)
    return 0.5 * (logdet(cov[:dim_x, :dim_x]) + logdet(cov[dim_x:, dim_x:]) - logdet(cov))


def t_entropy(k, df):
    if np.isinf(df):
        return 0.5 * k * (1 + np.log(2 * np.pi))
    h = 0.5 * (df + k)
    return (gammaln(0.5 * df) - gammaln(h) + 0.5 * k * np.log(df * np.pi)
            + h * (digamma(h) - digamma(0.5 * df)))


def lvm_mixing(dx, dy, K, alpha, lambd, ex, ey, bx, by, hx, hy):
    rows = []
    for i in range(dx):
        u = [alpha, bx, 0.0]
        z = [lambd if j == i else 0.0 for j in range(K)]
        e = [ex if j == i else 0.0 for j in range(dx)]
        f = [0.0] * dy
        v = [hx if j == i else 0.0 for j in range(K, dx)]
        w = [0.0] * (dy - K)
        rows.append(u + z + e + f + v + w)
    for i in range(dy):
        u = [alpha, 0.0, by]
        z = [lambd if j == i else 0.0 for j in range(K)]
        e = [0.0] * dx
        f = [ey if j == i else 0.0 for j in range(dy)]
        v = [0.0] * (dx - K)
        w = [hy if j == i else 0.0 for j in range(K, dy)]
        rows.append(u + z + e + f + v + w)
    return np.array(rows, dtype=float)


def corr_of(cov):
    d = np.sqrt(np.diag(cov))
    return cov / np.outer(d, d)


class FakeSampler:
    """A sampler with recorded calls and recognisable samples."""

    def __init__(self, dim_x, dim_y, mi=0.0, tag=0.0):
        self.dim_x, self.dim_y, self._mi, self.tag = dim_x, dim_y, mi, tag
        self.calls = []

    @property
    def dim_total(self):
        return self.dim_x + self.dim_y

    def mutual_information(self):
        return self._mi

    def sample(self, n_points, rng):
        import jax

        self.calls.append((n_points, rng))
        key = jax.random.PRNGKey(int(rng)) if isinstance(rng, (int, np.integer)) else rng
        seed = [int(w) for w in np.asarray(key, dtype=np.uint32).ravel()]
        g = np.random.default_rng(seed + [int(self.tag * 1000) & 0xFFFF])
        z = g.normal(size=(n_points, self.dim_x + self.dim_y)).astype(np.float32)
        return z[:, : self.dim_x] + 0, z[:, self.dim_x:] + 0
