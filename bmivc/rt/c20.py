import numpy as np

from .core import check

U = "bmi.utils:"


@check("C20", 40, 200, [U + "ProductSpace.__init__", U + "ProductSpace.__getitem__", U + "ProductSpace.xy"])
def product_space(r):
    P = r.get("bmi.utils", "ProductSpace", optional=False)
    n, dx, dy = r.choice([1, 2, 9, 30, 1500]), r.choice([1, 2, 3, 4, 12]), r.choice([1, 2, 3, 4, 12])
    x, y = r.rng.normal(size=(n, dx)) * 3 + 5, r.rng.normal(size=(n, dy)) - 2
    kind = r.choice(["f", "f", "int", "list", "f32", "const"])
    if kind == "int":
        x, y = np.round(x * 4).astype(int), np.round(y * 4).astype(int)
    elif kind == "f32":
        x, y = x.astype(np.float32), y.astype(np.float32)
    elif kind == "const":
        x[:, 0] = 2.0
    std = r.choice([True, False, None])
    x0, y0 = x.copy(), y.copy()
    a, b = (x.tolist(), y.tolist()) if kind == "list" else (x, y)
    r.note(kind=kind, standardize=std, x=x, y=y)
    s = P(a, b) if std is None else P(a, b, standardize=std)
    r.same(x, x0, "x unchanged")
    r.same(y, y0, "y unchanged")

    def ref(v):
        if std is False:
            return np.asarray(v, float)
        v = np.asarray(v, float)
        d = v.std(0)
        return (v - v.mean(0)) / np.where(d > 1e-12, d, 1.0)

    X, Y = ref(x), ref(y)
    tol = dict(rtol=1e-4, atol=2e-4) if kind == "f32" else dict(rtol=1e-9, atol=1e-9)
    r.close(s.x, X, "x of the space", **tol)
    r.close(s.y, Y, "y of the space", **tol)
    r.close(s.xy, np.hstack([X, Y]), "xy of the space", **tol)
    r.eq((len(s), s.dim_x, s.dim_y), (n, dx, dy), "sizes")
    Z = np.hstack([X, Y])
    for it in [0, -1, n - 1, slice(None), slice(0, 2), slice(1, None), slice(None, None, 2), slice(None, None, -1), slice(2, 100), slice(-3, None), slice(-2, -1), slice(None, -1), slice(-100, 2), slice(-1, None, -2), slice(5, 2), slice(5, 1, -1)]:
        r.close(s[it], Z[it], f"space[{it}]", **tol)
    if std is False and kind in ("f", "const", "int"):
        keep = np.array(s.x)
        x[0, 0] += 100
        r.same(s.x, keep, "the space keeps its own copy of x")
    r.raises(lambda: P(x0, y0[:-1]) if n > 1 else P(x0, np.vstack([y0, y0])), "unequal lengths")
    r.raises(lambda: P(np.vstack([x0, x0]), y0, standardize=False), "unequal lengths")


@check("C20", 60, 400, [U + "chunker"])
def chunks(r):
    f = r.get("bmi.utils", "chunker", optional=False)
    n = r.choice([1, 2, 3, 10, r.int(1, 60), 1000])
    c = r.choice([1, 2, 3, n, max(1, n - 1), n + 1, 100, r.int(1, 12)])
    r.note(n_items=n, chunk_size=c)
    sl = list(f(n_items=n, chunk_size=c))
    items = list(range(n))
    parts = [items[s] for s in sl]
    r.eq(sum(parts, []), items, "the chunks cover 0..n-1 in order")
    r.true(all(0 < len(p) <= c for p in parts), "chunks are non-empty and at most chunk_size", got=[len(p) for p in parts])
    r.true(all(isinstance(s, slice) and 0 <= s.start < s.stop <= n and s.step in (None, 1) for s in sl), "proper slices", got=sl)
    for bad in ((0, 3), (-1, 3), (5, 0), (5, -2), (0, 0)):
        r.raises(lambda: list(f(*bad)), f"chunker{bad}")


@check("C20", 20, 80, [U + "add_noise"])
def noise(r):
    f = r.get("bmi.utils", "add_noise", optional=False)
    n, d = r.choice([1, 5, 2000]), r.int(1, 3)
    x = r.rng.normal(size=(n, d)) * r.choice([1.0, 1e3])
    if r.i % 3 == 0:
        x = np.round(x).astype(int)
    std, key = r.choice([1e-5, 0.5, 2.0, 0.0]), r.int(0, 20)
    x0 = x.copy()
    r.note(noise_std=std, rng_key=key, x=x)
    a = f(x, noise_std=std, rng_key=key)
    r.same(x, x0, "input unchanged")
    r.true(a is not x and not np.shares_memory(a, x), "a new array is returned")
    r.same(a, f(x, noise_std=std, rng_key=key), "function of the seed")
    r.eq(a.shape, x.shape, "shape")
    e = a - x
    z = f(np.zeros((n, d)), noise_std=std, rng_key=key)
    r.close(e, z, "noise depends only on the shape, scale and seed", rtol=1e-6, atol=1e-9)
    r.close(f(np.zeros((n, d)), noise_std=1.0, rng_key=key) * std, z, "noise is proportional to the scale", rtol=1e-9)
    if n == 2000 and std > 0:
        r.true(abs(z.std() / std - 1) < 0.1 and abs(z.mean() / std) < 0.1, "standard deviation", got=z.std())
        r.true(not np.array_equal(z, f(np.zeros((n, d)), noise_std=std, rng_key=key + 1)), "another seed gives other noise")
    r.close(f(x), x, "default noise is small", rtol=0, atol=1e-3)
    r.same(f(x, rng_key=0), f(x), "default seed")
    r.same(f(x.tolist(), noise_std=std, rng_key=key), a, "lists are accepted")
