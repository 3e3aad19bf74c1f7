import os
import tempfile

import numpy as np

from .core import check

U = "bmi.utils:"


@check("C17", 54, 240, [U + "save_sample", U + "read_sample", U + "read_sample_dims"])
def roundtrip(r):
    save, read, dims = (r.get("bmi.utils", n, optional=False) for n in ("save_sample", "read_sample", "read_sample_dims"))
    n = r.choice([1, 2, 17, 200, 3000])
    dx, dy = r.choice([(1, 1), (2, 3), (11, 12), (3, 1), (25, 1), (1, 13), (10, 10), (101, 2), (3, 120), (1, 1005)])
    if dx + dy > 100:
        n = min(n, 17)
    kind = ["normal", "bits", "tiny", "int", "float32", "list", "mixed", "repeated", "nan"][r.i % 9]
    if kind == "bits":  # arbitrary finite doubles
        b = r.rng.integers(0, 2**64, size=(n, dx + dy), dtype=np.uint64).view(np.float64)
        z = np.where(np.isfinite(b), b, 0.1)
    elif kind == "tiny":
        z = r.rng.normal(size=(n, dx + dy)) * 1e-300
    elif kind == "int":
        z = r.rng.integers(-50, 50, size=(n, dx + dy))
    elif kind == "float32":
        z = r.rng.normal(size=(n, dx + dy)).astype(np.float32)
    else:
        z = r.rng.normal(size=(n, dx + dy)) * 10.0 ** r.rng.integers(-8, 9, size=(n, dx + dy))
    if kind == "repeated":  # equal rows, unsorted, constant columns
        z = z[r.rng.integers(0, max(1, n // 3), size=n)]
        z[:, -1] = 1.5
    elif kind == "nan":
        z[r.rng.integers(0, n), r.rng.integers(0, dx + dy)] = np.nan
    x, y = z[:, :dx], z[:, dx:]
    if kind == "mixed":
        x = np.round(x).astype(int) if np.all(np.abs(x) < 1e9) else x
    r.note(kind=kind, dim_x=dx, dim_y=dy, n=n, x=x, y=y)
    x0, y0 = x.copy(), y.copy()
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, r.choice(["s.csv", "X Y.csv", "noext"]))
        save(p, x.tolist() if kind == "list" else x, y.tolist() if kind == "list" else y)
        a, b = read(p)
        r.eq((a.shape, b.shape), ((n, dx), (n, dy)), "shapes")
        f = np.float32 if kind == "float32" else np.float64
        r.same(np.asarray(a, f), np.asarray(x, f), "X round trip")
        r.same(np.asarray(b, f), np.asarray(y, f), "Y round trip")
        if kind in ("normal", "bits", "tiny", "list", "repeated", "nan"):
            r.same(a, x, "X round trip is bit exact")
            r.same(b, y, "Y round trip is bit exact")
        r.eq(tuple(dims(p)), (dx, dy), "dimensions only")
        a2, b2 = read(p)
        r.same(a, a2, "reading twice")
        r.eq(os.listdir(d), [os.path.basename(p)], "one file is written")
    r.same(x, x0, "x unchanged")
    r.same(y, y0, "y unchanged")


@check("C17", 16, 40, [U + "save_sample", U + "read_sample"])
def rejected(r):
    save, read = (r.get("bmi.utils", n, optional=False) for n in ("save_sample", "read_sample"))
    k = r.i % 8
    r.note(kind=k)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "s.csv")
        x, y = np.ones((4, 2)), np.ones((4, 3))
        if k == 0:
            r.raises(lambda: save(p, x[:, 0], y), "one-dimensional X")
        elif k == 1:
            r.raises(lambda: save(p, x, y[:, 0]), "one-dimensional Y")
        elif k == 2:
            r.raises(lambda: save(p, x[:3], y), "unequal lengths")
        elif k == 3:
            r.raises(lambda: save(p, x, y[:1]), "unequal lengths")
        elif k == 4:
            r.raises(lambda: save(p, x[None], y), "three-dimensional X")
        elif k == 5:
            r.raises(lambda: save(p, x, y[..., None]), "three-dimensional Y")
        else:
            cols = [["X0", "Y0", "Z0"], ["X0", "Y0", "index"]][k - 6]
            with open(p, "w") as f:
                f.write(",".join(cols) + "\n1.0,2.0,3.0\n")
            r.raises(lambda: read(p), f"columns {cols}")
