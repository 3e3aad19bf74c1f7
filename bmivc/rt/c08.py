import jax.numpy as jnp
import numpy as np
from scipy.stats import norm

from . import ref
from .core import check

X1 = np.concatenate([np.linspace(-6, 6, 4001), [-100.0, 50.0, 0.0, 1e-3, -1e-3]])


def _refs():
    return {
        "half_cube": lambda x: np.sign(x) * np.abs(x) ** 1.5,
        "asinh": np.arcsinh,
        "normal_cdf": norm.cdf,
        "wiggly_x": lambda x: x + 0.4 * np.sin(x) + 0.2 * np.sin(1.7 * x + 1) + 0.03 * np.sin(3.3 * x - 2.5),
        "wiggly_y": lambda x: x - 0.4 * np.sin(0.4 * x) + 0.17 * np.sin(1.3 * x + 3.5) + 0.02 * np.sin(4.3 * x - 2.5),
        "swissroll": lambda x: np.stack([1.5 * np.pi * (1 + 2 * x) * np.cos(1.5 * np.pi * (1 + 2 * x)),
                                         1.5 * np.pi * (1 + 2 * x) * np.sin(1.5 * np.pi * (1 + 2 * x))], axis=-1) / 21.0,
    }


REF = _refs()


@check("C08", 6, 6, ["bmi.transforms.simple:*", "bmi.benchmark.tasks.wiggly:wiggly_x", "bmi.benchmark.tasks.wiggly:wiggly_y"])
def functions(r):
    k = r.i
    if k == 0:
        f, g = r.get("bmi.transforms", "half_cube", False), REF["half_cube"]
    elif k == 1:
        f, g = r.get("bmi.transforms", "normal_cdf", False), REF["normal_cdf"]
    elif k == 2:
        f, g = r.get("bmi.benchmark.tasks.wiggly", "wiggly_x"), REF["wiggly_x"]
    elif k == 3:
        f, g = r.get("bmi.benchmark.tasks.wiggly", "wiggly_y"), REF["wiggly_y"]
    elif k == 4:
        f = r.get("bmi.transforms", "swissroll2d", False)
        t = np.linspace(0, 1, 301)
        got = np.stack([np.asarray(f(jnp.array([v]))) for v in t])
        r.eq(got.shape, (301, 2), "shape")
        r.close(got, REF["swissroll"](t), "swiss roll", rtol=1e-3, atol=1e-5)
        rad = np.linalg.norm(got, axis=1)
        r.true(np.all(np.diff(rad) > 0), "radius strictly increasing")
        return
    else:
        return
    got = np.asarray(f(jnp.asarray(X1)), dtype=float)
    r.close(got, g(X1), "documented formula", rtol=2e-5, atol=2e-5)
    got = np.asarray(f(jnp.asarray(np.linspace(-4, 4, 801))), dtype=float)
    d = np.diff(got)
    r.true(np.all(d > 0), "strictly increasing", at=np.linspace(-4, 4, 801)[:-1][~(d > 0)][:5])


def _task(r, dx, dy, sampler=None):
    T = r.get("bmi.benchmark", "Task", optional=False)
    return T(sampler or ref.FakeSampler(dx, dy, mi=0.7), task_id="b-1", task_name="Base", task_params={"q": 2})


@check("C08", 30, 90, ["bmi.benchmark.tasks.*:transform_*"])
def tasks(r):
    """The map of each transforming task, applied to every coordinate of every point."""
    g = lambda n: r.get("bmi.benchmark.tasks", n, optional=False)
    kinds = ["half_cube", "normal_cdf", "asinh", "wiggly", "power", "swissroll"]
    kind = kinds[r.i % 6]
    dx, dy = (1 if kind == "swissroll" else r.int(1, 4)), r.int(1, 4)
    base = _task(r, dx, dy)
    al = None
    if kind == "half_cube":
        t, fx, fy = g("transform_half_cube_task")(base), REF["half_cube"], REF["half_cube"]
    elif kind == "normal_cdf":
        t, fx, fy = g("transform_normal_cdf_task")(base), norm.cdf, norm.cdf
    elif kind == "asinh":
        t, fx, fy = r.get("bmi.benchmark.tasks.asinh", "transform_asinh_task", False)(base), np.arcsinh, np.arcsinh
    elif kind == "wiggly":
        t, fx, fy = g("transform_wiggly_task")(base), REF["wiggly_x"], REF["wiggly_y"]
    elif kind == "power":
        al = r.choice([0.5, 1.0, 2, 3.0, 0.25, 1.5])
        f = lambda x: np.sign(x) * np.abs(x) ** al
        t, fx, fy = r.get("bmi.benchmark.tasks.power", "transform_power_task", False)(base, alpha=al), f, f
    else:
        t, fx, fy = g("transform_swissroll_task")(base, task_name="SR"), (lambda x: REF["swissroll"](x[..., 0])), (lambda y: y)
    n = r.choice([1, 2, 40, 1500])
    r.note(kind=kind, dim_x=dx, dim_y=dy, n=n, alpha=al)
    bx, by = base.sample(n, 5 + r.i)
    tx, ty = t.sample(n, 5 + r.i)
    ex, ey = fx(np.asarray(bx, float)), fy(np.asarray(by, float))
    r.close(tx, ex, "X is the documented map of the base X", rtol=2e-4, atol=2e-5)
    r.close(ty, ey, "Y is the documented map of the base Y", rtol=2e-4, atol=2e-5)
    r.eq((t.dim_x, t.dim_y), (dx + (kind == "swissroll"), dy), "dims")
    r.close(t.mutual_information, 0.7, "MI unchanged", rtol=1e-9)
    r.eq((np.shape(tx), np.shape(ty)), ((n, t.dim_x), (n, t.dim_y)), "sample shapes")
    # pointwise: transforming a subset equals the subset of the transform
    if n > 2:
        sx, sy = t.sampler.transform(np.asarray(bx)[3:4], np.asarray(by)[3:4])
        r.close(sx, np.asarray(tx)[3:4], "every point is transformed on its own (X)", rtol=1e-5, atol=1e-6)
        r.close(sy, np.asarray(ty)[3:4], "every point is transformed on its own (Y)", rtol=1e-5, atol=1e-6)
    if kind not in ("swissroll",):
        grid = np.linspace(-3, 3, 241).astype(np.float32)
        px, py = t.sampler.transform(np.repeat(grid[:, None], dx, 1), np.repeat(grid[:, None], dy, 1))
        r.true(np.all(np.diff(np.asarray(px), axis=0) > 0) and np.all(np.diff(np.asarray(py), axis=0) > 0), "strictly increasing")


@check("C08", 6, 18, ["bmi.benchmark.tasks.scaling:transform_rescale"])
def rescale(r):
    base = _task(r, 2, 3)
    t = r.get("bmi.benchmark.tasks", "transform_rescale", optional=False)(base)
    bx, by = (np.asarray(v, float) for v in base.sample(50, 3 + r.i))
    x, y = t.sample(50, 3 + r.i)
    r.close(x, (bx - bx.mean(0)) / bx.std(0), "rescaled X", rtol=1e-4, atol=1e-5)
    r.close(y, (by - by.mean(0)) / by.std(0), "rescaled Y", rtol=1e-4, atol=1e-5)
