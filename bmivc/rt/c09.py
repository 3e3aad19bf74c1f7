import jax.numpy as jnp
import numpy as np
from scipy.linalg import expm

from . import ref
from .core import check

RT = "bmi.transforms._rotate:"


@check("C09", 20, 60, [RT + "so_generator", RT + "skew_symmetrize"])
def generators(r):
    so = r.get("bmi.transforms", "so_generator", optional=False)
    sk = r.get("bmi.transforms", "skew_symmetrize", optional=False)
    n = r.choice([r.int(2, 7), r.int(2, 7), 14])
    j = r.int(1, n - 1)
    i = r.int(0, j - 1)
    exp = np.zeros((n, n))
    exp[i, j], exp[j, i] = -1, 1
    r.note(n=n, i=i, j=j)
    r.close(so(n, i, j), exp, "generator", rtol=0, atol=0)
    e = np.zeros((n, n))
    e[0, 1], e[1, 0] = -1, 1
    r.close(so(n), e, "default generator", rtol=0, atol=0)
    for bad in ((1, 0, 0), (0, 0, 1), (1, 0, 1), (n, j, i), (n, i, i), (n, i, n), (n, -1, j), (n, n, n + 1), (n, -2, -1)):
        r.raises(lambda: so(*bad), f"so_generator{bad}")
    a = r.rng.normal(size=(n, n))
    keep = a.copy()
    r.close(sk(a), (a - a.T) / 2, "skew part", rtol=1e-12)
    r.same(a, keep, "argument unchanged")
    r.close(sk(jnp.asarray(a)), (a - a.T) / 2, "skew part (jax)", rtol=1e-5, atol=1e-6)


@check("C09", 24, 80, [RT + "Spiral.__call__", RT + "Spiral.__init__"])
def spirals(r):
    S = r.get("bmi.transforms", "Spiral", optional=False)
    sk = r.get("bmi.transforms", "skew_symmetrize", optional=False)
    n = r.choice([r.int(2, 5), r.int(2, 5), 12])
    g = r.rng.normal(size=(n, n))
    g = (g - g.T) / 2
    speed = r.choice([1.0, 0.3, -0.7, 2.0, 0.0])
    x = r.rng.normal(size=n) * r.choice([0.3, 1.0, 1.3])
    x = x * min(1.0, np.sqrt(4.0 / (1e-9 + abs(speed) * float(x @ x) * np.linalg.norm(g, 2))))
    init = None if r.i % 2 else r.rng.normal(size=(n, n))
    r.note(generator=g, speed=speed, x=x, initial=init)
    g0 = g.copy()
    s = S(g, initial=init, speed=speed)
    xx = float(x @ x)
    exp = (np.eye(n) if init is None else init) @ expm(speed * xx * g) @ x
    got = np.asarray(s(jnp.asarray(x)), dtype=float)
    r.close(got, exp, "spiral value", rtol=2e-3, atol=1e-3)
    if init is None:
        r.close(np.linalg.norm(got), np.linalg.norm(x), "norm preserved", rtol=1e-4)
        back = S(g, speed=-speed)(jnp.asarray(got))
        r.close(back, x, "the opposite rotation undoes it", rtol=2e-3, atol=2e-3)
    r.same(g, g0, "generator unchanged")
    r.close(S(g)(jnp.asarray(x)), expm(xx * g) @ x, "default speed and initial", rtol=2e-3, atol=1e-3)
    for bad in (np.zeros((n, n + 1)), np.zeros(n), np.zeros((n, n, n))):
        r.raises(lambda: S(bad), f"generator of shape {bad.shape}")
    r.raises(lambda: S(g, initial=np.eye(n + 1)), "initial of wrong shape")
    r.raises(lambda: S(g, initial=np.zeros((n, n + 1))), "initial of wrong shape")
    r.raises(lambda: S(g, initial=np.zeros(n)), "initial of wrong shape")


@check("C09", 10, 30, ["bmi.benchmark.tasks.rotate:transform_rotate_task", "bmi.benchmark.tasks.spiral:transform_spiral_task"])
def rotation_tasks(r):
    T = r.get("bmi.benchmark", "Task", optional=False)
    rot = r.get("bmi.benchmark.tasks", "transform_rotate_task", optional=False)
    spi = r.get("bmi.benchmark.tasks", "transform_spiral_task", optional=False)
    dx, dy = r.int(3, 5), r.int(3, 5)
    base = T(ref.FakeSampler(dx, dy, mi=0.4), task_id="b", task_name="B", task_params={"a": 1})
    t = rot(base)
    x, y = base.sample(30, 3)
    tx, ty = t.sample(30, 3)
    r.note(dim_x=dx, dim_y=dy)
    for a, b, d in ((x, tx, dx), (y, ty, dy)):
        m, *_ = np.linalg.lstsq(np.asarray(a, float), np.asarray(b, float), rcond=None)
        r.close(m @ m.T, np.eye(d), "rotation matrix is orthogonal", atol=1e-4)
        r.close(np.asarray(a, float) @ m, b, "every point is multiplied by the same matrix", rtol=1e-4, atol=1e-4)
        r.true(np.linalg.norm(m - np.eye(d)) > 0.1, "the rotation is not trivial")
        r.close(np.linalg.det(m), 1.0, "rotation, not a reflection", atol=1e-4)
    r.true(np.allclose(t.sample(5, 4)[0] @ np.eye(dx), np.asarray(base.sample(5, 4)[0], float) @ np.linalg.lstsq(np.asarray(x, float), np.asarray(tx, float), rcond=None)[0], atol=1e-3), "the matrix does not depend on the sample")
    if r.i == 0:
        b2 = T(ref.FakeSampler(2, 3), task_id="b", task_name="B")
        r.raises(lambda: rot(b2), "rotation with dim_x = 2")
    speed, norm = r.choice([1.0, 0.5]), bool(r.i % 2)
    s = spi(base, speed=speed, normalize_speed=norm)
    sx, sy = (np.asarray(v, float) for v in s.sample(20, 3))
    bx, by = (np.asarray(v, float) for v in base.sample(20, 3))
    for a, b, d, (i, j) in ((bx, sx, dx, (0, 1)), (by, sy, dy, (1, 2))):
        g = np.zeros((d, d))
        g[i, j], g[j, i] = -1, 1
        v = speed / d if norm else speed
        exp = np.stack([expm(v * float(p @ p) * g) @ p for p in a])
        # jax.scipy.linalg.expm works in single precision: its error grows with the angle
        tol = 3e-4 * (1 + (v * np.sum(a * a, axis=1)) ** 2)
        r.true(np.all(np.abs(b - exp) <= tol[:, None] + 1e-3 * np.abs(exp)), "spiral task sample", got=b, expected=exp)
