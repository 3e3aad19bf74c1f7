import jax.numpy as jnp
import numpy as np

from .core import check

IC = "bmi.transforms._invert_cdf:"
FS = [
    ("x", lambda x: x, lambda x: x),
    ("x^3+x", lambda x: x**3 + x, lambda x: x**3 + x),
    ("exp", lambda x: jnp.exp(x), np.exp),
    ("arctan", lambda x: jnp.arctan(x), np.arctan),
    ("5x-7", lambda x: 5 * x - 7, lambda x: 5 * x - 7),
    ("sigmoid", lambda x: 1 / (1 + jnp.exp(-x)), lambda x: 1 / (1 + np.exp(-x))),
    ("kink", lambda x: jnp.where(x > 0, 10 * x, 0.1 * x), lambda x: np.where(x > 0, 10 * x, 0.1 * x)),
]


@check("C10", 30, 120, [IC + "invert_mono", IC + "invert_cdf"], hang=100)
def brackets(r):
    inv = r.get("bmi.transforms", "invert_cdf", optional=False)
    name, f, fn = FS[r.i % len(FS)]
    lo = r.choice([-10.0, -3.0, -5, 0, -1.5])
    hi = lo + r.choice([1, 4.0, 7.5, 13])
    delta = r.choice([1e-12, 1e-3, 0.1, 0.01])
    r.note(f=name, x_min=lo, x_max=hi, delta=delta)
    g = inv(f, x_min=lo, x_max=hi, delta=delta)
    xs = r.rng.uniform(lo, hi, size=(3, 4))
    ys = fn(xs)
    got = np.asarray(g(jnp.asarray(ys)), dtype=float)
    r.eq(got.shape, (3, 4), "arrays are inverted element by element")
    # float32 targets: the abscissa is only determined up to the resolution of f there
    slope = np.minimum(np.abs(fn(xs + 1e-3) - ys), np.abs(ys - fn(xs - 1e-3))) / 1e-3
    tol = delta + 4e-6 * (1 + np.abs(xs)) + 4e-7 * (1 + np.abs(ys)) / np.maximum(slope, 1e-6)
    r.true(np.all(got >= lo - 1e-6) and np.all(got <= hi + 1e-6), "result lies in the interval", got=got)
    r.true(np.all(np.abs(got - xs) <= tol), "within the tolerance of the solution", got=got, expected=xs, tol=tol)
    for k in (0, 5, 11):
        one = float(g(float(ys.ravel()[k])))
        r.close(one, got.ravel()[k], "scalar call equals the array entry", rtol=1e-6, atol=1e-6)
    low = float(g(float(fn(np.float64(lo))) - 1.0))
    high = float(g(float(fn(np.float64(hi))) + 1.0))
    r.true(abs(low - lo) <= delta + 1e-5 * (1 + abs(lo)), "target below the range gives the lower end", got=low)
    r.true(abs(high - hi) <= delta + 1e-5 * (1 + abs(hi)), "target above the range gives the upper end", got=high)


@check("C10", 3, 6, [IC + "invert_cdf"], hang=100)
def default_interval(r):
    inv = r.get("bmi.transforms", "invert_cdf", optional=False)
    cdf = r.get("bmi.transforms", "normal_cdf", optional=False)
    g = inv(cdf)
    from scipy.stats import norm

    p = np.array([1e-3, 0.01, 0.1, 0.3, 0.5, 0.77, 0.99])
    r.close(g(jnp.asarray(p)), norm.ppf(p), "normal quantiles", atol=2e-4)
    r.close(float(g(2.0)), 10.0, "above the range", atol=1e-4)
    r.close(float(g(-2.0)), -10.0, "below the range", atol=1e-4)
    # non-zero x_min with the solution close to an end
    g = inv(lambda x: x, x_min=2, x_max=3)
    r.close(np.asarray(g(jnp.array([2.0, 2.0001, 2.5, 2.9999]))), [2.0, 2.0001, 2.5, 2.9999], "integer ends", atol=1e-5)
