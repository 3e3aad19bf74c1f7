"""C08: built-in transformations: documented formula, injectivity, applied coordinatewise."""
from ..vc import contract
from .lib import *  # noqa: F401,F403

S = "bmi.transforms.simple"
F = tm.Fr


def dec(s):
    return num(F(s))


def deriv(t, v):
    """derivative of a real expression in v (polynomials, sin, cos, exp)"""
    if v not in t.fv:
        return ZERO
    if t is v:
        return ONE
    if t.op == "poly":
        out = ZERO
        for m, c in tm.poly_of(t).items():
            for q, (x, e) in enumerate(m):
                if v not in x.fv:
                    continue
                g = mul(num(c * e), powr(x, e - 1), deriv(x, v))
                for r, (y, f) in enumerate(m):
                    if r != q:
                        g = mul(g, powr(y, f))
                out = add(out, g)
        return out
    if t.op == "app" and t.a[0] in ("sin", "cos", "exp") and len(t.a) == 2:
        d = deriv(t.a[1], v)
        f = {"sin": lambda: app("cos", t.a[1]), "cos": lambda: neg(app("sin", t.a[1])), "exp": lambda: t}[t.a[0]]()
        return mul(f, d)
    raise Unsupported(f"derivative of {tm.show(t)[:80]}")


def trig_bounds(*ts):
    fs = []
    for t in ts:
        for s in tm.subterms(t):
            if s.op == "app" and s.a[0] in ("sin", "cos"):
                fs += [le(num(-1), s), le(s, ONE)]
    return fs


def scalar_and_arrays(v, f, want, label):
    """f computes `want` on a number and entry by entry on an array (points and whole samples)"""
    x, n, d = real("x"), posint("n"), posint("d")
    out = []
    for p in v.explore(lambda: f(x)):
        if v.returns(f"{label}: accepts a number", p):
            out.append((p, t_(p.result)))
            v.prove_eq(f"{label}: formula", p.result, want(x.t), p)
    for a in (array("a", d, jax=True), array("a", n, d, jax=True), array("a", d)):
        for p in v.explore(lambda: f(a)):
            if v.returns(f"{label}: accepts an array", p):
                prove_array(v, f"{label}: every coordinate", p, p.result, a.dims, lambda *i: want(app("a", *i)))
                unchanged(v, f"{label}: argument unchanged", a, "a", p)
    return out


def w_half_cube(t):
    return mul(t, app("sqrt", app("abs", t)))


def w_cdf(t):
    return mul(dec("1/2"), add(ONE, app("erf", div(t, app("sqrt", num(2))))))


def w_wx(t):
    s = lambda a, b=0: app("sin", add(mul(dec(a), t), dec(str(b))))
    return add(t, mul(dec("0.4"), s("1")), mul(dec("0.2"), s("1.7", 1)), mul(dec("0.03"), s("3.3", "-2.5")))


def w_wy(t):
    s = lambda a, b=0: app("sin", add(mul(dec(a), t), dec(str(b))))
    return add(t, mul(dec("-0.4"), s("0.4")), mul(dec("0.17"), s("1.3", "3.5")), mul(dec("0.02"), s("4.3", "-2.5")))


def w_asinh(t):
    return app("asinh", t)


def w_pow(al):
    return lambda t: mul(app("sign", t), tm.app("pow", app("abs", t), al))


@contract("C08", f"{S}:half_cube", "any real number, or an array of any length", "x * sqrt|x| of every coordinate")
def half_cube(v):
    scalar_and_arrays(v, loader.load(S).half_cube, w_half_cube, "half_cube")


@contract("C08", "contract lemma over half_cube", "x < y", "x sqrt|x| < y sqrt|y|")
def half_cube_increasing(v):
    x, y, s, r = real("x").t, real("y").t, real("s").t, real("r").t
    # s = sqrt|x|, r = sqrt|y|; split by the signs
    base = [lt(x, y), le(ZERO, s), le(ZERO, r)]
    v.prove("both non-negative", lt(mul(x, s), mul(y, r)), sv_ctx(*base, le(ZERO, x), eq(powr(s, 2), x), eq(powr(r, 2), y)))
    v.prove("both non-positive", lt(mul(x, s), mul(y, r)), sv_ctx(*base, le(y, ZERO), eq(powr(s, 2), neg(x)), eq(powr(r, 2), neg(y))))
    v.prove("opposite signs", lt(mul(x, s), mul(y, r)), sv_ctx(*base, lt(x, ZERO), lt(ZERO, y), eq(powr(s, 2), neg(x)), eq(powr(r, 2), y)))


@contract("C08", f"{S}:normal_cdf", "any real number, or an array of any length", "(1 + erf(x / sqrt 2)) / 2 of every coordinate")
def normal_cdf(v):
    scalar_and_arrays(v, loader.load(S).normal_cdf, w_cdf, "normal_cdf")
    # increasing: an increasing affine function of erf (assumed strictly increasing) at an increasing affine argument
    e1, e2, x, y = (real(q).t for q in ("e1", "e2", "x", "y"))
    z = lambda q: div(q, app("sqrt", num(2)))
    v.prove("the argument of erf increases", lt(z(x), z(y)), sv_ctx(lt(x, y)))
    g = lambda e: mul(dec("1/2"), add(ONE, e))
    v.prove("the value increases with erf", lt(g(e1), g(e2)), sv_ctx(lt(e1, e2)))


def _wiggly(v, name, want):
    f = getattr(loader.load("bmi.benchmark.tasks.wiggly"), name)
    x = var("x", "R")
    for p, r in scalar_and_arrays(v, f, want, name):
        d = deriv(r, x)
        v.prove("derivative of the computed value is positive everywhere", lt(ZERO, d), p.ctx.plus(*trig_bounds(d)))


@contract("C08", "bmi.benchmark.tasks.wiggly:wiggly_x", "any real number, or an array", "documented formula; derivative positive everywhere")
def wiggly_x(v):
    _wiggly(v, "wiggly_x", w_wx)


@contract("C08", "bmi.benchmark.tasks.wiggly:wiggly_y", "any real number, or an array", "documented formula; derivative positive everywhere")
def wiggly_y(v):
    _wiggly(v, "wiggly_y", w_wy)


@contract("C08", f"{S}:swissroll2d", "x an array of length 1 holding a number of [0, 1]",
          "(t cos t, t sin t)/21 with t = 3 pi/2 (1 + 2 x); injective because the norm of the value is t/21 > 0")
def swissroll2d(v):
    f = loader.load(S).swissroll2d
    x = array("x", num(1), jax=True)
    x0 = app("x", ZERO)
    T = lambda q: mul(dec("3/2"), app("pi"), add(ONE, mul(num(2), q)))
    for p in v.explore(lambda: f(x)):
        if not v.returns("accepts", p):
            continue
        t = T(x0)
        prove_array(v, "value", p, p.result, (num(2),), lambda i: ite(eq(i, ZERO), div(mul(t, app("cos", t)), num(21)), div(mul(t, app("sin", t)), num(21))))
        unchanged(v, "argument unchanged", x, "x", p)
        r = asarr(p.result)
        c, s = real("c").t, real("s").t
        sq = add(powr(r.get((ZERO,)), 2), powr(r.get((ONE,)), 2))
        sq = tm.replace(sq, lambda q: c if q is app("cos", t) else s if q is app("sin", t) else None)
        v.prove_eq("norm of the value", tm.subst(sq, {}), mul(powr(t, 2), dec("1/441"), add(powr(c, 2), powr(s, 2))), p)
    a, b, pi = real("a").t, real("b").t, real("pi").t
    T2 = lambda q: mul(dec("3/2"), pi, add(ONE, mul(num(2), q)))
    c = sv_ctx(le(ZERO, a), le(ZERO, b), lt(num(3), pi), eq(powr(T2(a), 2), powr(T2(b), 2)))
    v.prove("equal norms only for equal points", eq(a, b), c)


def _task(v, mod, fn, wx, wy, kw=None, pre=(), addx=0):
    f = getattr(loader.load(f"bmi.benchmark.tasks.{mod}"), fn)
    T = loader.load("bmi.benchmark.task").Task
    b = FakeSampler(dx=num_sv(1) if addx else None)
    N, seed = posint("N"), integer("seed")

    def run():
        t = f(T(b, "base", "Base", {"a": 1}), **(kw or {}))
        return t.sample(N, seed)
    for p in v.explore(run, [le(ZERO, b.mi.t), *pre]):
        if not v.returns("accepts every base task", p):
            continue
        for w, r, d, g in (("x", p.result[0], b.dx, wx), ("y", p.result[1], b.dy, wy)):
            if addx and w == "x":
                prove_array(v, "transformed x", p, r, (N, num(2)), lambda i, j: g(b.entry("x", seed, N, i, ZERO), j))
            else:
                prove_array(v, f"transformed {w}", p, r, (N, d), lambda i, j: g(b.entry(w, seed, N, i, j)))


def num_sv(k):
    return k


@contract("C08", "bmi.benchmark.tasks.half_cube:transform_half_cube_task", "any base task", "every coordinate of every point is mapped by x sqrt|x|")
def half_cube_task(v):
    _task(v, "half_cube", "transform_half_cube_task", w_half_cube, w_half_cube)


@contract("C08", "bmi.benchmark.tasks.normal_cdf:transform_normal_cdf_task", "any base task", "every coordinate of every point is mapped by the Gaussian CDF")
def normal_cdf_task(v):
    _task(v, "normal_cdf", "transform_normal_cdf_task", w_cdf, w_cdf)


@contract("C08", "bmi.benchmark.tasks.asinh:transform_asinh_task", "any base task", "every coordinate of every point is mapped by arsinh")
def asinh_task(v):
    _task(v, "asinh", "transform_asinh_task", w_asinh, w_asinh)


@contract("C08", "bmi.benchmark.tasks.wiggly:transform_wiggly_task", "any base task", "every coordinate of X by wiggly_x, of Y by wiggly_y")
def wiggly_task(v):
    _task(v, "wiggly", "transform_wiggly_task", w_wx, w_wy)


@contract("C08", "bmi.benchmark.tasks.power:transform_power_task", "any base task, any alpha > 0", "every coordinate is mapped by sign(x)|x|^alpha")
def power_task(v):
    al = real("alpha")
    _task(v, "power", "transform_power_task", w_pow(al.t), w_pow(al.t), {"alpha": al}, [lt(ZERO, al.t)])


@contract("C08", "contract lemma over power_task", "alpha > 0, x < y (assumed: u -> u^alpha strictly increasing on u >= 0, 0^alpha = 0)",
          "sign(x)|x|^alpha < sign(y)|y|^alpha")
def power_increasing(v):
    x, y, px, py = (real(q).t for q in ("x", "y", "px", "py"))
    b = [lt(x, y), le(ZERO, px), le(ZERO, py)]
    v.prove("both positive", lt(px, py), sv_ctx(*b, lt(ZERO, x), tm.implies(lt(x, y), lt(px, py))))
    v.prove("both negative", lt(neg(px), neg(py)), sv_ctx(*b, lt(y, ZERO), tm.implies(lt(neg(y), neg(x)), lt(py, px))))
    v.prove("opposite signs", lt(neg(px), py), sv_ctx(*b, lt(x, ZERO), lt(ZERO, y), lt(ZERO, px), lt(ZERO, py)))


@contract("C08", "bmi.benchmark.tasks.embeddings:transform_swissroll_task", "any base task with dim_x = 1",
          "X of every point is mapped by the Swiss roll, Y unchanged")
def swissroll_task(v):
    def roll(x, j):
        t = mul(dec("3/2"), app("pi"), add(ONE, mul(num(2), x)))
        return ite(eq(j, ZERO), div(mul(t, app("cos", t)), num(21)), div(mul(t, app("sin", t)), num(21)))
    _task(v, "embeddings", "transform_swissroll_task", roll, lambda y: y, {"task_name": "new"}, addx=1)
