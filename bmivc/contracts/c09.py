"""C09: rotation generators and spirals."""
from ..vc import contract
from .lib import *  # noqa: F401,F403

M = "bmi.transforms._rotate"


def gen(i, j, a, b):
    return ite(and_(eq(a, i), eq(b, j)), num(-1), ite(and_(eq(a, j), eq(b, i)), ONE, ZERO))


@contract("C09", f"{M}:so_generator", "n, i, j any integers",
          "raises iff not (n >= 2 and 0 <= i < j < n); otherwise -1 at (i,j), 1 at (j,i), 0 elsewhere")
def so_generator(v):
    f = loader.load(M).so_generator
    n, i, j = integer("n"), integer("i"), integer("j")
    ok = and_(le(num(2), n.t), le(ZERO, i.t), lt(i.t, j.t), lt(j.t, n.t))
    for p in v.explore(lambda: f(n, i, j)):
        if rejects_iff(v, ok, p):
            prove_array(v, "generator", p, p.result, (n, n), lambda a, b: gen(i.t, j.t, a, b))
    for p in v.explore(lambda: f(n=n, j=j, i=i), [ok]):
        if v.returns("by keyword", p):
            prove_array(v, "generator by keyword", p, p.result, (n, n), lambda a, b: gen(i.t, j.t, a, b))
    for p in v.explore(lambda: f(n)):
        if rejects_iff(v, le(num(2), n.t), p, what=" (defaults)"):
            prove_array(v, "default indices", p, p.result, (n, n), lambda a, b: gen(ZERO, ONE, a, b))


@contract("C09", "contract lemma over so_generator", "any valid n, i, j",
          "the generator is skew-symmetric: G[a,b] + G[b,a] = 0")
def generator_lemma(v):
    i, j, a, b = (integer(q).t for q in "ijab")
    v.prove_eq("skew-symmetric", add(gen(i, j, a, b), gen(i, j, b, a)), ZERO, sv_ctx(lt(i, j)))


@contract("C09", f"{M}:skew_symmetrize", "a any square matrix", "entries (a[i,j] - a[j,i])/2; skew-symmetric; a unchanged")
def skew_symmetrize(v):
    f = loader.load(M).skew_symmetrize
    for jx in (False, True):
        n = posint("n")
        a = array("a", n, n, jax=jx)
        for p in v.explore(lambda: f(a)):
            if not v.returns("accepts", p):
                continue
            prove_array(v, "skew part", p, p.result, (n, n), lambda i, j: div(sub(app("a", i, j), app("a", j, i)), num(2)))
            unchanged(v, "argument unchanged", a, "a", p)
            i, j = fresh("i"), fresh("j")
            r = asarr(p.result)
            v.prove_eq("skew-symmetric", add(r.get((i, j)), r.get((j, i))), ZERO, p)


def spiral_value(n, g, speed, x, init=None):
    """entry i of init @ expm(speed * |x|^2 * G) @ x"""
    def at(i):
        q, k, l = fresh("q"), fresh("k"), fresh("l")
        r = sum_(q, ZERO, n, mul(x(q), x(q)))
        E = SArr((n, n), lambda ij: mul(mul(r, speed), g(*ij)))
        et = E.term()
        if init is None:
            return sum_(k, ZERO, n, mul(app("expm", et, i, k), x(k)))
        return sum_(l, ZERO, n, mul(init(i, l), sum_(k, ZERO, n, mul(app("expm", et, l, k), x(k)))))
    return at


@contract("C09", f"{M}:Spiral.__init__", "generator of any two sizes (n, m), initial absent or of any two sizes",
          "raises iff the generator is not square or the initial matrix has another shape; stores speed * generator and the initial matrix")
def spiral_init(v):
    S = loader.load(M).Spiral
    n, m, k, l = (posint(q) for q in "nmkl")
    g, init, sp = array("g", n, m), array("init", k, l), real("speed")

    def fields(s):
        return s, s.initial, s.generator
    for p in v.explore(lambda: fields(S(g, speed=sp))):
        if rejects_iff(v, eq(n.t, m.t), p):
            prove_array(v, "generator", p, p.result[2], (n, n), lambda i, j: mul(sp.t, app("g", i, j)))
            prove_array(v, "initial", p, p.result[1], (n, n), lambda i, j: ite(eq(i, j), ONE, ZERO))
            unchanged(v, "argument unchanged", g, "g", p)
    for p in v.explore(lambda: fields(S(g, init, sp))):
        if rejects_iff(v, and_(eq(n.t, m.t), eq(k.t, n.t), eq(l.t, n.t)), p, what=" (initial given)"):
            prove_array(v, "generator (initial given)", p, p.result[2], (n, n), lambda i, j: mul(sp.t, app("g", i, j)))
            prove_array(v, "initial given", p, p.result[1], (n, n), lambda i, j: app("init", i, j))
            unchanged(v, "initial unchanged", init, "init", p)
    for p in v.explore(lambda: fields(S(generator=g))):
        if rejects_iff(v, eq(n.t, m.t), p, what=" (default speed)"):
            prove_array(v, "default speed is 1", p, p.result[2], (n, n), lambda i, j: app("g", i, j))
    for bad in (array("g1", n), array("g3", n, n, n)):
        for p in v.explore(lambda: S(bad)):
            v.raises(f"{len(bad.dims)}-dimensional generator rejected", p)
    for p in v.explore(lambda: S(array("g", n, n), initial=array("v", n))):
        v.raises("one-dimensional initial rejected", p)


@contract("C09", f"{M}:Spiral.__call__", "any square generator, speed, initial matrix and point x",
          "entry i is (initial @ expm(speed * ||x||^2 * G) @ x)[i]")
def spiral_call(v):
    S = loader.load(M).Spiral
    n, sp = posint("n"), real("speed")
    g, init = array("g", n, n), array("init", n, n)
    x = array("x", n, jax=True)
    for a, kw in ((None, {}), (lambda i, j: app("init", i, j), {"initial": init})):
        for p in v.explore(lambda: S(g, speed=sp, **kw)(x)):
            if not v.returns("accepts", p):
                continue
            lab = "value with initial" if kw else "value"
            prove_array(v, lab, p, p.result, (n,), spiral_value(n.t, lambda i, j: app("g", i, j), sp.t, lambda i: app("x", i), a))
            unchanged(v, "point unchanged", x, "x", p)


@contract("C09", "contract lemma over spiral_call", "E = expm(A) with A = speed ||x||^2 G, G skew-symmetric (assumed: expm of a skew-symmetric "
          "matrix is orthogonal, expm(-A) expm(A) = 1)", "||E x||^2 = ||x||^2; the opposite rotation of E x is x")
def spiral_lemma(v):
    n = posint("n").t
    E = lambda i, j: app("E", i, j)
    F = lambda i, j: app("F", i, j)
    x = lambda i: app("x", i)
    k, l, m, i = (fresh(q) for q in "klmi")
    # ||Ex||^2 = sum_k sum_l (sum_i E_ik E_il) x_k x_l, the interchange of finite sums
    y = lambda i: sum_(k, ZERO, n, mul(E(i, k), x(k)))
    lhs = sum_(i, ZERO, n, powr(y(i), 2))
    rhs = sum_(k, ZERO, n, sum_(l, ZERO, n, mul(mul(x(k), x(l)), sum_(i, ZERO, n, mul(E(i, k), E(i, l))))))
    v.prove_eq("quadratic form of E^T E", lhs, rhs, sv_ctx())
    orth = sum_(k, ZERO, n, sum_(l, ZERO, n, mul(mul(x(k), x(l)), ite(eq(k, l), ONE, ZERO))))
    v.prove_eq("norm preserved when E^T E = 1", orth, sum_(k, ZERO, n, powr(x(k), 2)), sv_ctx())
    i0 = fresh("i0")
    lhs = sum_(m, ZERO, n, mul(F(i0, m), sum_(k, ZERO, n, mul(E(m, k), x(k)))))
    rhs = sum_(k, ZERO, n, mul(x(k), sum_(m, ZERO, n, mul(F(i0, m), E(m, k)))))
    v.prove_eq("F(Ex) = (FE)x", lhs, rhs, sv_ctx())
    c = sv_ctx(le(ZERO, i0), lt(i0, n))
    v.prove_eq("undone when FE = 1", sum_(k, ZERO, n, mul(x(k), ite(eq(i0, k), ONE, ZERO))), x(i0), c)


@contract("C09", "bmi.benchmark.tasks.rotate:transform_rotate_task", "any base task with dim_x, dim_y >= 3",
          "X and Y of every point are multiplied by the fixed matrix expm of a combination of canonical generators (orthogonal), the same for all points")
def rotate_task(v):
    f = loader.load("bmi.benchmark.tasks.rotate").transform_rotate_task
    T = loader.load("bmi.benchmark.task").Task
    b = FakeSampler()
    N, seed = posint("N"), integer("seed")

    def run():
        t = f(T(b, "base", "Base", {"a": 1}))
        return t.sample(N, seed)
    ok = and_(lt(num(2), b.dx.t), lt(num(2), b.dy.t))
    for p in v.explore(run, [le(ZERO, b.mi.t)]):
        if not rejects_iff(v, ok, p, exc=()):
            continue
        for w, r, d, g in (("x", p.result[0], b.dx, (2, -1, -1)), ("y", p.result[1], b.dy, (1, 2, 0))):
            A = SArr((t_(d), t_(d)), lambda ij: add(mul(num(g[0]), gen(ZERO, ONE, *ij)), mul(num(g[1]), gen(ONE, num(2), *ij)),
                                                   mul(num(g[2]), gen(ZERO, num(2), *ij))))
            et = A.term()

            def want(i, j):
                k = fresh("k")
                return sum_(k, ZERO, t_(d), mul(b.entry(w, seed, N, i, k), app("expm", et, k, j)))
            prove_array(v, f"rotated {w}", p, r, (N, d), want)
            a, c = fresh("a"), fresh("b")
            v.prove_eq(f"generator of {w} is skew-symmetric", add(A.get((a, c)), A.get((c, a))), ZERO, p)


@contract("C09", "bmi.benchmark.tasks.spiral:transform_spiral_task", "any base task with dim_x >= 2, dim_y >= 3, any speed",
          "each point is sent through the spiral with generator (0,1) for X and (1,2) for Y and speed divided by the dimension iff normalised")
def spiral_task(v):
    f = loader.load("bmi.benchmark.tasks.spiral").transform_spiral_task
    T = loader.load("bmi.benchmark.task").Task
    b = FakeSampler()
    N, seed, sp = posint("N"), integer("seed"), real("speed")
    for norm in (None, True, False):
        def run():
            kw = {} if norm is None else {"normalize_speed": norm}
            t = f(T(b, "base", "Base", {"a": 1}), speed=sp, **kw)
            return t.sample(N, seed)
        ok = and_(lt(ONE, b.dx.t), lt(num(2), b.dy.t))
        for p in v.explore(run, [le(ZERO, b.mi.t)]):
            if not rejects_iff(v, ok, p, exc=()):
                continue
            for w, r, d, ij in (("x", p.result[0], b.dx, (0, 1)), ("y", p.result[1], b.dy, (1, 2))):
                s = sp.t if norm is False else div(sp.t, d.t)
                want = lambda i, j: spiral_value(d.t, lambda a, c: gen(num(ij[0]), num(ij[1]), a, c), s,
                                                 lambda k: b.entry(w, seed, N, i, k))(j)
                prove_array(v, f"spiral {w}", p, r, (N, d), want)
