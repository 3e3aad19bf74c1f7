"""C01: Gaussian ground-truth mutual information is exact for every valid covariance."""
from ..vc import contract
from .lib import *  # noqa: F401,F403

M = "bmi.samplers._splitmultinormal"


def posdef(t, n):
    i = fresh("i")
    return forall(i, ZERO, n, lt(ZERO, app("eigval", t, i)))


def block(a, lo, m):
    """the principal block of m rows and columns from lo on"""
    return SArr((m, m), lambda i: a.get((add(lo, i[0]), add(lo, i[1]))))


def gauss_mi(a, dx, dy):
    n = add(dx, dy)
    ld = lambda x: app("logdet", x.term())
    return div(sub(add(ld(block(a, ZERO, dx)), ld(block(a, dx, dy))), ld(block(a, ZERO, n))), num(2))


def linear_algebra(a, dx, dy):
    """trusted facts: principal blocks of a positive-definite matrix are positive-definite; Fischer's inequality"""
    pd = posdef(a.term(), add(dx, dy))
    x, y = block(a, ZERO, dx), block(a, dx, dy)
    return [or_(not_(pd), and_(posdef(x.term(), dx), posdef(y.term(), dy))), or_(not_(pd), le(ZERO, gauss_mi(a, dx, dy)))]


def gaussian(v, with_mean, jx=False):
    dx, dy = posint("dx"), posint("dy")
    n = add(dx.t, dy.t)
    cov = symmetric("s", n, jax=jx)
    mean = array("m", n, jax=jx)
    return dx, dy, n, cov, mean, posdef(cov.term(), n), linear_algebra(cov, dx.t, dy.t)


@contract("C01", f"{M}:SplitMultinormal.mutual_information",
          "any positive dimensions, any symmetric covariance, any mean (or none)",
          "rejected iff not positive-definite; otherwise (logdet Sxx + logdet Syy - logdet S)/2, whatever the mean, and not negative; arguments unchanged")
def multinormal(v):
    S = loader.load(M).SplitMultinormal
    for with_mean in (True, False):
        for jx in (False, True):
            dx, dy, n, cov, mean, pd, lin = gaussian(v, with_mean, jx)
            kw = dict(mean=mean) if with_mean else {}

            def run():
                s = S(dim_x=dx, dim_y=dy, covariance=cov, **kw)
                return s.mutual_information(), s.dim_x, s.dim_y, s.dim_total
            for p in v.explore(run, lin):
                i, j = fresh("i"), fresh("j")
                v.prove_eq("covariance unchanged", cov.get((i, j)), add(app("s", i, j), app("s", j, i)), p)
                unchanged(v, "mean unchanged", mean, "m", p)
                if not rejects_iff(v, pd, p):
                    continue
                mi, a, b, t = p.result
                v.prove_eq("formula", mi, gauss_mi(cov, dx.t, dy.t), p)
                v.prove("not negative", le(ZERO, t_(mi)), p)
                v.prove_eq("dimensions", (a, b, t), (dx, dy, SV(n)), p)


@contract("C01", f"{M}:SplitMultinormal.__init__", "any integer dimensions, mean and covariance of any shapes and entries",
          "accepted only if the dimensions are positive, the shapes (dx+dy,) and (dx+dy, dx+dy), the covariance symmetric up to rounding "
          "(1e-3 of its largest entry) and all its eigenvalues positive")
def multinormal_rejects(v):
    rejects_dispersions(v, lambda cov, **k: loader.load(M).SplitMultinormal(covariance=cov, **k))


def rejects_dispersions(v, S):
    """only positive dimensions, matching shapes, matrices symmetric up to rounding with positive eigenvalues are accepted"""
    dx, dy = integer("dx"), integer("dy")
    m1, m2, m3 = posint("m1"), posint("m2"), posint("m3")
    cov, mean = array("c", m1, m2), array("m", m3)
    n = add(dx.t, dy.t)
    for p in v.explore(lambda: S(dim_x=dx, dim_y=dy, cov=cov, mean=mean)):
        dims = and_(le(ONE, dx.t), le(ONE, dy.t), eq(m1.t, n), eq(m2.t, n), eq(m3.t, n))
        if p.exc is not None:
            continue    # which arguments must be accepted is the contract of multinormal
        v.prove("dimensions and shapes", dims, p)
    # entries: with the shapes just proved
    dx, dy = posint("dx"), posint("dy")
    n = add(dx.t, dy.t)
    cov, mean = array("c", n, n), array("m", n)
    for p in v.explore(lambda: S(dim_x=dx, dim_y=dy, cov=cov, mean=mean)):
        if p.exc is not None:
            continue
        i, j, k, l = fresh("i"), fresh("j"), fresh("k"), fresh("l")
        within = lambda *q: and_(*[and_(le(ZERO, x), lt(x, n)) for x in q])
        c = p.ctx.plus(within(i, j))
        v.prove("every eigenvalue positive", lt(ZERO, app("eigval", cov.term(), i)), c)
        # (k, l): where the largest absolute entry is (the contract of max), bound: any bound of the entries
        bound, ab = fresh("b", "R"), lambda q: app("abs", app("c", *q))
        largest = app("amax", SArr((n, n), ab).term(), sort="R")
        c = c.plus(within(k, l), eq(largest, ab((k, l))), le(app("c", k, l), bound), le(neg(bound), app("c", k, l)))
        d = sub(app("c", i, j), app("c", j, i))
        v.prove("symmetric up to rounding", and_(le(d, div(bound, num(1000))), le(neg(div(bound, num(1000))), d)), c)
    dx, dy = integer("dx"), integer("dy")
    n, cov = add(dx.t, dy.t), array("c", m1, m2)
    for p in v.explore(lambda: S(dim_x=dx, dim_y=dy, cov=cov), [not_(and_(le(ONE, dx.t), le(ONE, dy.t), eq(m1.t, n), eq(m2.t, n)))]):
        v.raises("wrong shapes are rejected without a mean", p)
    # arrays of other ranks, whatever their entries
    dx, dy = posint("dx"), posint("dy")
    n = add(dx.t, dy.t)
    ok = symmetric("s", n)
    for mean in (array("m", n, m1), array("m", m1, n), SArr((), lambda i: app("m")), SArr((n, m1.t), lambda i: ZERO)):
        for p in v.explore(lambda: S(dim_x=dx, dim_y=dy, cov=ok, mean=mean)):
            v.raises("a mean that is not a vector is rejected", p)
    for cov in (array("c", n), array("c", n, n, m1), array("c", m1, n, n)):
        for p in v.explore(lambda: S(dim_x=dx, dim_y=dy, cov=cov, mean=array("m", n))):
            v.raises("a covariance that is not a matrix is rejected", p)


@contract("C01", "contract lemma over multinormal", "logdet(D A D) = logdet A + 2 sum log |d_i| (trusted)",
          "the formula is unchanged when coordinates are rescaled")
def rescaling_lemma(v):
    dx, dy = posint("dx"), posint("dy")
    n = add(dx.t, dy.t)
    a = symmetric("s", n)
    b = SArr((n, n), lambda i: mul(mul(app("d", i[0]), app("d", i[1])), a.get(i)))

    def law(lo, m):
        k = fresh("k")
        return eq(app("logdet", block(b, lo, m).term()),
                  add(app("logdet", block(a, lo, m).term()), mul(num(2), sum_(k, lo, add(lo, m), app("log", app("abs", app("d", k)))))))
    k = fresh("k")
    lg = lambda lo, hi: sum_(k, lo, hi, app("log", app("abs", app("d", k))))
    ctx = sv_ctx(law(ZERO, dx.t), law(dx.t, dy.t), law(ZERO, n), eq(lg(ZERO, n), add(lg(ZERO, dx.t), lg(dx.t, n))))
    v.prove_eq("unchanged by rescaling", gauss_mi(b, dx.t, dy.t), gauss_mi(a, dx.t, dy.t), ctx)


@contract("C01", f"{M}:BivariateNormalSampler", "any correlation, standard deviations and means",
          "rejected iff |rho| >= 1 or a deviation is not positive; otherwise MI = -1/2 log(1 - rho^2) and correlation() = rho")
def bivariate(v):
    B = loader.load(M).BivariateNormalSampler
    r, sx, sy, mx, my = (real(q) for q in ("rho", "sx", "sy", "mx", "my"))
    ok_r = and_(lt(num(-1), r.t), lt(r.t, ONE))
    val = div(app("log", sub(ONE, powr(r.t, 2))), num(-2))

    def run(*a, **k):
        s = B(*a, **k)
        return s.mutual_information(), s.correlation(), s.dim_x, s.dim_y
    for args, kw, ok in (((r, sx, sy, mx, my), {}, and_(ok_r, lt(ZERO, sx.t), lt(ZERO, sy.t))), ((r,), {}, ok_r),
                         ((), dict(correlation=r, std_y=sy, mean_x=mx), and_(ok_r, lt(ZERO, sy.t)))):
        for p in v.explore(lambda: run(*args, **kw)):
            if rejects_iff(v, ok, p):
                v.prove_eq("value", p.result, (val, r, ONE, ONE), p)


@contract("C01", f"{M}:BivariateNormalSampler.__init__", "any accepted correlation, deviations and means",
          "the wrapped joint normal has covariance ((sx^2, rho sx sy), (rho sx sy, sy^2)), whose Gaussian formula is the reported value")
def bivariate_general(v):
    mod = loader.load(M)
    r, sx, sy = real("rho"), pos("sx"), pos("sy")
    val = div(app("log", sub(ONE, powr(r.t, 2))), num(-2))
    # determinants of the blocks: sx^2, sy^2, sx^2 sy^2 (1 - rho^2)
    lx, ly = (mul(num(2), app("log", q.t)) for q in (sx, sy))
    lxy = add(add(lx, ly), app("log", sub(ONE, powr(r.t, 2))))
    v.prove_eq("Gaussian formula of the 2x2 covariance", div(sub(add(lx, ly), lxy), num(2)), val, sv_ctx(lt(num(-1), r.t), lt(r.t, ONE)))
    for p in v.explore(lambda: mod.BivariateNormalSampler(r, sx, sy).sample(3, 5), [lt(num(-1), r.t), lt(r.t, ONE)]):
        if not v.returns("accepts", p):
            continue
        # the draws come from the normal law with that mean and covariance
        x, y = (asarr(q) for q in p.result)
        t = x.get((ZERO, ZERO))
        seen = [q for q in tm.subterms(t) if q.op == "app" and q.a[0] == "randmvn"]
        v.check("drawn from one joint normal", len(seen) == 1, tm.show(t)[:200], p)
        C = SArr((num(2), num(2)), lambda i: ite(eq(i[0], i[1]), ite(eq(i[0], ZERO), powr(sx.t, 2), powr(sy.t, 2)), mul(r.t, mul(sx.t, sy.t))))
        v.prove_eq("covariance drawn from", seen[0].a[3], C.term(), p)


@contract("C01", "bmi.samplers._splitmultinormal:SplitMultinormal.sample", "any accepted covariance and mean, any size and seed", "the samples follow the law whose information is reported")
def multinormal_law(v):
    from . import c05
    c05.law(v, c05.multinormal)


@contract("C01", "bmi.samplers._splitmultinormal:BivariateNormalSampler.sample", "any accepted parameters, any size and seed", "the samples follow the law whose information is reported")
def bivariate_law(v):
    from . import c05
    c05.law(v, c05.bivariate)
