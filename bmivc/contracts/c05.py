"""C05: samples have the declared shape, are paired, and are a pure function of the seed."""
from ..vc import contract
from .lib import *  # noqa: F401,F403
from ..shims import jax_
from .c01 import gaussian, linear_algebra, posdef

B = "bmi.samplers"
SEED = "seed"


def seed_facts():
    """the key built from a seed in 0..2^32-1 has the words 0 and seed (assumed about JAX)"""
    k = jax_.PRNGKey(integer(SEED)).t
    s = var(SEED, "I")
    return [le(ZERO, s), lt(s, num(2**32)), eq(app("keyword", k, ZERO, sort="I"), ZERO), eq(app("keyword", k, ONE, sort="I"), s)]


def draws(t):
    return sorted({q for q in tm.subterms(t) if q.op == "app" and (q.a[0].startswith("rand") or q.a[0] in ("mvtrvs", "perm", "choice_rep", "choice_norep")
                                                                  or q.a[0].startswith("np") and len(q.a) > 2)}, key=lambda q: q.uid)


def state(s, p=None):
    return {k: seq.vterm(x) if not callable(x) else id(x) for k, x in s.__dict__.items()}


def same_arrays(v, label, a, b, p):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim:
        return v.fail(label, "different ranks", p)
    v.prove_eq(f"{label}: shape", a.dims, b.dims, p)
    ix = tuple(fresh("i") for _ in a.dims)
    c = p.ctx.plus(*[and_(le(ZERO, i), lt(i, d)) for i, d in zip(ix, a.dims)])
    v.prove_eq(label, a.get(ix), b.get(ix), c)


LAW_ONLY = [False]


def law(v, c):
    """of a sampling contract, only that one sample has the documented shape and law"""
    LAW_ONLY[0] = True
    try:
        c(v)
    finally:
        LAW_ONLY[0] = False


def sampling(v, make, model, facts=(), inputs=(), frozen=True, dims=None):
    """the common part: shapes, purity, seeds and keys, no key twice; then the documented model of the draws"""
    N = posint("N")
    seed = integer(SEED)
    if LAW_ONLY[0]:
        def once():
            s = make()
            return s, s.sample(N, seed)
        for p in v.explore(once, list(facts) + seed_facts()):
            if v.returns("samples", p):
                s, xy = p.result
                for w, r, d in zip("xy", xy, (s.dim_x, s.dim_y) if dims is None else dims):
                    v.prove_eq(f"shape of {w}", asarr(r).dims, (N.t, t_(d)), p)
                model(p, N, *[asarr(q) for q in xy])
        return
    opaque = jax_.Key(app("somekey"))
    M, earlier = posint("M"), jax_.Key(app("earlierkey"))
    none = seq.vterm(None)

    def run(rng):
        s = make()
        before = state(s)
        ENG.ghost["consumed"] = []
        first = s.sample(N, rng)
        used = list(ENG.ghost["consumed"])
        again = s.sample(n_points=N, rng=rng)
        other = make().sample(N, rng)
        later = first
        if rng is opaque:
            s2 = make()
            s2.sample(M, earlier)
            later = s2.sample(N, rng)
        return s, before, state(s), first, again, other, later, used
    for name, rng in (("seed", seed), ("key", opaque)):
        for p in v.explore(lambda: run(rng), list(facts) + seed_facts()):
            if not v.returns(f"samples with a {name}", p):
                continue
            s, before, after, first, again, other, later, used = p.result
            dx, dy = (t_(d) for d in ((s.dim_x, s.dim_y) if dims is None else dims))
            for w, r, r2, r3, r4, d in zip("xy", first, again, other, later, (dx, dy)):
                r = asarr(r)
                v.check(f"{w} is a matrix", r.ndim == 2, str(r.ndim), p)
                if r.ndim == 2:
                    v.prove_eq(f"shape of {w}", r.dims, (N.t, d), p)
                    same_arrays(v, f"repeating the call repeats {w}", r2, r, p)
                    same_arrays(v, f"an equal sampler gives the same {w}", r3, r, p)
                    same_arrays(v, f"what was sampled before does not change {w}", r4, r, p)
            for k in before:  # a value computed once and kept is not a change
                if before[k] != after[k] and before[k] is not none:
                    v.prove_eq(f"sampling does not change the sampler ({k})", before[k], after[k], p)
            v.check("sampling removes no state", set(before) <= set(after), str(set(before) - set(after)), p)
            for a, nm in inputs:
                unchanged(v, f"argument {nm} unchanged", a, nm, p)
            for i, (ka, ha, ca) in enumerate(used):
                for kb, hb, cb in used[:i]:
                    same_key(v, "no key is consumed twice", ka, kb, p.ctx)
            if asarr(first[0]).ndim == asarr(first[1]).ndim == 2:
                model(p, N, *[asarr(q) for q in first])
    # the seed and the key built from it
    def both():
        s = make()
        return s.sample(N, seed), s.sample(N, jax_.PRNGKey(seed))
    for p in v.explore(both, list(facts) + seed_facts()):
        if v.returns("samples with a seed and with a key", p):
            for w, a, b in zip("xy", *p.result):
                same_arrays(v, f"seed and key are interchangeable ({w})", a, b, p)


def same_key(v, label, a, b, ctx):
    """two consumed keys differ (a key may be split and its children consumed)"""
    (ra, pa), (rb, pb) = key_path(a), key_path(b)
    if len(pa) != len(pb) and ra is rb and all(x[0] == y[0] and solve.prove_eq(x[1], y[1], ctx) for x, y in zip(pa, pb)):
        return v.ok(label, "ancestor and descendant")
    return independent_keys(v, label, a, b, ctx)


def row(r, *more):
    """entry of a generic row"""
    i = fresh("i")
    return i, r.get((i,) + tuple(more))


def independent_rows(v, label, N, i, t, p):
    """different rows use different draws"""
    i2 = fresh("i")
    c = p.ctx.plus(le(ZERO, i), lt(i, N.t), le(ZERO, i2), lt(i2, N.t), not_(eq(i, i2)))
    ds = draws(t)
    for a in ds:
        for b in ds:
            b2 = tm.subst(b, {i: i2})
            if a.a[0] == b2.a[0] and len(a.a) == len(b2.a):
                diff = or_(*[not_(eq(x, y)) for x, y in zip(a.a[1:], b2.a[1:]) if type(x) is T and type(y) is T and x.sort in "IR" and y.sort in "IR"])
                if a.a[1] is b2.a[1]:
                    v.prove(f"{label}: rows are drawn independently", diff, c)


def affine(v, label, t, u, ends, p):
    """t is an affine image of the standard uniform draw u onto the interval with the given ends (in either direction)"""
    z = fresh("u", "R")
    g = tm.replace(t, lambda q: z if q is u else None)
    t0, t1 = tm.subst(g, {z: ZERO}), tm.subst(g, {z: ONE})
    v.prove_eq(f"{label}: affine in the uniform draw", g, add(t0, mul(z, sub(t1, t0))), p)
    lo, hi = ends
    v.prove(f"{label}: uniform between the documented ends", or_(and_(eq(t0, lo), eq(t1, hi)), and_(eq(t0, hi), eq(t1, lo))), p)


def one(ds, kinds, what):
    if len(ds) != 1 or ds[0].a[0] not in kinds:
        raise Unsupported(f"{what}: not one draw of {kinds}: {[tm.show(d)[:60] for d in ds]}")
    return ds[0]


@contract("C05", f"{B}.base:cast_to_rng", "any integer or key", "the key of an integer seed is the one JAX builds from it; a key is returned as it is")
def cast(v):
    f = loader.load(B + ".base").cast_to_rng
    s, k = integer(SEED), jax_.Key(app("somekey"))
    for p in v.explore(lambda: (f(s), f(k))):
        if v.returns("accepted", p):
            v.prove_eq("seed", as_key(p.result[0]), app("PRNGKey", s.t), p)
            v.prove_eq("key", as_key(p.result[1]), k.t, p)


@contract("C05", f"{B}._additive_uniform:AdditiveUniformSampler.sample", "any eps > 0, any size, any seed or key",
          "X uniform on (0, 1), Y - X uniform on (-eps, eps) and independent of X, row by row")
def additive_uniform(v):
    S = loader.load(B + "._additive_uniform").AdditiveUniformSampler
    e = pos("eps")

    def model(p, N, x, y):
        i, tx = row(x, ZERO)
        ty = y.get((i, ZERO))
        u = one(draws(tx), ("randuniform",), "X")
        rest = [d for d in draws(ty) if d is not u]
        n = one(rest, ("randuniform",), "Y - X")
        c = p.ctx.plus(le(ZERO, i), lt(i, N.t))
        affine(v, "X", tx, u, (ZERO, ONE), c)
        affine(v, "Y - X", sub(ty, tx), n, (neg(e.t), e.t), c)
        independent_keys(v, "noise independent of X", u.a[1], n.a[1], c)
        independent_rows(v, "X and Y", N, i, add(tx, ty), p)
    sampling(v, lambda: S(e), model)


@contract("C05", f"{B}._discrete_continuous:DiscreteUniformMixtureSampler.sample", "any m > 0, any size, any seed or key, X discrete or not",
          "X uniform on 0..m-1, Y - X uniform on (0, 2) and independent of X, row by row")
def discrete_mixture(v):
    S = loader.load(B + "._discrete_continuous").DiscreteUniformMixtureSampler
    m = posint("m")

    def model(p, N, x, y):
        i, tx = row(x, ZERO)
        ty = y.get((i, ZERO))
        d = one(draws(tx), ("randint", "choice_rep"), "X")
        n = one([q for q in draws(ty) if q is not d], ("randuniform",), "Y - X")
        c = p.ctx.plus(le(ZERO, i), lt(i, N.t))
        if d.a[0] == "randint":
            v.prove_eq("X is the draw", tx, d, c)
            v.prove_eq("X is uniform on 0..m-1", d.a[2:4], (ZERO, m.t), c)
        else:
            v.prove_eq("X is the draw", tx, d, c)
            v.prove_eq("X is uniform on 0..m-1", d.a[2], m.t, c)
        affine(v, "Y - X", sub(ty, tx), n, (ZERO, num(2)), c)
        independent_keys(v, "noise independent of X", d.a[1], n.a[1], c)
        independent_rows(v, "X and Y", N, i, add(tx, ty), p)
        v.check("X is an integer iff it is discrete", x.dtype == ("int" if disc else "float"), str(x.dtype), p)
    for disc in (True, False):
        sampling(v, lambda: S(n_discrete=m, use_discrete_x=disc), model)


@contract("C05", f"{B}._discrete_continuous:ZeroInflatedPoissonizationSampler.sample", "any p in [0, 1), any size, any seed or key, Y discrete or not",
          "X standard exponential; Y is 0 with probability p and otherwise Poisson(X), row by row, from three independent keys")
def zero_inflated(v):
    S = loader.load(B + "._discrete_continuous").ZeroInflatedPoissonizationSampler
    pr = real("p")

    def model(p, N, x, y):
        i, tx = row(x, ZERO)
        ty = y.get((i, ZERO))
        d = one(draws(tx), ("randexponential",), "X")
        po = one([q for q in draws(ty) if q.a[0] == "randpoisson"], ("randpoisson",), "Y")
        u = one([q for q in draws(ty) if q is not d and q is not po], ("randuniform",), "zeros")
        c = p.ctx.plus(le(ZERO, i), lt(i, N.t))
        v.prove_eq("X is the draw", tx, d, c)
        v.prove_eq("the Poisson rate is X of the same row", po.a[2], tx, c)
        q = sub(ONE, pr.t)
        for keep in (lt(u, q), le(u, q), lt(pr.t, u), le(pr.t, u)):
            if solve.prove_eq(ty, ite(keep, po, ZERO), c):
                break
        else:
            keep = lt(u, q)
        v.prove_eq("Y is the Poisson draw with probability 1 - p and 0 otherwise", ty, ite(keep, po, ZERO), c)
        for a, b in ((d, po), (d, u), (po, u)):
            independent_keys(v, "independent draws", a.a[1], b.a[1], c)
        independent_rows(v, "X and Y", N, i, add(tx, ty), p)
        v.check("Y is an integer iff it is discrete", y.dtype == ("int" if disc else "float"), str(y.dtype), p)
    for disc in (True, False):
        sampling(v, lambda: S(p=pr, use_discrete_y=disc), model, [le(ZERO, pr.t), lt(pr.t, ONE)])


def joint(v, p, N, x, y, dx, head, want):
    """(x, y) is one draw of the documented joint law: X its first coordinates, Y the others"""
    i, j = fresh("i"), fresh("j")
    c = p.ctx.plus(le(ZERO, i), lt(i, N.t), le(ZERO, j))
    for w, r, off in (("x", x, ZERO), ("y", y, dx)):
        t = r.get((i, j))
        if t.op != "app" or t.a[0] != head:
            raise Unsupported(f"{w}: not an entry of a draw {head}: {tm.show(t)[:200]}")
        cw = c.plus(lt(j, r.dims[1]))
        pos_, rest = t.a[-2:], t.a[2:-2]
        v.prove_eq(f"{w}: row and coordinate of the joint draw", pos_, (i, add(off, j)), cw)
        for (nm, val), got in zip(want, rest):
            v.prove_eq(f"{w}: {nm}", got, val, cw)
        if w == "x":
            key = t.a[1]
        else:
            v.prove_eq("X and Y come from one joint draw", t.a[1], key, cw)


@contract("C05", f"{B}._splitmultinormal:SplitMultinormal.sample", "any accepted covariance and mean, any size, any seed or key",
          "one draw of the joint normal law with that mean and covariance: X its first dim_x coordinates, Y the others; arguments unchanged")
def multinormal(v):
    S = loader.load(B + "._splitmultinormal").SplitMultinormal
    for with_mean in (True, False):
        dx, dy, n, cov, mean, pd, lin = gaussian(v, with_mean)
        kw = dict(mean=mean) if with_mean else {}
        mt = mean.term() if with_mean else SArr((n,), lambda i: ZERO).term()
        sampling(v, lambda: S(dim_x=dx, dim_y=dy, covariance=cov, **kw),
                 lambda p, N, x, y: joint(v, p, N, x, y, dx.t, "randmvn", [("mean", mt), ("covariance", cov.term())]),
                 lin + [pd], [(mean, "m")])


@contract("C05", f"{B}._splitmultinormal:BivariateNormalSampler.sample", "any accepted parameters, any size, any seed or key",
          "one draw of the joint normal law with mean (mean_x, mean_y) and covariance ((sx^2, rho sx sy), (rho sx sy, sy^2)); X first")
def bivariate(v):
    S = loader.load(B + "._splitmultinormal").BivariateNormalSampler
    r, sx, sy, mx, my = real("rho"), pos("sx"), pos("sy"), real("mx"), real("my")
    C = SArr((num(2), num(2)), lambda i: ite(eq(i[0], i[1]), ite(eq(i[0], ZERO), powr(sx.t, 2), powr(sy.t, 2)), mul(r.t, mul(sx.t, sy.t))))
    m = SArr((num(2),), lambda i: ite(eq(i[0], ZERO), mx.t, my.t))
    sampling(v, lambda: S(r, sx, sy, mx, my),
             lambda p, N, x, y: joint(v, p, N, x, y, ONE, "randmvn", [("mean", m.term()), ("covariance", C.term())]),
             [lt(num(-1), r.t), lt(r.t, ONE)])


def key_determines(v, p, st):
    """different keys give different states of the generator: the state determines both words of the key"""
    k, k2 = app("somekey"), app("otherkey")
    if not any(q is k for q in tm.subterms(st)):
        return
    ren = lambda t: tm.replace(t, lambda q: k2 if q is k else None)
    word = lambda q, i: app("keyword", q, num(i), sort="I")
    c = p.ctx.plus(*[ren(f) for f in p.ctx.facts])
    if st.sort == "I":
        c = c.plus(eq(st, ren(st)))
    elif st.op == "app" and st.a[0] == "RandomState" and st.a[1].op == "arr":
        a = asarr(SArr((num(2),), lambda i: tm.beta(st.a[1].a[1], i[0])))
        c = c.plus(*[eq(a.get((num(i),)), ren(a.get((num(i),)))) for i in (0, 1)])
    elif st.op == "app" and st.a[0] in ("RandomState", "PRNGKey") and st.a[1] is k:
        return v.ok("the state of the generator determines the key")
    else:
        raise Unsupported(f"state of the generator {tm.show(st)[:100]}")
    for i in (0, 1):
        v.prove_eq("the state of the generator determines the key", word(k, i), word(k2, i), c)


@contract("C05", f"{B}._split_student_t:SplitStudentT.sample", "any accepted parameters (also infinite degrees of freedom), any size, any seed or key",
          "one draw of the joint Student-t law with that mean, dispersion and degrees of freedom: X its first dim_x coordinates, Y the others")
def student(v):
    S = loader.load(B + "._split_student_t").SplitStudentT
    for with_mean in (True, False):
        for df in (pos("df"), SV(tm.PINF)):
            dx, dy, n, disp, mean, pd, lin = gaussian(v, with_mean)
            kw = dict(mean=mean) if with_mean else {}
            mt = mean.term() if with_mean else SArr((n,), lambda i: ZERO).term()

            def model(p, N, x, y):
                joint(v, p, N, x, y, dx.t, "mvtrvs", [("mean", mt), ("dispersion", disp.term()), ("degrees of freedom", df.t)])
                key_determines(v, p, x.get((ZERO, ZERO)).a[1])
            sampling(v, lambda: S(dim_x=dx, dim_y=dy, dispersion=disp, df=df, **kw), model,
                     lin + [pd], [(mean, "m")])


@contract("C05", f"{B}._transformed:TransformedSampler.sample", "any base sampler, any transformations, any size, any seed or key",
          "shapes, purity and interchangeability carry over from the base sampler, whose draw is used with the given seed")
def transformed(v):
    from .c04 import opaque_map
    S = loader.load(B + "._transformed").TransformedSampler
    ax, ay = nat("ax"), nat("ay")

    for vec in (True, False):
        def make():
            b = Drawn()
            return S(b, transform_x=opaque_map("f", b.dim_x + ax, not vec), transform_y=opaque_map("g", b.dim_y + ay, not vec),
                     add_dim_x=ax, add_dim_y=ay, vectorise=vec)
        d = Drawn()
        sampling(v, make, lambda *a: None, dims=(d.dim_x + ax, d.dim_y + ay))


class Drawn(Component):
    """an arbitrary sampler honouring the contract: a seed and its key give the same draws"""

    def __init__(self):
        Component.__init__(self, wrap(ZERO))

    dim_x = property(lambda self: posint("b_dx"))
    dim_y = property(lambda self: posint("b_dy"))

    def d(self, w, k):
        return (self.dim_x if w == "x" else self.dim_y).t

    def sample(self, n_points, rng):
        k = as_key(rng)
        k = k if k.op == "app" else app("PRNGKey", k)
        jax_.consume(k, "sample")
        return tuple(SArr((t_(n_points), self.d(w, ZERO)), (lambda w: lambda i: self.entry(w, ZERO, k, n_points, *i))(w), jax=True) for w in "xy")


@contract("C05", f"{B}._independent_coordinates:IndependentConcatenationSampler.sample", "any sequence of samplers, any size, any seed or key",
          "declared shapes, a pure function of the seed, seed and key interchangeable, no key used twice")
def concatenation(v):
    S = loader.load(B + "._independent_coordinates").IndependentConcatenationSampler
    c, k = posint("c"), fresh("k")
    C0 = Component(wrap(ZERO))
    facts = [forall(k, ZERO, c.t, and_(le(ONE, C0.d("x", k)), le(ONE, C0.d("y", k))))]
    sampling(v, lambda: S(seq.VList.from_segs([("seg", c.t, lambda i: Component(wrap(i)))])), lambda *a: None, facts)
    for n in (1, 2, 3):
        sampling(v, lambda: S([Drawn() for _ in range(n)]), lambda *a: None)


@contract("C05", f"{B}._discrete_continuous:MultivariateDiscreteUniformMixtureSampler.sample", "sequences of 1 to 3 arbitrary m_k > 0, any size, any seed or key",
          "the k-th coordinates of X and Y are drawn as documented for m_k, from keys different for different coordinates")
def multivariate_mixture(v):
    S = loader.load(B + "._discrete_continuous").MultivariateDiscreteUniformMixtureSampler
    for n in (1, 2, 3):
        ms = [posint(f"m{i}") for i in range(n)]

        def model(p, N, x, y):
            i = fresh("i")
            c = p.ctx.plus(le(ZERO, i), lt(i, N.t))
            keys = []
            for k, m in enumerate(ms):
                tx, ty = solve.simp(x.get((i, num(k))), c), solve.simp(y.get((i, num(k))), c)
                d = one(draws(tx), ("randint", "choice_rep"), "X")
                u = one([q for q in draws(ty) if q is not d], ("randuniform",), "Y - X")
                v.prove_eq("X is the draw", tx, d, c)
                v.prove_eq("X is uniform on 0..m-1", d.a[2:4], (ZERO, m.t), c)
                affine(v, "Y - X", sub(ty, tx), u, (ZERO, num(2)), c)
                keys += [d.a[1], u.a[1]]
            for a in range(len(keys)):
                for b in range(a):
                    independent_keys(v, "coordinates are drawn independently", keys[a], keys[b], c)
        sampling(v, lambda: S(ns_discrete=ms), model)
