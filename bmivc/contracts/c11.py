"""C11: Bend-and-Mix distributions keep joint, marginals and pointwise mutual information consistent."""
from ..vc import contract
from .lib import *  # noqa: F401,F403
from ..shims import jax_, tfp

P = "bmi.samplers._tfp."
C = P + "_core"


def joint_of(core, name="", dx=None, dy=None, mi=None, idx=()):
    """an arbitrary joint distribution"""
    dx = dx if dx is not None else posint("dx")
    dy = dy if dy is not None else posint("dy")
    return core.JointDistribution(dist_joint=tfp.Opaque("xy" + name, add(t_(dx), t_(dy))), dist_x=tfp.Opaque("x" + name, dx),
                                  dist_y=tfp.Opaque("y" + name, dy), dim_x=dx, dim_y=dy, analytic_mi=mi)


def glue(dx, x, y):
    """entries of the concatenation of two vectors"""
    return lambda k: ite(lt(k, t_(dx)), x(k), y(sub(k, t_(dx))))


def pmi_of(dx, dy, fx, fy, name=""):
    dx, dy = t_(dx), t_(dy)
    return sub(app("logp:xy" + name, tfp.vec(add(dx, dy), glue(dx, fx, fy))),
               add(app("logp:x" + name, tfp.vec(dx, fx)), app("logp:y" + name, tfp.vec(dy, fy))))


def logp_at(v, label, p, dist, d, want):
    """log_prob of the distribution at n arbitrary points"""
    m = posint("m")
    z = array("z", m, d, jax=True)
    for q in v.explore(lambda: dist.log_prob(z), p.ctx.facts):
        if not v.returns(label + ": defined", q):
            continue
        i = fresh("i")
        c = q.ctx.plus(le(ZERO, i), lt(i, m.t))
        r = asarr(q.result)
        v.prove_eq(label + ": one value per point", r.dims[0], m.t, c)
        v.prove_eq(label, r.get((i,)), want(lambda k: z.get((i, k))), c)


@contract("C11", f"{C}:JointDistribution.pmi", "any joint distribution (arbitrary densities and dimensions), any number of points",
          "log p(x, y) - log p(x) - log p(y) at every point, X coordinates first; arguments unchanged")
def pmi(v):
    core = loader.load(C)
    dx, dy, n = posint("dx"), posint("dy"), posint("n")
    x, y = array("x", n, dx, jax=True), array("y", n, dy, jax=True)
    d = joint_of(core)
    for p in v.explore(lambda: d.pmi(x, y)):
        if v.returns("defined", p):
            i = fresh("i")
            c = p.ctx.plus(le(ZERO, i), lt(i, n.t))
            r = asarr(p.result)
            v.check("one value per point", r.ndim == 1, str(r.dims), p)
            v.prove_eq("number of values", r.dims[0], n.t, c)
            v.prove_eq("log p(x,y) - log p(x) - log p(y)", r.get((i,)), pmi_of(dx, dy, lambda k: x.get((i, k)), lambda k: y.get((i, k))), c)
            unchanged(v, "x unchanged", x, "x", p)
            unchanged(v, "y unchanged", y, "y", p)


def xy_draw(dist, key, n, i, j):
    return app("tfpdraw", seq.vterm(dist), key, t_(n), i, j)


@contract("C11", f"{C}:JointDistribution.sample", "any joint distribution, any integer n_points, any key",
          "ValueError iff n_points < 1; otherwise X is the first dim_x and Y the remaining dim_y coordinates of one joint draw of n_points points with that key")
def sample(v):
    core = loader.load(C)
    dx, dy, n = posint("dx"), posint("dy"), integer("n")
    d = joint_of(core)
    key = jax_.PRNGKey(integer("seed"))
    for p in v.explore(lambda: d.sample(n, key)):
        if rejects_iff(v, le(ONE, n.t), p):
            x, y = p.result
            prove_array(v, "x", p, x, (n, dx), lambda i, j: xy_draw(d.dist_joint, key.t, n, i, j))
            prove_array(v, "y", p, y, (n, dy), lambda i, j: xy_draw(d.dist_joint, key.t, n, i, add(j, dx.t)))


def mixed(names, pr, part):
    def want(d):
        return lambda f: app("log", add(*[tm.mul(pr(num(i)), app("exp", app(f"logp:{part}{nm}", tfp.vec(d, f)))) for i, nm in enumerate(names)]))
    return want


def _mixture(m):
    @contract("C11", f"{C}:mixture", f"{m} component(s) of arbitrary densities and dimensions, any array of positive proportions",
              "ValueError iff the dimensions of X or of Y differ or the number of proportions is not the number of components; joint and both "
              "marginals are the mixtures of the components' joints and marginals with the same proportions in the same order; the information is unknown")
    def c(v):
        core = loader.load(C)
        names = [f"{i}" for i in range(m)]
        k = posint("k")
        w = SArr((k.t,), lambda i: app("exp", app("logw", *i)), jax=True)
        pr = lambda i: w.get((i,))
        dxs, dys = [posint(f"dx{i}") for i in range(m)], [posint(f"dy{i}") for i in range(m)]
        cs = [joint_of(core, nm, a, b, real("mi" + nm)) for nm, a, b in zip(names, dxs, dys)]
        same = and_(*[eq(a.t, dxs[0].t) for a in dxs[1:]], *[eq(a.t, dys[0].t) for a in dys[1:]], eq(k.t, num(m)))
        for p in v.explore(lambda: core.mixture(w, cs)):
            if not rejects_iff(v, same, p):
                continue
            d = p.result
            dx, dy = t_(dxs[0]), t_(dys[0])
            v.prove_eq("dimension of X", d.dim_x, dx, p)
            v.prove_eq("dimension of Y", d.dim_y, dy, p)
            v.check("information unknown", d.analytic_mi is None, repr(d.analytic_mi), p)
            logp_at(v, "X marginal", p, d.dist_x, dx, mixed(names, pr, "x")(dx))
            logp_at(v, "Y marginal", p, d.dist_y, dy, mixed(names, pr, "y")(dy))
            logp_at(v, "joint", p, d.dist_joint, add(dx, dy), mixed(names, pr, "xy")(add(dx, dy)))
            prove_array(v, "proportions unchanged", p, w, (k,), lambda i: app("exp", app("logw", i)))
    c.__name__ = f"mixture_{m}"
    from .. import vc
    vc.CONTRACTS[-1]["name"] = c.__name__


for _m in (1, 2, 3):
    _mixture(_m)


class Member:
    """member k of an arbitrary sequence of joint distributions"""
    _sym_plain = True
    analytic_mi = property(lambda self: wrap(app("m_mi", self.k), py=False))

    def __init__(self, k):
        self.k = t_(k)

    def __sym_term__(self):
        return app("member", self.k)

    def __sym_subst__(self, m):
        return Member(seq.subst(self.k, m))

    def dim(self, w):
        return app("m_d" + w, self.k, sort="I")

    dim_x = property(lambda self: wrap(self.dim("x")))
    dim_y = property(lambda self: wrap(self.dim("y")))
    dist_x = property(lambda self: tfp.Opaque("mx", self.dim("x"), self.k))
    dist_y = property(lambda self: tfp.Opaque("my", self.dim("y"), self.k))
    dist_joint = property(lambda self: tfp.Opaque("mxy", add(self.dim("x"), self.dim("y")), self.k))


@contract("C11", f"{C}:mixture", "any number of components of arbitrary densities and dimensions, any array of positive proportions", "as mixture_1")
def mixture_any(v):
    core = loader.load(C)
    m, k = nat("m"), posint("k")
    w = SArr((k.t,), lambda i: app("exp", app("logw", *i)), jax=True)
    cs = seq.VList.from_segs([("seg", m.t, lambda i: Member(i))])
    j, j2 = fresh("j"), fresh("j")
    d0 = Member(ZERO)
    dx, dy = d0.dim("x"), d0.dim("y")
    same = and_(lt(ZERO, m.t), eq(k.t, m.t), tm.forall(j, ZERO, m.t, eq(Member(j).dim("x"), dx)), tm.forall(j2, ZERO, m.t, eq(Member(j2).dim("y"), dy)))
    for p in v.explore(lambda: core.mixture(w, cs)):
        if not rejects_iff(v, same, p):
            continue
        d = p.result
        v.prove_eq("dimension of X", d.dim_x, dx, p)
        v.prove_eq("dimension of Y", d.dim_y, dy, p)
        v.check("information unknown", d.analytic_mi is None, repr(d.analytic_mi), p)

        def mix(part, dim):
            def want(f):
                i = fresh("i")
                return app("log", sum_(i, ZERO, m.t, tm.mul(w.get((i,)), app("exp", app("logp:" + part, i, tfp.vec(dim, f))))))
            return want
        p.ctx = p.ctx.plus(lt(ZERO, dx), lt(ZERO, dy))
        logp_at(v, "X marginal", p, d.dist_x, dx, mix("mx", dx))
        logp_at(v, "Y marginal", p, d.dist_y, dy, mix("my", dy))
        logp_at(v, "joint", p, d.dist_joint, add(dx, dy), mix("mxy", add(dx, dy)))
        prove_array(v, "proportions unchanged", p, w, (k,), lambda i: app("exp", app("logw", i)))


def back(name, on, d, f):
    """entries and log-jacobian of the inverse of a transformation"""
    if not on:
        return f, ZERO
    a = tfp.vec(d, f)
    return (lambda k: app("binv:" + name, a, k)), app("ildj:" + name, a)


@contract("C11", f"{C}:transform", "any joint distribution, any diffeomorphisms of X and Y, present or not",
          "X and Y marginals and the joint are the push-forwards by f, g and f x g (density of the preimage plus log-jacobian); dimensions and known "
          "information unchanged; PMI(f(x), g(y)) equals the original PMI(x, y)")
def transforms(v):
    core = loader.load(C)
    for mi in (real("mi"), None, 0.0):
        for fx in (True, False):
            for gy in (True, False):
                d = joint_of(core, mi=mi)
                dx, dy = d.dim_x.t, d.dim_y.t
                f, g = (tfp.OpaqueBij("f") if fx else None), (tfp.OpaqueBij("g") if gy else None)
                kw = {}
                if fx:
                    kw["x_transform"] = f
                if gy:
                    kw["y_transform"] = g
                for p in v.explore(lambda: core.transform(d, **kw)):
                    if not v.returns("accepted", p):
                        continue
                    r = p.result
                    v.prove_eq("dimensions", (r.dim_x, r.dim_y), (dx, dy), p)
                    if mi is None:
                        v.check("unknown information stays unknown", r.analytic_mi is None, repr(r.analytic_mi), p)
                    else:
                        v.prove_eq("known information unchanged", r.analytic_mi, mi, p)
                    if type(mi) is not SV:
                        continue

                    def wx(h, name, on, dim):
                        a, l = back(name, on, dim, h)
                        return add(app(f"logp:{'x' if name == 'f' else 'y'}", tfp.vec(dim, a)), l)

                    def wxy(h):
                        a, l = back("f", fx, dx, h)
                        b, l2 = back("g", gy, dy, lambda k: h(add(k, dx)))
                        return add(app("logp:xy", tfp.vec(add(dx, dy), glue(dx, a, b))), l, l2)
                    logp_at(v, "X marginal", p, r.dist_x, dx, lambda h: wx(h, "f", fx, dx))
                    logp_at(v, "Y marginal", p, r.dist_y, dy, lambda h: wx(h, "g", gy, dy))
                    logp_at(v, "joint", p, r.dist_joint, add(dx, dy), wxy)
                    # invariance of the PMI
                    n = posint("n")
                    x, y = array("x", n, dx, jax=True), array("y", n, dy, jax=True)
                    X, Y = (f.forward(x) if fx else x), (g.forward(y) if gy else y)
                    for q in v.explore(lambda: r.pmi(X, Y), p.ctx.facts):
                        if v.returns("PMI defined", q):
                            i = fresh("i")
                            c = q.ctx.plus(le(ZERO, i), lt(i, n.t))
                            v.prove_eq("PMI(f(x), g(y)) = PMI(x, y)", asarr(q.result).get((i,)), pmi_of(dx, dy, lambda k: x.get((i, k)), lambda k: y.get((i, k))), c)
                    # the sample is the transformed sample
                    key = jax_.PRNGKey(integer("seed"))
                    for q in v.explore(lambda: r.sample(n, key), p.ctx.facts):
                        if v.returns("sampled", q):
                            e = lambda off: (lambda i: lambda k: xy_draw(d.dist_joint, key.t, n, i, add(k, off)))
                            for nm, a, dim, on, off in (("f", q.result[0], dx, fx, ZERO), ("g", q.result[1], dy, gy, dx)):
                                want = (lambda i, j: app("bfwd:" + nm, tfp.vec(dim, e(off)(i)), j)) if on else (lambda i, j: e(off)(i)(j))
                                prove_array(v, f"{nm} applied to the base sample", q, a, (n, dim), want)


@contract("C11", f"{P}_product:ProductDistribution.__init__", "any two distributions",
          "dimensions of the factors; the joint log-density is the sum of the factors'; marginals are the factors; information and every PMI value 0")
def product(v):
    mod = loader.load(P + "_product")
    dx, dy, n = posint("dx"), posint("dy"), posint("n")
    X, Y = tfp.Opaque("x", dx), tfp.Opaque("y", dy)
    x, y = array("x", n, dx, jax=True), array("y", n, dy, jax=True)

    def run():
        d = mod.ProductDistribution(X, Y)
        return d, d.pmi(x, y)
    for p in v.explore(run):
        if not v.returns("accepted", p):
            continue
        d, r = p.result
        v.prove_eq("dimensions", (d.dim_x, d.dim_y), (dx, dy), p)
        v.prove_eq("information", d.analytic_mi, ZERO, p)
        i = fresh("i")
        v.prove_eq("every PMI is zero", asarr(r).get((i,)), ZERO, p.ctx.plus(le(ZERO, i), lt(i, n.t)))
        logp_at(v, "X marginal", p, d.dist_x, dx.t, lambda h: app("logp:x", tfp.vec(dx.t, h)))
        logp_at(v, "Y marginal", p, d.dist_y, dy.t, lambda h: app("logp:y", tfp.vec(dy.t, h)))
        logp_at(v, "joint", p, d.dist_joint, add(dx.t, dy.t),
                lambda h: add(app("logp:x", tfp.vec(dx.t, h)), app("logp:y", tfp.vec(dy.t, lambda k: h(add(k, dx.t))))))


class Declared:
    """callee contract of SplitMultinormal / SplitStudentT (C01, C02): remembers its arguments"""
    made = []

    def __init__(self, dim_x, dim_y, covariance=None, mean=None, df=None, dispersion=None):
        self.__dict__.update(dim_x=dim_x, dim_y=dim_y, covariance=covariance, mean=mean, df=df, dispersion=dispersion)
        Declared.made.append(self)

    def mutual_information(self):
        return real("declared_mi")


def located(v, label, p, d, fam, loc, mat, dim, off, df=None):
    """the distribution has the location loc[off:off+dim] and the scale matrix mat[off:off+dim, off:off+dim]"""
    if not isinstance(d, tfp.Located):
        raise Unsupported("another family of distributions")
    v.check(f"{label}: family", d.fam == fam, d.fam, p)
    prove_array(v, f"{label}: location", p, d.loc, (dim,), lambda i: loc(add(i, off)))
    a, b = fresh("a"), fresh("b")
    block = SArr((t_(dim), t_(dim)), lambda i: mat(add(i[0], off), add(i[1], off)), jax=True)
    t = tm.subst(block.term(), {})
    c = p.ctx.plus(le(ZERO, a), lt(a, t_(dim)), le(ZERO, b), lt(b, t_(dim)))
    v.prove_eq(f"{label}: size", (d.tril.dims[0], d.tril.dims[1]), (t_(dim), t_(dim)), c)
    v.prove_eq(f"{label}: factor of the block of the matrix", sv_.simp(d.tril.get((a, b)), c), sv_.simp(app("chol", t, a, b), c), c)
    if df is not None:
        v.prove_eq(f"{label}: degrees of freedom", d.par[0], df, p)


def _primitive(v, mod, cls, stub, matname, fam, extra):
    M = loader.load(P + mod)
    setattr(M, stub, Declared)
    dx, dy = posint("dx"), posint("dy")
    N = add(dx.t, dy.t)
    cov, mean = array("cov", N, N), array("mean", N)
    for m in (mean, None):
        kw = {matname: cov, **extra}
        if m is not None:
            kw["mean"] = m

        def run():
            Declared.made = []
            d = getattr(M, cls)(dim_x=dx, dim_y=dy, **kw)
            return d, list(Declared.made)
        for p in v.explore(run):
            if not v.returns("accepted", p):
                continue
            d, made = p.result
            loc = (lambda i: app("mean", i)) if m is not None else (lambda i: ZERO)
            mat = lambda i, j: app("cov", i, j)
            v.prove_eq("dimensions", (d.dim_x, d.dim_y), (dx, dy), p)
            v.check("the information is that of one closed-form sampler", len(made) >= 1, str(len(made)), p)
            for s in made:
                v.prove_eq("closed form: dimensions", (s.dim_x, s.dim_y), (dx, dy), p)
                prove_array(v, "closed form: matrix", p, getattr(s, matname), (N, N), mat)
                if s.mean is not None:
                    prove_array(v, "closed form: mean", p, s.mean, (N,), loc)
                if extra:
                    v.prove_eq("closed form: degrees of freedom", s.df, extra["df"], p)
            v.prove_eq("information", d.analytic_mi, real("declared_mi"), p)
            df = extra.get("df")
            located(v, "joint", p, d.dist_joint, fam, loc, mat, N, ZERO, df)
            located(v, "X marginal", p, d.dist_x, fam, loc, mat, dx.t, ZERO, df)
            located(v, "Y marginal", p, d.dist_y, fam, loc, mat, dy.t, dx.t, df)
            unchanged(v, "matrix unchanged", cov, "cov", p)
            if m is not None:
                unchanged(v, "mean unchanged", mean, "mean", p)
    loader.reset()


@contract("C11", f"{P}_normal:MultivariateNormalDistribution.__init__", "any dimensions, any covariance accepted by SplitMultinormal, any mean or none",
          "joint and marginals are the normal distributions with the mean (default zero) and covariance and their X and Y blocks; the information is SplitMultinormal's for the same parameters")
def normal(v):
    _primitive(v, "_normal", "MultivariateNormalDistribution", "SplitMultinormal", "covariance", "mvnormal", {})


@contract("C11", f"{P}_student:MultivariateStudentDistribution.__init__", "any dimensions, any dispersion accepted by SplitStudentT, any mean or none, any positive degrees of freedom",
          "joint and marginals are the Student distributions with the mean (default zero), dispersion and degrees of freedom and their X and Y blocks; the information is SplitStudentT's for the same parameters")
def student(v):
    _primitive(v, "_student", "MultivariateStudentDistribution", "SplitStudentT", "dispersion", "mvstudent", {"df": pos("df")})


def profile_term(d, key, n):
    """PMI of point i of the sample drawn with the key"""
    dx, dy = d.dim_x.t, d.dim_y.t
    e = lambda i, off: lambda k: xy_draw(d.dist_joint, key, n, i, add(k, off))
    return lambda i: pmi_of(dx, dy, e(i, ZERO), e(i, dx))


def mean_std(f, n):
    i, j, k = fresh("i"), fresh("j"), fresh("k")
    mu = div(sum_(i, ZERO, n, f(i)), n)
    return mu, app("sqrt", div(sum_(j, ZERO, n, tm.powr(sub(f(j), mu), 2)), n))


@contract("C11", f"{C}:pmi_profile, {C}:monte_carlo_mi_estimate", "any joint distribution, any key, any positive sample size",
          "the profile is the PMI of every point of the sample of size n drawn with the key; the estimate is its mean, the standard error its standard deviation over sqrt(n)")
def monte_carlo(v):
    core = loader.load(C)
    n = posint("n")
    key = jax_.PRNGKey(integer("seed"))
    d = joint_of(core)
    for p in v.explore(lambda: (core.pmi_profile(key, d, n), core.monte_carlo_mi_estimate(key, d, n))):
        if not v.returns("defined", p):
            continue
        pr, (mi, se) = p.result
        f = profile_term(d, key.t, n.t)
        prove_array(v, "profile", p, pr, (n,), f)
        mu, sd = mean_std(f, n.t)
        v.prove_eq("estimate", mi, mu, p)
        v.prove_eq("standard error", se, div(sd, app("sqrt", n.t)), p)


@contract("C11", f"{P}_wrapper:BMMSampler", "any joint distribution; given information (including 0) or none; any seed or key; any sample size",
          "ValueError iff the sample size is below 1; dimensions of the distribution; the given value, or the non-negative part of the Monte Carlo estimate with that seed "
          "and sample size, drawn only once; sampling is sampling the distribution with that key")
def wrapper(v):
    mod = loader.load(P + "_wrapper")
    core = loader.load(C)
    d = joint_of(core)
    dx, dy = d.dim_x, d.dim_y
    N, sz = posint("N"), integer("size")
    for rng in (integer("seed"), jax_.PRNGKey(integer("seed"))):
        key = rng.t if isinstance(rng, jax_.Key) else jax_.PRNGKey(rng).t
        for mi in (real("mi"), 0, 0.0, None):
            for given in (True, False):
                kw = dict(mi=mi, mi_estimate_seed=rng, mi_estimate_sample=sz) if given else dict(mi_estimate_seed=rng, mi_estimate_sample=sz)
                if not given and mi is not None:
                    continue

                def run():
                    s = mod.BMMSampler(d, **kw)
                    a = s.mutual_information()
                    c0 = len(ENG.ghost.get("consumed", []))
                    b = s.mutual_information()
                    c1 = len(ENG.ghost.get("consumed", []))
                    return s, a, b, c0, c1, s.sample(N, rng), s.mutual_information()
                for p in v.explore(run):
                    if not rejects_iff(v, le(ONE, sz.t), p):
                        continue
                    s, a, b, c0, c1, xy, again = p.result
                    v.prove_eq("dimensions", (s.dim_x, s.dim_y), (dx, dy), p)
                    if mi is not None:
                        v.prove_eq("the given information", a, mi, p)
                        v.check("no sample is drawn when the information is given", c0 == 0, str(c0), p)
                    else:
                        f = profile_term(d, key, sz.t)
                        v.prove_eq("non-negative part of the Monte Carlo estimate", a, app("max", mean_std(f, sz.t)[0], ZERO), p)
                        v.check("one sample", c0 == 1, str(c0), p)
                    v.prove_eq("the same value again", b, a, p)
                    v.prove_eq("the same value after sampling", again, a, p)
                    v.check("computed once", c1 == c0, f"{c0} {c1}", p)
                    prove_array(v, "x", p, xy[0], (N, dx), lambda i, j: xy_draw(d.dist_joint, key, N, i, j))
                    prove_array(v, "y", p, xy[1], (N, dy), lambda i, j: xy_draw(d.dist_joint, key, N, i, add(j, dx.t)))
    for p in v.explore(lambda: mod.BMMSampler(d)):
        v.check("default construction", p.exc is None, repr(p.exc), p)
