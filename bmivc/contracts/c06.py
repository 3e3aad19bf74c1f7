"""C06: dispersion-matrix builders."""
from ..vc import *  # noqa: F401,F403
from ..vc import contract
from .. import loader, seq, terms as tm

M = "bmi.samplers._matrix_utils"


def _entry(v, label, p, val, i, j, n, want, extra=()):
    """every entry (i, j) of a square matrix result"""
    r = val
    c = p.ctx.plus(le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, n), *extra)
    v.prove(f"{label}: rows", eq(r.dims[0], n), p)
    v.prove(f"{label}: columns", eq(r.dims[1], n), p)
    v.prove_eq(f"{label}: entries", r.get((i, j)), want, c)


@contract("C06", f"{M}:parametrised_correlation_matrix", "dim_x, dim_y, k, correlations arbitrary",
          "raises unless 1 <= k <= min(dims) and all correlations lie in [-1, 1]; otherwise entry (i,j) is 1 on the diagonal, "
          "correlation_x / correlation_y inside the blocks, correlation at (i, dim_x+i) for i < k and 0 elsewhere")
def parametrised_correlation_matrix(v):
    f = loader.load(M).parametrised_correlation_matrix
    dx, dy, k = integer("dx"), integer("dy"), integer("k")
    c, cx, cy = real("c"), real("cx"), real("cy")
    ok = and_(le(ONE, dx.t), le(ONE, dy.t), le(ONE, k.t), le(k.t, dx.t), le(k.t, dy.t),
              *[and_(le(num(-1), q.t), le(q.t, ONE)) for q in (c, cx, cy)])
    for p in v.explore(lambda: f(dim_x=dx, dim_y=dy, k=k, correlation=c, correlation_x=cx, correlation_y=cy)):
        if p.exc is not None:
            v.prove("rejects only out-of-range parameters", not_(ok), p)
            v.check("rejects with ValueError", isinstance(p.exc, ValueError), repr(p.exc), p)
            continue
        v.prove("accepts only valid parameters", ok, p)
        p.ctx = p.ctx.plus(ok)
        n = add(dx.t, dy.t)
        i, j = fresh("i"), fresh("j")
        bx = and_(lt(i, dx.t), lt(j, dx.t))
        by = and_(le(dx.t, i), le(dx.t, j))
        cross = or_(and_(eq(j, add(i, dx.t)), lt(i, k.t)), and_(eq(i, add(j, dx.t)), lt(j, k.t)))
        want = ite(eq(i, j), ONE, ite(bx, cx.t, ite(by, cy.t, ite(cross, c.t, ZERO))))
        _entry(v, "matrix", p, p.result, i, j, n, want)


@contract("C06", f"{M}:parametrised_correlation_matrix", "only dim_x, dim_y given",
          "documented defaults: k = 1, correlation = 1/2, correlation_x = correlation_y = 0")
def parametrised_defaults(v):
    f = loader.load(M).parametrised_correlation_matrix
    dx, dy = posint("dx"), posint("dy")
    for p in v.explore(lambda: f(dx, dy)):
        if not v.returns("accepts", p):
            continue
        n = add(dx.t, dy.t)
        i, j = fresh("i"), fresh("j")
        half = or_(and_(eq(i, ZERO), eq(j, dx.t)), and_(eq(j, ZERO), eq(i, dx.t)))
        _entry(v, "matrix", p, p.result, i, j, n, ite(eq(i, j), ONE, ite(half, num(tm.Fr(1, 2)), ZERO)))


@contract("C06", f"{M}:canonical_correlation", "rho an array of length m >= 1, additional_y >= 0",
          "unit diagonal, rho[i] at (i, m+i) and (m+i, i), 0 elsewhere; size 2m + additional_y")
def canonical_correlation(v):
    f = loader.load(M).canonical_correlation
    m, a = posint("m"), nat("a")
    rho = array("rho", m)
    for p in v.explore(lambda: f(rho, additional_y=a)):
        if not v.returns("accepts", p):
            continue
        n = add(mul(num(2), m.t), a.t)
        i, j = fresh("i"), fresh("j")
        want = ite(eq(i, j), ONE, ite(and_(eq(j, add(i, m.t)), lt(i, m.t)), app("rho", i),
                                      ite(and_(eq(i, add(j, m.t)), lt(j, m.t)), app("rho", j), ZERO)))
        _entry(v, "matrix", p, p.result, i, j, n, want)
        q = fresh("q")
        v.prove_eq("argument unchanged", rho.get((q,)), app("rho", q), p)


def _lvm():
    dx, dy, ni = posint("dx"), posint("dy"), nat("ni")
    names = ["alpha", "lambd", "epsilon_x", "epsilon_y", "beta_x", "beta_y", "eta_x", "eta_y"]
    r = {x: real(x) for x in names}
    ok = and_(le(ni.t, dx.t), le(ni.t, dy.t))
    return dx, dy, ni, r, ok


def lvm_cov(dx, dy, ni, r, i, j):
    """documented covariance of the generative model"""
    sq = lambda x: mul(r[x].t, r[x].t)
    ix, jx = lt(i, dx), lt(j, dx)
    same = eq(i, j)
    a = sq("alpha")
    blocks = ite(and_(ix, jx), sq("beta_x"), ite(and_(not_(ix), not_(jx)), sq("beta_y"), ZERO))
    loc = ite(ix, i, sub(i, dx))
    lo2 = ite(jx, j, sub(j, dx))
    inter = ite(and_(eq(loc, lo2), lt(loc, ni)), sq("lambd"), ZERO)
    noise = ite(same, add(ite(ix, sq("epsilon_x"), sq("epsilon_y")), ite(le(ni, loc), ite(ix, sq("eta_x"), sq("eta_y")), ZERO)), ZERO)
    return add(a, blocks, inter, noise)


@contract("C06", f"{M}:GaussianLVMParametrization.covariance", "0 <= n_interacting <= min(dims), all weights real",
          "entry (i,j) is the covariance implied by the documented generative model; symmetric")
def lvm_covariance(v):
    C = loader.load(M).GaussianLVMParametrization
    dx, dy, ni, r, ok = _lvm()
    for p in v.explore(lambda: C(dim_x=dx, dim_y=dy, n_interacting=ni, **r).covariance, [ok]):
        if not v.returns("accepts", p):
            continue
        n = add(dx.t, dy.t)
        i, j = fresh("i"), fresh("j")
        _entry(v, "covariance", p, p.result, i, j, n, lvm_cov(dx.t, dy.t, ni.t, r, i, j))
        c = p.ctx.plus(le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, n))
        v.prove_eq("symmetric", p.result.get((i, j)), p.result.get((j, i)), c)


@contract("C06", f"{M}:GaussianLVMParametrization.mixing", "0 <= n_interacting <= min(dims)",
          "row i holds the documented coefficients of the n_latent latent variables and mixing @ mixing.T is the covariance")
def lvm_mixing(v):
    C = loader.load(M).GaussianLVMParametrization
    dx, dy, ni, r, ok = _lvm()

    def run():
        o = C(dim_x=dx, dim_y=dy, n_interacting=ni, **r)
        m = o.mixing
        return m, o.n_latent, m @ m.T, o.covariance
    for p in v.explore(run, [ok]):
        if not v.returns("accepts", p):
            continue
        m, nl, prod, cov = p.result
        n = add(dx.t, dy.t)
        L = add(num(3), mul(num(2), dx.t), mul(num(2), dy.t), neg(ni.t))
        v.prove_eq("number of latent variables", t_(nl), L, p)
        v.prove("rows", eq(m.dims[0], n), p)
        v.prove("columns", eq(m.dims[1], L), p)
        i, q = fresh("i"), fresh("q")
        X = lt(i, dx.t)
        loc = ite(X, i, sub(i, dx.t))
        oZ, oE = num(3), add(num(3), ni.t)
        oF = add(oE, dx.t)
        oV = add(oF, dy.t)
        oW = add(oV, sub(dx.t, ni.t))
        R = lambda s: r[s].t
        want = ite(eq(q, ZERO), R("alpha"), ite(eq(q, ONE), ite(X, R("beta_x"), ZERO), ite(eq(q, num(2)), ite(X, ZERO, R("beta_y")),
               ite(lt(q, oE), ite(eq(sub(q, oZ), loc), R("lambd"), ZERO),
               ite(lt(q, oF), ite(and_(X, eq(sub(q, oE), i)), R("epsilon_x"), ZERO),
               ite(lt(q, oV), ite(and_(not_(X), eq(sub(q, oF), loc)), R("epsilon_y"), ZERO),
               ite(lt(q, oW), ite(and_(X, eq(add(sub(q, oV), ni.t), i)), R("eta_x"), ZERO),
                   ite(and_(not_(X), eq(add(sub(q, oW), ni.t), loc)), R("eta_y"), ZERO))))))))
        c = p.ctx.plus(le(ZERO, i), lt(i, n), le(ZERO, q), lt(q, L))
        v.prove_eq("documented coefficients", m.get((i, q)), want, c)
        j = fresh("j")
        c = p.ctx.plus(le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, n))
        v.prove_eq("mixing @ mixing.T equals the covariance", prod.get((i, j)), cov.get((i, j)), c)


@contract("C06", f"{M}:GaussianLVMParametrization.correlation", "positive variances",
          "covariance(i,j)/sqrt(covariance(i,i) covariance(j,j)); unit diagonal")
def lvm_correlation(v):
    C = loader.load(M).GaussianLVMParametrization
    dx, dy, ni, r, ok = _lvm()
    for x in ("epsilon_x", "epsilon_y"):
        r[x] = pos(x)
    for p in v.explore(lambda: C(dim_x=dx, dim_y=dy, n_interacting=ni, **r).correlation, [ok]):
        if not v.returns("accepts", p):
            continue
        n = add(dx.t, dy.t)
        i, j = fresh("i"), fresh("j")
        cov = lambda a, b: lvm_cov(dx.t, dy.t, ni.t, r, a, b)
        c = p.ctx.plus(le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, n))
        v.prove("rows", eq(p.result.dims[0], n), p)
        v.prove_eq("definition", p.result.get((i, j)), div(cov(i, j), app("sqrt", mul(cov(i, i), cov(j, j)))), c)
        v.prove_eq("unit diagonal", p.result.get((i, i)), ONE, c)


@contract("C06", f"{M}:GaussianLVMParametrization", "epsilon_y, beta_y, eta_y omitted; n_interacting outside 0..min(dims)",
          "omitted Y weights default to the X weights; out-of-range n_interacting rejected")
def lvm_defaults(v):
    C = loader.load(M).GaussianLVMParametrization
    dx, dy = posint("dx"), posint("dy")
    ni = integer("ni")
    r = {x: real(x) for x in ("alpha", "lambd", "epsilon_x", "beta_x", "eta_x")}
    ok = and_(le(ZERO, ni.t), le(ni.t, dx.t), le(ni.t, dy.t))
    for p in v.explore(lambda: C(dim_x=dx, dim_y=dy, n_interacting=ni, **r)):
        if p.exc is not None:
            v.prove("rejects only invalid n_interacting", not_(ok), p)
            v.check("rejects with ValueError", isinstance(p.exc, ValueError), repr(p.exc), p)
            continue
        v.prove("accepts only valid n_interacting", ok, p)
        o = p.result
        for a, b in (("epsilon_y", "epsilon_x"), ("beta_y", "beta_x"), ("eta_y", "eta_x")):
            v.prove_eq(f"{a} defaults to {b}", getattr(o, a), r[b], p)


@contract("C06", f"{M}:DenseLVMParametrization", "alpha, epsilon > 0", "every off-diagonal correlation equals correlation_strength")
def dense(v):
    C = loader.load(M).DenseLVMParametrization
    dx, dy, al, ep = posint("dx"), posint("dy"), pos("al"), pos("ep")

    def run():
        o = C(dim_x=dx, dim_y=dy, alpha=al, epsilon=ep)
        return o.correlation, o.correlation_strength
    for p in v.explore(run):
        if not v.returns("accepts", p):
            continue
        cor, s = p.result
        n = add(dx.t, dy.t)
        i, j = fresh("i"), fresh("j")
        c = p.ctx.plus(le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, n))
        v.prove_eq("documented strength", t_(s), div(mul(al.t, al.t), add(mul(al.t, al.t), mul(ep.t, ep.t))), p)
        v.prove_eq("off-diagonal entries", cor.get((i, j)), ite(eq(i, j), ONE, t_(s)), c)


@contract("C06", f"{M}:SparseLVMParametrization", "epsilon > 0; eta omitted or any real",
          "Cor(X_i, Y_i) = correlation_interacting for i < n_interacting, all other cross-correlations are 0; equal variances when eta is omitted")
def sparse(v):
    C = loader.load(M).SparseLVMParametrization
    dx, dy, ni, be, la, ep = posint("dx"), posint("dy"), nat("ni"), real("be"), real("la"), pos("ep")
    et = real("et")

    for kw in ({}, dict(eta=et)):
        g = "eta given: " if kw else ""

        def run():
            o = C(dim_x=dx, dim_y=dy, n_interacting=ni, beta=be, lambd=la, epsilon=ep, **kw)
            return o.correlation, o.correlation_interacting, o.covariance
        for p in v.explore(run, [and_(le(ni.t, dx.t), le(ni.t, dy.t))]):
            if not v.returns(g + "accepts", p):
                continue
            cor, s, cov = p.result
            i, j = fresh("i"), fresh("j")
            sq = lambda x: mul(x.t, x.t)
            c = p.ctx.plus(le(ZERO, i), lt(i, dx.t), le(ZERO, j), lt(j, dy.t))
            var_ = add(sq(be), sq(ep), sq(la))
            v.prove_eq(g + "documented strength", t_(s), div(sq(la), var_), p)
            v.prove_eq(g + "cross correlations", cor.get((i, add(dx.t, j))), ite(and_(eq(i, j), lt(i, ni.t)), t_(s), ZERO), c)
            if not kw:
                v.prove_eq("equal variances", cov.get((i, i)), var_, c)


@contract("C06", f"{M}:SparseLVMParametrization", "every parameter given, eta any real (0 included); or beta, lambd, epsilon, eta omitted",
          "the model of GaussianLVMParametrization with beta, epsilon, eta shared by X and Y and alpha = 0; defaults beta 0, lambd 1, "
          "epsilon 1, eta = lambd; n_interacting outside 0..min(dims) rejected")
def sparse_parameters(v):
    C = loader.load(M).SparseLVMParametrization
    dx, dy, ni = posint("dx"), posint("dy"), integer("ni")
    be, la, ep, et = real("be"), real("la"), real("ep"), real("et")
    ok = and_(le(ZERO, ni.t), le(ni.t, dx.t), le(ni.t, dy.t))
    n = add(dx.t, dy.t)
    full = dict(beta=be, lambd=la, epsilon=ep, eta=et)
    for given in (("beta", "lambd", "epsilon", "eta"), ("lambd", "eta"), ("lambd",), ()):
        kw = {x: full[x] for x in given}
        w = {"beta": SV(ZERO), "lambd": SV(ONE), "epsilon": SV(ONE), **kw}
        w.setdefault("eta", w["lambd"])
        r = dict(alpha=SV(ZERO), lambd=w["lambd"], **{f"{q}_{s}": w[q] for q in ("epsilon", "beta", "eta") for s in "xy"})
        name = f"{', '.join(given) or 'nothing'} given"
        for p in v.explore(lambda: C(dim_x=dx, dim_y=dy, n_interacting=ni, **kw).covariance):
            if p.exc is not None:
                v.prove(f"{name}: rejects only invalid n_interacting", not_(ok), p)
                v.check(f"{name}: rejects with ValueError", isinstance(p.exc, ValueError), repr(p.exc), p)
                continue
            v.prove(f"{name}: accepts only valid n_interacting", ok, p)
            i, j = fresh("i"), fresh("j")
            _entry(v, f"{name}: covariance", p, p.result, i, j, n, lvm_cov(dx.t, dy.t, ni.t, r, i, j), [ok])


@contract("C06", f"{M}:GaussianLVMParametrization.latent_variable_labels", "valid parameters",
          "labels in the order of the columns of mixing and of the rows of covariance")
def labels(v):
    C = loader.load(M).GaussianLVMParametrization
    dx, dy, ni, r, ok = _lvm()

    def run():
        o = C(dim_x=dx, dim_y=dy, n_interacting=ni, **r)
        return o.latent_variable_labels, o.xy_labels, o.n_latent

    def flat(l):
        """number of labels and the label at position k as a term"""
        segs = seq.segs_of(l)

        def at(k):
            off, res = ZERO, None
            offs = []
            for s in segs:
                offs.append(off)
                off = add(off, seq.seg_len(s))
            for s, o in reversed(list(zip(segs, offs))):
                t = seq.vterm(s[1]) if s[0] == "item" else seq.vterm(s[2](sub(k, o)))
                res = t if res is None else ite(lt(k, add(o, seq.seg_len(s))), t, res)
            return res
        n = ZERO
        for s in segs:
            n = add(n, seq.seg_len(s))
        return n, at

    def lab(name, n):
        return app("str", app(f"str:${name}_"), app("fmt:", add(n, ONE)), app("str:$"))
    for p in v.explore(run, [ok]):
        if not v.returns("accepts", p):
            continue
        a, b, nl = p.result
        n, at = flat(a)
        v.prove_eq("one label per latent variable", n, t_(nl), p)
        k = fresh("k")
        c = p.ctx.plus(le(ZERO, k), lt(k, t_(nl)))
        D, E, N = dx.t, dy.t, ni.t
        o1 = add(num(3), N)
        o2 = add(o1, D)
        o3 = add(o2, E)
        o4 = add(o3, sub(D, N))
        # the number in the label is the index of the observed variable it contributes to
        parts = [(num(3), o1, lambda q: lab("Z", sub(q, num(3)))), (o1, o2, lambda q: lab("E", sub(q, o1))),
                 (o2, o3, lambda q: lab("F", sub(q, o2))), (o3, o4, lambda q: lab("V", add(N, sub(q, o3)))),
                 (o4, t_(nl), lambda q: lab("W", add(N, sub(q, o4))))]
        for lo, hi, f in parts:
            cc = c.plus(le(lo, k), lt(k, hi))
            if cc.feasible():
                v.prove_eq(f"label from {tm.show(lo)}", tm_strip(at(k), cc), f(k), cc)
        n2, at2 = flat(b)
        v.prove_eq("one label per observed variable", n2, add(D, E), p)
        for lo, hi, f in ((ZERO, D, lambda q: lab("X", q)), (D, add(D, E), lambda q: lab("Y", sub(q, D)))):
            cc = p.ctx.plus(le(lo, k), lt(k, hi))
            v.prove_eq(f"observed label from {tm.show(lo)}", tm_strip(at2(k), cc), f(k), cc)


def tm_strip(t, ctx):
    from .. import solve
    return solve.simp(t, ctx)
