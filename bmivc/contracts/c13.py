"""C13: histogram, kernel-density and CCA estimators compute their documented functional."""
from ..vc import contract
from .lib import *  # noqa: F401,F403
from .c20 import std_col

H, KD, CO = "bmi.estimators._histogram", "bmi.estimators._kde", "bmi.estimators.correlation"


def data(names=("x", "y")):
    n, dx, dy = posint("n"), posint("dx"), posint("dy")
    return n, dx, dy, array(names[0], n, dx), array(names[1], n, dy)


def col(name, n, std):
    """entry of the (possibly standardised) data"""
    return (lambda i, j: std_col(name, n.t, i, j)) if std else (lambda i, j: app(name, i, j))


def unchanged_data(v, x, y, p):
    unchanged(v, "caller's x unchanged", x, "x", p)
    unchanged(v, "caller's y unchanged", y, "y", p)


def spec_arrays(n, dx, dy, std):
    fx, fy = col("x", n, std), col("y", n, std)
    X = SArr((n.t, dx.t), lambda i: fx(*i))
    Y = SArr((n.t, dy.t), lambda i: fy(*i))
    XY = SArr((n.t, add(dx.t, dy.t)), lambda i: ite(lt(i[1], dx.t), fx(*i), fy(i[0], sub(i[1], dx.t))))
    return X, Y, XY


# ------------------------------------------------------------------ histogram
STD = [({}, True), ({"standardize": True}, True), ({"standardize": False}, False)]


@contract("C13", f"{H}:HistogramEstimator.estimate",
          "x of shape (n, dx), y of shape (n, dy), any dimensions and numbers of bins, standardised or not",
          "sum over the occupied cells (i, j) of p_ij (log p_ij - log p_i - log p_j), p the histogram with n_bins_x bins per X and n_bins_y bins "
          "per Y dimension over the total, marginals summed over the other variable; the arguments are unchanged")
def histogram(v):
    E = loader.load(H).HistogramEstimator
    from ..shims import np_
    from ..shims.misc import digits
    for given in (True, False):
        for kw, std in STD:
            n, dx, dy, x, y = data()
            bx, by = posint("bx"), posint("by")
            kw = dict(kw, n_bins_x=bx, **({"n_bins_y": by} if given else {}))
            b2 = by if given else bx

            def run():
                e = E(**kw)
                return e.estimate(x, y), e.parameters()
            for p in v.explore(run):
                unchanged_data(v, x, y, p)
                if not v.returns("accepts every data set", p):
                    continue
                mi, par = p.result
                v.prove_eq("reported bins of X", par.n_bins_x, bx, p)
                v.prove_eq("reported bins of Y", par.n_bins_y, b2, p)
                v.check("reported standardisation", par.standardize is std, repr(par.standardize), p)
                XY = spec_arrays(n, dx, dy, std)[2]
                bins = seq.VList.from_segs([("seg", dx.t, lambda k: bx), ("seg", dy.t, lambda k: b2)])
                h = np_.HistDD(XY.term(), bins)
                A, B = sym.power(bx.t, dx.t), sym.power(b2.t, dy.t)
                cnt = lambda i, j: t_(h.cell(seq.VList.from_segs(digits(i, bx, dx).segs + digits(j, b2, dy).segs)))
                i, j, k = fresh("i"), fresh("j"), fresh("k")
                tot = sum_(i, ZERO, A, sum_(j, ZERO, B, cnt(i, j)))
                pij = lambda i, j: div(cnt(i, j), tot)

                def cell(i, j):
                    px = sum_(k, ZERO, B, pij(i, k))
                    py = sum_(k, ZERO, A, pij(k, j))
                    q = pij(i, j)
                    return ite(lt(ZERO, q), mul(q, sub(app("log", q), add(app("log", px), app("log", py)))), ZERO)
                i, j = fresh("i"), fresh("j")
                v.prove_eq("plug-in mutual information", mi, sum_(i, ZERO, A, sum_(j, ZERO, B, cell(i, j))), p)


@contract("C13", f"{H}:HistogramEstimator.__init__", "no arguments / any integer numbers of bins", "five bins by default; non-positive numbers rejected; the Y default is the X setting")
def histogram_init(v):
    E = loader.load(H).HistogramEstimator
    for p in v.explore(lambda: E().parameters()):
        if v.returns("default construction", p):
            q = p.result
            v.prove_eq("default bins", (q.n_bins_x, q.n_bins_y, q.standardize), (5, 5, True), p)
    bx, by = integer("bx"), integer("by")
    for p in v.explore(lambda: E(n_bins_x=bx).parameters()):
        if rejects_iff(v, lt(ZERO, bx.t), p, what=" (X only)"):
            v.prove_eq("Y bins default to X bins", p.result.n_bins_y, bx, p)
            v.prove_eq("X bins", p.result.n_bins_x, bx, p)
    for p in v.explore(lambda: E(bx, by).parameters(), [not_(eq(by.t, ZERO))]):
        if rejects_iff(v, and_(lt(ZERO, bx.t), lt(ZERO, by.t)), p, what=" (both)"):
            v.prove_eq("bins", (p.result.n_bins_x, p.result.n_bins_y), (bx, by), p)


# ------------------------------------------------------------------ kernel density
def kde_entropy(kernel, bw, D):
    KDE = loader.SHIMS["sklearn.neighbors"].KernelDensity
    s = KDE(bandwidth=bw, kernel=kernel).fit(D).score_samples(D)
    k = fresh("k")
    return neg(div(sum_(k, ZERO, D.dims[0], s.get((k,))), D.dims[0]))


KPAT = [(kx, ky) for kx in (None, "cosine") for ky in (None, "linear")]


def _kde_cases():
    for kxy in ("gaussian", None):
        for kx, ky in KPAT:
            yield kxy, kx, ky


def _kde_args(kxy, kx, ky, bxy, bx, by):
    kw = {}
    for nm, val in (("kernel_xy", kxy), ("kernel_x", kx), ("kernel_y", ky), ("bandwidth_xy", bxy), ("bandwidth_x", bx), ("bandwidth_y", by)):
        if val is not None:
            kw[nm] = val
    a = kxy or "tophat"
    b = "scott" if bxy is None else bxy
    return kw, (a, kx or a, ky or a), (b, b if bx is None else bx, b if by is None else by)


@contract("C13", f"{KD}:KDEMutualInformationEstimator.__init__",
          "every pattern of given and omitted kernels and bandwidths; bandwidths any positive number or rule name",
          "omitted X and Y settings default to the joint setting; the parameters report the settings used")
def kde_params(v):
    E = loader.load(KD).KDEMutualInformationEstimator
    for kxy, kx, ky in _kde_cases():
        for bxy in (None, pos("bxy"), "silverman"):
            for bx in (None, pos("bx"), "scott"):
                for by in (None, pos("by"), "silverman"):
                    kw, ker, bw = _kde_args(kxy, kx, ky, bxy, bx, by)
                    for p in v.explore(lambda: E(**kw).parameters()):
                        if v.returns("accepts", p):
                            q = p.result
                            v.prove_eq("kernels", (q.kernel_xy, q.kernel_x, q.kernel_y), ker, p)
                            v.prove_eq("bandwidths", (q.bandwidth_xy, q.bandwidth_x, q.bandwidth_y), bw, p)
                            v.check("standardised by default", q.standardize is True, repr(q.standardize), p)


@contract("C13", f"{KD}:KDEMutualInformationEstimator.estimate_entropies, .estimate",
          "x of shape (n, dx), y of shape (n, dy); every pattern of given and omitted kernels and bandwidths",
          "entropies are minus the mean log-density of the points under the estimator configured for and fitted to that variable; "
          "mutual_information = h(X) + h(Y) - h(X, Y), also returned by estimate; the arguments are unchanged")
def kde_estimate(v):
    E = loader.load(KD).KDEMutualInformationEstimator
    for kxy, kx, ky in _kde_cases():
        for kw0, std in (STD if kx is None and ky is None else STD[1:]):
            n, dx, dy, x, y = data()
            pat = (pos("bxy"), pos("bx") if kx is None else None, pos("by") if ky is not None else None) if kxy else (None, None, pos("by"))
            kw, ker, bw = _kde_args(kxy, kx, ky, *pat)
            kw.update(kw0)

            def run():
                e = E(**kw)
                return e.estimate_entropies(x, y), E(**kw).estimate(x, y), e.parameters()
            for p in v.explore(run):
                unchanged_data(v, x, y, p)
                if not v.returns("accepts every data set", p):
                    continue
                r, mi, par = p.result
                X, Y, XY = spec_arrays(n, dx, dy, std)
                hxy, hx, hy = (kde_entropy(k, b, D) for k, b, D in zip(ker, bw, (XY, X, Y)))
                v.prove_eq("entropy of X", r.entropy_x, hx, p)
                v.prove_eq("entropy of Y", r.entropy_y, hy, p)
                v.prove_eq("joint entropy", r.entropy_xy, hxy, p)
                v.prove_eq("mutual information", r.mutual_information, sub(add(hx, hy), hxy), p)
                v.prove_eq("estimate", mi, sub(add(hx, hy), hxy), p)
                v.check("reported standardisation", par.standardize is std, repr(par.standardize), p)


# ------------------------------------------------------------------ CCA
@contract("C13", f"{CO}:mi_gauss", "any correlation in (-1, 1)", "-1/2 log(1 - r^2)")
def mi_gauss(v):
    f = loader.load(CO).mi_gauss
    r = real("r")
    for p in v.explore(lambda: f(r), [and_(lt(num(-1), r.t), lt(r.t, ONE))]):
        if v.returns("accepts", p):
            v.prove_eq("value", p.result, mul(num(-1) if False else div(num(-1), num(2)), app("log", sub(ONE, powr(r.t, 2)))), p)


def pearson(n, f, g):
    def S(h):
        k = fresh("k")
        return sum_(k, ZERO, n, h(k))
    mf, mg = div(S(f), n), div(S(g), n)
    c = S(lambda k: mul(sub(f(k), mf), sub(g(k), mg)))
    return div(c, mul(app("sqrt", S(lambda k: powr(sub(f(k), mf), 2))), app("sqrt", S(lambda k: powr(sub(g(k), mg), 2)))))


@contract("C13", f"{CO}:corr", "two samples of the same length n", "the Pearson correlation of x and y")
def corr(v):
    f = loader.load(CO).corr
    n = posint("n")
    a, b = array("a", n), array("b", n)
    for p in v.explore(lambda: f(a, b)):
        if v.returns("accepts", p):
            v.prove_eq("value", p.result, pearson(n.t, lambda k: app("a", k), lambda k: app("b", k)), p)


@contract("C13", f"{CO}:CCAMutualInformationEstimator.estimate",
          "x of shape (n, dx), y of shape (n, dy), any dimensions, scale given or not",
          "sum over the min(dx, dy) canonical pairs of -1/2 log(1 - r^2), r the correlation of the pair; the arguments are unchanged")
def cca(v):
    E = loader.load(CO).CCAMutualInformationEstimator
    C = loader.SHIMS["sklearn.cross_decomposition"].CCA
    for kw in ({}, {"scale": True}, {"scale": False}):
        n, dx, dy, x, y = data()
        for p in v.explore(lambda: E(**kw).estimate(x, y)):
            unchanged_data(v, x, y, p)
            if not v.returns("accepts every data set", p):
                continue
            m = ite(le(dx.t, dy.t), dx.t, dy.t)
            for c, small in ((p.ctx.plus(le(dx.t, dy.t)), dx), (p.ctx.plus(lt(dy.t, dx.t)), dy)):
                if not c.feasible():
                    continue
                a = C(n_components=small, scale=kw.get("scale", True))
                a.fitted = (x.term(), y.term(), seq.vterm(a.scale), small.t)
                u, w = a._proj(x, "x"), a._proj(y, "y")
                k = fresh("k")
                r = pearson(n.t, lambda i: u.get((i, k)), lambda i: w.get((i, k)))
                v.prove_eq("sum over the canonical pairs", p.result, sum_(k, ZERO, small.t, mul(div(num(-1), num(2)), app("log", sub(ONE, powr(r, 2))))), c)


@contract("C13", f"{H}:HistogramEstimator, {KD}:KDEMutualInformationEstimator, {CO}:CCAMutualInformationEstimator, bmi.estimators.function_wrapper:FunctionalEstimator",
          "an instance already used with any other data", "the estimate is that of a new instance")
def reuse(v):
    n, dx, dy, x, y = data()
    n2, dx2, dy2 = posint("n2"), posint("dx2"), posint("dy2")
    bx = posint("bx")
    f = lambda a, b: SV(app("user", asarr(a).term(), asarr(b).term()))
    makers = {
        "histogram": lambda: loader.load(H).HistogramEstimator(n_bins_x=bx, standardize=False),
        "kernel density": lambda: loader.load(KD).KDEMutualInformationEstimator(standardize=False),
        "CCA": lambda: loader.load(CO).CCAMutualInformationEstimator(),
        "function": lambda: loader.load("bmi.estimators.function_wrapper").FunctionalEstimator(f),
    }
    for nm, make in makers.items():
        history(v, nm, make, (array("x2", n2, dx2), array("y2", n2, dy2)), (x, y))
        history(v, nm + ", as many points", make, (array("x2", n, dx), array("y2", n, dy)), (x, y))
