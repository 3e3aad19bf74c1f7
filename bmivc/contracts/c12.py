"""C12: KSG estimators compute the Kraskov formula for every dataset and chunking."""
from ..vc import contract
from .lib import *  # noqa: F401,F403
from ..shims import misc

K = "bmi.estimators.ksg"
METRICS = [("euclidean", None), ("manhattan", "chebyshev"), ("chebyshev", "euclidean")]


def inputs():
    n, dx, dy = posint("n"), posint("dx"), posint("dy")
    return n, dx, dy, array("x", n, dx), array("y", n, dy)


def dist(metric, name, n, d, std):
    """distance of points i and j of the (standardised) data"""
    f = lambda i, j: app(("s" if std else "r") + name, i, j)

    def g(i, j):
        return misc.metric_term(seq.vterm(metric), d.t, lambda k: f(i, k), lambda k: f(j, k))
    return g


def by_position(t):
    """order statistics expressed through the sorting permutation"""
    def f(x):
        if x.op == "app" and x.a[0] == "sorted" and x.a[1].op == "arr":
            return tm.beta(x.a[1].a[1], app("argsort", x.a[1], x.a[2], sort="I"))
    return tm.replace(seq.vterm(t), f)


def counts(dx, dy, n, k):
    """i -> psi(n_x + 1) + psi(n_y + 1) for neighbourhood k"""
    def at(i):
        q = fresh("k")
        eps = app("sorted", tm.arr(n, q, app("max", dx(i, q), dy(i, q))), k)
        out = ZERO
        for d in (dx, dy):
            j = fresh("k")
            c = sum_(j, ZERO, n, ite(lt(d(i, j), eps), ONE, ZERO))
            out = add(out, app("digamma", add(app("max", sub(c, ONE), ZERO), ONE)))
        return out
    return at


def estimate_of(n, f, k):
    i = fresh("k")
    e = sub(add(app("digamma", k), app("digamma", n)), div(sum_(i, ZERO, n, f(i)), n))
    return app("max", e, ZERO)


def mean_distinct(ks, est, ctx):
    """mean over the distinct values among ks; the context decides which are equal"""
    ds = []
    for k in ks:
        eqs = [ctx.decide(eq(k, d)) for d in ds]
        if True in eqs:
            continue
        if None in eqs:
            raise Unsupported("equality of neighbourhoods undecided")
        ds.append(k)
    return div(add(*[est(k) for k in ds]), num(len(ds))), ds


def splits(ks):
    """the assumptions deciding which neighbourhoods are equal"""
    if len(ks) == 1:
        return [[]]
    a, b = ks[0], ks[1]
    two = [[eq(a, b)], [lt(a, b)], [lt(b, a)]]
    if len(ks) == 2:
        return two
    c = ks[2]
    return [[eq(a, b), lt(b, c)], [lt(a, b), eq(a, c)], [lt(a, b), eq(b, c)], [lt(a, b), lt(b, c)], [lt(c, b), lt(b, a)], [eq(a, b), eq(b, c)]]


def _run(v, cls, m, extra, std, metrics):
    stub_space()
    E = getattr(loader.load(K), cls)
    n, dx, dy, x, y = inputs()
    ks = [integer(f"k{i}") for i in range(m)]
    mx, my = metrics
    kw = dict(neighborhoods=ks, standardize=std, metric_x=mx, metric_y=my, **extra)
    valid = and_(*[le(ONE, k.t) for k in ks], *[lt(k.t, n.t) for k in ks])

    def run():
        e = E(**kw)
        r = e.estimate(x, y)
        return r, e.get_predictions(), e.parameters()
    for sp in splits([k.t for k in ks]):
        for p in v.explore(run, sp):
            unchanged(v, "caller's x unchanged", x, "x", p)
            unchanged(v, "caller's y unchanged", y, "y", p)
            if not rejects_iff(v, valid, p):
                continue
            r, pred, par = p.result
            for s in p.ghost.get("spaces", []):
                same_data(v, "points", s, p.ctx)
            f = lambda k: counts(dist(mx, "x", n, dx, std), dist(my or mx, "y", n, dy, std), n.t, k)
            est = lambda k: estimate_of(n.t, f(k), k)
            want, ds = mean_distinct([k.t for k in ks], est, p.ctx)
            v.prove_eq("mean over the distinct neighbourhoods of the Kraskov estimates", by_position(r), by_position(want), p)
            v.check("one prediction per neighbourhood", len(pred) == len(ds), str(len(pred)), p)
            for k in ds:
                g = [q for kk, q in pred.items() if t_(kk) is k or p.ctx.decide(eq(t_(kk), k)) is True]
                v.check("every neighbourhood has a prediction", len(g) == 1, "", p)
                if g:
                    v.prove_eq("prediction", by_position(g[0]), by_position(est(k)), p)
            v.check("reported metrics and standardisation", (par.metric_x, par.metric_y, par.standardize) == (mx, my or mx, std), repr(par)[:200], p)


def _mk(cls, short, m, extra, text):
    @contract("C12", f"{K}:{cls}", f"{m} neighbourhood(s), any integers (orders and repetitions included), any data of n points, any dimensions{text}",
              "ValueError iff a neighbourhood is not positive or not less than the number of points; otherwise the mean over the distinct k of "
              "max(0, psi(k) + psi(n) - mean_i [psi(n_x + 1) + psi(n_y + 1)]), n_x, n_y the numbers of other points strictly closer than the k-th neighbour")
    def c(v):
        for q, metrics in enumerate(METRICS):
            for std in (True, False):
                if m == 1 or (q, std) in ((0, True), (1, False)) and m == 2 or (q, std) == (1, False):
                    _run(v, cls, m, extra(), std, metrics)
    c.__name__ = f"{short}_{m}"
    from .. import vc
    vc.CONTRACTS[-1]["name"] = c.__name__


for _m in (1, 2, 3):
    _mk("KSGEnsembleFirstEstimator", "fast", _m, lambda: dict(chunk_size=posint("c"), n_jobs=integer("jobs")), ", any chunk size")
    _mk("KSGEnsembleFirstEstimatorSlow", "reference", _m, lambda: dict(n_jobs=integer("jobs")), "")


@contract("C12", "contract lemma over fast_1, reference_1", "any number of points, any distances d(i, .) with d(i, i) = 0 <= d(i, j), any distance eps >= 0 to the k-th neighbour",
          "max(0, #{j : d(i, j) < eps} - 1), the count of the estimators' contracts, is the number of OTHER points strictly closer than eps; so every digamma argument is at least 1")
def counted(v):
    n, i = posint("n"), nat("i")
    eps = real("eps")
    d = array("d", n)
    j = fresh("j")
    at = lambda k: d.get((k,))
    facts = [lt(i.t, n.t), eq(at(i.t), ZERO), le(ZERO, eps.t), tm.forall(j, ZERO, n.t, le(ZERO, at(j)))]
    ind = lambda k: ite(lt(at(k), eps.t), ONE, ZERO)
    allc = sum_(j, ZERO, n.t, ind(j))
    others = add(sum_(j, ZERO, i.t, ind(j)), sum_(j, add(i.t, ONE), n.t, ind(j)))
    c = sv_ctx(*facts)
    v.prove_eq("every count splits at the point itself", allc, add(others, ind(i.t)), c)
    v.prove("number of others is not negative", le(ZERO, others), c)
    for nm, f in (("positive distance", lt(ZERO, eps.t)), ("zero distance", eq(eps.t, ZERO))):
        v.prove_eq(f"count of the other points, {nm}", app("max", sub(add(others, ind(i.t)), ONE), ZERO), others, c.plus(f))


@contract("C12", f"{K}:KSGEnsembleFirstEstimator, {K}:KSGEnsembleFirstEstimatorSlow", "an empty list of neighbourhoods; samples of any different lengths; estimators not fitted yet; the default metric of Y",
          "rejected with ValueError; EstimatorNotFittedException; the metric of X")
def rejections(v):
    stub_space()
    mod = loader.load(K)
    for cls in ("KSGEnsembleFirstEstimator", "KSGEnsembleFirstEstimatorSlow"):
        E = getattr(mod, cls)
        for p in v.explore(lambda: E(neighborhoods=[])):
            v.check(f"{cls}: empty list rejected", isinstance(p.exc, ValueError), repr(p.exc), p)
        k = integer("k")
        for p in v.explore(lambda: E(neighborhoods=[posint("k1"), k, posint("k2")])):
            rejects_iff(v, le(ONE, k.t), p, what=f" ({cls}, at construction)")
        n, m, dx, dy = posint("n"), posint("m"), posint("dx"), posint("dy")
        x, y = array("x", n, dx), array("y", m, dy)
        for p in v.explore(lambda: E(neighborhoods=[posint("k")]).estimate(x, y), [not_(eq(n.t, m.t))]):
            v.check(f"{cls}: unequal lengths rejected", isinstance(p.exc, ValueError), repr(p.exc), p)
        for p in v.explore(lambda: E(neighborhoods=[posint("k")]).get_predictions()):
            v.check(f"{cls}: no predictions before fitting", type(p.exc).__name__ == "EstimatorNotFittedException", repr(p.exc), p)
        for p in v.explore(lambda: E()):
            v.check(f"{cls}: defaults", p.exc is None and p.result.parameters().neighborhoods == [5, 10] and p.result.parameters().standardize is True
                    and p.result.parameters().metric_x == p.result.parameters().metric_y == "euclidean", repr(p.exc), p)


@contract("C12", f"{K}:KSGEnsembleFirstEstimator, {K}:KSGEnsembleFirstEstimatorSlow", "an instance already used with any other data (rejected or not)",
          "estimate and predictions (or the rejection) are those of a new instance")
def reuse(v):
    stub_space()
    mod = loader.load(K)
    for cls in ("KSGEnsembleFirstEstimator", "KSGEnsembleFirstEstimatorSlow"):
        E = getattr(mod, cls)
        n2, dx2, dy2 = posint("n2"), posint("dx2"), posint("dy2")
        n, dx, dy, x, y = inputs()
        k = posint("k")
        first = array("x2", n2, dx2), array("y2", n2, dy2)

        def call(e, a):
            r = e.estimate(*a)
            q = e.get_predictions()
            return r, list(q.keys()), list(q.values())
        history(v, cls, lambda: E(neighborhoods=[k]), first, (x, y), call)
        history(v, cls + ", as many points", lambda: E(neighborhoods=[k]), (array("x2", n, dx), array("y2", n, dy)), (x, y), call)
