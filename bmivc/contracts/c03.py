"""C03: closed-form mutual information of the non-Gaussian primitive samplers."""
from ..vc import contract
from .lib import *  # noqa: F401,F403

A = "bmi.samplers._additive_uniform"
D = "bmi.samplers._discrete_continuous"
LOG2 = app("log", num(2))


def uniform_mi(e):
    return ite(lt(num("1/2"), e), div(ONE, mul(num(4), e)), sub(e, app("log", mul(num(2), e))))


def mixture_mi(m):
    return sub(app("log", m), mul(div(sub(m, ONE), m), LOG2))


def drawn_dimensions(v, s, p, label="draws"):
    """the declared dimensions are those of the samples"""
    n = posint("pts")
    for q in v.explore(lambda: s.sample(n, wrap(var("seed", "I"))), p.ctx.facts):
        if v.returns(f"{label} are possible", q):
            for nm, r, d in zip("xy", q.result, (s.dim_x, s.dim_y)):
                r = asarr(r)
                v.check(f"{label}: {nm} is a matrix", r.ndim == 2, str(r.ndim), q)
                if r.ndim == 2:
                    v.prove_eq(f"{label}: shape of {nm}", r.dims, (n.t, t_(d)), q)


@contract("C03", f"{A}:AdditiveUniformSampler", "any real epsilon",
          "rejected iff eps <= 0; otherwise 1/(4 eps) for eps > 1/2 and eps - log(2 eps) otherwise; dimensions 1 and 1, those of the draws")
def additive_uniform(v):
    S = loader.load(A).AdditiveUniformSampler
    e = real("eps")

    def run():
        s = S(e)
        return s, s.mutual_information(), s.mutual_information_function(e), S(epsilon=e).mutual_information(), s.dim_x, s.dim_y
    for p in v.explore(run):
        if rejects_iff(v, lt(ZERO, e.t), p):
            s, a, b, c, dx, dy = p.result
            for r in (a, b, c):
                v.prove_eq("value", r, uniform_mi(e.t), p)
            v.prove_eq("dimensions", (dx, dy), (ONE, ONE), p)
            drawn_dimensions(v, s, p)


@contract("C03", f"{D}:DiscreteUniformMixtureSampler", "any integer number of values, X discrete or not",
          "rejected iff m <= 0; otherwise log m - (m-1)/m log 2; dimensions 1 and 1, those of the draws")
def discrete_mixture(v):
    S = loader.load(D).DiscreteUniformMixtureSampler
    for disc in (None, True, False):
        m = integer("m")
        kw = {} if disc is None else dict(use_discrete_x=disc)

        def run():
            s = S(n_discrete=m, **kw)
            return s, s.mutual_information(), s.dim_x, s.dim_y
        for p in v.explore(run):
            if rejects_iff(v, lt(ZERO, m.t), p):
                s, mi, dx, dy = p.result
                v.prove_eq("value", mi, mixture_mi(m.t), p)
                v.prove_eq("dimensions", (dx, dy), (ONE, ONE), p)
                drawn_dimensions(v, s, p)
    for p in v.explore(lambda: S().mutual_information()):
        if v.returns("default", p):
            v.prove_eq("default has five values", p.result, mixture_mi(num(5)), p)


@contract("C03", f"{D}:MultivariateDiscreteUniformMixtureSampler", "any sequence of numbers of values",
          "the sum over components of log m_k - (m_k-1)/m_k log 2; dimensions: the number of components; "
          "rejected iff empty or some m_k <= 0")
def multivariate_mixture(v):
    S = loader.load(D).MultivariateDiscreteUniformMixtureSampler
    c, k = posint("c"), fresh("k")
    at = lambda i: app("m", i, sort="I")
    for disc in (None, False):
        kw = {} if disc is None else dict(use_discrete_x=disc)
        ns = seq.VList.from_segs([("seg", c.t, lambda i: wrap(at(i)))])

        def run():
            s = S(ns_discrete=ns, **kw)
            return s, s.mutual_information(), s.dim_x, s.dim_y
        for p in v.explore(run, [forall(k, ZERO, c.t, le(ONE, at(k)))]):
            if v.returns("accepted", p):
                s, mi, dx, dy = p.result
                v.prove_eq("value", mi, sum_(k, ZERO, c.t, mixture_mi(at(k))), p)
                v.prove_eq("dimensions", (dx, dy), (c, c), p)
    for n in (0, 1, 2, 3):
        ms = [integer(f"m{i}") for i in range(n)]

        def run():
            s = S(ns_discrete=tuple(ms))
            return s.mutual_information(), s.dim_x, s.dim_y
        for p in v.explore(run):
            if rejects_iff(v, and_(*[lt(ZERO, m.t) for m in ms]) if n else FALSE, p):
                v.prove_eq("value", p.result[0], add(*[mixture_mi(m.t) for m in ms]), p)
                v.prove_eq("dimensions", p.result[1:], (num(n), num(n)), p)


@contract("C03", f"{D}:ZeroInflatedPoissonizationSampler", "any real p, any truncation, Y discrete or not",
          "rejected iff p < 0 or p >= 1; (1-p) 0.3012 without truncation, (1-p)(2 log 2 - gamma - sum_{k<=t} 2^-k log k) with it; "
          "non-positive truncations are refused; dimensions 1 and 1, those of the draws")
def zero_inflated(v):
    S = loader.load(D).ZeroInflatedPoissonizationSampler
    pr, k = real("p"), fresh("k")
    for disc in (None, False):
        kw = {} if disc is None else dict(use_discrete_y=disc)

        def run():
            s = S(pr, **kw)
            return s, s.mutual_information(), s.mutual_information(None), s.dim_x, s.dim_y
        for p in v.explore(run):
            if rejects_iff(v, and_(le(ZERO, pr.t), lt(pr.t, ONE)), p):
                s, mi, mi2, dx, dy = p.result
                for r in (mi, mi2):
                    v.prove_eq("value without truncation", r, mul(sub(ONE, pr.t), num(tm.Fr("0.3012"))), p)
                v.prove_eq("dimensions", (dx, dy), (ONE, ONE), p)
                drawn_dimensions(v, s, p)
    t = integer("t")
    ok = and_(le(ZERO, pr.t), lt(pr.t, ONE))
    s_ = sum_(k, ZERO, t.t, mul(app("log", add(k, ONE)), app("exp", mul(neg(add(k, ONE)), LOG2))))
    for p in v.explore(lambda: S(p=pr).mutual_information(truncation=t), [ok]):
        if rejects_iff(v, lt(ZERO, t.t), p, exc=(), what=" (truncation)"):
            v.prove_eq("value with truncation", p.result, mul(sub(ONE, pr.t), sub(sub(mul(num(2), LOG2), app("euler_gamma")), s_)), p)
    for p in v.explore(lambda: S().mutual_information()):
        if v.returns("default", p):
            v.prove_eq("default p is 0.15", p.result, mul(num(tm.Fr("0.85")), num(tm.Fr("0.3012"))), p)


@contract("C03", "bmi.samplers._additive_uniform:AdditiveUniformSampler.sample", "any eps > 0, any size and seed", "the samples follow the law whose information is reported")
def additive_uniform_law(v):
    from . import c05
    c05.law(v, c05.additive_uniform)


@contract("C03", "bmi.samplers._discrete_continuous:DiscreteUniformMixtureSampler.sample", "any m > 0, any size and seed", "the samples follow the law whose information is reported")
def discrete_mixture_law(v):
    from . import c05
    c05.law(v, c05.discrete_mixture)


@contract("C03", "bmi.samplers._discrete_continuous:MultivariateDiscreteUniformMixtureSampler.sample", "sequences of 1 to 3 arbitrary m_k > 0", "the samples follow the law whose information is reported")
def multivariate_mixture_law(v):
    from . import c05
    c05.law(v, c05.multivariate_mixture)


@contract("C03", "bmi.samplers._discrete_continuous:ZeroInflatedPoissonizationSampler.sample", "any p in [0, 1), any size and seed", "the samples follow the law whose information is reported")
def zero_inflated_law(v):
    from . import c05
    c05.law(v, c05.zero_inflated)
