"""C02: Student-t ground-truth mutual information and covariance are exact."""
from ..vc import contract
from .lib import *  # noqa: F401,F403
from .c01 import gauss_mi, gaussian, rejects_dispersions

M = "bmi.samplers._split_student_t"
PI = app("pi")
HALF = num("1/2")


def entropy(k, df):
    """differential entropy of the standard k-dimensional Student-t with df degrees of freedom"""
    a, b = div(add(df, k), num(2)), div(df, num(2))
    return add(sub(app("gammaln", b), app("gammaln", a)), mul(div(k, num(2)), app("log", mul(df, PI))),
               mul(a, sub(app("digamma", a), app("digamma", b))))


def correction(dx, dy, df):
    return sub(add(entropy(dx, df), entropy(dy, df)), entropy(add(dx, dy), df))


def finite(v, label, t, p):
    """every logarithm, gamma and digamma function in the value has a positive argument"""
    seen = set()
    for q in tm.subterms(t_(t)):
        if q.op == "app" and q.a[0] in ("log", "gammaln", "digamma") and q not in seen and tm.var("β", "I") not in q.fv:
            seen.add(q)
            v.prove(f"{label}: {q.a[0]} of a positive number", lt(ZERO, q.a[1]), p)


@contract("C02", f"{M}:SplitStudentT.mutual_information", "any positive dimensions, symmetric dispersion, mean (or none), real degrees of freedom or infinity",
          "rejected iff the dispersion is not positive-definite or df <= 0; otherwise the Gaussian value of the dispersion plus "
          "h(dx) + h(dy) - h(dx+dy); 0 correction for df = infinity; arguments unchanged")
def student(v):
    S = loader.load(M).SplitStudentT
    for with_mean in (True, False):
        for inf in (False, True):
            dx, dy, n, disp, mean, pd, lin = gaussian(v, with_mean)
            df = SV(tm.PINF) if inf else real("df")
            kw = dict(mean=mean) if with_mean else {}

            def run():
                s = S(dim_x=dx, dim_y=dy, dispersion=disp, df=df, **kw)
                return s.mutual_information(), s.mi_normal(), s.mi_correction(), s.dim_x, s.dim_y, s.df
            for p in v.explore(run, lin):
                i, j = fresh("i"), fresh("j")
                v.prove_eq("dispersion unchanged", disp.get((i, j)), add(app("s", i, j), app("s", j, i)), p)
                unchanged(v, "mean unchanged", mean, "m", p)
                if not rejects_iff(v, pd if inf else and_(pd, lt(ZERO, df.t)), p):
                    continue
                mi, normal, corr, a, b, d = p.result
                g, c = gauss_mi(disp, dx.t, dy.t), ZERO if inf else correction(dx.t, dy.t, df.t)
                v.prove_eq("Gaussian part", normal, g, p)
                v.prove_eq("correction", corr, c, p)
                v.prove_eq("mutual information", mi, add(g, c), p)
                v.prove_eq("dimensions", (a, b), (dx, dy), p)
                v.check("degrees of freedom", d is df or not inf and solve.prove_eq(t_(d), df.t, p.ctx), str(d), p)
                finite(v, "finite", corr, p)


@contract("C02", f"{M}:SplitStudentT.mi_correction_function", "any positive dimensions and degrees of freedom (or infinity)",
          "h(dx) + h(dy) - h(dx+dy), symmetric in the two variables, 0 for infinity")
def correction_function(v):
    S = loader.load(M).SplitStudentT
    dx, dy, df = posint("dx"), posint("dy"), pos("df")
    for p in v.explore(lambda: (S.mi_correction_function(df=df, dim_x=dx, dim_y=dy), S.mi_correction_function(df=df, dim_x=dy, dim_y=dx))):
        if v.returns("defined", p):
            v.prove_eq("formula", p.result[0], correction(dx.t, dy.t, df.t), p)
            v.prove_eq("symmetric", p.result[0], p.result[1], p)
            finite(v, "finite", p.result[0], p)
    for p in v.explore(lambda: S.mi_correction_function(df=SV(tm.PINF), dim_x=dx, dim_y=dy)):
        if v.returns("defined for infinity", p):
            v.prove_eq("Gaussian limit", p.result, ZERO, p)


@contract("C02", f"{M}:SplitStudentT.covariance", "any accepted parameters", "df/(df-2) times the dispersion if df > 2, refused if df <= 2; the dispersion for infinity")
def covariance(v):
    S = loader.load(M).SplitStudentT
    for inf in (False, True):
        dx, dy, n, disp, mean, pd, lin = gaussian(v, False)
        df = SV(tm.PINF) if inf else pos("df")

        def run():
            s = S(dim_x=dx, dim_y=dy, dispersion=disp, df=df)
            return s.covariance(), s.covariance()
        for p in v.explore(run, lin + [pd]):
            want = lambda i, j: disp.get((i, j)) if inf else div(mul(df.t, disp.get((i, j))), sub(df.t, num(2)))
            if inf:
                if not v.returns("defined for infinity", p):
                    continue
            elif not rejects_iff(v, lt(num(2), df.t), p, what=" (df <= 2)"):
                continue
            for r in p.result:
                prove_array(v, "covariance", p, r, (n, n), want)


@contract("C02", f"{M}:SplitStudentT.__init__", "any integer dimensions, mean and dispersion of any shapes and entries, df > 0",
          "accepted only if the dimensions are positive, the shapes match, the dispersion is symmetric up to rounding and its eigenvalues are positive")
def student_rejects(v):
    rejects_dispersions(v, lambda cov, **k: loader.load(M).SplitStudentT(dispersion=cov, df=pos("df"), **k))


@contract("C02", "bmi.samplers._split_student_t:SplitStudentT.sample", "any accepted parameters, any size and seed", "the samples follow the law whose information is reported")
def student_law(v):
    from . import c05
    c05.law(v, c05.student)
