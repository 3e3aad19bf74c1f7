import numpy as np

from . import ref
from .core import check

ST = "bmi.samplers._split_student_t:"
DFS = [1, 2, 3, 0.5, 1e-2, 5.5, 30, 100, 343, 1000, 1e4, 1e5, 1e6, float("inf")]


@check("C02", 42, 200, [ST + "SplitStudentT.mutual_information", ST + "SplitStudentT.mi_correction", ST + "_differential_entropy"])
def student_value(r):
    S = r.get("bmi.samplers", "SplitStudentT", optional=False)
    df = DFS[r.i % len(DFS)] if r.i % 3 else 10 ** r.real(-2, 5)
    dx, dy = (r.int(1, 5), r.int(1, 5)) if r.i % 7 else (r.int(30, 90), r.int(30, 90))
    disp = ref.rand_corr(r.rng, dx + dy) * 10.0 ** r.choice([0, -6, 6])
    mean = r.rng.normal(size=dx + dy)
    r.note(df=df, dim_x=dx, dim_y=dy, dispersion=disp)
    s = S(dim_x=dx, dim_y=dy, df=df, dispersion=disp, mean=mean)
    h = lambda k: ref.t_entropy(k, df)
    corr = h(dx) + h(dy) - h(dx + dy)
    tol = 1e-6 + 1e-12 * (df if np.isfinite(df) else 0) * (dx + dy)
    r.close(s.mi_correction(), corr, "correction", atol=tol)
    r.close(s.mi_normal(), ref.gauss_mi(disp, dx), "normal part", atol=1e-8)
    got = s.mutual_information()
    r.close(got, ref.gauss_mi(disp, dx) + corr, "Student-t MI", atol=tol)
    r.true(np.isfinite(got), "finite")
    f = S.mi_correction_function
    r.close(f(df=df, dim_x=dx, dim_y=dy), f(df=df, dim_x=dy, dim_y=dx), "symmetric correction", atol=tol)
    r.eq((s.dim_x, s.dim_y), (dx, dy), "dims")
    r.close(s.df if np.isfinite(df) else 0, df if np.isfinite(df) else 0, "df")
    if np.isinf(df):
        r.close(s.mi_correction(), 0, "Gaussian limit", atol=1e-9)


@check("C02", 20, 60, [ST + "SplitStudentT.covariance"])
def student_covariance(r):
    S = r.get("bmi.samplers", "SplitStudentT", optional=False)
    dx, dy = r.int(1, 4), r.int(1, 4)
    disp = ref.rand_corr(r.rng, dx + dy) * r.choice([1.0, 7.0])
    df = r.choice([2.0001, 2.5, 3, 4, 10, 1000, float("inf"), 2 + 10 ** r.real(-2, 2)])
    r.note(df=df, dispersion=disp)
    keep = disp.copy()
    s = S(dim_x=dx, dim_y=dy, df=df, dispersion=disp)
    f = 1.0 if np.isinf(df) else df / (df - 2)
    r.close(s.covariance(), f * keep, "covariance", rtol=1e-9)
    r.close(s.covariance(), f * keep, "covariance, second call", rtol=1e-9)
    r.same(disp, keep, "dispersion unchanged")
    bad = r.choice([2, 2.0, 1, 0.3])
    r.note(df=bad)
    r.raises(lambda: S(dim_x=dx, dim_y=dy, df=bad, dispersion=keep).covariance(), "covariance for df <= 2")


@check("C02", 16, 32, [ST + "SplitStudentT.__init__"])
def student_invalid(r):
    S = r.get("bmi.samplers", "SplitStudentT", optional=False)
    dx, dy = r.int(1, 3), r.int(1, 3)
    n = dx + dy
    d = ref.rand_corr(r.rng, n)
    kw = dict(dim_x=dx, dim_y=dy, df=3, dispersion=d)
    k = r.i % 8
    if k == 0:
        kw["df"] = 0
    elif k == 1:
        kw["df"] = r.choice([-1, -0.5, -1e-9])
    elif k == 2:
        kw["mean"] = np.zeros(n + 1)
    elif k == 3:
        kw["dispersion"] = np.eye(n + 1)
    elif k == 4:
        kw["dispersion"] = -d
    elif k == 5:
        d[0, n - 1] += 0.4
    elif k == 6:
        kw["dim_x"], kw["dim_y"] = 0, n
    elif k == 7:
        m = np.eye(n)
        m[0, 0] = m[1, 1] = -1
        kw["dispersion"] = m
    r.note(**kw)
    r.raises(lambda: S(**kw), f"invalid Student-t parameters (kind {k})")
