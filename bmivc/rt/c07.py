import copy
import os
import tempfile

import numpy as np
import yaml

from . import ref
from .core import check


def _t(r, n):
    try:
        return r.get("bmi.benchmark.tasks", n, optional=False)
    except Exception:
        mod = {"transform_asinh_task": "asinh", "transform_power_task": "power", "task_student_identity": "student"}[n]
        return r.get(f"bmi.benchmark.tasks.{mod}", n, optional=False)


def _lvm_cov(dx, dy, K, alpha, lambd, beta, eta):
    m = ref.lvm_mixing(dx, dy, K, alpha, lambd, 1.0, 1.0, beta, beta, eta, eta)
    return ref.corr_of(m @ m.T)


def _inconsistent(r, t, label):
    r.eq((t.dim_x, t.dim_y), (t.sampler.dim_x, t.sampler.dim_y), f"{label}: dimensions are the sampler's")
    r.close(t.mutual_information, float(t.sampler.mutual_information()), f"{label}: MI is the sampler's", rtol=1e-9)
    md = t.metadata
    r.eq((md.task_id, md.task_name, md.dim_x, md.dim_y), (t.id, t.name, t.dim_x, t.dim_y), f"{label}: metadata")
    r.eq(md.task_params, t.params, f"{label}: metadata parameters")
    r.close(md.mi_true, t.mutual_information, f"{label}: metadata MI", rtol=0, atol=0)
    n, seed = r.choice([3, 11]), r.int(0, 99)
    x, y = t.sample(n, seed)
    a, b = t.sampler.sample(n, seed)
    r.same(x, a, f"{label}: X is the sampler's")
    r.same(y, b, f"{label}: Y is the sampler's")
    r.eq((np.shape(x), np.shape(y)), ((n, t.dim_x), (n, t.dim_y)), f"{label}: sample shapes")


@check("C07", 36, 120, ["bmi.benchmark.tasks.*:task_*"])
def factories(r):
    kinds = ["additive", "binormal", "bimodal", "lvm", "dense", "sparse", "2pair", "identity", "sdense", "ssparse", "s2pair",
             "lvm_default"]
    k = kinds[r.i % len(kinds)]
    dx, dy = r.int(2, 5), r.int(2, 5)
    r.note(kind=k, dim_x=dx, dim_y=dy)
    name = None
    if k == "additive":
        e = r.choice([0.1, 0.75, 1.5])
        t = _t(r, "task_additive_noise")(epsilon=e)
        exp = (f"1v1-additive-{e}", f"Uniform 1 × 1 (additive noise={e})", {"epsilon": e}, 1 / (4 * e) if e > 0.5 else e - np.log(2 * e), 1, 1)
    elif k in ("binormal", "bimodal"):
        q = r.choice([0.75, -0.5, 0.1])
        t = _t(r, "task_bivariate_normal" if k == "binormal" else "task_bimodal_gaussians")(gaussian_correlation=q)
        exp = (f"1v1-{'normal' if k == 'binormal' else 'bimodal'}-{q}", "Bivariate normal 1 × 1" if k == "binormal" else "Bimodal 1 × 1",
               {"gaussian_correlation": q}, -0.5 * np.log1p(-q * q), 1, 1)
        if k == "bimodal":
            from scipy.optimize import brentq
            from scipy.stats import norm

            b = _t(r, "task_bivariate_normal")(gaussian_correlation=q)
            bx, by = (np.asarray(v, float)[:, 0] for v in b.sample(6, 4))
            x, y = (np.asarray(v, float)[:, 0] for v in t.sample(6, 4))
            fx = lambda v: 0.3 * norm.cdf(v) + 0.7 * norm.cdf(v - 5)
            fy = lambda v: 0.5 * norm.cdf(v + 1) + 0.5 * norm.cdf(v - 3)
            r.close(fx(x), norm.cdf(bx), "X has the documented CDF", atol=1e-4)
            r.close(fy(y), norm.cdf(by), "Y has the documented CDF", atol=1e-4)
    elif k in ("lvm", "lvm_default"):
        K = r.int(0, min(dx, dy))
        al, la, be = r.real(0, 1), r.real(0.5, 2), r.choice([0.0, 0.4])
        eta = None if k == "lvm_default" else r.real(0, 2)
        name = r.choice([None, "My name"])
        t = _t(r, "task_multinormal_lvm")(dx, dy, n_interacting=K, alpha=al, lambd=la, beta=be, eta=eta, task_name=name)
        h = la if eta is None else eta
        cov = _lvm_cov(dx, dy, K, al, la, be, h)
        exp = (f"multinormal-lvm-{dx}-{dy}-{K}-{al:.5f}-{la:.5f}-{be:.5f}-{h:.5f}", name or f"Multinormal {dx} × {dy} (LVM)",
               dict(dim_x=dx, dim_y=dy, n_interacting=K, alpha=al, lambd=la, epsilon_x=1.0, epsilon_y=1.0, beta_x=be, beta_y=be, eta_x=h, eta_y=h),
               ref.gauss_mi(cov, dx), dx, dy)
    elif k in ("dense", "sdense"):
        o = r.choice([0.5, 0.2, 0.9])
        cov = np.eye(dx + dy) * (1 - o) + o
        if k == "dense":
            t = _t(r, "task_multinormal_dense")(dx, dy, off_diag=o)
            exp = (f"multinormal-dense-{dx}-{dy}-{o}", f"Multinormal {dx} × {dy} (dense)", {"off_diag": o, "covariance": cov.tolist()}, ref.gauss_mi(cov, dx), dx, dy)
        else:
            df = r.choice([1, 3, 7])
            t = _t(r, "task_student_dense")(dx, dy, df, off_diag=o)
            h = lambda q: ref.t_entropy(q, df)
            exp = (f"student-dense-{dx}-{dy}-{df}-{o}", f"Student-t {dx} × {dy} (dof={df}, dense)", {"dof": df, "off_diag": o, "dispersion": cov.tolist()},
                   ref.gauss_mi(cov, dx) + h(dx) + h(dy) - h(dx + dy), dx, dy)
    elif k in ("sparse", "2pair", "ssparse", "s2pair"):
        K = 2 if "2pair" in k else r.int(1, min(dx, dy))
        st = r.choice([2.0, 0.8])
        cov = _lvm_cov(dx, dy, K, 0.0, st, 0.0, st)
        kw = dict(strength=st) if "2pair" in k else dict(strength=st, n_interacting=K)
        par = {"n_interacting": K, "strength": st}
        if not k.startswith("s2") and not k.startswith("ss"):
            t = _t(r, "task_multinormal_sparse" if k == "sparse" else "task_multinormal_2pair")(dx, dy, **kw)
            exp = (f"multinormal-sparse-{dx}-{dy}-{K}-{st}", f"Multinormal {dx} × {dy} ({'sparse' if k == 'sparse' else '2-pair'})", par, ref.gauss_mi(cov, dx), dx, dy)
        else:
            df = r.choice([1, 2, 5])
            t = _t(r, "task_student_sparse" if k == "ssparse" else "task_student_2pair")(dx, dy, df, **kw)
            h = lambda q: ref.t_entropy(q, df)
            exp = (f"student-sparse-{dx}-{dy}-{df}-{K}-{st}", f"Student-t {dx} × {dy} (dof={df}, {'sparse' if k == 'ssparse' else '2-pair'})",
                   dict(par, dof=df), ref.gauss_mi(cov, dx) + h(dx) + h(dy) - h(dx + dy), dx, dy)
    elif k == "identity":
        df = r.choice([1, 2, 5])
        t = _t(r, "task_student_identity")(dx, dy, df)
        h = lambda q: ref.t_entropy(q, df)
        exp = (f"student-identity-{dx}-{dy}-{df}", f"Student-t {dx} × {dy} (dof={df})", {"dof": df}, h(dx) + h(dy) - h(dx + dy), dx, dy)
    r.eq(t.id, exp[0], "identifier")
    r.eq(t.name, exp[1], "name")
    r.eq(t.params, exp[2], "parameters")
    r.close(t.mutual_information, exp[3], "mutual information", rtol=2e-6, atol=2e-6)
    r.eq((t.dim_x, t.dim_y), exp[4:], "dims")
    _inconsistent(r, t, k)


@check("C07", 12, 36, ["bmi.benchmark.tasks.mixtures:*"])
def mixtures(r):
    k = ["x", "ai", "galaxy", "waves", "concentric", "inliers"][r.i % 6]
    n = 300
    r.note(kind=k)
    if k == "x":
        q = r.choice([0.9, 0.4])
        t = _t(r, "task_x")(gaussian_correlation=q, mi_estimate_sample=n)
        exp = (f"1v1-X-{q}", "X 1 × 1", {"gaussian_correlation": q}, 1, 1)
    elif k == "ai":
        t = _t(r, "task_ai")(mi_estimate_sample=n)
        exp = ("1v1-AI", "AI 1 × 1", {}, 1, 1)
    elif k == "galaxy":
        s, d = r.choice([0.5, 0.2]), r.choice([3.0, 2.0])
        t = _t(r, "task_galaxy")(speed=s, distance=d, mi_estimate_sample=n)
        exp = (f"2v1-galaxy-{s}-{d}", "Galaxy 2 × 1", {"speed": s, "distance": d}, 2, 1)
    elif k == "waves":
        c, a, f = r.choice([12, 3]), r.choice([5.0, 2.0]), r.choice([3.0, 1.0])
        t = _t(r, "task_waves")(n_components=c, wave_amplitude=a, wave_frequency=f, mi_estimate_sample=n)
        exp = (f"2v1-waves-{c}-{a}-{f}", "Waves 2 × 1", {"n_components": c, "wave_amplitude": a, "wave_frequency": f}, 2, 1)
    elif k == "concentric":
        d, c = r.int(1, 4), r.choice([3, 2, 5])
        t = _t(r, "task_concentric_multinormal")(d, n_components=c, mi_estimate_sample=n)
        exp = (f"{d}v1-concentric_gaussians-{c}", f"Concentric {d} × 1", {"n_components": c}, d, 1)
    else:
        dx, dy = r.int(2, 4), r.int(2, 4)
        K, st, fr = r.int(1, 2), r.choice([2.0, 1.0]), r.choice([0.2, 0.5])
        t = _t(r, "task_multinormal_sparse_w_inliers")(dx, dy, n_interacting=K, strength=st, inlier_fraction=fr, mi_estimate_sample=n)
        exp = (f"mult-sparse-w-inliers-{dx}-{dy}-{K}-{st}-{fr}", f"Multinormal {dx} × {dy} (sparse, {fr:.0%} inliers)",
               {"n_interacting": K, "strength": st, "inlier_fraction": fr}, dx, dy)
    r.eq((t.id, t.name, t.params, t.dim_x, t.dim_y), exp, "task record")
    _inconsistent(r, t, k)


@check("C07", 22, 66, ["bmi.benchmark.tasks.*:transform_*"])
def derived(r):
    T = r.get("bmi.benchmark", "Task", optional=False)
    kinds = [("transform_half_cube_task", "half_cube", "Half-cube @ {}", {}, {}), ("transform_normal_cdf_task", "normal_cdf", "Normal CDF @ {}", {}, {}),
             ("transform_asinh_task", "asinh", "Asinh @ {}", {}, {}), ("transform_wiggly_task", "wiggly", "Wiggly @ {}", {}, {}),
             ("transform_power_task", "power_0.50000", "Power 0.50 @ {}", dict(alpha=0.5), {"alpha": 0.5}),
             ("transform_rotate_task", "rotate", "Rotate @ {}", {}, {}),
             ("transform_spiral_task", "spiral", "Spiral @ {}", dict(speed=0.3), {"speed": 0.3, "normalize_speed": True}),
             ("transform_rescale", "rescale", "Rescale @ {}", {}, {}),
             ("transform_uniformise", "uniformise", "Uniformise @ {}", dict(n_quantiles=7), {"n_quantiles": 7}),
             ("transform_gaussianise", "gaussianise", "Gaussianise @ {}", dict(n_quantiles=9), {"n_quantiles": 9}),
             ("transform_swissroll_task", "swissroll_x", None, {}, {})]
    f, prefix, pretty, kw, extra = kinds[r.i % len(kinds)]
    fn = _t(r, f)
    sw = f == "transform_swissroll_task"
    dx, dy = (1, 2) if sw else (3, 4)
    params = r.choice([{"a": 1, "speed": 9, "alpha": 8, "n_quantiles": 5}, {}, {"b": [1, 2]}])
    keep = copy.deepcopy(params)
    mi = r.real(0, 2)
    base = T(ref.FakeSampler(dx, dy, mi=mi), task_id="base-7", task_name="Base name", task_params=params)
    before = (base.id, base.name, copy.deepcopy(base.params), base.dim_x, base.dim_y, base.mutual_information)
    name = r.choice([None, "Given"]) if not sw else "Given"
    r.note(factory=f, params=params, name=name)
    t = fn(base, **kw) if name is None else fn(base, task_name=name, **kw)
    r.eq(t.id, f"{prefix}-base-7", "identifier")
    r.eq(t.name, name or pretty.format("Base name"), "name")
    r.eq(t.params, keep | extra, "parameters")
    r.eq((t.dim_x, t.dim_y), (dx + int(sw), dy), "dims")
    r.close(t.mutual_information, mi, "MI", rtol=1e-9)
    r.eq(params, keep, "the base parameters are not modified")
    r.eq((base.id, base.name, base.params, base.dim_x, base.dim_y, base.mutual_information), before, "the base task is unchanged")
    s0 = base.sample(12, 3)
    _inconsistent(r, t, f)
    r.same(base.sample(12, 3)[0], s0[0], "the base task still samples the same")
    if not sw:
        t2 = _t(r, "transform_half_cube_task")(t)
        r.eq(t2.id, f"half_cube-{prefix}-base-7", "identifier of a doubly derived task")
        r.eq(t2.params, keep | extra, "parameters of a doubly derived task")
    else:
        r.raises(lambda: fn(T(ref.FakeSampler(2, 2), task_id="b", task_name="n"), task_name="z"), "swiss roll needs dim_x = 1")


@check("C07", 1, 1, ["bmi.benchmark:BENCHMARK_TASKS"])
def collection(r):
    """Exhaustive over the (closed) benchmark collection."""
    d = r.get("bmi.benchmark", "BENCHMARK_TASKS", optional=False)
    lst = r.get("bmi.benchmark.task_list", "BENCHMARK_TASKS_LIST", optional=False)
    r.true(len(d) > 0, "the collection is not empty")
    r.eq(len(d), len(lst), "no two tasks share an identifier")
    for k, t in d.items():
        r.eq(t.id, k, "key is the identifier of the task")
        x, y = t.sample(2, 1)
        r.eq((np.shape(x), np.shape(y)), ((2, t.dim_x), (2, t.dim_y)), f"{k}: shapes")
        r.eq((t.dim_x, t.dim_y), (t.sampler.dim_x, t.sampler.dim_y), f"{k}: dims")
        r.close(t.mutual_information, float(t.sampler.mutual_information()), f"{k}: MI", rtol=1e-9)
        r.true(t.mutual_information >= 0, f"{k}: MI non-negative")
    # identifiers of tasks with an independently known value
    known = {f"1v1-normal-0.75": -0.5 * np.log1p(-0.75**2), "normal_cdf-1v1-normal-0.75": -0.5 * np.log1p(-0.75**2),
             "1v1-additive-0.1": 0.1 - np.log(0.2), "1v1-additive-0.75": 1 / 3}
    for k, v in known.items():
        if k in d:
            r.close(d[k].mutual_information, v, f"value of {k}", rtol=1e-5)
    for k, t in d.items():
        parts = k.split("-")
        if k.startswith("multinormal-dense-"):
            dx, dy, o = int(parts[2]), int(parts[3]), float(parts[4])
            r.close(t.mutual_information, ref.gauss_mi(np.eye(dx + dy) * (1 - o) + o, dx), k, rtol=1e-6)
        if k.startswith("student-identity-"):
            dx, dy, df = int(parts[2]), int(parts[3]), int(parts[4])
            r.close(t.mutual_information, ref.t_entropy(dx, df) + ref.t_entropy(dy, df) - ref.t_entropy(dx + dy, df), k, rtol=1e-6)
        for p in ("normal_cdf-", "half_cube-", "spiral-", "asinh-", "wiggly-", "swissroll_x-"):
            if k.startswith(p) and k[len(p):] in d:
                r.close(t.mutual_information, d[k[len(p):]].mutual_information, f"{k} keeps the MI of its base", rtol=1e-9)


@check("C07", 6, 20, ["bmi.benchmark.task:Task.sample", "bmi.benchmark.task:Task.save_metadata", "bmi.benchmark.task:Task.save_sample"])
def plain_task(r):
    T = r.get("bmi.benchmark", "Task", optional=False)
    read = r.get("bmi.utils", "read_sample", optional=False)
    dx, dy, mi = r.int(1, 12), r.int(1, 12), r.real(0, 3)
    s = ref.FakeSampler(dx, dy, mi=mi)
    p = r.choice([None, {}, {"z": 1.5, "l": [1, 2]}])
    t = T(s, task_id="an-id", task_name="a name", task_params=p)
    r.note(dim_x=dx, dim_y=dy, params=p)
    r.eq((t.id, t.name, t.params, t.dim_x, t.dim_y), ("an-id", "a name", p or {}, dx, dy), "record")
    r.close(t.mutual_information, mi, "MI", rtol=0, atol=0)
    s.calls.clear()
    x, y = t.sample(9, 4)
    r.eq(s.calls, [(9, 4)], "sampling passes the size and the seed")
    with tempfile.TemporaryDirectory() as d:
        t.save_sample(os.path.join(d, "s.csv"), 9, 4)
        a, b = read(os.path.join(d, "s.csv"))
        r.close(a, x, "saved X", rtol=1e-6)
        r.close(b, y, "saved Y", rtol=1e-6)
        t.save_metadata(os.path.join(d, "m.yaml"))
        m = yaml.safe_load(open(os.path.join(d, "m.yaml")))
        r.eq(m, dict(task_id="an-id", task_name="a name", dim_x=dx, dim_y=dy, mi_true=mi, task_params=p or {}), "saved metadata")
