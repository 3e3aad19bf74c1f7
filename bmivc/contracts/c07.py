"""C07: benchmark tasks describe the sampler they contain."""
import inspect

from ..vc import contract
from .lib import *  # noqa: F401,F403
from ..seq import VMap
from ..shims import io_, jax_, pandas_  # noqa: F401
from .c19 import S, same_text

T_ = "bmi.benchmark.task"
TT = "bmi.benchmark.tasks."


def txt(*parts):
    """text with values in it: parts are strings, values, or (value, format)"""
    return "".join(p if isinstance(p, str) else seq.placeholder(t_(p[0]), p[1]) if isinstance(p, tuple) else S(p if isinstance(p, SV) else SV(t_(p))) for p in parts)


def recorder(name, real):
    """contract of a sampler class: an object with the dimensions and the (non-negative) information of its arguments"""
    sig = inspect.signature(real.__init__)

    class Rec:
        _sym_plain = True
        cls = name

        def __init__(self, *a, **k):
            b = sig.bind(self, *a, **k)
            b.apply_defaults()
            self.args = {q: x for q, x in b.arguments.items() if q != "self"}

        def _dim(self, w):
            a = self.args
            if f"dim_{w}" in a:
                return a[f"dim_{w}"]
            if name == "TransformedSampler":
                return getattr(a["base_sampler"], f"dim_{w}") + (a.get(f"add_dim_{w}") or 0)
            if name == "BMMSampler":
                return getattr(a["dist"], f"dim_{w}")
            return 1

        dim_x = property(lambda self: self._dim("x"))
        dim_y = property(lambda self: self._dim("y"))

        def mutual_information(self):
            if name == "TransformedSampler":
                return self.args["base_sampler"].mutual_information()
            r = app("mi:" + name, *[seq.vterm(x) if not callable(x) else ZERO for x in self.args.values()])
            ENG.ctx = ENG.ctx.plus(le(ZERO, r))
            return wrap(r, py=False)

        def sample(self, n_points, rng):
            ENG.ghost.setdefault("sampled", []).append((self, n_points, rng))
            return tuple(SArr((t_(n_points), t_(d)), (lambda w: lambda i: app(f"draw_{w}", *i))(w), jax=True) for w, d in (("x", self.dim_x), ("y", self.dim_y)))

        def __sym_term__(self):
            return app("sampler:" + name, *[seq.vterm(x) if not callable(x) else ZERO for x in self.args.values()])
    Rec.__name__ = name
    return Rec


SAMPLERS = ("AdditiveUniformSampler", "BivariateNormalSampler", "SplitMultinormal", "SplitStudentT", "TransformedSampler")


def setup():
    loader.reset()
    S_ = loader.load("bmi.samplers")
    recs = {}
    for n in SAMPLERS:
        real = getattr(S_, n)
        recs[n] = recorder(n, real)
        recs[n].real = real
        S_.__dict__[n] = recs[n]
        m = real.__module__
        if m in loader.MODS:
            setattr(loader.MODS[m], n, recs[n])
    G = S_.GaussianLVMParametrization
    G.correlation = property(lambda self: lvm_array(self, "lvm_correlation"))
    G.covariance = property(lambda self: lvm_array(self, "lvm_covariance"))
    return S_


def lvm_array(par, what):
    """contract of the parametrised matrix (C06): a function of the parameters"""
    n = add(t_(par.dim_x), t_(par.dim_y))
    fields = [t_(getattr(par, f)) for f in par.__dataclass_fields__]
    return SArr((n, n), lambda i: app(what, *fields, *i))


def same_value(v, label, a, b, p):
    if isinstance(b, str):
        return same_text(v, label, a, b, p)
    if b is None or isinstance(b, bool):
        return v.check(label, a is b, repr(a), p)
    if isinstance(b, SArr):
        return prove_array(v, label, p, a, b.dims, lambda *i: b.get(i))
    v.prove_eq(label, a, b, p)


def same_params(v, p, got, want):
    if isinstance(want, VMap) or isinstance(got, VMap):
        g, w = VMap.of(got), VMap.of(want)
        for name in dict.fromkeys([n for d in (got, want) for n in (d if isinstance(d, dict) else getattr(d, "named", ()))] + ["other"]):
            k = seq.vterm(name)      # the named parameters one by one: sharper counterexamples than for an arbitrary name
            c = p.ctx.plus(tobool(SV(app("params_nonempty", sort="B"))), app("params_has", seq.vterm("other"), sort="B"))
            v.prove_eq(f"parameter {name}: present", ite(g.has(k), ONE, ZERO), ite(w.has(k), ONE, ZERO), c)
            v.prove_eq(f"parameter {name}", g.val(k), w.val(k), c.plus(w.has(k)))
        k = fresh("key")
        v.prove_eq("parameters: keys", ite(g.has(k), ONE, ZERO), ite(w.has(k), ONE, ZERO), p)
        return v.prove_eq("parameters: values", g.val(k), w.val(k), p.ctx.plus(w.has(k)))
    if v.check("parameters: names", isinstance(got, dict) and set(got) == set(want), f"{got!r}"[:300], p):
        for k in want:
            same_value(v, f"parameter {k}", got[k], want[k], p)


def describes(v, p, t, ident, name, params):
    """the task reports its sampler's dimensions and information, and the documented identifier, name and parameters"""
    def run():
        m = t.metadata
        return m, (t.id, t.name, t.params, t.dim_x, t.dim_y, t.mutual_information)
    for q in v.explore(run, assumptions=[SV(f) for f in p.ctx.facts]):
        if not v.returns("metadata", q):
            continue
        m, (i, nm, par, dx, dy, mi) = q.result
        for what, (i, nm, par, dx, dy, mi) in (("task", q.result[1]), ("metadata", (m.task_id, m.task_name, m.task_params, m.dim_x, m.dim_y, m.mi_true))):
            same_text(v, f"{what}: identifier", i, ident, q)
            same_text(v, f"{what}: name", nm, name, q)
            same_params(v, q, par, params)
            v.prove_eq(f"{what}: dim_x", dx, t.sampler.dim_x, q)
            v.prove_eq(f"{what}: dim_y", dy, t.sampler.dim_y, q)
            v.prove_eq(f"{what}: mutual information", mi, t.sampler.mutual_information(), q)


def same_sampler(v, p, s, cls, args):
    if getattr(s, "cls", None) != cls:
        raise Unsupported(f"a sampler of class {getattr(s, 'cls', type(s).__name__)} instead of {cls}")
    for k, x in args.items():
        if callable(x) and not isinstance(x, SV):
            x(k, s.args[k], p)
        elif k == "base_sampler":
            v.check("the base sampler", s.args[k] is x, "", p)
        else:
            same_value(v, f"sampler: {k}", s.args[k], x, p)


# ------------------------------------------------------------------ Task
@contract("C07", f"{T_}:Task.*, {T_}:TaskMetadata", "any sampler (with non-negative information), identifier, name, parameters (none, any), size and seed",
          "identifier, name, parameters (none: an empty dictionary) as given, dimensions and information of the sampler; sampling is sampling the sampler once with the size and "
          "the seed; saved samples hold it, saved metadata are exactly the metadata; the parameters are not modified")
def task(v):
    for par in (None, "map"):
        setup()
        mod = loader.load(T_)
        DD = loader.load("bmi.benchmark.utils.dict_dumper").DictDumper
        ident, name = io_.path_text("id"), io_.path_text("name")
        mi = pos("mi")
        s = FakeSampler(mi=mi)
        n, seed = nat("n"), integer("seed")
        out = io_.path_text("out")
        box = {}

        def run():
            d = VMap.arbitrary("params") if par else None
            t = mod.Task(sampler=s, task_id=ident, task_name=name, **({} if d is None else {"task_params": d}))
            box["t"], box["d"] = t, d
            del s.calls[:]
            r = t.sample(n, seed)
            c1 = list(s.calls)
            t.save_sample(out, n, seed)
            c2 = list(s.calls)
            f = dict(pandas_.files())
            t.save_metadata(out)
            return t, d, r, c1, c2, f, ENG.ghost.get("texts", {})
        for p in v.explore(run):
            if not v.returns("no exception", p):
                continue
            t, d, (x, y), c1, c2, f, texts = p.result
            v.check("the sampler", t.sampler is s, "", p)
            for label, cs in (("sample", c1), ("save_sample", c2[len(c1):])):
                if v.check(f"{label} samples once", len(cs) == 1, str(cs), p):
                    v.prove_eq(f"{label}: size", cs[0][0], n, p)
                    v.prove_eq(f"{label}: seed", as_key(cs[0][1]), as_key(seed), p)
            for w, r in (("x", x), ("y", y)):
                prove_array(v, f"sample {w}", p, r, (n, getattr(s, "d" + w)), lambda i, j: s.entry(w, seed, n, i, j))
            fr = f.get(pandas_.key_of(out))
            if v.check("the sample is saved", fr is not None, str(list(f)), p):
                dx = s.dx.t
                prove_array(v, "saved sample", p, SArr((fr.n, fr.width), lambda i: fr.val(*i)), (n, add(dx, s.dy.t)),
                            lambda i, j: ite(lt(j, dx), s.entry("x", seed, n, i, j), s.entry("y", seed, n, i, sub(j, dx))))
            parts = texts.get(pandas_.key_of(out), [])
            if len(parts) != 1 or not isinstance(parts[0], io_.Dumped):
                raise Unsupported("file contents that are not one YAML document")
            v.check("saved by DictDumper", parts[0].dumper is DD, "", p)
            q = parts[0].value
            if v.check("saved metadata: fields", isinstance(q, dict) and set(q) == {"task_id", "task_name", "dim_x", "dim_y", "mi_true", "task_params"}, repr(q), p):
                same_text(v, "saved metadata: identifier", q["task_id"], ident, p)
                same_text(v, "saved metadata: name", q["task_name"], name, p)
                v.prove_eq("saved metadata: dim_x", q["dim_x"], s.dx, p)
                v.prove_eq("saved metadata: dim_y", q["dim_y"], s.dy, p)
                v.prove_eq("saved metadata: information", q["mi_true"], mi, p)
                same_params(v, p, q["task_params"], VMap.arbitrary("params") if par else {})
            if d is not None:
                same_params(v, p, d, VMap.arbitrary("params"))
            describes(v, p, t, ident, name, VMap.arbitrary("params") if par else {})


# ------------------------------------------------------------------ factories of plain tasks
def dense(dx, dy, o):
    n = add(dx.t, dy.t)
    return SArr((n, n), lambda i: ite(eq(i[0], i[1]), ONE, o.t))


def lvm_matrix(S_, **k):
    return S_.GaussianLVMParametrization(**k).correlation


def plain_factory(name, func, build):
    """build(S_, given) -> (arguments, assumption, sampler class, sampler arguments, identifier, name, parameters)"""
    @contract("C07", f"bmi.benchmark.tasks.{func}", "all valid parameters, given or default; with and without a task name",
              "the documented sampler with exactly these parameters; identifier, name and parameters as documented; dimensions and information of the sampler")
    def f(v):
        S_ = setup()
        mod, fn = func.split(":")
        fn = getattr(loader.load(TT + mod), fn)
        for given in (True, False):
            for tn in (None, "Given"):
                args, ok, cls, sargs, ident, nm, params = build(S_, given)
                kw = dict(args)
                if tn is not None:
                    if "task_name" not in inspect.signature(fn).parameters:
                        continue
                    kw["task_name"] = tn
                for p in v.explore(lambda: (fn(**kw), {k: x() if callable(x) else x for k, x in sargs.items()}), assumptions=[SV(ok)] if ok is not TRUE else []):
                    if not v.returns("valid parameters are accepted", p):
                        continue
                    t, sa = p.result
                    same_sampler(v, p, t.sampler, cls, sa)
                    describes(v, p, t, ident, tn or nm, params)
    from .. import vc
    vc.CONTRACTS[-1]["name"] = name


def dims():
    return posint("dx"), posint("dy")


def b_additive(S_, given):
    e = pos("epsilon")
    return dict(epsilon=e), TRUE, "AdditiveUniformSampler", dict(epsilon=e), txt("1v1-additive-", e), txt("Uniform 1 × 1 (additive noise=", e, ")"), dict(epsilon=e)


def b_binormal(S_, given):
    c = real("c") if given else SV(num(tm.Fr(3, 4)))
    ok = and_(lt(num(-1), c.t), lt(c.t, ONE))
    return (dict(gaussian_correlation=c) if given else {}), ok, "BivariateNormalSampler", dict(correlation=c), txt("1v1-normal-", c), "Bivariate normal 1 × 1", dict(gaussian_correlation=c)


def b_dense(S_, given):
    dx, dy = dims()
    o = real("o") if given else SV(num(tm.Fr(1, 2)))
    return (dict(dim_x=dx, dim_y=dy, **({"off_diag": o} if given else {})), TRUE, "SplitMultinormal", dict(dim_x=dx, dim_y=dy, covariance=dense(dx, dy, o)),
            txt("multinormal-dense-", dx, "-", dy, "-", o), txt("Multinormal ", dx, " × ", dy, " (dense)"), dict(off_diag=o, covariance=dense(dx, dy, o)))


def lvm_ok(dx, dy, k):
    return and_(le(ZERO, t_(k)), le(t_(k), dx.t), le(t_(k), dy.t))


def b_lvm(S_, given):
    dx, dy = dims()
    k, al, la = nat("k"), real("alpha"), real("lambd")
    be, et = (real("beta"), real("eta")) if given else (SV(ZERO), la)
    par = dict(dim_x=dx, dim_y=dy, n_interacting=k, alpha=al, lambd=la, beta_x=be, eta_x=et)
    return (dict(dim_x=dx, dim_y=dy, n_interacting=k, alpha=al, lambd=la, **(dict(beta=be, eta=et) if given else {})), lvm_ok(dx, dy, k), "SplitMultinormal",
            dict(dim_x=dx, dim_y=dy, covariance=lambda: lvm_matrix(S_, **par)),
            txt("multinormal-lvm-", dx, "-", dy, "-", k, "-", (al, ".5f"), "-", (la, ".5f"), "-", (be, ".5f"), "-", (et, ".5f")), txt("Multinormal ", dx, " × ", dy, " (LVM)"),
            dict(par, epsilon_x=1, epsilon_y=1, beta_y=be, eta_y=et))


def sparse(S_, given, pair, student):
    dx, dy = dims()
    df = posint("df")
    st = real("strength") if given else SV(num(2))
    k = nat("k") if given and not pair else SV(num(2))
    args = dict(dim_x=dx, dim_y=dy, **({"df": df} if student else {}), **({"strength": st} if given else {}), **({"n_interacting": k} if given and not pair else {}))
    mat = lambda: lvm_matrix(S_, dim_x=dx, dim_y=dy, n_interacting=k, alpha=0, lambd=st, beta_x=0, eta_x=st)
    tag = "2-pair" if pair else "sparse"
    if student:
        return (args, lvm_ok(dx, dy, k), "SplitStudentT", dict(dim_x=dx, dim_y=dy, df=df, dispersion=mat), txt("student-sparse-", dx, "-", dy, "-", df, "-", k, "-", st),
                txt("Student-t ", dx, " × ", dy, " (dof=", df, f", {tag})"), dict(dof=df, n_interacting=k, strength=st))
    return (args, lvm_ok(dx, dy, k), "SplitMultinormal", dict(dim_x=dx, dim_y=dy, covariance=mat), txt("multinormal-sparse-", dx, "-", dy, "-", k, "-", st),
            txt("Multinormal ", dx, " × ", dy, f" ({tag})"), dict(n_interacting=k, strength=st))


def b_identity(S_, given):
    dx, dy = dims()
    df = posint("df")
    n = add(dx.t, dy.t)
    return (dict(dim_x=dx, dim_y=dy, df=df), TRUE, "SplitStudentT", dict(dim_x=dx, dim_y=dy, df=df, dispersion=SArr((n, n), lambda i: ite(eq(i[0], i[1]), ONE, ZERO))),
            txt("student-identity-", dx, "-", dy, "-", df), txt("Student-t ", dx, " × ", dy, " (dof=", df, ")"), dict(dof=df))


def b_sdense(S_, given):
    dx, dy = dims()
    df = posint("df")
    o = real("o") if given else SV(num(tm.Fr(1, 2)))
    return (dict(dim_x=dx, dim_y=dy, df=df, **({"off_diag": o} if given else {})), TRUE, "SplitStudentT", dict(dim_x=dx, dim_y=dy, df=df, dispersion=dense(dx, dy, o)),
            txt("student-dense-", dx, "-", dy, "-", df, "-", o), txt("Student-t ", dx, " × ", dy, " (dof=", df, ", dense)"), dict(dof=df, off_diag=o, dispersion=dense(dx, dy, o)))


for name_, func_, build_ in [("additive_noise", "additive_noise:task_additive_noise", b_additive), ("bivariate_normal", "bivariate_normal:task_bivariate_normal", b_binormal),
                             ("multinormal_dense", "multinormal:task_multinormal_dense", b_dense), ("multinormal_lvm", "multinormal:task_multinormal_lvm", b_lvm),
                             ("multinormal_sparse", "multinormal:task_multinormal_sparse", lambda s, g: sparse(s, g, False, False)),
                             ("multinormal_2pair", "multinormal:task_multinormal_2pair", lambda s, g: sparse(s, g, True, False)),
                             ("student_identity", "student:task_student_identity", b_identity), ("student_dense", "student:task_student_dense", b_sdense),
                             ("student_sparse", "student:task_student_sparse", lambda s, g: sparse(s, g, False, True)),
                             ("student_2pair", "student:task_student_2pair", lambda s, g: sparse(s, g, True, True))]:
    plain_factory(name_, func_, build_)


# ------------------------------------------------------------------ derived tasks
def pointwise(v, want, dim):
    """the transform equals a known function of a point"""
    def chk(label, f, p):
        if want is None:
            return v.check(f"{label}: no transform", f is None or f("probe") == "probe", repr(f), p)
        d = t_(dim)
        x = SArr((d,), lambda i: app("point", i[0]), jax=True)
        for q in v.explore(lambda: (f(x), want(x)), assumptions=[SV(c) for c in p.ctx.facts]):
            if v.returns(f"{label}: transforms a point", q):
                w = asarr(q.result[1])
                prove_array(v, label, q, q.result[0], w.dims, lambda *i: w.get(i))
    return chk


def opaque(v):
    def chk(label, f, p):
        v.check(f"{label}: a transform", callable(f), repr(f), p)
    return chk


def derived_factory(name, func, build):
    """build(v, base sampler) -> [(keyword arguments, prefix, name pattern, new parameters, transforms, added dim_x)]"""
    @contract("C07", f"bmi.benchmark.tasks.{func}", "any base task (any sampler, identifier, name, parameters), all parameters, with and without a task name; the derived task derived again",
              "the base's sampler transformed; identifier: prefix followed by the base's; name given or documented; parameters: the base's extended; dimensions and information of "
              "the sampler; the base task and its parameters unchanged")
    def f(v):
        S_ = setup()
        mod, fname = func.split(":")
        fn = getattr(loader.load(TT + mod), fname)
        Task = loader.load(T_).Task
        mi = pos("mi")
        only_x = "swissroll" in fname
        dx, dy = (SV(ONE) if only_x else ranged("dx", "I", "posint")), posint("dy")
        s = FakeSampler(dx=dx, dy=dy, mi=mi)
        for kw, prefix, pattern, extra, transforms, more in build(v, s):
            for tn in ("Given", None) if pattern is not None else ("Given",):
                for par in ("map", None):
                    ident, bname = io_.path_text("id"), io_.path_text("name")
                    keep = VMap.arbitrary("params") if par else {}

                    def run():
                        d = VMap.arbitrary("params") if par else None
                        b = Task(s, ident, bname, d)
                        before = dict(b.__dict__)
                        t = fn(b, **kw, **({} if tn is None else {"task_name": tn}))
                        return t, b, d, before
                    for p in v.explore(run, assumptions=[wrap(c) for c in assumptions(name, dx, dy)]):
                        if not v.returns("valid base tasks are accepted", p):
                            continue
                        t, b, d, before = p.result
                        if d is not None:
                            same_params(v, p, d, keep)
                        v.check("the base task is unchanged", set(b.__dict__) == set(before) and all(b.__dict__[k] is before[k] for k in before), "", p)
                        same_sampler(v, p, t.sampler, "TransformedSampler", dict(base_sampler=s, add_dim_x=more, add_dim_y=0, **transforms))
                        describes(v, p, t, (kw['task_id'] if prefix is None else prefix + ident), tn or pattern(bname), VMap.of(keep).merged(extra) if extra else keep)
                        v.check("another task", t is not b, "", p)
    from .. import vc
    vc.CONTRACTS[-1]["name"] = name


def assumptions(name, dx, dy):
    if name == "rotate":
        return [le(num(3), dx.t), le(num(3), dy.t)]
    if name == "spiral":
        return [le(num(2), dx.t), le(num(3), dy.t)]
    return []


def simple(transform_module, attr, prefix, label, mk=None):
    def build(v, s):
        w = mk() if mk else getattr(loader.load(transform_module), attr)
        yield {}, prefix + "-", lambda b: f"{label} @ {b}", {}, dict(transform_x=pointwise(v, w, s.dx), transform_y=pointwise(v, w, s.dy)), 0
    return build


def asinh():
    return loader.SHIMS["jax.numpy"].arcsinh


def b_wiggly(v, s):
    m = loader.load(TT + "wiggly")
    yield {}, "wiggly-", lambda b: f"Wiggly @ {b}", {}, dict(transform_x=pointwise(v, m.wiggly_x, s.dx), transform_y=pointwise(v, m.wiggly_y, s.dy)), 0


def b_power(v, s):
    al = real("alpha")

    def pw(x):
        jnp = loader.SHIMS["jax.numpy"]
        return jnp.sign(x) * jnp.power(jnp.abs(x), al)
    yield (dict(alpha=al), txt("power_", (al, ".5f"), "-"), lambda b: txt("Power ", (al, ".2f"), " @ ") + b, {"alpha": al},
           dict(transform_x=pointwise(v, pw, s.dx), transform_y=pointwise(v, pw, s.dy)), 0)


def b_rotate(v, s):
    yield {}, "rotate-", lambda b: f"Rotate @ {b}", {}, dict(transform_x=opaque(v), transform_y=opaque(v)), 0


def b_spiral(v, s):
    sp = real("speed")
    for kw, speed, norm in (({}, SV(ONE), True), (dict(speed=sp), sp, True), (dict(speed=sp, normalize_speed=False), sp, False), (dict(speed=0), SV(ZERO), True)):
        def tr(d, i, j):
            def chk(label, f, p):
                if type(f).__name__ != "Spiral":
                    raise Unsupported("transform of a spiral task")
                prove_array(v, f"{label}: initial", p, f.initial, (d, d), lambda a, b: ite(eq(a, b), ONE, ZERO))
                prove_array(v, f"{label}: generator", p, f.generator, (d, d), lambda a, b: mul(t_(speed / d if norm else speed),
                            ite(and_(eq(a, num(i)), eq(b, num(j))), num(-1), ite(and_(eq(a, num(j)), eq(b, num(i))), ONE, ZERO))))
            return chk
        yield (kw, "spiral-", lambda b: f"Spiral @ {b}", {"speed": speed, "normalize_speed": norm}, dict(transform_x=tr(s.dx, 0, 1), transform_y=tr(s.dy, 1, 2)), 0)


def b_rescale(v, s):
    yield {}, "rescale-", lambda b: f"Rescale @ {b}", {}, dict(transform_x=opaque(v), transform_y=opaque(v)), 0
    yield dict(task_id="own-id"), None, lambda b: f"Rescale @ {b}", {}, dict(transform_x=opaque(v), transform_y=opaque(v)), 0


def quantile(prefix, label):
    def build(v, s):
        q = posint("nq")
        for kw, n in (({}, SV(num(100))), (dict(n_quantiles=q), q)):
            yield kw, prefix + "-", lambda b: f"{label} @ {b}", {"n_quantiles": n}, dict(transform_x=opaque(v), transform_y=opaque(v)), 0
    return build


def b_swissroll(v, s):
    w = loader.load("bmi.transforms").swissroll2d
    yield {}, "swissroll_x-", None, {}, dict(transform_x=pointwise(v, w, s.dx), transform_y=pointwise(v, None, s.dy)), 1


for name_, func_, build_ in [("half_cube", "half_cube:transform_half_cube_task", simple("bmi.transforms", "half_cube", "half_cube", "Half-cube")),
                             ("normal_cdf", "normal_cdf:transform_normal_cdf_task", simple("bmi.transforms", "normal_cdf", "normal_cdf", "Normal CDF")),
                             ("asinh", "asinh:transform_asinh_task", simple(None, None, "asinh", "Asinh", asinh)), ("wiggly", "wiggly:transform_wiggly_task", b_wiggly),
                             ("power", "power:transform_power_task", b_power), ("rotate", "rotate:transform_rotate_task", b_rotate),
                             ("spiral", "spiral:transform_spiral_task", b_spiral), ("rescale", "scaling:transform_rescale", b_rescale),
                             ("uniformise", "scaling:transform_uniformise", quantile("uniformise", "Uniformise")),
                             ("gaussianise", "scaling:transform_gaussianise", quantile("gaussianise", "Gaussianise")),
                             ("swissroll", "embeddings:transform_swissroll_task", b_swissroll)]:
    derived_factory(name_, func_, build_)


# ------------------------------------------------------------------ mixtures and the bimodal task
class DistRec:
    """contract of the distributions of C11: dimensions and arguments"""
    _sym_plain = True

    def __init__(self, kind, dim_x, dim_y, **args):
        self.kind, self.dim_x, self.dim_y, self.args = kind, dim_x, dim_y, args

    dist_x = property(lambda self: ("x", self))
    dist_y = property(lambda self: ("y", self))

    def __sym_term__(self):
        return app("dist:" + self.kind, *[seq.vterm(x) for x in self.args.values() if x is not None])

    def __sym_subst__(self, m):
        return DistRec(self.kind, seq.vsubst(self.dim_x, m), seq.vsubst(self.dim_y, m), **{k: seq.vsubst(x, m) for k, x in self.args.items()})


def stub_bmm(S_):
    real = loader.load("bmi.samplers._tfp._wrapper").BMMSampler
    recs = recorder("BMMSampler", real)
    bmm = loader.load("bmi.samplers._tfp")

    def mvn(*, dim_x, dim_y, covariance, mean=None):
        n = add(t_(dim_x), t_(dim_y))
        mean = SArr((n,), lambda i: ZERO) if mean is None else asarr(mean)
        return DistRec("normal", dim_x, dim_y, mean=SArr(mean.dims, mean.snapshot()), covariance=(lambda a: SArr(a.dims, a.snapshot()))(asarr(covariance)))

    def product(dist_x, dist_y):
        if not (isinstance(dist_x, tuple) and isinstance(dist_y, tuple) and (dist_x[0], dist_y[0]) == ("x", "y")):
            raise Unsupported("a product of other distributions")
        return DistRec("product", dist_x[1].dim_x, dist_y[1].dim_y, x=dist_x[1], y=dist_y[1])

    def mixture(proportions, components):
        c0 = seq.V_list(components)[0]
        return DistRec("mixture", c0.dim_x, c0.dim_y, proportions=asarr(proportions), components=components)
    for n, o in (("BMMSampler", recs), ("MultivariateNormalDistribution", mvn), ("ProductDistribution", product), ("mixture", mixture)):
        bmm.__dict__[n] = o
        if n in S_.__dict__:
            S_.__dict__[n] = o
    return recs


def weights_are(v, p, d, n, want):
    prove_array(v, "mixture: proportions", p, d.args["proportions"], (n,), want)


def normal_is(v, label, p, c, dx, dy, mean, cov):
    if getattr(c, "kind", None) != "normal":
        raise Unsupported("another component")
    n = add(t_(dx), t_(dy))
    v.prove_eq(f"{label}: dimensions", (c.dim_x, c.dim_y), (dx, dy), p)
    prove_array(v, f"{label}: mean", p, c.args["mean"], (n,), mean)
    prove_array(v, f"{label}: covariance", p, c.args["covariance"], (n, n), cov)


def mixture_factory(name, build):
    """build(S_, given) -> (arguments, assumption, identifier, name, parameters, dims, check(v, p, sampler))"""
    @contract("C07", f"bmi.benchmark.tasks.mixtures:{name}", "all valid parameters, given or default, any Monte Carlo sample size",
              "the documented mixture with exactly these parameters (and the documented deformation); identifier, name and parameters as documented; dimensions and information of "
              "the sampler")
    def f(v):
        for given in (True, False):
            S_ = setup()
            stub_bmm(S_)
            fn = getattr(loader.load(TT + "mixtures"), name)
            args, ok, ident, nm, params, (dx, dy), chk = build(S_, given)
            for p in v.explore(lambda: fn(**args), assumptions=[SV(ok)] if ok is not TRUE else []):
                if not v.returns("valid parameters are accepted", p):
                    continue
                t = p.result
                chk(v, p, t.sampler)
                v.prove_eq("dimensions", (t.sampler.dim_x, t.sampler.dim_y), (dx, dy), p)
                describes(v, p, t, ident, nm, params)
    from .. import vc
    vc.CONTRACTS[-1]["name"] = name


def the_bmm(v, p, s, m):
    if getattr(s, "cls", None) != "BMMSampler":
        raise Unsupported("a sampler of another class")
    d = s.args["dist"]
    if getattr(d, "kind", None) != "mixture":
        raise Unsupported("a distribution that is not a mixture")
    v.prove_eq("Monte Carlo sample size", s.args["mi_estimate_sample"], m, p)
    v.check("no information is declared", s.args["mi"] is None, repr(s.args["mi"]), p)
    return d


def b_x(S_, given):
    c = real("c") if given else SV(num(tm.Fr(9, 10)))
    m = posint("m") if given else SV(num(100000))

    def chk(v, p, s):
        d = the_bmm(v, p, s, m)
        weights_are(v, p, d, num(2), lambda i: num(tm.Fr(1, 2)))
        if v.check("two components", len(d.args["components"]) == 2, "", p):
            for k, sg in ((0, -1), (1, 1)):
                normal_is(v, f"component {k}", p, d.args["components"][k], 1, 1, lambda i: ZERO, lambda i, j: ite(eq(i, j), ONE, mul(num(sg), c.t)))
    return (dict(gaussian_correlation=c, mi_estimate_sample=m) if given else {}), TRUE, txt("1v1-X-", c), "X 1 × 1", dict(gaussian_correlation=c), (1, 1), chk


def b_ai(S_, given):
    m = posint("m") if given else SV(num(100000))

    def chk(v, p, s):
        d = the_bmm(v, p, s, m)
        weights_are(v, p, d, num(6), lambda i: num(tm.Fr(1, 6)))
        v.check("six components", len(d.args["components"]) == 6, "", p)
        for c in d.args["components"]:
            v.prove_eq("dimensions", (c.dim_x, c.dim_y), (1, 1), p)
    return (dict(mi_estimate_sample=m) if given else {}), TRUE, "1v1-AI", "AI 1 × 1", {}, (1, 1), chk


def b_galaxy(S_, given):
    sp, di = (real("speed"), real("distance")) if given else (SV(num(tm.Fr(1, 2))), SV(num(3)))
    m = posint("m") if given else SV(num(100000))

    def chk(v, p, s):
        if getattr(s, "cls", None) != "TransformedSampler":
            raise Unsupported("a sampler of another class")
        d = the_bmm(v, p, s.args["base_sampler"], m)
        weights_are(v, p, d, num(2), lambda i: num(tm.Fr(1, 2)))
        if v.check("two components", len(d.args["components"]) == 2, "", p):
            for k, sg in ((0, -1), (1, 1)):
                normal_is(v, f"component {k}", p, d.args["components"][k], 2, 1, lambda i: mul(num(tm.Fr(sg, 2)), di.t), lambda i, j: ite(eq(i, j), ONE, ZERO))
        f = s.args["transform_x"]
        if type(f).__name__ != "Spiral":
            raise Unsupported("transform of the galaxy")
        prove_array(v, "spiral: initial", p, f.initial, (2, 2), lambda a, b: ite(eq(a, b), ONE, ZERO))
        prove_array(v, "spiral: generator", p, f.generator, (2, 2), lambda a, b: mul(sp.t, ite(eq(a, b), ZERO, ite(eq(a, ZERO), num(-1), ONE))))
        v.check("Y is not transformed", s.args["transform_y"] is None, "", p)
    return ((dict(speed=sp, distance=di, mi_estimate_sample=m) if given else {}), TRUE, txt("2v1-galaxy-", sp, "-", di), "Galaxy 2 × 1", dict(speed=sp, distance=di), (2, 1), chk)


def b_waves(S_, given):
    n = posint("n") if given else SV(num(12))
    am, fr = (real("amplitude"), real("frequency")) if given else (SV(num(5)), SV(num(3)))
    m = posint("m") if given else SV(num(100000))

    def chk(v, p, s):
        fs = []
        while getattr(s, "cls", None) == "TransformedSampler":
            v.check("Y is not transformed", s.args["transform_y"] is None, "", p)
            fs.insert(0, s.args["transform_x"])
            s = s.args["base_sampler"]
        d = the_bmm(v, p, s, m)
        weights_are(v, p, d, n, lambda i: div(ONE, n.t))
        k = fresh("k")
        comps = d.args["components"]
        if isinstance(comps, (list, tuple)):
            for q, c in enumerate(comps):
                normal_is(v, f"component {q}", p, c, 2, 1, lambda i: mul(num(tm.Fr(3, 2)), ite(eq(i, ZERO), num(q), ite(eq(i, ONE), ZERO, num(q % 4)))), wcov)
        else:
            ln, at = seq_at(comps)
            v.prove_eq("number of components", ln, n, p)
            p.ctx = p.ctx.plus(le(ZERO, k), lt(k, n.t))
            normal_is(v, "component", p, at(k), 2, 1, lambda i: mul(num(tm.Fr(3, 2)), ite(eq(i, ZERO), k, ite(eq(i, ONE), ZERO, t_(wrap(k) % 4)))), wcov)
        x = SArr((num(2),), lambda i: app("point", i[0]), jax=True)

        def run():
            r = x
            for f in fs:
                r = f(r)
            return r
        for q in v.explore(run, assumptions=[SV(c) for c in p.ctx.facts]):
            if v.returns("deforms a point", q):
                a, b = app("point", ZERO), app("point", ONE)
                prove_array(v, "deformation", q, q.result, (2,), lambda i: ite(eq(i, ZERO), sub(mul(num(tm.Fr(1, 10)), add(a, mul(am.t, app("sin", mul(fr.t, b))))), num(tm.Fr(4, 5))), div(b, num(2))))
    return ((dict(n_components=n, wave_amplitude=am, wave_frequency=fr, mi_estimate_sample=m) if given else {}), TRUE, txt("2v1-waves-", n, "-", am, "-", fr), "Waves 2 × 1",
            dict(n_components=n, wave_amplitude=am, wave_frequency=fr), (2, 1), chk)


def wcov(i, j):
    return ite(eq(i, j), ite(eq(i, ONE), ONE, num(tm.Fr(1, 10))), ZERO)


def b_concentric(S_, given):
    dx = posint("dx")
    n = posint("n") if given else SV(num(3))
    m = posint("m") if given else SV(num(100000))

    def chk(v, p, s):
        d = the_bmm(v, p, s, m)
        weights_are(v, p, d, n, lambda i: div(ONE, n.t))
        comps = d.args["components"]
        k = fresh("k")

        def comp(label, c, k):
            normal_is(v, label, p, c, dx, 1, lambda i: ite(lt(i, dx.t), ZERO, add(k, ONE)),
                      lambda i, j: ite(eq(i, j), ite(lt(i, dx.t), powr(add(k, ONE), 2), num(tm.Fr(1, 10000))), ZERO))
        if isinstance(comps, (list, tuple)):
            for q, c in enumerate(comps):
                comp(f"component {q}", c, num(q))
        else:
            ln, at = seq_at(comps)
            v.prove_eq("number of components", ln, n, p)
            p.ctx = p.ctx.plus(le(ZERO, k), lt(k, n.t))
            comp("component", at(k), k)
    return ((dict(dim_x=dx, n_components=n, mi_estimate_sample=m) if given else dict(dim_x=dx)), TRUE, txt(dx, "v1-concentric_gaussians-", n), txt("Concentric ", dx, " × 1"),
            dict(n_components=n), (dx, 1), chk)


def b_inliers(S_, given):
    dx, dy = dims()
    k, st, fr = (nat("k"), real("strength"), real("fraction")) if given else (SV(num(2)), SV(num(2)), SV(num(tm.Fr(1, 5))))
    m = posint("m") if given else SV(num(100000))

    def chk(v, p, s):
        d = the_bmm(v, p, s, m)
        weights_are(v, p, d, num(2), lambda i: ite(eq(i, ZERO), sub(ONE, fr.t), fr.t))
        cs = d.args["components"]
        if not v.check("two components", len(cs) == 2, "", p):
            return
        g = S_.GaussianLVMParametrization(dim_x=dx, dim_y=dy, n_interacting=k, alpha=0, lambd=st, beta_x=0, eta_x=st)
        want = lvm_array(g, "lvm_correlation")
        normal_is(v, "signal", p, cs[0], dx, dy, lambda i: ZERO, lambda i, j: want.get((i, j)))
        if getattr(cs[1], "kind", None) != "product":
            raise Unsupported("another noise distribution")
        v.check("the noise has the signal's marginals", cs[1].args["x"] is cs[0] and cs[1].args["y"] is cs[0], "", p)
    ok = and_(lvm_ok(dx, dy, k), le(ZERO, fr.t), le(fr.t, ONE))
    return (dict(dim_x=dx, dim_y=dy, **(dict(n_interacting=k, strength=st, inlier_fraction=fr, mi_estimate_sample=m) if given else {})), ok,
            txt("mult-sparse-w-inliers-", dx, "-", dy, "-", k, "-", st, "-", fr), txt("Multinormal ", dx, " × ", dy, " (sparse, ", (fr, ".0%"), " inliers)"),
            dict(n_interacting=k, strength=st, inlier_fraction=fr), (dx, dy), chk)


for name_, build_ in [("task_x", b_x), ("task_ai", b_ai), ("task_galaxy", b_galaxy), ("task_waves", b_waves), ("task_concentric_multinormal", b_concentric),
                      ("task_multinormal_sparse_w_inliers", b_inliers)]:
    mixture_factory(name_, build_)


@contract("C07", "bmi.benchmark.tasks.bimodal_gaussians:task_bimodal_gaussians", "all correlations in (-1, 1), given or default; invert_cdf by its contract (the inverse of its argument)",
          "X and Y of the bivariate normal sampler pushed through the normal CDF and then through the inverses of the documented bimodal CDFs; identifier, name and parameters as "
          "documented; dimensions and information of the sampler")
def bimodal(v):
    for given in (True, False):
        S_ = setup()
        mod = loader.load(TT + "bimodal_gaussians")

        class Inverse:
            _sym_plain = True

            def __init__(self, f, *a, **k):
                self.f, self.a, self.k = f, a, k
        mod.invert_cdf = Inverse
        c = real("c") if given else SV(num(tm.Fr(3, 4)))
        cdf = loader.load("bmi.transforms").normal_cdf
        ok = and_(lt(num(-1), c.t), lt(c.t, ONE))

        def mix(w, a, b):
            return lambda x: SV(num(tm.Fr(w, 10))) * cdf(x + a) + SV(num(tm.Fr(10 - w, 10))) * cdf(x + b)
        for p in v.explore(lambda: mod.task_bimodal_gaussians(**({"gaussian_correlation": c} if given else {})), assumptions=[SV(ok)]):
            if not v.returns("valid parameters are accepted", p):
                continue
            t = p.result
            s = t.sampler
            if getattr(s, "cls", None) != "TransformedSampler" or not isinstance(s.args["transform_x"], Inverse) or not isinstance(s.args["transform_y"], Inverse):
                raise Unsupported("another construction of the bimodal distribution")
            for w, want in (("transform_x", mix(3, 0, -5)), ("transform_y", mix(5, 1, -3))):
                f = s.args[w]
                if f.a or f.k:
                    raise Unsupported("options of invert_cdf")
                x = real("x")
                for q in v.explore(lambda: (f.f(x), want(x)), assumptions=[SV(g) for g in p.ctx.facts]):
                    if v.returns(f"{w}: CDF defined", q):
                        v.prove_eq(f"{w}: the documented CDF", asarr(q.result[0]).get(()), asarr(q.result[1]).get(()), q)
            b = s.args["base_sampler"]
            if getattr(b, "cls", None) != "TransformedSampler" or getattr(b.args["base_sampler"], "cls", None) != "BivariateNormalSampler":
                raise Unsupported("another construction of the bimodal distribution")
            for w in ("transform_x", "transform_y"):
                pointwise(v, cdf, ONE)(f"base {w}", b.args[w], p)
            v.prove_eq("correlation", b.args["base_sampler"].args["correlation"], c, p)
            describes(v, p, t, txt("1v1-bimodal-", c), "Bimodal 1 × 1", dict(gaussian_correlation=c))


@contract("C07", "bmi.benchmark:BENCHMARK_TASKS, bmi.benchmark.task_list", "the collection of the library (a closed term)",
          "each task of the list is in the collection under its own identifier; every key is the identifier of its task; no two tasks share an identifier; all dimensions and "
          "names are those of the task's metadata")
def collection(v):
    setup()

    def run():
        tl = loader.load("bmi.benchmark.task_list").BENCHMARK_TASKS_LIST
        c = loader.execute("bmi.benchmark").BENCHMARK_TASKS
        tl = list(tl)
        return tl, c, [(t.id, t.metadata.task_id, t.name, t.metadata.task_name) for t in tl]
    for p in v.explore(run):
        if not v.returns("the collection is built", p):
            continue
        tl, c, ids = p.result
        if not isinstance(tl, (list, tuple)) or not isinstance(c, dict):
            raise Unsupported(f"another kind of collection: {type(tl).__name__} {type(c).__name__}")
        names = [i[0] for i in ids]
        if any(type(n) is not str for n in names) or any(seq.PH.search(n) for n in names):
            raise Unsupported("identifiers that are not constant texts")
        v.check("as many identifiers as tasks", len(set(names)) == len(tl) == len(c), f"{len(set(names))} {len(tl)} {len(c)}", p)
        for t, (i, mi, n, mn) in zip(tl, ids):
            v.check(f"{i}: under its identifier", i in c and (c[i] is t or c[i].id == i), "", p)
            v.check(f"{i}: metadata", i == mi and n == mn, "", p)
        for k, t in c.items():
            v.check(f"{k}: the key is the identifier", t.id == k, t.id, p)
