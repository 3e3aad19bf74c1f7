"""C18: running an estimator always yields a faithful result record."""
from ..vc import contract
from .lib import *  # noqa: F401,F403
from ..seq import VMap
from ..shims import io_, pandas_
from .c19 import mk_file

R = "bmi.benchmark.result"
ERR, OUT = seq.vterm("error"), seq.vterm("subprocess_output")


def reads():
    return dict(ENG.ghost.get("clock", {}))


class Opaque:
    """what a failing program printed"""
    _sym_plain = True

    def __str__(self):
        return io_.path_text("printed")

    __sym_str__ = __str__


class Failure(Exception):
    pass


def failures():
    """exceptions an estimator may raise: with an arbitrary text, with or without an output"""
    t = io_.path_text("message")
    out = Failure(t)
    out.output = Opaque()
    return [ValueError(t), Failure(t), AssertionError(t), AttributeError(t), TypeError(t), RuntimeError(t), ArithmeticError(t), OSError(t), out]


class Behaviour:
    """an arbitrary estimator: raises anything, or returns any estimate, time and information"""

    def __init__(self, ER, raising=None, time=None, info=True):
        self.ER, self.raising, self.time, self.info = ER, raising, time, info

    def __call__(self, how, *args):
        ENG.ghost.setdefault("runs", []).append((how, args, reads()))
        ENG.ghost["before"] = reads()
        # an estimator may take its time
        io_.timem.perf_counter(), io_.timem.time(), io_.timem.monotonic()
        ENG.ghost["after"] = reads()
        if self.raising is not None:
            raise self.raising
        return self.ER(mi_estimate=real("estimate"), **({} if self.time is None else {"time_in_seconds": self.time}),
                       **({"additional_information": ENG.ghost["info"]} if self.info else {}))


def measured(v, p, t):
    """the time is the difference of two readings of one clock, before and after the run"""
    b, a = p.ghost["before"], p.ghost["after"]
    rd = lambda kind, k: app("clock:" + kind, num(k))
    for kind in a:
        for i in range(b.get(kind, -1) + 1):
            for j in range(a[kind] + 1, p.ghost["clock"][kind] + 1):
                if t_(t) is sub(rd(kind, j), rd(kind, i)):
                    return v.ok("measured time")
    v.fail("measured time", f"{tm.show(t_(t))} is not the time between a reading before and one after the run", p)


def record(v, p, n, seed, beh, res, caller, given_info):
    """the record of one run"""
    v.prove_eq("number of samples", res.n_samples, n, p)
    v.check("seed", seed is None and res.seed is None or seed is not None and res.seed is not None and bool(solve.prove_eq(t_(res.seed), t_(seed), p.ctx)), repr(res.seed), p)
    v.check("identifiers", (res.estimator_id, res.task_id) == (io_.path_text("estimator_id"), io_.path_text("task_id")), repr((res.estimator_id, res.task_id)), p)
    info = res.additional_information
    m = VMap.of(info)
    c = VMap.of(caller)
    k = fresh("key")
    if beh.raising is not None:
        v.check("success is false", res.success is False, repr(res.success), p)
        v.check("the estimate is NaN", t_(res.mi_estimate) is tm.NAN, repr(res.mi_estimate), p)
        v.prove("the error text is recorded", m.has(ERR), p)
        v.prove_eq("the error text", m.val(ERR), seq.vterm(str(beh.raising)), p)
        if hasattr(beh.raising, "output"):
            v.prove("the output of the program is recorded", m.has(OUT), p)
            v.prove_eq("the output of the program", m.val(OUT), seq.vterm(str(beh.raising.output)), p)
        else:
            v.prove_eq("no output is invented", ite(m.has(OUT), ONE, ZERO), ite(c.has(OUT), ONE, ZERO), p)
        ctx = p.ctx.plus(not_(eq(k, ERR)), not_(eq(k, OUT)))
        want = c
    else:
        v.check("success is true", res.success is True, repr(res.success), p)
        v.prove_eq("the estimate", res.mi_estimate, real("estimate"), p)
        ctx = p.ctx
        want = c.merged(given_info) if beh.info else c
        if beh.time is None:
            measured(v, p, res.time_in_seconds)
        else:
            v.prove_eq("the reported time", res.time_in_seconds, beh.time, p)
    v.prove_eq("keys of the information", ite(m.has(k), ONE, ZERO), ite(want.has(k), ONE, ZERO), ctx)
    v.prove_eq("the information", m.val(k), want.val(k), ctx.plus(want.has(k), m.has(k)))
    return m


def caller_unchanged(v, p, given, m):
    """the caller's dictionary is as before -- or shows exactly the recorded finding C18-caller-dict"""
    if given is None:
        return
    was = VMap.arbitrary("caller")
    k = fresh("key")
    if given.has(k) is was.has(k) and given.val(k) is was.val(k):
        return v.ok("the caller's dictionary is unchanged")
    same = [solve.prove_eq(ite(given.has(k), ONE, ZERO), ite(was.has(k), ONE, ZERO), p.ctx), solve.prove_eq(given.val(k), was.val(k), p.ctx.plus(was.has(k)))]
    if all(same):
        return v.ok("the caller's dictionary is unchanged")
    v.known_hits.add("C18-caller-dict")
    ne = app("caller_nonempty", sort="B")
    v.prove("only a non-empty dictionary is extended (known finding)", ne, p)
    if m is not None:
        v.prove_eq("it is extended to the recorded information (known finding): keys", ite(given.has(k), ONE, ZERO), ite(m.has(k), ONE, ZERO), p)
        v.prove_eq("it is extended to the recorded information (known finding): values", given.val(k), m.val(k), p.ctx.plus(m.has(k)))


def run_all(v, external):
    loader.reset()
    mod = loader.load(R)
    ER = loader.load("bmi.interface").EstimateResult
    Ext = loader.load("bmi.estimators.external.external_estimator").ExternalEstimator
    n, dx, dy = nat("n"), nat("dx"), nat("dy")
    path = io_.path_text("sample")
    behs = [Behaviour(ER), Behaviour(ER, time=real("reported")), Behaviour(ER, time=0), Behaviour(ER, info=False)]
    behs += [Behaviour(ER, raising=e) for e in failures()]

    class Plain:
        _sym_plain = True

        def __init__(self, beh):
            self.beh = beh

        def estimate(self, x, y):
            return self.beh("arrays", x, y).mi_estimate

        def estimate_with_info(self, x, y):
            return self.beh("arrays", x, y)

    class External(Ext):
        _sym_plain = True

        def __init__(self, beh):
            self.beh = beh

        def estimate(self, x, y):
            return self.beh("arrays", x, y).mi_estimate

        def estimate_with_info(self, x, y):
            return self.beh("arrays", x, y)

        def parameters(self):
            return None

        def estimate_with_info_from_path(self, path):
            return self.beh("path", path)

    for beh in behs:
        for seed in (None, integer("seed"), 0):
            for cal in (True, False) if seed is None or beh is behs[0] else (True,):
                def run():
                    pandas_.files()[io_.key_of(path)] = mk_file(dx, dy, n)
                    d = VMap.arbitrary("caller") if cal else None
                    ENG.ghost["caller"] = d
                    ENG.ghost["info"] = VMap.arbitrary("info")
                    kw = {} if d is None else {"additional_information": d}
                    if seed is not None:
                        kw["seed"] = seed
                    e = (External if external else Plain)(beh)
                    return mod.run_estimator(estimator=e, estimator_id=io_.path_text("estimator_id"), sample_path=path, task_id=io_.path_text("task_id"), **kw)
                for p in v.explore(run):
                    v.check("the sample file is only read", not p.ghost.get("written"), "", p)
                    info = p.ghost["info"]
                    was = VMap.arbitrary("info")
                    k = fresh("key")
                    v.prove_eq("the estimator's dictionary is unchanged: keys", ite(info.has(k), ONE, ZERO), ite(was.has(k), ONE, ZERO), p)
                    v.prove_eq("the estimator's dictionary is unchanged: values", info.val(k), was.val(k), p)
                    if not v.returns("a record, whatever the estimator does", p):
                        continue
                    runs = p.ghost.get("runs", [])
                    if v.check("the estimator is run once", len(runs) == 1, f"{len(runs)} runs", p):
                        how, args, _ = runs[0]
                        if external:
                            v.check("an external estimator is given the path", how == "path" and args and io_.key_of(args[0]) == io_.key_of(path), repr(args), p)
                        elif v.check("the estimator is given arrays", how == "arrays" and len(args) == 2, repr(how), p):
                            prove_array(v, "X of the file", p, args[0], (n, dx), lambda i, j: app("cell", i, j))
                            prove_array(v, "Y of the file", p, args[1], (n, dy), lambda i, j: app("cell", i, add(j, dx.t)))
                        m = record(v, p, n, seed, beh, p.result, VMap.arbitrary("caller") if cal else {}, was)
                        caller_unchanged(v, p, p.ghost["caller"], m)


POST = ("always returns a record; run once on the file's arrays (external ones: on its path); estimate/NaN, success iff not raised, error text and output, reported or "
        "measured time, number of samples, identifiers, seed (also 0), information = the caller's overlaid by the estimator's; sample file and the estimator's "
        "dictionary unchanged, the caller's dictionary unchanged up to the known finding C18-caller-dict")


@contract("C18", f"{R}:run_estimator, bmi.benchmark.utils.timer:Timer, bmi.utils:read_sample", "any sample file, any estimator (any estimate, time, information or exception), any caller's dictionary, any seed", POST)
def in_memory(v):
    run_all(v, False)


@contract("C18", f"{R}:run_estimator, bmi.benchmark.utils.timer:Timer, bmi.utils:read_sample", "any sample file, any external estimator (any estimate, time, information or exception), any caller's dictionary, any seed", POST)
def external(v):
    run_all(v, True)


@contract("C18", f"{R}:RunResult.dump", "any record", "one file is written: the YAML text, by DictDumper, of exactly the record's fields; the record is unchanged")
def dump(v):
    loader.reset()
    mod = loader.load(R)
    DD = loader.load("bmi.benchmark.utils.dict_dumper").DictDumper
    path = io_.path_text("out")
    for seed in (None, integer("seed")):
        for ok in (True, False):
            vals = dict(mi_estimate=real("mi") if ok else SV(tm.NAN), time_in_seconds=real("t"), success=ok, estimator_id=io_.path_text("e"), task_id=io_.path_text("t"),
                        n_samples=nat("n"), seed=seed, additional_information=VMap.arbitrary("info"))

            def run():
                r = mod.RunResult(**vals)
                r.dump(path)
                return r, ENG.ghost.get("texts", {}), ENG.ghost.get("written", [])
            for p in v.explore(run):
                if not v.returns("dumps", p):
                    continue
                r, texts, written = p.result
                if not v.check("one file, at the given path", written == [io_.key_of(path)], repr(written), p):
                    continue
                parts = texts[io_.key_of(path)]
                if len(parts) != 1 or not isinstance(parts[0], io_.Dumped):
                    raise Unsupported("file contents that are not one YAML document")
                v.check("dumped by DictDumper", parts[0].dumper is DD, repr(parts[0].dumper), p)
                d = parts[0].value
                for what, q in (("file", d), ("record", r.__dict__)):
                    if not v.check(f"fields of the {what}", isinstance(q, dict) and set(q) == set(vals), repr(q)[:200], p):
                        continue
                    for k, x in vals.items():
                        if isinstance(x, VMap):
                            kk = fresh("key")
                            m = VMap.of(q[k])
                            v.prove_eq(f"{what}: {k}: keys", ite(m.has(kk), ONE, ZERO), ite(x.has(kk), ONE, ZERO), p)
                            v.prove_eq(f"{what}: {k}: values", m.val(kk), x.val(kk), p.ctx.plus(x.has(kk)))
                        elif x is None or isinstance(x, (bool, str)):
                            v.check(f"{what}: {k}", q[k] is x or q[k] == x, repr(q[k]), p)
                        else:
                            v.prove_eq(f"{what}: {k}", q[k], x, p)


@contract("C18", "bmi.benchmark.utils.dict_dumper:DictDumper.represent_data", "paths, NumPy numbers, NumPy arrays, enumeration members, plain values",
          "represented as the text, the plain number, the nested list, the member's value, themselves")
def represent(v):
    import enum
    loader.reset()
    DD = loader.load("bmi.benchmark.utils.dict_dumper").DictDumper
    Col = enum.Enum("Col", {"RED": "red", "ONE": 1})
    n = nat("n")
    text = io_.path_text("p")
    plain = [None, True, False, 3, "text", SV(real("x").t), integer("k"), (1, 2), {"a": 1}, VMap.arbitrary("m")]
    arr_ = array("a", 3)
    cases = [("path", io_.Path(text), text), ("enumeration", Col.RED, "red"), ("enumeration", Col.ONE, 1), ("NumPy number", SV(real("x").t, "np"), real("x")),
             ("NumPy integer", SV(integer("k").t, "np"), integer("k")), ("array", arr_, [SV(app("a", num(i))) for i in range(3)])] + [(f"plain {type(x).__name__}", x, x) for x in plain]
    for what, given, want in cases:
        def run():
            return DD().represent_data(given)
        for p in v.explore(run):
            if not v.returns(f"{what}: represented", p):
                continue
            r = p.result
            if not (isinstance(r, tuple) and len(r) == 2 and r[0] == "node"):
                raise Unsupported("representation")
            r = r[1]
            if given is want:
                v.check(f"{what}: unchanged", r is given or not isinstance(given, (SV, VMap)) and r == given or isinstance(given, SV) and isinstance(r, SV) and r.t is given.t, repr(r), p)
            elif isinstance(want, str):
                v.check(f"{what}: as text", r == want, repr(r), p)
            else:
                v.check(f"{what}: a plain value", not isinstance(r, SArr) and getattr(r, "tag", None) != "np" and not isinstance(r, enum.Enum), repr(r), p)
                if isinstance(want, list):
                    prove_array(v, what, p, r, (num(3),), lambda i: app("a", i))
                else:
                    v.prove_eq(f"{what}: value", r, want, p)


@contract("C18", "bmi.benchmark.utils.timer:Timer", "any sequence of up to four checks, resets and combined calls, any clock",
          "every reading is the time since the last reset, of one clock that never goes backwards; never negative")
def timer(v):
    loader.reset()
    mod = loader.load("bmi.benchmark.utils.timer")
    import itertools
    for ops in itertools.chain.from_iterable(itertools.product(("check", "reset", "check_and_reset"), repeat=k) for k in range(1, 5)):
        def run():
            t = mod.Timer()
            out = []
            marks = [dict(ENG.ghost["clock"])]
            for o in ops:
                out.append((o, dict(ENG.ghost["clock"]), getattr(t, o)(), dict(ENG.ghost["clock"])))
            return out
        for p in v.explore(run):
            if not v.returns("no exception", p):
                continue
            kinds = list(p.ghost["clock"])
            if len(kinds) != 1:
                raise Unsupported("several clocks")
            kind = kinds[0]
            lo, hi = 0, p.result[0][1][kind]       # readings the last reset may have taken
            for o, b, r, a in p.result:
                if o != "reset":
                    ok = [(i, j) for i in range(lo, hi + 1) for j in range(b[kind] + 1, a[kind] + 1)
                          if t_(r) is sub(app("clock:" + kind, num(j)), app("clock:" + kind, num(i)))]
                    v.check(f"time since the last reset: {'-'.join(ops)}", bool(ok), tm.show(t_(r)), p)
                    v.prove("never negative", le(ZERO, t_(r)), p)
                if o != "check":
                    lo, hi = b[kind] + 1, a[kind]


@contract("C18", "bmi.estimators.function_wrapper:FunctionalEstimator.*, bmi.interface:IMutualInformationPointEstimator.estimate_with_info", "any function, any arrays, any parameters",
          "the function is called once with the arrays in order; its value is the estimate, without further information; the parameters are reported")
def functional(v):
    loader.reset()
    F = loader.load("bmi.estimators.function_wrapper").FunctionalEstimator
    BM = loader.load("bmi.interface").BaseModel
    n, dx, dy, m = nat("n"), nat("dx"), nat("dy"), nat("m")
    for jx in (False, True):
        x, y = array("x", n, dx, jax=jx), array("y", m, dy, jax=jx)
        for how in ("estimate", "estimate_with_info"):
            for par in (None, BM()):
                for bad in (False, True):
                    def func(a, b):
                        ENG.ghost.setdefault("runs", []).append((a, b))
                        if bad:
                            raise Failure("no")
                        return real("value")

                    def run():
                        e = F(func) if par is None else F(func, params=par)
                        ENG.ghost["par"] = e.parameters()
                        return getattr(e, how)(x, y)
                    for p in v.explore(run):
                        unchanged(v, "x unchanged", x, "x", p)
                        unchanged(v, "y unchanged", y, "y", p)
                        q = p.ghost["par"]
                        v.check("parameters", q is par if par is not None else isinstance(q, BM) and q.dict() == {}, repr(q), p)
                        runs = p.ghost.get("runs", [])
                        if v.check("called once", len(runs) == 1, "", p):
                            prove_array(v, "first argument", p, runs[0][0], (n, dx), lambda i, j: app("x", i, j))
                            prove_array(v, "second argument", p, runs[0][1], (m, dy), lambda i, j: app("y", i, j))
                        if bad:
                            v.raises("the function's exception is passed on", p, Failure)
                        elif v.returns("returns", p):
                            r = p.result
                            if how == "estimate_with_info":
                                v.check("no further information", r.time_in_seconds is None and r.additional_information == {}, repr(r.__dict__), p)
                                r = r.mi_estimate
                            v.prove_eq("value of the function", r, real("value"), p)
