"""C15: training reports the best test value and stops when documented."""
from ..vc import contract
from .lib import *  # noqa: F401,F403
from ..shims import jax_

N = "bmi.estimators.neural."
T_ = N + "_training_log"


def TL():
    return loader.load(T_).TrainingLog


def pairs(name, n):
    """a history of n entries: (step, value)"""
    return seq.VList.from_segs([("seg", n, lambda i: (SV(app(f"{name}_step", i, sort="I")), SV(app(f"{name}_val", i))))])


class Hist:
    """an arbitrary log honouring the invariant: the best value is the maximum of all test values and the counter is the number of
    test values after the first one attaining it"""

    def __init__(self, empty, **kw):
        self.es = var("es", "B")
        self.n, self.m, self.w = (ZERO if empty else var("n", "I")), var("m", "I"), var("w", "I")
        self.B = var("best", "R")
        self.kw = dict(max_n_steps=SV(var("M", "I")), early_stopping=SV(self.es), verbose=False, **kw)
        self.empty = empty

    def val(self, i):
        return app("test_val", i)

    def facts(self):
        f = [le(ZERO, self.m)]
        if not self.empty:
            f += [le(ONE, self.n), *self.inv(self.n, self.val, self.B, self.w)]
        return f

    @staticmethod
    def inv(n, val, B, w):
        i, j = fresh("i"), fresh("j")
        return [le(ZERO, w), lt(w, n), eq(val(w), B), forall(i, ZERO, n, le(val(i), B)), forall(j, ZERO, w, lt(val(j), B))]

    def make(self):
        o = TL()(**self.kw)
        known = {"_mi_train_history", "_mi_test_history", "_mi_test_best", "_logs_since_mi_test_best"}
        if not known <= set(o.__dict__):
            raise Unsupported("the log keeps other state than the invariant speaks about")
        o._mi_train_history = pairs("train", self.m)
        if not self.empty:
            o._mi_test_history = pairs("test", self.n)
            o._mi_test_best = SV(self.B)
            o._logs_since_mi_test_best = SV(sub(sub(self.n, ONE), self.w))
        return o


def history(v, label, got, n, step, val, p):
    """a history is the sequence (step(i), val(i)), i < n"""
    segs = seq.segs_of(got)
    tot = add(*[seq.seg_len(s) for s in segs]) if segs else ZERO
    v.prove_eq(f"{label}: number of entries", tot, n, p)
    off = ZERO
    for s in segs:
        ln = seq.seg_len(s)
        k = fresh("k")
        e = s[1] if s[0] == "item" else s[2](k)
        e = list(e)
        at = off if s[0] == "item" else add(off, k)
        c = p.ctx if s[0] == "item" else p.ctx.plus(le(ZERO, k), lt(k, ln))
        v.prove_eq(f"{label}: steps", e[0], step(at), c)
        v.prove_eq(f"{label}: values", e[1], val(at), c)
        off = add(off, ln)


@contract("C15", f"{T_}:TrainingLog.log_test_mi", "any history of logged values, any new value",
          "the value is appended to the test history; the final estimate becomes the largest test value; early stopping is signalled exactly "
          "when enabled and the two most recent test values did not exceed the best value before them (invariant preserved)")
def log_test(v):
    for empty in (True, False):
        h = Hist(empty)
        mi, st = real("mi"), integer("step")

        def run():
            o = h.make()
            o.log_test_mi(st, mi)
            return o, o.final_mi, o.early_stop(), o.additional_information, o._logs_since_mi_test_best
        for p in v.explore(run, h.facts()):
            if not v.returns("logging succeeds", p):
                continue
            o, fin, stop, info, cnt = p.result
            n1 = add(h.n, ONE)
            vals = lambda i: ite(eq(i, h.n), mi.t, h.val(i))
            steps = lambda i: ite(eq(i, h.n), st.t, app("test_step", i, sort="I"))
            history(v, "test history", info["test_history"], n1, steps, vals, p)
            v.prove_eq("training steps reported", info["n_training_steps"],
                       ite(eq(h.m, ZERO), ZERO, app("train_step", sub(h.m, ONE), sort="I")), p)
            new = TRUE if empty else lt(h.B, mi.t)
            w1, B1 = ite(new, h.n, h.w), ite(new, mi.t, h.B)
            v.prove_eq("final estimate", fin, B1, p)
            # the invariant of the new state, entry by entry
            i = fresh("i")
            c = p.ctx.plus(le(ZERO, i), lt(i, n1), *([] if empty else [or_(not_(and_(le(ZERO, i), lt(i, h.n))), le(h.val(i), h.B)),
                                                                       or_(not_(lt(i, h.w)), lt(h.val(i), h.B))]))
            v.prove("the final estimate is at least every test value", le(vals(i), t_(fin)), c)
            v.prove_eq("the final estimate is one of the test values", vals(w1), fin, p)
            v.prove("the best value is recorded at its first occurrence", or_(not_(lt(i, w1)), lt(vals(i), B1)), c)
            v.prove_eq("number of test values since the best", cnt, sub(sub(n1, ONE), w1), p)
            v.prove_eq("early stopping", tobool(stop), and_(h.es, lt(ONE, sub(sub(n1, ONE), w1))), p)


@contract("C15", "lemma over the invariant of TrainingLog", "any history of n test values, first maximum at w",
          "at least two values follow the first maximum exactly when the last two values do not exceed the largest value before them")
def stop_lemma(v):
    n, w, B = var("n", "I"), var("w", "I"), var("B", "R")
    val = lambda i: app("test_val", i)
    inv = Hist.inv(n, val, B, w)
    a, b = val(sub(n, ONE)), val(sub(n, num(2)))
    i = fresh("i")
    c = sv_ctx(le(ONE, n), *inv, le(val(sub(n, ONE)), B), or_(lt(n, num(2)), le(b, B)))
    # w < n - 2: the best before the last two is val(w) = B
    v.prove("two values since the best: no improvement", and_(le(a, val(w)), le(b, val(w))), c.plus(lt(w, sub(n, num(2)))))
    # w >= n - 2: the value at w exceeds everything before the last two
    c2 = c.plus(le(sub(n, num(2)), w), le(ZERO, i), lt(i, sub(n, num(2))), or_(not_(lt(i, w)), lt(val(i), B)))
    v.prove("otherwise one of the last two improved", or_(lt(val(i), a), lt(val(i), b)), c2.plus(or_(eq(w, sub(n, ONE)), eq(w, sub(n, num(2))))))
    v.prove("the maximum is among the last two", or_(eq(w, sub(n, ONE)), eq(w, sub(n, num(2)))), c.plus(le(sub(n, num(2)), w)))


@contract("C15", f"{T_}:TrainingLog", "sequences of 0 to 4 test values, arbitrary values and steps",
          "history, final estimate (NaN without test values) and early stopping as documented (observable behaviour only)")
def short_histories(v):
    es = SV(var("es", "B"))
    for n in range(5):
        vs = [real(f"v{i}") for i in range(n)]
        ss = [integer(f"s{i}") for i in range(n)]

        def run():
            o = TL()(max_n_steps=10, early_stopping=es, verbose=False)
            for s, x in zip(ss, vs):
                o.log_test_mi(s, x)
            return o.final_mi, o.early_stop(), o.additional_information
        for p in v.explore(run):
            if not v.returns(f"{n} values", p):
                continue
            fin, stop, info = p.result
            if n == 0:
                v.check("NaN without test values", t_(fin) is tm.NAN, tm.show(t_(fin)), p)
            else:
                v.prove(f"{n} values: at least every test value", and_(*[le(x.t, t_(fin)) for x in vs]), p)
                v.prove(f"{n} values: one of the test values", or_(*[eq(x.t, t_(fin)) for x in vs]), p)
            want = FALSE if n < 3 else and_(es.t, *[or_(*[le(x.t, y.t) for y in vs[:-2]]) for x in vs[-2:]])
            v.prove_eq(f"{n} values: early stopping", tobool(stop), want, p)
            got = list(info["test_history"])
            v.check(f"{n} values: history length", len(got) == n, str(len(got)), p)
            for (a, b), s, x in zip(got, ss, vs):
                v.prove_eq(f"{n} values: steps", a, s, p)
                v.prove_eq(f"{n} values: values", b, x, p)


@contract("C15", f"{T_}:TrainingLog.log_train_mi", "any history of logged values, any new value",
          "the value is appended to the training history and its step reported; test values, final estimate and early stopping do not change")
def log_train(v):
    for empty in (True, False):
        h = Hist(empty, train_history_in_additional_information=True)
        mi, st = real("mi"), integer("step")

        def run():
            o = h.make()
            before = o.final_mi, o.early_stop()
            o.log_train_mi(st, mi)
            return before, (o.final_mi, o.early_stop()), o.additional_information
        for p in v.explore(run, h.facts()):
            if not v.returns("logging succeeds", p):
                continue
            before, after, info = p.result
            v.prove_eq("step reported", info["n_training_steps"], st, p)
            history(v, "training history", info["training_history"], add(h.m, ONE),
                    lambda i: ite(eq(i, h.m), st.t, app("train_step", i, sort="I")), lambda i: ite(eq(i, h.m), mi.t, app("train_val", i)), p)
            history(v, "test history", info["test_history"], h.n, lambda i: app("test_step", i, sort="I"), h.val, p)
            if empty:
                v.check("final estimate unchanged", t_(after[0]) is tm.NAN, "", p)
            else:
                v.prove_eq("final estimate unchanged", after[0], before[0], p)
            v.prove_eq("early stopping unchanged", tobool(after[1]), tobool(before[1]), p)


@contract("C15", f"{T_}:TrainingLog.finish", "any history, smoothing fraction in [0, 1/2]",
          "early_stopping_not_triggered iff enabled and not triggered; too short iff the window int(fraction * n) is empty; otherwise the "
          "smoothed history (means over windows) is compared with its maximum and with its value one window ago (factor 1.05)")
def finish(v):
    for empty in (True, False):
        fac = real("fac")
        h = Hist(empty, train_smooth_factor=fac)

        def run():
            o = h.make()
            s = o.early_stop()
            o.finish()
            return s, o.additional_information, o.final_mi
        x = mul(fac.t, h.m)
        w = app("trunc", x)
        pre = h.facts() + [le(ZERO, fac.t), le(fac.t, div(ONE, num(2)))]
        bounds = [le(mul(num(2), x), h.m), le(ZERO, x)]
        for b in bounds:
            v.prove("the window is at most half of the history", b, sv_ctx(*pre))
        # the definition of int() for non-negative numbers
        bounds += [le(w, x), lt(x, add(w, ONE)), le(ZERO, w)]
        for p in v.explore(run, pre + bounds):
            if not v.returns("finishing succeeds", p):
                continue
            stop, info, fin = p.result
            flag = lambda x: TRUE if info.get(x, False) is True else FALSE if info.get(x, False) is False else tobool(info[x])
            v.prove_eq("early_stopping_not_triggered", flag("early_stopping_not_triggered"), and_(h.es, not_(tobool(stop))), p)
            short = lt(w, ONE)
            v.prove_eq("training_too_short_for_diagnostics", flag("training_too_short_for_diagnostics"), short, p)
            c = p.ctx.plus(not_(short))
            if not c.feasible():
                v.check("no diagnostics of short trainings", not ({"max_training_mi_decreased", "training_mi_still_increasing"} & set(info)), "", p)
                continue
            i, j = fresh("i"), fresh("j")
            s = lambda a: div(sum_(i, ZERO, w, app("train_val", add(a, i))), w)
            last = sub(h.m, w)
            top = app("amax", tm.arr(add(last, ONE), j, s(j)))
            tol = t_(seq.K("1.05"))
            v.prove_eq("max_training_mi_decreased", flag("max_training_mi_decreased"), lt(mul(tol, s(last)), top), c)
            v.prove_eq("training_mi_still_increasing", flag("training_mi_still_increasing"), lt(mul(tol, s(sub(last, w))), s(last)), c)
            if not empty:
                v.prove_eq("final estimate unchanged", fin, h.B, p)
            history(v, "test history unchanged", info["test_history"], h.n, lambda i: app("test_step", i, sort="I"), h.val, p)


def training(v, which, step):
    """explore one of the training functions for every data set and setting"""
    from . import training as tr
    if which == "basic":
        mod, = tr.modules("_basic_training")
        name, fn = "_basic_training", mod.basic_training
    else:
        mod, = tr.modules("_mine_estimator")
        name, fn = "_mine_estimator", mod.mine_training
        stub_mine(mod)
    n, dx, dy, m = posint("n"), posint("dx"), posint("dy"), posint("m")
    T, M, lr, rng = posint("T"), posint("M"), pos("lr"), jax_.Key(app("somekey"))
    es = SV(var("es", "B"))
    d = dict(n=n, dx=dx, dy=dy, m=m, T=T, M=M, lr=lr, rng=rng, es=es)
    d["xs"], d["ys"] = array("x", n, dx, jax=True), array("y", n, dy, jax=True)
    for test in (True, False):
        for bs in (posint("b"), None):
            kw = dict(rng=rng, critic=tr.C("theta"), xs=d["xs"], ys=d["ys"], batch_size=bs, test_every_n_steps=T, max_n_steps=M,
                      early_stopping=es, learning_rate=lr, verbose=False)
            if test:
                kw.update(xs_test=array("u", m, dx, jax=True), ys_test=array("w", m, dy, jax=True))
            if which == "basic":
                kw["mi_formula"] = objective("mi")
                if test:
                    kw["mi_formula_test"] = objective("mi_test")
            else:
                kw["alpha"] = d["alpha"] = real("alpha")
            d.update(bs=bs, test=test)
            tr.install(f"{N}{name}", fn.__name__, tr.LoopContract(v, lambda *a: step(d, *a), carry=which == "mine"))
            pre = [] if bs is None else [le(bs.t, n.t)]
            if which == "mine":
                pre += [lt(ZERO, d["alpha"].t), lt(d["alpha"].t, ONE)]
            for p in v.explore(lambda: fn(**kw), pre):
                if v.returns("training succeeds", p):
                    yield d, p


def objective(name):
    """an arbitrary objective of a critic and a batch"""
    def f(critic, xs, ys):
        return wrap(app(name, seq.vterm(critic), asarr(xs).term(), asarr(ys).term()), py=False)
    return f


def stub_mine(mod):
    """the contracts of the MINE value and gradient (C14) stand for the functions"""
    if not {"_mine_value", "_mine_value_neg_grad_log_denom"} <= set(mod.__dict__):
        raise Unsupported("the MINE value and gradient functions were renamed")

    def value(f, xs, ys_paired, ys_unpaired):
        return wrap(app("mine_test", *[seq.vterm(x) for x in (f, asarr(xs), asarr(ys_paired), asarr(ys_unpaired))]), py=False)

    def grad(f, xs, ys_paired, ys_unpaired, log_denom_prev, alpha):
        a = [seq.vterm(x) for x in (f, asarr(xs), asarr(ys_paired), asarr(ys_unpaired), log_denom_prev, alpha)]
        ENG.ghost.setdefault("steps", []).append((f, asarr(xs), asarr(ys_paired), asarr(ys_unpaired), log_denom_prev, alpha))
        return wrap(app("mine_value", *a[:4]), py=False), jax_.Grad(app("mine_grad", *a)), wrap(app("mine_denom", *a), py=False)
    mod._mine_value, mod._mine_value_neg_grad_log_denom = value, grad


def _loop_contract(which):
    from . import training as tr

    def step(d, v, inv, k, log, st, broke, ctx):
        tr.logging(v, k, log, d["T"], broke, ctx)

    def c(v):
        for d, p in training(v, which, step):
            log, critic = p.result
            tr.ending(v, p, log, critic, d["M"].t)
            v.prove_eq("early stopping as requested", tobool(log.es_on), d["es"].t, p)
            v.prove_eq("maximum number of steps given to the log", t_(log.max_n_steps), d["M"].t, p)
    return c


for _w, _f in (("basic", "_basic_training:basic_training"), ("mine", "_mine_estimator:mine_training")):
    _c = _loop_contract(_w)
    _c.__name__ = f"{_w}_loop"
    contract("C15", N + _f, "any data, critic, objective, step counts and seed; loop invariant: k steps done, early stopping not triggered",
             "one training record per step 1..k, one test record every test_every_n_steps steps, ends after max_n_steps steps or right after "
             "the step at which early stopping triggers; finish() once at the end; the final critic is returned")(_c)
