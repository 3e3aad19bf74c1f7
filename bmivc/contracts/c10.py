"""C10: numerical CDF inversion brackets the true quantile."""
import numpy as np

from ..vc import contract
from .lib import *  # noqa: F401,F403
from ..shims import jax_

M = "bmi.transforms._invert_cdf"
f_ = lambda x: app("F", x)


def F(x):
    """an arbitrary strictly increasing function of a number"""
    if not sym.isnum(x) and not (isinstance(x, SArr) and x.ndim == 0):
        raise sym.Unsupported("the function is evaluated at something else than a number")
    return SV(f_(t_(x) if sym.isnum(x) else x.get(())))


def increasing(*pts):
    """the instances of strict monotonicity for some points"""
    return [or_(not_(lt(a, b)), lt(f_(a), f_(b))) for a in pts for b in pts if a is not b]


def bracket(y, lo, hi):
    """loop invariant: the current bracket lies in the interval and still contains the solution"""
    return lambda a, b: and_(le(lo, a), le(a, b), le(b, hi), or_(eq(a, lo), lt(f_(a), y)), or_(eq(b, hi), le(y, f_(b))))


def pair(v):
    v = tuple(v) if isinstance(v, (tuple, list)) or hasattr(v, "__iter__") and not isinstance(v, (SArr, SV)) else None
    if v is None or len(v) != 2 or not all(sym.isnum(x) or isinstance(x, SArr) and x.ndim == 0 for x in v):
        raise sym.Unsupported("the loop state is not a bracket")
    return tuple(t_(x) if sym.isnum(x) else x.get(()) for x in v)


def while_rule(y, lo, hi, delta):
    inv = bracket(y, lo, hi)

    def rule(cond, body, init):
        a0, b0 = pair(init)
        ENG.oblige("the interval is the first bracket", and_(inv(a0, b0)))
        a, b = fresh("a", "R"), fresh("b", "R")
        ENG.assume(inv(a, b))
        st = (SV(a), SV(b))
        go = tobool_(cond(st))
        here = ENG.ctx
        ps = seq.generic([go], lambda: pair(body(st)))
        for p in ps:
            ctx = here.plus(go, p.guard)
            if p.exc is not None:
                raise p.exc
            a1, b1 = p.value
            ENG.oblige("a step keeps the solution bracketed", inv(a1, b1), ctx=ctx)
            ENG.oblige("a step halves the bracket", sub(b1, a1), div(sub(b, a), num(2)), ctx=ctx)
        ENG.assume(not_(go))
        return (SV(a), SV(b))
    return rule


def tobool_(x):
    return sym.tobool(x if not isinstance(x, SArr) else x.get(()))


def with_rule(rule, fn):
    def g():
        jax_.WHILE["inv"] = rule
        try:
            return fn()
        finally:
            jax_.WHILE.pop("inv", None)
    return g


def inverse_value(v, call, lo, hi, delta, pre, label=""):
    """obligations on the value returned for one target"""
    y, s = var("y", "R"), var("s", "R")
    pts = [lo, hi, s]
    for case, facts in (("in range", [le(lo, s), le(s, hi), eq(f_(s), y)]), ("below the range", [lt(y, f_(lo))]), ("above the range", [lt(f_(hi), y)])):
        for p in v.explore(with_rule(while_rule(y, lo, hi, delta), lambda: call(SV(y))), pre + facts):
            if not v.returns(f"defined {case}{label}", p):
                continue
            r = p.result
            r = t_(r) if sym.isnum(r) else asarr(r).get(())
            ends = [x for f in p.ctx.facts for x in f.fv if x.a[0].startswith(("a!", "b!"))]
            c = p.ctx.plus(*increasing(*pts, *dict.fromkeys(ends)))
            near = {"in range": s, "below the range": lo, "above the range": hi}[case]
            v.prove(f"in the interval {case}{label}", and_(le(lo, r), le(r, hi)), c)
            v.prove(f"within the tolerance {case}{label}", and_(le(sub(r, near), delta), le(sub(near, r), delta)), c)


@contract("C10", f"{M}:invert_mono", "any strictly increasing function, any interval, any tolerance > 0, any target",
          "loop invariant: the bracket lies in the interval and contains the solution; each step halves it; the value is in the interval and "
          "within the tolerance of the solution (of the nearest end for targets outside the range)")
def invert_mono(v):
    f = loader.load(M).invert_mono
    lo, hi, d = real("lo"), real("hi"), pos("delta")
    inverse_value(v, lambda y: f(F, lo, hi, d)(y), lo.t, hi.t, d.t, [lt(lo.t, hi.t)])
    inverse_value(v, lambda y: f(f=F, x_min=lo, x_max=hi)(y), lo.t, hi.t, num(tm.Fr(1, 10**12)), [lt(lo.t, hi.t)], " (default tolerance)")


@contract("C10", f"{M}:invert_cdf", "any strictly increasing function, interval, tolerance and array of targets (0 to 2 dimensions)",
          "an array is inverted element by element, each value as invert_mono; defaults: interval (-10, 10), tolerance 1e-12")
def invert_cdf(v):
    f = loader.load(M).invert_cdf
    lo, hi, d = real("lo"), real("hi"), pos("delta")
    inverse_value(v, lambda y: f(F, lo, hi, d)(y), lo.t, hi.t, d.t, [lt(lo.t, hi.t)])
    inverse_value(v, lambda y: f(F)(y), num(-10), num(10), num(tm.Fr(1, 10**12)), [], " (defaults)")
    # arrays: the value at an index is a function of the target at that index alone
    n, m = posint("n"), posint("m")
    for dims in ((n,), (n, m)):
        ys = array("Y", *dims, jax=True)

        def rule(cond, body, init):
            a0, b0 = pair(init)
            seen = {x for q in (a0, b0, *(pair(body((SV(fresh("a", "R")), SV(fresh("b", "R"))))))) for x in tm.subterms(q)
                    if x.op == "app" and x.a[0] == "Y"}
            seen |= {x for x in tm.subterms(tobool_(cond((SV(fresh("a", "R")), SV(fresh("b", "R")))))) if x.op == "app" and x.a[0] == "Y"}
            targets = sorted(seen, key=lambda t: t.uid)
            return tuple(SV(app(w, a0, b0, *targets)) for w in ("lower", "upper"))
        for p in v.explore(with_rule(rule, lambda: f(F, lo, hi, d)(ys)), [lt(lo.t, hi.t)]):
            if v.returns("arrays are accepted", p):
                prove_array(v, "element by element", p, p.result, dims,
                            lambda *i: div(add(app("lower", lo.t, hi.t, app("Y", *i)), app("upper", lo.t, hi.t, app("Y", *i))), num(2)))
                unchanged(v, "targets unchanged", ys, "Y", p)


class Fl:
    """a machine number: every operation rounds its exact result in some monotonic way"""
    _sym_plain = True

    def __init__(self, t):
        self.t = t

    @staticmethod
    def of(x):
        return x.t if isinstance(x, Fl) else t_(x)

    def _op(self, e):
        r = app("fl", e)
        # rounding is monotonic and keeps machine numbers (the bracket's ends, their halves and doubles)
        for u in ENG.ghost.get("machine", ()):
            for k in (num(tm.Fr(1, 2)), ONE, num(2)):
                w = mul(k, u)
                ENG.assume(or_(lt(w, e), le(r, w)), or_(lt(e, w), le(w, r)))
        return Fl(r)

    __add__ = __radd__ = lambda s, o: s._op(add(s.t, Fl.of(o)))
    __mul__ = __rmul__ = lambda s, o: s._op(mul(s.t, Fl.of(o)))
    __sub__ = lambda s, o: s._op(sub(s.t, Fl.of(o)))
    __rsub__ = lambda s, o: s._op(sub(Fl.of(o), s.t))
    __truediv__ = lambda s, o: s._op(div(s.t, Fl.of(o)))
    __neg__ = lambda s: Fl(neg(s.t))
    __abs__ = lambda s: Fl(app("abs", s.t))
    __lt__ = lambda s, o: wrap(lt(s.t, Fl.of(o)))
    __le__ = lambda s, o: wrap(le(s.t, Fl.of(o)))
    __gt__ = lambda s, o: wrap(lt(Fl.of(o), s.t))
    __ge__ = lambda s, o: wrap(le(Fl.of(o), s.t))
    __hash__ = None

    def __sym_ite__(self, c, o):
        return Fl(ite(c, self.t, Fl.of(o)))


@contract("C10", f"{M}:invert_mono", "machine arithmetic: every operation rounds monotonically; any interval, tolerance (also 0) and target",
          "every refinement that is executed strictly shrinks the bracket, so the search ends after finitely many steps")
def terminates(v):
    f = loader.load(M).invert_mono
    lo, hi, d = real("lo"), real("hi"), real("delta")
    v.hints[d.t] = lambda r: r.choice([0.0, 1e-12, 1e-7, r.uniform(0, 1)])

    def rule(cond, body, init):
        a, b = fresh("a", "R"), fresh("b", "R")
        ENG.ghost["machine"] = [a, b]
        ENG.assume(le(a, b))
        # looked for among machine numbers next to each other when a claim does not hold
        for q in (a, b):
            v.hints[q] = lambda r: 1 + r.choice(range(5)) * 2.0 ** -23 if r.random() < 0.7 else float(np.float32(r.uniform(-9, 9)))
            ENG.assume(eq(app("fl", q), q))
        st = (Fl(a), Fl(b))
        go = tobool_(cond(st))
        here = ENG.ctx
        for p in seq.generic([go], lambda: body(st)):
            ctx = here.plus(go, p.guard)
            if p.exc is not None:
                raise p.exc
            a1, b1 = (Fl.of(x) for x in p.value)
            ENG.oblige("a refinement stays in the bracket", and_(le(a, a1), le(a1, b1), le(b1, b)), ctx=ctx)
            ENG.oblige("a refinement strictly shrinks the bracket", or_(lt(a, a1), lt(b1, b)), ctx=ctx)
        ENG.ghost["machine"] = []
        return (SV(a), SV(b))

    def F2(x):
        return wrap(app("F", Fl.of(x)), py=False)
    for p in v.explore(with_rule(rule, lambda: f(F2, lo, hi, d)(real("y"))), [le(lo.t, hi.t), le(ZERO, d.t)]):
        v.returns("defined", p)
