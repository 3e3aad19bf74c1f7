"""Contract harness: explores the real function on symbolic inputs, records named obligations."""
import contextlib
import json
import time
import traceback

from . import evalnum, loader, seq, sym
from . import solve as sv_
from . import terms as tm
from .sym import ENG, SArr, SV, Unsupported, t_, tobool, wrap
from .terms import FALSE, ONE, TRUE, ZERO, T, add, and_, app, div, eq, fresh, ite, le, lt, mul, neg, not_, num, or_, powr, sub, sum_, var


class V:
    """verification session of one contract"""

    def __init__(self, prop, name, func, pre="", post=""):
        self.prop, self.name, self.func, self.pre, self.post = prop, name, func, pre, post
        self.obls = []
        self.paths = 0
        self.t0 = time.time()
        self.hints = {}
        self.known_hits = set()
        self.eval_s = 0.0

    # ---- exploration
    def explore(self, fn, assumptions=(), max_paths=400):
        seq.ENG.births = {}
        outer = seq.ENG.ctx
        try:
            ps = sym.explore(fn, [tobool(a) for a in assumptions], max_paths)
        finally:
            seq.ENG.ctx = outer
        self.paths += len(ps)
        for p in Paths(ps):
            for (nm, a, b, ctx) in p.obls:
                self._prove(nm, a, b, ctx)
        return Paths(p for p in ps if not p.done)

    # ---- obligations
    def prove(self, label, c, ctx):
        with under(ctx):
            self._prove(label, tobool(c), None, _ctx(ctx))

    def prove_eq(self, label, a, b, ctx):
        """equality of values (scalars, arrays, nested containers)"""
        with under(ctx):
            a, b = norm(a), norm(b)
            self._prove(label, a, b, _ctx(ctx))

    def fail(self, label, why, ctx=None):
        self.obls.append({"name": f"{self.name}/{label}", "status": "refuted", "why": why, "s": 0.0,
                          "facts": [tm.show(f)[:200] for f in (_ctx(ctx).facts if ctx is not None else ())][:20]})

    def ok(self, label, how="structural"):
        self.obls.append({"name": f"{self.name}/{label}", "status": "proved", "how": how, "s": 0.0})

    def check(self, label, cond, why="", ctx=None):
        """obligation decided structurally on values of the execution"""
        if cond:
            self.ok(label)
        else:
            self.fail(label, why, ctx)
        return bool(cond)

    def raises(self, label, p, exc=Exception):
        """the path must raise"""
        if p.exc is not None and isinstance(p.exc, exc):
            self.ok(label, "path")
        else:
            self.fail(label, f"no exception; returned {str(p.result)[:200]}", p)

    def returns(self, label, p):
        if p.exc is None:
            return True
        tb = traceback.extract_tb(p.exc.__traceback__)
        where = "; ".join(f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in tb[-4:])
        self.fail(label, f"raises {type(p.exc).__name__}: {str(p.exc)[:200]} ({where})", p)
        return False

    def _prove(self, label, a, b, ctx):
        t0 = time.time()
        z0 = sv_.STATS["z3_calls"]
        st = "unknown"
        why = ""
        wit = None
        try:
            a2, b2, c2 = generalise(a, b, ctx)
            r = sv_.prove(a2, c2) if b is None else sv_.prove_eq(a2, b2, c2)
            if r:
                st = "proved"
            else:
                why = r.why
        except RecursionError:
            why = "recursion limit"
        except sv_.Deadline:
            why = "deadline"
        except Unsupported as e:
            why = f"unsupported: {e}"
        if st != "proved" and leaks(a, b, ctx):
            why = "a generic index escaped its iteration: " + why
        elif st != "proved":
            t1 = time.time()
            try:
                wit, hits = evalnum.refute(a, b, ctx.facts, hints=self.hints, limit=min(30, max(3, 100 - self.eval_s)))
            except Exception as e:  # noqa: BLE001 - evaluation is best effort
                wit, hits = None, 0
            self.eval_s += time.time() - t1
            if wit is not None:
                st = "refuted"
                why = json.dumps(wit, default=str)[:1500] + " | " + why[:1500]
            else:
                why += f" (numerically indistinguishable on {hits} assignments)"
        o = {"name": f"{self.name}/{label}", "status": st, "s": round(time.time() - t0, 4), "z3": sv_.STATS["z3_calls"] - z0}
        if why and st != "proved":
            o["why"] = why[:3000]
            o["facts"] = [tm.show(f)[:200] for f in ctx.facts][:20]
        self.obls.append(o)
        if sum(o["status"] == "refuted" for o in self.obls) >= 6:
            raise Enough


@contextlib.contextmanager
def under(ctx):
    """values evaluated on demand are evaluated under the facts of the path they belong to"""
    outer = seq.ENG.ctx
    seq.ENG.ctx = _ctx(ctx)
    try:
        yield
    finally:
        seq.ENG.ctx = outer


class Paths(list):
    """explored paths; what a path returned may be evaluated on demand, which must happen under the facts of that path"""

    def __iter__(self):
        outer = seq.ENG.ctx
        try:
            for p in super().__iter__():
                seq.ENG.ctx = p.ctx
                yield p
        finally:
            seq.ENG.ctx = outer

    def __getitem__(self, k):
        r = super().__getitem__(k)
        if not isinstance(k, slice):
            seq.ENG.ctx = r.ctx
        return r


class Enough(BaseException):
    """several obligations are refuted: the verdict is settled"""


def leaks(a, b, ctx):
    """does the obligation mention a generic index that its context does not bind?"""
    fv = {x for t in (a, b) if t is not None for x in t.fv if x.a[0].startswith("γ")}
    return bool(fv) and not fv <= {x for f in ctx.facts for x in f.fv}


GENERALISE = {"histdd"}


def generalise(a, b, ctx):
    """proof by generalisation: closed opaque subterms (fitted histograms) are replaced by constants, equal ones by the same"""
    found = {}

    def scan(t):
        for x in tm.subterms(t):
            if x.op == "app" and x.a[0] in GENERALISE and x not in found and not any(v.a[0].startswith("β") for v in x.fv):
                found[x] = app(f"gen!{len(found)}")
    scan(a)
    if b is not None:
        scan(b)
    if not found:
        return a, b, ctx
    rep = lambda t: tm.replace(t, found.get)
    return rep(a), (None if b is None else rep(b)), sv_.Ctx([rep(f) for f in ctx.facts])


def _ctx(c):
    if c is None:
        return sv_.Ctx()
    return c.ctx if isinstance(c, sym.Path) else c


def norm(x):
    return x if isinstance(x, T) else seq.vterm(x)


# ------------------------------------------------------------------ symbolic inputs
def ranged(name, sort, extra):
    v = var(name, sort)
    if v.extra != extra:
        sv_.forget()
    v.extra = extra
    return SV(v)


def nat(name):
    return ranged(name, "I", "nat")


def posint(name):
    return ranged(name, "I", "posint")


def integer(name):
    return SV(var(name, "I"))


def real(name):
    return SV(var(name, "R"))


def pos(name):
    return ranged(name, "R", "pos")


def array(name, *dims, jax=False, dtype="float"):
    """array of arbitrary entries: an uninterpreted function of the index"""
    ds = tuple(t_(d) for d in dims)
    srt = "I" if dtype == "int" else "R"
    return SArr(ds, lambda i: app(name, *i, sort=srt), jax=jax, dtype=dtype)


def symmetric(name, n, jax=False):
    n = t_(n)
    return SArr((n, n), lambda i: add(app(name, i[0], i[1]), app(name, i[1], i[0])), jax=jax)


CONTRACTS = []


def contract(prop, func, pre="", post="", known=None, thorough=False):
    """register a contract; `prop` may list several properties"""
    def d(f):
        CONTRACTS.append(dict(prop=prop, func=func, pre=pre, post=post, fn=f, name=f.__name__, thorough=thorough))
        return f
    return d


def run_contract(c):
    v = V(c["prop"], c["name"], c["func"], c["pre"], c["post"])
    res = {"contract": c["name"], "func": c["func"], "pre": c["pre"], "post": c["post"], "prop": c["prop"]}
    from .shims import np_
    t0 = time.time()
    before = dict(sv_.STATS)
    try:
        c["fn"](v)
        res["status"] = "done"
    except Enough:
        res["status"] = "done"
    except Unsupported as e:
        res["status"] = "unsupported"
        res["why"] = str(e)[:500]
        res["where"] = traceback.format_exc()[-1500:]
    except sv_.Deadline:
        res["status"] = "unsupported"
        res["why"] = "time limit"
    except RecursionError:
        res["status"] = "unsupported"
        res["why"] = "recursion limit"
    except Exception as e:  # noqa: BLE001 - an error of the machinery, never a verdict
        res["status"] = "unsupported"
        res["why"] = f"{type(e).__name__}: {e}"[:500]
        res["where"] = traceback.format_exc()[-2500:]
    if res["status"] == "done" and not v.obls:
        res["status"] = "unsupported"
        res["why"] = "no obligation generated"
    res["obligations"] = v.obls
    res["known_hits"] = sorted(v.known_hits)
    res["paths"] = v.paths
    res["s"] = round(time.time() - t0, 3)
    res["z3_s"] = round(sv_.STATS["z3_s"] - before["z3_s"], 3)
    res["z3_calls"] = sv_.STATS["z3_calls"] - before["z3_calls"]
    res["shims"] = sorted(np_.USED)
    res["files"] = sorted(loader.LOADED_FILES.values())
    return res
