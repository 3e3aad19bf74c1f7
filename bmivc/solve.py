"""Proof engine: contextual simplification, case splitting, z3/cvc5 as arithmetic back ends."""
import time
from fractions import Fraction as Fr

import z3

from . import terms as tm
from .terms import (FALSE, NINF, ONE, TRUE, ZERO, T, add, and_, app, beta, div, eq, fresh, from_poly, is_num, ite,
                    lam, le, lt, mul, neg, not_, num, or_, poly_of, powr, sub, subst, sum_, var)

STATS = {"z3_calls": 0, "z3_s": 0.0, "prove_eq": 0, "cvc5_calls": 0, "cvc5_s": 0.0}
Z3_TIMEOUT = 3000
z3.set_param("smt.random_seed", 1)


class Deadline(Exception):
    pass


DEADLINE = [None]


def check_deadline():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise Deadline()


# ------------------------------------------------------------------ translation to z3
_TR = {}      # term -> its translation
_DEP = {}     # term -> terms below it (and itself) that carry an axiom
_AXIOM = {}   # term -> axiom


def forget():
    """the meaning of a variable changed"""
    for d in (_TR, _DEP, _AXIOM):
        d.clear()


class Z:
    """translation of terms; shared by all queries, each of which collects the axioms of the terms it mentions"""

    def __init__(self):
        self.cur = set()

    @property
    def axioms(self):
        return [_AXIOM[t] for t in sorted(self.cur, key=lambda t: t.uid)]

    def tr(self, t, f):
        r = _TR.get(t)
        if r is None:
            outer, self.cur = self.cur, set()
            r = f(t)
            _TR[t] = r
            _DEP[t] = frozenset(self.cur)
            self.cur = outer
        d = _DEP[t]
        if d:
            self.cur |= d
        return r

    def num(self, t):
        return self.tr(t, self._num)

    def bool(self, t):
        return self.tr(t, self._bool)

    def free_ints(self, t):
        return sorted((v for v in t.fv if v.sort == "I"), key=lambda v: v.uid)

    def opaque(self, t, kind):
        """constant (or function of its integer free variables) standing for an opaque atom"""
        fv = self.free_ints(t)
        srt = {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}[kind]
        if not fv:
            return z3.Const(f"a{t.uid}", srt)
        sk = t
        for v in fv:
            sk = tm.lam(v, sk)
        f = z3.Function(f"s{sk.uid}_{kind}", *([z3.IntSort()] * len(fv)), srt)
        return f(*[self.num(v) for v in fv])

    def real(self, t):
        e = self.num(t)
        return z3.ToReal(e) if z3.is_int(e) else e

    def _num(self, t):
        op = t.op
        ax = None
        if op == "num":
            c = t.a[0]
            r = z3.IntVal(c.numerator) if c.denominator == 1 else z3.RealVal(str(c))
        elif op == "var":
            r = z3.Const(t.a[0], {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}[t.sort])
            if t.extra == "nat":
                ax = r >= 0
            elif t.extra == "posint":
                ax = r >= 1
            elif t.extra == "pos":
                ax = r > 0
        elif op == "poly":
            if t.sort == "I":
                parts = []
                for m, c in t.a:
                    e = z3.IntVal(c.numerator)
                    for x, k in m:
                        for _ in range(int(k)):
                            e = e * self.num(x)
                    parts.append(e)
            else:
                parts = []
                for m, c in t.a:
                    e = z3.RealVal(str(c))
                    for x, k in m:
                        if k.denominator == 1:
                            b = self.real(x)
                            if k > 0:
                                for _ in range(int(k)):
                                    e = e * b
                            else:
                                inv = self.real(app_inv(x))
                                for _ in range(int(-k)):
                                    e = e * inv
                        else:
                            e = e * self.real(tm.app0("rpow", x, num(k)))
                    parts.append(e)
            r = parts[0] if len(parts) == 1 else z3.Sum(parts)
        elif op == "ite":
            c = self.bool(t.a[0])
            if t.sort == "I":
                r = z3.If(c, self.num(t.a[1]), self.num(t.a[2]))
            else:
                r = z3.If(c, self.real(t.a[1]), self.real(t.a[2]))
        elif op == "app" and t.a[0] in ("idiv", "imod") and len(t.a) == 3:
            a, b = self.num(t.a[1]), self.num(t.a[2])
            if z3.is_int(a) and z3.is_int(b):
                q = self.opaque(tm.app0("idiv", t.a[1], t.a[2], sort="I"), "I")
                r = q if t.a[0] == "idiv" else a - q * b
                ax = z3.Implies(b > 0, z3.And(q * b <= a, a < q * b + b))
            else:
                r = self.opaque(t, "R")
        elif op == "app" and t.a[0] in ("floor", "ceil"):
            x = self.real(t.a[1])
            f = z3.ToInt(x) if t.a[0] == "floor" else -z3.ToInt(-x)
            r = f
        elif op == "app":
            args = t.a[1:]
            if args and all(type(x) is T and x.sort in ("I", "R") for x in args):
                zs = [self.num(x) for x in args]
                f = z3.Function(f"f_{t.a[0]}_{''.join('i' if z3.is_int(z) else 'r' for z in zs)}_{t.sort}",
                                *[z.sort() for z in zs],
                                {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}[t.sort])
                r = f(*zs)
            elif any(type(x) is T and x.sort in ("I", "R") for x in args):
                # scalar arguments stay arguments; the others become part of the function's name, up to their free integers
                name, zs = [t.a[0]], []
                for x in args:
                    if type(x) is not T:
                        name.append(f"k{x}")
                    elif x.sort in ("I", "R"):
                        zs.append(self.num(x))
                        name.append("i" if z3.is_int(zs[-1]) else "r")
                    else:
                        sk, fv = x, self.free_ints(x)
                        for v in fv:
                            sk = tm.lam(v, sk)
                        zs += [self.num(v) for v in fv]
                        name.append(f"u{sk.uid}")
                f = z3.Function("g_" + "_".join(name) + "_" + t.sort, *[z.sort() for z in zs],
                                {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}[t.sort])
                r = f(*zs)
            else:
                r = self.opaque(t, t.sort)
            n = t.a[0]
            if n == "exp":
                ax = r > 0
            elif n == "sqrt":
                x = self.real(t.a[1])
                ax = z3.Implies(x >= 0, z3.And(r >= 0, r * r == x, z3.Implies(x > 0, r > 0)))
            elif n == "inv":
                x = self.real(t.a[1])
                ax = z3.Implies(x != 0, r * x == 1)
            elif n in ("sin", "cos"):
                ax = z3.And(r <= 1, r >= -1)
            elif n == "euler_gamma":
                ax = z3.And(r > z3.RealVal("0.5772"), r < z3.RealVal("0.5773"))
            elif n == "pi":
                ax = z3.And(r > z3.RealVal("3.14159265"), r < z3.RealVal("3.14159266"))
            elif n == "pow" and len(t.a) == 3:
                x = self.num(t.a[1])
                ax = z3.Implies(x > 0, r >= 1 if t.sort == "I" else r > 0)
            elif n == "log":
                x = self.real(t.a[1])
                ax = z3.And(z3.Implies(x > 1, r > 0), z3.Implies(x == 1, r == 0),
                            z3.Implies(z3.And(x > 0, x < 1), r < 0))
        elif op in ("sum",):
            r = self.opaque(t, t.sort)
        elif op == "arr" or op == "lam":
            r = z3.Const(f"a{t.uid}", z3.RealSort())
        elif op in ("ninf", "nan"):
            r = z3.Const(op, z3.RealSort())
        else:
            raise AssertionError(op, tm.show(t))
        if ax is not None and not any(v.a[0].startswith("β") for v in t.fv):
            _AXIOM[t] = ax
            self.cur.add(t)
        return r

    def _bool(self, t):
        op = t.op
        if op == "true":
            r = z3.BoolVal(True)
        elif op == "false":
            r = z3.BoolVal(False)
        elif op == "var":
            r = z3.Const(t.a[0], z3.BoolSort())
        elif op == "not":
            r = z3.Not(self.bool(t.a[0]))
        elif op == "and":
            r = z3.And([self.bool(x) for x in t.a])
        elif op == "or":
            r = z3.Or([self.bool(x) for x in t.a])
        elif op in ("le", "lt", "eq"):
            e = self.num(t.a[0])
            r = e <= 0 if op == "le" else e < 0 if op == "lt" else e == 0
        elif op == "forall":
            v = z3.Const(t.a[2].a[0].a[0], z3.IntSort())
            lo, hi = self.num(t.a[0]), self.num(t.a[1])
            r = z3.ForAll([v], z3.Implies(z3.And(lo <= v, v < hi), self.bool(t.a[2].a[1])))
        elif op == "app":
            r = self.num(t)
        elif op == "ite":
            r = z3.If(self.bool(t.a[0]), self.bool(t.a[1]), self.bool(t.a[2]))
        else:
            raise AssertionError(op, tm.show(t))
        return r


def app_inv(x):
    return tm.app0("inv", x)


# ------------------------------------------------------------------ contexts
class Ctx:
    """a conjunction of assumptions"""

    def __init__(self, assumptions=(), parent=None):
        base = parent.facts if parent else ()
        new = []
        for a in assumptions:
            new.extend(a.a if a.op == "and" else (a,))
        self.facts = tuple(base) + tuple(x for x in new if x is not TRUE)
        self.fset = set(self.facts)
        self.parent = parent
        self._ent = {}
        self._simp = {}
        self._feas = None
        self._solver = None

    def plus(self, *cs):
        return Ctx(cs, self)

    def _check(self, extra, timeout=None):
        check_deadline()
        z = Z()
        s = z3.Solver()
        s.set("timeout", timeout or Z3_TIMEOUT)
        fs = [z.bool(f) for f in self.facts] + [z.bool(x) for x in extra]
        s.add(*fs)
        s.add(*z.axioms)
        t0 = time.time()
        r = s.check()
        STATS["z3_calls"] += 1
        STATS["z3_s"] += time.time() - t0
        return r, s, z

    def feasible(self):
        if self._feas is None:
            if FALSE in self.fset or any(not_(f) in self.fset for f in self.facts):
                self._feas = False
            else:
                r, _, _ = self._check([])
                self._feas = r != z3.unsat
        return self._feas

    def entails(self, c, timeout=None):
        if c is TRUE or c in self.fset:
            return True
        if c is FALSE or not_(c) in self.fset:
            return not self.feasible() if c is FALSE else (not self.feasible())
        if c in self._ent:
            return self._ent[c]
        p = self.parent
        while p is not None:
            if p._ent.get(c):
                self._ent[c] = True
                return True
            p = p.parent
        if c.op == "and":
            r = all(self.entails(x) for x in c.a)
        else:
            rr, _, _ = self._check([not_(c)], timeout)
            r = rr == z3.unsat
        self._ent[c] = r
        return r

    def decide(self, c):
        """True / False / None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in self.fset:
            return True
        if not_(c) in self.fset:
            return False
        if c.op in ("le", "lt", "eq"):
            s = sign_of(c.a[0], self)
            if s is not None:
                if c.op == "le":
                    if s in ("neg", "zero", "nonpos"):
                        return True
                    if s == "pos":
                        return False
                elif c.op == "lt":
                    if s == "neg":
                        return True
                    if s in ("pos", "zero", "nonneg"):
                        return False
                else:
                    if s in ("neg", "pos"):
                        return False
        if self.entails(c):
            return True
        if self.entails(not_(c)):
            return False
        return None

    def model(self, extra=()):
        r, s, z = self._check(list(extra))
        if r != z3.sat:
            return None
        m = s.model()
        out = {}
        for t in {v for f in (*self.facts, *extra) for v in f.fv}:
            if t.op == "var":
                out[t] = m.eval(z.bool(t) if t.sort == "B" else z.num(t), model_completion=True)
        return out


def sign_of(t, ctx, depth=0):
    """cheap structural sign: pos / neg / nonneg / nonpos / zero / None"""
    op = t.op
    if op == "num":
        c = t.a[0]
        return "pos" if c > 0 else "neg" if c < 0 else "zero"
    if op == "var":
        if t.extra in ("posint", "pos"):
            return "pos"
        if t.extra == "nat":
            return "nonneg"
    if op == "app":
        n = t.a[0]
        if n in ("exp", "pi", "euler_gamma"):
            return "pos"
        if n == "sqrt":
            s = sign_of(t.a[1], ctx, depth + 1)
            return "pos" if s == "pos" else "nonneg"
        if n in ("norm",):
            return "nonneg"
        if n == "pow" and sign_of(t.a[1], ctx, depth + 1) == "pos":
            return "pos"
        if n in ("amax", "amin") and depth < 4:
            # an extreme entry of a nonempty array has the sign common to all entries
            b, c2 = t.a[1], ctx
            while type(b) is T and b.op == "arr":
                if not ctx.entails(lt(ZERO, b.a[0])):
                    return None
                v = fresh("v")
                c2 = c2.plus(le(ZERO, v), lt(v, b.a[0]))
                b = beta(b.a[1], v)
            return sign_of(b, c2, depth + 1) if b is not t.a[1] else None
    if op == "sum" and depth < 6:
        lo, hi, l = t.a
        v = fresh("v")
        c2 = ctx.plus(le(lo, v), lt(v, hi))
        s = sign_of(beta(l, v), c2, depth + 1)
        if s == "pos":
            if ctx.entails(lt(lo, hi)):
                return "pos"
            return "nonneg"
        if s == "neg":
            return "neg" if ctx.entails(lt(lo, hi)) else "nonpos"
        return s
    if op == "ite":
        if t.a[1] is neg(t.a[2]) and t.a[0] in (le(neg(t.a[1]), ZERO), le(ZERO, t.a[1])):
            return "nonneg"     # an absolute value
        a, b = sign_of(t.a[1], ctx.plus(t.a[0]), depth + 1), sign_of(t.a[2], ctx.plus(not_(t.a[0])), depth + 1)
        if a == b:
            return a
        if a and b:
            if {a, b} <= {"pos", "nonneg", "zero"}:
                return "nonneg"
            if {a, b} <= {"neg", "nonpos", "zero"}:
                return "nonpos"
        if depth < 4 and not _has_binder_free(t) and ctx.entails(le(ZERO, t)):
            return "nonneg"
        return None
    if op == "poly":
        tot = None
        for m, c in t.a:
            s = "pos" if c > 0 else "neg"
            for x, e in m:
                if e.denominator == 1 and int(e) % 2 == 0:
                    sx = sign_of(x, ctx, depth + 1)
                    sx = "pos" if (sx in ("pos", "neg") or e < 0) else "nonneg"
                else:
                    sx = sign_of(x, ctx, depth + 1)
                s = _mulsign(s, sx)
                if s is None:
                    break
            tot = s if tot is None else _addsign(tot, s)
            if tot is None:
                break
        if tot is not None:
            return tot
    if op in ("var", "poly") and depth < 4 and not _has_binder_free(t):
        if ctx.entails(lt(ZERO, t)):
            return "pos"
        if ctx.entails(lt(t, ZERO)):
            return "neg"
        if ctx.entails(le(ZERO, t)):
            return "nonneg"
    elif op == "app" and depth < 4:
        if ctx.entails(lt(ZERO, t)):
            return "pos"
    return None


def _has_binder_free(t):
    return any(v.a[0].startswith("β") for v in t.fv)


def _mulsign(a, b):
    if a is None or b is None:
        return None
    if a == "zero" or b == "zero":
        return "zero"
    n = (a in ("neg", "nonpos")) ^ (b in ("neg", "nonpos"))
    strict = a in ("pos", "neg") and b in ("pos", "neg")
    return ("neg" if strict else "nonpos") if n else ("pos" if strict else "nonneg")


def _addsign(a, b):
    if a is None or b is None:
        return None
    if a == "zero":
        return b
    if b == "zero":
        return a
    pa, pb = a in ("pos", "nonneg"), b in ("pos", "nonneg")
    if pa != pb:
        return None
    if pa:
        return "pos" if "pos" in (a, b) else "nonneg"
    return "neg" if "neg" in (a, b) else "nonpos"


# ------------------------------------------------------------------ simplification
def simp(t, ctx):
    check_deadline()
    op = t.op
    if op in ("num", "var", "true", "false", "ninf", "nan"):
        if op == "var" and t.sort == "B":
            d = ctx.decide(t)
            return TRUE if d else FALSE if d is False else t
        return t
    r = ctx._simp.get(t)
    if r is not None:
        return r
    if op == "poly":
        parts = []
        for m, c in t.a:
            g = num(c)
            for x, e in m:
                y = simp(x, ctx)
                if y.op == "app" and y.a[0] == "abs_" and e.denominator == 1 and int(e) % 2 == 0:
                    y = y.a[1]
                g = mul(g, powr(y, e))
            parts.append(g)
        r = add(*parts)
    elif op == "ite":
        c = simp(t.a[0], ctx)
        d = True if c is TRUE else False if c is FALSE else ctx.decide(c)
        if d is True:
            r = simp(t.a[1], ctx)
        elif d is False:
            r = simp(t.a[2], ctx)
        else:
            r = ite(c, simp(t.a[1], ctx.plus(c)), simp(t.a[2], ctx.plus(not_(c))))
    elif op in ("le", "lt", "eq"):
        p = simp(t.a[0], ctx)
        r = {"le": tm.le0, "lt": tm.lt0, "eq": tm.eq0}[op](p)
        d = ctx.decide(r)
        r = TRUE if d is True else FALSE if d is False else r
    elif op == "not":
        r = not_(simp(t.a[0], ctx))
    elif op == "and":
        r = and_(*[simp(x, ctx) for x in t.a])
    elif op == "or":
        r = or_(*[simp(x, ctx) for x in t.a])
    elif op == "sum":
        r = simp_sum(t, ctx)
    elif op == "forall":
        lo, hi = simp(t.a[0], ctx), simp(t.a[1], ctx)
        v = fresh("q")
        c2 = ctx.plus(le(lo, v), lt(v, hi))
        r = tm.forall(v, lo, hi, simp(beta(t.a[2], v), c2)) if c2.feasible() else TRUE
        if r.op == "forall" and ctx.decide(r):
            r = TRUE
    elif op == "arr":
        n = simp(t.a[0], ctx)
        v = fresh("q")
        c2 = ctx.plus(le(ZERO, v), lt(v, n))
        r = tm.arr(n, v, simp(beta(t.a[1], v), c2) if c2.feasible() else beta(t.a[1], v))
    elif op == "lam":
        v = fresh("q")
        r = lam(v, simp(beta(t, v), ctx))
    elif op == "app":
        args = [simp(x, ctx) if type(x) is T else x for x in t.a[1:]]
        r = simp_app(t.a[0], args, t.sort, ctx)
    else:
        raise AssertionError(op)
    ctx._simp[t] = r
    ctx._simp[r] = r
    return r


ODD = {"sin", "erf", "asinh", "tanh", "atan", "sinh"}
EVEN = {"cos", "cosh"}


def simp_app(f, args, sort, ctx):
    if f == "log":
        (t,) = args
        p = poly_of(t)
        if len(p) == 1:
            (m, c), = p.items()
            if c > 0 and (len(m) > 1 or c != 1 or (m and m[0][1] != 1)):
                ok = True
                for x, e in m:
                    if sign_of(x, ctx) != "pos":
                        ok = False
                if ok:
                    r = log_rat(c)
                    for x, e in m:
                        r = add(r, mul(num(e), simp_app("log", [x], "R", ctx)))
                    return r
        elif len(p) > 1:
            # factor out the common positive content
            c, m, rest = content(t)
            if (c != 1 or m) and all(sign_of(x, ctx) == "pos" for x, e in m) and c > 0:
                r = log_rat(c)
                for x, e in m:
                    r = add(r, mul(num(e), simp_app("log", [x], "R", ctx)))
                return add(r, app("log", rest))
    if f == "max" or f == "min" or f == "abs":
        r = app(f, *args)
        return simp(r, ctx)
    if f == "sqrt":
        (t,) = args
        p = poly_of(t)
        if len(p) > 1:
            r = poly_sqrt(t)
            if r is not None:
                s = sign_of(r, ctx)
                if s in ("pos", "nonneg", "zero"):
                    return r
                if s in ("neg", "nonpos"):
                    return neg(r)
                return simp(app("abs", r), ctx)
        if len(p) == 1:
            (m, c), = p.items()
            out, rest = [], []
            for x, e in m:
                s = sign_of(x, ctx)
                if s in ("pos", "nonneg", "zero") :
                    out.append((x, e))
                else:
                    rest.append((x, e))
            if c > 0 and (len(m) > 1 or c != 1 or (m and m[0][1] != 1)) and (not rest or out):
                if not rest or all(int(e) % 2 == 0 for x, e in rest if e.denominator == 1) :
                    r = powr(num(c), Fr(1, 2))
                    for x, e in out:
                        if e.denominator == 1 and int(e) % 2 == 0:
                            r = mul(r, powr(x, e / 2))
                        else:
                            r = mul(r, powr(app("sqrt", x), e))
                    for x, e in rest:
                        if e.denominator != 1:
                            return app("sqrt", t)
                        ax = app("abs", x)
                        r = mul(r, simp(powr(ax, e / 2), ctx) if int(e) // 2 % 2 else powr(x, e / 2))
                    return r
    if f in ODD or f in EVEN:
        (t,) = args
        if t is ZERO:
            return ZERO if f in ODD else ONE
        p = poly_of(t)
        lead = min(p.items(), key=lambda mc: tm._mono_key(mc[0]))[1] if p else 1
        if lead < 0:
            r = app(f, neg(t))
            return neg(r) if f in ODD else r
    return app(f, *args, sort=sort)


def poly_sqrt(t):
    """polynomial whose square is t, if there is one"""
    ats = sorted({x for m, _ in t.a for x, e in m}, key=lambda x: x.uid)
    if len(t.a) > 60 or any(e.denominator != 1 or e < 0 for m, _ in t.a for x, e in m):
        return None
    key = lambda m: tuple(dict(m).get(x, 0) for x in ats)

    def lead(q):
        return max(poly_of(q).items(), key=lambda mc: key(mc[0]))
    m, c = lead(t)
    if c < 0 or any(e % 2 for _, e in m):
        return None
    rc = powr(num(c), Fr(1, 2))
    if rc.op != "num":
        return None
    r = mul(rc, from_poly({tuple((x, e / 2) for x, e in m): Fr(1)}))
    lm, lc = lead(r) if r.op != "num" else ((), r.a[0])
    rest = sub(t, mul(r, r))
    for _ in range(30):
        if rest is ZERO:
            return r
        m, c = lead(rest) if rest.op != "num" else ((), rest.a[0])
        d = dict(m)
        for x, e in lm:
            d[x] = d.get(x, 0) - e
        if any(e < 0 for e in d.values()):
            return None
        q = from_poly({tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda xe: xe[0].uid)): c / (2 * lc)})
        rest = sub(rest, add(mul(num(2), r, q), mul(q, q)))
        r = add(r, q)
    return None


_primes = {}


def log_rat(c):
    """log of a positive rational as a combination of logs of primes"""
    r = ZERO
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        d = 2
        while n > 1 and d * d <= n and d < 10000:
            k = 0
            while n % d == 0:
                n //= d
                k += 1
            if k:
                r = add(r, mul(num(s * k), app("log", num(d))))
            d += 1
        if n > 1:
            r = add(r, mul(num(s), app("log", num(n))))
    return r


def content(t):
    """t = c * m * rest for a polynomial with several terms"""
    import math
    p = poly_of(t)
    common = None
    for m, c in p.items():
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {x: min(e, d[x]) for x, e in common.items() if x in d}
    g, l = 0, 1
    for c in p.values():
        g = math.gcd(g, c.numerator)
        l = l * c.denominator // math.gcd(l, c.denominator)
    c = Fr(g, l)
    m = tuple(sorted(common.items(), key=lambda xe: xe[0].uid))
    r = mul(t, powr(num(c), -1))
    for x, e in m:
        r = mul(r, powr(x, -e))
    return c, m, r


def solve_linear(p, v):
    """p linear in v with rational coefficient: (coef, rest) with p = coef*v + rest, else None"""
    coef = None
    rest = []
    for m, c in poly_of(p).items():
        if len(m) == 1 and m[0][0] is v and m[0][1] == 1:
            coef = c
        else:
            for x, e in m:
                if v in x.fv:
                    return None
            rest.append(mul(num(c), from_poly({m: Fr(1)})))
    if coef is None:
        return None
    return coef, (add(*rest) if rest else ZERO)


def find_ite_on(t, v):
    """an if-then-else atom of t (outside nested binders) whose condition mentions v"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen or v not in x.fv:
            continue
        seen.add(x)
        if x.op == "ite" and v in x.a[0].fv:
            return x
        if x.op == "poly":
            st.extend(y for m, c in x.a for y, e in m)
        elif x.op in ("lam", "sum", "forall", "arr"):
            # conditions inside nested binders are not split here
            if x.op == "sum":
                st.extend(x.a[:2])
            continue
        else:
            st.extend(y for y in x.a if type(y) is T)
    return None


def find_cond_on_deep(t, v):
    """atomic comparison on v only in nested binder bodies: conditions without the bound vars"""
    for x in tm.subterms(t):
        if x.op in ("le", "lt", "eq") and v in x.fv and not any(
                w.a[0].startswith("β") for w in x.fv):
            return x
    return None


def atomic_cond(c, v):
    if c.op in ("le", "lt", "eq"):
        return c if v in c.fv else None
    if c.op in ("and", "or"):
        for x in c.a:
            if v in x.fv:
                return atomic_cond(x, v)
    if c.op == "not":
        return atomic_cond(c.a[0], v)
    return None


def replace_cond(t, c, val):
    """t with the atomic condition c (and its negation) replaced by a truth value"""
    n = not_(c)

    def f(x):
        if x is c:
            return TRUE if val else FALSE
        if x is n:
            return FALSE if val else TRUE
        return None

    return tm.replace(t, f)


def simp_sum(t, ctx):
    lo, hi, l = simp(t.a[0], ctx), simp(t.a[1], ctx), t.a[2]
    d = ctx.decide(le(hi, lo))
    if d is True:
        return ZERO
    # pull if-then-else out of the bounds so that they become case splits
    if d is None and any(x.op == "ite" for x in (lo, hi)):
        pass
    # singleton range
    one = sub(hi, lo)
    if one is ONE:
        return simp(beta(l, lo), ctx)
    v = fresh("k")
    c2 = ctx.plus(le(lo, v), lt(v, hi))
    if not c2.feasible():
        return ZERO
    body = simp(beta(l, v), c2)
    return sum_split(v, lo, hi, body, ctx)


def sum_split(v, lo, hi, body, ctx, depth=0):
    """Sum with conditions on the summation variable resolved into sub-ranges"""
    if v not in body.fv:
        n = simp(tm.rlen(lo, hi), ctx)
        return mul(n, body)
    it = find_ite_on(body, v)
    ac = atomic_cond(it.a[0], v) if it is not None else None
    if ac is None and it is None:
        ac = find_cond_on_deep(body, v)
    if ac is None or depth > 12:
        r = sum_(v, lo, hi, body)
        return _post_sum(r, ctx)
    sl = solve_linear(ac.a[0], v)
    if sl is None or abs(sl[0]) != 1 or sl[1].sort != "I":
        r = sum_(v, lo, hi, body)
        return _post_sum(r, ctx)
    coef, rest = sl
    e = neg(rest) if coef == 1 else rest  # v ⋈ e
    yes, no = replace_cond(body, ac, True), replace_cond(body, ac, False)
    if ac.op == "eq":
        base = _resum(v, lo, hi, no, ctx, depth)
        inside = simp(and_(le(lo, e), lt(e, hi)), ctx)
        if inside is FALSE:
            return base
        cc = ctx.plus(inside)
        at = simp(sub(subst(yes, {v: e}), subst(no, {v: e})), cc)
        return add(base, ite(inside, at, ZERO))
    # v <= e / v < e (coef 1)    or   v >= e / v > e  (coef -1)
    if coef == 1:
        mid = add(e, ONE) if ac.op == "le" else e
        first, second = yes, no
    else:
        mid = e if ac.op == "le" else add(e, ONE)
        first, second = no, yes
    # clamp mid to [lo, hi]
    m = mid
    dl, dh = ctx.decide(le(lo, mid)), ctx.decide(le(mid, hi))
    if dl is False:
        m = lo
    elif dh is False:
        m = hi
    elif dl is None or dh is None:
        # unresolved: expose as a case split
        c = le(lo, mid) if dl is None else le(mid, hi)
        a = sum_split(v, lo, hi, body, ctx.plus(c), depth + 1)
        b = sum_split(v, lo, hi, body, ctx.plus(not_(c)), depth + 1)
        return ite(c, a, b)
    return add(_resum(v, lo, m, first, ctx, depth), _resum(v, m, hi, second, ctx, depth))


def _resum(v, lo, hi, body, ctx, depth):
    if ctx.decide(le(hi, lo)) is True or body is ZERO:
        return ZERO
    w = fresh("k")
    c2 = ctx.plus(le(lo, w), lt(w, hi))
    if not c2.feasible():
        return ZERO
    b = simp(subst(body, {v: w}), c2)
    # linearity: split sums of terms separately only through sum_
    return sum_split(w, lo, hi, b, ctx, depth + 1)


def from_only(off, v):
    """the part of an offset that depends on v"""
    return tm.from_poly({m: c for m, c in tm.poly_of(off).items() if any(v in x.fv for x, _ in m)})


def _post_sum(r, ctx):
    """lemmas on sums: telescoping partition  Sum_c Sum_{S(c)<=i<E(c)} g(i) = Sum_{S(0)<=i<E(N-1)} g(i)"""

    def f(x):
        if x.op != "sum":
            return None
        lo, hi, l = x.a
        v = fresh("c")
        b = beta(l, v)
        if b.op != "sum":
            return None
        ilo, ihi, il = b.a
        if v not in ilo.fv and v not in ihi.fv:
            return None
        if v in il.fv:
            # the summand depends on the position off(c) + i only: shift the inner range
            i = fresh("k")
            body = beta(il, i)
            off = None
            for q in tm.subterms(body):
                if q.op == "poly" and q.sort == "I" and v in q.fv and i in q.fv:
                    sl = solve_linear(q, i)
                    if sl is not None and sl[0] == 1 and v in sl[1].fv:
                        off = sl[1]
                        break
            if off is None:
                return None
            off = from_only(off, v)
            body = subst(body, {i: sub(i, off)})
            if v in body.fv:
                return None
            ilo, ihi, il = add(ilo, off), add(ihi, off), tm.lam(i, body)
        c2 = ctx.plus(le(lo, v), lt(v, hi))
        nxt = subst(ilo, {v: add(v, ONE)})
        if not c2.entails(le(ilo, ihi)):
            return None
        if not c2.plus(lt(add(v, ONE), hi)).entails(eq(ihi, nxt)):
            return None
        if not ctx.entails(lt(lo, hi)):
            return None
        w = fresh("k")
        s = subst(ilo, {v: lo})
        e = simp(subst(ihi, {v: sub(hi, ONE)}), ctx)
        return sum_(w, simp(s, ctx), e, beta(il, w))

    if r.op == "sum":
        q = f(r)
        return q if q is not None else r
    if r.op == "poly":
        out = []
        ch = False
        for m, c in r.a:
            g = num(c)
            for x, e in m:
                q = f(x) if x.op == "sum" else None
                if q is not None:
                    ch = True
                    g = mul(g, powr(q, e))
                else:
                    g = mul(g, powr(x, e))
            out.append(g)
        if ch:
            return add(*out)
    return r


# ------------------------------------------------------------------ equality prover
class Result:
    def __init__(self, ok, why="", path=()):
        self.ok, self.why, self.path = ok, why, path

    def __bool__(self):
        return self.ok


def closed_cond(t):
    """an atomic condition occurring in t that does not involve bound variables"""
    best = None
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            c = x.a[0]
            cc = first_closed(c)
            if cc is not None:
                return cc
        if x.op == "poly":
            st.extend(y for m, c in x.a for y, e in m)
        else:
            st.extend(y for y in x.a if type(y) is T)
    return best


def first_closed(c):
    if c.op in ("and", "or"):
        for x in c.a:
            y = first_closed(x)
            if y is not None:
                return y
        return None
    if c.op == "not":
        return first_closed(c.a[0])
    if _has_binder_free(c):
        return None
    if c.op in ("true", "false"):
        return None
    return c


def prove_eq(a, b, ctx, depth=0):
    if depth == 0:
        STATS["prove_eq"] += 1
    check_deadline()
    if a is b:
        return Result(True)
    if a.op == "arr" and b.op == "arr":
        return prove_arr_eq(a, b, ctx, depth)
    if a.sort == "B":
        return prove(and_(tm.implies(a, b), tm.implies(b, a)), ctx)
    if a.op in ("ninf", "nan") or b.op in ("ninf", "nan"):
        a2, b2 = simp(a, ctx), simp(b, ctx)
        if a2 is b2:
            return Result(True)
        for x, y in ((a2, b2), (b2, a2)):
            if x.op == "ite":
                r = prove_eq(x.a[1], y, ctx.plus(x.a[0]), depth + 1) if ctx.plus(x.a[0]).feasible() else Result(True)
                if not r:
                    return r
                return prove_eq(x.a[2], y, ctx.plus(not_(x.a[0])), depth + 1) if ctx.plus(not_(x.a[0])).feasible() else Result(True)
        return Result(False, f"{tm.show(a2)} vs {tm.show(b2)}", ctx.facts)
    d = simp(sub(a, b), ctx)
    return _prove_zero(d, ctx, depth)


def _prove_zero(d, ctx, depth, used=frozenset()):
    check_deadline()
    if d is ZERO:
        return Result(True)
    if not ctx.feasible():
        return Result(True)
    if depth > 40:
        return Result(False, "case-split depth: " + tm.show(d)[:2000], ctx.facts)
    c = closed_cond(d)
    if c is not None:
        for cc in (c, not_(c)):
            c2 = ctx.plus(cc)
            if c2.feasible():
                r = _prove_zero(simp(replace_cond(d, c, cc is c), c2), c2, depth + 1)
                if not r:
                    return r
        return Result(True)
    # substitute variables known by equalities  v = e
    for f in ctx.facts:
        if f.op == "eq":
            for v in f.a[0].fv:
                if v in d.fv and v.sort == "I" and v not in used:
                    sl = solve_linear(f.a[0], v)
                    if sl and abs(sl[0]) == 1 and sl[1].sort == "I":
                        e = neg(sl[1]) if sl[0] == 1 else sl[1]
                        d2 = simp(subst(d, {v: e}), ctx)
                        if v not in d2.fv:
                            return _prove_zero(d2, ctx, depth + 1, used | {v})
    # merge sums over provably equal ranges and prove bodies equal
    d1 = match_atoms(d, ctx, depth)
    if d1 is not d:
        return _prove_zero(simp(d1, ctx), ctx, depth + 1)
    d1 = split_ranges(d, ctx)
    if d1 is not d:
        return _prove_zero(simp(d1, ctx), ctx, depth + 1)
    # clear denominators
    den = {}
    for m, k in poly_of(d).items():
        for x, e in m:
            if e < 0:
                den[x] = min(den.get(x, 0), e)
    if den and depth < 38:
        d2 = d
        up = {x: -e for x, e in den.items() if sign_of(x, ctx) in ("pos", "neg") or ctx.entails(not_(eq(x, ZERO)))}
        if up:
            parts = []
            for m, c in poly_of(d).items():
                mm = dict(m)
                g = num(c)
                for x, e in up.items():
                    mm[x] = mm.get(x, 0) + e
                for x, e in mm.items():
                    g = mul(g, powr(x, e)) if e != 0 else g
                parts.append(g)
            d2 = add(*parts)
        if d2 is not d:
            # re-expand (x is an atom; compound denominators are kept as atoms of poly op)
            d2 = simp(expand(d2), ctx)
            if d2 is not d:
                return _prove_zero(d2, ctx, max(depth + 1, 30))
    d2 = join_sqrt(d, ctx)
    if d2 is not d and depth < 40:
        return _prove_zero(simp(d2, ctx), ctx, depth + 1)
    d2 = _compare_squares(d, ctx)
    if d2 is not None and depth < 40 and _prove_zero(simp(d2, ctx), ctx, 40):
        return Result(True)
    if _fubini_zero(d):
        return Result(True)
    if d.sort in ("I", "R") and ctx.entails(eq(d, ZERO), timeout=8000):
        return Result(True)
    return Result(False, "not zero: " + tm.show(d)[:3000], ctx.facts)


def _multisum(t):
    """t as a list of (ranges, core): t = sum of (sum over all the ranges of core), finite sums interchanged"""
    out = []
    for m, c in poly_of(t).items():
        acc = [((), num(c))]
        for x, e in m:
            if x.op == "sum" and e.denominator == 1 and 0 < e <= 3:
                for _ in range(int(e)):
                    lo, hi, l = x.a
                    k = tm.fresh("f")
                    inner = _multisum(tm.beta(l, k))
                    acc = [(rs + ((k, lo, hi),) + r2, mul(g, g2)) for rs, g in acc for r2, g2 in inner]
                    if len(acc) > 200:
                        raise OverflowError
            else:
                f = from_poly({((x, e),): Fr(1)})
                acc = [(rs, mul(g, f)) for rs, g in acc]
        out += acc
    return out


def _compare_squares(d, ctx):
    """c1 m1 - c2 m2 with non-negative c1 m1, c2 m2 involving square roots: the difference of the squares"""
    p = list(poly_of(d).items())
    if len(p) != 2 or p[0][1] * p[1][1] > 0:
        return None
    root = False
    out = []
    for m, c in p:
        for x, e in m:
            if x.op == "app" and x.a[0] == "sqrt":
                root = True
            elif not (e.denominator == 1 and int(e) % 2 == 0) and sign_of(x, ctx) not in ("pos", "nonneg", "zero"):
                return None
        t = from_poly({m: abs(c)})
        out.append(tm.powr(t, 2))
    return sub(out[0], out[1]) if root else None


def _fubini_zero(d):
    """d is zero after distributing products over finite sums and interchanging sums"""
    import itertools
    try:
        ms = _multisum(d)
    except OverflowError:
        return False
    if max((len(r) for r, _ in ms), default=0) < 2:
        return False
    classes = []
    flat = []
    for rs, g in ms:
        for m, c in poly_of(g).items():
            flat.append((rs, from_poly({m: Fr(1)}), c))
    if len(flat) > 200:
        return False
    for rs, g, c in flat:
        rs = list(rs)
        keep = []
        for q in range(len(rs) - 1, -1, -1):
            v, lo, hi = rs[q]
            if v not in g.fv and not any(v in a.fv or v in b.fv for _, a, b in rs[q + 1:]):
                if lo is not ZERO or v in hi.fv:
                    keep.insert(0, rs[q])
                    continue
                # a summation variable that does not occur: a factor (lengths are natural numbers)
                if hi.extra in ("nat", "posint"):
                    g = mul(g, hi)
                    continue
            keep.insert(0, rs[q])
        if len(keep) > 5:
            return False
        for cl in classes:
            if len(cl[0]) != len(keep):
                continue
            hit = False
            for perm in itertools.permutations(range(len(keep))):
                mp = {keep[perm[q]][0]: cl[0][q][0] for q in range(len(keep))}
                if subst(g, mp) is not cl[1]:
                    continue
                if all(subst(keep[perm[q]][1], mp) is cl[0][q][1] and subst(keep[perm[q]][2], mp) is cl[0][q][2] for q in range(len(keep))):
                    hit = True
                    break
            if hit:
                cl[2] += c
                break
        else:
            classes.append([keep, g, c])
    return all(cl[2] == 0 for cl in classes)


def split_ranges(d, ctx):
    """sums of one body over nested ranges with a common end: split the longer one"""
    sums = []
    for m, c in poly_of(d).items():
        for x, e in m:
            if x.op == "sum" and x not in sums:
                sums.append(x)
    for x in sums:
        for y in sums:
            if x is y or x.a[2] is not y.a[2]:
                continue
            (l1, h1), (l2, h2) = x.a[:2], y.a[:2]
            # y is the part of x
            if l1 is l2 and ctx.entails(and_(le(l1, h2), le(h2, h1))):
                k = tm.fresh("k")
                rest = tm.sum_(k, h2, h1, tm.beta(x.a[2], k))
            elif h1 is h2 and ctx.entails(and_(le(l1, l2), le(l2, h1))):
                k = tm.fresh("k")
                rest = tm.sum_(k, l1, l2, tm.beta(x.a[2], k))
            else:
                continue
            new = add(y, rest)
            return tm.replace(d, lambda t: new if t is x else None)
    return d


def join_sqrt(d, ctx):
    """sqrt(a)*sqrt(b) = sqrt(a*b) for a, b >= 0"""
    out = []
    ch = False
    for m, c in poly_of(d).items():
        for sgn in (1, -1):
            sq = [x for x, e in m if e == sgn and x.op == "app" and x.a[0] == "sqrt"
                  and sign_of(x.a[1], ctx) in ("pos", "nonneg", "zero")]
            if len(sq) > 1:
                ch = True
                pr = ONE
                for x in sq:
                    pr = mul(pr, x.a[1])
                m = tuple((x, e) for x, e in m if x not in sq)
                g = mul(from_poly({m: c}), powr(tm.app0("sqrt", pr), sgn))
                out.append(g)
                break
        else:
            out.append(from_poly({m: c}))
    return add(*out) if ch else d


def expand(t):
    r = ZERO
    for m, c in poly_of(t).items():
        g = num(c)
        for x, e in m:
            if e.denominator == 1 and e > 0 and x.op == "poly":
                y = x
                for _ in range(int(e)):
                    g = mul(g, y)
            else:
                g = mul(g, from_poly({((x, e),): Fr(1)}))
        r = add(r, g)
    return r


def match_atoms(d, ctx, depth):
    """congruence: unify opaque applications with extensionally equal arguments, sums with
    provably equal ranges and bodies"""
    ats = []
    seen = set()
    for m, c in poly_of(d).items():
        for x, e in m:
            if x not in seen:
                seen.add(x)
                ats.append(x)
    # top-level atoms and applications nested in them (not under binders)
    allats = []
    st = list(ats)
    s2 = set()
    while st:
        x = st.pop()
        if x in s2:
            continue
        s2.add(x)
        if x.op in ("app", "sum"):
            allats.append(x)
        if x.op == "poly":
            st.extend(y for m, c in x.a for y, e in m)
        elif x.op in ("app", "ite"):
            st.extend(y for y in x.a if type(y) is T and y.op not in ("lam", "arr"))
        elif x.op == "sum":
            st.extend(x.a[:2])
    allats.sort(key=lambda t: t.uid)
    for i in range(len(allats)):
        for j in range(i + 1, len(allats)):
            x, y = allats[i], allats[j]
            if x.op != y.op:
                continue
            if x.op == "app":
                if x.a[0] != y.a[0] or len(x.a) != len(y.a):
                    continue
                if all(p is q or (type(p) is T and type(q) is T and p.sort == q.sort
                                  and _cheap_eq(p, q, ctx, depth)) for p, q in zip(x.a[1:], y.a[1:])):
                    return tm.replace(d, lambda t: x if t is y else None)
            elif x.op == "sum":
                sh = sub(y.a[0], x.a[0])      # ranges of equal length, shifted by sh
                if not (_same(sh, sub(y.a[1], x.a[1]), ctx)):
                    continue
                v = fresh("k")
                c2 = ctx.plus(le(x.a[0], v), lt(v, x.a[1]))
                bx, by = beta(x.a[2], v), beta(y.a[2], add(v, sh))
                if depth < 12 and _prove_zero(simp(sub(bx, by), c2), c2, depth + 5):
                    return tm.replace(d, lambda t: x if t is y else None)
    # linear combination of several sums over one range that cancels pointwise
    groups = {}
    for m, c in poly_of(d).items():
        sums = [(x, e) for x, e in m if x.op == "sum" and e == 1]
        if len(sums) == 1:
            x = sums[0][0]
            for k in groups:
                if _same(k[0], x.a[0], ctx) and _same(k[1], x.a[1], ctx):
                    groups[k].append((m, c, x))
                    break
            else:
                groups[(x.a[0], x.a[1])] = [(m, c, x)]
    for (lo, hi), items in groups.items():
        if len(items) > 1 and depth < 12:
            v = fresh("k")
            c2 = ctx.plus(le(lo, v), lt(v, hi))
            tot = ZERO
            for m, c, x in items:
                rest = from_poly({tuple((y, e) for y, e in m if y is not x): c})
                tot = add(tot, mul(rest, beta(x.a[2], v)))
            st = simp(tot, c2)
            if st is ZERO or (_prove_zero(st, c2, depth + 6)):
                r = d
                for m, c, x in items:
                    r = sub(r, from_poly({m: c}))
                return r
            new = sum_split(v, lo, hi, st, ctx)
            r = d
            for m, c, x in items:
                r = sub(r, from_poly({m: c}))
            r2 = simp(add(r, new), ctx)
            if len(poly_of(r2)) < len(poly_of(d)):
                return r2
    return d


def _same(a, b, ctx):
    return a is b or ctx.entails(eq(a, b))


def _cheap_eq(p, q, ctx, depth):
    if p.sort == "A":
        return bool(prove_arr_eq(p, q, ctx, depth + 3))
    if p.sort == "L":
        v = fresh("k")
        return bool(prove_eq(beta(p, v), beta(q, v), ctx, depth + 3)) if depth < 12 else False
    if p.sort == "B":
        return False
    if depth >= 12:
        return False
    return bool(_prove_zero(simp(sub(p, q), ctx), ctx, depth + 3))


def prove_arr_eq(a, b, ctx, depth=0):
    if a is b:
        return Result(True)
    if a.op != "arr" or b.op != "arr":
        if a.op == "ite" or b.op == "ite":
            x, y = (a, b) if a.op == "ite" else (b, a)
            for c, z in ((x.a[0], x.a[1]), (not_(x.a[0]), x.a[2])):
                c2 = ctx.plus(c)
                if c2.feasible():
                    r = prove_arr_eq(z, y, c2, depth + 1)
                    if not r:
                        return r
            return Result(True)
        if a.op == "app" and b.op == "app" and a.a[0] == b.a[0] and len(a.a) == len(b.a):
            if all(p is q or (type(p) is T and type(q) is T and _cheap_eq(p, q, ctx, depth)) for p, q in zip(a.a[1:], b.a[1:])):
                return Result(True)
        return Result(False, f"arrays differ: {tm.show(a)[:800]} vs {tm.show(b)[:800]}", ctx.facts)
    r = prove_eq(a.a[0], b.a[0], ctx, depth + 1)
    if not r:
        return r
    v = fresh("k")
    c2 = ctx.plus(le(ZERO, v), lt(v, a.a[0]))
    if not c2.feasible():
        return Result(True)
    x, y = beta(a.a[1], v), beta(b.a[1], v)
    if x.sort == "A" or y.sort == "A":
        return prove_arr_eq(x, y, c2, depth + 1)
    return prove_eq(x, y, c2, depth + 1)


def prove(c, ctx, depth=0):
    """prove a boolean term"""
    c = simp(c, ctx)
    if c is TRUE or not ctx.feasible():
        return Result(True)
    if c.op == "and":
        for x in c.a:
            r = prove(x, ctx, depth + 1)
            if not r:
                return r
        return Result(True)
    if c.op == "forall":
        v = fresh("k")
        return prove(beta(c.a[2], v), ctx.plus(le(c.a[0], v), lt(v, c.a[1])), depth + 1)
    if c.op == "eq":
        return prove_eq(c.a[0], ZERO, ctx)
    if c.op == "or":
        # assume the negation of all but the last comparison
        xs = list(c.a)
        xs.sort(key=lambda t: (t.op in ("eq", "forall"), t.uid))
        c2 = ctx.plus(*[not_(x) for x in xs[:-1]])
        if not c2.feasible():
            return Result(True)
        return prove(xs[-1], c2, depth + 1)
    cc = closed_cond(c)
    if cc is not None and depth < 20:
        for z in (cc, not_(cc)):
            c2 = ctx.plus(z)
            if c2.feasible():
                r = prove(replace_cond(c, cc, z is cc), c2, depth + 1)
                if not r:
                    return r
        return Result(True)
    if c.op in ("le", "lt"):
        s = sign_of(c.a[0], ctx)
        if s in (("neg", "zero", "nonpos") if c.op == "le" else ("neg",)):
            return Result(True)
    if ctx.entails(c, timeout=10000):
        return Result(True)
    if c.op in ("le", "lt") and depth < 3:
        # a known comparison of provably equal sides
        syms = _opaque(c.a[0])
        for f in ctx.facts:
            if f.op in ("le", "lt") and (f.op == c.op or f.op == "lt") and syms and not syms.isdisjoint(_opaque(f.a[0])):
                r = content_free(f.a[0]), content_free(c.a[0])
                if prove_eq(r[0], r[1], ctx, 6):
                    return Result(True)
    return Result(False, "unproved: " + tm.show(c)[:2000], ctx.facts)


def _opaque(t):
    return {x.a[0] for x in tm.subterms(t) if x.op == "app"}


def content_free(t):
    """t divided by its positive rational content"""
    import math
    cs = [c for m, c in poly_of(t).items()]
    if not cs:
        return t
    g = Fr(math.gcd(*[abs(c.numerator) for c in cs]), math.lcm(*[c.denominator for c in cs]))
    return tm.mul(num(1 / g), t)
