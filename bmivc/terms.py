"""Hash-consed term language of the verifier.

Numbers are polynomials with rational coefficients over atoms (variables, uninterpreted and
interpreted applications, symbolic sums, if-then-else); booleans are comparisons against 0 and
connectives; `lam` terms represent functions of an index and are alpha-canonical by construction.
"""
from fractions import Fraction as Fr

_tab = {}
_cnt = [0]


class T:
    __slots__ = ("op", "a", "uid", "sort", "fv", "h", "extra", "__weakref__")

    def __repr__(self):
        return show(self)


def _mk(op, a, sort, fv=None, h=None):
    key = (op, a, sort)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.a, t.sort = op, a, sort
    t.uid = _cnt[0]
    _cnt[0] += 1
    t.extra = None
    if fv is None:
        s = set()
        hh = 0
        for x in a:
            if type(x) is T:
                s |= x.fv
                if x.h > hh:
                    hh = x.h
        t.fv = frozenset(s)
        t.h = hh
    else:
        t.fv, t.h = fv, h
    _tab[key] = t
    return t


# ---------------------------------------------------------------- constants, variables
def num(x):
    if not isinstance(x, Fr):
        x = Fr(x)
    return _mk("num", (x,), "I" if x.denominator == 1 else "R")


ZERO, ONE = num(0), num(1)
TRUE = _mk("true", (), "B")
FALSE = _mk("false", (), "B")
NINF = _mk("ninf", (), "R")
NAN = _mk("nan", (), "R")


def var(name, sort="R"):
    t = _tab.get(("var", (name,), sort))
    if t is None:
        t = _mk("var", (name,), sort, frozenset(), 0)
        t.fv = frozenset([t])
    return t


_fresh = [0]


def fresh(prefix="k", sort="I"):
    _fresh[0] += 1
    return var(f"{prefix}!{_fresh[0]}", sort)


def is_num(t):
    return t.op == "num"


# ---------------------------------------------------------------- polynomials
# 'poly': a = tuple of (mono, coeff), mono = tuple of (atom, exponent) sorted by uid
def poly_of(t):
    if t.op == "num":
        return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.op == "poly":
        return dict(t.a)
    return {((t, Fr(1)),): Fr(1)}


def _mono_key(m):
    return tuple((x.uid, e) for x, e in m)


def from_poly(p):
    items = [(m, c) for m, c in p.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: _mono_key(mc[0]))
    fv = set()
    h = 0
    sort = "I"
    for m, c in items:
        if c.denominator != 1:
            sort = "R"
        for x, e in m:
            fv |= x.fv
            if x.h > h:
                h = x.h
            if x.sort != "I" or e.denominator != 1 or e < 0:
                sort = "R"
    return _mk("poly", tuple(items), sort, frozenset(fv), h)


def add(*ts):
    if len(ts) == 2:
        if ts[0] is ZERO:
            return ts[1]
        if ts[1] is ZERO:
            return ts[0]
    for t in ts:
        if t.op in ("nan",):
            return t
    for t in ts:
        if t.op in ("ninf",):
            return NAN if PINF in ts else t
    if PINF in ts:
        return PINF
    # -oo inside one branch of an if-then-else: push the addition inside
    for k, t in enumerate(ts):
        if t.op == "ite" and (t.a[1].op == "ninf" or t.a[2].op == "ninf"):
            rest = ts[:k] + ts[k + 1:]
            return ite(t.a[0], add(t.a[1], *rest), add(t.a[2], *rest))
    p = dict(poly_of(ts[0]))
    for t in ts[1:]:
        for m, c in (t.a if t.op == "poly" else poly_of(t).items()):
            p[m] = p.get(m, 0) + c
    return from_poly(p)


def _mul_mono(m1, m2):
    """product of two monomials -> (monomial, extra factor term or None)"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = {}
    for x, e in m1:
        d[x] = e
    extra = None
    for x, e in m2:
        d[x] = d.get(x, 0) + e
    out = []
    for x, e in d.items():
        if e == 0:
            continue
        if x.op == "app" and x.a[0] == "sqrt" and (e >= 2 or e <= -2):
            q = int(e / 2) if e > 0 else -int(-e / 2)
            r = e - 2 * q
            f = powr(x.a[1], Fr(q))
            extra = f if extra is None else mul(extra, f)
            if r == 0:
                continue
            e = r
        out.append((x, e))
    out.sort(key=lambda xe: xe[0].uid)
    return tuple(out), extra


def mul(*ts):
    if len(ts) > 2:
        r = ts[0]
        for t in ts[1:]:
            r = mul(r, t)
        return r
    a, b = ts
    if a.op == "nan" or b.op == "nan":
        return NAN
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a is ZERO or b is ZERO:
        return ZERO
    if a.op == "ninf" or b.op == "ninf":
        if a.op == "num" and a.a[0] > 0 or b.op == "num" and b.a[0] > 0:
            return NINF
        if a.op == "num" and a.a[0] < 0 or b.op == "num" and b.a[0] < 0:
            return PINF
        return app("infmul", a, b)
    if a is PINF or b is PINF:
        o = b if a is PINF else a
        if o.op == "num":
            return PINF if o.a[0] > 0 else NINF
        if o is PINF:
            return PINF
        if o.op == "ite":
            return ite(o.a[0], mul(o.a[1], PINF), mul(o.a[2], PINF))
        return app("infmul", PINF, o)
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and (x.a[1].op == "ninf" or x.a[2].op == "ninf"):
            return ite(x.a[0], mul(x.a[1], y), mul(x.a[2], y))
    pa = a.a if a.op == "poly" else tuple(poly_of(a).items())
    pb = b.a if b.op == "poly" else tuple(poly_of(b).items())
    p = {}
    extras = []
    for m1, c1 in pa:
        for m2, c2 in pb:
            m, ex = _mul_mono(m1, m2)
            if ex is None:
                p[m] = p.get(m, 0) + c1 * c2
            else:
                extras.append(mul(from_poly({m: c1 * c2}), ex))
    r = from_poly(p)
    if extras:
        r = add(r, *extras)
    return r


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def powr(t, e):
    """t**e for a rational constant e (real arithmetic; bases of fractional powers are >= 0)"""
    e = Fr(e)
    if e == 0:
        return ONE
    if t is PINF:
        return PINF if e > 0 else ZERO
    if e == 1:
        return t
    if t.op == "nan":
        return t
    if t.op == "num":
        c = t.a[0]
        if e.denominator == 1:
            if c == 0 and e < 0:
                return app("div0")
            return num(c ** int(e))
        if e.denominator == 2 and c >= 0:
            # exact square roots of rationals
            import math
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return powr(num(Fr(n, d)), e * 2)
            s = app0("sqrt", t)
            k = int(e * 2)
            return powr(s, Fr(k))
        return app0("rpow", t, num(e))
    if t.op == "ite":
        return ite(t.a[0], powr(t.a[1], e), powr(t.a[2], e))
    if e.denominator == 1:
        if t.op == "poly" and len(t.a) > 1:
            if e > 0 and e <= 6:
                r = t
                for _ in range(int(e) - 1):
                    r = mul(r, t)
                return r
            if e < 0:
                # normalise the leading coefficient
                c = t.a[0][1]
                tt = mul(num(1 / c), t)
                return from_poly({((tt, e),): c ** int(e)}) if e < 0 else None
        if t.op == "poly":  # single monomial
            (m, c), = t.a
            r = num(c ** int(e))
            for x, k in m:
                r = mul(r, _atom_pow(x, k * e))
            return r
        return _atom_pow(t, e)
    if e.denominator == 2:
        s = app("sqrt", t)
        return powr(s, e * 2)
    return app0("rpow", t, num(e))


def _atom_pow(x, e):
    if x.op == "app" and x.a[0] == "sqrt" and (e >= 2 or e <= -2):
        q = int(e / 2) if e > 0 else -int(-e / 2)
        r = e - 2 * q
        f = powr(x.a[1], Fr(q))
        return mul(f, from_poly({((x, r),): Fr(1)})) if r else f
    return from_poly({((x, e),): Fr(1)})


def div(a, b):
    return mul(a, powr(b, -1))


# ---------------------------------------------------------------- applications
def app0(f, *args, sort="R"):
    return _mk("app", (f,) + args, sort)


_BOOL_FUNCS = set()
_INT_FUNCS = {"floor", "ceil", "idiv", "imod", "trunc"}


PINF = app0("pinf")


def app(f, *args, sort=None):
    """smart constructor of applications of named functions to terms"""
    if sort is None:
        sort = "I" if f in _INT_FUNCS else "R"
    if f == "log":
        (t,) = args
        if t is ONE:
            return ZERO
        if t.op == "app" and t.a[0] == "exp":
            return t.a[1]
        if t.op == "ite":
            return ite(t.a[0], app("log", t.a[1]), app("log", t.a[2]))
        if t is ZERO:
            return NINF
        if t.op == "poly" and len(t.a) == 1:
            (m, c), = t.a
            if c == 1 and len(m) == 1 and m[0][0].op == "app" and m[0][0].a[0] == "exp":
                return mul(num(m[0][1]), m[0][0].a[1])
    elif f == "exp":
        (t,) = args
        if t is ZERO:
            return ONE
        if t.op == "ninf":
            return ZERO
        if t is PINF:
            return PINF
        if t.op == "ite":
            return ite(t.a[0], app("exp", t.a[1]), app("exp", t.a[2]))
        # exp(sum c_k m_k) = prod exp(m_k)^c_k ; exp(c*log(u)) = u^c
        p = poly_of(t)
        if len(p) > 1 or (len(p) == 1 and next(iter(p.values())) != 1):
            r = ONE
            for m, c in p.items():
                base = from_poly({m: Fr(1)})
                if base is ONE:
                    # e^c = (e^1)^c
                    r = mul(r, _atom_pow(app0("exp", ONE), c))
                elif base.op == "app" and base.a[0] == "log" and c.denominator == 1:
                    r = mul(r, powr(base.a[1], c))
                elif base.op == "ite":
                    r = mul(r, powr(app("exp", base), c) if c.denominator == 1 else app0("exp", mul(num(c), base)))
                else:
                    r = mul(r, _atom_pow(app0("exp", base), c))
            return r
        if t.op == "app" and t.a[0] == "log":
            return t.a[1]
    elif f == "sqrt":
        (t,) = args
        if t.op == "num" and t.a[0] >= 0:
            import math
            c = t.a[0]
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return num(Fr(n, d))
        if t.op == "ite":
            return ite(t.a[0], app("sqrt", t.a[1]), app("sqrt", t.a[2]))
    elif f == "abs":
        (t,) = args
        if t.op == "num":
            return num(abs(t.a[0]))
        return ite(le(ZERO, t), t, neg(t))
    elif f == "max":
        a, b = args
        if a is b:
            return a
        if a.op == "ninf":
            return b
        if b.op == "ninf":
            return a
        return ite(le(a, b), b, a)
    elif f == "min":
        a, b = args
        if a is b:
            return a
        return ite(le(a, b), a, b)
    elif f == "sign":
        (t,) = args
        return ite(lt(ZERO, t), ONE, ite(lt(t, ZERO), num(-1), ZERO))
    elif f in ("floor", "ceil", "trunc"):
        (t,) = args
        if t.sort == "I":
            return t
        if t.op == "num":
            import math
            return num({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}[f](t.a[0]))
    elif f == "idiv":
        a, b = args
        if a.op == "num" and b.op == "num" and b.a[0] != 0:
            return num(a.a[0] // b.a[0])
    elif f == "imod":
        a, b = args
        if a.op == "num" and b.op == "num" and b.a[0] != 0:
            return num(a.a[0] % b.a[0])
    return _mk("app", (f,) + args, sort)


# ---------------------------------------------------------------- booleans
def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.a[0]
    if c.op == "le":  # p <= 0  ->  -p < 0
        return lt0(neg(c.a[0]))
    if c.op == "lt":
        return le0(neg(c.a[0]))
    return _mk("not", (c,), "B")


def _scale(p, keep_sign):
    """normalise the polynomial of a comparison: leading coefficient +-1 / integer primitive"""
    it = p.a if p.op == "poly" else tuple(poly_of(p).items())
    if not it:
        return p
    import math
    g = 0
    l = 1
    for _, c in it:
        g = math.gcd(g, c.numerator)
        l = l * c.denominator // math.gcd(l, c.denominator)
    f = Fr(l, g)
    if not keep_sign and it[-1][1] < 0:
        f = -f
    if f == 1:
        return p
    return mul(num(f), p)


def le0(p):
    if p.op == "num":
        return TRUE if p.a[0] <= 0 else FALSE
    if p.op == "ninf":
        return TRUE
    return _mk("le", (_scale(p, True),), "B")


def lt0(p):
    if p.op == "num":
        return TRUE if p.a[0] < 0 else FALSE
    if p.op == "ninf":
        return TRUE
    if p.sort == "I":
        return le0(add(p, ONE))
    return _mk("lt", (_scale(p, True),), "B")


def eq0(p):
    if p.op == "num":
        return TRUE if p.a[0] == 0 else FALSE
    if p.op == "ninf":
        return FALSE
    return _mk("eq", (_scale(p, False),), "B")


def _inf_cmp(a, b):
    return a.op in ("ninf",) or b.op in ("ninf",)


def le(a, b):
    if a.op == "ninf":
        return TRUE
    if b.op == "ninf":
        return eq(a, b)
    return le0(sub(a, b))


def lt(a, b):
    if b.op == "ninf":
        return FALSE
    if a.op == "ninf":
        return TRUE
    return lt0(sub(a, b))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "ninf" or b.op == "ninf":
        return FALSE
    if a.sort == "B" or b.sort == "B":
        return and_(or_(not_(a), b), or_(a, not_(b)))
    return eq0(sub(a, b))


def and_(*cs):
    out = []
    seen = set()
    for c in cs:
        parts = c.a if c.op == "and" else (c,)
        for x in parts:
            if x is FALSE:
                return FALSE
            if x is TRUE or x in seen:
                continue
            seen.add(x)
            out.append(x)
    for x in out:
        if not_(x) in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.uid)
    return _mk("and", tuple(out), "B")


def or_(*cs):
    out = []
    seen = set()
    for c in cs:
        parts = c.a if c.op == "or" else (c,)
        for x in parts:
            if x is TRUE:
                return TRUE
            if x is FALSE or x in seen:
                continue
            seen.add(x)
            out.append(x)
    for x in out:
        if not_(x) in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.uid)
    return _mk("or", tuple(out), "B")


def implies(a, b):
    return or_(not_(a), b)


_NOEXT = ("ninf", "nan", "ite")


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.a[0], b, a)
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if c.op in ("le", "lt") and (a.op != "num" or b.op != "num") and a.op not in _NOEXT and b.op not in _NOEXT and a.sort in ("I", "R") and b.sort in ("I", "R"):
        # the smaller or the greater of the two, whichever way it is written
        d = sub(a, b)
        e = neg(d)
        least = c is le0(d) or c is lt0(d)
        if least or c is le0(e) or c is lt0(e):
            if a.uid > b.uid:
                a, b, d = b, a, e
            c = le0(d)
            if not least:
                a, b = b, a
    return _mk("ite", (c, a, b), "I" if a.sort == "I" and b.sort == "I" else "R")


# ---------------------------------------------------------------- binders
def lam(v, body):
    """canonical abstraction of the variable v in body"""
    b = var(f"β{body.h + 1}", "I")
    nb = subst(body, {v: b})
    k = nb.h + 1
    if k != body.h + 1:
        b2 = var(f"β{k}", "I")
        nb = subst(nb, {b: b2})
        b = b2
    return _mk("lam", (b, nb), "L", frozenset(nb.fv - {b}), nb.h + 1)


def beta(l, t):
    """apply a lam term"""
    b, body = l.a
    if b not in body.fv:
        return body
    return subst(body, {b: t})


def sum_(v, lo, hi, body):
    """Sum_{lo <= v < hi} body, linear normal form"""
    if body is ZERO:
        return ZERO
    if is_num(lo) and is_num(hi) and hi.a[0] - lo.a[0] <= 0:
        return ZERO
    if is_num(lo) and is_num(hi) and hi.a[0] - lo.a[0] <= 3:
        r = ZERO
        k = lo.a[0]
        while k < hi.a[0]:
            r = add(r, subst(body, {v: num(k)}))
            k += 1
        return r
    if body.op == "nan":
        return body
    if not (is_num(lo) and is_num(hi)) and lo is not ZERO:
        ln = sub(hi, lo)
        if ln.op == "num" and ln.a[0] <= 3:
            r = ZERO
            for k in range(max(0, int(ln.a[0]))):
                r = add(r, subst(body, {v: add(lo, num(k))}))
            return r
    out = []
    for m, c in poly_of(body).items():
        dep, indep = [], []
        for x, e in m:
            (dep if v in x.fv else indep).append((x, e))
        core = from_poly({tuple(dep): Fr(1)})
        s = _sum_atom(v, lo, hi, core)
        out.append(mul(from_poly({tuple(indep): c}), s))
    return add(*out) if out else ZERO


def rlen(lo, hi):
    """length of the range [lo, hi)"""
    d = sub(hi, lo)
    if d.op == "num":
        return num(max(0, d.a[0]))
    if d.op == "var" and d.extra == "nat":
        return d
    return app("max", ZERO, d)


def _sum_atom(v, lo, hi, core):
    if core is ONE:
        return rlen(lo, hi)
    return _mk("sum", (lo, hi, lam(v, core)), "I" if core.sort == "I" else "R")


def forall(v, lo, hi, body):
    if body is TRUE:
        return TRUE
    if is_num(lo) and is_num(hi):
        n = hi.a[0] - lo.a[0]
        if n <= 0:
            return TRUE
        if n <= 3:
            return and_(*[subst(body, {v: num(lo.a[0] + k)}) for k in range(int(n))])
    if body is FALSE:
        return le(hi, lo)
    return _mk("forall", (lo, hi, lam(v, body)), "B")


# ---------------------------------------------------------------- substitution
def rebuild(t, a):
    op = t.op
    if op == "app":
        return app(a[0], *a[1:], sort=t.sort)
    if op == "ite":
        return ite(*a)
    if op == "not":
        return not_(a[0])
    if op == "and":
        return and_(*a)
    if op == "or":
        return or_(*a)
    if op == "le":
        return le0(a[0])
    if op == "lt":
        return lt0(a[0])
    if op == "eq":
        return eq0(a[0])
    raise AssertionError(op)


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
        m = {k: v for k, v in m.items() if k is not v}
        if not m:
            return t
    keys = m.keys()
    flat = all(w.h == 0 for w in m.values())
    vfv = set()
    for w in m.values():
        vfv |= w.fv

    def go(t):
        if t.fv.isdisjoint(keys):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op == "var":
            r = m.get(t, t)
        elif op == "poly":
            acc = {}
            extra = []
            for mm, c in t.a:
                f = None
                simple = True
                for x, e in mm:
                    y = go(x)
                    if y is not x:
                        simple = False
                        break
                if simple:
                    acc[mm] = acc.get(mm, 0) + c
                    continue
                f = num(c)
                for x, e in mm:
                    f = mul(f, powr(go(x), e))
                extra.append(f)
            r = add(from_poly(acc), *extra) if extra else from_poly(acc)
        elif op == "lam":
            b, body = t.a
            if flat and b not in keys and b not in vfv:
                # no binder enters: the bound variable keeps its canonical name unless the body becomes flatter
                nb = go(body)
                if nb is body:
                    memo[t] = t
                    return t
                if nb.h == body.h:
                    r = _mk("lam", (b, nb), "L", frozenset(nb.fv - {b}), nb.h + 1)
                    memo[t] = r
                    return r
                if nb.h < body.h:
                    r = memo[t] = lam(b, nb)
                    return r
            v = fresh("o")
            nb = subst(body, {**{k: w for k, w in m.items()}, b: v})
            r = lam(v, nb)
        elif op in ("sum", "forall"):
            lo, hi, l = t.a
            b = l.a[0]
            if flat and b not in keys and b not in vfv:
                body = go(l.a[1])
                if body.h <= l.a[1].h:
                    r = memo[t] = (sum_ if op == "sum" else forall)(b, go(lo), go(hi), body)
                    return r
            v = fresh("o")
            body = subst(l.a[1], {**m, b: v})
            r = (sum_ if op == "sum" else forall)(v, go(lo), go(hi), body)
        else:
            r = rebuild(t, tuple(go(x) if type(x) is T else x for x in t.a))
        memo[t] = r
        return r

    return go(t)


def replace(t, f):
    """bottom-up replacement of *atoms*: f(term)->term or None (does not go under binders' vars
    specially: bodies are opened with fresh variables)"""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op in ("num", "var", "true", "false", "ninf", "nan"):
            r = t
        elif op == "poly":
            r = ZERO
            parts = []
            for mm, c in t.a:
                g = num(c)
                for x, e in mm:
                    g = mul(g, powr(go(x), e))
                parts.append(g)
            r = add(*parts)
        elif op == "lam":
            v = fresh("o")
            r = lam(v, go(beta(t, v)))
        elif op in ("sum", "forall"):
            lo, hi, l = t.a
            v = fresh("o")
            r = (sum_ if op == "sum" else forall)(v, go(lo), go(hi), go(beta(l, v)))
        else:
            r = rebuild(t, tuple(go(x) if type(x) is T else x for x in t.a))
        q = f(r)
        if q is not None:
            r = q
        memo[t] = r
        return r

    return go(t)


def subterms(t, into_binders=True):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == "poly":
            for m, c in x.a:
                for y, e in m:
                    st.append(y)
        elif x.op == "lam":
            if into_binders:
                st.append(x.a[1])
        else:
            for y in x.a:
                if type(y) is T:
                    st.append(y)


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if d > 14:
        return "…"
    op = t.op
    s = lambda x: show(x, d + 1)
    if op == "num":
        return str(t.a[0])
    if op == "var":
        return t.a[0]
    if op in ("true", "false", "nan"):
        return op
    if op == "ninf":
        return "-oo"
    if op == "poly":
        out = []
        for m, c in t.a:
            fs = [s(x) + (f"^{e}" if e != 1 else "") for x, e in m]
            if c != 1 or not fs:
                fs = [str(c)] + fs
            out.append("*".join(fs))
        return "(" + " + ".join(out) + ")"
    if op == "app":
        return f"{t.a[0]}({', '.join(s(x) if type(x) is T else str(x) for x in t.a[1:])})"
    if op == "lam":
        return f"λ{t.a[0].a[0]}.{s(t.a[1])}"
    if op == "sum":
        return f"Σ[{t.a[2].a[0].a[0]}={s(t.a[0])}..{s(t.a[1])}){s(t.a[2].a[1])}"
    if op == "forall":
        return f"∀[{t.a[2].a[0].a[0]}={s(t.a[0])}..{s(t.a[1])}){s(t.a[2].a[1])}"
    if op == "ite":
        return f"({s(t.a[0])} ? {s(t.a[1])} : {s(t.a[2])})"
    if op in ("le", "lt", "eq"):
        return f"{s(t.a[0])} {dict(le='<=', lt='<', eq='==')[op]} 0"
    if op == "not":
        return f"!{s(t.a[0])}"
    return f" {op} ".join(s(x) for x in t.a).join("()")


# ---------------------------------------------------------------- arrays as terms
def arr(n, v, body):
    """extensional array term: indices 0 <= v < n, entry `body` (a number or a nested array)"""
    return _mk("arr", (n, lam(v, body)), "A")


def rebuild_arr(n, l):
    return _mk("arr", (n, l), "A")


_old_rebuild = rebuild


def rebuild(t, a):  # noqa: F811
    if t.op == "arr":
        return _mk("arr", tuple(a), "A")
    return _old_rebuild(t, a)
