"""Numeric evaluation of terms: refutes false obligations (opaque symbols become pseudo-random
functions, interpreted symbols their real meaning)."""
import hashlib
import itertools
import math
import random
import time
from fractions import Fraction as Fr

import numpy as np
from scipy import linalg as sla
from scipy import special as sp

from . import terms as tm


class Undef(Exception):
    pass


def h01(*key):
    d = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(d, "big") / 2 ** 64


class Arr:
    """evaluated array"""
    __slots__ = ("v", "k")

    def __init__(self, v):
        self.v = v
        self.k = None

    def key(self):
        if self.k is None:
            self.k = tuple(key(x) for x in self.v)
        return self.k


def key(x):
    if isinstance(x, Arr):
        return x.key()
    if isinstance(x, bool):
        return x
    if isinstance(x, (int, float)):
        return round(float(x), 9)
    return x


def mat(a):
    return np.array([[float(x) for x in r.v] for r in a.v])


def vec(a):
    return [float(x) for x in a.v]


class Ev:
    def __init__(self, env, seed=0, overrides=None):
        self.env = dict(env)
        self.seed = seed
        self.memo = {}
        self.over = overrides or {}
        self.table = {}
        self.fuel = 30000  # total length of the long ranges
        self.off = h01(seed, "off")  # scale of the entries off the diagonal
        z = h01(seed, "scale")
        self.scale = 25.0 if z < 0.1 else 0.04 if z < 0.2 else 1.0
        self.diag = 3.5 if h01(seed, "diag") < 0.5 else 0.0  # entries on the diagonal dominate

    def ev(self, t):
        if not t.fv or all(not v.a[0].startswith("β") for v in t.fv):
            r = self.memo.get(t)
            if r is None:
                r = self.memo[t] = self._ev(t)
            return r
        return self._ev(t)

    def rng_len(self, lo, hi):
        a, b = self.ev(lo), self.ev(hi)
        a, b = int(round(a)), int(round(b))
        if b - a > 60:
            self.fuel -= b - a
            if b - a > 4000 or self.fuel < 0:
                raise Undef("range")
        return range(a, b)

    def under(self, l, i):
        b, body = l.a
        old = self.env.get(b)
        self.env[b] = i
        m = self.memo
        self.memo = {}
        try:
            return self._ev(body) if False else self.ev(body)
        finally:
            self.memo = m
            if old is None:
                self.env.pop(b, None)
            else:
                self.env[b] = old

    def _ev(self, t):
        op = t.op
        if op == "num":
            c = t.a[0]
            return int(c) if c.denominator == 1 else float(c)
        if op == "var":
            if t not in self.env:
                self.env[t] = self.default(t)
            return self.env[t]
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "ninf":
            return -math.inf
        if op == "nan":
            return math.nan
        if op == "poly":
            r = 0
            for m, c in t.a:
                g = int(c) if c.denominator == 1 else float(c)
                for x, e in m:
                    v = self.ev(x)
                    if isinstance(v, bool):
                        v = int(v)
                    if isinstance(v, (str, Arr, tuple)):
                        raise Undef("non-number")
                    if e.denominator == 1:
                        e = int(e)
                        if e < 0 and v == 0:
                            raise Undef("div0")
                        g = g * v ** e if e > 0 else g / v ** (-e)
                    else:
                        g = g * v ** float(e)
                r = r + g
            if isinstance(r, complex):
                raise Undef("complex")
            return r
        if op == "ite":
            return self.ev(t.a[1]) if self.ev(t.a[0]) else self.ev(t.a[2])
        if op == "not":
            return not self.ev(t.a[0])
        if op == "and":
            return all(self.ev(x) for x in t.a)
        if op == "or":
            return any(self.ev(x) for x in t.a)
        if op == "eq" and t.a[0].op == "poly" and len(t.a[0].a) == 2 and sorted(c for _, c in t.a[0].a) == [-1, 1] \
                and all(len(m) == 1 and m[0][1] == 1 for m, _ in t.a[0].a):
            x, y = (self.ev(m[0][0]) for m, _ in t.a[0].a)
            if isinstance(x, (tuple, str, Arr)) or isinstance(y, (tuple, str, Arr)):
                return key(x) == key(y)
        if op in ("le", "lt", "eq"):
            v = self.ev(t.a[0])
            if isinstance(v, float) and math.isnan(v):
                return False
            tol = 1e-9 if isinstance(v, float) else 0
            if op == "le":
                return v <= tol
            if op == "lt":
                return v < -tol
            return abs(v) <= tol
        if op == "sum":
            return sum(self.under(t.a[2], i) for i in self.rng_len(t.a[0], t.a[1]))
        if op == "forall":
            return all(self.under(t.a[2], i) for i in self.rng_len(t.a[0], t.a[1]))
        if op == "arr":
            return Arr([self.under(t.a[1], i) for i in self.rng_len(tm.ZERO, t.a[0])])
        if op == "lam":
            raise Undef("lam")
        if op == "app":
            f = t.a[0]
            args = [self.ev(x) if type(x) is tm.T else x for x in t.a[1:]]
            return self.app(f, args, t.sort)
        raise Undef(op)

    def default(self, t):
        n = t.a[0]
        u = h01(self.seed, "var", n)
        if t.sort == "B":
            return u < 0.5
        if t.sort == "I":
            return (1 if t.extra == "posint" else 0) + int(u * 4)
        if t.extra == "pos":
            return 0.1 + 3 * u
        return (u - 0.5) * 4

    def app(self, f, a, sort):
        if f in self.over:
            return self.over[f](self, a)
        g = FUN.get(f)
        if g is not None:
            try:
                r = g(*a)
            except (ValueError, OverflowError, ZeroDivisionError, np.linalg.LinAlgError, TypeError, IndexError, AttributeError) as e:
                raise Undef(f"{f}: {e}")
            if isinstance(r, complex):
                raise Undef("complex")
            return r
        k = tuple(key(x) for x in a)
        if (f, k) in self.table:
            return self.table[f, k]
        u = h01(self.seed, f, k)
        if f in ENUM:
            return ENUM[f][int(u * len(ENUM[f]))]
        if f.startswith("str:") or f in ("str", "list", "dict", "kv", "none", "shape", "slice", "item", "uninit", "PRNGKey", "splitkey", "foldin") or f.startswith("fmt:"):
            return (f,) + k
        if sort == "B":
            return u < 0.5
        if sort == "I":
            return int(u * 5)
        if f in ("randuniform", "npuniform"):
            return u
        if len(a) == 2 and self.off < 0.3 and isinstance(a[0], int) and isinstance(a[1], int) and a[0] != a[1]:
            return (u - 0.5) * (0.02 if self.off < 0.15 else 0.6)
        if len(a) == 2 and self.diag and isinstance(a[0], int) and a[0] == a[1]:
            return self.diag + u
        if f == "randexponential":
            return -math.log(1 - u) * self.scale
        return (u - 0.5) * 4 * self.scale


def _sorted(a, i):
    return sorted(vec(a))[int(i)]


def _argsort(a, i):
    return int(np.argsort(np.array(vec(a)), kind="stable")[int(i)])


def _perm(k, n, i):
    n = int(n)
    r = random.Random(repr(("perm", key(k), n)))
    p = list(range(n))
    r.shuffle(p)
    if not 0 <= i < n:
        raise ValueError
    return p[int(i)]


def _choice(rep):
    def f(k, n, s, *i):
        n = int(n)
        sh = [int(x) for x in s[1:]]
        tot = int(np.prod(sh)) if sh else 1
        r = random.Random(repr(("choice", key(k), n, rep, tot)))
        if rep:
            c = [r.randrange(n) for _ in range(tot)]
        else:
            c = r.sample(range(n), tot)
        lin = 0
        for x, d in zip(i, sh):
            lin = lin * d + int(x)
        return c[lin]
    return f


def _detsign(a):
    return float(np.linalg.slogdet(mat(a))[0])


def _logdet(a):
    m = mat(a)
    if m.size == 0:
        return 0.0
    s, l = np.linalg.slogdet(m)
    if not np.isfinite(l):
        raise ValueError
    return float(l)


def _eig(a, i):
    w = np.linalg.eigvals(mat(a))
    if np.abs(w.imag).max() > 1e-9:
        raise ValueError
    return float(np.sort(w.real)[int(i)])


FUN = {
    "exp": lambda x: math.exp(x), "log": lambda x: (-math.inf if x == 0 else math.log(x)), "sqrt": math.sqrt, "sin": math.sin,
    "cos": math.cos, "tan": math.tan, "tanh": math.tanh, "sinh": math.sinh, "cosh": math.cosh, "asinh": math.asinh, "atan": math.atan,
    "atanh": math.atanh, "erf": math.erf, "floor": lambda x: math.floor(x + 1e-12), "ceil": lambda x: math.ceil(x - 1e-12), "trunc": math.trunc,
    "abs": abs, "pi": lambda: math.pi, "euler_gamma": lambda: 0.57721566490153286, "gammaln": lambda x: float(sp.gammaln(x)),
    "digamma": lambda x: float(sp.digamma(x)), "max": max, "min": min, "idiv": lambda a, b: int(a) // int(b), "imod": lambda a, b: int(a) % int(b),
    "inv": lambda x: 1 / x, "rpow": lambda x, e: x ** e, "pow": lambda x, e: x ** e, "sign": lambda x: (x > 0) - (x < 0),
    "amax": lambda a: max(vec(a)) if not isinstance(a.v[0], Arr) else mat(a).max(), "amin": lambda a: min(vec(a)),
    "sorted": _sorted, "argsort": _argsort, "perm": _perm, "choice_rep": _choice(True), "choice_norep": _choice(False),
    "logdet": _logdet, "detsign": _detsign, "eigval": _eig, "pinf": lambda: math.inf,
    "expm": lambda a, i, j: float(sla.expm(mat(a))[int(i), int(j)]),
    "matinv": lambda a, i, j: float(np.linalg.inv(mat(a))[int(i), int(j)]),
    "chol": lambda a, i, j: float(np.linalg.cholesky(mat(a))[int(i), int(j)]),
    "fl": lambda x: float(np.float32(x)), "ceilpos": lambda x: math.ceil(x), "log2": math.log2, "round": lambda x, n: round(x, int(n)),
}


# opaque functions with a small range (columns of keys), so that equal keys occur
ENUM = {}
FUN["max_where"] = lambda x: max(x.v)


def sample_env(fvs, facts, seed, hints):
    env = {}
    r = random.Random(seed)
    for v in fvs:
        if v in hints:
            env[v] = hints[v](r)
        elif v.sort == "B":
            env[v] = r.random() < 0.5
        elif v.sort == "I":
            env[v] = (1 if v.extra == "posint" else 0) + r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
            if v.extra is None and r.random() < 0.06:
                env[v] = r.choice([-3, -2, -1, -1])
        elif v.extra == "pos":
            env[v] = r.choice([0.3, 0.7, 1.3, 2.5, r.uniform(0.05, 4)])
        else:
            env[v] = r.choice([0.0, 0.5, -0.5, 1.0, -1.0]) if r.random() < 0.2 else r.uniform(-2.5, 2.5) * (20 if r.random() < 0.06 else 1)
    return env


def same(x, y):
    if isinstance(x, Arr) and isinstance(y, Arr):
        return len(x.v) == len(y.v) and all(same(p, q) for p, q in zip(x.v, y.v))
    if isinstance(x, Arr) or isinstance(y, Arr):
        return False
    if isinstance(x, (tuple, str)) or isinstance(y, (tuple, str)):
        return x == y
    x, y = float(x), float(y)
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) and math.isnan(y)
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= 1e-6 * (1 + abs(x) + abs(y))


def show_val(x):
    if isinstance(x, Arr):
        return [show_val(y) for y in x.v]
    return x


STRUCTURAL = ("str", "list", "dict", "kv", "none", "shape", "slice", "item", "uninit", "PRNGKey", "splitkey", "foldin")


def symbols(t):
    r = set(t.fv)
    for x in tm.subterms(t):
        if x.op == "app" and x.a[0] not in FUN and x.a[0] not in STRUCTURAL and not x.a[0].startswith(("str:", "fmt:")):
            r.add(x.a[0])
    return r


def components(goal, facts):
    """(facts that share symbols with the goal, directly or through others, [groups of the other facts])"""
    def close(s, rest):
        mine = []
        again = True
        while again:
            again = False
            for f in list(rest):
                y = sy[f]
                if not y or y & s:
                    s |= y
                    mine.append(f)
                    rest.remove(f)
                    again = True
        return mine
    sy = {f: symbols(f) for f in facts}
    rest = list(facts)
    s = set()
    for g in goal:
        s |= symbols(g)
    near = close(s, rest)
    others = []
    while rest:
        f = rest.pop()
        others.append([f] + close(set(sy[f]), rest))
    return near, others


def guided(a, b, facts, fv, limit):
    """assignments suggested by models of the facts and the negated claim (opaque symbols as numbers); each is only a
    suggestion: the claim is evaluated on it like on any other"""
    import z3
    from . import solve
    neg = [] if a is None else [tm.not_(a)] if b is None else ([tm.not_(tm.eq(a, b))] if a.sort != "B" else [])
    apps = []
    for t in (a, b, *facts):
        if t is not None:
            for x in tm.subterms(t):
                if x.op == "app" and x.a[0] not in FUN and x.sort in ("R", "I", "B") and not any(v.a[0].startswith("β") for v in x.fv) and x not in apps:
                    apps.append(x)
    apps = apps[:60]
    z = solve.Z()
    try:
        base = [z.bool(f) for f in facts]
        negs = [z.bool(n) for n in neg]
        zv = {v: (z.bool(v) if v.sort == "B" else z.num(v)) for v in fv}
        za = {x: (z.bool(x) if x.sort == "B" else z.num(x)) for x in apps}
    except Exception:  # noqa: BLE001 - terms outside the translation
        return
    ax = z.axioms
    r = random.Random(7)
    t0 = time.time()

    def val(m, e, sort):
        v = m.eval(e, model_completion=True)
        if sort == "B":
            return bool(z3.is_true(v))
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        if z3.is_algebraic_value(v):
            return float(v.approx(20).as_fraction())
        return None
    # both sides of every condition of the claim (thresholds on sizes, say), other integers kept small
    conds = []
    for t in (a, b):
        for x in tm.subterms(t) if t is not None else ():
            if x.op == "ite" and not any(v.a[0].startswith("β") for v in x.a[0].fv) and x.a[0] not in conds:
                conds.append(x.a[0])
    for c in conds[:24]:
        for want in (c, tm.not_(c)):
            if time.time() - t0 > limit * 0.6:
                break
            try:
                zc = z.bool(want)
            except Exception:  # noqa: BLE001 - outside the translation
                continue
            for trial in range(2):
                s = z3.Solver()
                s.set("timeout", 1500)
                s.add(*base, *ax, zc)
                for v in fv:
                    if v.sort != "B":
                        s.add(zv[v] <= 3000, zv[v] >= -3000)
                if s.check() != z3.sat:
                    break
                m = s.model()
                for v in fv:
                    if v.sort == "B":
                        continue
                    for lo, hi in ((2 * trial, 6), (-6, 6), (-6, 70)) if v.sort == "I" else ((round(r.uniform(-1, 1), 2), 3),):
                        s.push()
                        s.add(zv[v] <= hi, zv[v] >= z3.RealVal(str(lo)) if v.sort == "R" else zv[v] >= lo)
                        if s.check() == z3.sat:
                            m = s.model()
                            break
                        s.pop()
                env = {v: val(m, zv[v], v.sort) for v in fv}
                if any(x is None for x in env.values()):
                    continue
                vals = {x: val(m, za[x], x.sort) for x in apps}
                yield env, {x: y for x, y in vals.items() if y is not None}
                yield env, {}
    for goal in ([negs, []] if negs else [[]]):
        for cap in (6, 70, 3000):
            for trial in range(6):
                if time.time() - t0 > limit:
                    return
                s = z3.Solver()
                s.set("timeout", 1500)
                s.add(*base, *ax, *goal)
                for v in fv:
                    if v.sort == "I":
                        s.add(zv[v] <= cap, zv[v] >= -cap)
                    elif v.sort == "R":
                        s.add(zv[v] <= cap, zv[v] >= -cap)
                if s.check() != z3.sat:
                    break
                m = s.model()
                if trial:
                    # spread: ask for random values where the facts allow them
                    for v in fv:
                        if v.sort == "B":
                            continue
                        c = zv[v] >= r.randint(0, 4) if v.sort == "I" else z3.And(zv[v] >= z3.RealVal(str(round(r.uniform(-2, 1.5), 2))), zv[v] <= 3)
                        s.push()
                        s.add(c)
                        if s.check() == z3.sat:
                            m = s.model()
                        else:
                            s.pop()
                env = {v: val(m, zv[v], v.sort) for v in fv}
                if any(x is None for x in env.values()):
                    continue
                vals = {x: val(m, za[x], x.sort) for x in apps}
                yield env, ({x: y for x, y in vals.items() if y is not None} if trial % 2 == 0 else {})


def refute(a, b, facts, tries=400, seed=1, hints=None, want=3, limit=30):
    """an assignment on which a and b differ (b None: a is false); None if none was found.
    Returns (witness, number of assignments on which the claim was evaluated)."""
    goal = [a] if b is None else [a, b]
    near, others = components(goal, facts)
    t0 = time.time()

    def attempt(env, sd, apps, facts, goal):
        """None: not an assignment of the facts; else (claim fails, values)"""
        ev = Ev(env, seed=sd)
        try:
            for x, y in apps.items():
                k = tuple(key(ev.ev(q)) if type(q) is tm.T else q for q in x.a[1:])
                ev.table.setdefault((x.a[0], k), y)
            ev.memo.clear()
            if not all(ev.ev(f) for f in facts):
                return None
            if not goal:
                return False, ()
            if b is None:
                return not ev.ev(a), (False, True)
            x, y = ev.ev(a), ev.ev(b)
            return not same(x, y), (x, y)
        except (Undef, OverflowError, RecursionError):
            return None

    def search(facts, goal, budget):
        """(env, values) of the first assignment of the facts that fails the claim; for no claim of the first one"""
        fv = set()
        for f in (*facts, *goal):
            fv |= f.fv
        fv = sorted(fv, key=lambda v: v.uid)
        start = time.time()
        n = 0
        for k in range(tries):
            if time.time() - start > budget * 0.6:
                break
            env = sample_env(fv, facts, seed * 100003 + k, hints or {})
            r = attempt(env, seed * 100003 + k, {}, facts, goal)
            if r is not None:
                n += 1
                if r[0] or not goal:
                    return env, r[1], n
            if n >= 25:
                break
        for k, (env, apps) in enumerate(guided(a if goal else None, b if goal else None, facts, fv, budget * 0.4)):
            r = attempt(env, seed * 200003 + k, apps, facts, goal)
            if r is not None:
                n += 1
                if r[0] or not goal:
                    return env, r[1], n
        return None, None, n
    env, vals, hits = search(near, goal, limit * 0.8)
    if env is None:
        return None, hits
    # the facts about unrelated symbols must have an assignment of their own
    for g in others:
        e2, _, _ = search(g, [], max(1.0, (limit - (time.time() - t0)) / len(others)))
        if e2 is None:
            return None, 0
        env.update(e2)
    return {"env": {v.a[0]: x for v, x in env.items()}, "got": show_val(vals[0]), "want": show_val(vals[1])}, hits
