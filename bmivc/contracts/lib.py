"""Helpers shared by the contracts."""
from ..vc import *  # noqa: F401,F403
from .. import loader, seq, solve, sym, terms as tm
from ..sym import ENG, SArr, SV, Unsupported, asarr, wrap
from ..terms import FALSE, ONE, TRUE, ZERO, T, add, and_, app, div, eq, fresh, forall, ite, le, lt, mul, neg, not_, num, or_, powr, sub, sum_, var  # noqa: F401


def unchanged(v, label, a, name, p):
    idx = tuple(fresh("q") for _ in a.dims)
    v.prove_eq(label, a.get(idx), app(name, *idx), p)


def outcome(f, *refusals):
    """the value of f(), or the exception with which it refuses its arguments"""
    try:
        return "value", f()
    except refusals or (ValueError, AssertionError) as e:
        return "refused", type(e).__name__


def history(v, label, make, first, second, call=lambda e, a: e.estimate(*a), pre=()):
    """what an instance does with some arguments does not depend on what it was used for before"""
    def run():
        used, fresh_ = make(), make()
        outcome(lambda: call(used, first))
        return outcome(lambda: call(used, second)), outcome(lambda: call(fresh_, second))
    for p in v.explore(run, list(pre)):
        if not v.returns(f"{label}: usable", p):
            continue
        (k1, a), (k2, b) = p.result
        if v.check(f"{label}: same outcome whatever the instance was used for before", k1 == k2 and (k1 == "value" or a == b), f"{k1} {str(a)[:80]} / {k2} {str(b)[:80]}", p) and k1 == "value":
            v.prove_eq(f"{label}: same value whatever the instance was used for before", a, b, p)


def prove_array(v, label, p, r, dims, want, extra=()):
    """the array r has the given dimensions and entries want(idx)"""
    r = asarr(r)
    if len(r.dims) != len(dims):
        v.fail(f"{label}: number of dimensions", f"{len(r.dims)} instead of {len(dims)}", p)
        return
    ix = []
    c = (p.ctx if isinstance(p, sym.Path) else p).plus(*extra)
    for a, b in zip(r.dims, dims):
        b = t_(b)
        v.prove_eq(f"{label}: shape", a, b, p)
        i = fresh("i")
        ix.append(i)
        c = c.plus(le(ZERO, i), lt(i, b))
    if c.feasible():
        v.prove_eq(f"{label}: entries", r.get(tuple(ix)), want(*ix), c)


def sv_ctx(*facts):
    return solve.Ctx(facts)


def subst_(t, k, e):
    return tm.subst(t, {k: e})


def seq_at(l):
    """length of a sequence of values and the value at a position"""
    segs = seq.segs_of(l)
    offs, off = [], ZERO
    for s in segs:
        offs.append(off)
        off = add(off, seq.seg_len(s))

    def at(k):
        res = None
        for s, o in reversed(list(zip(segs, offs))):
            if s[0] == "item":
                x = s[1]
            elif s[0] == "seg":
                x = s[2](sub(k, o))
            else:
                raise sym.Unsupported("filtered sequence")
            res = x if res is None else seq.vite(lt(k, add(o, seq.seg_len(s))), x, res)
        return res
    return off, at


class FakeSampler:
    """an arbitrary sampler: opaque dimensions, information and draws"""

    def __init__(self, name="b", dx=None, dy=None, jax=True, mi=None):
        self.nm = name
        self.dx, self.dy = dx if dx is not None else posint(name + "_dx"), dy if dy is not None else posint(name + "_dy")
        self.jax = jax
        self.calls = []
        self.mi = mi if mi is not None else real(name + "_mi")

    dim_x = property(lambda self: self.dx)
    dim_y = property(lambda self: self.dy)
    dim_total = property(lambda self: self.dx + self.dy)

    def entry(self, which, rng, n, i, j):
        return app(f"{self.nm}_{which}", seq.vterm(rng), t_(n), i, j)

    def sample(self, n_points, rng):
        self.calls.append((n_points, rng))
        return tuple(SArr((t_(n_points), t_(d)), (lambda w: lambda i: self.entry(w, rng, n_points, *i))(w), jax=self.jax)
                     for w, d in (("x", self.dx), ("y", self.dy)))

    def mutual_information(self):
        return self.mi


def no_rejection(v, label, p):
    return v.returns(label, p)


def rejects_iff(v, ok, p, exc=(ValueError,), what=""):
    """obligations of both directions of a validity check; True on the accepting paths"""
    if p.exc is not None:
        v.prove(f"rejects only invalid arguments{what}", not_(ok), p)
        if exc:
            v.check(f"rejects with {'/'.join(e.__name__ for e in exc)}{what}", isinstance(p.exc, exc), repr(p.exc), p)
        return False
    v.prove(f"accepts only valid arguments{what}", ok, p)
    p.ctx = p.ctx.plus(ok)
    return True


# ------------------------------------------------------------------ random keys
def key_path(t):
    """(root, [(how, parts, index), ...]) of a key derived by splitting and folding in"""
    path = []
    while t.op == "app" and t.a[0] in ("splitkey", "foldin"):
        if t.a[0] == "splitkey":
            path.append(("split", t.a[2], t.a[3]))
            t = t.a[1]
        else:
            path.append(("foldin", ZERO, t.a[2]))
            t = t.a[1]
    return t, path[::-1]


def independent_keys(v, label, a, b, ctx):
    """two keys give independent streams: their derivations part at different children of one and the same split"""
    (ra, pa), (rb, pb) = key_path(a), key_path(b)
    if ra is not rb:
        # keys of different roots: independent iff the roots differ
        if ra.op == rb.op == "app" and ra.a[0] == rb.a[0] == "PRNGKey":
            return v.prove(label, not_(eq(ra.a[1], rb.a[1])), ctx)
        return v.prove(label, FALSE, ctx)
    conds = []
    for (ha, na, ia), (hb, nb, ib) in zip(pa, pb):
        if ha != hb or na is not nb and not solve.prove_eq(na, nb, ctx):
            return v.fail(label, f"keys derived in different ways from one parent: {tm.show(a)[:150]} / {tm.show(b)[:150]}", ctx)
        conds.append(not_(eq(ia, ib)))
    return v.prove(label, or_(*conds) if conds else FALSE, ctx)


def draws_of(t, prefixes):
    """the random draws a term mentions, as (function, key, remaining arguments)"""
    return {q for q in tm.subterms(t) if q.op == "app" and any(q.a[0].startswith(x) for x in prefixes)}


def draw_facts(*terms):
    """contracts of the random functions: permutations and choices out of n take values in 0..n-1"""
    out = []
    for t in terms:
        for q in draws_of(t, ("choice_norep", "choice_rep", "perm")):
            n = q.a[2]
            r = and_(le(ZERO, q), lt(q, n))
            out.append(or_(not_(and_(le(ZERO, q.a[3]), lt(q.a[3], n))), r) if q.a[0] == "perm" else r)
    return out


def as_key(rng):
    """the key (or the integer seed) a sampler was given"""
    from ..shims import jax_
    try:
        return jax_.keyterm(rng)
    except TypeError:
        t = seq.vterm(rng)
    if t.op == "arr" and t.a[0] is num(2):      # the two words of a key
        w = tm.beta(t.a[1], ZERO)
        if w.op == "app" and w.a[0] == "keyword" and tm.beta(t.a[1], ONE) is app("keyword", w.a[1], ONE, sort="I"):
            return w.a[1]
    return t


class Component:
    """member number k of an arbitrary sequence of samplers"""
    _sym_plain = True

    def __init__(self, k, name="b"):
        self.k, self.nm = k, name

    dim_x = property(lambda self: wrap(self.d("x", self.k.t)))
    dim_y = property(lambda self: wrap(self.d("y", self.k.t)))
    dim_total = property(lambda self: self.dim_x + self.dim_y)

    def __sym_term__(self):
        return app("component:" + self.nm, t_(self.k))

    def d(self, w, k):
        r = app(f"{self.nm}_d{w}", k, sort="I")
        return r

    def entry(self, which, k, key, n, i, j):
        return app(f"{self.nm}_{which}", k, key, t_(n), i, j)

    def sample(self, n_points, rng):
        key = as_key(rng)
        return tuple(SArr((t_(n_points), self.d(w, self.k.t)), (lambda w: lambda i: self.entry(w, self.k.t, key, n_points, *i))(w), jax=True)
                     for w in "xy")

    def mutual_information(self):
        return wrap(app(f"{self.nm}_mi", self.k.t), py=False)


# ------------------------------------------------------------------ callee contract of ProductSpace
class Space:
    """contract of ProductSpace (C20): the points, standardised on request"""
    _sym_plain = True

    def __init__(self, x, y, *, standardize=True):
        x, y = asarr(x), asarr(y)
        pre = "s" if standardize else "r"
        if not isinstance(standardize, bool):
            raise Unsupported("standardize")
        two = lambda a: "2" if a.ndim == 2 and (e := a.get((fresh("i"), fresh("j")))).op == "app" and str(e.a[0]).endswith("2") else ""
        X = lambda nm, a: SArr(a.dims, lambda i, f=pre + nm + two(a): app(f, *i))
        if x.dims[0] is not y.dims[0] and not ENG.branch(eq(x.dims[0], y.dims[0])):
            raise ValueError("Arrays have different length")
        self.given = (x, y)
        ENG.ghost.setdefault("spaces", []).append(self)
        self._x, self._y = X("x", x), X("y", y)

    x = property(lambda self: self._x)
    y = property(lambda self: self._y)
    dim_x = property(lambda self: wrap(self._x.dims[1]))
    dim_y = property(lambda self: wrap(self._y.dims[1]))
    n_points = property(lambda self: wrap(self._x.dims[0]))

    def __sym_len__(self):
        return wrap(self._x.dims[0])


def stub_space():
    """ProductSpace replaced by its contract (C20) in every module loaded afterwards"""
    loader.reset()
    loader.load("bmi.utils").ProductSpace = Space


def same_data(v, label, space, ctx, names=("x", "y")):
    """the ProductSpace was built from the caller's data, in this order"""
    for a, nm in zip(space.given, names):
        i, j = fresh("i"), fresh("j")
        a = asarr(a)
        if a.ndim != 2:
            raise Unsupported("not a matrix of points")
        v.prove_eq(f"{label}: the data {nm}", a.get((i, j)), app(nm, i, j), ctx.plus(le(ZERO, i), lt(i, a.dims[0]), le(ZERO, j), lt(j, a.dims[1])))
