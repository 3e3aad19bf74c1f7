"""Assumed contracts of JAX: transformations execute the real body on a generic slice; keys are
linear resources whose consumption is recorded in the ghost state."""
import functools
import types

from .. import loader, seq, sym
from .. import solve as sv_
from .. import terms as tm
from ..sym import ENG, SArr, SV, Unsupported, asarr, dtype_name, elementwise, is_seq, isnum, t_, tobool, wrap
from ..terms import FALSE, ONE, TRUE, ZERO, T, add, and_, app, div, eq, fresh, ite, le, lt, mul, neg, not_, num, or_, powr, sub, sum_
from . import np_
from .np_ import JNP, NP, USED, shape_of

INDEX = [None]


# ------------------------------------------------------------------ keys
class Key(SArr):
    """a pseudorandom key; a term"""
    __slots__ = ("t",)

    def __init__(self, t):
        SArr.__init__(self, (num(2),), lambda i: app("keyword", t, *i, sort="I"), jax=True, dtype="int")
        self.t = t

    def __sym_term__(self):
        return self.t

    def __sym_subst__(self, m):
        return Key(seq.subst(self.t, m))

    def __sym_ite__(self, c, b):
        return Key(ite(c, self.t, b.t))

    def snapshot(self):
        t = self.t
        return lambda i: app("keyword", t, *i, sort="I")

    def term(self):
        return self.t

    def copy(self):
        return self

    def astype(self, dt):
        return self


def key_freeze(v):
    return v


def consume(k, how):
    ENG.ghost.setdefault("consumed", []).append((k, how, ENG.ctx))


def keyterm(k):
    if isinstance(k, Key):
        return k.t
    if isinstance(k, SArr) and "keydata" in k.meta:
        return k.meta["keydata"]
    if hasattr(k, "__sym_key__"):
        return k.__sym_key__()
    raise TypeError("JAX key expected")


class KeyArr:
    """one-dimensional array of keys"""

    def __init__(self, n, f):
        self.n, self.f = n, f

    def __sym_len__(self):
        return wrap(self.n)

    def __sym_iter__(self):
        if self.n.op == "num":
            return seq.VList([Key(self.f(num(i))) for i in range(int(self.n.a[0]))])
        return seq.VIter(self.n, lambda k: Key(self.f(k)))

    def __iter__(self):
        if self.n.op == "num":
            return iter([Key(self.f(num(i))) for i in range(int(self.n.a[0]))])
        raise Unsupported("native iteration over keys")

    def __getitem__(self, i):
        if isinstance(i, slice):
            s, e = sym.norm_slice(i, self.n)
            return KeyArr(sym.simp_dim(sub(e, s)), lambda k: self.f(add(s, k)))
        if isinstance(i, tuple) and len(i) == 1:
            i = i[0]
        return Key(self.f(sym.norm_index(t_(i), self.n)))

    @property
    def shape(self):
        return (wrap(self.n), 2)


random = loader.UnsupModule("jax.random")


def PRNGKey(seed):
    if isinstance(seed, SArr) and seed.ndim:
        raise TypeError("seed must be a scalar")
    if not isnum(seed):
        raise TypeError("seed must be an integer")
    t = t_(seed)
    if t.sort == "R" or (type(seed) is SV and seed.tag == "float") or isinstance(seed, float):
        raise TypeError("PRNG key seed must be an integer")
    return Key(app("PRNGKey", t))


def split(key, num=2):
    k = keyterm(key)
    n = t_(num)
    consume(k, "split")
    return KeyArr(n, lambda i: app("splitkey", k, n, i))


def fold_in(key, data):
    return Key(app("foldin", keyterm(key), t_(data)))


def key_data(key):
    k = keyterm(key)
    r = SArr((num(2),), lambda i: app("keyword", k, *i, sort="I"), jax=True, dtype="int")
    r.meta["keydata"] = k
    return r


def _draw(kind, key, shape, extra=(), dtype="float"):
    k = keyterm(key)
    consume(k, kind)
    d = shape_of(shape)
    if not d:
        return wrap(app("rand" + kind, k, *extra, sort="I" if dtype == "int" else "R"), py=False)
    s = app("shape", *d)
    return SArr(d, lambda i: app("rand" + kind, k, *extra, s, *i, sort="I" if dtype == "int" else "R"), jax=True, dtype=dtype)


def uniform(key, shape=(), dtype=None, minval=0.0, maxval=1.0):
    lo, hi = minval, maxval
    u = _draw("uniform", key, shape)
    return u * (hi - lo) + lo


def normal(key, shape=(), dtype=None):
    return _draw("normal", key, shape)


def exponential(key, shape=(), dtype=None):
    return _draw("exponential", key, shape)


def randint(key, shape, minval, maxval, dtype=None):
    if not (isnum(minval) and isnum(maxval)):
        raise Unsupported("randint bounds")
    return _draw("int", key, shape, (t_(minval), t_(maxval)), dtype="int")


def bernoulli(key, p=0.5, shape=None):
    if isinstance(p, SArr) and p.ndim:
        raise Unsupported("bernoulli with an array of probabilities")
    k = keyterm(key)
    u = _draw("uniform", key, shape if shape is not None else ())
    USED.add("jax.random.bernoulli")
    return elementwise(lambda x: lt(x, t_(p)), u, dtype="bool")


def poisson(key, lam, shape=None, dtype=None):
    k = keyterm(key)
    consume(k, "poisson")
    a = asarr(lam)
    f = a.snapshot()
    if shape is not None:
        raise Unsupported("poisson with a shape")
    s = app("shape", *a.dims)
    if not a.dims:
        return wrap(app("randpoisson", k, f(()), sort="I"), py=False)
    return SArr(a.dims, lambda i: app("randpoisson", k, f(i), s, *i, sort="I"), jax=True, dtype="int")


def multivariate_normal(key, mean, cov, shape=None, dtype=None, method="cholesky"):
    k = keyterm(key)
    consume(k, "mvn")
    m, c = asarr(mean), asarr(cov)
    if m.ndim != 1 or c.ndim != 2:
        raise Unsupported("batched multivariate normal")
    d = m.dims[0]
    for x in c.dims:
        if x is not d and not ENG.branch(eq(x, d)):
            raise ValueError("multivariate_normal: shapes of mean and covariance do not match")
    mt, ct = m.term(), c.term()
    ds = shape_of(shape if shape is not None else ())
    s = app("shape", *ds)
    return SArr(tuple(ds) + (d,), lambda i: app("randmvn", k, mt, ct, s, *i), jax=True)


def permutation(key, x, axis=0, independent=False):
    k = keyterm(key)
    consume(k, "permutation")
    if isnum(x):
        n = t_(x)
        return SArr((n,), lambda i: app("perm", k, n, i[0], sort="I"), jax=True, dtype="int")
    a = asarr(x)
    n = a.dims[0]
    f = a.snapshot()
    ax = axis % a.ndim
    if independent:
        raise Unsupported("independent permutation")
    n = a.dims[ax]
    return SArr(a.dims, lambda i: f(tuple(i[:ax]) + (app("perm", k, n, i[ax], sort="I"),) + tuple(i[ax + 1:])), jax=True, dtype=a.dtype)


def choice(key, a, shape=(), replace=True, p=None, axis=0):
    k = keyterm(key)
    consume(k, "choice")
    if p is not None:
        raise Unsupported("choice with probabilities")
    d = shape_of(shape)
    src = None
    if isnum(a):
        n = t_(a)
    else:
        src = asarr(a)
        n = src.dims[0]
    tot = ONE
    for x in d:
        tot = mul(tot, x)
    rep = replace if isinstance(replace, bool) else bool(replace)
    if not rep and not ENG.branch(le(tot, n)):
        raise ValueError("Cannot take a larger sample than population when 'replace=False'")
    s = app("shape", *d)
    nm = "choice_rep" if rep else "choice_norep"
    ix = lambda i: app(nm, k, n, s, *i, sort="I")
    if src is None:
        return SArr(d, ix, jax=True, dtype="int")
    f = src.snapshot()
    nd = len(d)
    return SArr(tuple(d) + src.dims[1:], lambda i: f((ix(tuple(i[:nd])),) + tuple(i[nd:])), jax=True, dtype=src.dtype)


for f in (PRNGKey, split, fold_in, key_data, uniform, normal, exponential, randint, bernoulli, poisson, multivariate_normal, permutation, choice):
    def g(*a, _f=f, **k):
        USED.add("jax.random." + _f.__name__)
        return _f(*a, **k)
    setattr(random, f.__name__, g)
random.key = random.PRNGKey
random.KeyArray = np_.NDArrayType(True)


# ------------------------------------------------------------------ transformations
def jit(f=None, **k):
    if f is None:
        return lambda g: jit(g)
    return f


def _slice(x, ax, v):
    """leaf/tree slice at index v along axis ax"""
    if ax is None:
        return x
    if isinstance(x, KeyArr):
        return Key(x.f(v))
    if isinstance(x, (tuple, list)) or type(x) is seq.VList:
        ys = [(_slice(y, ax[i] if isinstance(ax, (tuple, list)) else ax, v)) for i, y in enumerate(x)]
        return tuple(ys) if isinstance(x, tuple) else seq.VList(ys)
    if isinstance(x, dict):
        return {k: _slice(y, ax, v) for k, y in x.items()}
    a = asarr(x)
    if a.ndim == 0:
        raise ValueError("vmap was requested to map its argument along an axis of a scalar")
    ax = int(ax) % a.ndim
    f = a.snapshot()
    if a.ndim == 1:
        return wrap(f((v,)), py=False)
    return SArr(a.dims[:ax] + a.dims[ax + 1:], lambda i: f(tuple(i[:ax]) + (v,) + tuple(i[ax:])), jax=True, dtype=a.dtype)


def _axsize(x, ax):
    if ax is None:
        return []
    if isinstance(x, KeyArr):
        return [x.n]
    if isinstance(x, (tuple, list)) or type(x) is seq.VList:
        r = []
        for i, y in enumerate(x):
            r += _axsize(y, ax[i] if isinstance(ax, (tuple, list)) else ax)
        return r
    if isinstance(x, dict):
        return [z for y in x.values() for z in _axsize(y, ax)]
    a = asarr(x)
    if a.ndim == 0:
        raise ValueError("vmap was requested to map its argument along an axis of a scalar")
    return [a.dims[int(ax) % a.ndim]]


def _stack(n, v, y, out_axis=0):
    """value y depending on the index v -> stacked along a new axis"""
    if isinstance(y, (tuple,)):
        vals = [_stack(n, v, z, out_axis) for z in y]
        return tuple(vals)
    if isinstance(y, list) or type(y) is seq.VList:
        return seq.VList([_stack(n, v, z, out_axis) for z in y])
    if isinstance(y, dict):
        return {k: _stack(n, v, z, out_axis) for k, z in y.items()}
    if y is None:
        return None
    if isinstance(y, Key):
        return KeyArr(n, lambda i: tm.subst(y.t, {v: i}))
    a = asarr(y)
    f = a.snapshot()
    for d in a.dims:
        if v in d.fv:
            raise Unsupported("vmap: ragged result")
    o = out_axis % (a.ndim + 1)

    def fn(i):
        rest = tuple(i[:o]) + tuple(i[o + 1:])
        z = fresh("z")
        return seq._subst_at(f, rest, {v: i[o]})
    return SArr(a.dims[:o] + (n,) + a.dims[o:], fn, jax=True, dtype=a.dtype)


def vmap(fun, in_axes=0, out_axes=0, **kw):
    USED.add("jax.vmap")

    def g(*args, **kwargs):
        axes = in_axes if isinstance(in_axes, (tuple, list)) else (in_axes,) * len(args)
        if len(axes) != len(args):
            raise ValueError("vmap in_axes must match the positional arguments")
        sizes = []
        for x, ax in zip(args, axes):
            sizes += _axsize(x, ax)
        for x in kwargs.values():
            sizes += _axsize(x, 0)
        if not sizes:
            raise ValueError("vmap must have at least one mapped argument")
        n = sizes[0]
        for m in sizes[1:]:
            if m is not n and not ENG.branch(eq(m, n)):
                raise ValueError("vmap got inconsistent sizes for array axes to be mapped")
        v = fresh("v")
        ps = seq.generic([le(ZERO, v), lt(v, n)],
                         lambda: seq.freeze(fun(*[_slice(x, ax, v) for x, ax in zip(args, axes)], **{k: _slice(x, 0, v) for k, x in kwargs.items()})))
        if not ps:
            ps = seq.generic([le(ZERO, v)], lambda: seq.freeze(fun(*[_slice(x, ax, v) for x, ax in zip(args, axes)])))
        bad = [p for p in ps if p.exc is not None]
        if bad:
            if len(bad) == len(ps):
                raise bad[0].exc
            raise Unsupported("data-dependent control flow in a traced function")
        y = seq.vmerge([(p.guard, p.value) for p in ps])
        return _stack(n, v, y, out_axes)
    return g


def grad_term(val, params):
    """gradient of a value with respect to the parameters; odd in the value"""
    p = tm.poly_of(val)
    if p and min(p.items(), key=lambda mc: tm._mono_key(mc[0]))[1] < 0:
        return tm.neg(app("grad", tm.neg(val), params))
    return app("grad", val, params)


def value_and_grad(fun, argnums=0, has_aux=False, **k):
    USED.add("jax.value_and_grad")
    if argnums != 0:
        raise Unsupported("value_and_grad argnums")

    def g(first, *args):
        val = fun(first, *args)
        aux = None
        v0 = val
        if has_aux:
            v0, aux = val
        gr = Grad(grad_term(vt(v0), vt(first)))
        return ((v0, aux) if has_aux else v0), gr
    return g


def grad(fun, argnums=0, **k):
    def g(first, *args):
        return value_and_grad(fun, argnums)(first, *args)[1]
    return g


def vt(x):
    return seq.vterm(x)


class Grad:
    """an element of the parameter tree space: pointwise arithmetic through tree_map"""

    def __init__(self, t):
        self.t = t

    def __sym_term__(self):
        return self.t

    def __sym_subst__(self, m):
        return Grad(seq.subst(self.t, m))


def tree_map(f, *trees, **k):
    USED.add("jax.tree_util.tree_map")
    x = trees[0]
    if isinstance(x, Grad):
        # leafwise: the trees stand for an arbitrary leaf
        return Grad(t_(f(*[SV(y.t) for y in trees])))
    if isinstance(x, dict):
        return {k_: tree_map(f, *[t[k_] for t in trees]) for k_ in x}
    if isinstance(x, (tuple, list)):
        return type(x)(tree_map(f, *ys) for ys in zip(*trees))
    if type(x) is seq.VList:
        return seq.VList([tree_map(f, *ys) for ys in zip(*trees)])
    return f(*trees)


lax = loader.UnsupModule("jax.lax")


def scan(f, init, xs=None, length=None, **k):
    """fold over the leading axis; the carry must be an accumulation the loop rule can summarise"""
    USED.add("jax.lax.scan")
    sizes = _axsize(xs, 0) if xs is not None else [t_(length)]
    n = sizes[0]
    carry_names = ["c"]
    # run the body through the loop rule: carry scalar accumulators
    leaves, rebuild = _flat(init)
    names = [f"carry{i}" for i in range(len(leaves))] + ["ys"]
    it = seq.VIter(n, lambda i: i) if n.op != "num" else None
    if n.op == "num":
        c = init
        ys = []
        for i in range(int(n.a[0])):
            c, y = f(c, _slice(xs, 0, num(i)) if xs is not None else None)
            ys.append(y)
        return c, _stack_list(ys)
    L = seq.Loop(it, "jax.lax.scan", names, False)
    out = seq.VList()
    loc = {nm: v for nm, v in zip(names, leaves)}
    loc["ys"] = out
    L.enter(loc)
    while L.next_pass():
        try:
            for i in L.one():
                cur = rebuild([L.get(f"carry{j}") for j in range(len(leaves))])
                c2, y = f(cur, _slice(xs, 0, i) if xs is not None else None)
                l2, _ = _flat(c2)
                o = L.get("ys")
                o = seq.VList.from_segs(list(o.segs) + [("item", y)])
                loc2 = {f"carry{j}": v for j, v in enumerate(l2)}
                loc2["ys"] = o
        except BaseException as e:
            L.raised(e)
        else:
            L.end_pass(loc2)
    fin = [L.final(f"carry{j}") for j in range(len(leaves))]
    ysl = L.final("ys")
    segs = seq.segs_of(ysl)
    if not segs:
        if not L.live:
            raise Unsupported("scan over an empty axis")
        return rebuild(fin), None
    k_ = fresh("v")
    y = segs[0][2](k_)
    return rebuild(fin), _stack(n, k_, y)


def _stack_list(ys):
    if not ys or ys[0] is None:
        return None
    if isinstance(ys[0], tuple):
        return tuple(_stack_list([y[i] for y in ys]) for i in range(len(ys[0])))
    return JNP.stack(seq.VList(ys))


def _flat(x):
    if isinstance(x, tuple):
        parts = [_flat(y) for y in x]
        leaves = [l for p in parts for l in p[0]]

        def rb(ls):
            out = []
            i = 0
            for p in parts:
                out.append(p[1](ls[i:i + len(p[0])]))
                i += len(p[0])
            return tuple(out)
        return leaves, rb
    if x is None:
        return [], lambda ls: None
    return [x], lambda ls: ls[0]


def cond(pred, tf, ff, *ops):
    USED.add("jax.lax.cond")
    c = tobool(pred)
    d = ENG.decide(c)
    if d is True:
        return tf(*ops)
    if d is False:
        return ff(*ops)
    a = _under(c, lambda: tf(*ops))
    b = _under(not_(c), lambda: ff(*ops))
    if a is None:
        return b
    if b is None:
        return a
    return seq.vite(c, a, b)


def _under(c, fn):
    ps = seq.generic([c], lambda: seq.freeze(fn()))
    if not ps:
        return None
    if any(p.exc for p in ps):
        raise [p for p in ps if p.exc][0].exc
    return seq.vmerge([(p.guard, p.value) for p in ps])


WHILE = {}      # invariant for while loops: set by the contract that needs it


def while_loop(cond_fun, body_fun, init):
    """Hoare rule with the invariant declared for the current contract"""
    USED.add("jax.lax.while_loop")
    inv = WHILE.get("inv")
    if inv is None:
        raise Unsupported("while_loop without a declared invariant")
    return inv(cond_fun, body_fun, init)


def fori_loop(lo, hi, body, init):
    def f(c, i):
        return body(wrap(add(t_(lo), t_(i))), c), None
    n = sub(t_(hi), t_(lo))
    return scan(f, init, SArr((n,), lambda i: i[0], dtype="int"))[0]


def lax_map(f, xs):
    return vmap(f)(xs)


for f in (scan, cond, while_loop, fori_loop):
    setattr(lax, f.__name__, f)
lax.map = lax_map
lax.stop_gradient = lambda x: x
lax.select = lambda c, a, b: JNP.where(c, a, b)

special = loader.UnsupModule("jax.scipy.special")


def logsumexp(a, axis=None, b=None, keepdims=False, **k):
    """log sum exp, exactly; -inf entries contribute 0"""
    USED.add("jax.scipy.special.logsumexp")
    x = elementwise(lambda t: app("exp", t), a)
    if b is not None:
        x = x * b
    s = sym.reduce_sum(asarr(x), axis, keepdims)
    return elementwise(lambda t: app("log", t), s) if isinstance(s, SArr) and s.ndim else wrap(app("log", t_(s)), py=False)


special.logsumexp = logsumexp
special.erf = np_.ew("erf")
special.digamma = np_.ew("digamma")
special.gammaln = np_.ew("gammaln")
special.expit = np_._ew1(lambda t: powr(add(ONE, app("exp", neg(t))), -1))
special.ndtr = np_._ew1(lambda t: mul(tm.num(tm.Fr(1, 2)), add(ONE, app("erf", mul(t, powr(app("sqrt", num(2)), -1))))))

linalg = loader.UnsupModule("jax.scipy.linalg")


def expm(a, **k):
    USED.add("jax.scipy.linalg.expm")
    a = asarr(a)
    if a.ndim != 2:
        raise ValueError("expm: matrix expected")
    if a.dims[0] is not a.dims[1] and not ENG.branch(eq(a.dims[0], a.dims[1])):
        raise ValueError("expm: square matrix expected")
    t = a.term()
    return SArr(a.dims, lambda i: app("expm", t, *i), jax=True)


linalg.expm = expm
stats = loader.UnsupModule("jax.scipy.stats")
_norm = types.SimpleNamespace(cdf=special.ndtr)
stats.norm = _norm
jsc = loader.UnsupModule("jax.scipy")
jsc.special, jsc.linalg, jsc.stats = special, linalg, stats
nn = loader.UnsupModule("jax.nn")
nn.relu = np_._ew1(lambda t: app("max", t, ZERO))
tree_util = loader.UnsupModule("jax.tree_util")
tree_util.tree_map = tree_map

jax = loader.UnsupModule("jax")
jax.Array = np_.NDArrayType(True)
for k_, v in dict(jit=jit, vmap=vmap, value_and_grad=value_and_grad, grad=grad, random=random, lax=lax, numpy=JNP, scipy=jsc, nn=nn,
                  tree_util=tree_util).items():
    setattr(jax, k_, v)
jax.tree = types.SimpleNamespace(map=tree_map)
jax.tree_map = tree_map
jax.block_until_ready = lambda x: x

loader.SHIMS.update({"jax": jax, "jax.numpy": JNP, "jax.random": random, "jax.lax": lax, "jax.scipy": jsc, "jax.scipy.special": special,
                     "jax.scipy.linalg": linalg, "jax.scipy.stats": stats, "jax.nn": nn, "jax.tree_util": tree_util,
                     "jax.numpy.linalg": JNP.linalg})
