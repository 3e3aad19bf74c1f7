"""Assumed contracts of NumPy / jax.numpy (shared core)."""
import types
from fractions import Fraction as Fr

from .. import loader, seq, sym
from .. import solve as sv_
from .. import terms as tm
from ..sym import (ENG, NAN, PINF, SArr, SV, Unsupported, asarr, broadcast_dims, dtype_name, elementwise, is_seq, isnum, matmul, t_,
                   tobool, wrap)
from ..terms import FALSE, NINF, ONE, TRUE, ZERO, add, and_, app, div, eq, fresh, ite, le, lt, mul, neg, not_, num, or_, powr, sub, sum_

USED = set()


def shape_of(s):
    if isinstance(s, (tuple, list)):
        return [t_(x) for x in s]
    if isinstance(s, seq.VList):
        return [t_(x) for x in s]
    return [t_(s)]


class DType:
    def __init__(self, name, kind):
        self.name, self.__sym_dtype__ = name, kind

    def __call__(self, x=0):
        return sym.cast(x, self) if isnum(x) else asarr(x).astype(self)

    def __sym_isinstance__(self, x):
        if self.name in ("integer",):
            return type(x) is SV and x.tag == "np" and x.t.sort == "I"
        if self.name in ("number", "generic"):
            return type(x) is SV and x.tag == "np"
        if self.name == "floating":
            return type(x) is SV and x.tag == "np" and x.t.sort == "R"
        return False

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return hash(self.name)


class NDArrayType:
    def __init__(self, jax):
        self.jax = jax

    def __sym_isinstance__(self, x):
        return isinstance(x, SArr) and x.jax == self.jax

    def __or__(self, o):
        return seq._UnionT((self, o))

    __ror__ = __or__

    def __getitem__(self, k):
        return self


def ew(fname):
    def f(x, *a, **k):
        return elementwise(lambda t: app(fname, t), x) if not isinstance(x, sym.MaskedArr) else x.map(lambda t: app(fname, t))
    f.__name__ = fname
    return f


def _ew1(fn, dtype=None):
    def f(x, *a, **k):
        if isinstance(x, sym.MaskedArr):
            return x.map(fn)
        return elementwise(fn, x, dtype=dtype)
    return f


def _ew2(fn, dtype=None):
    def f(x, y, *a, **k):
        return elementwise(fn, x, y, dtype=dtype)
    return f


def t_log(t):
    if t is NAN or t is PINF:
        return t
    return app("log", t)


def build(jax):
    """namespace of numpy-like functions"""
    ns = {}

    def reg(f=None, name=None):
        def d(f):
            ns[name or f.__name__] = f
            return f
        return d(f) if f else d

    mk = lambda a: (a if a.jax == jax or a.ndim == 0 and False else SArr(a.dims, a.snapshot(), jax=jax, dtype=a.dtype, meta=dict(a.meta))) if isinstance(a, SArr) and not isinstance(a, sym.MaskedArr) else a

    @reg
    def array(x, dtype=None, copy=True, ndmin=0, **k):
        a = asarr(x)
        r = SArr(a.dims, a.snapshot(), jax=jax, dtype=a.dtype)
        if dtype is not None:
            r = r.astype(dtype)
        if r.ndim == 0 and jax:
            return wrap(r.get(()), py=False) if not isinstance(x, SArr) else r[()] if False else wrap(r.get(()), py=False)
        return r

    @reg
    def asarray(x, dtype=None, **k):
        if isinstance(x, SArr) and x.ndim:
            if x.jax == jax and (dtype is None or dtype_name(dtype) == x.dtype):
                return x
            r = SArr(x.dims, x.snapshot(), jax=jax, dtype=x.dtype, meta=dict(x.meta))
            return r.astype(dtype) if dtype is not None else r
        return array(x, dtype)
    reg(asarray, "asanyarray")
    reg(asarray, "ascontiguousarray")

    def const_arr(c, dt):
        def f(shape, dtype=None, **k):
            d = shape_of(shape)
            if not d:
                return wrap(c, py=False)
            for x in d:
                if x.sort != "I":
                    raise TypeError("'float' object cannot be interpreted as an integer")
                if ENG.decide(le(ZERO, x)) is not True and not ENG.branch(le(ZERO, x)):
                    raise ValueError("negative dimensions are not allowed")
            kd = dtype_name(dtype) if dtype is not None else dt
            cc = c if kd != "bool" else tobool(c)
            return SArr(d, lambda i: cc, jax=jax, dtype=kd)
        return f
    reg(const_arr(ZERO, "float"), "zeros")
    reg(const_arr(ONE, "float"), "ones")
    reg(const_arr(app("uninit"), "float"), "empty")

    @reg
    def full(shape, fill_value, dtype=None, **k):
        a = asarr(fill_value)
        d = shape_of(shape)
        f = a.snapshot()
        return SArr(d, lambda i: sym.bgetf(f, a.dims, i), jax=jax, dtype=dtype_name(dtype) if dtype is not None else a.dtype)

    def like(c):
        def f(x, *a, dtype=None, **k):
            x = asarr(x)
            v = c if c is not None else t_(a[0] if a else k["fill_value"])
            r = SArr(x.dims, lambda i: v, jax=jax, dtype=dtype_name(dtype) if dtype else x.dtype)
            return r if x.ndim else wrap(v, py=False)
        return f
    reg(like(ZERO), "zeros_like")
    reg(like(ONE), "ones_like")
    reg(like(None), "full_like")
    reg(like(app("uninit")), "empty_like")

    @reg
    def eye(n, m=None, k=0, dtype=None, **kw):
        n, m = t_(n), t_(n if m is None else m)
        kd = dtype_name(dtype) if dtype is not None else "float"
        kk = t_(k)
        if kd == "bool":
            return SArr((n, m), lambda i: eq(add(i[0], kk), i[1]), jax=jax, dtype="bool")
        return SArr((n, m), lambda i: ite(eq(add(i[0], kk), i[1]), ONE, ZERO), jax=jax, dtype=kd)
    reg(lambda n, dtype=None: eye(n, dtype=dtype), "identity")

    @reg
    def arange(start, stop=None, step=None, dtype=None, **k):
        if stop is None:
            start, stop = 0, start
        a, b, s = t_(start), t_(stop), t_(1 if step is None else step)
        n = sub(b, a)
        if s is not ONE:
            if s.sort != "I" or n.sort != "I":
                n = app("ceil", div(n, s))
            else:
                n = app("idiv", add(n, sub(s, ONE)), s)
        if n.sort != "I":
            n = app("ceil", n)
        if ENG.decide(le(ZERO, n)) is not True:
            n = app("max", ZERO, n)
        r = SArr((sym.simp_dim(n),), lambda i: add(a, mul(s, i[0])), jax=jax, dtype="int" if a.sort == s.sort == "I" else "float")
        if s is ONE and a.sort == "I":
            r.meta["arange"] = a
        return r if dtype is None else r.astype(dtype)

    @reg
    def linspace(a, b, n=50, **k):
        a, b, n = t_(a), t_(b), t_(n)
        return SArr((n,), lambda i: add(a, mul(div(i[0], sub(n, ONE)), sub(b, a))), jax=jax)

    # ---------------- elementwise
    for nm in ("sqrt", "sin", "cos", "tan", "tanh", "sinh", "cosh", "exp", "floor", "ceil", "sign", "abs", "trunc"):
        reg(ew(nm), nm)
    reg(_ew1(t_log), "log")
    reg(ew("abs"), "absolute")
    reg(ew("abs"), "fabs")
    reg(ew("asinh"), "arcsinh")
    reg(ew("asinh"), "asinh")
    reg(ew("atan"), "arctan")
    reg(ew("atanh"), "arctanh")
    reg(_ew1(lambda t: app("log", add(ONE, t))), "log1p")
    reg(_ew1(lambda t: sub(app("exp", t), ONE)), "expm1")
    reg(_ew1(lambda t: div(app("log", t), app("log", num(2)))), "log2")
    reg(_ew1(lambda t: div(app("log", t), app("log", num(10)))), "log10")
    reg(_ew1(lambda t: app("exp", mul(t, app("log", num(2))))), "exp2")
    reg(_ew1(lambda t: mul(t, t)), "square")
    reg(_ew1(lambda t: powr(t, -1)), "reciprocal")
    reg(_ew1(neg), "negative")
    reg(_ew1(lambda t: TRUE if t is NAN else FALSE, "bool"), "isnan")
    reg(_ew1(lambda t: TRUE if t in (PINF, NINF) else FALSE, "bool"), "isinf")
    reg(_ew1(lambda t: FALSE if t in (PINF, NINF, NAN) else TRUE, "bool"), "isfinite")
    reg(_ew2(add), "add")
    reg(_ew2(sub), "subtract")
    reg(_ew2(mul), "multiply")
    reg(_ew2(div), "divide")
    reg(_ew2(div), "true_divide")
    reg(_ew2(sym.floordiv), "floor_divide")
    reg(_ew2(sym.mod), "mod")
    reg(_ew2(sym.power), "power")
    reg(_ew2(sym.power), "float_power")
    reg(_ew2(lambda a, b: app("max", a, b)), "maximum")
    reg(_ew2(lambda a, b: app("min", a, b)), "minimum")
    reg(_ew2(lambda a, b: app("max", a, b)), "fmax")
    reg(_ew2(lambda a, b: app("min", a, b)), "fmin")
    reg(_ew2(lambda a, b: app("log", add(app("exp", a), app("exp", b)))), "logaddexp")
    for nm, op in (("less", "lt"), ("less_equal", "le"), ("greater", "gt"), ("greater_equal", "ge"), ("equal", "eq"), ("not_equal", "ne")):
        reg((lambda op: _ew2(lambda a, b: sym._cmpt(op, a, b), "bool"))(op), nm)
    reg(_ew2(lambda a, b: and_(tobool(a), tobool(b)), "bool"), "logical_and")
    reg(_ew2(lambda a, b: or_(tobool(a), tobool(b)), "bool"), "logical_or")
    reg(_ew1(lambda a: not_(tobool(a)), "bool"), "logical_not")

    @reg
    def clip(x, a_min=None, a_max=None, min=None, max=None, **k):
        lo = a_min if a_min is not None else min
        hi = a_max if a_max is not None else max
        r = x
        if lo is not None:
            r = elementwise(lambda p, q: app("max", p, q), r, lo)
        if hi is not None:
            r = elementwise(lambda p, q: app("min", p, q), r, hi)
        return r

    @reg
    def where(c, a=None, b=None):
        if a is None:
            raise Unsupported("where with one argument")
        A = [asarr(z) for z in (c, a, b)]
        dims = broadcast_dims([z.dims for z in A])
        fs = [(z.snapshot(), z.dims) for z in A]

        def fn(i):
            v = [sym.bgetf(f, d, i) for f, d in fs]
            p, q = v[1], v[2]
            if (p.sort == "B") != (q.sort == "B"):
                p, q = sym.num_t(p), sym.num_t(q)
            return ite(tobool(v[0]), p, q)
        if not dims:
            return wrap(fn(()), py=False)
        return SArr(dims, fn, jax=jax, dtype=A[1].dtype if A[1].dtype == A[2].dtype else "float")

    # ---------------- reductions
    def blocks(x):
        """a list with a filtered part or with several items per iteration"""
        return isinstance(x, seq.VList) and bool([g for g in x.segs if g[0] in ("fseg", "cat")])

    @reg
    def sum(x, axis=None, keepdims=False, **k):
        if isinstance(x, sym.MaskedArr):
            return x.sum()
        if blocks(x) and axis is None and not keepdims:
            return seq.V_sum(x)
        return sym.reduce_sum(asarr(x), axis, keepdims)

    @reg
    def mean(x, axis=None, keepdims=False, **k):
        if isinstance(x, sym.MaskedArr):
            return x.mean()
        if blocks(x) and axis is None and not keepdims:
            return seq.V_sum(x) / seq.V_len(x)
        return sym.reduce_mean(asarr(x), axis, keepdims)

    @reg
    def average(x, axis=None, weights=None):
        if weights is None:
            return mean(x, axis)
        w = asarr(weights)
        return sum(asarr(x) * w, axis) / sum(w)
    reg(lambda x, axis=None, ddof=0, keepdims=False, **k: sym.reduce_std(asarr(x), axis, ddof, keepdims), "std")
    reg(lambda x, axis=None, ddof=0, keepdims=False, **k: sym.reduce_var(asarr(x), axis, ddof, keepdims), "var")
    for nm in ("max", "amax", "nanmax_"):
        reg(lambda x, axis=None, **k: sym.reduce_opaque("amax", asarr(x), axis), nm)
    for nm in ("min", "amin"):
        reg(lambda x, axis=None, **k: sym.reduce_opaque("amin", asarr(x), axis), nm)

    @reg
    def all(x, axis=None, **k):
        if axis is not None:
            raise Unsupported("all(axis)")
        return sym.reduce_all(asarr(x))

    @reg
    def any(x, axis=None, **k):
        if axis is not None:
            raise Unsupported("any(axis)")
        a = asarr(x)
        f = a.snapshot()
        n = SArr(a.dims, lambda i: not_(tobool(f(i))), dtype="bool")
        return wrap(not_(tobool(sym.reduce_all(n))))

    @reg
    def count_nonzero(x, axis=None, **k):
        a = asarr(x)
        f = a.snapshot()
        return sym.reduce_sum(SArr(a.dims, lambda i: tobool(f(i)), dtype="bool"), axis)

    @reg
    def prod(x, axis=None, **k):
        a = asarr(x)
        if a.ndim == 1 and a.dims[0].op == "num":
            r = ONE
            for i in range(int(a.dims[0].a[0])):
                r = mul(r, a.get((num(i),)))
            return wrap(r, py=False)
        raise Unsupported("prod")

    @reg
    def cumsum(x, axis=None, **k):
        a = asarr(x)
        if a.ndim != 1:
            if axis is None:
                raise Unsupported("cumsum of a matrix")
            axis = axis % a.ndim
            f = a.snapshot()

            def fn(i):
                j = fresh("k")
                return sum_(j, ZERO, add(i[axis], ONE), sym.num_t(f(tuple(i[:axis]) + (j,) + tuple(i[axis + 1:]))))
            return SArr(a.dims, fn, jax=jax, dtype=a.dtype)
        f = a.snapshot()

        def fn(i):
            j = fresh("k")
            return sum_(j, ZERO, add(i[0], ONE), sym.num_t(f((j,))))
        return SArr(a.dims, fn, jax=jax, dtype=a.dtype)

    @reg
    def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
        d = elementwise(lambda x, y: le(app("abs", sub(x, y)), add(t_(atol), mul(t_(rtol), app("abs", y)))), a, b, dtype="bool")
        return sym.reduce_all(d) if isinstance(d, SArr) else d

    @reg
    def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
        return elementwise(lambda x, y: le(app("abs", sub(x, y)), add(t_(atol), mul(t_(rtol), app("abs", y)))), a, b, dtype="bool")

    @reg
    def array_equal(a, b, **k):
        a, b = asarr(a), asarr(b)
        if a.ndim != b.ndim:
            return False
        for x, y in zip(a.dims, b.dims):
            if not ENG.branch(eq(x, y)):
                return False
        return sym.reduce_all(elementwise(lambda p, q: eq(p, q), a, b, dtype="bool"))

    @reg
    def sort(x, axis=-1, **k):
        a = asarr(x)
        axis = axis % a.ndim
        f = a.snapshot()

        def fn(i):
            v = fresh("k")
            row = tm.arr(a.dims[axis], v, sym.num_t(f(tuple(i[:axis]) + (v,) + tuple(i[axis + 1:]))))
            return app("sorted", row, i[axis])
        return SArr(a.dims, fn, jax=jax, dtype=a.dtype)

    @reg
    def partition(x, kth, axis=-1, **k):
        a = asarr(x)
        srt = sort(a, axis)
        f = srt.snapshot()
        ks = [t_(q) for q in (kth if is_seq(kth) else [kth])]
        ax = axis % a.ndim

        def fn(i):
            n = a.dims[ax]
            r = app("partitioned", srt.term(), *i)
            for q in ks:
                r = ite(eq(i[ax], q), f(i), r)
            return r
        return SArr(a.dims, fn, jax=jax, dtype=a.dtype)

    @reg
    def argsort(x, axis=-1, **k):
        a = asarr(x)
        axis = axis % a.ndim
        f = a.snapshot()

        def fn(i):
            v = fresh("k")
            row = tm.arr(a.dims[axis], v, sym.num_t(f(tuple(i[:axis]) + (v,) + tuple(i[axis + 1:]))))
            return app("argsort", row, i[axis], sort="I")
        return SArr(a.dims, fn, jax=jax, dtype="int")

    # ---------------- shapes
    @reg
    def concatenate(xs, axis=0, **k):
        segs = seq.segs_of(xs)
        if not seq.VList.from_segs(segs).concrete:
            return concat_segs(segs, axis, jax)
        parts = [asarr(s[1]) for s in segs]
        if not parts:
            raise ValueError("need at least one array to concatenate")
        if axis is None:
            parts = [p.ravel() for p in parts]
            axis = 0
        nd = parts[0].ndim
        if nd == 0:
            raise ValueError("zero-dimensional arrays cannot be concatenated")
        for p in parts:
            if p.ndim != nd:
                raise ValueError("all the input array dimensions must match")
        axis = axis % nd
        for p in parts[1:]:
            for i in range(nd):
                if i != axis and p.dims[i] is not parts[0].dims[i]:
                    if not ENG.branch(eq(p.dims[i], parts[0].dims[i])):
                        raise ValueError("all the input array dimensions must match")
        offs = [ZERO]
        for p in parts:
            offs.append(add(offs[-1], p.dims[axis]))
        fs = [p.snapshot() for p in parts]

        def fn(i):
            x = i[axis]
            res = None
            for j in range(len(parts) - 1, -1, -1):
                v = fs[j](tuple(i[:axis]) + (sub(x, offs[j]),) + tuple(i[axis + 1:]))
                if res is not None and (v.sort == "B") != (res.sort == "B"):
                    v, res = sym.num_t(v), sym.num_t(res)
                res = v if res is None else ite(lt(x, offs[j + 1]), v, res)
            return res
        dims = list(parts[0].dims)
        dims[axis] = offs[-1]
        dt = parts[0].dtype if len({p.dtype for p in parts}) == 1 else "float"
        return SArr(dims, fn, jax=jax, dtype=dt)
    reg(concatenate, "concat")

    @reg
    def hstack(xs, **k):
        segs = seq.segs_of(xs)
        first = segs[0][1] if segs and segs[0][0] == "item" else segs[0][2](fresh("k")) if segs else None
        if first is None:
            raise ValueError("need at least one array to concatenate")
        nd = asarr(first).ndim
        if nd == 0:
            return array(seq.VList.from_segs(segs))
        return concatenate(xs, axis=0 if nd == 1 else 1)

    @reg
    def vstack(xs, **k):
        l = seq.VList.from_segs(seq.segs_of(xs))
        first = l.segs[0][1] if l.segs and l.segs[0][0] == "item" else l.segs[0][2](fresh("k")) if l.segs else None
        if first is None:
            raise ValueError("need at least one array to concatenate")
        if asarr(first).ndim == 1:
            return array(l)
        if asarr(first).ndim == 0:
            return array(l).reshape(-1, 1)
        return concatenate(l, axis=0)

    @reg
    def stack(xs, axis=0, **k):
        r = array(xs)
        if axis % r.ndim == 0:
            return r
        order = list(range(1, r.ndim))
        order.insert(axis % r.ndim, 0)
        return r.transpose(*order)

    @reg
    def column_stack(xs, **k):
        return concatenate(seq.VList([a if asarr(a).ndim == 2 else asarr(a)[:, None] for a in xs]), axis=1)

    @reg
    def block(rows):
        return concatenate(seq.VList([concatenate(seq.VList([asarr(c) for c in r]), axis=1) for r in rows]), axis=0)

    reg(lambda x, axes=None: asarr(x).transpose(*(axes or ())), "transpose")
    reg(lambda x, a, b: asarr(x).swapaxes(a, b), "swapaxes")
    reg(lambda x, shape, **k: asarr(x).reshape(shape), "reshape")
    reg(lambda x, axis=None: asarr(x).squeeze(axis) if asarr(x).ndim else x, "squeeze")
    reg(lambda x, **k: asarr(x).ravel(), "ravel")
    reg(lambda x: wrap(asarr(x).dims[0]) if False else asarr(x).shape, "shape")
    reg(lambda x: asarr(x).ndim, "ndim")
    reg(lambda x, **k: asarr(x).copy(), "copy")
    reg(lambda x, **k: mk(asarr(x)[::-1]) if asarr(x).ndim == 1 else _uns("flip"), "flip")

    @reg
    def expand_dims(x, axis):
        a = asarr(x)
        axis = axis % (a.ndim + 1)
        return a[(slice(None),) * axis + (None,)]

    @reg
    def atleast_1d(x):
        a = asarr(x)
        return a[None] if a.ndim == 0 else a

    @reg
    def atleast_2d(x):
        a = asarr(x)
        return a[None, None] if a.ndim == 0 else a[None, :] if a.ndim == 1 else a

    @reg
    def broadcast_to(x, shape):
        a = asarr(x)
        d = shape_of(shape)
        f = a.snapshot()
        broadcast_dims([a.dims, tuple(d)])
        return SArr(d, lambda i: sym.bgetf(f, a.dims, i), jax=jax, dtype=a.dtype)

    @reg
    def repeat(x, n, axis=None):
        a = asarr(x)
        n = t_(n)
        if a.ndim == 1 or axis is not None:
            ax = 0 if axis is None else axis % a.ndim
            f = a.snapshot()
            ds = list(a.dims)
            ds[ax] = mul(ds[ax], n)
            return SArr(ds, lambda i: f(tuple(i[:ax]) + (sym.floordiv(i[ax], n),) + tuple(i[ax + 1:])), jax=jax, dtype=a.dtype)
        raise Unsupported("repeat")

    @reg
    def split(x, indices_or_sections, axis=0):
        a = asarr(x)
        ax = axis % a.ndim
        at = lambda lo, hi: a[tuple([slice(None)] * ax + [slice(lo, hi)])]
        if isnum(indices_or_sections):
            n = indices_or_sections
            if type(n) is SV and t_(n).op != "num":
                raise Unsupported("split into symbolically many parts")
            n = int(t_(n).a[0])
            size = wrap(a.dims[ax])
            if n < 1 or not ENG.branch(eq(sym.mod(a.dims[ax], num(n)), ZERO)):
                raise ValueError("array split does not result in an equal division")
            w = size // n
            return [at(w * i, w * (i + 1)) for i in range(n)]
        it = seq.to_iter(indices_or_sections)
        if it[0] != "concrete":
            raise Unsupported("split at symbolically many places")
        cuts = [None] + list(it[1]) + [None]
        return [at(l, h) for l, h in zip(cuts, cuts[1:])]

    @reg
    def take(x, indices, axis=None, mode=None, **k):
        a = asarr(x)
        if axis is None:
            a, axis = a.ravel(), 0
        i = asarr(indices) if not isnum(indices) else indices
        return a[tuple([slice(None)] * (axis % a.ndim) + [i])]

    @reg
    def append(x, y, axis=None):
        return concatenate([x, y], axis=axis)

    @reg
    def tile(x, reps):
        a = asarr(x)
        reps = shape_of(reps)
        f = a.snapshot()
        old = a.dims
        if len(reps) < a.ndim:
            reps = [ONE] * (a.ndim - len(reps)) + reps
        old = [ONE] * (len(reps) - a.ndim) + list(old)
        nd = a.ndim
        return SArr([mul(d, r) for d, r in zip(old, reps)],
                    lambda i: f(tuple((x if r is ONE else ZERO if d is ONE else sym.mod(x, d)) for x, d, r in zip(i, old, reps))[len(reps) - nd:]), jax=jax, dtype=a.dtype)

    @reg
    def diag(x, k=0):
        a = asarr(x)
        f = a.snapshot()
        if a.ndim == 1:
            return SArr((a.dims[0], a.dims[0]), lambda i: ite(eq(i[0], i[1]), f((i[0],)), ZERO), jax=jax)
        n = a.dims[0]
        if n is not a.dims[1] and not ENG.branch(eq(n, a.dims[1])):
            n = app("min", a.dims[0], a.dims[1])
        return SArr((n,), lambda i: f((i[0], i[0])), jax=jax)

    @reg
    def diagonal(x, offset=0, axis1=0, axis2=1):
        a = asarr(x)
        if a.ndim != 2:
            raise Unsupported("diagonal")
        return diag(a)

    @reg
    def trace(x):
        return sum(diag(x))

    @reg
    def fill_diagonal(x, v):
        f = x.snapshot()
        vv = asarr(v)
        g = vv.snapshot()
        x[tuple(slice(None) for _ in x.dims)] = SArr(x.dims, lambda i: ite(eq(i[0], i[1]), sym.bgetf(g, vv.dims, (i[0],)), f(i)))

    @reg
    def diag_indices(n, ndim=2):
        a = arange(n)
        return (a,) * ndim

    @reg
    def outer(a, b):
        a, b = asarr(a).ravel(), asarr(b).ravel()
        return a[:, None] * b[None, :]
    reg(lambda a, b: matmul(asarr(a), asarr(b)) if asarr(a).ndim and asarr(b).ndim else asarr(a) * b, "dot")
    reg(lambda a, b: matmul(asarr(a), asarr(b)), "matmul")
    reg(lambda a, b: sum(asarr(a) * asarr(b)), "vdot")
    reg(lambda a, b: sum(asarr(a) * asarr(b), axis=-1), "inner")

    @reg
    def triu(x, k=0):
        a = asarr(x)
        f = a.snapshot()
        return SArr(a.dims, lambda i: ite(le(add(i[0], t_(k)), i[1]), f(i), ZERO), jax=jax)

    @reg
    def tril(x, k=0):
        a = asarr(x)
        f = a.snapshot()
        return SArr(a.dims, lambda i: ite(le(i[1], add(i[0], t_(k))), f(i), ZERO), jax=jax)

    @reg
    def einsum(spec, *xs, **k):
        ins, out = spec.replace(" ", "").split("->") if "->" in spec else (spec.replace(" ", ""), None)
        ins = ins.split(",")
        arrs = [asarr(x) for x in xs]
        dims = {}
        for s, a in zip(ins, arrs):
            for c, d in zip(s, a.dims):
                if c in dims and dims[c] is not d and not ENG.branch(eq(dims[c], d)):
                    raise ValueError("einsum: dimension mismatch")
                dims.setdefault(c, d)
        if out is None:
            out = "".join(sorted(c for c in dims if "".join(ins).count(c) == 1))
        summed = [c for c in dims if c not in out]
        fs = [a.snapshot() for a in arrs]

        def fn(i):
            m = dict(zip(out, i))
            vs = {c: fresh("k") for c in summed}
            m.update(vs)
            t = ONE
            for s, f in zip(ins, fs):
                t = mul(t, sym.num_t(f(tuple(m[c] for c in s))))
            for c in summed:
                t = sum_(vs[c], ZERO, dims[c], t)
            return t
        if not out:
            return wrap(fn(()), py=False)
        return SArr([dims[c] for c in out], fn, jax=jax)

    @reg
    def vectorize(f, **k):
        def g(*xs):
            arrs = [asarr(x) for x in xs]
            dims = broadcast_dims([a.dims for a in arrs])
            if not dims:
                return f(*xs)
            fns = [a.snapshot() for a in arrs]
            vs = [fresh("i") for _ in dims]
            cond = [c for v, d in zip(vs, dims) for c in (le(ZERO, v), lt(v, d))]
            ps = seq.generic(cond, lambda: f(*[wrap(sym.bgetf(h, a.dims, tuple(vs)), py=False) for h, a in zip(fns, arrs)]))
            if [p for p in ps if p.exc is not None]:
                raise [p for p in ps if p.exc is not None][0].exc
            v = t_(seq.vmerge([(p.guard, p.value) for p in ps]))
            return SArr(dims, lambda i: tm.subst(v, dict(zip(vs, i))), jax=jax)
        return g

    def _uns(n):
        raise Unsupported(n)

    # ---------------- linear algebra
    la = loader.UnsupModule(("jax.numpy" if jax else "numpy") + ".linalg")

    def slogdet(a):
        a = asarr(a)
        check_square(a)
        t = a.term()
        return (SV(app("detsign", t)), SV(app("logdet", t)))

    def det(a):
        a = asarr(a)
        check_square(a)
        if a.dims[0].op == "num" and a.dims[0].a[0] == 2:
            g = lambda i, j: a.get((num(i), num(j)))
            return wrap(sub(mul(g(0, 0), g(1, 1)), mul(g(0, 1), g(1, 0))), py=False)
        t = a.term()
        return SV(mul(app("detsign", t), app("exp", app("logdet", t))))

    def check_square(a):
        if a.ndim != 2:
            raise ValueError("array must be two-dimensional")
        if a.dims[0] is not a.dims[1] and not ENG.branch(eq(a.dims[0], a.dims[1])):
            raise ValueError("Last 2 dimensions of the array must be square")

    def eigvals(a):
        a = asarr(a)
        check_square(a)
        t = a.term()
        if a.dims[0].op == "num" and a.dims[0].a[0] == 2:
            # Sylvester's criterion for a symmetric 2x2 matrix
            g = lambda i, j: a.get((num(i), num(j)))
            if sv_.prove_eq(g(0, 1), g(1, 0), ENG.ctx):
                USED.add("Sylvester's criterion: a symmetric 2x2 matrix has positive eigenvalues iff a > 0 and ad - bc > 0")
                posdef = and_(lt(ZERO, app("eigval", t, ZERO)), lt(ZERO, app("eigval", t, ONE)))
                crit = and_(lt(ZERO, g(0, 0)), lt(ZERO, sub(mul(g(0, 0), g(1, 1)), mul(g(0, 1), g(1, 0)))))
                if ENG.decide(crit) is True:
                    ENG.assume(posdef)
                else:
                    ENG.assume(or_(not_(posdef), crit), or_(posdef, not_(crit)))
        if a.dims[0].op == "num" and a.dims[0].a[0] == 1:
            return SArr((ONE,), lambda i: a.get((ZERO, ZERO)), jax=jax)
        return SArr((a.dims[0],), lambda i: app("eigval", t, i[0]), jax=jax)

    def norm(a, axis=None, ord=None, keepdims=False):
        if ord not in (None, 2):
            raise Unsupported("norm order")
        a = asarr(a)
        if ord == 2 and a.ndim == 2 and axis is None:
            raise Unsupported("matrix norm")
        s = sym.reduce_sum(a * a, axis, keepdims)
        return elementwise(lambda x: app("sqrt", x), s)

    def cholesky(a):
        a = asarr(a)
        check_square(a)
        t = a.term()
        return SArr(a.dims, lambda i: app("chol", t, *i), jax=jax)

    def inv(a):
        a = asarr(a)
        check_square(a)
        t = a.term()
        return SArr(a.dims, lambda i: app("matinv", t, *i), jax=jax)
    class LinAlgError(ValueError):
        pass
    for f in (slogdet, det, eigvals, norm, cholesky, inv):
        setattr(la, f.__name__, f)
    la.eigvalsh = eigvals
    la.LinAlgError = LinAlgError
    ns["linalg"] = la

    # ---------------- constants and types
    ns["pi"] = SV(app("pi"))
    ns["e"] = SV(app("exp", ONE))
    ns["inf"] = SV(PINF)
    ns["nan"] = SV(NAN)
    ns["euler_gamma"] = SV(app("euler_gamma"))
    ns["newaxis"] = None
    for n_, kd in (("float64", "float"), ("float32", "float"), ("float16", "float"), ("int64", "int"), ("int32", "int"), ("uint32", "int"),
                   ("uint8", "int"), ("int8", "int"), ("int16", "int"), ("bool_", "bool"), ("integer", "int"), ("floating", "float"), ("number", "float"), ("generic", None), ("uint64", "int")):
        ns[n_] = DType(n_, kd)
    ns["ndarray"] = NDArrayType(jax)

    def wrapped(nm, f):
        def g(*a, **k):
            USED.add(("jax.numpy." if jax else "numpy.") + nm)
            r = f(*a, **k)
            if isinstance(r, SArr) and r.jax != jax and not isinstance(r, sym.MaskedArr) and nm not in ("asarray",):
                if jax:
                    r = SArr(r.dims, r.snapshot(), jax=True, dtype=r.dtype, meta=dict(r.meta))
                else:
                    r = SArr(r.dims, r.snapshot(), jax=False, dtype=r.dtype, meta=dict(r.meta))
            return r
        g.__name__ = nm
        return g
    m = loader.UnsupModule("jax.numpy" if jax else "numpy")
    for k_, v in ns.items():
        setattr(m, k_, wrapped(k_, v) if isinstance(v, types.FunctionType) else v)
    return m


def concat_segs(segs, axis, jax):
    """concatenation of symbolically many arrays along an axis: entries through an opaque block lookup"""
    if len(segs) != 1 or segs[0][0] != "seg":
        raise Unsupported("concatenation of a composite sequence")
    n, f = segs[0][1], segs[0][2]
    k = fresh("c")
    a = asarr(f(k))
    axis = axis % a.ndim
    for i, d in enumerate(a.dims):
        if i != axis and k in d.fv:
            raise Unsupported("concatenation of arrays with varying shapes")
    w = a.dims[axis]
    tot = sym.simp_dim(sum_(k, ZERO, n, w))
    dims = list(a.dims)
    dims[axis] = tot
    g = a.snapshot()
    # blocks as slices of one array: block c covers [S(c), S(c+1))
    if w.fv.isdisjoint({k}):
        def fn(i):
            c = app("idiv", i[axis], w)
            m = {k: c}
            return tm.subst(g(tuple(i[:axis]) + (sub(i[axis], mul(c, w)),) + tuple(i[axis + 1:])), m)
        return SArr(dims, fn, jax=jax, dtype=a.dtype)
    widths = tm.arr(n, k, w)

    def fn(i):
        c = app("blockof", widths, i[axis], sort="I")
        o = app("blockoff", widths, i[axis], sort="I")
        return tm.subst(g(tuple(i[:axis]) + (o,) + tuple(i[axis + 1:])), {k: c})
    r = SArr(dims, fn, jax=jax, dtype=a.dtype)
    r.meta["blocks"] = (n, k, a, axis)
    return r


NP = build(False)
JNP = build(True)


def _corrcoef(x, y=None, rowvar=True):
    """Pearson correlation matrix of two one-dimensional samples"""
    if y is None:
        X = asarr(x)
        if X.ndim != 2:
            raise Unsupported("corrcoef")
        if not rowvar:
            X = X.T
        n = X.dims[1]
        rows = X
        dims = (X.dims[0], X.dims[0])
        row = lambda i: (lambda j: rows.get((i, j)))
    else:
        a, b = asarr(x), asarr(y)
        if a.ndim != 1 or b.ndim != 1:
            raise Unsupported("corrcoef")
        n = a.dims[0]
        dims = (num(2), num(2))
        row = lambda i: (lambda j: ite(eq(i, ZERO), a.get((j,)), b.get((j,))))

    def corr(i, k):
        f, g = row(i), row(k)

        def S(h):
            j = fresh("k")
            return sum_(j, ZERO, n, h(j))
        mf, mg = div(S(f), n), div(S(g), n)
        c = S(lambda j: mul(sub(f(j), mf), sub(g(j), mg)))
        vf, vg = S(lambda j: powr(sub(f(j), mf), 2)), S(lambda j: powr(sub(g(j), mg), 2))
        return div(c, mul(app("sqrt", vf), app("sqrt", vg)))
    return SArr(dims, lambda i: ite(eq(i[0], i[1]), ONE, corr(i[0], i[1])))


NP.corrcoef = _corrcoef


class HistDD:
    """counts of a multidimensional histogram: a function of the data, the bins and the cell; the rank may be symbolic"""

    def __init__(self, data, bins):
        self.data, self.bins = data, bins
        self.hid = app("histdd", sv_.simp(data, ENG.ctx), seq.vterm(bins))

    def cell(self, index):
        t = app("histcount", self.hid, seq.vterm(index))
        return wrap(t, py=False)

    def __getitem__(self, index):
        if isinstance(index, tuple):
            index = seq.VList(index)
        if not isinstance(index, seq.VList):
            raise Unsupported("histogram index")
        n = index.length()
        if not sv_.prove_eq(n, self.bins.length(), ENG.ctx):
            raise Unsupported("histogram index of another length")
        return self.cell(index)

    def reshape(self, *shape):
        from .misc import digits
        if len(shape) == 1:
            shape = tuple(shape[0])
        g = [(s[2](ZERO) if s[0] == "seg" else s[1], seq.seg_len(s)) for s in self.bins.segs]
        if len(shape) != len(g):
            raise Unsupported("reshape of a histogram")
        dims = []
        for (b, d), w in zip(g, shape):
            if not sv_.prove_eq(sym.power(t_(b), d), t_(w), ENG.ctx):
                raise Unsupported("reshape of a histogram")
            dims.append(sym.power(t_(b), d))
        return SArr(tuple(dims), lambda i: t_(self.cell(seq.VList.from_segs([s for (b, d), k in zip(g, i) for s in digits(k, b, wrap(d)).segs]))))


def _histogramdd(sample, bins=10, range=None, density=None, weights=None):
    USED.add("numpy.histogramdd")
    if range is not None or weights is not None or density not in (None, False):
        raise Unsupported("histogramdd options")
    X = asarr(sample)
    if X.ndim != 2 or not isinstance(bins, seq.VList) and not isinstance(bins, list):
        raise Unsupported("histogramdd arguments")
    bins = bins if isinstance(bins, seq.VList) else seq.VList(bins)
    if not sv_.prove_eq(bins.length(), X.dims[1], ENG.ctx):
        raise ValueError("The dimension of bins must be equal to the dimension of the sample x.")
    h = HistDD(X.term(), bins)
    return h, Opaque_edges


Opaque_edges = "<edges>"
NP.histogramdd = _histogramdd


class Generator:
    """numpy pseudorandom generator: the j-th draw is a function of the seed and of the number of
    previous draws"""

    def __init__(self, seed):
        self.seed = seq.vterm(seed)
        self.n = 0
        sym.born(self)

    def _draw(self, kind, size, extra=()):
        sym.mutated(self, "the state of a random generator")
        self.n += 1
        k = num(self.n - 1)
        ENG.ghost.setdefault("npdraws", []).append((self.seed, k, kind))
        if size is None:
            return SV(app("np" + kind, self.seed, k, *extra))
        d = shape_of(size)
        s = tuple(d)
        return SArr(d, lambda i: app("np" + kind, self.seed, k, *extra, app("shape", *s), *i))

    def normal(self, loc=0, scale=1, size=None):
        r = self._draw("normal", size)
        return r * asarr(scale) + asarr(loc) if isinstance(r, SArr) else r * scale + loc

    def standard_normal(self, size=None, **k):
        return self._draw("normal", size)

    def uniform(self, low=0, high=1, size=None):
        r = self._draw("uniform", size)
        return r * (asarr(high) - asarr(low)) + low

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"numpy.random.Generator.{k}")


class RandomState(Generator):
    def __sym_term__(self):
        return app("RandomState", self.seed)

    def randn(self, *shape):
        return self._draw("normal", shape or None)


class errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


NP.errstate = errstate
_rnd = loader.UnsupModule("numpy.random")
_rnd.default_rng = lambda seed=None: Generator(seed)
_rnd.RandomState = RandomState
_rnd.Generator = Generator
NP.random = _rnd
_typing = loader.UnsupModule("numpy.typing")
_typing.ArrayLike = object
loader.SHIMS.update({"numpy": NP, "numpy.linalg": NP.linalg, "numpy.random": _rnd, "numpy.typing": _typing})
