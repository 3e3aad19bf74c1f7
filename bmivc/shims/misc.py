"""Assumed contracts of SciPy, scikit-learn, tqdm, itertools and small helpers."""
import types

from .. import loader, seq, sym
from .. import solve as sv_
from .. import terms as tm
from ..sym import ENG, SArr, SV, Unsupported, asarr, elementwise, isnum, t_, tobool, wrap
from ..terms import FALSE, ONE, TRUE, ZERO, add, and_, app, div, eq, fresh, ite, le, lt, mul, neg, not_, num, or_, powr, sub, sum_
from . import np_
from .np_ import NP, USED, shape_of

# ------------------------------------------------------------------ scipy
scipy = loader.UnsupModule("scipy")
special = loader.UnsupModule("scipy.special")


def _sp(n):
    f = np_._ew1(lambda t: app(n, t))

    def g(x):
        USED.add("scipy.special." + n)
        return f(x)
    return g


special.digamma = _sp("digamma")
special.psi = special.digamma
special.gammaln = _sp("gammaln")
special.erf = _sp("erf")
special.gamma = np_._ew1(lambda t: app("exp", app("gammaln", t)))
special.betaln = np_._ew2(lambda a, b: sub(add(app("gammaln", a), app("gammaln", b)), app("gammaln", add(a, b))))
special.factorial = np_._ew1(lambda t: app("exp", app("gammaln", add(t, ONE))))
stats = loader.UnsupModule("scipy.stats")


class MVT:
    def __call__(self, loc=None, shape=1, df=1, allow_singular=False, seed=None):
        if seed is not None:
            raise Unsupported("frozen multivariate_t with a seed")
        return FrozenT(loc, shape, df)

    def rvs(self, loc=None, shape=1, df=1, size=1, random_state=None):
        return FrozenT(loc, shape, df).rvs(size=size, random_state=random_state)


class FrozenT:
    def __init__(self, loc, shape, df):
        USED.add("scipy.stats.multivariate_t")
        self.shape_m = asarr(shape)
        d = self.shape_m.dims[0]
        self.loc = asarr(loc) if loc is not None else SArr((d,), lambda i: ZERO)
        self.df = df

    def rvs(self, size=1, random_state=None):
        USED.add("scipy.stats.multivariate_t.rvs")
        seed = seq.vterm(random_state)
        d = self.shape_m.dims[0]
        n = t_(size)
        args = (seed, self.loc.term(), self.shape_m.term(), t_(self.df))
        r = SArr((n, d), lambda i: app("mvtrvs", *args, n, *i))
        # scipy drops axes of length one
        if ENG.branch(eq(n, ONE)):
            if ENG.branch(eq(d, ONE)):
                return wrap(r.get((ZERO, ZERO)), py=False)
            return r[0]
        if ENG.branch(eq(d, ONE)):
            return r[:, 0]
        return r


stats.multivariate_t = MVT()
scipy.special, scipy.stats = special, stats
loader.SHIMS.update({"scipy": scipy, "scipy.special": special, "scipy.stats": stats})

# ------------------------------------------------------------------ scikit-learn
sklearn = loader.UnsupModule("sklearn")
preproc = loader.UnsupModule("sklearn.preprocessing")


def _scale_of(v):
    """scikit-learn divides constant columns by one"""
    return ite(eq(v, ZERO), ONE, app("sqrt", v))


class StandardScaler:
    def __init__(self, *, copy=True, with_mean=True, with_std=True):
        self.copy, self.with_mean, self.with_std = copy, with_mean, with_std

    def fit(self, X, y=None):
        USED.add("sklearn.preprocessing.StandardScaler")
        X = asarr(X)
        if X.ndim != 2:
            raise ValueError("Expected 2D array")
        if not ENG.branch(lt(ZERO, X.dims[0])):
            raise ValueError("Found array with 0 sample(s)")
        f = X.snapshot()
        n = X.dims[0]

        def mean(c):
            k = fresh("k")
            return div(sum_(k, ZERO, n, f((k, c))), n)

        def var(c):
            k = fresh("k")
            return div(sum_(k, ZERO, n, powr(sub(f((k, c)), mean(c)), 2)), n)
        self._m, self._v = mean, var
        self.mean_ = SArr((X.dims[1],), lambda i: mean(i[0]))
        self.var_ = SArr((X.dims[1],), lambda i: var(i[0]))
        self.scale_ = SArr((X.dims[1],), lambda i: _scale_of(var(i[0])))
        return self

    def transform(self, X, copy=None):
        X = asarr(X)
        f = X.snapshot()
        m, v = self._m, self._v
        wm, ws = self.with_mean, self.with_std

        def fn(i):
            r = f(i)
            if wm:
                r = sub(r, m(i[1]))
            if ws:
                r = div(r, _scale_of(v(i[1])))
            return r
        g = SArr(X.dims, fn)
        cp = self.copy if copy is None else copy
        if not cp and isinstance(X, SArr) and not X.jax:
            X[:, :] = g
            return X
        return g

    def fit_transform(self, X, y=None):
        return self.fit(X).transform(X)


def scale(X, axis=0, with_mean=True, with_std=True, copy=True):
    if axis != 0:
        raise Unsupported("scale(axis)")
    return StandardScaler(with_mean=with_mean, with_std=with_std, copy=copy).fit_transform(X)


preproc.StandardScaler = StandardScaler
preproc.scale = scale
metrics = loader.UnsupModule("sklearn.metrics")


def pairwise_distances(X, Y=None, metric="euclidean", **k):
    """entry (i, j): the metric between row i of X and row j of Y"""
    USED.add("sklearn.metrics.pairwise_distances")
    X = asarr(X)
    Y = X if Y is None else asarr(Y)
    if X.ndim != 2 or Y.ndim != 2:
        raise ValueError("Expected 2D array")
    if X.dims[1] is not Y.dims[1] and not ENG.branch(eq(X.dims[1], Y.dims[1])):
        raise ValueError("Incompatible dimension")
    for Z in (X, Y):
        if not ENG.branch(lt(ZERO, Z.dims[0])):
            raise ValueError("Found array with 0 sample(s)")
    f, g = X.snapshot(), Y.snapshot()
    m = seq.vterm(metric)

    def fn(i):
        return metric_term(m, X.dims[1], lambda k: f((i[0], k)), lambda k: g((i[1], k)))
    return SArr((X.dims[0], Y.dims[0]), fn)


def metric_term(m, d, f, g):
    """distance of two points with d coordinates f(k), g(k); for rows of opaque data a function of the row numbers"""
    a, b = fresh("k"), fresh("k")
    x, y = f(a), g(b)
    if m.op == "app" and all(e.op == "app" and len(e.a) == 3 and e.a[2] is k and k not in e.a[1].fv for e, k in ((x, a), (y, b))):
        nm = m.a[1].a[0] if m.a[0] == "str" and len(m.a) > 1 and m.a[1].op == "app" else m.a[0]
        return app(f"metric:{nm}:{x.a[0]}:{y.a[0]}", d, x.a[1], y.a[1])
    return app("metric", m, tm.arr(d, a, x), tm.arr(d, b, y))


metrics.pairwise_distances = pairwise_distances
msel = loader.UnsupModule("sklearn.model_selection")


def train_test_split(*arrays, test_size=None, train_size=None, random_state=None, shuffle=True, stratify=None):
    """one random partition of 0..n-1 applied to every array"""
    USED.add("sklearn.model_selection.train_test_split")
    if stratify is not None:
        raise Unsupported("stratify")
    A = [asarr(a) for a in arrays]
    n = A[0].dims[0]
    for a in A[1:]:
        if a.dims[0] is not n and not ENG.branch(eq(a.dims[0], n)):
            raise ValueError("inconsistent numbers of samples")
    if not isinstance(shuffle, bool):
        raise Unsupported("shuffle")
    if train_size is None and test_size is None:
        test_size = SV(num(tm.Fr(1, 4)))

    def count(frac, up):
        t = t_(frac)
        if t.sort == "I" and not (type(frac) is SV and frac.tag == "float"):
            return t
        return app("ceil" if up else "floor", mul(t, n))
    if train_size is not None and test_size is None:
        ntr = count(train_size, False)
        nte = sub(n, ntr)
    elif train_size is None:
        nte = count(test_size, True)
        ntr = sub(n, nte)
    else:
        ntr, nte = count(train_size, False), count(test_size, True)
    if not ENG.branch(lt(ZERO, ntr)):
        raise ValueError("the resulting train set will be empty")
    if not ENG.branch(lt(ZERO, nte)):
        raise ValueError("the resulting test set will be empty")
    seed = seq.vterm(random_state)
    p = (lambda i: app("perm", app("split_state", seed), n, i, sort="I")) if shuffle else (lambda i: i)
    out = []
    for a in A:
        f = a.snapshot()
        if shuffle:
            tr = lambda i, f=f: f((p(add(nte, i[0])),) + tuple(i[1:]))
            te = lambda i, f=f: f((p(i[0]),) + tuple(i[1:]))
        else:
            tr = lambda i, f=f: f(i)
            te = lambda i, f=f: f((add(ntr, i[0]),) + tuple(i[1:]))
        out.append(SArr((ntr,) + a.dims[1:], tr, jax=a.jax, dtype=a.dtype))
        out.append(SArr((nte,) + a.dims[1:], te, jax=a.jax, dtype=a.dtype))
    ENG.ghost.setdefault("splits", []).append((ntr, nte, n, seed, shuffle))
    return seq.VList(out)


msel.train_test_split = train_test_split
neigh = loader.UnsupModule("sklearn.neighbors")


class Opaque_:
    """a value about which only its existence is known"""
    __hash__ = None

    def __eq__(self, o):
        raise Unsupported("fitted attribute of a library object")


class KernelDensity:
    """fitted density: log-density at a point is a function of the settings, the data and the point"""

    def __init__(self, *, bandwidth=1.0, algorithm="auto", kernel="gaussian", metric="euclidean", atol=0, rtol=0, breadth_first=True, leaf_size=40, metric_params=None):
        self.cfg = app("kdecfg", seq.vterm(bandwidth), seq.vterm(kernel), seq.vterm(metric), seq.vterm(algorithm), seq.vterm(atol), seq.vterm(rtol))
        self.data = None

    def fit(self, X, y=None, sample_weight=None):
        USED.add("sklearn.neighbors.KernelDensity")
        X = asarr(X)
        if X.ndim != 2:
            raise ValueError("Expected 2D array")
        self.data = X.term()
        # attributes a fitted instance has; their contents are not modelled
        self.tree_, self.n_features_in_, self.bandwidth_ = Opaque_(), wrap(X.dims[1]), Opaque_()
        return self

    def score_samples(self, X):
        if self.data is None:
            raise ValueError("not fitted")
        X = asarr(X)
        f = X.snapshot()
        d, c = self.data, self.cfg

        def fn(i):
            k = fresh("k")
            return app("kdelog", c, d, tm.arr(X.dims[1], k, f((i[0], k))))
        return SArr((X.dims[0],), fn)

    def score(self, X, y=None):
        s = self.score_samples(X)
        return sym.reduce_sum(s)


neigh.KernelDensity = KernelDensity
cross = loader.UnsupModule("sklearn.cross_decomposition")


class CCA:
    def __init__(self, n_components=2, *, scale=True, max_iter=500, tol=1e-06, copy=True):
        self.n = n_components
        self.scale, self.max_iter, self.tol = scale, max_iter, tol
        self.fitted = None

    def fit(self, X, Y):
        USED.add("sklearn.cross_decomposition.CCA")
        X, Y = asarr(X), asarr(Y)
        for Z in (X, Y):
            if Z.ndim != 2:
                raise ValueError("Expected 2D array")
        if X.dims[0] is not Y.dims[0] and not ENG.branch(eq(X.dims[0], Y.dims[0])):
            raise ValueError("inconsistent numbers of samples")
        n = t_(self.n)
        if not ENG.branch(and_(le(ONE, n), le(n, X.dims[1]), le(n, Y.dims[1]))):
            raise ValueError("n_components out of range")
        self.fitted = (X.term(), Y.term(), seq.vterm(self.scale), t_(self.n))
        self._d = (X.dims[1], Y.dims[1])
        self.x_weights_, self.x_rotations_, self.n_features_in_ = Opaque_(), Opaque_(), wrap(X.dims[1])
        return self

    def _proj(self, Z, which):
        f = Z.snapshot()
        ft = self.fitted

        def fn(i):
            k = fresh("k")
            return app("cca" + which, *ft, tm.arr(Z.dims[1], k, f((i[0], k))), i[1])
        return SArr((Z.dims[0], t_(self.n)), fn)

    def transform(self, X, Y=None, copy=True):
        a = self._proj(asarr(X), "x")
        if Y is None:
            return a
        return a, self._proj(asarr(Y), "y")

    def fit_transform(self, X, y=None):
        return self.fit(X, y).transform(X, y)


cross.CCA = CCA
sklearn.preprocessing, sklearn.metrics, sklearn.model_selection, sklearn.neighbors, sklearn.cross_decomposition = preproc, metrics, msel, neigh, cross
loader.SHIMS.update({"sklearn": sklearn, "sklearn.preprocessing": preproc, "sklearn.metrics": metrics, "sklearn.model_selection": msel,
                     "sklearn.neighbors": neigh, "sklearn.cross_decomposition": cross})

# ------------------------------------------------------------------ tqdm
tq = loader.UnsupModule("tqdm")


class Bar:
    def __init__(self, *a, **k):
        pass

    def update(self, *a, **k):
        pass

    def set_description(self, *a, **k):
        pass

    def set_postfix(self, *a, **k):
        pass

    def close(self):
        pass


tq.tqdm = lambda x=None, *a, **k: x if x is not None else Bar()
tq.trange = lambda *a, **k: seq.V_range(*a)
loader.SHIMS["tqdm"] = tq
loader.SHIMS["tqdm.auto"] = tq

# ------------------------------------------------------------------ itertools
it = loader.UnsupModule("itertools")


def digits(k, b, d):
    """the k-th element of product(range(b), repeat=d): d digits of k in base b, most significant first"""
    return seq.VList.from_segs([("seg", t_(d), lambda m: wrap(app("digit", k, t_(b), t_(d), m, sort="I")))])


def product(*xs, repeat=1):
    if len(xs) == 1 and (type(repeat) is SV or seq.to_iter(xs[0])[0] != "concrete") and isinstance(xs[0], seq.VRange):
        r = xs[0]
        if t_(r.start) is not ZERO or t_(r.step) is not ONE:
            raise Unsupported("itertools.product of a shifted range")
        USED.add("itertools.product(range(b), repeat=d)")
        b = t_(r.stop)
        return seq.VList.from_segs([("seg", sym.power(b, t_(repeat)), lambda k: digits(k, b, repeat))])
    ls = [seq.to_iter(x) for x in xs] * repeat
    if not all(l[0] == "concrete" for l in ls):
        raise Unsupported("itertools.product of symbolic sequences")
    out = [()]
    for l in ls:
        out = [o + (y,) for o in out for y in l[1]]
    return seq.VList(out)


def chain(*xs):
    s = []
    for x in xs:
        s += seq.segs_of(x)
    return seq.VList.from_segs(s)


def combinations(xs, r):
    import itertools as _i
    l = seq.to_iter(xs)
    if l[0] != "concrete":
        raise Unsupported("combinations")
    return seq.VList(list(_i.combinations(l[1], r)))


it.product = product
it.chain = chain
chain.from_iterable = lambda xs: chain(*list(xs))
it.combinations = combinations
loader.SHIMS["itertools"] = it

# ------------------------------------------------------------------ equinox
eqx = loader.UnsupModule("equinox")


class Module:
    """equinox module: a record of its fields"""

    def __init_subclass__(cls, **k):
        super().__init_subclass__(**k)
        if "__init__" not in cls.__dict__ and cls.__init__ is Module.__init__ and cls.__dict__.get("__annotations__"):
            names = list(cls.__annotations__)

            def init(self, *a, **kw):
                vals = dict(zip(names, a))
                for x in kw:
                    if x in vals or x not in names:
                        raise TypeError(f"unexpected argument {x}")
                vals.update(kw)
                for x in names:
                    if x not in vals and not hasattr(cls, x):
                        raise TypeError(f"missing argument {x}")
                    if x in vals:
                        setattr(self, x, vals[x])
            cls.__init__ = init


eqx.Module = Module
eqx.field = lambda *a, default=None, **k: default
eqx.static_field = eqx.field
loader.SHIMS["equinox"] = eqx


class Linear(Module):
    """fully connected layer; its initial weights and bias are functions of the key and the sizes"""

    def __init__(self, in_features, out_features, use_bias=True, dtype=None, *, key):
        from . import jax_
        USED.add("equinox.nn.Linear")
        k = jax_.keyterm(key)
        jax_.consume(k, "linear")
        self._make(in_features, out_features, use_bias, k)

    def _make(self, in_features, out_features, use_bias, k):
        i, o = t_(in_features), t_(out_features)
        self.in_features, self.out_features, self.use_bias = in_features, out_features, use_bias
        self.key_t = k
        self.weight = SArr((o, i), lambda ix: app("linear_w", k, i, o, *ix), jax=True)
        self.bias = SArr((o,), lambda ix: app("linear_b", k, i, o, *ix), jax=True) if use_bias else None
        self._init = (self.weight, self.bias)

    def __sym_subst__(self, m):
        r = object.__new__(type(self))
        for a in ("in_features", "out_features", "use_bias", "weight", "bias"):
            setattr(r, a, seq.vsubst(getattr(self, a), m))
        r.key_t = tm.subst(self.key_t, m) if isinstance(m, dict) else m(self.key_t)
        r._init = None if self._init is None else (r.weight, r.bias)
        return r

    def __sym_ite__(self, c, o):
        """one of two layers; both as initialised"""
        if not isinstance(o, Linear) or self.use_bias is not o.use_bias or any(
                l._init is None or l._init[0] is not l.weight or l._init[1] is not l.bias for l in (self, o)):
            return NotImplemented
        r = object.__new__(Linear)
        r._make(seq.vite(c, self.in_features, o.in_features), seq.vite(c, self.out_features, o.out_features), self.use_bias, ite(c, self.key_t, o.key_t))
        return r

    def __call__(self, x, *, key=None):
        x = asarr(x)
        if x.ndim != 1:
            raise ValueError("Linear: vector expected")
        if x.dims[0] is not t_(self.in_features) and not ENG.branch(eq(x.dims[0], t_(self.in_features))):
            raise ValueError("Linear: wrong input size")
        y = self.weight @ x
        return y + self.bias if self.bias is not None else y


eqx_nn = loader.UnsupModule("equinox.nn")
eqx_nn.Linear = Linear
eqx.nn = eqx_nn
loader.SHIMS["equinox.nn"] = eqx_nn

# ------------------------------------------------------------------ optax
optax = loader.UnsupModule("optax")


class OptState:
    """state of an optimizer; opaque"""
    _sym_plain = True

    def __init__(self, t):
        self.t = t

    def __sym_term__(self):
        return self.t

    def __sym_subst__(self, m):
        return OptState(tm.subst(self.t, m) if isinstance(m, dict) else m(self.t))


class GradientTransformation:
    """an optimizer: pure functions of the gradient and its own state"""

    def __init__(self, kind, learning_rate, extra):
        self.kind, self.learning_rate = kind, learning_rate
        self.t = app("opt:" + kind, seq.vterm(learning_rate), *[seq.vterm(x) for x in extra])
        ENG.ghost.setdefault("optimizers", []).append(self)

    def init(self, params):
        return OptState(app("opt_init", self.t, seq.vterm(params)))

    def update(self, updates, state, params=None, **k):
        from . import jax_
        if k or not isinstance(state, OptState):
            raise Unsupported("optimizer update")
        g = seq.vterm(updates)
        return jax_.Grad(app("opt_update", self.t, g, state.t)), OptState(app("opt_next", self.t, g, state.t))


def _optimizer(kind):
    def make(learning_rate, *a, **k):
        USED.add(f"optax.{kind}")
        return GradientTransformation(kind, learning_rate, list(a) + [x for kv in sorted(k.items()) for x in kv])
    return make


def apply_updates(params, updates):
    USED.add("optax.apply_updates")
    if not hasattr(params, "_sym_apply"):
        raise Unsupported("apply_updates")
    return params._sym_apply(app("apply_updates", seq.vterm(params), seq.vterm(updates)))


for k_ in ("adam", "sgd", "adamw", "rmsprop"):
    setattr(optax, k_, _optimizer(k_))
optax.apply_updates = apply_updates
optax.OptState = OptState
optax.GradientTransformation = GradientTransformation
loader.SHIMS["optax"] = optax


# ------------------------------------------------------------------ functools
def _functools():
    import functools
    m = types.ModuleType("functools")
    m.__dict__.update({k: x for k, x in vars(functools).items() if not k.startswith("__")})

    def reduce(*a):
        if len(a) != 3:
            return functools.reduce(*a)
        g = _functools_ns()
        return g(*a)
    m.reduce = reduce
    return m


def _functools_ns():
    from .. import rewrite
    loader.load("bmi.utils")
    d = {"__builtins__": loader.BUILTINS}
    src = "def reduce(function, iterable, initial):\n    acc = initial\n    for x in iterable:\n        acc = function(acc, x)\n    return acc\n"
    exec(rewrite.compile_source(src, "<functools>", "functools"), d)
    return d["reduce"]


loader.SHIMS["functools"] = _functools()
